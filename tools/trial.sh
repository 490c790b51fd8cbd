#!/bin/bash
# trial.sh RUNS "PROPS" PATCH...: run the checks against copies of /repo with each
# patch applied; prints the checks that report something. /repo is not touched.
# RUNS 0: the number of runs of the quick tier.
runs=$1 props=$2; shift 2
here=$(cd "$(dirname "$0")/.." && pwd)
[ "$props" = all ] && props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C17"
for patch in "$@"; do
  d=$(mktemp -d /tmp/trial.XXXXXX)
  cp -a /repo "$d/repo"
  mkdir "$d/verif" && cp -a "$here/check.sh" "$here/sim" "$here/known_findings.json" "$d/verif/"
  sed -i "s#/repo#$d/repo#g" "$d/verif/check.sh" "$d/verif/sim/go.mod"
  git -C "$d/repo" apply "$(realpath "$patch")" || { rm -rf "$d"; continue; }
  r=""
  for p in $props; do
    start=$SECONDS
    out=$(cd "$d/verif" && bash check.sh $p $([ $runs = 0 ] || echo -runs $runs) 2>&1); rc=$?
    [ $rc = 0 ] || { r="$r $p:rc$rc($((SECONDS-start))s)"; [ -n "${SHOW:-}" ] && echo "$out" | grep -v KNOWN | cut -c1-500 | tail -8; }
  done
  echo "$(echo "$patch" | sed 's#.*/\([^/]*/patch.diff\)#\1#'):$r"
  rm -rf "$d"
done
