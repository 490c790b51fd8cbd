#!/bin/bash
# tryseed.sh ID...: is the planted bug valid, and does its property's check catch it?
# Works on scratch copies for the validity part, then applies the patch to /repo,
# runs the check, and undoes it.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/tryseed.XXXXXX)
  cp -a /repo "$t/repo"; cp -a "$d" "$t/demo"; rm -f "$t/demo/patch.diff" "$t/demo/meta.json"
  cd "$t/repo"
  bash "$t/demo/demo.sh" >"$t/clean.log" 2>&1; clean=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$t"; continue; }
  go build ./... >"$t/build.log" 2>&1; build=$?
  go test -vet=off -count=1 ./... >"$t/test.log" 2>&1; test=$?
  timeout 300 bash "$t/demo/demo.sh" >"$t/bad.log" 2>&1; bad=$?
  [ $clean = 0 -a $build = 0 -a $test = 0 -a $bad != 0 ] && ok=valid || { ok=INVALID; tail -n 5 "$t/clean.log" "$t/test.log"; }
  cd /; rm -rf "$t"
  if [ -z "${NOCHECK:-}" ]; then
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
    git -C /repo apply "$d/patch.diff"
    start=$SECONDS
    r=""
    for p in ${PROPS:-$prop}; do
      out=$(cd $here && bash check.sh $p 2>/dev/null | grep -v KNOWN); rc=$?
      if echo "$out" | grep -q "^VIOLATION property=$p "; then r="$r $p:CAUGHT"; else r="$r $p:missed"; fi
      [ -n "${SHOW:-}" ] && echo "$out" | head -20
    done
    git -C /repo checkout -- .
    echo "$id ($prop): $ok clean=$clean build=$build test=$test demo=$bad checks:$r ($((SECONDS-start)) s)"
  else
    echo "$id ($prop): $ok clean=$clean build=$build test=$test demo=$bad"
  fi
done
