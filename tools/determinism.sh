#!/bin/bash
# determinism.sh N: do two processes agree on the event logs of N runs of every
# scenario (one with GOMAXPROCS=1, one with 8, both at once)?
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-500}
t=$(mktemp -d /tmp/determinism.XXXXXX)
bash "$here/check.sh" --bin "$t" >/dev/null || exit 2
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C09R C10 C11 C12 C13 C14 C16 C17; do
  b=gitsim m=$n
  [ $p = C09R ] && b=gitsim-race m=$((n / 4))
  GOMAXPROCS=1 "$t/$b" -norace hashes $p $m >"$t/1" &
  GOMAXPROCS=8 "$t/$b" -norace hashes $p $m >"$t/2"
  wait
  for f in 1 2; do grep -aE '^[0-9]+ [0-9a-f]{16} [0-9]+ [0-9]+ (true|false)$' "$t/$f" >"$t/$f.log"; done # not what the library prints
  echo "$p runs=$(wc -l <"$t/1.log") events=$(awk '{s+=$3} END {print s}' "$t/1.log") distinct=$(cut -d' ' -f2 "$t/1.log" | sort -u | wc -l) differing=$(diff "$t/1.log" "$t/2.log" | grep -c '^<')"
done
rm -rf "$t"
