#!/bin/bash
# check.sh PROPERTY [gitsim flags]      decide a property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE                run a recorded counterexample again
# check.sh --bin DIR                    only build, leaving DIR/gitsim
# check.sh --warm                       only build (fills the build cache)
# Builds the simulator against /repo's current working tree, every statement of
# which calls the simulator's hook (a build overlay; /repo is not touched).
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
unset GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GOEXPERIMENT
work=$(mktemp -d /tmp/gitsim-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
fail() { echo "check.sh: $*" >&2; exit 2; }
[ "${1:-}" = --replay ] && replay=$(realpath -m "$2")
cd "$here/sim" || exit 2
mkdir "$work/ov"
cp go.mod "$work/go.mod" && cp go.sum "$work/go.sum" || fail "no module files"
go build -modfile="$work/go.mod" -o "$work/instr" ./cmd/instr || fail "cannot build the instrumenter"
go list -modfile="$work/go.mod" -export -deps -f '{{.ImportPath}} {{.Export}}' github.com/ipfs/go-ipld-git/... >"$work/exports" 2>/dev/null
"$work/instr" /repo "$work/ov" "$work/exports" "$here/sim/simhook/dict.go" >/dev/null || fail "cannot instrument /repo"
go build -modfile="$work/go.mod" -overlay "$work/ov/overlay.json" -o "$work/gitsim" ./cmd/gitsim || fail "cannot build the simulator against /repo"
case "${1:-} ${replay:+$(grep -o '"scenario": "[A-Z0-9]*R"' "$replay")}" in
C09\ * | --warm\ * | --bin\ * | *R\")
  # The same with the race detector, and with a standard library whose pools do
  # not drop items at random under the detector.
  pool=$(go env GOROOT)/src/sync/pool.go
  sed 's/if runtime_randn(4) == 0 {/if false \&\& runtime_randn(4) == 0 {/' "$pool" >"$work/ov/pool.go" || fail "no standard library"
  sed "s|^{\"Replace\":{|&\"$pool\":\"$work/ov/pool.go\",|" "$work/ov/overlay.json" >"$work/ov/overlay-race.json"
  CGO_ENABLED=1 go build -race -modfile="$work/go.mod" -overlay "$work/ov/overlay-race.json" -o "$work/gitsim-race" ./cmd/gitsim || fail "cannot build the simulator with the race detector"
  evid=(-racebin "$work/gitsim-race")
  ;;
*) evid=() ;;
esac
rm -rf "$work/ov" "$work/instr"
evid+=(-evidence "$here/evidence" -known "$here/known_findings.json")
case ${1:-} in
--warm) echo "builds"; exit 0 ;;
--bin) mkdir -p "$2" && cp "$work/gitsim" "$work/gitsim-race" "$2/"; exit ;;
--replay) "$work/gitsim" "${evid[@]}" replay "$replay"; exit ;;
"") fail "which property?" ;;
esac
prop=$1
shift
"$work/gitsim" "${evid[@]}" "$@" run "$prop"
