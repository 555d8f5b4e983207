#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra dashsim flags]
# Builds an instrumented copy of /repo's working tree (by build overlay; /repo is
# not touched) together with the simulator and runs the property's check.
set -u
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
for d in /opt/veriftools/go1.25.14/bin; do [ -x $d/go ] && PATH=$d:$PATH; done
export PATH HOME=${HOME:-/root}
B=$(mktemp -d "${TMPDIR:-/tmp}/dashverif.XXXXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
export TMPDIR=$B
mkdir -p "$B/src" || exit 2
cp -r "$here/sim/." "$B/src/" || exit 2
cd "$B/src" || exit 2
sed -i "s#=> /repo#=> $repo#" go.mod
# take over the versions the repository asks for
go build -o "$B/instr" ./cmd/instr >"$B/log" 2>&1 || { cat "$B/log"; echo "check: building the instrumenter failed" >&2; exit 2; }
race=
case $prop in P03|P04|P05) race=-race;; esac
ok=
for mode in "" -coarse; do
  rm -rf "$B/ov"
  "$B/instr" -repo "$repo" -out "$B/ov" $mode >"$B/log" 2>&1 || { cat "$B/log" >&2; continue; }
  if go build $race -overlay "$B/ov/overlay.json" -o "$B/dashsim" ./cmd/dashsim >"$B/log" 2>&1; then ok=1; break; fi
  cat "$B/log" >&2
done
[ -n "$ok" ] || { echo "check: build failed" >&2; exit 2; }
if [ "$tier" = replay ]; then
  export GORACE="halt_on_error=0 atexit_sleep_ms=0 exitcode=0 history_size=2" GODEBUG=asyncpreemptoff=1
  "$B/dashsim" replay "$REPLAY"
  exit
fi
"$B/dashsim" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here" -work "$B" -instr "$B/ov/instr.json" "$@"
