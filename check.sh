#!/bin/bash
# check.sh ID quick|thorough [-family NAME] [-budget SECONDS]
#                              run one check against /repo's working tree
# check.sh replay FILE         re-run one recorded violation
# check.sh list                list the families of all checks
set -u
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
S=$(mktemp -d /tmp/verif-check.XXXXXXXX) || exit 3
R=$(mktemp -d /dev/shm/verif-check.XXXXXXXX 2>/dev/null) || R=$S/run
cleanup() { chmod -R u+rwx "$S" "$R" 2>/dev/null; rm -rf "$S" "$R"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
if ! (cd "$V/mc" && go build -o "$S/mc" .) >"$S/build.log" 2>&1; then
  cat "$S/build.log" >&2
  echo "check error: the harness does not build against /repo" >&2
  exit 3
fi
# An instrumented copy of the sources (mc/instr) for the checks that control
# the order of map iterations or the schedule, or start from a fresh state.
# Where it cannot be built the plain harness runs what it can.
instrumented() {
  local skip="" bad
  (cd "$V/mc" && go build -o "$S/instr" ./instr) >"$S/instr.log" 2>&1
  for _ in 1 2 3; do
    rm -rf "$S/ov"
    mkdir -p "$S/ov"
    (cd "$V/mc" && "$S/instr" -repo /repo -hook "$V/mc/hook/hook.go.txt" -out "$S/ov" -skip "$skip" &&
      go build "$@" -tags instr -overlay "$S/ov/overlay.json" -o "$S/mci" .) >"$S/instr.log" 2>&1 && mv "$S/mci" "$S/mc" && return
    # files that do not build with edits are taken without
    bad=$(grep -o '[A-Za-z0-9_.-]*\.go:[0-9]*:' "$S/instr.log" | cut -d: -f1 | sort -u | tr '\n' ',')
    [ -z "$bad" ] && break
    echo "note: without instrumentation: $bad" >&2
    skip="$skip$bad"
  done
  cat "$S/instr.log" >&2
  echo "note: no instrumented build, running without" >&2
  export VERIF_NOINSTR=1
}
ID=${1:-list}
[ "$ID" = replay ] && ID=$(sed -n 's/.*"check": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
case $ID in
  C14 | C16 | C17 | C20 | list) instrumented ;;
  C15) CGO_ENABLED=1 instrumented -race ;;
esac
export GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
export VERIF_DIR="$V" VERIF_REPO=/repo
case "${1:-list}" in
  list) "$S/mc" list ;;
  replay) F=$(realpath "$2"); "$S/mc" path -file "$F" -scratch "$S/replay" ;;
  *)
    ID=$1; T=${2:-${VERIF_TIER:-quick}}
    shift; [ $# -gt 0 ] && shift
    "$S/mc" run -check "$ID" -tier "$T" -verif "$V" -scratch "$R" "$@" ;;
esac
