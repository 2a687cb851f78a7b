#!/bin/bash
# run.sh CHECK [quick|thorough]   run one check against /repo's working tree
# run.sh replay FILE              run a replay file
# run.sh build                    only build
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
BIN="$(mktemp -d /tmp/verif-bin.XXXXXX)" || exit 2
trap 'case "$BIN" in /tmp/verif-bin.*) /bin/rm -rf -- "$BIN";; esac' EXIT
# C27 judges data races
RACE=
case "${1:-}" in C27) RACE=-race;; replay) grep -q '"Check": "C27"' "$2" && RACE=-race;; esac
if ! (cd "$ROOT/harness" && go test $RACE -c -vet=off -o "$BIN/checks.test" ./checks) >"$BIN/build.log" 2>&1; then
  cat "$BIN/build.log"; echo "ERROR: build failed"; exit 3
fi
[ "${1:-}" = build ] && exit 0
export VERIF_ROOT="$ROOT" VERIF_ROLE=parent
if [ "${1:-}" = replay ]; then
  F="$(realpath "$2")"; cd "$BIN" && "$BIN/checks.test" -- replay "$F"; exit $?
fi
[ -n "${2:-}" ] && export VERIF_TIER="$2"
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$BIN" && "$BIN/checks.test" -- "$1"
exit $?
