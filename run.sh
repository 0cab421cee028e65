#!/bin/bash
# run.sh setup | run.sh CXX [quick|thorough] | run.sh replay FILE | run.sh case JSON
# Builds the workspace from /repo's current tree (instrumented copies in a scratch
# directory), builds the checker on it, and runs it. Exit 0: held; 1: violation;
# anything else: no answer.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh || exit 3
export GOFLAGS=-mod=mod CGO_ENABLED="${CGO_ENABLED:-0}"
export VERIF_SEED="${VERIF_SEED:-1}"
W="$(mktemp -d /tmp/smapchk.XXXXXX)" || exit 3
trap 'rm -rf "$W"' EXIT
trap 'exit 3' TERM INT
build() {
  (cd "$V/tools/mkws" && go build -trimpath -o "$W/mkws" .) || return 1
  "$W/mkws" -repo "$R" -verif "$V" -out "$W/ws" -mode sched || return 1
  mkdir "$W/ws/checker" && cp "$V"/checker/*.go "$V"/checker/go.mod "$W/ws/checker/" || return 1
  (cd "$W/ws/checker" && go build -trimpath -o "$W/checker" .) || return 1
}
build >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; echo "run.sh: build failed" >&2; exit 3; }
cmd="${1:-}"
case "$cmd" in
setup) echo "built"; exit 0 ;;
replay) "$W/checker" replay "$2" ;;
list) "$W/checker" list ;;
case) printf '{"case":%s}' "$2" >"$W/case.json"; "$W/checker" replay "$W/case.json" ;;
C[0-9]*)
  E="${VERIF_OUT:-$V}"; mkdir -p "$E/evidence"
  [ "$E" = "$V" ] || cp "$V/known-findings.txt" "$E/" || exit 3
  cd "$W" && "$W/checker" check "$cmd" "${2:-${VERIF_TIER:-quick}}" "$E" ;;
*) echo "usage: run.sh setup | CXX [quick|thorough] | replay FILE" >&2; exit 3 ;;
esac
