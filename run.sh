#!/usr/bin/env bash
# run.sh <property id> [thorough]
# Builds the analyser when needed and decides one property from /repo's
# current source. Exit 0: holds; exit 1 + VIOLATION line: broken or undecided.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="${VERIF_ROOT:-$ROOT}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
BIN="$ROOT/bin/tealverif"
build() { mkdir -p "$ROOT/bin" && (cd "$ROOT/tool" && go build -o "$BIN.$$" . && mv -f "$BIN.$$" "$BIN"); }
if [ "${1:-}" = build ]; then build; exit $?; fi
if [ ! -x "$BIN" ] || [ -n "$(find "$ROOT/tool" -newer "$BIN" -type f -print -quit)" ]; then
  if ! build; then
    echo "the analyser does not build" >&2
    exit 2
  fi
fi
exec "$BIN" check "$1"
