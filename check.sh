#!/bin/bash
# bash check.sh <property> <quick|thorough>     run one check
# bash check.sh --replay <file>                 replay one reported case
# bash check.sh --build                         build only
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 4
. ./env.sh
mkdir -p build evidence
exec 9>build/.lock
flock 9
# the reader for browsers has a program of its own, so that nothing else depends on its sources
WEB=
case "${1:-}" in
  --build) WEB=both ;;
  --replay) grep -q '"P28"' "$2" && WEB=only ;;
  P28) WEB=only ;;
esac
build() { # NAME BINARY CARGO-ARGUMENTS: build unless the sources have been built so
  local name=$1 bin=$2 repo=${FCB_REPO:-/repo} h d
  shift 2
  h=$( (cd "$repo/src/rust" && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.fbs' \) -print0 | sort -z | xargs -0 sha256sum
        cd "$HERE" && find harness web -type f -print0 | sort -z | xargs -0 sha256sum; cat overlay.py env.sh Cargo.lock) | sha256sum)
  if [ "$(cat build/$name.sha 2>/dev/null)" = "$h" ] && [ -x build/target/mc/$bin ]; then
    return 0
  fi
  # content, not timestamps, decides what is rebuilt
  if [ "$(cat build/tree.sha 2>/dev/null)" != "$h" ]; then
    rm -f build/tree.sha
    for d in build/target/mc/.fingerprint/{fcb_core,fcb_cli,fcb_web,fcbmc,wasm-bindgen,js-sys,gloo-net,console_log,serde-wasm-bindgen}-*; do [ -d "$d" ] && rm -rf "$HERE/$d"; done
    echo "$h" >build/tree.sha
  fi
  rm -f build/$name.sha
  (cd build/ws && cargo build --offline --profile mc "$@") >build/$name.log 2>&1 || { tail -40 build/$name.log >&2; return 1; }
  echo "$h" >build/$name.sha
}
export CARGO_TARGET_DIR=$HERE/build/target
python3 overlay.py || exit 4
if [ "$WEB" != only ]; then
  build build fcbmc -p fcbmc --bin fcbmc -p fcb_cli --bin fcb || { echo "the code under check does not build" >&2; exit 4; }
fi
if [ -n "$WEB" ]; then
  build web fcbmc-web -p fcbmc --bin fcbmc-web --features web || { echo "the reader for browsers does not build" >&2; [ "$WEB" = both ] || exit 4; }
fi
flock -u 9
exec 9>&-
BIN=$HERE/build/target/mc/fcbmc
[ "$WEB" = only ] && BIN=$BIN-web
export FCB_CLI=$HERE/build/target/mc/fcb
case "${1:-}" in
  --build) exit 0 ;;
  --replay) exec "$BIN" replay "$2" "$HERE" ;;
  *) exec "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" "$HERE" ;;
esac
