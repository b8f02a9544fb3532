#!/bin/bash
# usage: check.sh ID TIER  - builds the checker against /repo's current tree and runs one check
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export RUSTFLAGS="--cfg uflow_verif" CARGO_TARGET_DIR="${MC_TARGET:-$V/target}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build() {
  local p=$1 stamp="$CARGO_TARGET_DIR/stamp-$1" h
  mkdir -p "$CARGO_TARGET_DIR"
  h=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$h" != "$(cat "$stamp" 2>/dev/null)" ]; then
    (cd mc && cargo clean --offline -q --profile "$p" -p uflow >/dev/null 2>&1)
  fi
  # The second attempt is for changes of the interface of the rate computation, which only C14 needs
  (cd mc && cargo build --offline -q --profile "$p" 2>"$CARGO_TARGET_DIR/build-$p.log") ||
  (cd mc && cargo build --offline -q --profile "$p" --no-default-features 2>"$CARGO_TARGET_DIR/build-$p.log") || { cat "$CARGO_TARGET_DIR/build-$p.log"; echo "build failed"; exit 2; }
  echo "$h" >"$stamp"
}
if [ "$1" = setup ]; then build release; build plain; exit 0; fi
build release
run() {
  "$CARGO_TARGET_DIR/$1/mc" check "$2" "$3"; rc=$?
  # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV which even the handlers of the checker did not survive
  case $rc in 132|134|135|136|139)
    local r="${MC_REPLAYS:-$V/replays}/$2-$3-crash.replay"
    mkdir -p "$(dirname "$r")"
    echo "the library crashed the checker (exit status $rc); run: $CARGO_TARGET_DIR/$1/mc check $2 $3" >"$r"
    echo "VIOLATION property=$2 replay=$r"
    rc=1;;
  esac
}
run release "$1" "$2"
if [ "$1" = C03 ] && [ $rc = 0 ]; then
  build plain
  run plain "$1" "$2"
fi
exit $rc
