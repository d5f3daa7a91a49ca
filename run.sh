#!/bin/bash
# run.sh ID [PART]     run the check of a property (exit 0 held, 1 violated, other: error)
# run.sh replay FILE   run one saved case again
# run.sh build         build everything the checks need
# run.sh list          list the properties that have a check
#
# Everything is rebuilt from /repo's current working tree on every run; build
# output goes to /verif/target only.
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS

fail() { echo "ERROR: $1"; exit 2; }

log="$VERIF_DIR/target/build.log"
mkdir -p "$VERIF_DIR/target"
: >"$log"

build_harness() {
  (cd harness && cargo build --offline --locked) >>"$log" 2>&1 \
    || { tail -40 "$log"; fail "the harness does not build against /repo"; }
}
build_release() {
  (cd harness && cargo build --offline --locked --release) >>"$log" 2>&1 \
    || { tail -40 "$log"; fail "the harness does not build against /repo (release)"; }
}
# The command line tool, with a build folder outside
# /repo.
build_cli() {
  (cd /repo && CARGO_TARGET_DIR="$VERIF_DIR/target/cli" cargo build --offline --locked -p at-asm --bin at-asm) >>"$log" 2>&1 \
    || { tail -40 "$log"; fail "at-asm does not build"; }
}

export ATCHECK_RELEASE="$CARGO_TARGET_DIR/release/atcheck"
export ATCHECK_CLI="$CARGO_TARGET_DIR/cli/debug/at-asm"
bin="$CARGO_TARGET_DIR/debug/atcheck"

needs_all() { build_harness; build_release; build_cli; }

case "${1:-}" in
  build) needs_all; echo built; exit 0 ;;
  list) build_harness; exec "$bin" list ;;
  replay) needs_all; exec "$bin" replay "$2" ;;
  M04) build_harness; build_release ;;
  O01|O03|O04|A04) needs_all ;;
  E*|M*) build_harness ;;
  *) build_harness; build_cli ;;
esac
exec "$bin" check "$@"
