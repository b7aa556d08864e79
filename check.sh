#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's working tree and decides property ID.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
export CARGO_TARGET_DIR=$VERIF_DIR/target
log=$(mktemp) || exit 2
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
  tail -60 "$log" >&2; rm -f "$log"
  echo "check.sh: the harness does not build against this tree" >&2
  exit 2
fi
if [ "$1" = C28 ] && ! bash distro/build.sh >"$log" 2>&1; then
  tail -20 "$log" >&2
  echo "check.sh: the distribution crate does not build here" >&2
  rm -f "$CARGO_TARGET_DIR/distro/release/distro-probe"
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/tgcheck" run "$1" "${2:-${VERIF_TIER:-quick}}"
