#!/bin/bash
# Builds the harness once from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export CARGO_TARGET_DIR=$PWD/target
cd harness && exec cargo build --release --offline --locked
