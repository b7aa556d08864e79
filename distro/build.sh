#!/bin/bash
# Builds the probe of the distribution crate from a copy of /repo/distro, with generated stand-ins for the two
# WASM files that the repository does not hold.
here=$(cd "$(dirname "$0")" && pwd)
repo=${TG_REPO:-/repo}
src=$here/../target/distro-src
[ -d "$repo/distro" ] || exit 3
mkdir -p "$here/../target" || exit 3
rm -rf "$src" && cp -r "$repo/distro" "$src" || exit 3
p=$src/trust-graph-service
rm -rf "$p" && mkdir "$p" || exit 3
head -c $((700 + RANDOM % 400)) /dev/urandom > "$p/trust-graph.wasm"
head -c $((700 + RANDOM % 400)) /dev/urandom > "$p/sqlite3.wasm"
cp "$repo/distro/init_certs.json" "$repo/distro/Config.toml" "$p" || exit 3
cd "$here" && CARGO_TARGET_DIR=$here/../target/distro cargo build --release --offline
