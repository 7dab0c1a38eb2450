#!/bin/bash
# Builds main.rs beside this script against the working tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp /opt/vp/Cargo.lock "$w/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$w/Cargo.toml"
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet 2> "$w/log" || { echo "does not build"; tail -n 30 "$w/log"; exit 4; }
"$w/target/debug/demo"
