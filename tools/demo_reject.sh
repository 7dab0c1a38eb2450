#!/bin/bash
# main.rs has to build and run, each bad*.rs has to be rejected by the compiler.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp /opt/vp/Cargo.lock "$w/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$w/Cargo.toml"
cd "$w" || exit 3
cp "$here/main.rs" src/main.rs
CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet 2> "$w/log" || { echo "does not build"; tail -n 30 "$w/log"; exit 4; }
"$w/target/debug/demo" || exit 5
for b in "$here"/bad*.rs; do
    cp "$b" src/main.rs
    if CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet 2> "$w/log"; then
        echo "accepted: $(basename "$b")"
        exit 1
    fi
done
