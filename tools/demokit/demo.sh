#!/bin/bash
# Runs the recorded transactions of demo.json on the program in the current directory (/repo) and
# compares what can be observed after each with what must be observed (expected.txt).
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/kit/src"
cp "$here"/kit/*.rs "$tmp/kit/src/"
sed "s#@REPO@#$repo#" "$here/kit/Cargo.toml.in" > "$tmp/kit/Cargo.toml"
cp "$here/kit/Cargo.lock.in" "$tmp/kit/Cargo.lock"
build() {
  CARGO_TARGET_DIR="$tmp/target" cargo build --release --offline --manifest-path "$tmp/kit/Cargo.toml" "$@" > "$tmp/log" 2>&1
}
# the later forms do not name the fields of the program's accounts, or its snapshot function
if ! build && ! build --features fixed && ! build --features nosnap && ! build --features fixed,nosnap; then
  tail -30 "$tmp/log"; exit 3
fi
timeout 120 "$tmp/target/release/demo" "$here/demo.json" "$tmp/out.txt" @FLAGS@ > /dev/null 2> "$tmp/err" || { tail -5 "$tmp/err"; echo "the program run did not finish"; exit 1; }
if diff "$here/expected.txt" "$tmp/out.txt" > "$tmp/diff"; then
  echo "as expected"; exit 0
fi
head -40 "$tmp/diff"; exit 1
