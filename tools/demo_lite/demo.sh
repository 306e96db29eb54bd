#!/bin/bash
# Builds main.rs against /repo's sources, offline, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$here/Cargo.toml.in" "$t/Cargo.toml" && cp "$here/Cargo.lock.in" "$t/Cargo.lock" || exit 3
cd "$t" && timeout 250 cargo run --offline -q
