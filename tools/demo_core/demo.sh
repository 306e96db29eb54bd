#!/bin/bash
# Builds main.rs with /repo's akasa-core (and a stand-in of the mqtt-proto crate, which is not available offline)
# in a scratch directory and runs it: a broker on a free loopback port and a few small clients.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$here/Cargo.toml.in" "$t/Cargo.toml" && cp "$here/Cargo.lock.in" "$t/Cargo.lock" && cp -r "$here/mqtt-proto" "$t/mqtt-proto" || exit 3
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q
