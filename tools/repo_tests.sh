#!/bin/bash
# Runs akasa's own complete unit-test suite against the mqtt-proto stand-in with
# the real tokio (development aid: the stable tests cover only scram and proxy).
# usage: repo_tests.sh [REPO]
set -e
R=${1:-/repo}; W=${RT_DIR:-/tmp/rt}
mkdir -p "$W"; rm -rf "$W/akasa-core" "$W/mqtt-proto"
cp -r "$R/akasa-core" "$W/"; cp -r /verif/sim/mqtt-proto "$W/"; cp /verif/sim/Cargo.lock "$W/"
cat > "$W/Cargo.toml" <<'T'
[workspace]
members=["akasa-core"]
resolver="2"
[workspace.dependencies]
dashmap = "6"
log = "0.4"
mqtt-proto = "*"
rand = "*"
serde = "1"
serde_json="1"
thiserror="2"
[patch.crates-io]
mqtt-proto = { path = "mqtt-proto" }
lock_api = { path = "/verif/sim/vendor/lock_api" }
getrandom = { path = "/verif/sim/vendor/getrandom" }
foldhash = { path = "/verif/sim/vendor/foldhash" }
T
sed -i '/^http-body-util /d;/^tower /d' "$W/akasa-core/Cargo.toml"
cd "$W" && timeout 900 cargo test --offline 2>&1 | grep -E "^test .*FAILED|^test result|panicked|^error" -A3
