#!/bin/bash
# check.sh PROPERTY: builds the simulation against /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
prop=$1
export VERIF_ROOT=$PWD CARGO_TERM_COLOR=never
case $prop in
C18 | C19) suite=lite ;;
C22) suite=store ;;
*) suite=akasim ;;
esac
mkdir -p evidence replays
(cd sim && cargo build --offline -q -p $suite 2>&1 | tail -40 && exit "${PIPESTATUS[0]}") || {
    echo "cannot build the simulation"
    exit 2
}
exec sim/target/x86_64-unknown-linux-gnu/debug/$suite check "$prop"
