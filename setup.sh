#!/bin/bash
# Build the monitors (every check also rebuilds what is out of date).
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./build.sh
mkdir -p "$CARGO_TARGET_DIR" evidence replay
for v in main asan plain jumps; do
    build $v "$CARGO_TARGET_DIR/build-$v.log" || { cat "$CARGO_TARGET_DIR/build-$v.log"; exit 1; }
done
