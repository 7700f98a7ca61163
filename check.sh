#!/bin/bash
# check.sh ID: build the monitors against /repo's working tree and run the check of property ID.
# check.sh ID --case SEED TIER INDEX: replay one case.
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./build.sh
id=$1; shift
log=$CARGO_TARGET_DIR/build-$id.log
if [ "$id" = C21 ] || [ "$id" = C06 ]; then
    [ "$id" = C21 ] && build plain "$log" && export VMON_PLAIN=$CARGO_TARGET_DIR/plain/debug/vmon
    build asan "$log" && bin=$CARGO_TARGET_DIR/asan/x86_64-unknown-linux-gnu/debug/vmon
    # Frames are larger: larger stacks for them
    export RUST_MIN_STACK=67108864
    export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:quarantine_size_mb=64:abort_on_error=0:exitcode=99
    ulimit -s 65536 2>/dev/null
elif [ "$id" = C26 ]; then
    # The enums depend on VERIF_SEED and VERIF_TIER
    [ "$1" = --case ] && export VERIF_SEED=$2 VERIF_TIER=$3
    build jumps "$log" && bin=$CARGO_TARGET_DIR/debug/jumps
else
    build main "$log" && bin=$CARGO_TARGET_DIR/debug/vmon
fi
if [ -z "$bin" ]; then
    tail -40 "$log" >&2
    echo "the monitors do not build against /repo" >&2
    exit 2
fi
if [ "$1" = --case ]; then
    shift
    exec "$bin" case "$id" "$@"
fi
exec "$bin" check "$id"
