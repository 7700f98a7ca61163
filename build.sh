# Sourced: build VARIANT LOG builds the monitors: main, asan (AddressSanitizer), plain (for Memcheck),
# jumps (generated enums)
one_build() {
    case $1 in
        main) cargo build --offline --quiet --manifest-path harness/Cargo.toml ;;
        plain) CARGO_TARGET_DIR=$CARGO_TARGET_DIR/plain cargo build --offline --quiet --no-default-features --manifest-path harness/Cargo.toml ;;
        jumps) cargo build --offline --quiet --manifest-path jumps/Cargo.toml ;;
        asan) CARGO_TARGET_DIR=$CARGO_TARGET_DIR/asan RUSTC_BOOTSTRAP=1 RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" \
            cargo build --offline --quiet --no-default-features --features asan --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml ;;
    esac
}
build() {
    mkdir -p "$CARGO_TARGET_DIR"
    # One build at a time. With the hooks; without them if they do not fit the code any more
    (
        flock 9
        RUSTFLAGS="--cfg vmon" one_build "$1" 2>"$2" || RUSTFLAGS="" one_build "$1" 2>"$2"
    ) 9>"$CARGO_TARGET_DIR/.vmon-lock"
}
