#!/bin/bash
# Developer's build: short error list
. /verif/env.sh
RUSTFLAGS="--cfg vmon" cargo build --offline --manifest-path /verif/harness/Cargo.toml --message-format short 2>&1 | grep -E "^src|^error" | grep -v "^/repo" | head -${1:-40}
