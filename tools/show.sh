#!/bin/bash
# Developer's view: what victor paints for a document
. /verif/env.sh
exec "$CARGO_TARGET_DIR/debug/vmon" show "$1"
