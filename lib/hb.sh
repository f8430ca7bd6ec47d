#!/bin/sh
cd /verif/harness && RUSTFLAGS="--cfg pt_verif" CARGO_TARGET_DIR=/verif/.build cargo build --release --offline 2>&1 | grep -E "^error" -A12 | head -${1:-60}
