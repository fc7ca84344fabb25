#!/bin/bash
# build the IR of one property module to /tmp/<id>.ll (development helper)
id=$1; shift
export RUSTUP_TOOLCHAIN=stable DSYM_PROP=/verif/harness/props/$id.rs CARGO_TARGET_DIR=/tmp/devt
export RUSTFLAGS="$CFGS"; cd /verif/harness/sym && touch src/lib.rs; cargo rustc --release --offline --lib -- --emit=llvm-ir --cfg symbolic -C no-vectorize-loops -C no-vectorize-slp -Awarnings > /tmp/dev.log 2>&1; grep -A5 "^error" /tmp/dev.log | head -40
cp $(ls -t /tmp/devt/release/deps/symh*.ll | head -1) /tmp/$id.ll
