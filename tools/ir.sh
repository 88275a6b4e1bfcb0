#!/bin/bash
# ir.sh FEATURE: (re)build the LLVM IR of the harnesses of one property
cd /verif/harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo rustc --release --offline --lib --crate-type cdylib --features $1 --target-dir /verif/target/ir-$1 -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
