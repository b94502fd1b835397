#!/bin/sh
# builds the engine and the harness (bitcode + native) into /verif/build
set -e
V=$(cd "$(dirname "$0")" && pwd)
export RUSTFLAGS="--cfg sx_hooks"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p "$V/build"
gcc -O1 -c "$V/harness/sx.c" -o "$V/build/sx.o"
cd "$V/harness"
CARGO_TARGET_DIR="$V/build/target" cargo rustc --offline --release -- --emit=llvm-ir,link -C link-arg="$V/build/sx.o"
