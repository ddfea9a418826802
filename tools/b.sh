#!/bin/bash
# developer helper: lay out, build group $1 -> .work/ir/$1.ll
set -e
cd "$(dirname "$0")/.."
python3 tools/ws.py $1
cd .work/$1
mkdir -p ../ir
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=$PWD/../target-$1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cargo rustc --offline -p h_$1 --lib -- --emit=llvm-ir=$PWD/../ir/$1.ll,link -C no-vectorize-loops -C no-vectorize-slp
ls -la ../ir/$1.ll
