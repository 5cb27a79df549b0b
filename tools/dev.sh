#!/bin/bash
# dev: build the IR of one module and run it   usage: dev.sh c03 [symx args] [harness...]
m=$1; shift
cd /verif/harness
rm -f /tmp/$m.j
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo rustc --release --offline --features $m --target-dir /tmp/t_$m -- --emit=llvm-ir=/tmp/$m.ll -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error" -A8 | head -40
[ ${PIPESTATUS[0]} = 0 ] || exit 1
/verif/target/symx/release/symx /tmp/$m.ll --out /tmp/$m.j --jobs 8 --time ${TIME:-300} --prof "$@"
python3 /verif/tools/sum.py /tmp/$m.j
