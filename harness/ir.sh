#!/bin/bash
# ir.sh BIN: whole-program LLVM IR (std, /repo's crates, harness) of one harness binary, printed path on the last line
set -e
H=$(cd "$(dirname "$0")" && pwd); W=${SX_WORK:-$H/../work}; mkdir -p "$W"; W=$(cd "$W" && pwd)
DIR=${2:-$H}
export CARGO_NET_OFFLINE=true CC_riscv64gc_unknown_linux_gnu=$H/cc.sh AR_riscv64gc_unknown_linux_gnu=llvm-ar-18 CARGO_TARGET_RISCV64GC_UNKNOWN_LINUX_GNU_LINKER=/bin/true
export CARGO_TARGET_DIR=$W/ir
if [ -n "$SX_CFG" ]; then export RUSTFLAGS="--cfg $SX_CFG"; fi
cd "$DIR"
find "$W/ir" -name "$1.ll" -delete 2>/dev/null || true
touch "src/bin/$1.rs" 2>/dev/null || true
cargo +nightly rustc -q -Zbuild-std=std,panic_abort --target riscv64gc-unknown-linux-gnu --release --bin "$1" -- --cfg sx --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 1>&2
LL=$(find "$W/ir" -name "$1.ll")
# bzip2 is C: its bitcode (cc.sh) goes in as well
BZ=$(ls -td "$W"/ir/riscv64gc-unknown-linux-gnu/release/build/bzip2-sys*/*/out/lib "$W"/ir/riscv64gc-unknown-linux-gnu/release/build/bzip2-sys*/out/lib 2>/dev/null | head -1)
if [ -n "$LL" ] && [ -n "$BZ" ]; then
  T=$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin; N="$W/bz.$1.$$"
  if "$T/llvm-link" "$BZ"/*.o -o "$N.bc" 2>/dev/null && "$T/llvm-dis" "$N.bc" -o "$N.ll"; then
    sed 's/@\.str\b/@bz.str/g; s/@incs\b/@bz.incs/g' "$N.ll" | grep -v '^attributes\|^!\|^target\|^source_filename' >> "$LL"
  fi
  rm -f "$N.bc" "$N.ll"
fi
echo "$LL"
