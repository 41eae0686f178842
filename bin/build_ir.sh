#!/bin/bash
# build_ir.sh WORK : compiles /repo (+ harnesses, model crates) to LLVM bitcode and links it with the standard
# library's bitcode into WORK/all.bc; also builds the engine into WORK/eng.
set -eu
W=$1; mkdir -p "$W"
V=$(cd "$(dirname "$0")/.." && pwd)
TC=$(rustc --print sysroot)
LB=$TC/lib/rustlib/x86_64-unknown-linux-gnu
export PATH=$LB/bin:$PATH
(
  cd "$V/engine" && CARGO_TARGET_DIR="$W/engt" cargo build --release --offline -q
) &
EP=$!
(
  cd "$V/harness" && RUSTFLAGS="--cfg graphbench_symex --emit=llvm-bc -C no-prepopulate-passes -A warnings" \
    CARGO_TARGET_DIR="$W/t" cargo build --release --offline -q
) &
HP=$!
# standard library bitcode
mkdir -p "$W/std"
if [ ! -f "$W/std/done" ]; then
  cd "$W/std"
  for r in "$LB"/lib/lib*.rlib; do
    n=$(basename "$r" .rlib); n=${n#lib}; n=${n%%-*}
    case $n in test|proc_macro|getopts|rustc_literal_escaper|panic_unwind|panic_abort|profiler_builtins|compiler_builtins|sysroot|unwind|libc|rustc_std_workspace_*) continue;; esac
    rm -f "$W"/std/*.o
    "$LB/bin/llvm-ar" x "$r" 2>/dev/null || ar x "$r"
    k=0
    for o in *.o; do
      [ -f "$o" ] || continue
      if llvm-objcopy --dump-section .llvmbc="s_${n}_$k.bc" "$o" /dev/null 2>/dev/null; then k=$((k+1)); fi
      rm -f "$W/std/$o"
    done
  done
  touch done
fi
wait $HP
cd "$W/t/release/deps"
L=$(ls -t *.bc | grep -v -- '-[0-9a-f]*\.build' | grep -v build_script)
# keep one file per crate (newest)
declare -A seen; FILES=()
for f in $L; do c=${f%%-*}; [ -n "${seen[$c]:-}" ] && continue; seen[$c]=1; FILES+=("$W/t/release/deps/$f"); done
for f in "$W"/std/s_*.bc; do
  # only real bitcode
  if [ "$(head -c 2 "$f")" = "BC" ]; then FILES+=("$f"); fi
done
llvm-link "${FILES[@]}" -o "$W/all.bc"
wait $EP
E=$(grep -rhoE 'fn h_[a-z0-9_]+' "$V/harness/src" | sed 's/fn //' | sort -u | paste -sd,)
opt -inline-threshold=40 -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instsimplify)),globaldce,function(instnamer)' \
  -internalize-public-api-list="$E" "$W/all.bc" -S -o "$W/all.ll"
