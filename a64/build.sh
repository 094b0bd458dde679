#!/bin/bash
# build.sh REPO OUT: LCE's kernels as an AArch64 program: OUT/guest.elf, its
# disassembly OUT/guest.lst and the functions it takes from its host OUT/guest.imp
H="$(cd "$(dirname "$0")" && pwd)"; R=$1; O=$2; L=/usr/lib/llvm-18/bin; X=/usr/include
F="--target=aarch64-linux-gnu -O2 -ffp-contract=off -fno-vectorize -fno-slp-vectorize -mno-outline-atomics -fno-stack-protector -std=c++17 -w -fno-exceptions -fno-rtti -fno-threadsafe-statics -nostdlibinc
   -isystem $H/inc -isystem $X/c++/13 -isystem $X/x86_64-linux-gnu/c++/13 -isystem $X/x86_64-linux-gnu -isystem $X
   -I$H/../stubs -I$R -DTFLITE_WITH_RUY -DRUY_PLATFORM_NEON=1 -DRUY_PLATFORM_NEON_64=1 -DRUY_PLATFORM_ARM=1 -DRUY_PLATFORM_ARM_64=1"
P=()
for s in $R/larq_compute_engine/tflite/kernels/{bconv2d,quantization,bmaxpool}.cc $H/guest.cc; do
  clang++ $F -c $s -o $O/g_$(basename $s .cc).o & P+=($!)
done
for p in "${P[@]}"; do wait $p || exit 3; done
G=$(ls $O/g_*.o)
$L/ld.lld -r $G -o $O/guest.o || exit 3
$L/llvm-nm -u $O/guest.o | sed 's/.* //' | grep -vx 'stderr\|stdout\|__dso_handle' | sort -u > $O/guest.imp
{ echo '.text'; k=0; while read -r s; do printf '.globl %s\n%s: hlt #%d\n' "$s" "$s" $k; k=$((k + 1)); done < $O/guest.imp
  echo '.data'; for s in stderr stdout __dso_handle; do printf '.balign 8\n.weak %s\n%s: .quad 0\n' $s $s; done; } > $O/imports.s
clang --target=aarch64-linux-gnu -c $O/imports.s -o $O/imports.o || exit 3
$L/ld.lld -static -nostdlib --image-base=0x20000000 -z notext -e 0 $O/guest.o $O/imports.o -o $O/guest.elf || exit 3
$L/llvm-objdump -d --no-show-raw-insn $O/guest.elf > $O/guest.lst || exit 3
