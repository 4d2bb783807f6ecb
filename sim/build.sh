#!/bin/bash
# Builds the simulator against /repo's current sources. Output: $OUT (default /verif/build).
set -e
SIM="$(cd "$(dirname "$0")" && pwd)"; REPO=${REPO:-/repo}; OUT=${OUT:-$SIM/../build}
mkdir -p "$OUT/lib" "$OUT/sim"; OUT="$(cd "$OUT" && pwd)"
exec 9>"$OUT/.lock"; flock 9
put() { if ! cmp -s "$1" "$2"; then mv "$1" "$2"; else rm -f "$1"; fi; }
# C++ cannot have a typedef with the tag's own name, so tags of the *_Stats types are renamed in the harness's copy of the header
sed -E 's/typedef struct ([A-Za-z]+_[A-Za-z]*Stats) ?\{/typedef struct \1_tag {/' "$REPO/maa/maa.h" > "$OUT/sim/.h"; put "$OUT/sim/.h" "$OUT/sim/maa_cxx.h"
"$SIM/mkredef.sh" > "$OUT/.r"; put "$OUT/.r" "$OUT/redef.txt"
awk -f "$REPO/maa/arggram2c" < "$REPO/maa/arggram.txt" > "$OUT/.a"; put "$OUT/.a" "$OUT/lib/arggram.c"
ver() { sed -nE "s/^$1[[:space:]]*=[[:space:]]*([0-9]+).*/\1/p" "$REPO/Makefile.common"; }
srcs=$(awk '/^SRCS[ \t]*=/{p=1} p{l=$0; sub(/^SRCS[ \t]*=/,"",l); c=(l ~ /\\$/); sub(/\\$/,"",l); printf "%s ",l; if(!c) exit}' "$REPO/maa/Makefile")
LF="-DHAVE_HEADER_SYS_RESOURCE_H=1 -DHAVE_HEADER_ALLOCA_H=1 -DSIZEOF_LONG=8 -DMAA_MAJOR=$(ver MAA_MAJOR) -DMAA_MINOR=$(ver MAA_MINOR) -DMAA_TEENY=$(ver MAA_TEENY)"
md5sum < "$SIM/build.sh" > "$OUT/.f"; put "$OUT/.f" "$OUT/flags"
{
 echo "all: $OUT/simcheck"
 L=""
 for s in $srcs; do o="$OUT/lib/${s%.c}.o"; L="$L $o"
  echo "$o: $REPO/maa/$s $(ls $REPO/maa/*.h | tr '\n' ' ') $OUT/lib/arggram.c $OUT/redef.txt $OUT/flags"
  echo "	clang -c -O0 -fsanitize-address-use-after-return=never -g -fno-pie -fno-builtin -fno-common -fno-omit-frame-pointer -w -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -Wno-error=return-type -fsanitize=address -fno-sanitize-address-globals-dead-stripping -mllvm -asan-with-comdat=0 -fsanitize-coverage=trace-pc-guard $LF -I$REPO/maa -I$OUT/lib -o \$@.t $REPO/maa/$s && objcopy --redefine-syms=$OUT/redef.txt --rename-section .data=maa_data --rename-section .bss=maa_bss \$@.t \$@ && rm -f \$@.t"
 done
 O=""
 for c in $SIM/*.cpp; do b=$(basename $c .cpp); o="$OUT/sim/$b.o"; O="$O $o"
  echo "$o: $c $(ls $SIM/*.h | tr '\n' ' ') $OUT/sim/maa_cxx.h"
  echo "	clang++ -c -std=c++20 -O1 -g1 -fno-pie -Wall -Wno-unused-function -Wno-deprecated-declarations -I$SIM -I$OUT/sim -o \$@ $c"
 done
 echo "$OUT/simcheck: $O $L"
 echo "	clang++ -no-pie -fsanitize=address -o \$@ \$^"
} > "$OUT/Makefile"
make -s -j"${JOBS:-8}" -f "$OUT/Makefile"
# what the library still takes from the real C library
nm -u $(for s in $srcs; do echo "$OUT/lib/${s%.c}.o"; done) | awk '/ U /{print $2}' | sort -u | grep -v -E '^(sim_|__asan|__sanitizer|__stack_chk)' > "$OUT/.u"
nm --defined-only $(for s in $srcs; do echo "$OUT/lib/${s%.c}.o"; done) 2>/dev/null | awk 'NF==3{print $3}' | sort -u > "$OUT/.d"
grep -vxFf "$OUT/.d" "$OUT/.u" | tr '\n' ' ' > "$OUT/real_libc.txt" || true
