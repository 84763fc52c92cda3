#!/bin/bash
# build.sh OUTDIR: builds vsim from /repo's working tree (METAC_REPO overrides) into OUTDIR.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=${METAC_REPO:-/repo}; out=${1:?}
mkdir -p "$out/sut" "$out/h"; rm -f "$out"/sut/*.o "$out"/h/*.o
SUTF="-std=gnu11 -O1 -g -fno-omit-frame-pointer -fno-optimize-sibling-calls -U_FORTIFY_SOURCE -fsanitize=address --param asan-stack=1 -fsanitize-coverage=trace-pc -fno-zero-initialized-in-bss -fno-pie -fno-common -w -include $here/sut_pre.h -I$repo/include -I$repo/src -I$repo"
HF="-std=gnu11 -O1 -g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fno-pie -w -I$repo/include -I$repo/src -I$repo -I$here"
list=$(find "$repo/src" -maxdepth 1 -name '*.c' ! -name '*_test.c' ! -name _module.c ! -name '*_checkmk.c' ! -name '*.dummy.c' ! -name '*.reflect.c' ! -name '*.test.c' | sort)
cat > "$out/redef.txt" <<'R'
malloc sim_malloc
calloc sim_calloc
realloc sim_realloc
reallocarray sim_reallocarray
free sim_free
strdup sim_strdup
__strdup sim_strdup2
strndup sim_strndup
asprintf sim_asprintf
vasprintf sim_vasprintf
aligned_alloc sim_aligned_alloc
memalign sim_memalign
posix_memalign sim_posix_memalign
vsnprintf sim_vsnprintf
snprintf sim_snprintf
sprintf sim_sprintf
__assert_fail sim_assert_fail
abort sim_abort
exit sim_exit
R
pids=()
for f in $list; do
  b=$(basename "$f" .c)
  ( gcc $SUTF -c "$f" -o "$out/sut/$b.raw.o" && objcopy --redefine-syms="$out/redef.txt" --rename-section .data=sutdata --set-section-flags .bss=alloc,load,contents,data --rename-section .bss=sutdata,alloc,load,contents,data "$out/sut/$b.raw.o" "$out/sut/$b.o" && rm -f "$out/sut/$b.raw.o" ) & pids+=($!)
done
for f in "$here"/*.c; do b=$(basename "$f" .c); gcc $HF -c "$f" -o "$out/h/$b.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
gcc -no-pie -Wl,-z,now -fsanitize=address -o "$out/vsim.tmp" "$out"/h/*.o "$out"/sut/*.o -lm
mv "$out/vsim.tmp" "$out/vsim"
