#!/bin/bash
# cwd: /repo after the build. Compiles the library's sources with demo.c in a scratch directory and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 9; trap 'rm -rf "$t"' EXIT
src=$(find src -maxdepth 1 -name '*.c' ! -name '*_test.c' ! -name _module.c ! -name '*_checkmk.c' ! -name '*.dummy.c' ! -name '*.reflect.c' ! -name '*.test.c' | sort)
gcc -std=gnu11 -w -O1 -g -fsanitize=address -Iinclude -Isrc -I. -I"$d" $src "$d/demo.c" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup -lm -o "$t/demo" || exit 9
cd "$t" && ASAN_OPTIONS=detect_leaks=0:exitcode=5 timeout 120 ./demo
