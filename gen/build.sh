#!/bin/bash
# build.sh DIR: the metac generator of $METAC_REPO (default /repo) on the simulated Go runtime -> DIR/metac,
# the library and the walker for the generated programs -> DIR/lib.a
set -e
here=$(cd "$(dirname "$0")/.." && pwd); repo=${METAC_REPO:-/repo}; mkdir -p "$1"; out=$(cd "$1" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod GOCACHE=${GEN_GOCACHE:-$out/gocache} GONOSUMDB=* GOWORK=off
python3 "$here/gen/overlay.py" "$out/overlay"
cat > "$out/go.mod" <<M
module github.com/aodinokov/metac
go 1.23.0
require (
	github.com/Masterminds/sprig/v3 v3.2.3
	github.com/huandu/xstrings v1.4.0
	github.com/mitchellh/copystructure v1.2.0
	github.com/spf13/cobra v1.8.0
	gopkg.in/yaml.v3 v3.0.1
)
replace github.com/Masterminds/sprig/v3 => $here/gostub/sprig
replace github.com/huandu/xstrings => $here/gostub/xstrings
replace github.com/mitchellh/copystructure => $here/gostub/copystructure
replace github.com/spf13/cobra => $here/gostub/cobra
M
cp "$repo/go.sum" "$out/go.sum"
cd "$repo" && go build -buildvcs=false -modfile="$out/go.mod" -overlay "$out/overlay/overlay.json" -o "$out/metac" .
mkdir -p "$out/o"
find "$repo/src" -maxdepth 1 -name '*.c' ! -name '*_test.c' ! -name _module.c ! -name '*_checkmk.c' ! -name '*.dummy.c' ! -name '*.reflect.c' ! -name '*.test.c' | xargs -P 8 -I{} sh -c 'gcc -w -g -c -I"$1/include" -I"$1/src" "$2" -o "$3/o/$(basename "$2").o"' _ "$repo" {} "$out"
gcc -w -g -c -I"$repo/include" -I"$here/gen" "$here/gen/walk.c" -o "$out/o/walk.o"
rm -f "$out/lib.a"; ar rc "$out/lib.a" "$out"/o/*.o
