#!/bin/bash
# mk.sh OUT: builds the metac executable from /repo with the stand-in modules
set -e
here=$(cd "$(dirname "$0")/.." && pwd); repo=${METAC_REPO:-/repo}; out=${1:?}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > $t/go.mod <<M
module github.com/aodinokov/metac
go 1.23.0
require (
	github.com/Masterminds/sprig/v3 v3.2.3
	github.com/huandu/xstrings v1.4.0
	github.com/mitchellh/copystructure v1.2.0
	github.com/spf13/cobra v1.8.0
	gopkg.in/yaml.v3 v3.0.1
)
replace github.com/Masterminds/sprig/v3 => $here/sprig
replace github.com/huandu/xstrings => $here/xstrings
replace github.com/mitchellh/copystructure => $here/copystructure
replace github.com/spf13/cobra => $here/cobra
M
cp $repo/go.sum $t/go.sum
cd $repo && GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod go build -modfile=$t/go.mod -o "$out" .
