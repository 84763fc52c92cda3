#!/bin/bash
# demo.sh (cwd: the repository): builds the generator with stand-ins for the libraries that are not there, then ./steps.sh decides
h=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 9; trap 'chmod -R u+w "$t"; rm -rf "$t"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod GOCACHE=$t/cache GONOSUMDB=* GOWORK=off GOSUMDB=off
cat > "$t/go.mod" <<M
module github.com/aodinokov/metac
go 1.23.0
require (
	github.com/Masterminds/sprig/v3 v3.2.3
	github.com/huandu/xstrings v1.4.0
	github.com/mitchellh/copystructure v1.2.0
	github.com/spf13/cobra v1.8.0
	gopkg.in/yaml.v3 v3.0.1
)
replace github.com/Masterminds/sprig/v3 => $h/gostub/sprig
replace github.com/huandu/xstrings => $h/gostub/xstrings
replace github.com/mitchellh/copystructure => $h/gostub/copystructure
replace github.com/spf13/cobra => $h/gostub/cobra
M
cp "$r/go.sum" "$t/go.sum"
go build -buildvcs=false -modfile="$t/go.mod" -o "$t/metac" . || exit 8
. "$h/steps.sh"
