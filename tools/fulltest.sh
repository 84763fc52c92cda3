#!/bin/bash
# development aid, no check uses it: builds metac with the stand-in Go modules in a scratch copy of /repo
# and runs the project's whole C test suite there. Prints the suites with failures.
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
METAC_REPO=${METAC_REPO:-/repo}
git -C "$METAC_REPO" ls-files -z | (cd "$METAC_REPO" && xargs -0 cp --parents -t "$t")
"$(dirname "$0")/../gostub/mod/mk.sh" "$t/metac.bin" || exit 1
cd "$t" && CC=gcc timeout 800 make METAC=$t/metac.bin -k -j8 test > log 2>&1
grep -c "^100%" log; grep -E "^[0-9]+%" log | grep -v '^100%'; grep -E ":[FE]:" log; grep -E "error:|Segmentation|Error [0-9]" log | head -20
