#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra options]: builds the simulator from /repo's working tree, runs the seeded search.
cd "$(dirname "$0")" || exit 2
p=${1:?}; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
seed=${VERIF_SEED:-1}
b=$PWD/build/$p.$$; trap 'rm -rf "$b"' EXIT
mkdir -p "$b" evidence replays
o=(--tier "$tier" --seed "$seed" --evidence "$PWD/evidence/$p.json" --replay-dir "$PWD/replays" --known "$PWD/KNOWN_FINDINGS")
case $p in
P17|P18|P19) bld=gen/build.sh; cmd=(python3 -B gen/gensim.py "$p" "$b") ;;   # the generator
*) bld=sim/build.sh; cmd=("$b/vsim" --prop "$p") ;;                      # the library
esac
if ! $bld "$b" >"$b/log" 2>&1; then echo "build failed"; tail -40 "$b/log"; exit 3; fi
timeout 860 "${cmd[@]}" "${o[@]}" "$@"
rc=$?
exit $rc
