#!/bin/bash
# seedtest.sh ID...: validates planted changes (applies, builds, stable tests pass, demo) and runs the property's quick check on each.
cd /verif
for id in "$@"; do
  s=seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
  if [ -z "$NODEMO0" ]; then (cd /repo && bash $PWD/../verif/$s/demo.sh >/tmp/demo0.log 2>&1); c0=$?; else c0=-; fi
  git -C /repo apply "/verif/$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; tp=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/st.json'));print(len(t['passed']),len(t['failed']))")
  (cd /repo && bash /verif/$s/demo.sh >/tmp/demo1.log 2>&1); c1=$?
  if [ -z "$NOCHECK" ]; then out=$(./check.sh $p quick 2>&1); rc=$?; v=$(echo "$out" | grep -E "^violation:" | cut -c1-150); last=$(echo "$out"| tail -1); fi
  git -C /repo checkout -- .
  echo "$id [$p]: build $rb tests $tp demo clean $c0 patched $c1 check rc=$rc $v | $last"
done
bash /opt/vp/build.sh >/tmp/sb.log 2>&1
