#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, build, test, demo, check, undo
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$NODEMO" ] || { bash /opt/vp/build.sh >/tmp/tb.build 2>&1; (cd /repo && ASAN_OPTIONS=detect_leaks=0 bash $d/demo.sh >/tmp/tb.demo0 2>&1); r0=$?; }
  git -C /repo apply $d/patch.diff || { echo "$i: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh >/tmp/tb.build 2>&1; rb=$?
    bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1
    rt=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/tb.json'))
ps=o.get('passed',o) if isinstance(o,dict) else o
print([x for x in b if x not in ps][:5])
P
)
    (cd /repo && bash $d/demo.sh >/tmp/tb.demo1 2>&1); r1=$?
  fi
  [ -n "$NOCHECK" ] || { s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p --tier quick >/tmp/tb.$i.out 2>&1; rc=$?; t=$(($(date +%s)-s)); }
  git -C /repo checkout -- .
  echo "$i ($p): demo clean=$r0 build=$rb missing tests=$rt demo bug=$r1 | check rc=$rc ${t}s $(grep -h VIOLATION /tmp/tb.$i.out | head -1)"
done
[ -n "$NODEMO" ] || bash /opt/vp/build.sh >/dev/null 2>&1
