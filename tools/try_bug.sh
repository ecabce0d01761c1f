#!/bin/bash
# try_bug.sh ID... : verify planted bugs against /repo and run their property's quick check on them
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && timeout 300 $d/demo.sh >/tmp/try.$id.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id patch does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1 || b=BUILDFAIL
  bash /opt/vp/test.sh /tmp/try.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
d=json.load(open('/tmp/try.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('tests') or b.get('stable') or list(b.values())[0]
base=set(base if isinstance(base,list) else base.keys())
m=base-set(d['passed']); print('ok' if not m else 'FAIL:'+','.join(m))
P
)
  (cd /repo && timeout 300 $d/demo.sh >/tmp/try.$id.bug 2>&1); p=$?
  (cd /verif/mc && cargo build --offline -q 2>/dev/null; timeout 900 ./target/debug/mc check $prop ${TIER:-quick} >/tmp/try.$id.check 2>&1); k=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$prop " /tmp/try.$id.check)
  echo "$id prop=$prop build=$b tests=$t demo_clean=$c demo_bug=$p check_exit=$k violations=$v"
  sed -i "/^$id /d" /verif/tools/seeded_results.txt 2>/dev/null; [ $v -gt 0 ] && echo "$id $prop" >> /verif/tools/seeded_results.txt || echo "$id missed" >> /verif/tools/seeded_results.txt
done
(cd /verif/mc && cargo build --offline -q 2>/dev/null)
