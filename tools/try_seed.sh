#!/bin/bash
# try_seed.sh ID [full]: demo on the clean tree, apply, build, (stable tests), demo, check, undo. For use while developing only.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$id ($prop): demo clean rc=$?"
git apply --check $d/patch.diff || exit 1
git apply $d/patch.diff
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "  demo patched rc=$? $(tail -1 /tmp/demo1.log | cut -c1-100)"
if [ "$2" = full ]; then bash /opt/vp/build.sh 2>&1 | tail -2; bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1; python3 - <<'P'
import json
t=json.load(open('/tmp/seedt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
st=[x if isinstance(x,str) else x.get('id') for x in (st if isinstance(st,list) else list(st))]
print("  tests broken:", [x for x in st if x not in t['passed']])
P
fi
cd /verif; VP_BUDGET=${VP_BUDGET:-28} python3 tools/run_check.py $prop > /tmp/seedc.log 2>&1; echo "  check rc=$? $(grep -m1 -A1 VIOLATION /tmp/seedc.log | tail -1 | cut -c1-170)"
tail -1 /tmp/seedc.log | cut -c1-150
git -C /repo checkout -- .; [ "$2" = full ] && bash /opt/vp/build.sh >/dev/null 2>&1
