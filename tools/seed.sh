#!/bin/bash
# developer helper: confirm a planted bug: tools/seed.sh ID [nocheck]
# (applies it to /repo, builds, runs the stable tests, its demo and its property's check, undoes it)
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 2; }
bash $d/demo.sh >/tmp/seed_$1.demo0 2>&1; echo "$1 demo on unchanged tree: $?"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_$1.build 2>&1; echo "$1 build: $?"
bash /opt/vp/test.sh /tmp/seed_$1.json >/tmp/seed_$1.test 2>&1
python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b
r=json.load(open(f'/tmp/seed_{sys.argv[1]}.json'))
miss=[t for t in s if t not in r['passed']]
print(sys.argv[1],'stable tests missing:',miss)
P
bash $d/demo.sh >/tmp/seed_$1.demo1 2>&1; echo "$1 demo with patch: $?"
if [ "$2" != nocheck ]; then cd /verif; python3 tools/check.py $prop --tier quick >/tmp/seed_$1.check 2>&1; echo "$1 check $prop: $?"; grep VIOLATION /tmp/seed_$1.check; cd /repo; fi
git apply -R $d/patch.diff
git status --porcelain --untracked-files=no
