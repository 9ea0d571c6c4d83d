#!/bin/bash
# plant.sh ID [PROPS]: confirm a planted bug in /repo's tree (apply, build, stable tests, demo), run the checks named, undo.
id=$1; props=$2; S=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || exit 1
T=$(mktemp -d /tmp/plant.XXXXXX); cp $S/* $T/; rm -f $T/*.diff $T/meta.json
(timeout 300 bash $T/demo.sh >$T/log0 2>&1); r0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $T/out.json >/dev/null 2>&1
t=$(python3 - $T/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(sys.argv[1]))
p = set(o.get('passed') or [])
print(len([x for x in b if x not in p]))
P
)
(timeout 300 bash $T/demo.sh >$T/log1 2>&1); r1=$?
echo "$id: demo clean=$r0 patched=$r1 stable tests failing=$t"; tail -1 $T/log1
for p in $props; do (cd /verif; /opt/venv/bin/python check.py $p 2>&1 | cut -c1-170 | sed -n '1p;$p'); done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf $T
