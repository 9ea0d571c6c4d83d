#!/bin/bash
# caught.sh ID...: run the check of each planted bug's property on a scratch copy of /repo with the bug applied
for id in "$@"; do
  d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $d/
  git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf $d; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (cd /verif && IGAKIT_REPO=$d /opt/venv/bin/python check.py $p >$d/out 2>&1; r=$?; echo "$id: $p exit $r: $(grep -v '^KNOWN' $d/out | head -1 | cut -c1-150)")
  rm -rf $d
done
