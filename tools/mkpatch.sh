#!/bin/bash
# mkpatch.sh ID FILE SED...: write seeded/ID/patch.diff from sed edits of /repo/igakit/FILE (undone straight away)
id=$1; f=/repo/igakit/$2; shift 2
mkdir -p /verif/seeded/$id
for e in "$@"; do sed -i "$e" $f; done
git -C /repo diff > /verif/seeded/$id/patch.diff
git -C /repo checkout -q -- .
cat /verif/seeded/$id/patch.diff | grep '^[-+]'
