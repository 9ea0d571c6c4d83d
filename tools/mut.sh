#!/bin/bash
# mut.sh 'PROPS' FILE SED-EXPR...: apply each sed expression to a scratch copy of /repo and run the checks on it
# (development aid; the registered checks always read /repo)
props=$1; file=$2; shift 2
for e in "$@"; do
  d=$(mktemp -d /tmp/mut.XXXXXX)
  cp -a /repo/. $d/
  sed -i "$e" $d/igakit/$file
  if cmp -s $d/igakit/$file /repo/igakit/$file; then echo "== NO CHANGE: $e"; rm -rf $d; continue; fi
  echo "== $e"
  for p in $props; do
    (cd /verif && IGAKIT_REPO=$d /opt/venv/bin/python check.py $p 2>&1 | grep -v '^KNOWN' | cut -c1-170 | sed -n '1p;$p'; )
  done
  rm -rf $d
done
