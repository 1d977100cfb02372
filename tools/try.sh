#!/bin/bash
# try.sh [ID...]: runs the check of each planted bug's property against a scratch copy
# of the repository with the bug, and prints whether it is caught.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf "/tmp/try/$d"; mkdir -p /tmp/try; cp -a /repo "/tmp/try/$d"
  (cd "/tmp/try/$d" && git checkout -q -- . && git apply /verif/seeded/$d/patch.diff) || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  VERIF_REPO="/tmp/try/$d" /opt/venv/bin/python check.py --property $p --no-evidence $EXTRA > "/tmp/try/$d.out" 2>&1
  rc=$?
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep '^violation' /tmp/try/$d.out | cut -c1-200) $(grep 'violating' /tmp/try/$d.out)"
  rm -rf "/tmp/try/$d"
done
