#!/bin/bash
# plant.sh ID: builds seeded/ID from /tmp/plant/ID/{edit.py or patch.diff,demo.py,meta.json}, after checking
# in a scratch copy that it applies, passes the tests, and that the demonstration
# tells the changed tree from the unchanged one.
set -e
id=$1; src=/tmp/plant/$id; dst=/verif/seeded/$id
rm -rf "/tmp/plantwork/$id"; mkdir -p /tmp/plantwork
cp -a /repo "/tmp/plantwork/$id"
cd "/tmp/plantwork/$id"; git checkout -q -- .
if [ -f $src/edit.py ]; then /opt/venv/bin/python $src/edit.py; git diff > $src/patch.diff; git checkout -q -- .; fi
mkdir -p $dst
cp /verif/tools/mini.py /verif/tools/demo.sh $dst/
cp $src/demo.py $src/meta.json $dst/; cp $src/patch.diff $dst/patch.diff
[ -s $dst/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
export PYTHONDONTWRITEBYTECODE=1
bash $dst/demo.sh > /tmp/plantwork/$id.clean 2>&1 || { echo "$id: demo fails on clean tree"; tail -5 /tmp/plantwork/$id.clean; rm -rf "$dst"; exit 1; }
git apply $dst/patch.diff
if bash $dst/demo.sh > /tmp/plantwork/$id.bad 2>&1; then echo "$id: demo passes with the patch"; tail -5 /tmp/plantwork/$id.bad; rm -rf "$dst"; exit 1; fi
grep -q '^FAILED' /tmp/plantwork/$id.bad || { echo "$id: demo failed otherwise:"; tail -5 /tmp/plantwork/$id.bad; }
r=$(cd "/tmp/plantwork/$id" && PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 2>&1 | tail -1)
echo "$id: tests: $r; $(grep '^FAILED' /tmp/plantwork/$id.bad | head -1)"
rm -rf "/tmp/plantwork/$id"
