#!/bin/bash
# tools/seedtest.sh ID [PROPERTY]: runs the property's check against a planted change in a scratch copy
id=$1
v=$(cd "$(dirname "$0")/.." && pwd)
p=${2:-$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")}
t=$(mktemp -d)
cp -a /repo $t/repo; git -C $t/repo checkout -q -- .
git -C $t/repo apply $v/seeded/$id/patch.diff || echo NOAPPLY
cp -a $v $t/verif
cd $t/verif
s=$(date +%s)
VERIF_REPO=$t/repo python3-vt check.py $p > $t/out 2>&1
echo "$id $p rc=$? $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|failing input|Traceback|discharged' $t/out | cut -c1-260 | tr '\n' '|')"
rm -rf $t
