#!/bin/bash
# plant.sh ID: take the uncommitted change in the scratch copy /tmp/wt as planted bug ID (needs /tmp/new/ID/{main.rs,meta.json}):
# confirm that it builds, passes the stable tests, and that the demonstration tells the two trees apart.
id=$1; new=/tmp/new/$id; dst=/verif/seeded/$id; wt=/tmp/wt
set -e
mkdir -p $dst
git -C $wt diff -- . > $dst/patch.diff
[ -s $dst/patch.diff ] || { echo "no change in $wt"; exit 1; }
cp $new/main.rs $new/meta.json $dst/
cp /verif/tools/demo/{demo.sh,fitsw.rs,Cargo.lock} $dst/
chmod +x $dst/demo.sh
git -C $wt checkout -q -- .
set +e
(cd /repo && bash $dst/demo.sh >/tmp/demo.clean 2>&1); a=$?
git -C /repo apply $dst/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
bp=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print(sorted(bp-set(o.get('passed') or [])))
P
)
(cd /repo && bash $dst/demo.sh >/tmp/demo.bug 2>&1); c=$?
prop=$(python3 -c "import json;print(json.load(open('$dst/meta.json'))['property'])")
(cd /verif && bash run.sh $prop > /tmp/check.out 2>&1); r=$?
git -C /repo checkout -q -- .
echo "$id $prop: demo clean=$a build=$b missing tests=$t demo bug=$c check=$r"
[ $a = 0 ] || tail -5 /tmp/demo.clean
[ $c != 0 ] && tail -2 /tmp/demo.bug
grep -v VIOLATION /tmp/check.out | head -2
grep -m1 VIOLATION /tmp/check.out
