#!/bin/bash
# usage: testseed.sh ID [tests] [check]   confirms a seeded bug in a scratch copy of /repo
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
w=/tmp/seedwork/$id
mkdir -p /tmp/seedwork; rm -rf "/tmp/seedwork/$id"; cp -a /repo "$w"; cd "$w" || exit 2
bash "$d/demo.sh" >/tmp/seedwork/$id.clean 2>&1; echo "$id demo clean rc=$? (want 0)"
git apply "$d/patch.diff" || { echo "$id PATCH FAILS"; exit 1; }
bash "$d/demo.sh" >/tmp/seedwork/$id.bug 2>&1; echo "$id demo patched rc=$? (want !=0)"
grep -m1 -E "build failed|cannot" /tmp/seedwork/$id.bug
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for a in "$@"; do
 case $a in
 tests) sed "s#cd /repo#cd $w#" /opt/vp/test.sh > /tmp/seedwork/$id.test.sh; timeout 400 flock /tmp/seedwork/lock bash /tmp/seedwork/$id.test.sh /tmp/seedwork/$id.json >/tmp/seedwork/$id.tests 2>&1
   python3 - "$id" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/seedwork/{sys.argv[1]}.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x) if isinstance(x,list) else set()
print(sys.argv[1],'baseline tests failing:',sorted(names(b)-names(r))[:6])
PY
   ;;
 check) VERIF_REPO=$w timeout 900 $here/check.sh $prop quick > /tmp/seedwork/$id.check 2>&1; echo "$id check rc=$?"; grep -E "^VIOLATION|failed|FAIL" /tmp/seedwork/$id.check | head -4;;
 esac
done
cd /; rm -rf "/tmp/seedwork/$id"
