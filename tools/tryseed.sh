#!/bin/bash
# tryseed.sh ID [nocheck]: in private copies of /repo and /verif (own mount namespace), the demo on the clean tree, then
# with the patch: build and tests, the demo, and the property's quick check.
if [ -z "$TRY_NS" ]; then exec env TRY_NS=1 unshare -m bash "$0" "$@"; fi
id=$1; w=/tmp/try.$$; mkdir -p $w/repo $w/verif $w/vp; trap 'umount -l /repo /verif /opt/vp; rm -rf "$w"' EXIT
cp -a /repo/. $w/repo/; cp -a /verif/. $w/verif/; cp -a /opt/vp/. $w/vp/
git -C $w/repo checkout -q -- . ; rm -rf $w/verif/replays
mount --bind $w/repo /repo && mount --bind $w/verif /verif && mount --bind $w/vp /opt/vp || exit 3
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -a "$d" $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
cd /repo || exit 1
bash /opt/vp/build.sh >$w/b.log 2>&1 || { echo "clean build failed"; exit 1; }
timeout 300 bash $w/demo/demo.sh >/tmp/seed.$id.clean 2>&1; c=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/test.sh $w/o.json >$w/t.log 2>&1
n=$(python3 -c "
import json;o=json.load(open('$w/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])))")
timeout 300 bash $w/demo/demo.sh >/tmp/seed.$id.bug 2>&1; p=$?
r=-; : >/tmp/seed.$id.check
if [ "$2" != nocheck ]; then (cd /verif; timeout 900 ./check $prop quick >/tmp/seed.$id.check 2>&1); r=$?; fi
echo "$id $prop demo_clean=$c demo_patched=$p tests_missing=$n check=$r $(grep -m1 VIOLATION /tmp/seed.$id.check) $(tail -1 /tmp/seed.$id.bug | cut -c1-150)"
