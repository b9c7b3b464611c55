#!/bin/bash
# tryseed.sh [-n] ID...: applies each planted bug in a scratch copy of /repo (bind-mounted over /repo in a
# private namespace), runs demo, stable tests (unless -n) and the property's check there.
NT=0; [ "$1" = -n ] && { NT=1; shift; }
S=/tmp/sc/repo
[ -d $S ] || { mkdir -p /tmp/sc; cp -a /repo $S; }
git -C $S fetch -q /repo HEAD && git -C $S checkout -qf FETCH_HEAD && git -C $S checkout -q -- .
export NT
for id in "$@"; do
unshare -Urm bash -c '
id=$1; mount --bind /tmp/sc/repo /repo; cd /repo; git checkout -q -- .
D=/verif/seeded/$id; p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $D/meta.json)
bash $D/demo.sh >/tmp/sc/d0 2>&1; a=$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit; }
bash $D/demo.sh >/tmp/sc/d1 2>&1; b=$?
t=skipped
if [ $NT = 0 ]; then bash /opt/vp/test.sh /tmp/sc/o.json >/tmp/sc/tlog 2>&1; t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"/tmp/sc/o.json\"))
s=set(o[\"passed\"]); k=b.get(\"passed\") or b.get(\"stable\") or b.get(\"tests\")
print(\"missing %d of %d\"%(len([x for x in k if x not in s]),len(k)))"); fi
cd /verif; python3 check.py $p >/tmp/sc/c_$id 2>&1; c=$?
echo "$id [$p]: demo clean=$a patched=$b tests: $t check=$c $(grep -m1 VIOLATION /tmp/sc/c_$id) $(tail -1 /tmp/sc/c_$id|cut -c1-150)"
git -C /repo checkout -q -- .
' _ $id
done
