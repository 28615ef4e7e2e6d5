#!/bin/bash
# try_seed.sh ID [notest]: in a private mount namespace with copies of /repo and /verif: demo on the clean tree, patch, build, tests, demo, check
id=$1; s=$(mktemp -d /tmp/seedtry.XXXXXX); cp -a /repo $s/repo; mkdir $s/verif; tar -C /verif --exclude=.git --exclude=.build/replays -cf - . | tar -C $s/verif -xf -
unshare -Urm bash -c '
id=$1; s=$2; mount --bind $s/repo /repo; mount --bind $s/verif /verif; cd /repo
prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
cp -a /verif/seeded/$id $s/demo; rm -rf /verif/seeded
bash /opt/vp/build.sh >$s/b0 2>&1 || { echo "$id: CLEAN BUILD FAILED"; tail -3 $s/b0; }
bash $s/demo/demo.sh >$s/d0 2>&1; d0=$?
git apply $s/demo/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$s/b1 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $s/b1; exit 1; }
bash $s/demo/demo.sh >$s/d1 2>&1; d1=$?
t=skipped; if [ "$3" != notest ]; then bash /opt/vp/test.sh $s/t.json >$s/tl 2>&1; t=$(python3 -c "import json;d=json.load(open(\"$s/t.json\"));print(len(d[\"passed\"]),\"passed\",d[\"failed\"])"); fi
cd /verif; start=$(date +%s); timeout 900 python3 check.py $prop >$s/c 2>&1; rc=$?; end=$(date +%s)
echo "$id [$prop]: demo clean=$d0 patched=$d1 tests=$t check rc=$rc ($((end-start)) s) $(grep -c "^VIOLATION property=$prop" $s/c) violations"
[ $d0 = 0 ] || tail -3 $s/d0; [ $d1 != 0 ] || tail -3 $s/d1; [ $rc = 1 ] || tail -4 $s/c; grep -m1 "counterexample" $s/c
' x $id $s "$2"
rm -rf "$s"
