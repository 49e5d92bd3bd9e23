#!/bin/bash
# usage: tools_seed.sh ID [nocheck]: validates seeded/ID in a scratch copy and runs its property's check on it
id=$1; S=/verif/seeded/$id
W=/tmp/seedwork.$id; rm -rf $W; mkdir -p $W/demo; cp -a /repo $W/repo
cp $S/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
cd $W/repo || exit 9
bash $W/demo/demo.sh >/tmp/seedwork.$id.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 9; }
bash $W/demo/demo.sh >>/tmp/seedwork.$id.log 2>&1; b=$?
sed "s#/repo#$W/repo#g" /opt/vp/test.sh > $W/test.sh
t=$(bash $W/test.sh $W/o.json 2>&1 | grep -E "^FAILED| passed" | grep -v test_vector_sweep | tr '\n' ' ')
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=-; if [ -z "$2" ]; then out=$(cd /verif; GPKIT_REPO=$W/repo timeout 900 python3 check.py $p 2>&1); c=$?; v=$(echo "$out" | grep -m1 violated | cut -c1-200); fi
echo "$id [$p]: demo clean=$a patched=$b; tests: $t; check rc=$c $v"
cd /; rm -rf $W
