#!/bin/bash
# seedtest.sh ID [tests]: demo on the clean tree and with the change, then the property's check against the changed copy
id=$1; s=/verif/seeded/$id
t=/tmp/st.$id
git -C /repo worktree add -f --detach $t HEAD -q || exit 1
tmpd=/tmp/sd.$id; mkdir -p $tmpd; cp -a $s/. $tmpd; rm -f $tmpd/patch.diff $tmpd/meta.json
cd $t
bash $tmpd/demo.sh > /tmp/sd.$id.clean.log 2>&1; a=$?
git apply $s/patch.diff || echo NOAPPLY
bash $tmpd/demo.sh > /tmp/sd.$id.bug.log 2>&1; b=$?
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /verif; VERIF_SEED=1 VERIF_REPO=$t ./check.sh $p > /tmp/sd.$id.check.log 2>&1; c=$?
echo "$id demo clean=$a bug=$b check($p)=$c $(grep -m1 VIOLATION /tmp/sd.$id.check.log)"
[ $a = 0 ] || tail -5 /tmp/sd.$id.clean.log
git -C /repo worktree remove --force $t
rm -rf /tmp/sd.$id
