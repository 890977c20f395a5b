#!/bin/bash
# seed_try.sh ID: build and test a planted bug in a private copy of /repo (own mount namespace), run its demo
# with and without the patch and, with -c, its property's quick check. Development tool; no check uses it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/sd.$ID
mkdir -p $W && cp -a /repo $W/
trap "rm -rf /tmp/sd.$ID" EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -m bash -c "
mkdir -p $W/vt; mount --bind $W/vt /var/tmp; mount --bind $W/repo /repo && cd /repo || exit 9
bash $W/demo/demo.sh >$W/d0.log 2>&1; echo demo-clean=\$?
git apply $S/patch.diff || { echo NOAPPLY; exit 9; }
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo NOBUILD; tail -5 $W/b.log; exit 9; }
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo demo-bug=\$?; tail -3 $W/d1.log
[ -n '$2' ] && { VERIF_BUILD=$W/vb python3 /verif/check.py $P 2>&1 | grep -E 'VIOLATION|quick:' | head -4; }
bash /opt/vp/test.sh $W/t.json | tail -1
" | sed "s/^/$ID: /"
