#!/bin/bash
# usage: seedtest.sh ID [CHECK...]: plant a seeded bug in a copy of /repo, build it, run its demo, the tests (TESTS=1) and checks, and remove the copy's change
d=/verif/seeded/$1; shift
R=/tmp/sr
. /opt/vp/env.sh
mk () { (cd $R && make -j8 VERSION="$(cat version.txt)" all test-binaries) >/tmp/seedbuild.log 2>&1 </dev/null; }
h=$(git -C /repo rev-parse HEAD)
if [ "$(git -C $R rev-parse HEAD 2>/dev/null)" != $h ]; then rm -rf /tmp/sr; cp -a /repo $R; sed -i "s#/repo#$R#g" $R/Makefile.config $R/sh.config; git -C $R checkout -q -- .; mk; fi
git -C $R checkout -q -- .
git -C $R apply $d/patch.diff || exit 2
mk || { echo "does not build"; tail -5 /tmp/seedbuild.log; exit 2; }
grep -n 'warning:' /tmp/seedbuild.log | head -3
cd $R
bash $d/demo.sh; r=$?
[ $r != 0 ] && echo "demo fails as it should ($r)" || echo "DEMO PASSES WITH THE BUG"
if [ -n "$TESTS" ]; then sed "s#bash /opt/vp/build.sh#true#; s#/repo#$R#g" /opt/vp/test.sh > /tmp/srtest.sh; bash /tmp/srtest.sh /tmp/sr.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); p=set(json.load(open('/tmp/sr.json'))['passed'])
m=[x for x in b['stable'] if x not in p]; print("tests missing:",len(m),m[:6])
P
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$NOCHECK" ] && (cd /verif; for p in ${*:-$prop}; do NM_REPO=$R NM_BUILD=/tmp/sr.build VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $p | grep -v '^ '| tail -3 | cut -c1-300; done)
git -C $R checkout -q -- .
mk
cd $R
bash $d/demo.sh; r=$?
[ $r = 0 ] && echo "demo passes on the original" || echo "DEMO FAILS ON THE ORIGINAL ($r)"
