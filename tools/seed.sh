#!/bin/bash
# seed.sh ID FILE 's|old|new|' PROP... : dev helper. Applies a python-style edit file to a scratch
# copy, writes seeded/ID/patch.diff, builds, runs stable tests and the demo with and without it.
set -e
ID=$1
S=/verif/seeded/$ID
D=/tmp/seedw
mkdir -p $D/repo
rsync -a --delete --exclude=.git --exclude=_build --exclude=*_ros.h /repo/ $D/repo/ 2>/dev/null || { /bin/rm -rf /tmp/seedw/repo; cp -a /repo $D/repo; }
cd $D/repo; mkdir -p _build
echo "-- demo without patch"; (bash $S/demo.sh && echo PASS) || echo "DEMO FAILS ON CLEAN"
patch -p1 -s < $S/patch.diff
sed 's#/repo#'$D/repo'#g' /opt/vp/build.sh > $D/build.sh
bash $D/build.sh > $D/build.log 2>&1 || { echo BUILD FAILED; tail -5 $D/build.log; exit 1; }
sed 's#/repo#'$D/repo'#g' /opt/vp/test.sh > $D/test.sh
bash $D/test.sh $D/out.json > $D/test.log 2>&1 || true
python3 - $D/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {k2 for k2,v in x[k].items() if v in ('pass','passed',True)}
    return set(x)
m=names(b)-names(o)
print("stable tests failing:",len(m),list(m)[:5])
P
echo "-- demo with patch"; (bash $S/demo.sh && echo "DEMO PASSES WITH PATCH (bad)") || echo "FAILS as it should"
