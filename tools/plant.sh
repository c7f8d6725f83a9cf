#!/bin/bash
# development helper: tools/plant.sh NAME [PATCHED_COPY]  -- confirm planted bug seeded/NAME in a private copy of /repo (own mount namespace):
# demo passes on the unchanged tree, the change builds and passes the tests, the demo fails, then its property's check is run against it.
# With PATCHED_COPY, seeded/NAME/patch.diff is first taken from that copy's uncommitted change.
N=$1; D=${SEEDDIR:-/verif/seeded}/$N
if [ -n "$2" ]; then git -C $2 diff > $D/patch.diff; git -C $2 checkout -q -- .; fi
if [ -z "$IN_NS" ]; then
  S=/tmp/pl.$N; rm -rf "/tmp/pl.$N"; mkdir $S; cp -a /repo $S/repo; cp -a /opt/vp $S/vp; git -C $S/repo checkout -q -- .
  IN_NS=1 unshare -Urm bash -c "mount --bind $S/repo /repo && mount --bind $S/vp /opt/vp && SEEDDIR=$SEEDDIR bash $0 $N"
  rm -rf "/tmp/pl.$N"; exit
fi
S=/tmp/pl.$N; cd /repo
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
demo() { (cd /repo; timeout 300 env -i HOME=/root PATH=/usr/local/bin:/usr/bin:/bin bash $D/demo.sh > $S/demo.log 2>&1; echo $?); }
bash /opt/vp/build.sh >$S/b.log 2>&1 || { echo BASE BUILD FAILED; exit 1; }
r=$(demo); echo "$N demo on unchanged tree: $r"; [ "$r" = 0 ] || { tail -5 $S/demo.log; exit 1; }
git -C /repo apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >$S/b.log 2>&1 || { echo BUILD FAILED; tail -5 $S/b.log; exit 1; }
bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1; python3 -c "
import json; r=json.load(open('$S/t.json')); print('tests passed', len(r['passed']), 'failed', r['failed'])"
r=$(demo); echo "$N demo with the bug: $r"; tail -3 $S/demo.log
cd /verif; export VERIF_BUILD=$S/vb VERIF_SEED=1; mkdir -p $S/v; cp -a /verif/check /verif/build.py /verif/known_findings.txt /verif/sim /verif/harness $S/v/
cd $S/v; time ./check $P | tail -8
