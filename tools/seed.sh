#!/bin/bash
# Developer tool: confirms planted bugs in a scratch clone. usage: seed.sh [-n] ID...   (-n: skip the test suite)
S=/tmp/sr
skip=; [ "$1" = -n ] && { skip=1; shift; }
[ -d $S/.git ] || git clone -q /repo $S
git -C $S fetch -q /repo && git -C $S checkout -q -f FETCH_HEAD && git -C $S clean -fdq -e _build
mkdir -p /tmp/srvp; cp -r /opt/vp/. /tmp/srvp/
sed -i 's#/opt/vp#/tmp/srvp#g; s#/repo#/tmp/sr#g' /tmp/srvp/*.sh /tmp/srvp/*.py /tmp/srvp/cmake/CMakeLists.txt
cd $S; bash /tmp/srvp/build.sh >/tmp/srvp/b.log 2>&1 || { echo build of clean tree failed; tail -5 /tmp/srvp/b.log; exit 1; }
for id in "$@"; do
  D=/tmp/srdemo; rm -rf /tmp/srdemo; mkdir $D; cp -r /verif/seeded/$id/. $D; 
  rm -f $D/*.diff $D/meta.json
  (timeout 300 bash $D/demo.sh >/tmp/srvp/d0.log 2>&1); c=$?
  echo "$id: demo on clean tree: $c"
  [ $c = 0 ] || tail -5 /tmp/srvp/d0.log
done
for id in "$@"; do
  D=/tmp/srdemo; rm -rf /tmp/srdemo; mkdir $D; cp -r /verif/seeded/$id/. $D; 
  P=/verif/seeded/$id/patch.diff
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $S apply $P || { echo "$id: patch does not apply"; continue; }
  bash /tmp/srvp/build.sh >/tmp/srvp/b.log 2>&1 || { echo "$id: does not build"; grep error /tmp/srvp/b.log | head; }
  if [ -z "$skip" ]; then
    bash /tmp/srvp/test.sh /tmp/srvp/t.json >/tmp/srvp/t.log 2>&1
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/srvp/t.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
miss=[x for x in base if x not in set(t['passed'])]
print("%s: tests: %d passed, baseline missing %s"%(sys.argv[1],len(t['passed']),miss[:5]))
P
  fi
  (timeout 300 bash $D/demo.sh >/tmp/srvp/d1.log 2>&1); c=$?
  echo "$id: demo with patch: $c $(tail -1 /tmp/srvp/d1.log)"
  [ -f /verif/cv/rules/${prop}_*.py ] && (cd /verif; mkdir -p /tmp/tucache; CV_REPO=$S CV_BUILD=/tmp/srvp/cvbuild CV_TUCACHE=/tmp/tucache python3 -B -m cv $prop 2>/dev/null | grep "^$prop: .*\[\|^VIOL\|^OK" | cut -c1-220 | tail -4)
  git -C $S checkout -q -f; git -C $S clean -fdq -e _build
done
rm -rf /tmp/srdemo
