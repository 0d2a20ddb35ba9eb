#!/bin/bash
# seed.sh ID...   dev helper: in a scratch copy of /repo, build + test + demo each seeded patch; then run its property's check on the patched copy
S=/tmp/sr
if [ ! -d $S ]; then cp -a /repo $S; rm -rf $S/_build; fi
(cd $S && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -qfd -e _build)
sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/sr_build.sh
b() { bash /tmp/sr_build.sh > /tmp/sr_build.log 2>&1; }
t() { mkdir -p $S/_build/vp-results; python3 /opt/vp/run_boost.py $S/test $S/_build/bin/test $S/_build/vp-results > /tmp/sr_lines.txt 2>&1; python3 /opt/vp/results.py /tmp/sr_out.json lines:/tmp/sr_lines.txt; python3 -c "
import json;a=json.load(open('/tmp/sr_out.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable'];m=[x for x in s if x not in a['passed']];print('  tests', 'ok' if not m else 'FAIL %s'%m)"; rm -f /tmp/libAmpGen-??????.cpp_*; }
b || { echo BASE BUILD FAILED; tail -5 /tmp/sr_build.log; exit 1; }
for id in "$@"; do
  D=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd $S && bash $D/demo.sh > /tmp/sr_demo0.log 2>&1); r0=$?
  (cd $S && git apply $D/patch.diff) || { echo "$id: patch does not apply"; continue; }
  if b; then t; (cd $S && timeout 300 bash $D/demo.sh > /tmp/sr_demo1.log 2>&1); r1=$?
    out=$(cd /verif && AMPGEN_REPO=$S python3 -m sa.run $p); rc=$?
    echo "$id ($p): demo clean=$r0 patched=$r1 check exit=$rc $(echo "$out" | grep -m1 refuted | cut -c1-200)"
  else echo "$id: BUILD FAILS"; grep -m3 error: /tmp/sr_build.log; fi
  (cd $S && git checkout -q -- .)
  b
done
