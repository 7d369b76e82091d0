#!/bin/bash
# seedtest.sh ID...  confirms planted bugs in /repo itself: builds, passes the tests, demo fails; the property's check catches it. Undoes the patch.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/st.build 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/st.json >/tmp/st.test 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
def ok(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(map(str,x[k]))
    return set()
print(len(ok(r)), 'of', len(ok(b)))
P
)
  (cd /repo; bash $d/demo.sh >/tmp/st.demo 2>&1); dp=$?
  c="-"
  if [ -z "$NOCHECK" ]; then timeout 900 python3 tools/check.py $p >/tmp/st.$id.check 2>&1; c="exit $? $(grep -m1 VIOLATION /tmp/st.$id.check | cut -c1-150)"; fi
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/tmp/st.build 2>&1
  (cd /repo; bash $d/demo.sh >/tmp/st.demo0 2>&1); du=$?
  echo "$id [$p]: tests $t; demo clean=$du patched=$dp; check: $c"
done
