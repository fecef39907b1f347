#!/bin/bash
# seedtest.sh ID...: for each planted bug: demo on the clean tree, then apply, build, stable tests, demo, its property's check; always undoes it
S=/verif/seeded
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do (cd /repo && bash $S/$id/demo.sh >/tmp/demo.$id.clean 2>&1); echo "$id clean demo: $?"; done
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  git -C /repo apply $S/$id/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed.b 2>&1; then
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    T=$(python3 -c "
import json;o=set(json.load(open('/tmp/seed.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in o];print('tests-ok' if not m else 'TESTS-FAIL %s'%m[:3])")
    (cd /repo && bash $S/$id/demo.sh >/tmp/demo.$id.bug 2>&1); DR=$?
    if [ -z "$NOCHECK" ]; then VERIF_SEED=1 /verif/check $P quick >/tmp/seed.$id.check 2>&1; CR=$?; else CR=-; fi
    echo "$id [$P]: $T demo=$DR check=$CR $(grep -h VIOLATION /tmp/seed.$id.check 2>/dev/null| head -1)"
  else echo "$id: BUILD FAIL"; fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
