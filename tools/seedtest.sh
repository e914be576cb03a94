#!/bin/bash
# seedtest.sh ID...: confirm a seeded change in the scratch copy /tmp/sc (made with its
# own copy of /opt/vp in /tmp/vps), then run its property's check against that copy.
V=${V:-/verif}; S=${S:-/tmp/sc}
for id in "$@"; do
  cd $S && git checkout -q -- . || exit 1
  P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $V/seeded/$id/meta.json)
  D=/tmp/seeddemo; rm -rf $D; mkdir $D; cp $V/seeded/$id/{demo.sh,*.c,*.h} $D/ 2>/dev/null
  if [ -z "$NOCONF" ]; then
    bash /tmp/vps/build.sh >/dev/null || echo "$id: clean build FAILED"
    (bash $D/demo.sh) >/tmp/seed.clean 2>&1; a=$?
    git apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
    bash /tmp/vps/test.sh /tmp/sc.json >/tmp/seed.test 2>&1
    t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc.json'))['passed'])
m=sorted(b-p); print(len(m), m[:3])
P
)
    (bash $D/demo.sh) >/tmp/seed.bad 2>&1; b=$?
    echo "$id ($P): demo clean=$a patched=$b missing tests=$t  $(tail -1 /tmp/seed.bad | cut -c1-100)"
  else
    git apply $V/seeded/$id/patch.diff || continue
  fi
  for c in ${CHECKS:-$P}; do
    s=$SECONDS
    (cd $V; MC_REPO=$S MC_WORK=/tmp/scwork VERIF_TIER=quick timeout 900 python3 mc/run.py $c --tier quick >/tmp/seed.$c.log 2>&1); r=$?
    echo "   $c rc=$r $((SECONDS-s)) s $(grep -c VIOLATION /tmp/seed.$c.log) $(grep -m1 VIOLATION /tmp/seed.$c.log | cut -c1-150)"
  done
  git checkout -q -- .
done
