#!/bin/bash
# seedtest.sh ID... : confirm planted bugs in a scratch copy of /repo (/tmp/seedrepo): the demo
# passes on the unchanged tree and fails with the patch, which keeps the stable tests passing.
# The scratch copy is left for the next call; remove /tmp/seedrepo when done.
C=/tmp/seedrepo; S=$(cd "$(dirname "$0")/../seeded" && pwd)
export LC_ALL=C
head=$(git -C /repo rev-parse HEAD)
if [ ! -d $C ]; then cp -a /repo $C; fi
cd $C || exit 1
git checkout -q -- . ; git fetch -q /repo HEAD && git checkout -q --detach $head
build() { make -C _build -j8 >/tmp/seedbuild.log 2>&1 || { tail -20 /tmp/seedbuild.log; return 1; }; }
build || { echo "base does not build"; exit 1; }
for id in "$@"; do
  bash $S/$id/demo.sh >/tmp/seed-$id.base 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/seed-$id.base; }
done
for id in "$@"; do
  git apply $S/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  if build; then
    if [ -z "$NOTESTS" ]; then
      find _build/test -maxdepth 1 -type f -name 'test_*' ! -name '*.*' -delete
      make -k -C _build/test -j8 check TESTS= >/tmp/seedbuild.log 2>&1
      : > /tmp/seed.lines
      OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 python3 /opt/vp/run_gtests.py $C/_build/test /tmp/seed.lines >/dev/null 2>&1
      python3 /opt/vp/results.py /tmp/seed.json lines:/tmp/seed.lines >/dev/null 2>&1
      python3 - $id <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    return set(x) if isinstance(x,list) else {k for k,v in x.items() if v in (True,'passed','pass')}
bp=b.get('stable') or b.get('passed') or b.get('stable_pass') or []
rp=names(r.get('passed') or r.get('results') or r)
miss=[t for t in bp if t not in rp]
print(sys.argv[1], 'tests:', 'all pass' if bp and not miss else f'{len(miss)} of {len(bp)} MISSING {miss[:3]}')
PY
    fi
    timeout 300 bash $S/$id/demo.sh >/tmp/seed-$id.bug 2>&1; rc=$?
    echo "$id: demo with the patch: rc=$rc $([ $rc = 0 ] && echo NOT-DETECTED) $(tail -1 /tmp/seed-$id.bug | cut -c1-120)"
  else echo "$id: does not build"; fi
  git checkout -q -- .
done
