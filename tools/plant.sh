#!/bin/bash
# tools/plant.sh NAME [pytest paths]   tries the planted bug seeded/NAME on a scratch copy of /repo: applies, demo passes on
# the original and fails with the patch, the stable tests still pass.
set -u
N=$1; shift
D=/verif/seeded/$N
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"; cd "$W/repo"; git checkout -q -- .
export PYTHONPATH=$W/repo/src PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 HF_HUB_OFFLINE=1 CUDA_VISIBLE_DEVICES= AWS_EC2_METADATA_DISABLED=true PATH=/opt/venv/bin:$PATH
timeout 300 bash $D/demo.sh >$W/o1 2>&1; a=$?
git apply $D/patch.diff || { echo "$N: does not apply"; rm -rf "$W"; exit 1; }
timeout 300 bash $D/demo.sh >$W/o2 2>&1; b=$?
echo "$N: demo original=$a patched=$b ($(grep -v -i warn $W/o2 | tail -1 | cut -c1-150))"
[ $a -ne 0 ] && tail -5 $W/o1
if [ "${1:-}" != none ]; then
  export PYTHONPATH=$W/repo/src:/opt/vp/plugin LITDATA_WORK=$W PYTHONHASHSEED=0
  timeout -k 5 840 python -m pytest ${*:-tests} -q -p no:cacheprovider -p litdata_isolate -n 6 --dist worksteal --timeout=120 --continue-on-collection-errors --color=no -o junit_family=xunit2 --junitxml=$W/j.xml --basetemp=$W/pt >$W/tests 2>&1
  python /opt/vp/results.py $W/out.json junit:$W/j.xml
  python - $W/out.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
f=set(r['failed'])&st
print("  tests: passed", len(set(r['passed'])&st), "of stable", len(st), "FAILED", sorted(f)[:6])
P
fi
rm -rf "$W"
