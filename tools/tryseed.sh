#!/bin/bash
# tryseed.sh ID [nobuild|notest]: try a planted bug in a scratch copy of /repo (never in /repo itself):
# demo without and with it, the repository's tests, the check of its property.
I=$1; D=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/sd/w/$I; mkdir -p /tmp/sd/w; [ -e $W ] && rm -r /tmp/sd/w/$I
mkdir -p $W; cp -a /repo $W/repo; cp -a /opt/vp/harness $W/harness; cp -a /opt/vp/test.sh /opt/vp/build.sh $W/
grep -rl '/repo\|/opt/vp/harness' $W/harness $W/test.sh $W/build.sh | xargs sed -i "s#/repo#$W/repo#g; s#/opt/vp/harness#$W/harness#g"
grep -rl "/repo/" $W/repo/_build --include=CMakeCache.txt --include=cmake_install.cmake >/dev/null && find $W/repo/_build -mindepth 1 -maxdepth 1 -type d -exec rm -r {} +
cd $W/repo || exit 2
git checkout -q -- . 
bash $D/demo.sh >/tmp/sd/$I.demo0 2>&1; d0=$?
git apply $D/patch.diff || { echo "$I: patch does not apply"; exit 2; }
bash $D/demo.sh >/tmp/sd/$I.demo1 2>&1; d1=$?
tst=skipped
if [ "$2" != notest ]; then
  bash $W/test.sh /tmp/sd/$I.json >/tmp/sd/$I.test 2>&1
  tst=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/sd/$I.json'))['passed'])
m=b-r; print('tests-ok' if not m else 'TESTS-FAIL %d %s'%(len(m),sorted(m)[:4]))")
fi
rc=-; s=$(date +%s)
if [ "$3" != nocheck ]; then
cd /verif; VERIF_OUT=$W/out VERIF_REPO=$W/repo timeout 900 ./run.sh $P quick >/tmp/sd/$I.chk 2>&1; rc=$?
fi
echo "$I $P demo0=$d0 demo1=$d1 $tst check_rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/sd/$I.chk 2>/dev/null) $(grep -m1 VIOLATION /tmp/sd/$I.chk 2>/dev/null| cut -c1-100)" | tee -a /tmp/sd/results.txt
rm -r /tmp/sd/w/$I
