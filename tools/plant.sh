#!/bin/bash
# plant.sh ID [check]: verify a planted bug: applies, touches original lines, tests pass, demo 0 without / nonzero with.
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $d/demo.sh > /tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
# removed lines must be original ones
/usr/bin/python3 - $d/patch.diff <<'P'
import subprocess,sys
f=None; bad=[];n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); base=subprocess.run(['git','-C','/repo','show','cecf78e:'+f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('-') and not l.startswith('---'):
        n+=1
        if l[1:].rstrip('\n') not in base: bad.append(l)
print('removed lines: %d, not original: %d'%(n,len(bad))); [print('  ',b,end='') for b in bad]
P
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILS; tail -3 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/x.json >/tmp/test.log 2>&1
/usr/bin/python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); x=set(json.load(open('/tmp/x.json'))['passed'])
print('tests missing:', sorted(b-x))"
PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $d/demo.sh > /tmp/demo1.log 2>&1; r1=$?
echo "demo: clean $r0, patched $r1"; [ $r0 = 0 ] || tail -5 /tmp/demo0.log; tail -2 /tmp/demo1.log
if [ -n "$2" ]; then
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py --property $p --tier quick 2>&1 | tail -${3:-6}; 
fi
