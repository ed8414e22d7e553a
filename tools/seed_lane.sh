#!/usr/bin/env bash
# seed_lane.sh LANE ID...: tries planted bugs in a copy of /repo and /verif that a private mount namespace shows at
# /repo and /verif, so the real ones stay as they are. Report lines go to /tmp/lane-LANE/report.
set -u
lane=/tmp/lane-$1; shift
mkdir -p $lane
[ -d $lane/repo ] || cp -a /repo $lane/repo
[ -d $lane/verif ] || cp -a /verif $lane/verif
[ -d $lane/vp ] || cp -a /opt/vp $lane/vp
git -C $lane/repo fetch -q /repo HEAD && git -C $lane/repo reset -q --hard FETCH_HEAD && git -C $lane/repo clean -qfd
(cd /verif && git ls-files -z && git ls-files -z -o --exclude-standard) >/dev/null
python3 - $lane <<'P'
import os, shutil, subprocess, sys
lane = sys.argv[1]
fs = subprocess.run(["git", "-C", "/verif", "ls-files", "-c", "-o", "--exclude-standard"], capture_output=True, text=True).stdout.split("\n")
for f in filter(None, fs):
    a, b = "/verif/" + f, lane + "/verif/" + f
    if not os.path.exists(a): continue
    if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
        os.makedirs(os.path.dirname(b), exist_ok=True)
        shutil.copyfile(a, b); shutil.copymode(a, b)
P
export lane
unshare -m bash -s "$@" <<'N'
mount --bind $lane/repo /repo && mount --bind $lane/verif /verif && mount --bind $lane/vp /opt/vp || exit 3
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  out=$lane/$id; mkdir -p $out
  git checkout -q -- . 
  ( cd /repo && bash $d/demo.sh ) > $out/demo0.log 2>&1; d0=$?
  if ! git apply $d/patch.diff; then echo "$id: patch does not apply" >> $lane/report; continue; fi
  if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/build.sh > $out/build.log 2>&1; b=$?
    bash /opt/vp/test.sh $out/test.json > $out/test.log 2>&1
    t=$(python3 - $out/test.json <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
stable=base.get('stable') or base['passed']
try: got=set(json.load(open(sys.argv[1]))['passed'])
except Exception as e: print('no-results'); sys.exit()
m=[x for x in stable if x not in got]
print('tests-ok' if not m else f'tests-FAIL({len(m)}: {m[:3]})')
P
)
  else b=-; t=-; fi
  ( cd /repo && bash $d/demo.sh ) > $out/demo1.log 2>&1; d1=$?
  s=$SECONDS
  [ -z "${NOCHECK:-}" ] && { ( cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh $prop ) > $out/check.log 2>&1; c=$?; } || c=-
  git checkout -q -- .
  echo "$id $prop demo0=$d0 build=$b $t demo1=$d1 check=$c ($((SECONDS-s))s) $(grep -c "^VIOLATION property=$prop " $out/check.log 2>/dev/null) $(grep -m1 'VIOLATION\|does not build' $out/check.log | cut -c1-160)" | tee -a $lane/report
done
N
