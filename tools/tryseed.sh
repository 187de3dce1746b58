#!/bin/bash
# tryseed.sh ID... : in a private mount namespace over scratch copies of /repo and /verif, confirm each planted bug and run its check
S=/tmp/sw; mkdir -p $S
exec 9>$S/lock; flock 9
[ -d $S/repo ] || cp -a /repo $S/repo
mkdir -p $S/verif
rsync -a --delete --exclude build --exclude .git /verif/ $S/verif/ 2>/dev/null || { rm -rf /tmp/sw/verif.new; }
mkdir -p $S/verif/build
git -C $S/repo fetch -q /repo && git -C $S/repo checkout -qf FETCH_HEAD
export S
unshare -Urm bash -s "$@" <<'X'
mount --bind $S/repo /repo; mount --bind $S/verif /verif
for id in "$@"; do
  cd /repo; git checkout -qf . ; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash /verif/seeded/$id/demo.sh >$S/demo0 2>&1; c=$?; else c=skip; fi
  git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "$id: does not build"; grep -E -A6 '^error' $S/build.log | head -20; continue; }
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1
  t=$(python3 - <<'Y'
import json,os
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(os.environ['S']+'/t.json'))
print(sorted(set(b['stable'])-set(o['passed']))[:3] or 'tests-ok')
Y
); else t=skip; fi
  bash /verif/seeded/$id/demo.sh >$S/demo1 2>&1; d=$?
  cd /verif; timeout 900 python3-vt check.py $P --tier quick >$S/check.log 2>&1; k=$?
  echo "$id $P clean-demo=$c $t bug-demo=$d check=$k :: $(grep -E 'VIOLATION' $S/check.log | cut -c1-150) :: $(grep -E 'REFUTED|FAILED' $S/check.log | head -3 | cut -c1-160 | tr '\n' ';')"
  [ "$c" != 0 ] && [ "$c" != skip ] && tail -5 $S/demo0
done
cd /repo; git checkout -qf .
X
