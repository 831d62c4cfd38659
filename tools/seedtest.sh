#!/bin/bash
# seedtest.sh ID [check-ids...]: confirm a planted bug in a scratch copy of /repo
# (bind-mounted over /repo in a private mount namespace): demo passes without the
# patch; with it: builds, stable tests pass, demo fails; then run the given checks.
ID=$1; shift
S=/tmp/scratch
mkdir -p $S
exec 9>$S/lock; flock 9
rsync -a --no-times --checksum --delete --exclude _build /repo/ $S/repo/
[ -d $S/repo/_build ] || rsync -a /repo/_build/ $S/repo/_build/
rsync -a --delete --exclude seeded --exclude work --exclude evidence --exclude build /verif/ $S/verif/
mkdir -p $S/verif/evidence $S/verif/work
[ -d $S/verif/build ] || rsync -a /verif/build/ $S/verif/build/ 2>/dev/null
rm -rf $S/seed; cp -a /verif/seeded/$ID $S/seed
PROP=$(python3 -c "import json;print(json.load(open('$S/seed/meta.json'))['property'])")
CH="${*:-$PROP}"
unshare -m bash -s <<X
mount --make-rprivate /
mount --bind $S/repo /repo
mount --bind $S/verif /verif
cd /repo
(bash /opt/vp/build.sh > $S/b0.log 2>&1) || { echo "BASE BUILD FAILED"; exit 1; }
if [ -z "$NODEMO0" ]; then
timeout 300 bash $S/seed/demo.sh > $S/d0.log 2>&1; r=\$?; echo "demo on unchanged: \$r"; [ \$r = 0 ] || tail -5 $S/d0.log
fi
git apply $S/seed/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if (bash /opt/vp/build.sh > $S/b1.log 2>&1); then echo "build ok"; else echo "BUILD FAILED"; tail -20 $S/b1.log; fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $S/t.json > $S/t.log 2>&1; tail -1 $S/t.log
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$S/t.json'))['passed'])
print("stable tests broken:", sorted(b-o)[:5])
P
fi
timeout 300 bash $S/seed/demo.sh > $S/d1.log 2>&1; r=\$?; echo "demo on patched: \$r"; tail -2 $S/d1.log
cd /verif
for c in $CH; do
 [ "\$c" = none ] && continue
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$c > $S/c.log 2>&1; echo "check \$c: \$? \$(grep -h '^VIOLATION\|^violation' $S/c.log | head -2 | tr '\n' ' ')"
done
cd /repo && git apply -R $S/seed/patch.diff
X
