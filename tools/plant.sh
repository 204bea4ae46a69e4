#!/bin/bash
# tools/plant.sh ID [CHECK...]: the planted bug ID in a private copy of /repo: builds, stable tests, demo with and without, checks.
# Everything happens in a mount namespace of its own; the real /repo and /verif are not touched.
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ $# = 0 ] && set -- $P
W=/tmp/pl/$id
mkdir -p $W && cp -a /repo $W/repo && cp -a /verif $W/verif && cp -a $S $W/demo
rm -f $W/demo/patch.diff $W/demo/meta.json
cat > $W/run.sh <<EOF
mount --bind $W/repo /repo && mount --bind $W/verif /verif && mount --bind $W/verif/build /verif/build || exit 9
cd /repo
git apply --check $S/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
if [ -z "\$CHECKONLY" ]; then
bash $W/demo/demo.sh > $W/demo0.log 2>&1; d0=\$?
git apply $S/patch.diff
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1; 
t=\$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('$W/t.json'))['passed']
print('tests-ok' if all(x in p for x in b) else 'TESTS-FAIL')")
bash $W/demo/demo.sh > $W/demo1.log 2>&1; d1=\$?
else git apply $S/patch.diff; d0=-; d1=-; t=-; fi
[ -n "\$NOCHECK" ] && { echo "$id: $P demo \$d0 -> \$d1, \$t"; exit; }
for c in $@; do
  timeout 900 env VERIF_SEED=1 VERIF_TIER=quick ./../verif/check \$c \${TIER:-quick} > $W/\$c.log 2>&1; r=\$?
  echo "$id: $P demo \$d0 -> \$d1, \$t, \$c exit \$r \$(grep -m1 '^VIOLATION' $W/\$c.log) \$(grep -m1 -A0 '^ERROR' $W/\$c.log) | \$(grep -B3 -m1 '^VIOLATION' $W/\$c.log | head -1 | cut -c1-160)"
done
EOF
unshare -Urm bash $W/run.sh
[ -z "$KEEP" ] && rm -rf "/tmp/pl/$id/repo" "/tmp/pl/$id/verif" "/tmp/pl/$id/demo"
