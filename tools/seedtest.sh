#!/bin/bash
# seedtest.sh ID [check|demo]: confirm a planted bug in a scratch copy (bind-mounted over /repo in a
# private namespace) and optionally run its property's check against it
ID=$1; MODE=${2:-check}; S=/verif/seeded/$ID
T=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; mkdir "$T/verif"; (cd /verif && cp -a mc tools known-findings.txt "$T/verif/"; mkdir -p .build && cp -a .build "$T/verif/" 2>/dev/null); cp -a "$S" "$T/demo"; rm -f "$T"/demo/*.diff "$T"/demo/meta.json
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cat > "$T/in.sh" <<I
mount --bind $T/repo /repo && mount --bind $T/verif /verif || exit 90
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh >$T/b0.log 2>&1 || { echo "$ID: base build failed"; exit 1; }
bash $T/demo/demo.sh >$T/d0.log 2>&1; r=\$?; [ \$r = 0 ] || { echo "$ID: DEMO FAILS ON UNCHANGED TREE (\$r)"; tail -5 $T/d0.log; }
git apply $S/patch.diff 2>/dev/null || git apply $T/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $T/out.json >$T/t.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('tests')); p=set(json.load(open('$T/out.json')).get('passed') or [])
m=sorted(b-p); print('$ID: tests missing', len(m), m[:3])
P
bash $T/demo/demo.sh >$T/d1.log 2>&1; r=\$?; echo "$ID: demo with patch: \$r \$(tail -1 $T/d1.log | cut -c1-150)"
if [ $MODE = check ]; then cd /verif; s=\$(date +%s); VERIF_TIER=quick VERIF_SEED=1 timeout 900 bash mc/check.sh $PROP >$T/c.log 2>$T/c.err; r=\$?; echo "$ID: check $PROP exit \$r \$(( \$(date +%s) - s ))s: \$(grep -m1 VIOLATION $T/c.log | sed 's/replay=[^ ]*//' | cut -c1-200)"; [ \$r -ge 2 ] && tail -5 $T/c.err; fi
exit 0
I
cp "$S/patch.diff" "$T/patch.diff"
unshare -Urm bash "$T/in.sh"
