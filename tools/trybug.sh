#!/bin/bash
# tools/trybug.sh ID [PROP..]: applies seeded/ID to /repo, builds, runs the tests, the demo with and without it,
# and the checks of PROP (default: its property), then undoes it.
set -u
cd /verif || exit 1
id=$1; shift
d=/verif/seeded/$id
prop=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
tmp=$(mktemp -d); cp -r $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
undo() { git -C /repo checkout -q -- .; rm -rf "$tmp"; }
trap undo EXIT
if [ -z "${SKIP:-}" ]; then
(cd /repo && timeout 300 bash $tmp/demo.sh >$tmp/clean.log 2>&1); echo "demo clean: $?"; 
fi
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh >$tmp/build.log 2>&1 || { echo "BUILD FAILS"; tail -5 $tmp/build.log; exit 1; }
if [ -z "${SKIP:-}" ]; then
bash /opt/vp/test.sh $tmp/out.json >/dev/null 2>&1
python3 - $tmp/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
key=[k for k in b if isinstance(b[k],list)]
stable=set(b.get('stable') or b[key[0]])
p=set(o.get('passed') or o.get('pass') or [])
print('tests broken:', sorted(stable-p)[:5], 'of', len(stable))
P
(cd /repo && timeout 300 bash $tmp/demo.sh >$tmp/bug.log 2>&1); echo "demo bug: $?"; tail -3 $tmp/bug.log
fi
for p in $prop; do
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p > $tmp/check.log 2>&1; echo "check $p: $? $(grep -c '^VIOLATION' $tmp/check.log)"; grep -E "Fatalf|panic|_test.go|ERROR|BUILD" $tmp/check.log | head -${LINES_:-4}
done
