#!/bin/bash
# tools/try.sh <id> [check...]: applies seeded/<id> to /repo, builds, runs the stable tests, its demo and checks, undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
D="$V/seeded/$id"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
T=$(mktemp -d /tmp/try.XXXX); cp "$D"/* "$T" 2>/dev/null; rm -f "$T"/*.diff "$T"/meta.json
if [ -z "$NODEMO" ]; then
(cd /repo && timeout 300 bash "$T/demo.sh" >"$T/out0" 2>&1); echo "$id demo clean rc=$?"
fi
git -C /repo apply "$D/patch.diff" || { echo "$id: does not apply"; exit 2; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >"$T/build" 2>&1 || { echo "$id: does not build"; tail -30 "$T/build"; exit 2; }
bash /opt/vp/test.sh "$T/tests.json" >"$T/tout" 2>&1
python3 - "$T/tests.json" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(d):
    if isinstance(d,dict):
        for k in ('passed','stable','tests','pass'):
            if k in d: return d[k]
    return d
p=set(map(str,names(t))); w=set(map(str,names(b)))
print('tests missing:', sorted(w-p)[:5] if w-p else 'none')
P
(cd /repo && timeout 300 bash "$T/demo.sh" >"$T/out1" 2>&1); echo "$id demo patched rc=$? $(tail -1 $T/out1 | cut -c1-150)"
fi
for c in ${@:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; do
    s=$(date +%s)
    (cd "$V" && VERIF_SEED=${SEED:-1} timeout 900 ./check.sh $c --no-evidence >"$T/c$c" 2>"$T/e$c"); rc=$?
    echo "$id $c rc=$rc $(($(date +%s)-s))s $(grep -B1 '^VIOLATION' "$T/c$c" | head -1 | cut -c1-200)"
    [ $rc = 2 ] && tail -5 "$T/e$c"
done
rm -rf "$T"
