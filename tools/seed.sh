#!/bin/bash
# seed.sh ID [CHECK...]: confirms a planted bug (applies, builds, stable tests pass, demo fails) and runs checks against it; restores /repo
ID=$1; shift
S=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
restore() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; }
bash /opt/vp/build.sh > /dev/null 2>&1
bash $S/demo.sh > /tmp/w/demo0.txt 2>&1; R0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
trap restore EXIT
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/test.log 2>&1
python3 - <<'PY'
import json
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/w/t.json"))
def passed(x):
    for k in ("passed", "stable"):
        if isinstance(x, dict) and k in x:
            v = x[k]
            return set(v if isinstance(v, list) else [n for n, r in v.items() if r in (True, "passed", "pass")])
    return set(x)
m = passed(b) - passed(t)
print("tests:", "ok" if not m else "FAILED %d %s" % (len(m), sorted(m)[:4]), len(passed(t)))
PY
bash $S/demo.sh > /tmp/w/demo1.txt 2>&1; R1=$?
echo "demo clean=$R0 patched=$R1: $(tail -1 /tmp/w/demo1.txt)"
for c in "$@"; do
    ( cd /verif && timeout 900 python3-vt check.py $c > /tmp/w/seedchk_$c.txt 2>&1; echo "$c rc=$? $(grep -c '' /tmp/w/seedchk_$c.txt) lines: $(grep -a 'VIOLATION\|NATIVE' /tmp/w/seedchk_$c.txt | cut -c1-260 | head -3)" )
done
