#!/bin/bash
# seed2.sh ID [CHECK...]: as seed.sh, in a scratch copy (LAB, default /tmp/w/r2) instead of /repo; restores the copy
ID=$1; shift
S=/verif/seeded/$ID
LAB=${LAB:-/tmp/w/r2}
cd $LAB || exit 2
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bld() { cmake -S $LAB -B $LAB/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_TOOLCHAIN_FILE:STRING= -DBUILD_CLI=ON -DBUILD_TESTS=ON -DBUILD_PYBINDINGS=OFF -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DFETCHCONTENT_FULLY_DISCONNECTED=ON > /tmp/w/cm.log 2>&1 && ninja -C $LAB/_build > /tmp/w/bld.log 2>&1; }
export VCPKG_ROOT=/nonexistent CC=gcc CXX=g++
bld || { tail -5 /tmp/w/bld.log; exit 2; }
bash $S/demo.sh > /tmp/w/demo0.txt 2>&1; R0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
trap "git -C $LAB checkout -q -- ." EXIT
bld || { echo "does not build"; grep -a error /tmp/w/bld.log | head -5; exit 1; }
R=$LAB/_build/vp-results; rm -rf "$R"; mkdir -p "$R"
python3 /opt/vp/run_gtests.py $LAB/_build/tests/hydrobricks-tests "$R" > /tmp/w/test.log 2>&1
python3 /opt/vp/results.py /tmp/w/t2.json "junit:$R/*.xml" "lines:$R/crashed.txt" >> /tmp/w/test.log 2>&1
python3 - <<'PY'
import json
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/w/t2.json"))
def passed(x):
    for k in ("passed", "stable"):
        if isinstance(x, dict) and k in x:
            v = x[k]
            return set(v if isinstance(v, list) else [n for n, r in v.items() if r in (True, "passed", "pass")])
    return set(x)
m = passed(b) - passed(t)
print("tests:", "ok" if not m else "FAILED %d %s" % (len(m), sorted(m)[:4]), len(passed(t)))
PY
bash $S/demo.sh > /tmp/w/demo1.txt 2>&1; R1=$?
echo "demo clean=$R0 patched=$R1: $(tail -1 /tmp/w/demo1.txt)"
for c in "$@"; do
    ( cd /verif && HB_REPO=$LAB timeout 900 python3-vt check.py $c > /tmp/w/seedchk_$c.txt 2>&1; echo "$c rc=$? $(grep -c '' /tmp/w/seedchk_$c.txt) lines: $(grep -a 'VIOLATION\|NATIVE' /tmp/w/seedchk_$c.txt | cut -c1-260 | head -3)" )
done
