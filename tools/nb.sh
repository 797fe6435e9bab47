#!/bin/bash
# builds the native harness of one property for development: nb.sh c04 [run args]
H=$1; shift
export R=${HB_REPO:-/repo}; export W=/tmp/w/nb$( [ "$R" = /repo ] || echo 2 ); mkdir -p $W
cd /verif
python3-vt - "$H" <<'PY'
import sys, os, glob
sys.path[:0] = ["/verif", "/verif/vcgen", "/verif/specs"]
import check
n = check.Native(sys.argv[1].upper(), os.environ["W"], "quick")
lib = os.environ["W"]+"/u0.o"
import subprocess
stamp = max(os.path.getmtime(f) for f in glob.glob(os.environ["R"]+"/core/src/**/*", recursive=True))
if not os.path.exists(lib) or os.path.getmtime(lib) < stamp:
    ok = n.build()
    print("full build", ok, n.error or "")
    if not ok: sys.exit(1)
else:
    bad = n.compile([(n.src, os.environ["W"]+"/h.o")])
    print(bad[0][1] if bad else "harness ok")
    if bad: sys.exit(1)
    p = subprocess.run(["clang++", "-o", n.exe, os.environ["W"]+"/h.o"] + sorted(glob.glob(os.environ["W"]+"/u?.o")) + ["-lnetcdf", "-lyaml-cpp"])
PY
[ $? = 0 ] || exit 1
cd $W && timeout 300 ./harness "$@" > out.txt 2>&1; echo rc $?; grep -a "HBRESULT\|HBCASE" out.txt | tail -2 | python3 /verif/tools/pp.py
