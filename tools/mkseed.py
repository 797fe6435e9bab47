#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'what' : writes seeded/ID/{meta.json,demo.sh} and patch.diff from /repo's working tree."""
import sys, os, json, subprocess
i, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("LAB", "/repo"), "diff"], capture_output=True, text=True).stdout
if diff:
    open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
I=""
for x in app base actions bricks containers fluxes processes spatial; do I="$I -I$PWD/core/src/$x"; done
g++ -std=c++23 -O1 -w -DNDEBUG -fno-access-control $I -isystem /usr/include/eigen3 "$D/demo.cpp" "$PWD/_build/core/src/libcore.a" -lnetcdf -lyaml-cpp -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
""")
os.chmod(d + "/demo.sh", 0o755)
