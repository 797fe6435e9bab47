#!/usr/bin/env python3
"""rewrites the 'fixed' list of known_findings.json from tools/fixed.json, with the commits of /repo's fix: messages."""
import json, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fx = json.load(open("/verif/tools/fixed.json"))
out = []
for f in fx:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1] == f["commit"]]
    if not h: print("no commit:", f["commit"]); continue
    out.append("fixed: property=%s %s %s" % (f["property"], h[0], f["what"]))
try: k = json.load(open("/verif/known_findings.json"))
except FileNotFoundError: k = {"findings": []}
k["fixed"] = out
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
