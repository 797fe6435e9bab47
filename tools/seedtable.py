#!/usr/bin/env python3
"""prints the table of DESIGN.md section 6 from seeded/*/meta.json"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| seed | caught by | needs | breaks |\n|---|---|---|---|")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
