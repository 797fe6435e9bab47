import sys, json
for l in sys.stdin:
    if l.startswith("HBRESULT "):
        d = json.loads(l[9:], strict=False)
        print({k: d[k] for k in ("evaluations", "clauses", "distinct", "per")})
        print(d["counters"])
        for k, v in d["fails"].items(): print("FAIL", k, "::", v[:900])
    else: print(l[:900])
