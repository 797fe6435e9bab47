"""Writes CONTRACTS.md: every contract, by property, with what is proved of the body and what is assumed."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [V + "/vcgen", V + "/specs"]
from run import load_specs
import contracts
load_specs()
from contracts import STORE
by = {}
for c in STORE.all():
    for p in c.props or ("helper",):
        by.setdefault(p, []).append(c)
out = ["# Contracts by property", "",
       "Generated by tools/mkcontracts.py from specs/. *proved*: the body extracted from /repo is checked against the",
       "contract on every run. *assumed*: the contract is used at calls and its body is only checked by the bounded",
       "native harness of the property. *ghost*: clauses that define specification-only state.", ""]
n = {True: 0, False: 0}
for p in sorted(by):
    out.append("## " + p)
    for c in sorted(by[p], key=lambda c: c.qname):
        n[bool(c.verify)] += 1
        k = [x for x in ("requires", "ensures", "checks", "ghost", "lemmas", "exc_ensures") if getattr(c, x)]
        if c.loops: k.append("invariants of loops " + ", ".join(str(i) for i in sorted(c.loops)))
        t = "proved" if c.verify else "assumed"
        out.append("- `%s`%s: %s (%s)%s" % (c.qname, " (overriders too)" if c.subtypes else "", t, "; ".join(k) or "frame only",
                                            " - " + " ".join(c.note.split()) if c.note else ""))
    out.append("")
open(V + "/CONTRACTS.md", "w").write("\n".join(out))
print(n)
