import sys, os, time, pickle
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]
import frontend, verify, contracts, glob, importlib


def load_specs():
    d = os.path.join(os.path.dirname(HERE), "specs")
    for f in sorted(glob.glob(os.path.join(d, "s_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])


def targets(P, con):
    """(function, class or None) pairs to verify for a contract."""
    out = []
    if con.trusted or con.inline or not con.verify:
        return out
    fs = verify.find_func(P, con)
    for f in fs:
        if con.classes:
            for c in con.classes:
                out.append((con, f, c))
        else:
            out.append((con, f, None))
    return out


def overriders(P, con):
    """overriding implementations bound by the contract of the base declaration."""
    out = []
    base = con.qname.rsplit("::", 1)
    if len(base) != 2 or base[0] not in P.classes:
        return out
    for d in P.subclasses(base[0]):
        if d == base[0]:
            continue
        for g in P.classes[d].methods.get(base[1], []):
            decl = [x for x in P.classes[base[0]].methods.get(base[1], []) if len(x.params) == len(g.params)]
            if not decl or not (decl[0].virtual or g.virtual):
                continue
            if g.body is not None and (con.arity is None or len(g.params) == con.arity):
                out.append((con, g, None))
    return out


if __name__ == "__main__":
    load_specs()
    pk = "/tmp/w/P.pkl"
    t = time.time()
    if "--fresh" in sys.argv or not os.path.exists(pk):
        P = frontend.load()
        pickle.dump(P, open(pk, "wb"))
    else:
        P = pickle.load(open(pk, "rb"))
    print("loaded", round(time.time() - t, 1))
    pats = [a for a in sys.argv[1:] if not a.startswith("--")]
    n = bad = 0
    for con in contracts.STORE.all():
        if pats and not any(p in con.qname or p in con.props for p in pats):
            continue
        tg = targets(P, con) + (overriders(P, con) if con.subtypes else [])
        if not tg and con.verify and not con.trusted and not con.inline:
            print("??? no function for", con.qname)
        for c, f, cls in tg:
            r = verify.verify(P, c, f, cls)
            st = [o["status"] for o in r.obls]
            print("%-60s %s %d/%d %.1fs%s" % (r.name, "OK" if not r.error and all(s == "proved" for s in st) and not r.vacuous else "FAIL",
                                              st.count("proved"), len(st), r.wall, " VACUOUS " + r.vacuous if r.vacuous else ""))
            if r.unresolved:
                print("     unresolved loops:", r.unresolved)
            n += len(st)
            if r.error:
                print("     ", r.error)
                if "--trace" in sys.argv and hasattr(r, "trace"):
                    print(r.trace)
            for o in r.obls:
                if o["status"] != "proved" or "-v" in sys.argv or "--v" in sys.argv:
                    print("     ", o["status"], o["name"], o["backend"], o["time"], o.get("reason", ""), {k: v for k, v in o.get("model", {}).items()} if o["status"] != "proved" else "")
    print(n, "obligations")
