"""Verification of one function against its contract; discharge of the obligations."""
import itertools, z3, time, os, re, subprocess, tempfile, traceback
from core import *
from core import And, Or, Not, If
from engine import *
from expr import FullEngine
from contracts import STORE
import stdlib_model

OUT_OF_REACH = "out-of-reach"


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []       # dicts
        self.error = None    # extraction/translation problem
        self.inlined, self.used = [], []
        self.wall = 0.0
        self.unresolved = []
        self.vacuous = None


def struct_axioms(fmls, P, E):
    """facts about addresses of embedded objects and cells."""
    out = []
    seen = {}
    for f in fmls:
        for a in apps_in(f, lambda x: x.decl().name().startswith(("sub:", "loc:", "locelem"))):
            seen[a.get_id()] = a
    lens = {}
    for f in fmls:
        for a in apps_in(f, lambda x: x.decl().name().startswith("len_Vec")):
            if not (z3.is_app(a.arg(0)) and a.arg(0).decl().name().startswith("mk_")):
                lens[a.get_id()] = a
    out += [a >= 0 for a in lens.values()]
    kinds = {}
    for a in seen.values():
        nm = a.decl().name()
        kid = kinds.setdefault(nm, len(kinds) + 1)
        if nm.startswith("sub:"):
            key = nm[4:]
            ty = E.field_type(key)
            out.append(a != null)
            out.append(z3.Function("owner_" + key, Ref, Ref)(a) == a.arg(0))
            out.append(z3.Function("subkind", Ref, Int)(a) == int_id(nm))
            if ty[0] == "obj":
                out.append(typ(a) == E.cls_ids[ty[1]])
        elif nm.startswith("loc:"):
            out.append(a != nullloc)
            out.append(z3.Function("locowner_" + nm[4:], Loc, Ref)(a) == a.arg(0))
            out.append(z3.Function("lockind", Loc, Int)(a) == int_id(nm))
        else:
            out.append(a != nullloc)
            out.append(z3.Function("locbase", Loc, Loc)(a) == a.arg(0))
            out.append(z3.Function("locidx", Loc, Int)(a) == a.arg(1))
            out.append(z3.Function("lockind", Loc, Int)(a) == -1)
    # distinct string literals
    strs = {}
    for f in fmls:
        for c in consts_in(f).values():
            if str(c).startswith("str!") and c.sort() == Str:
                strs[str(c)] = c
    if len(strs) > 1:
        out.append(z3.Distinct(*strs.values()))
    return out


_ids = {}


def int_id(nm):
    return _ids.setdefault(nm, len(_ids) + 1)


def model_probes(m, probes):
    out = {}
    for k, t in probes.items():
        try:
            v = m.eval(t, model_completion=True)
            if z3.is_rational_value(v):
                out[k] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[k] = float(v.approx(20).as_fraction())
            elif z3.is_int_value(v):
                out[k] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[k] = bool(z3.is_true(v))
            else:
                out[k] = str(v)[:200]
        except z3.Z3Exception:
            pass
    return out


def numerals(m):
    """every numeral of the model: dictionary for the native search."""
    vals = set()
    s = m.sexpr()
    for t in re.findall(r"\(/ (-?[\d.]+) ([\d.]+)\)", s):
        try:
            vals.add(float(t[0]) / float(t[1]))
        except Exception:
            pass
    for t in re.findall(r"\(- \(/ ([\d.]+) ([\d.]+)\)\)", s):
        try:
            vals.add(-float(t[0]) / float(t[1]))
        except Exception:
            pass
    for t in re.findall(r"(?<![\w!])(\d+\.\d+)", s):
        vals.add(float(t))
    for t in re.findall(r"\(- (\d+\.\d+)\)", s):
        vals.add(-float(t))
    return sorted(v for v in vals if abs(v) < 1e12)[:60]


def purify(fmls):
    """replace maximal non-arithmetic real/int terms by fresh constants (sound for proving: weakens)."""
    cache = {}
    arith = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
             z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_TO_REAL,
             z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM, z3.Z3_OP_XOR}
    names = {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        if z3.is_quantifier(t):
            r = z3.BoolVal(True) if False else z3.Const("pq!%d" % i, Bool)
        elif z3.is_app(t) and t.decl().kind() in arith:
            ch = t.children()
            if t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch and ch[0].sort() not in (Real, Int, Bool):
                r = z3.Const("pe!%d" % i, Bool)
            elif t.decl().kind() == z3.Z3_OP_ITE and t.sort() not in (Real, Int, Bool):
                r = z3.Const("pt!%d" % i, t.sort())
            elif t.decl().kind() == z3.Z3_OP_TO_REAL:
                r = z3.Const("pr!%d" % i, Real)
            elif not ch:
                r = t
            else:
                r = t.decl()(*[go(c) for c in ch])
        elif t.sort() in (Real, Int, Bool):
            r = z3.Const("pt!%d" % i, t.sort())
        else:
            r = t
        cache[i] = r
        return r
    return [go(f) for f in fmls]


def name_lambdas(fmls):
    """closed lambda terms become array constants defined pointwise (weakens: no extensionality).
    None when there is no lambda."""
    cache, defs, n = {}, [], [0]

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(t):
            vs = [z3.Const("%s!l%d" % (t.var_name(k), i), t.var_sort(k)) for k in range(t.num_vars())]
            if t.is_lambda():
                if has_free(t) or len(vs) != 1:
                    r = t
                else:
                    n[0] += 1
                    r = z3.Const("lm!%d" % i, t.sort())
                    body = z3.simplify(go(z3.substitute_vars(t.body(), *reversed(vs))))
                    defs.append(z3.ForAll(vs, z3.Select(r, vs[0]) == body, patterns=[z3.Select(r, vs[0])]))
            else:
                r = t
        elif z3.is_app(t) and t.num_args():
            r = t.decl()(*[go(c) for c in t.children()])
        else:
            r = t
        cache[i] = (t, r)
        return r
    out = [go(f) for f in fmls]
    return out + defs if n[0] else None


NMUL, NDIV = z3.Function("n_mul", Real, Real, Real), z3.Function("n_div", Real, Real, Real)


def uf_nonlinear(fmls):
    """products and quotients of non-numerals become uninterpreted (weakens), commutative products."""
    cache, used = {}, [False]

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(t):
            if t.is_lambda():
                r = t
            else:
                vs = [z3.Const("%s!u%d" % (t.var_name(k), i), t.var_sort(k)) for k in range(t.num_vars())]
                body = go(z3.substitute_vars(t.body(), *reversed(vs)))
                ps = []
                for k in range(t.num_patterns()):
                    q = t.pattern(k)
                    cs = [go(z3.substitute_vars(c, *reversed(vs))) for c in q.children()]
                    ps.append(z3.MultiPattern(*cs))
                try:
                    r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, body, patterns=ps)
                except z3.Z3Exception:
                    r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, body)
        elif z3.is_app(t) and t.num_args():
            cs = [go(c) for c in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and t.sort() == Real and sum(not z3.is_rational_value(c) for c in cs) > 1:
                used[0] = True
                num = [c for c in cs if z3.is_rational_value(c)]
                o = [c for c in cs if not z3.is_rational_value(c)]
                r = o[0]
                for c in o[1:]:
                    r = NMUL(r, c)
                for c in num:
                    r = c * r
            elif k == z3.Z3_OP_DIV and not z3.is_rational_value(cs[1]):
                used[0] = True
                r = NDIV(cs[0], cs[1])
            elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = z3.And(cs) if k == z3.Z3_OP_AND else z3.Or(cs) if k == z3.Z3_OP_OR else (z3.Sum(cs) if k == z3.Z3_OP_ADD else z3.Product(cs))
            else:
                r = t.decl()(*cs)
        else:
            r = t
        cache[i] = (t, r)
        return r
    out = [go(f) for f in fmls]
    if not used[0]:
        return None
    x, y = z3.Reals("um!x um!y")
    return out + [z3.ForAll([x, y], NMUL(x, y) == NMUL(y, x), patterns=[NMUL(x, y)])]


def symbols(t, cache={}):
    """names of the uninterpreted symbols of a formula."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def slices(fm, goal):
    """smaller sets of hypotheses: those that share a rarely used symbol with the goal (dropping a hypothesis is sound)."""
    sy = [symbols(h) for h in fm]
    count = {}
    for q in sy:
        for n in q:
            count[n] = count.get(n, 0) + 1
    limit = max(4, len(fm) // 5)
    rare = lambda q: {n for n in q if count.get(n, 0) <= limit}
    quant = [_has_quant(h) for h in fm]
    want = rare(symbols(goal))
    sizes = set()
    for rounds in (1, 2, 3):
        keep = [h for h, q, qu in zip(fm, sy, quant) if not qu or (rare(q) & want)]
        if len(keep) not in sizes and len(keep) < len(fm):
            sizes.add(len(keep))
            yield keep
        for q, qu in zip(sy, quant):
            r = rare(q)
            if r & want:
                want = want | r


def use_equations(fm):
    """top-level equations that define the value of a variable at a loop are used to eliminate it."""
    fm = list(fm)
    done = set()
    for _ in range(40):
        pick = None
        for h in fm:
            if z3.is_eq(h):
                for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if z3.is_app(a) and a.decl().name().startswith("st!") and a.get_id() not in done and not _occurs(a, b) and not has_var(a):
                        pick = (h, a, b)
                        break
            if pick:
                break
        if pick is None:
            break
        h, a, b = pick
        done.add(a.get_id())
        fm = [h2 if h2 is h else z3.simplify(z3.substitute(h2, (a, b))) for h2 in fm]
        fm = [h2 for h2 in fm if h2 is not h and not z3.is_true(h2)]
    return fm


def _occurs(a, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x.get_id() == a.get_id():
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def guards(fm):
    """the conditions under which hypotheses hold."""
    n = {}
    for h in fm:
        if z3.is_or(h):
            for c in h.children():
                g = c.arg(0) if z3.is_not(c) else c
                if not _has_quant(g) and not has_var(g):
                    n.setdefault(g.get_id(), [g, 0])[1] += 1
    return [g for g, k in sorted(n.values(), key=lambda x: -x[1]) if k > 1]


def by_cases(fm, solve, depth):
    """both cases of the most used conditions, each solved on its own."""
    fm = [x for h in fm for x in (h.children() if z3.is_and(h) else [h])]
    fm = [z3.simplify(h) for h in use_equations(fm)]
    if any(z3.is_false(h) for h in fm):
        return True
    gs = guards(fm) if depth else []
    if not gs:
        return solve(fm)
    g = gs[0]
    for v in (True, False):
        part = [z3.simplify(z3.substitute(h, (g, z3.BoolVal(v)))) for h in fm] + [g if v else Not(g)]
        part = [h for h in part if not z3.is_true(h)]
        if not by_cases(part, solve, depth - 1):
            return False
    return True


_sko = itertools.count()


def neg_skolem(g):
    """negation of g with its outer universal quantifiers replaced by fresh constants."""
    if z3.is_quantifier(g) and g.is_forall():
        cs = [z3.Const("sg!%d" % next(_sko), g.var_sort(j)) for j in range(g.num_vars())]
        return neg_skolem(z3.substitute_vars(g.body(), *reversed(cs)))
    if z3.is_and(g):
        return Or([neg_skolem(c) for c in g.children()])
    if z3.is_implies(g):
        return And([g.arg(0), neg_skolem(g.arg(1))])
    return Not(g)


def discharge(o, E, P, budget=12.0):
    """-> dict(name, status, backend, time, model)"""
    t0 = time.time()
    d = {"func": o.func, "name": o.name, "kind": o.kind}

    def done(status, backend, **kw):
        d.update(status=status, backend=backend, time=round(time.time() - t0, 3), **kw)
        return d
    hyps = list(o.hyps)
    g = z3.simplify(o.goal)
    if z3.is_true(g):
        return done("proved", "simplify")
    goal = neg_skolem(o.goal)
    fm = [z3.simplify(h) for h in hyps] + [z3.simplify(goal)]
    if any(z3.is_false(x) for x in fm):
        return done("proved", "simplify")
    fm = [f for f in fm if not z3.is_true(f)]
    # 0. lean attempt: no facts about sums
    if any(apps_in(f, lambda x: x.decl().name().startswith("sum!")) for f in fm):
        lean = math_axioms(fm)
        lean += struct_axioms(fm + lean, P, E)
        lean += [a for f in E.axiom_fns for a in f(fm + lean)]
        s = z3.Solver()
        s.set("timeout", int(budget * 1000 * 0.15))
        s.add(*fm)
        s.add(*lean)
        if s.check() == z3.unsat:
            return done("proved", "z3")
    ax = sum_axioms(fm, rounds=E.rounds, index_hints=tuple(o.hints))
    ax += math_axioms(fm + ax)
    ax += struct_axioms(fm + ax, P, E)
    ax += [a for f in E.axiom_fns for a in f(fm + ax)]
    fm2 = fm + [z3.simplify(a) for a in ax]
    mdl = None
    st = None
    # 1. default z3
    s = z3.Solver()
    s.set("timeout", int(budget * 1000 * 0.4))
    s.add(*fm2)
    r = s.check()
    if r == z3.unsat:
        return done("proved", "z3")
    if r == z3.sat:
        mdl = s.model()
    reason = s.reason_unknown() if r == z3.unknown else ""
    fm3 = None
    if r == z3.unknown:
        fm3 = name_lambdas(fm2)
        if fm3 is not None:
            s = z3.Solver()
            s.set("timeout", int(budget * 1000 * 0.4))
            s.add(*fm3)
            if s.check() == z3.unsat:
                return done("proved", "z3-defs")
        for part in slices(fm[:-1], goal):
            part = part + fm[-1:]
            ax0 = math_axioms(part)
            part = [z3.simplify(x) for x in part + ax0 + struct_axioms(part + ax0, P, E)]
            s = z3.Solver()
            s.set("timeout", int(budget * 1000 * 0.15))
            s.add(*(uf_nonlinear(part) or part))
            if s.check() == z3.unsat:
                return done("proved", "z3-slice")
        def leaf(part):
            ax0 = math_axioms(part)
            part = [z3.simplify(x) for x in part + ax0 + struct_axioms(part + ax0, P, E)]
            for q in (part, uf_nonlinear(part)):
                if q is None:
                    continue
                s = z3.Solver()
                s.set("timeout", int(budget * 1000 * 0.1))
                s.add(*q)
                if s.check() == z3.unsat:
                    return True
            return False
        if by_cases(fm, leaf, 4):
            return done("proved", "z3-cases")
        fu = uf_nonlinear(fm3 or fm2)
        if fu is not None:
            s = z3.Solver()
            s.set("timeout", int(budget * 1000 * 0.3))
            s.add(*fu)
            if s.check() == z3.unsat:
                return done("proved", "z3-uf")
    # 2. purified nlsat (only a proof if unsat)
    if r == z3.unknown:
        has_q = any(_has_quant(f) for f in fm2)
        try:
            pf = purify(array_elim(fm2))
            t = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "simplify", "qfnra-nlsat") if False else None
            s3 = z3.SolverFor("QF_NRA")
            s3.set("timeout", int(budget * 1000 * 0.3))
            s3.add(*pf)
            r3 = s3.check()
            if r3 == z3.unsat:
                return done("proved", "z3-nlsat")
            if r3 == z3.sat and mdl is None:
                mdl = s3.model()
        except z3.Z3Exception:
            pass
        # 3. cvc5
        r4 = cvc5(fm3 or fm2, budget * 0.5)
        if r4 == "unsat":
            return done("proved", "cvc5")
        s4 = z3.Solver()
        s4.set("timeout", int(budget * 1000 * 0.5))
        s4.set("random_seed", 7)
        s4.set("smt.arith.solver", 2)
        s4.add(*fm2)
        r5 = s4.check()
        if r5 == z3.unsat:
            return done("proved", "z3-arith2")
        if r5 == z3.sat:
            mdl, r = s4.model(), r5
    kw = {"reason": reason or ("sat" if r == z3.sat else "unknown")}
    if mdl is not None:
        kw["model"] = model_probes(mdl, o.probes)
        kw["numerals"] = numerals(mdl)
    return done("refuted" if r == z3.sat else "unknown", "z3", **kw)


def _has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def array_elim(fmls):
    return fmls


def cvc5(fm, secs):
    s = z3.Solver()
    s.add(*fm)
    txt = s.to_smt2()
    if "Lambda" in txt or "(lambda" in txt:
        return "unknown"
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), "--nl-ext-tplanes", fn], capture_output=True, text=True, timeout=secs + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


def find_func(P, con):
    fs = [f for f in P.funcs.get(con.qname, []) if f.body is not None]
    fs = [f for f in fs if (con.arity is None or len(f.params) == con.arity) and (con.sig is None or con.sig in f.type)]
    return fs


def param_value(E, st, p, i):
    ty = E.ntype(p)
    nm = "arg_" + (p.get("name") or "p%d" % i)
    q = p["type"]["qualType"].strip()
    if ty[0] in ("opaque", "pair"):
        return Opaque(nm), None
    c = z3.Const(nm, sort_of(ty))
    if ty[0] == "obj":
        st.facts.append(c != null)
        st.facts.append(E.type_is(c, ty[1]))
        return c, None
    if q.endswith("&") and not q.endswith("&&"):
        key = ("ref", p["id"])
        st.locals[key] = c
        return LocalLV(key), c
    return c, None


def collect_locals(n, out):
    if n.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
        out[n["id"]] = n.get("name")
    for c in n.get("inner", []):
        if isinstance(c, dict):
            collect_locals(c, out)


def verify(P, con, f, cls=None, budget=12.0, extra_ensures=None, label=None, only=None, scale=1.0):
    """only: indices of the obligations to discharge (a set, or (n, k): every n-th from k; None: all); scale multiplies the contract's own time limit"""
    res = Result(label or (f.qname + ((" [%s]" % cls) if cls else "")))
    t0 = time.time()
    try:
        obls, E = generate(P, con, f, cls, res)
    except Unsupported as e:
        res.error = "unsupported: %s" % e
        res.wall = time.time() - t0
        return res
    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, AssertionError, RecursionError) as e:
        res.error = "translation: %s: %s" % (type(e).__name__, e)
        res.trace = traceback.format_exc()
        res.wall = time.time() - t0
        return res
    for j, o in enumerate(obls):
        if only is None or (j % only[0] == only[1] if isinstance(only, tuple) else j in only):
            res.obls.append(discharge(o, E, P, con.timeout * scale if con.timeout else budget))
            res.obls[-1]["index"] = j
    res.count = len(obls)
    res.inlined, res.used = sorted(E.inlined), sorted(E.used_contracts)
    res.unresolved = [str(x) for x in E.unresolved_loops]
    res.wall = time.time() - t0
    return res


class UnfoldStore:
    """view of the store in which some contracts are unfolded (bodies inlined) for one verification."""

    def __init__(self, base, names):
        self.base, self.names = base, set(names)

    def get(self, q):
        return None if q in self.names else self.base.get(q)

    def get_all(self, q):
        return [] if q in self.names else self.base.get_all(q)


def unfold_step(goal, k):
    """sums up to k+1 (k >= 0) written as the sum up to k plus the term; sums up to 0 as 0."""
    goal = z3.simplify(goal)
    subs = []
    for a in apps_in(goal, lambda x: x.decl().name().startswith("sum!")):
        d = SUM_BY_NAME[a.decl().name()]
        n, ps = z3.simplify(a.arg(0)), [a.arg(j) for j in range(1, a.num_args())]
        if k is None:
            if n.eq(z3.IntVal(0)):
                subs.append((a, z3.RealVal(0) if a.sort() == Real else z3.IntVal(0)))
        elif z3.simplify(n - k).eq(z3.IntVal(1)):
            subs.append((a, d.fn(k, *ps) + d.f(k, ps)))
    return z3.simplify(z3.substitute(goal, *subs), som=True) if subs else goal


def generate(P, con, f, cls, res):
    store = STORE if not con.unfold else UnfoldStore(STORE, con.unfold)
    E = FullEngine(P, store)
    E.axiom_fns = list(AXIOM_FNS)
    E.rounds = con.rounds
    E.ghost = dict(GHOSTS)
    E.fn = f.qname + (("[%s]" % cls) if cls else "")
    E.cur_contract = con
    st = State()
    this = None
    if f.cls and not f.static:
        this = z3.Const("this", Ref)
        st.facts.append(this != null)
        if cls:
            st.facts.append(typ(this) == E.cls_ids[cls])
        elif f.kind == "CXXConstructorDecl":
            pass
        else:
            ds = [d for d in P.subclasses(f.cls) if not P.classes[d].abstract and (not E.is_virtual(f) or E.resolve(d, f) is f)]
            if ds:
                st.facts.append(Or([typ(this) == E.cls_ids[d] for d in ds]))
    E.this, E.this_cls = this, (cls or f.cls)
    E.frame = 0
    raw, vals, refparams = [], [], {}
    for i, p in enumerate(f.params):
        v, c = param_value(E, st, p, i)
        raw.append(v)
        vals.append(c if c is not None else v)
        st.locals[(0, p["id"])] = v if not (isinstance(v, LocalLV)) else v
        if c is not None:
            refparams[i] = v
    loc = {}
    collect_locals(f.node, loc)
    if f.body is not None:
        collect_locals(f.body, loc)
    E.local_names = loc
    E.P_cur = f
    if con.setup:
        con.setup(E, st, this, vals)
    pre = st.fork()
    S0 = SpecCtx(E, con, f, this, vals, pre, None, None, raw)
    S0.cls = cls or f.cls
    E.spec_ctx = S0
    req = con.get_requires(S0)
    # class facts about the pre-state
    for _, e in req:
        st.facts.append(e)
    if con.facts:
        st.facts += list(con.facts(S0))
    pre.facts = list(st.facts)
    pre.heap = dict(st.heap)
    st.heap = dict(pre.heap)
    probes = con.probes(S0) if con.probes else default_probes(E, f, this, vals, pre)
    E.probes = lambda s: probes
    # vacuity: requires must be satisfiable
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*[z3.simplify(x) for x in st.facts])
    if s.check() == z3.unsat:
        res.vacuous = "requires is unsatisfiable"
    E.sink = []
    work = st.fork()
    if f.kind == "CXXConstructorDecl":
        E.run_inits(work, f, this)
    outs = E.exec(work, f.body)
    throws = E.sink
    rt = f.type.split("(")[0].strip()
    obls = []
    outs = [o for o in outs if not E.dead(o.st)]
    thr = con.get_throws(SpecCtx(E, con, f, this, vals, pre, None, None, raw))
    n = 0
    for o in outs:
        v = o.val
        lvres = v
        if o.kind not in ("normal", "return"):
            raise Unsupported("stray %s" % o.kind)
        v = E.load(o.st, v)
        if isinstance(v, (MetaVec, MetaMat)):
            v = E.mat_val(o.st, v)
        if v is not None and z3.is_expr(v) and rt not in ("void",) and not rt.endswith("&"):
            v = E.coerce(v, parse_type(rt, P))
        S = SpecCtx(E, con, f, this, vals, pre, o.st, v, raw)
        S.cls = cls or f.cls
        S.result_lvalue = lvres if isinstance(lvres, LV) else None
        tag = "" if len(outs) == 1 else " (exit %d)" % (n + 1)
        n += 1
        E.hints = []
        if con.lemmas:
            for lab, P_, at_ in con.lemmas(S):
                if isinstance(at_, list):
                    # a fact of real arithmetic: proved with the listed terms generalised and no hypothesis
                    cs = [(t_, z3.Const("any!%d" % next(E.fresh_n), t_.sort())) for t_ in at_]
                    E.obls.append(Obligation(E.fn, "lemma %s%s" % (lab, tag), [], z3.substitute(P_, *cs), [], "post"))
                    o.st.facts.append(P_)
                    continue
                kk = z3.Const("ind!%d" % next(E.fresh_n), Int)
                E.oblige(o.st, "lemma %s: base%s" % (lab, tag), unfold_step(P_(z3.IntVal(0)), None))
                ind = o.st.fork(kk >= 0, P_(kk))
                E.oblige(ind, "lemma %s: step%s" % (lab, tag), unfold_step(P_(kk + 1), kk))
                o.st.facts.append(z3.Implies(at_ >= 0, P_(at_)))
        for lab, e in con.get_ensures(S) + (list(con.checks(S)) if con.checks else []):
            E.oblige(o.st, "ensures %s%s" % (lab, tag), e)
        if con.pure and v is not None:
            E.oblige(o.st, "result is the specified function%s" % tag, v == con.pure(S))
        if con.result_lv and isinstance(lvres, LV):
            E.oblige(o.st, "result cell%s" % tag, z3.BoolVal(same_lv(lvres, con.result_lv(S))))
        if con.result_class and z3.is_expr(v):
            E.oblige(o.st, "result class%s" % tag, typ(v) == E.cls_ids[con.result_class])
        if z3.is_expr(thr):
            E.oblige(o.st, "returns normally only if it should%s" % tag, Not(thr))
        if con.frame:
            frame_obls(E, con, S, pre, o.st, tag)
    if not outs and thr is False:
        raise Unsupported("no normal exit")
    for j, t in enumerate(throws):
        if E.dead(t.st):
            continue
        tag = " (throw %d)" % (j + 1)
        if thr is False:
            E.oblige(t.st, "does not throw%s" % tag, z3.BoolVal(False), kind="throw")
        elif z3.is_expr(thr):
            E.oblige(t.st, "throws only when specified%s" % tag, thr, kind="throw")
        if con.exc_ensures:
            S = SpecCtx(E, con, f, this, vals, pre, t.st, None, raw)
            S.cls = cls or f.cls
            for lab, e in con.exc_ensures(S):
                E.oblige(t.st, "on exception: %s%s" % (lab, tag), e, kind="throw")
    # reachability of at least one exit
    reach = False
    for o in outs + [t for t in throws if thr is not False]:
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*[z3.simplify(x) for x in o.st.facts + o.st.conds])
        if s.check() != z3.unsat:
            reach = True
            break
    if (outs or throws) and not reach and res.vacuous is None:
        res.vacuous = "no exit is reachable under the precondition"
    return E.obls, E


def frame_obls(E, con, S, pre, post, tag):
    allowed = {}
    for m in con.get_modifies(SpecCtx(E, con, S.f, S.this, S.args, pre, None, None, S.raw)):
        if m[0] == "LV":
            continue
        allowed.setdefault(m[0], []).append(m[1])
    fresh = z3.Function("is_fresh", Ref, Bool)
    for k, h in post.heap.items():
        h0 = pre.heap.get(k)
        if h0 is None:
            h0 = z3.Const("H." + k, E.heap_sort(k))
        if h.eq(h0):
            continue
        al = allowed.get(k, [])
        if any(a is None for a in al):
            continue
        r = z3.Const("frame_r!%d" % next(E.fresh_n), h.sort().domain())
        if S.f.kind == "CXXConstructorDecl" and h.sort().domain() == Ref:
            al = al + [S.this]
        ok = [z3.Select(h, r) == z3.Select(h0, r)]
        if r.sort() == Ref:
            ok.append(fresh(r))
            if z3.is_expr(h) and True:
                ok.append(sub_of_fresh(E, r, fresh, k, S))
        for a in al:
            ok.append(r == a if z3.is_expr(a) else a(r))
        E.oblige(post, "frame: %s%s" % (k, tag), Or(ok), kind="frame")


def sub_of_fresh(E, r, fresh, key, S):
    """r is an embedded object of a fresh object (or of the object under construction)."""
    cls = key.rsplit(".", 1)[0]
    out = []
    if cls not in E.P.classes:
        return z3.BoolVal(False)
    for c, C in E.P.classes.items():
        for fn_, t in C.fields.items():
            ty = parse_type(t, E.P)
            if ty[0] == "obj" and (ty[1] == cls or cls in E.P.all_bases(ty[1])):
                o = z3.Function("owner_%s.%s" % (c, fn_), Ref, Ref)(r)
                isf = z3.And(fresh(o), r == E.sub(c + "." + fn_, o))
                if S.f.kind == "CXXConstructorDecl":
                    isf = z3.And(z3.Or(fresh(o), o == S.this), r == E.sub(c + "." + fn_, o))
                out.append(isf)
    return Or(out)


AXIOM_FNS = []
GHOSTS = {}


def default_probes(E, f, this, vals, pre):
    pr = {}
    for p, v in zip(f.params, vals):
        if z3.is_expr(v) and v.sort() in (Real, Int, Bool):
            pr["arg." + str(p.get("name"))] = v
    if this is not None and f.cls:
        for c in [f.cls] + E.P.all_bases(f.cls):
            for fn_ in E.P.classes[c].fields:
                key = c + "." + fn_
                ty = E.field_type(key)
                if ty[0] in ("real", "int", "bool"):
                    pr["this." + fn_] = sel(E.H(pre, key), this)
                elif ty[0] == "ptr" and ty[1][0] == "real":
                    pr["*this." + fn_] = sel(E.H(pre, "*Real"), sel(E.H(pre, key), this))
    return pr
