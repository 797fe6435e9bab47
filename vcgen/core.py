"""Terms, sorts, symbolic state and the sum theory used by the VC generator."""
import hashlib
import z3, itertools, re

z3.set_param("smt.random_seed", 1)

Ref = z3.DeclareSort("Ref")
Str = z3.DeclareSort("Str")
Loc = z3.DeclareSort("Loc")
Opq = z3.DeclareSort("Opaque")
Real, Int, Bool = z3.RealSort(), z3.IntSort(), z3.BoolSort()
null = z3.Const("null", Ref)
nullloc = z3.Const("nullloc", Loc)
typ = z3.Function("typ", Ref, Int)
INF = z3.Const("INF", Real)
NAN = z3.Const("NAN", Real)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        loc = ""
        if node is not None:
            r = node.get("range", {}).get("begin", {})
            loc = " (kind %s, line %s)" % (node.get("kind"), r.get("line") or r.get("expansionLoc", {}).get("line"))
        super().__init__(msg + loc)


_vec = {}
VEC_BY_NAME = {}


class VecSort:
    def __init__(self, elem):
        n = "Vec_" + re.sub(r"\W", "_", str(elem))
        d = z3.Datatype(n)
        d.declare("mk_" + n, ("len_" + n, Int), ("data_" + n, z3.ArraySort(Int, elem)))
        self.sort = d.create()
        self.elem = elem
        self.mk = self.sort.constructor(0)
        self.len = self.sort.accessor(0, 0)
        self.data = self.sort.accessor(0, 1)
        VEC_BY_NAME[str(self.sort)] = self


def vec(elem):
    k = str(elem)
    if k not in _vec:
        _vec[k] = VecSort(elem)
    return _vec[k]


def vecof(v):
    return VEC_BY_NAME.get(str(v.sort()))


def is_vec(v):
    return z3.is_expr(v) and str(v.sort()) in VEC_BY_NAME


def vlen(v):
    V = vecof(v)
    if z3.is_app(v) and v.decl().eq(V.mk):
        return v.arg(0)
    return V.len(v)


def vdata(v):
    V = vecof(v)
    if z3.is_app(v) and v.decl().eq(V.mk):
        return v.arg(1)
    return V.data(v)


def dist(v, f):
    """f(v) pushed through conditionals."""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = dist(v.arg(1), f), dist(v.arg(2), f)
        return a if a.eq(b) else z3.If(v.arg(0), a, b)
    return f(v)


def sel(arr, i):
    """select with read-over-write simplification for syntactically equal indices."""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        if arr.arg(1).eq(i):
            return arr.arg(2)
        a, b = arr.arg(1), i
        if z3.is_int_value(a) and z3.is_int_value(b):
            arr = arr.arg(0)
            continue
        break
    return z3.Select(arr, i)


def vget(v, i):
    return sel(vdata(v), i)


def vset(v, i, x):
    V = vecof(v)
    return V.mk(vlen(v), z3.Store(vdata(v), i, x))


def vlit(elem, items):
    V = vec(elem)
    a = z3.Const("empty!" + str(V.sort), z3.ArraySort(Int, elem))
    for k, x in enumerate(items):
        a = z3.Store(a, z3.IntVal(k), x)
    return V.mk(z3.IntVal(len(items)), a)


class MatSort:
    pass


_mat = {}
MAT_BY_NAME = {}


def mat(elem):
    k = str(elem)
    if k not in _mat:
        n = "Mat_" + k
        d = z3.Datatype(n)
        d.declare("mk_" + n, ("rows_" + n, Int), ("cols_" + n, Int),
                  ("mdata_" + n, z3.ArraySort(Int, z3.ArraySort(Int, elem))))
        m = MatSort()
        m.sort = d.create()
        m.elem = elem
        m.mk = m.sort.constructor(0)
        m.rows, m.cols, m.data = (m.sort.accessor(0, j) for j in range(3))
        _mat[k] = m
        MAT_BY_NAME[str(m.sort)] = m
    return _mat[k]


def is_mat(v):
    return z3.is_expr(v) and str(v.sort()) in MAT_BY_NAME


def matof(v):
    return MAT_BY_NAME[str(v.sort())]


def macc(v, j):
    m = matof(v)
    if z3.is_app(v) and v.decl().eq(m.mk):
        return v.arg(j)
    return (m.rows, m.cols, m.data)[j](v)


_map = {}
MAP_BY_NAME = {}


def mapsort(ks, vs):
    k = (str(ks), str(vs))
    if k not in _map:
        n = "Map_%s_%s" % tuple(re.sub(r"\W", "_", x) for x in k)
        d = z3.Datatype(n)
        d.declare("mk_" + n, ("has_" + n, z3.ArraySort(ks, Bool)), ("val_" + n, z3.ArraySort(ks, vs)))
        m = MatSort()
        m.sort = d.create()
        m.key, m.val = ks, vs
        m.mk = m.sort.constructor(0)
        m.has, m.get = m.sort.accessor(0, 0), m.sort.accessor(0, 1)
        _map[k] = m
        MAP_BY_NAME[str(m.sort)] = m
    return _map[k]


def is_map(v):
    return z3.is_expr(v) and str(v.sort()) in MAP_BY_NAME


# ---------------------------------------------------------------- types
ALIASES = {"vecDouble": "std::vector<double>", "vecInt": "std::vector<int>", "vecFloat": "std::vector<float>",
           "vecStr": "std::vector<string>", "vecDoublePt": "std::vector<double*>", "axd": "Eigen::Array<double,-1,1>",
           "axi": "Eigen::Array<int,-1,1>", "axxd": "Eigen::Array<double,-1,-1>",
           "vecAxd": "std::vector<axd>", "vecAxxd": "std::vector<axxd>", "string": "std::string",
           "vector": "std::vector"}


def split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {"int", "unsigned int", "unsigned", "long", "unsigned long", "size_t", "std::size_t", "long long",
        "unsigned long long", "short", "char", "unsigned char", "std::ptrdiff_t", "ptrdiff_t", "int64_t",
        "size_type", "difference_type", "unsigned short", "signed char", "Eigen::Index", "Index"}
REALS = {"double", "float", "long double"}
_tcache = {}


def parse_type(t, prog):
    key = t
    if key in _tcache:
        return _tcache[key]
    r = _parse_type(t, prog)
    _tcache[key] = r
    return r


def _parse_type(t, prog):
    t = t.strip()
    for w in ("class ", "struct ", "enum ", "HB::", "(anonymous namespace)::", "mutable ", "volatile "):
        t = t.replace(w, "")
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:].strip()
        elif t.endswith(" const"):
            t = t[:-6].strip()
        elif t.endswith("*const"):
            t = t[:-5].strip()
        else:
            break
    if t.endswith("&&"):
        return _parse_type(t[:-2], prog)
    if t.endswith("&"):
        return _parse_type(t[:-1], prog)
    if t.endswith("*"):
        inner = t[:-1].strip()
        it = _parse_type(inner, prog)
        if it[0] == "obj":
            return ("ref", it[1])
        if inner.replace("const", "").strip() == "char":
            return ("str",)
        return ("ptr", it)
    if t in ("void",):
        return ("void",)
    if t in INTS:
        return ("int",)
    if t in REALS:
        return ("real",)
    if t == "bool" or t == "_Bool":
        return ("bool",)
    if t in ("std::string", "std::basic_string<char>", "std::string_view", "std::basic_string_view<char>", "string"):
        return ("str",)
    if t == "ModelResult" or re.match(r"^(std::)?expected<\s*void\b", t):
        return ("expected",)
    if re.match(r"^(std::)?unexpected<", t):
        return ("unexpected",)
    m = re.match(r"^([\w:]+)<(.*)>(?:::(\w+))?$", t, re.S)
    if m and not m.group(3):
        h, args = m.group(1), split_targs(m.group(2))
        h = ALIASES.get(h, h)
        if h in ("std::vector", "std::span", "std::initializer_list", "std::array", "std::__debug::vector"):
            if h == "std::array":
                return ("arr", _parse_type(args[0], prog), args[1])
            return ("vec", _parse_type(args[0], prog))
        if h in ("std::unique_ptr", "std::shared_ptr"):
            it = _parse_type(args[0], prog)
            return ("ref", it[1]) if it[0] == "obj" else ("opaque", t)
        if h in ("std::unordered_map", "std::map"):
            return ("map", _parse_type(args[0], prog), _parse_type(args[1], prog))
        if h in ("std::unordered_set", "std::set"):
            return ("map", _parse_type(args[0], prog), ("bool",))
        if h == "std::pair":
            return ("pair", _parse_type(args[0], prog), _parse_type(args[1], prog))
        if h in ("Eigen::Array", "Array"):
            e = _parse_type(args[0], prog)
            if len(args) > 2 and args[1] == "-1" and args[2] == "-1":
                return ("mat", e)
            return ("vec", e)
        if h.startswith("std::optional"):
            return ("opaque", t)
        return ("opaque", t)
    if t in ALIASES:
        return _parse_type(ALIASES[t], prog)
    if t in prog.enums or t.split("::")[-1] in prog.enums:
        return ("int",)
    if t in prog.classes:
        return ("obj", t)
    for c in prog.classes:
        if c.endswith("::" + t):
            return ("obj", c)
    for e in prog.enums:
        if e.endswith("::" + t):
            return ("int",)
    if t == "ModelResult" or t.startswith("std::expected"):
        return ("opaque", t)
    m = re.match(r"^(.*)\[(\d+)\]$", t)
    if m:
        return ("vec", _parse_type(m.group(1), prog))
    if t.startswith("std::nullptr_t"):
        return ("ref", None)
    return ("opaque", t)


def sort_of(ty):
    k = ty[0]
    if k == "real":
        return Real
    if k == "int":
        return Int
    if k in ("bool", "expected", "unexpected"):      # a result without value: whether it succeeded
        return Bool
    if k in ("ref", "obj"):
        return Ref
    if k == "ptr":
        return Loc
    if k == "str":
        return Str
    if k == "vec":
        return vec(sort_of(ty[1])).sort
    if k == "arr":
        return vec(sort_of(ty[1])).sort
    if k == "mat":
        return mat(sort_of(ty[1])).sort
    if k == "map":
        return mapsort(sort_of(ty[1]), sort_of(ty[2])).sort
    return Opq


# ---------------------------------------------------------------- strings
_strlits = {}


def strlit(s):
    if s not in _strlits:
        _strlits[s] = z3.Const("str!" + s, Str)
    return _strlits[s]


# ---------------------------------------------------------------- term utilities
def consts_in(t, cache=None):
    """set of 0-arity uninterpreted constants (as AST ids -> expr)."""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            else:
                st.extend(x.children())
    return out


def apps_in(t, pred, ground_only=True):
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if pred(x) and (not ground_only or not has_var(x)):
                out[i] = x
            st.extend(x.children())
    return list(out.values())


_hv = {}


_free = {}


def free_depth(t):
    """1 + the largest free de Bruijn index of t, 0 if t is closed."""
    i = t.get_id()
    if i in _free:
        return _free[i][1]
    if z3.is_var(t):
        r = z3.get_var_index(t) + 1
    elif z3.is_quantifier(t):
        r = max(0, free_depth(t.body()) - t.num_vars())
    else:
        r = max([0] + [free_depth(c) for c in t.children()])
    _free[i] = (t, r)
    return r


def has_free(t):
    return free_depth(t) > 0


def has_var(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            # variables bound inside are fine only if closed; be conservative
            return True
        st.extend(x.children())
    return False


def mentions(t, ids):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_simp_cache = {}


def simp(t):
    return z3.simplify(t, som=False, blast_select_store=True)


# ---------------------------------------------------------------- sums
class SumDef:
    def __init__(self, fn, params_sorts, body, k, pvars, ident):
        self.fn, self.body, self.k, self.pvars, self.id = fn, body, k, pvars, ident

    def f(self, k, params):
        return z3.substitute(self.body, (self.k, k), *[(a, b) for a, b in zip(self.pvars, params)])


_sums = {}
SUM_BY_NAME = {}


_COMM = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL)


def _commute(term, k):
    """the arguments of commutative operators in an order that does not depend on names or creation order."""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1:]
        if z3.is_quantifier(x) or not z3.is_app(x):
            r = (x, hashlib.md5(("q" + str(x.sort())).encode()).hexdigest())
        elif x.num_args() == 0:
            d = x.decl()
            free = d.kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(null) and not x.eq(INF) and not x.eq(NAN) and not d.name().startswith("str!")
            r = (x, "k" if x.eq(k) else hashlib.md5(("c" + str(x.sort()) if free else x.sexpr()).encode()).hexdigest())
        else:
            cs = [go(c) for c in x.children()]
            old = [c[0] for c in cs]
            if x.decl().kind() in _COMM:
                cs = sorted(cs, key=lambda c: c[1])
            new = [c[0] for c in cs]
            y = x
            if any(not a.eq(b) for a, b in zip(new, x.children())):
                kd = x.decl().kind()
                y = z3.And(new) if kd == z3.Z3_OP_AND else z3.Or(new) if kd == z3.Z3_OP_OR else z3.Sum(new) if kd == z3.Z3_OP_ADD else z3.Product(new) if kd == z3.Z3_OP_MUL else x.decl()(*new)
            r = (y, hashlib.md5((x.decl().name() + "(" + ",".join(c[1] for c in cs)).encode()).hexdigest())
        memo[i] = (x,) + r
        return r
    return go(term)[0]


def _canon(term, k):
    """abstract the 0-arity constants of term (other than k) as parameters."""
    order, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            walk(x.body())
            return
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not x.eq(k) and not x.eq(null) and not x.eq(INF) and not x.eq(NAN) and not str(x).startswith("str!"):
                    order.append(x)
            for c in x.children():
                walk(c)
    norm = _commute(term, k)
    walk(norm)
    pv = [z3.Const("p!%d!%s" % (i, str(c.sort())), c.sort()) for i, c in enumerate(order)]
    kk = z3.Const("k!sum", Int)
    sub = [(k, kk)] + [(c, p) for c, p in zip(order, pv)]
    return z3.substitute(term, *sub), kk, pv, order, z3.substitute(norm, *sub)


def _is_zero(t):
    return z3.is_rational_value(t) and t.as_fraction() == 0


def mk_sum(n, k, term):
    """Sum_{k in [0,n)} term(k) as a canonical function application; linear normalisation first."""
    term = simp(term)
    if not mentions(term, {k.get_id()}):
        if z3.is_rational_value(term) and term.as_fraction() == 0:
            return z3.RealVal(0)
        return term * z3.ToReal(z3.If(n > 0, n, z3.IntVal(0))) if term.sort() == Real else term * z3.If(n > 0, n, 0)
    if z3.is_app(term):
        dk = term.decl().kind()
        if dk == z3.Z3_OP_ADD:
            return z3.Sum([mk_sum(n, k, c) for c in term.children()])
        if dk == z3.Z3_OP_SUB:
            ch = term.children()
            r = mk_sum(n, k, ch[0])
            for c in ch[1:]:
                r = r - mk_sum(n, k, c)
            return r
        if dk == z3.Z3_OP_UMINUS:
            return -mk_sum(n, k, term.arg(0))
        if dk == z3.Z3_OP_MUL:
            ins = [c for c in term.children() if mentions(c, {k.get_id()})]
            outs = [c for c in term.children() if not mentions(c, {k.get_id()})]
            if outs:
                p = ins[0]
                for c in ins[1:]:
                    p = p * c
                r = mk_sum(n, k, p)
                for c in outs:
                    r = c * r
                return r
        if dk == z3.Z3_OP_DIV and not mentions(term.arg(1), {k.get_id()}):
            return mk_sum(n, k, term.arg(0)) / term.arg(1)
        if dk == z3.Z3_OP_ITE and not mentions(term.arg(0), {k.get_id()}):
            return z3.If(term.arg(0), mk_sum(n, k, term.arg(1)), mk_sum(n, k, term.arg(2)))
        if dk == z3.Z3_OP_ITE and term.sort() == Real:
            c, a, b = term.children()
            za, zb = _is_zero(a), _is_zero(b)
            if not za and not zb:
                return mk_sum(n, k, z3.If(c, a, z3.RealVal(0))) + mk_sum(n, k, z3.If(c, z3.RealVal(0), b))
            t = b if za else a
            wrap = (lambda x: z3.If(c, z3.RealVal(0), x)) if za else (lambda x: z3.If(c, x, z3.RealVal(0)))
            one = z3.RealVal(1)
            tk = t.decl().kind() if z3.is_app(t) else None
            if not mentions(t, {k.get_id()}) and not t.eq(one):
                return t * mk_sum(n, k, wrap(one))
            if tk == z3.Z3_OP_ADD:
                return z3.Sum([mk_sum(n, k, wrap(x)) for x in t.children()])
            if tk == z3.Z3_OP_SUB:
                ch = t.children()
                r = mk_sum(n, k, wrap(ch[0]))
                for x in ch[1:]:
                    r = r - mk_sum(n, k, wrap(x))
                return r
            if tk == z3.Z3_OP_UMINUS:
                return -mk_sum(n, k, wrap(t.arg(0)))
            if tk == z3.Z3_OP_MUL:
                ins = [x for x in t.children() if mentions(x, {k.get_id()})]
                outs_ = [x for x in t.children() if not mentions(x, {k.get_id()})]
                if outs_:
                    pr = ins[0]
                    for x in ins[1:]:
                        pr = pr * x
                    r = mk_sum(n, k, wrap(pr))
                    for x in outs_:
                        r = x * r
                    return r
            if tk == z3.Z3_OP_DIV and not mentions(t.arg(1), {k.get_id()}):
                return mk_sum(n, k, wrap(t.arg(0))) / t.arg(1)
    body, kk, pv, params, norm = _canon(term, k)
    key = norm.sexpr()
    if key not in _sums:
        ident = len(_sums)
        fn = z3.Function("sum!%d" % ident, Int, *[p.sort() for p in pv], term.sort())
        d = SumDef(fn, None, body, kk, pv, ident)
        _sums[key] = d
        SUM_BY_NAME["sum!%d" % ident] = d
    return _sums[key].fn(n, *params)


def sum_axioms(fmls, rounds=2, index_hints=()):
    """ground lemma instances for every sum application in fmls (all are theorems of finite sums)."""
    out = []
    done = set()
    sk = itertools.count()

    def is_sum(x):
        return x.decl().name().startswith("sum!")
    pairs_done = set()
    apps = []
    new = fmls
    for rnd in range(rounds):
        found = []
        for f in new:
            for a in apps_in(f, is_sum):
                if a.get_id() not in done:
                    done.add(a.get_id())
                    found.append(a)
        gen = []
        for a in found:
            d = SUM_BY_NAME[a.decl().name()]
            n, ps = a.arg(0), [a.arg(j) for j in range(1, a.num_args())]
            zero = z3.RealVal(0) if a.sort() == Real else z3.IntVal(0)
            gen.append(z3.Implies(n <= 0, a == zero))
            nn = z3.simplify(n)
            if z3.is_int_value(nn) and 0 < nn.as_long() <= 6:
                tot = zero
                for j in range(nn.as_long()):
                    tot = tot + d.f(z3.IntVal(j), ps)
                gen.append(a == tot)
            else:
                if rnd == 0:
                    gen.append(z3.Implies(n > 0, a == d.fn(n - 1, *ps) + d.f(n - 1, ps)))
                j = z3.Const("sk!%d" % next(sk), Int)
                gen.append(z3.Or(z3.And(0 <= j, j < n, d.f(j, ps) < 0), a >= zero))
                j = z3.Const("sk!%d" % next(sk), Int)
                gen.append(z3.Or(z3.And(0 <= j, j < n, d.f(j, ps) > 0), a <= zero))
                # sum of non-negative terms bounds each hinted term
                for h in index_hints:
                    j = z3.Const("sk!%d" % next(sk), Int)
                    gen.append(z3.Or(z3.And(0 <= j, j < n, d.f(j, ps) < 0), z3.Not(z3.And(0 <= h, h < n)),
                                     a >= d.f(h, ps)))
        apps += found
        for i in range(len(apps)):
            for j2 in range(i):
                a, b = apps[i], apps[j2]
                if a.sort() != b.sort():
                    continue
                pk = (a.get_id(), b.get_id())
                if pk in pairs_done:
                    continue
                pairs_done.add(pk)
                da, db = SUM_BY_NAME[a.decl().name()], SUM_BY_NAME[b.decl().name()]
                pa = [a.arg(q) for q in range(1, a.num_args())]
                pb = [b.arg(q) for q in range(1, b.num_args())]
                k = z3.Const("sk!%d" % next(sk), Int)
                n, m = a.arg(0), b.arg(0)
                # (lengths of two vectors may be equal without looking so: same place, compare them)
                near = rnd == 1 and z3.is_app(n) and z3.is_app(m) and n.decl().name().startswith("len_") and n.decl().eq(m.decl()) and (
                    [x.get_id() for x in pa if x.sort() == Int] == [x.get_id() for x in pb if x.sort() == Int])
                if z3.simplify(n - m).eq(z3.IntVal(0)) or rnd == 0 or near:
                    gen.append(z3.Or(n != m, z3.And(0 <= k, k < n, da.f(k, pa) != db.f(k, pb)), a == b))
                    k1 = z3.Const("sk!%d" % next(sk), Int)
                    gen.append(z3.Or(n != m, z3.And(0 <= k1, k1 < n, da.f(k1, pa) > db.f(k1, pb)), a <= b))
                    k1 = z3.Const("sk!%d" % next(sk), Int)
                    gen.append(z3.Or(n != m, z3.And(0 <= k1, k1 < n, da.f(k1, pa) < db.f(k1, pb)), a >= b))
                    for h in index_hints:
                        k2 = z3.Const("sk!%d" % next(sk), Int)
                        gen.append(z3.Or(n != m, z3.Not(z3.And(0 <= h, h < n)),
                                         z3.And(0 <= k2, k2 < n, k2 != h, da.f(k2, pa) != db.f(k2, pb)),
                                         a == b + da.f(h, pa) - db.f(h, pb)))
        out += gen
        new = gen
    return out


# ---------------------------------------------------------------- maths
exp_ = z3.Function("m_exp", Real, Real)
log_ = z3.Function("m_log", Real, Real)
pow_ = z3.Function("m_pow", Real, Real, Real)
tanh_ = z3.Function("m_tanh", Real, Real)
sqrt_ = z3.Function("m_sqrt", Real, Real)
sin_ = z3.Function("m_sin", Real, Real)
cos_ = z3.Function("m_cos", Real, Real)
tan_ = z3.Function("m_tan", Real, Real)
atan_ = z3.Function("m_atan", Real, Real)


def math_axioms(fmls):
    """instances of elementary facts for the transcendental applications that occur (trusted, listed)."""
    out = []
    done = set()
    names = {"m_exp", "m_log", "m_pow", "m_tanh", "m_sqrt", "m_sin", "m_cos"}
    apps = {}
    for f in fmls:
        for a in apps_in(f, lambda x: x.decl().name() in names):
            apps[a.get_id()] = a
    L = list(apps.values())
    by = {}
    for a in L:
        by.setdefault(a.decl().name(), []).append(a)
    for a in by.get("m_exp", []):
        x = a.arg(0)
        out += [a > 0, a >= 1 + x, z3.Implies(x < 1, a * (1 - x) <= 1), z3.Implies(x == 0, a == 1),
                z3.Implies(x < 0, a < 1), z3.Implies(x > 0, a > 1)]
        # e^x <= 1 + x + x^2/2 for x <= 0 ; e^x >= 1 + x + x^3/6 + x^2/2 for x <= 0
        out += [z3.Implies(x <= 0, a <= 1 + x + x * x / 2)]
    for a in by.get("m_log", []):
        x = a.arg(0)
        out += [z3.Implies(x > 0, a <= x - 1), z3.Implies(x >= 1, a >= 0), z3.Implies(z3.And(x > 0, x <= 1), a <= 0), z3.Implies(x > 1, a > 0)]
    for a in by.get("m_tanh", []):
        x = a.arg(0)
        out += [a > -1, a < 1, z3.Implies(x >= 0, z3.And(a >= 0, a <= x)), z3.Implies(x <= 0, z3.And(a <= 0, a >= x)),
                z3.Implies(x > 0, a > 0)]
    for a in by.get("m_sqrt", []):
        x = a.arg(0)
        out += [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x))]
    for a in by.get("m_sin", []) + by.get("m_cos", []):
        out += [a >= -1, a <= 1]
    for a in by.get("m_pow", []):
        x, y = a.arg(0), a.arg(1)
        rt = sqrt_(x)
        out += [z3.Implies(z3.And(x >= 0, y == z3.Q(1, 2)), z3.And(a == rt, rt >= 0, rt * rt == x)),
                z3.Implies(x > 0, a > 0), z3.Implies(x >= 0, a >= 0), z3.Implies(y == 0, a == 1),
                z3.Implies(z3.And(x == 0, y > 0), a == 0), z3.Implies(x == 1, a == 1), z3.Implies(y == 1, a == x),
                z3.Implies(y == 2, a == x * x), z3.Implies(y == 3, a == x * x * x),
                z3.Implies(y == 4, a == x * x * x * x), z3.Implies(y == 5, a == x * x * x * x * x),
                z3.Implies(z3.And(y == -1, x != 0), a * x == 1),
                z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), a <= 1), z3.Implies(z3.And(x >= 1, y >= 0), a >= 1),
                z3.Implies(z3.And(x >= 1, y <= 0), a <= 1), z3.Implies(z3.And(x > 0, x <= 1, y <= 0), a >= 1),
                z3.Implies(z3.And(x >= 0, x <= 1, y >= 1), a <= x), z3.Implies(z3.And(x >= 1, y >= 1), a >= x),
                z3.Implies(z3.And(x > 1, y < 0), a < 1), z3.Implies(z3.And(x > 1, y > 0), a > 1)]
    for nm in ("m_exp", "m_tanh", "m_sqrt"):
        A = by.get(nm, [])
        for i in range(len(A)):
            for j in range(i):
                out.append(z3.Implies(A[i].arg(0) < A[j].arg(0), A[i] < A[j]) if nm != "m_sqrt" else
                           z3.Implies(z3.And(0 <= A[i].arg(0), A[i].arg(0) < A[j].arg(0)), A[i] < A[j]))
                out.append(z3.Implies(A[i].arg(0) > A[j].arg(0), A[i] > A[j]) if nm != "m_sqrt" else
                           z3.Implies(z3.And(0 <= A[j].arg(0), A[i].arg(0) > A[j].arg(0)), A[i] > A[j]))
    A = by.get("m_pow", [])
    for i in range(len(A)):
        for j in range(i):
            a, b = A[i], A[j]
            if len(A) > 30 and not (a.arg(1).eq(b.arg(1)) or a.arg(0).eq(b.arg(0))):
                continue
            for (p, q) in ((a, b), (b, a)):
                out.append(z3.Implies(z3.And(p.arg(1) == q.arg(1), p.arg(1) >= 0, 0 <= p.arg(0), p.arg(0) <= q.arg(0)), p <= q))
                out.append(z3.Implies(z3.And(p.arg(1) == q.arg(1), p.arg(1) > 0, 0 <= p.arg(0), p.arg(0) < q.arg(0)), p < q))
                out.append(z3.Implies(z3.And(p.arg(0) == q.arg(0), p.arg(0) > 0, p.arg(1) == -q.arg(1)), p * q == 1))
    return out


MATH_TRUST = "elementary bounds/monotonicity/special values of exp, tanh, pow, sqrt (instances only; see core.py math_axioms)"


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("locals", "heap", "conds", "facts")

    def __init__(self):
        self.locals, self.heap, self.conds, self.facts = {}, {}, [], []

    def fork(self, *conds):
        s = State()
        s.locals, s.heap = dict(self.locals), dict(self.heap)
        s.conds, s.facts = list(self.conds), list(self.facts)
        for c in conds:
            if not z3.is_true(c):
                s.conds.append(c)
        return s

    def become(self, o):
        self.locals, self.heap, self.conds, self.facts = o.locals, o.heap, o.conds, o.facts


def And(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(xs)


def Or(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(xs)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def If(c, a, b):
    if a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)
