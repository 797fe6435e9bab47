"""Symbolic execution of the extracted functions against contracts (VC generation)."""
import z3, itertools
from fractions import Fraction
from decimal import Decimal
from core import *
from core import And, Or, Not, If
import frontend

MAX_INLINE = 24


def pats(t):
    """t as a pattern, when the solver can use it as one."""
    bad = ("if", "and", "or", "not", "=", "<=", ">=", "<", ">", "=>")
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)):
            return []
        todo += x.children()
    return [t] if z3.is_app(t) and t.num_args() and t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) else []


# ---------------------------------------------------------------- lvalues
class LV:
    pass


class LocalLV(LV):
    def __init__(self, key, ty=None):
        self.key, self.ty = key, ty

    def get(self, E, st):
        return st.locals[self.key]

    def set(self, E, st, v):
        st.locals[self.key] = v

    def same(self, o):
        return isinstance(o, LocalLV) and o.key == self.key


class FieldLV(LV):
    def __init__(self, key, ref, ty):
        self.key, self.ref, self.ty = key, ref, ty

    def get(self, E, st):
        return sel(E.H(st, self.key), self.ref)

    def set(self, E, st, v):
        st.heap[self.key] = z3.Store(E.H(st, self.key), self.ref, v)

    def same(self, o):
        return isinstance(o, FieldLV) and o.key == self.key and o.ref.eq(self.ref)


class ElemLV(LV):
    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def get(self, E, st):
        b = self.base.get(E, st) if isinstance(self.base, LV) else self.base
        return vget(b, self.idx)

    def set(self, E, st, v):
        b = self.base.get(E, st)
        self.base.set(E, st, vset(b, self.idx, v))

    def same(self, o):
        return isinstance(o, ElemLV) and o.idx.eq(self.idx) and same_lv(self.base, o.base)


class MatElemLV(LV):
    def __init__(self, base, i, j):
        self.base, self.i, self.j = base, i, j

    def get(self, E, st):
        b = self.base.get(E, st) if isinstance(self.base, LV) else self.base
        return sel(sel(macc(b, 2), self.i), self.j)

    def set(self, E, st, v):
        b = self.base.get(E, st)
        d = macc(b, 2)
        self.base.set(E, st, matof(b).mk(macc(b, 0), macc(b, 1), z3.Store(d, self.i, z3.Store(sel(d, self.i), self.j, v))))

    def same(self, o):
        return isinstance(o, MatElemLV) and o.i.eq(self.i) and o.j.eq(self.j) and same_lv(self.base, o.base)


class RowLV(LV):
    """mat.row(i) as an assignable vector."""

    def __init__(self, base, i):
        self.base, self.i = base, i

    def get(self, E, st):
        b = self.base.get(E, st) if isinstance(self.base, LV) else self.base
        V = vec(matof(b).elem)
        return V.mk(macc(b, 1), sel(macc(b, 2), self.i))

    def set(self, E, st, v):
        b = self.base.get(E, st)
        # only columns [0,cols) exist; the rest of the mapped array is irrelevant
        self.base.set(E, st, matof(b).mk(macc(b, 0), macc(b, 1), z3.Store(macc(b, 2), self.i, vdata(v))))

    def same(self, o):
        return isinstance(o, RowLV) and o.i.eq(self.i) and same_lv(self.base, o.base)


class MapLV(LV):
    def __init__(self, base, key):
        self.base, self.key = base, key

    def get(self, E, st):
        m = self.base.get(E, st) if isinstance(self.base, LV) else self.base
        return sel(MAP_BY_NAME[str(m.sort())].get(m), self.key)

    def set(self, E, st, v):
        m = self.base.get(E, st)
        M = MAP_BY_NAME[str(m.sort())]
        self.base.set(E, st, M.mk(z3.Store(M.has(m), self.key, z3.BoolVal(True)), z3.Store(M.get(m), self.key, v)))

    def same(self, o):
        return isinstance(o, MapLV) and o.key.eq(self.key) and same_lv(self.base, o.base)


class DerefLV(LV):
    def __init__(self, loc, sort):
        self.loc, self.sort = loc, sort

    def get(self, E, st):
        return sel(E.H(st, "*" + str(self.sort)), self.loc)

    def set(self, E, st, v):
        k = "*" + str(self.sort)
        st.heap[k] = z3.Store(E.H(st, k), self.loc, v)

    def same(self, o):
        return isinstance(o, DerefLV) and o.loc.eq(self.loc)


class IteLV(LV):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def get(self, E, st):
        return If(self.c, self.a.get(E, st), self.b.get(E, st))

    def set(self, E, st, v):
        s1, s2 = st.fork(), st.fork()
        self.a.set(E, s1, v)
        self.b.set(E, s2, v)
        for k in set(s1.heap) | set(s2.heap):
            x, y = E.H(s1, k), E.H(s2, k)
            st.heap[k] = If(self.c, x, y)
        for k in s1.locals:
            x, y = s1.locals[k], s2.locals.get(k)
            if z3.is_expr(x) and z3.is_expr(y):
                st.locals[k] = If(self.c, x, y)

    def same(self, o):
        return isinstance(o, IteLV) and o.c.eq(self.c) and same_lv(self.a, o.a) and same_lv(self.b, o.b)


class TempLV(LV):
    def __init__(self, v):
        self.v = v

    def get(self, E, st):
        return self.v

    def set(self, E, st, v):
        self.v = v

    def same(self, o):
        return self is o


def same_lv(a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        return a.same(b)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a is b


class PtrVal:
    """pointer to a local lvalue (never stored in the heap)."""

    def __init__(self, lv):
        self.lv = lv


class Closure:
    def __init__(self, node, frame, this, call):
        self.node, self.frame, self.this, self.call = node, frame, this, call


class VecIter:
    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class MapIter:
    def __init__(self, base, key, end=False):
        self.base, self.key, self.end = base, key, end


class PairVal:
    def __init__(self, a, b):
        self.a, self.b = a, b


class MetaVec:
    """element-wise Eigen expression: length + element function."""

    def __init__(self, n, f, elem):
        self.n, self.f, self.elem = n, f, elem


class MetaMat:
    def __init__(self, r, c, f, elem):
        self.r, self.c, self.f, self.elem = r, c, f, elem


class Opaque:
    def __init__(self, what=""):
        self.what = what


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obligation:
    def __init__(self, func, name, hyps, goal, probes=None, kind="post", hints=()):
        self.func, self.name, self.hyps, self.goal, self.probes, self.kind, self.hints = func, name, hyps, goal, probes or {}, kind, list(hints)


IGNORE_FUNCS = {"LogError", "LogWarning", "LogMessage", "LogDebug", "LogFlush", "LogSetLevel", "LogGetLevel", "LogVerbose"}


class Engine:
    def __init__(self, prog, contracts):
        self.P = prog
        self.C = contracts            # qname -> Contract
        self.fresh_n = itertools.count()
        self.fresh_log = None
        self.obls = []
        self.iter_stack = []
        self.ghost = {}
        self.frames = itertools.count(1)
        self.frame_parent = {}
        self.frame = 0
        self.this = None
        self.this_cls = None
        self.sink = []
        self.depth = 0
        self.used_contracts = set()
        self.inlined = set()
        self.fn = None
        self.loop_ord = 0
        self.cls_ids = {c: i + 1 for i, c in enumerate(sorted(prog.classes))}
        self.trusted = set()
        self.unresolved_loops = []
        self.hints = []
        self.safety = False
        self.cur_contract = None
        self.globals_cache = {}

    # ---------------- basics
    def fresh(self, name, sort):
        c = z3.Const("%s!%d" % (name, next(self.fresh_n)), sort)
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def field_type(self, key):
        if key in self.ghost:
            return None
        cls, f = key.rsplit(".", 1)
        return parse_type(self.P.classes[cls].fields[f], self.P)

    def heap_sort(self, key):
        if key in self.ghost:
            return self.ghost[key]
        if key.startswith("*"):
            return z3.ArraySort(Loc, {"Real": Real, "Int": Int, "Bool": Bool}.get(key[1:], Opq) if key[1:] in ("Real", "Int", "Bool") else VEC_BY_NAME[key[1:]].sort)
        return z3.ArraySort(Ref, sort_of(self.field_type(key)))

    def H(self, st, key):
        h = st.heap.get(key)
        if h is None:
            h = z3.Const("H." + key, self.heap_sort(key))
            st.heap[key] = h
        return h

    def fkey(self, cls, f):
        c = self.P.find_field_class(cls, f)
        if c is None:
            raise KeyError("no field %s in %s" % (f, cls))
        return c + "." + f

    def type_is(self, ref, cls):
        ids = [self.cls_ids[c] for c in self.P.subclasses(cls)]
        return Or([typ(ref) == i for i in ids])

    def oblige(self, st, name, goal, kind="post"):
        if z3.is_true(goal):
            # still counted: discharged by simplification
            pass
        self.obls.append(Obligation(self.fn, name, list(st.facts) + list(st.conds), goal, dict(self.probes(st)), kind, self.hints))

    def probes(self, st):
        return {}

    # ---------------- merging
    def merge(self, items):
        """items: list of (state, value); their path conditions are disjoint and share a prefix."""
        if len(items) == 1:
            return items[0]
        base = items[0][0]
        n = min(len(s.conds) for s, _ in items)
        p = 0
        while p < n and all(s.conds[p] is base.conds[p] or s.conds[p].eq(base.conds[p]) for s, _ in items):
            p += 1
        nf = min(len(s.facts) for s, _ in items)
        q = 0
        while q < nf and all(s.facts[q] is base.facts[q] or s.facts[q].eq(base.facts[q]) for s, _ in items):
            q += 1
        out = State()
        out.conds = list(base.conds[:p])
        out.facts = list(base.facts[:q])
        gs = [And(s.conds[p:]) for s, _ in items]
        # facts
        seen = {}
        for (s, _), g in zip(items, gs):
            for f in s.facts[q:]:
                seen.setdefault(f.get_id(), (f, []))[1].append(g)
        for f, g in seen.values():
            out.facts.append(f if len(g) == len(items) else z3.Implies(Or(g), f))
        disj = Or(gs)
        d = z3.simplify(disj)
        if not z3.is_true(d):
            if len(items) == 2 and gs[0].eq(Not(gs[1])) or len(items) == 2 and gs[1].eq(Not(gs[0])):
                pass
            else:
                out.conds.append(disj)

        def comb(vals):
            r = vals[-1]
            for g, v in zip(reversed(gs[:-1]), reversed(vals[:-1])):
                r = self.ite_val(g, v, r)
            return r
        keys = set()
        for s, _ in items:
            keys |= set(s.heap)
        for k in keys:
            out.heap[k] = comb([self.H(s, k) for s, _ in items])
        lk = set(items[0][0].locals)
        for s, _ in items[1:]:
            lk &= set(s.locals)
        for k in lk:
            try:
                out.locals[k] = comb([s.locals[k] for s, _ in items])
            except Unsupported:
                pass
        vals = [v for _, v in items]
        val = None
        if all(v is None for v in vals):
            val = None
        else:
            val = comb(vals)
        return out, val

    def ite_val(self, c, a, b):
        if a is b:
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort():
                a, b = self.unify(a, b)
            return If(c, a, b)
        if isinstance(a, LV) and isinstance(b, LV):
            if same_lv(a, b):
                return a
            return IteLV(c, a, b)
        if isinstance(a, PtrVal) and isinstance(b, PtrVal):
            return PtrVal(self.ite_val(c, a.lv, b.lv))
        if isinstance(a, VecIter) and isinstance(b, VecIter) and same_lv(a.base, b.base):
            return VecIter(a.base, If(c, a.idx, b.idx))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, PairVal) and isinstance(b, PairVal):
            return PairVal(self.ite_val(c, a.a, b.a), self.ite_val(c, a.b, b.b))
        if isinstance(a, MetaVec) and isinstance(b, MetaVec):
            return MetaVec(If(c, a.n, b.n), lambda k: If(c, a.f(k), b.f(k)), a.elem)
        raise Unsupported("cannot merge values %s / %s" % (type(a), type(b)))

    def unify(self, a, b):
        if a.sort() == Real and b.sort() == Int:
            return a, z3.ToReal(b)
        if a.sort() == Int and b.sort() == Real:
            return z3.ToReal(a), b
        if a.sort() == Bool and b.sort() == Int:
            return If(a, z3.IntVal(1), z3.IntVal(0)), b
        if a.sort() == Int and b.sort() == Bool:
            return a, If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == Loc and b.eq(null):
            return a, nullloc
        if b.sort() == Loc and a.eq(null):
            return nullloc, b
        raise Unsupported("sort mismatch %s %s" % (a.sort(), b.sort()))

    # ---------------- values
    def load(self, st, x):
        if isinstance(x, LV):
            v = x.get(self, st)
            return v
        return x

    def rv(self, st, n):
        return self.load(st, self.ev(st, n))

    def addr(self, lv):
        """z3 Loc of an lvalue living in the heap."""
        if isinstance(lv, FieldLV):
            return z3.Function("loc:" + lv.key, Ref, Loc)(lv.ref)
        if isinstance(lv, ElemLV) and isinstance(lv.base, LV):
            b = self.addr(lv.base)
            if b is None:
                return None
            return z3.Function("locelem", Loc, Int, Loc)(b, lv.idx)
        if isinstance(lv, DerefLV):
            return lv.loc
        if isinstance(lv, MatElemLV) and isinstance(lv.base, LV):
            b = self.addr(lv.base)
            return None if b is None else z3.Function("locmat", Loc, Int, Int, Loc)(b, lv.i, lv.j)
        if isinstance(lv, IteLV):
            a, b = self.addr(lv.a), self.addr(lv.b)
            if a is not None and b is not None:
                return If(lv.c, a, b)
        return None

    def deref(self, p, ty=None):
        if isinstance(p, PtrVal):
            return p.lv
        if z3.is_expr(p) and p.sort() == Loc:
            if z3.is_app(p):
                nm = p.decl().name()
                if nm.startswith("loc:"):
                    k = nm[4:]
                    return FieldLV(k, p.arg(0), self.field_type(k))
                if nm == "locelem":
                    return ElemLV(self.deref(p.arg(0)), p.arg(1))
                if nm == "locmat":
                    return MatElemLV(self.deref(p.arg(0)), p.arg(1), p.arg(2))
                if p.decl().kind() == z3.Z3_OP_ITE:
                    try:
                        return IteLV(p.arg(0), self.deref(p.arg(1), ty), self.deref(p.arg(2), ty))
                    except Unsupported:
                        pass
            return DerefLV(p, sort_of(ty) if ty else Real)
        if z3.is_expr(p) and p.sort() == Ref:
            return p
        raise Unsupported("deref of %s" % type(p))

    def ntype(self, n):
        t = n.get("type", {})
        return parse_type(t.get("desugaredQualType") or t.get("qualType") or "", self.P)

    def to_bool(self, v):
        if isinstance(v, (MapIter, VecIter, Closure, PtrVal)):
            return z3.BoolVal(True)
        if isinstance(v, Opaque):
            return self.fresh("opq", Bool)
        s = v.sort()
        if s == Bool:
            return v
        if s == Int:
            return v != 0
        if s == Real:
            return v != 0
        if s == Ref:
            return v != null
        if s == Loc:
            return v != nullloc
        raise Unsupported("to_bool %s" % s)

    def num(self, v):
        if z3.is_expr(v) and v.sort() == Bool:
            return If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def coerce(self, v, ty):
        """implicit conversion to a declared type."""
        if not z3.is_expr(v):
            return v
        k = ty[0]
        s = v.sort()
        if k == "real":
            v = self.num(v)
            return z3.ToReal(v) if v.sort() == Int else v
        if k == "int":
            if s == Bool:
                return self.num(v)
            if s == Real:
                return self.trunc(v)
            return v
        if k == "bool" and s != Bool:
            return self.to_bool(v)
        if k == "ptr" and v.eq(null):
            return nullloc
        return v

    def trunc(self, v):
        v2 = z3.simplify(v)
        if z3.is_app(v2) and v2.decl().kind() == z3.Z3_OP_TO_REAL:
            return v2.arg(0)
        return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def default(self, ty, name="dflt"):
        k = ty[0]
        if k == "vec":
            return vlit(sort_of(ty[1]), [])
        if k == "map":
            M = mapsort(sort_of(ty[1]), sort_of(ty[2]))
            return M.mk(z3.K(M.key, z3.BoolVal(False)), z3.Const("emptyval!" + str(M.sort), z3.ArraySort(M.key, M.val)))
        if k == "str":
            return strlit("")
        if k == "ref":
            return null
        if k == "mat":
            m = mat(sort_of(ty[1]))
            return m.mk(z3.IntVal(0), z3.IntVal(0), z3.Const("emptymat!" + str(m.elem), z3.ArraySort(Int, z3.ArraySort(Int, m.elem))))
        return self.fresh(name, sort_of(ty))

    def zero(self, ty):
        k = ty[0]
        return {"real": z3.RealVal(0), "int": z3.IntVal(0), "bool": z3.BoolVal(False), "ref": null, "ptr": nullloc}.get(k) if k in (
            "real", "int", "bool", "ref", "ptr") else self.default(ty)

    # ---------------- objects
    def sub(self, key, ref):
        return z3.Function("sub:" + key, Ref, Ref)(ref)

    def alloc(self, st, cls):
        r = self.fresh("new_" + cls.split("::")[-1], Ref)
        st.facts.append(r != null)
        st.facts.append(typ(r) == self.cls_ids[cls])
        olds = st.locals.setdefault(("alloc",), ())
        for o in olds:
            st.facts.append(r != o)
        if self.this is not None:
            st.facts.append(r != self.this)
        st.locals[("alloc",)] = olds + (r,) if isinstance(olds, tuple) else (r,)
        st.facts.append(z3.Function("is_fresh", Ref, Bool)(r))
        return r

    def construct(self, st, cls, ref, args, ctor=None, node=None):
        """run the constructor of cls on ref."""
        # contract on the constructor?
        cn = cls.split("::")[-1]
        cands = [f for f in self.P.classes[cls].methods.get(cn, []) if f.kind == "CXXConstructorDecl"]
        f = ctor
        if f is None:
            c2 = [c for c in cands if len(c.params) == len(args) and c.body is not None]
            if not c2:
                c2 = [c for c in cands if len(c.params) >= len(args) and c.body is not None and all(
                    any("Expr" in x.get("kind", "") or "Literal" in x.get("kind", "") for x in p.get("inner", [])) for p in c.params[len(args):])]
            if len(c2) > 1:
                c2 = [c for c in c2 if self._args_match(c, args)] or c2
            if len(c2) >= 1:
                f = c2[0]
        con = self.C.get(cls + "::" + cn)
        if con is not None and not con.inline and f is not None:
            self.call_contract(st, con, f, ref, args)
            return
        if f is None or f.body is None:
            if args:
                # aggregate initialisation: fields in order
                flds = list(self.P.classes[cls].fields)
                for fn_, a in zip(flds, args):
                    key = cls + "." + fn_
                    ty = self.field_type(key)
                    if ty[0] == "obj":
                        self.copy_obj(st, ty[1], self.sub(key, ref), self.load(st, a))
                    else:
                        FieldLV(key, ref, ty).set(self, st, self.coerce(self.mat_val(st, self.load(st, a)), ty))
                rest = flds[len(args):]
            else:
                rest = list(self.P.classes[cls].fields)
            for b in self.P.classes[cls].bases:
                if b in self.P.classes:
                    self.construct(st, b, ref, [])
            self.field_defaults(st, cls, ref, rest)
            return
        self.inline(st, f, ref, args, cls)

    def _args_match(self, f, args):
        for p, a in zip(f.params, args):
            ty = self.ntype(p)
            if z3.is_expr(a) and a.sort() != sort_of(ty):
                return False
        return True

    def field_defaults(self, st, cls, ref, names):
        C = self.P.classes[cls]
        for fn_ in names:
            key = cls + "." + fn_
            ty = self.field_type(key)
            if fn_ in C.field_init:
                saved = (self.this, self.this_cls)
                self.this, self.this_cls = ref, cls
                try:
                    v = self.rv(st, C.field_init[fn_])
                finally:
                    self.this, self.this_cls = saved
                if ty[0] == "obj":
                    continue
                v = self.mat_val(st, v)
                FieldLV(key, ref, ty).set(self, st, self.coerce(v, ty))
            elif ty[0] == "obj":
                self.construct(st, ty[1], self.sub(key, ref), [])
            elif ty[0] in ("vec", "map", "str", "mat"):
                FieldLV(key, ref, ty).set(self, st, self.default(ty))
            elif ty[0] == "ref" and "unique_ptr" in C.fields[fn_]:
                FieldLV(key, ref, ty).set(self, st, null)
            else:
                FieldLV(key, ref, ty).set(self, st, self.fresh("uninit", sort_of(ty)))

    def copy_obj(self, st, cls, dst, src):
        for c in [cls] + self.P.all_bases(cls):
            for fn_ in self.P.classes[c].fields:
                key = c + "." + fn_
                ty = self.field_type(key)
                if ty[0] == "obj":
                    self.copy_obj(st, ty[1], self.sub(key, dst), self.sub(key, src))
                else:
                    FieldLV(key, dst, ty).set(self, st, FieldLV(key, src, ty).get(self, st))

    def copy_new(self, st, cls, src):
        r = self.alloc(st, cls)
        self.copy_obj(st, cls, r, src)
        return r

    # ---------------- calls
    def find_contract(self, f):
        c = self.C.get(f.qname)
        if c is not None and (c.arity is None or c.arity == len(f.params)) and (c.sig is None or c.sig in f.type):
            return c
        for c in self.C.get_all(f.qname):
            if (c.arity is None or c.arity == len(f.params)) and (c.sig is None or c.sig in f.type):
                return c
        return None

    def overriders(self, f, cls):
        """implementation -> list of concrete classes, for a virtual call through static class cls."""
        out = {}
        for d in self.P.subclasses(cls):
            if self.P.classes[d].abstract:
                continue
            impl = self.resolve(d, f)
            if impl is not None:
                out.setdefault(id(impl), (impl, []))[1].append(d)
        return list(out.values())

    def resolve(self, cls, f):
        """final overrider of virtual f in class cls (exact)."""
        for c in self.linear(cls):
            for g in self.P.classes[c].methods.get(f.name, []):
                if g is f or (len(g.params) == len(f.params) and g.const == f.const and [p["type"]["qualType"] for p in g.params] == [
                        p["type"]["qualType"] for p in f.params]):
                    if g.pure and g.body is None:
                        return None
                    return g
        return None

    def linear(self, cls):
        r = [cls]
        for b in self.P.classes[cls].bases:
            if b in self.P.classes:
                r += [x for x in self.linear(b) if x not in r]
        return r

    def is_virtual(self, f):
        if f.virtual:
            return True
        if not f.cls:
            return False
        for b in self.P.all_bases(f.cls):
            for g in self.P.classes[b].methods.get(f.name, []):
                if g.virtual and len(g.params) == len(f.params):
                    return True
        return False

    def root_virtual_contract(self, f):
        """contract of the base-most declaration that f overrides (behavioural subtyping)."""
        out = []
        for b in self.P.all_bases(f.cls) if f.cls else []:
            for g in self.P.classes[b].methods.get(f.name, []):
                if len(g.params) == len(f.params):
                    c = self.find_contract(g)
                    if c is not None and g is not f:
                        out.append((c, g))
        return out

    def call(self, st, f, this, args, static_cls=None, nonvirtual=False, node=None):
        if f.name in IGNORE_FUNCS:
            return Opaque("void")
        virt = (not nonvirtual) and f.cls and self.is_virtual(f) and f.kind == "CXXMethodDecl"
        if virt:
            cls = static_cls or f.cls
            con = self.find_contract(f)
            if con is None:
                # contract inherited from a base declaration
                for c, g in self.root_virtual_contract(f):
                    con = c
                    break
            known = self.known_class(st, this)
            if con is not None and not con.inline and not (known and not con.always):
                return self.call_contract(st, con, f, this, args)
            if known and (known == cls or known in self.P.subclasses(cls)):
                impl = self.resolve(known, f)
                if impl is not None:
                    return self.call_impl(st, impl, this, args)
            groups = self.overriders(f, cls)
            if len(groups) == 1:
                return self.call_impl(st, groups[0][0], this, args)
            if not groups:
                raise Unsupported("no implementation for %s" % f.qname, node)
            if len(groups) > 14:
                raise Unsupported("too many overriders of %s and no contract" % f.qname, node)
            items = []
            for impl, ds in groups:
                cond = Or([typ(this) == self.cls_ids[d] for d in ds])
                s2 = st.fork(cond)
                v = self.load(s2, self.call_impl(s2, impl, this, args))
                items.append((s2, v))
            s, v = self.merge(items)
            st.become(s)
            return v
        if nonvirtual and f.cls and f.body is not None and f.kind == "CXXMethodDecl" and self.is_virtual(f):
            con = self.find_contract(f)
            if con is not None and con.subtypes and not con.inline:
                # Base::f() on an object of a derived class: the contract of a virtual method speaks about the dynamic
                # type, whose override is not what runs here; use the body that does run
                known = self.known_class(st, this)
                if not (known and self.resolve(known, f) is f):
                    return self.inline(st, f, this, args)
        return self.call_impl(st, f, this, args)

    def known_class(self, st, this):
        if this is None or not z3.is_expr(this):
            return None
        # exact dynamic type known syntactically from the facts?
        tid = typ(this)
        for f in itertools.chain(st.facts, st.conds):
            if z3.is_eq(f) and f.arg(0).eq(tid) and z3.is_int_value(f.arg(1)):
                i = f.arg(1).as_long()
                for c, j in self.cls_ids.items():
                    if j == i:
                        return c
        if z3.is_app(this) and this.decl().name().startswith("sub:"):
            ty = self.field_type(this.decl().name()[4:])
            if ty[0] == "obj":
                return ty[1]
        return None

    def call_impl(self, st, f, this, args):
        con = self.find_contract(f)
        if con is not None and not con.inline:
            return self.call_contract(st, con, f, this, args)
        if f.body is None:
            if f.kind == "CXXConstructorDecl":
                return None
            raise Unsupported("no body and no contract for %s" % f.qname)
        return self.inline(st, f, this, args)

    def inline(self, st, f, this, args, cls=None):
        if self.depth > MAX_INLINE:
            raise Unsupported("inlining too deep at %s" % f.qname)
        self.inlined.add(f.qname)
        saved = (self.frame, self.this, self.this_cls)
        self.depth += 1
        fr = next(self.frames)
        self.frame = fr
        self.this, self.this_cls = this, f.cls
        try:
            self.bind_params(st, f, args, saved)
            if f.kind == "CXXConstructorDecl":
                self.run_inits(st, f, this)
            outs = self.exec(st, f.body)
            rt = f.type.split("(")[0].strip()
            items = []
            for o in outs:
                if o.kind in ("normal", "return"):
                    v = o.val
                    if not rt.endswith("&"):
                        v = self.load(o.st, v)
                        if v is not None and not rt.startswith("auto") and z3.is_expr(v):
                            v = self.coerce(v, parse_type(rt, self.P))
                    elif rt.startswith("const ") and isinstance(v, LV):
                        v = v  # alias kept: later reads see later writes, as in C++
                    items.append((o.st, v))
                else:
                    raise Unsupported("stray %s in %s" % (o.kind, f.qname))
            if not items:
                # every path threw
                st.conds.append(z3.BoolVal(False))
                return self.dead_value(f)
            if len(items) > 1:
                items = [(s, self.load(s, v) if any(not same_lv(v, w) for _, w in items) else v) for s, v in items]
            s, v = self.merge(items)
            st.become(s)
            return v
        finally:
            self.depth -= 1
            self.frame, self.this, self.this_cls = saved

    def dead_value(self, f):
        rt = f.type.split("(")[0].strip()
        if rt == "void":
            return None
        return self.fresh("dead", sort_of(parse_type(rt, self.P)))

    def bind_params(self, st, f, args, saved):
        for i, p in enumerate(f.params):
            key = (self.frame, p["id"])
            if i < len(args):
                a = args[i]
            else:
                # default argument
                init = [c for c in p.get("inner", []) if c.get("kind")]
                if not init:
                    raise Unsupported("missing argument in call of %s" % f.qname)
                a = self.ev(st, init[-1])
            t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            ty = self.ntype(p)
            isref = p["type"]["qualType"].strip().endswith("&")
            if isref and not p["type"]["qualType"].strip().startswith("const") and isinstance(a, LV):
                st.locals[key] = a
            elif isref and isinstance(a, LV):
                st.locals[key] = a
            else:
                v = self.load(st, a)
                if isinstance(v, (MetaVec, MetaMat)):
                    v = self.mat_val(st, v)
                if not isref and ty[0] == "obj" and z3.is_expr(v):
                    v = self.copy_new(st, ty[1], v)
                st.locals[key] = self.coerce(v, ty) if z3.is_expr(v) else v

    def run_inits(self, st, f, this):
        inited = set()
        cls = f.cls
        C = self.P.classes[cls]
        for ini in f.inits:
            if "baseInit" in ini:
                b = frontend.norm_cls(ini["baseInit"].get("desugaredQualType") or ini["baseInit"]["qualType"])
                e = ini["inner"][0]
                e = self.skip(e)
                args = [self.ev(st, a) for a in e.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"] if e.get("kind") == "CXXConstructExpr" else []
                self.construct(st, b, this, args)
                inited.add("base:" + b)
        for b in C.bases:
            if b in self.P.classes and "base:" + b not in inited:
                self.construct(st, b, this, [])
        done = set()
        for ini in f.inits:
            if "anyInit" in ini:
                nm = ini["anyInit"]["name"]
                key = cls + "." + nm
                ty = self.field_type(key)
                e = ini["inner"][0] if ini.get("inner") else None
                done.add(nm)
                if e is not None and e.get("kind") == "CXXDefaultInitExpr":
                    done.discard(nm)
                    continue
                if ty[0] == "obj":
                    ee = self.skip(e)
                    if ee.get("kind") == "CXXConstructExpr":
                        args = [self.ev(st, a) for a in ee.get("inner", [])]
                        if len(args) == 1 and z3.is_expr(args[0]) and self.ntype(ee["inner"][0])[0] == "obj":
                            self.copy_obj(st, ty[1], self.sub(key, this), args[0])
                        else:
                            self.construct(st, ty[1], self.sub(key, this), args)
                    continue
                v = self.mat_val(st, self.rv(st, e))
                FieldLV(key, this, ty).set(self, st, self.coerce(v, ty))
        self.field_defaults(st, cls, this, [x for x in C.fields if x not in done])

    # contract at a call site
    def call_contract(self, st, con, f, this, args):
        self.used_contracts.add(con.qname)
        vals = []
        for i, a in enumerate(args):
            ty = self.ntype(f.params[i]) if i < len(f.params) else ("opaque", "")
            v = self.load(st, a)
            if isinstance(v, PtrVal):
                pass
            elif isinstance(v, (MetaVec, MetaMat)):
                v = self.mat_val(st, v)
            vals.append(self.coerce(v, ty) if z3.is_expr(v) else v)
        for i in range(len(args), len(f.params)):
            init = [c for c in f.params[i].get("inner", []) if c.get("kind")]
            if init:
                vals.append(self.coerce(self.rv(st, init[-1]), self.ntype(f.params[i])))
        pre = st.fork()
        sc = SpecCtx(self, con, f, this, vals, pre, None, None, args)
        for lab, e in con.get_requires(sc):
            self.oblige(st, "call %s requires %s" % (con.qname, lab), e, kind="pre")
        # exceptional exit
        thr = con.get_throws(sc)
        if thr is not False:
            cond = self.fresh("throws", Bool) if thr is True else thr
            if not z3.is_false(cond):
                s2 = st.fork(cond)
                self.sink.append(Outcome("throw", s2, con.qname))
                st.conds.append(Not(cond))
                pre = st.fork()
                sc.pre = pre
        hv = []
        keys = []
        for m in con.get_modifies(sc):
            keys.append(m[0])
            x = self.havoc(st, sc, m)
            if x is not None:
                hv.append(x)
        rt = f.type.split("(")[0].strip()
        res = None
        if rt != "void":
            rty = parse_type(rt, self.P)
            post = SpecCtx(self, con, f, this, vals, pre, st, None, args)
            lv = con.get_result_lv(post)
            if lv is not None:
                res = lv
            else:
                d = con.get_pure(post)
                if d is not None:
                    res = d
                else:
                    res = self.fresh("res_" + f.name, sort_of(rty))
                    hv.append(res)
        post = SpecCtx(self, con, f, this, vals, pre, st, self.load(st, res) if res is not None else None, args)
        ens = [e for lab, e in con.get_ensures(post) + (list(con.ghost(post)) if con.ghost else [])]
        # a clause `x == t` determines the new value x: use t itself
        sub = []
        progress = bool(hv)
        while progress:
            progress = False
            for e in [c for e in ens for c in (e.children() if z3.is_and(e) else [e])]:
                if sub:
                    e = z3.substitute(e, *sub)
                if not z3.is_eq(e):
                    continue
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    a = simp(a)
                    if any(a.eq(h) for h in hv) and not mentions(b, {h.get_id() for h in hv}):
                        sub.append((a, b))
                        hv = [h for h in hv if not h.eq(a)]
                        progress = True
                        break
        if sub:
            ens = [z3.substitute(e, *sub) for e in ens]
            for k in (set(keys) if "LV" not in keys else list(st.heap)):
                if k in st.heap:
                    st.heap[k] = z3.substitute(st.heap[k], *sub)
            if "LV" in keys:
                for k, v in st.locals.items():
                    if z3.is_expr(v):
                        st.locals[k] = z3.substitute(v, *sub)
            if z3.is_expr(res):
                res = z3.substitute(res, *sub)
        st.facts += [e for e in ens if not z3.is_true(z3.simplify(e))]
        if con.result_class and z3.is_expr(res) and res.sort() == Ref:
            st.facts.append(typ(res) == self.cls_ids[con.result_class])
        return res

    def havoc(self, st, sc, m):
        key, ref = m[0], m[1] if len(m) > 1 else None
        if key == "LV":
            x = self.fresh("hv", self.load(st, ref).sort())
            ref.set(self, st, x)
            return x
        h = self.H(st, key)
        if ref is None:
            st.heap[key] = self.fresh("hv_" + key, h.sort())
        elif z3.is_expr(ref):
            x = self.fresh("hv_" + key, h.sort().range())
            st.heap[key] = z3.Store(h, ref, x)
            return x
        else:
            n = self.fresh("hv_" + key, h.sort())
            r = z3.Const("r!q", h.sort().domain())
            st.facts.append(z3.ForAll([r], z3.Or(ref(r), z3.Select(n, r) == z3.Select(h, r)), patterns=[z3.Select(n, r)]))
            st.heap[key] = n

    # ---------------- statements
    def skip(self, n):
        while n.get("kind") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
                                "FullExpr") or (n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "ConstructorConversion")) or (
                n.get("kind") == "CXXFunctionalCastExpr" and n.get("castKind") in ("ConstructorConversion", "NoOp")):
            n = n["inner"][0]
        return n

    def exec(self, st, n):
        k = n.get("kind")
        m = getattr(self, "s_" + str(k), None)
        if m:
            return m(st, n)
        if k is None:
            return [Outcome("normal", st)]
        # expression statement
        self.ev(st, n)
        return [Outcome("normal", st)]

    def dead(self, st):
        return any(z3.is_false(c) for c in st.conds)

    def seq(self, st, stmts):
        cur = st
        outs = []
        for s in stmts:
            if cur is None:
                break
            r = self.exec(cur, s)
            norm = [o for o in r if o.kind == "normal" and not self.dead(o.st)]
            outs += [o for o in r if o.kind != "normal" and not self.dead(o.st)]
            if not norm:
                cur = None
            elif len(norm) == 1:
                cur = norm[0].st
            else:
                cur = self.merge([(o.st, None) for o in norm])[0]
        if cur is not None:
            outs.append(Outcome("normal", cur))
        return outs

    def s_CompoundStmt(self, st, n):
        return self.seq(st, n.get("inner", []))

    def s_NullStmt(self, st, n):
        return [Outcome("normal", st)]

    def s_DeclStmt(self, st, n):
        for d in n.get("inner", []):
            if d.get("kind") == "VarDecl":
                self.declare(st, d)
            elif d.get("kind") in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "CXXRecordDecl", "EnumDecl"):
                pass
            elif d.get("kind") == "DecompositionDecl":
                self.decompose(st, d)
            else:
                raise Unsupported("declaration", d)
        return [Outcome("normal", st)]

    def decompose(self, st, d):
        init = [c for c in d.get("inner", []) if c.get("kind") and c.get("kind") != "BindingDecl"]
        binds = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
        v = self.ev(st, init[0])
        self.bind_decomp(st, d, binds, v)

    def bind_decomp(self, st, d, binds, v):
        x = self.load(st, v)
        if isinstance(x, PairVal):
            st.locals[(self.frame, binds[0]["id"])] = x.a
            st.locals[(self.frame, binds[1]["id"])] = x.b
            return
        raise Unsupported("structured binding", d)

    def declare(self, st, d, value=None):
        key = (self.frame, d["id"])
        q = d["type"]["qualType"].strip()
        ty = self.ntype(d)
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
        if d.get("storageClass") == "static" and not q.startswith("const"):
            raise Unsupported("static local", d)
        if q.endswith("&"):
            v = value if value is not None else self.ev(st, init[-1])
            st.locals[key] = v
            return
        if value is not None:
            v = self.load(st, value)
            if ty[0] == "obj" and z3.is_expr(v):
                v = self.copy_new(st, ty[1], v)
        elif init:
            e = init[-1]
            if ty[0] == "obj":
                v = self.obj_init(st, ty[1], e)
            else:
                v = self.rv(st, e)
        else:
            v = self.default(ty, d.get("name", "v"))
            if ty[0] == "obj":
                v = self.alloc(st, ty[1])
                self.construct(st, ty[1], v, [])
        if isinstance(v, (MetaVec, MetaMat)) and ty[0] in ("vec", "mat"):
            v = self.mat_val(st, v)
        st.locals[key] = self.coerce(v, ty) if z3.is_expr(v) else v

    def obj_init(self, st, cls, e):
        """value of class type: a fresh object (prvalue) or a copy."""
        ee = self.skip(e)
        if ee.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            inner = [a for a in ee.get("inner", [])]
            if len(inner) == 1 and self.ntype(inner[0])[0] == "obj":
                src = self.rv(st, inner[0])
                if self.skip(inner[0]).get("valueCategory") == "prvalue":
                    return src
                return self.copy_new(st, cls, src)
            r = self.alloc(st, cls)
            self.construct(st, cls, r, [self.ev(st, a) for a in inner])
            return r
        if ee.get("kind") == "InitListExpr":
            r = self.alloc(st, cls)
            self.construct(st, cls, r, [self.ev(st, a) for a in ee.get("inner", [])])
            return r
        v = self.rv(st, e)
        if ee.get("valueCategory") == "prvalue":
            return v
        return self.copy_new(st, cls, v)

    def s_IfStmt(self, st, n):
        inner = [c for c in n["inner"]]
        i = 0
        if n.get("hasInit"):
            self.exec(st, inner[i])
            i += 1
        if n.get("hasVar"):
            self.exec(st, inner[i])
            i += 1
        cond = inner[i]
        then = inner[i + 1]
        els = inner[i + 2] if n.get("hasElse") else None
        if n.get("isConstexpr") and cond.get("kind") == "ConstantExpr" and "value" in cond:
            tv = cond["value"] in ("true", "1")
            return self.exec(st, then) if tv else (self.exec(st, els) if els else [Outcome("normal", st)])
        c = self.to_bool(self.rv(st, cond))
        c = z3.simplify(c)
        if z3.is_true(c):
            return self.exec(st, then)
        if z3.is_false(c):
            return self.exec(st, els) if els else [Outcome("normal", st)]
        outs = []
        s1 = st.fork(c)
        outs += self.exec(s1, then)
        s2 = st.fork(Not(c))
        if els is not None:
            outs += self.exec(s2, els)
        else:
            outs.append(Outcome("normal", s2))
        return self.merge_norm(outs)

    def merge_norm(self, outs):
        norm = [o for o in outs if o.kind == "normal" and not self.dead(o.st)]
        oth = [o for o in outs if o.kind != "normal" and not self.dead(o.st)]
        for kind in ("continue", "break"):
            g = [o for o in oth if o.kind == kind]
            if len(g) > 1:
                oth = [o for o in oth if o.kind != kind]
                oth.append(Outcome(kind, self.merge([(o.st, None) for o in g])[0]))
        if len(norm) > 1:
            norm = [Outcome("normal", self.merge([(o.st, None) for o in norm])[0])]
        return oth + norm

    def s_ReturnStmt(self, st, n):
        v = None
        if n.get("inner"):
            e = n["inner"][0]
            v = self.ev(st, e)
            if not isinstance(v, LV):
                v = self.mat_val(st, v) if isinstance(v, (MetaVec, MetaMat)) else v
        return [Outcome("return", st, v)]

    def s_BreakStmt(self, st, n):
        return [Outcome("break", st)]

    def s_ContinueStmt(self, st, n):
        return [Outcome("continue", st)]

    def s_SwitchStmt(self, st, n):
        inner = n["inner"]
        i = 0
        if n.get("hasInit"):
            self.exec(st, inner[0])
            i = 1
        if n.get("hasVar"):
            self.exec(st, inner[i])
            i += 1
        v = self.num(self.rv(st, inner[i]))
        body = inner[i + 1]
        seq = []   # (label or None, stmt)
        labels = []

        def flat(s):
            if s.get("kind") == "CaseStmt":
                lab = self.rv(st, s["inner"][0])
                seq.append(("case", self.num(lab)))
                flat(s["inner"][-1])
            elif s.get("kind") == "DefaultStmt":
                seq.append(("default", None))
                flat(s["inner"][-1])
            else:
                seq.append(("stmt", s))
        for s in body.get("inner", []):
            flat(s)
        cases = [x[1] for x in seq if x[0] == "case"]
        outs = []
        entries = []
        for j, (kind, x) in enumerate(seq):
            if kind == "case":
                entries.append((v == x, j))
            elif kind == "default":
                entries.append((Not(Or([v == c for c in cases])), j))
        if not any(k == "default" for k, _ in seq):
            entries.append((Not(Or([v == c for c in cases])), len(seq)))
        # group entries with the same first statement
        groups = {}
        for c, j in entries:
            while j < len(seq) and seq[j][0] != "stmt":
                j += 1
            groups.setdefault(j, []).append(c)
        for j, cs in groups.items():
            c = z3.simplify(Or(cs))
            if z3.is_false(c):
                continue
            s2 = st.fork(Or(cs))
            r = self.seq(s2, [x for k, x in seq[j:] if k == "stmt"])
            for o in r:
                if o.kind == "break":
                    o.kind = "normal"
                outs.append(o)
        return self.merge_norm(outs)

    def s_CXXTryStmt(self, st, n):
        saved = self.sink
        self.sink = []
        try:
            outs = self.exec(st, n["inner"][0])
            throws = self.sink
        finally:
            self.sink = saved
        for c in n["inner"][1:]:
            if c.get("kind") != "CXXCatchStmt":
                continue
            rest = []
            for t in throws:
                if self.dead(t.st):
                    continue
                var = c["inner"][0] if c["inner"] and c["inner"][0].get("kind") == "VarDecl" else None
                if var is not None:
                    t.st.locals[(self.frame, var["id"])] = Opaque("exception")
                    vt = var["type"]["qualType"]
                    if "exception" not in vt and isinstance(t.val, str) and t.val.split("::")[-1] not in vt and not t.val.startswith("call"):
                        rest.append(t)
                        continue
                outs += self.exec(t.st, c["inner"][-1])
            throws = rest
        self.sink += throws
        return self.merge_norm(outs)

    def s_CXXThrowExpr(self, st, n):
        name = "exception"
        if n.get("inner"):
            name = n["inner"][0].get("type", {}).get("qualType", "exception")
        self.sink.append(Outcome("throw", st, name))
        return []

    # ---------------- loops
    def s_ForStmt(self, st, n):
        init, condvar, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.exec(st, init)
        return self.loop(st, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, n, decls=init)

    def s_WhileStmt(self, st, n):
        inner = [c for c in n["inner"] if c.get("kind")]
        return self.loop(st, inner[0], None, inner[-1], n)

    def s_DoStmt(self, st, n):
        raise Unsupported("do loop", n)

    def s_CXXForRangeStmt(self, st, n):
        inner = n["inner"]
        if inner[0].get("kind"):
            self.exec(st, inner[0])
        rng = inner[1]["inner"][0]
        var = inner[6]["inner"][0]
        body = inner[7]
        ie = [c for c in rng.get("inner", []) if c.get("kind")][-1]
        view = self.range_view(ie)
        if view is not None:
            return self.loop_view(st, view, var, body, n)
        base = self.ev(st, ie)
        bv = self.load(st, base)
        if is_map(bv):
            return self.loop_map(st, bv, var, body, n)
        if isinstance(bv, MetaVec):
            bv = self.mat_val(st, bv)
            base = TempLV(bv)
        if not is_vec(bv):
            raise Unsupported("range-for over %s" % (bv.sort() if z3.is_expr(bv) else type(bv)), n)
        if not isinstance(base, LV):
            base = TempLV(bv)
        N = vlen(bv)

        def run(s, i):
            if var.get("kind") == "DecompositionDecl":
                raise Unsupported("decomposition over vector", n)
            self.declare(s, var, value=ElemLV(base, i))
            return self.exec(s, body)
        return self.iterate(st, N, run, n)

    def range_view(self, e):
        """std::views::enumerate(v) or std::views::zip(v, w, ...)"""
        while e.get("kind") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr"):
            e = [c for c in e["inner"] if c.get("kind")][0]
        if e.get("kind") != "CXXOperatorCallExpr":
            return None
        a = [c for c in e["inner"] if c.get("kind")]
        o = self.skip(a[1]) if len(a) > 2 else {}
        nm = o.get("referencedDecl", {}).get("name")
        return (nm, a[2:]) if nm in ("enumerate", "zip") else None

    def loop_view(self, st, view, var, body, n):
        kind, args = view
        bases = [self.ev(st, a) for a in args]
        vals = [self.load(st, b) for b in bases]
        if not all(is_vec(v) for v in vals) or var.get("kind") != "DecompositionDecl":
            raise Unsupported("range-for over a view", n)
        N = vlen(vals[0])
        for v in vals[1:]:
            N = If(vlen(v) < N, vlen(v), N)
        binds = [c for c in var.get("inner", []) if c.get("kind") == "BindingDecl"]

        def run(s, i):
            items = ([i] if kind == "enumerate" else []) + [ElemLV(b if isinstance(b, LV) else TempLV(v), i) for b, v in zip(bases, vals)]
            for b, x in zip(binds, items):
                s.locals[(self.frame, b["id"])] = x
                for w in b.get("inner", []):
                    if w.get("kind") == "VarDecl":
                        s.locals[(self.frame, w["id"])] = x
            return self.exec(s, body)
        return self.iterate(st, simp(N), run, n)

    def loop_map(self, st, m, var, body, n):
        raise Unsupported("iteration over an associative container", n)

    def loop(self, st, cond, inc, body, n, decls=None):
        """for/while: find an affine induction variable, reduce to iterate()."""
        iv = self.find_iv(st, cond, inc, n)
        if iv is None:
            return self.loop_general(st, cond, inc, body, n)
        lvkey, step, N, start = iv

        def run(s, i):
            if start.sort() == Int:
                s.locals[lvkey] = start + i * step if not (z3.is_int_value(start) and start.as_long() == 0 and step == 1) else i
            before = s.locals[lvkey]
            outs = self.exec(s, body)
            for o in outs:
                if o.kind in ("normal", "continue"):
                    if lvkey not in o.st.locals or not o.st.locals[lvkey].eq(before):
                        raise Unsupported("loop variable modified in the body", n)
            return outs

        def fin(s):
            # value of the induction variable after normal completion
            s.locals[lvkey] = start + If(N > 0, N, z3.IntVal(0)) * step
        return self.iterate(st, N, run, n, finish=fin, skip_keys={lvkey})

    def find_iv(self, st, cond, inc, n):
        if cond is None or inc is None:
            return None
        e = self.skip(inc)
        step = None
        tgt = None
        if e.get("kind") == "UnaryOperator" and e.get("opcode") in ("++", "--"):
            step = 1 if e["opcode"] == "++" else -1
            tgt = e["inner"][0]
        elif e.get("kind") == "CompoundAssignOperator" and e.get("opcode") in ("+=", "-="):
            v = z3.simplify(self.rv(st.fork(), e["inner"][1]))
            if z3.is_int_value(v):
                step = v.as_long() * (1 if e["opcode"] == "+=" else -1)
                tgt = e["inner"][0]
        if tgt is None:
            return None
        t = self.skip(tgt)
        if t.get("kind") != "DeclRefExpr":
            return None
        key = self.lookup(st, t["referencedDecl"]["id"])
        if key is None or not z3.is_expr(st.locals[key]) or st.locals[key].sort() != Int:
            return None
        c = self.skip(cond)
        while c.get("kind") == "ImplicitCastExpr":
            c = self.skip(c["inner"][0])
        if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", ">", ">=", "!="):
            return None
        a, b = c["inner"]

        def is_var(x):
            x = self.skip(x)
            while x.get("kind") in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr"):
                x = self.skip(x["inner"][0])
            return x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("id") == t["referencedDecl"]["id"]
        op = c["opcode"]
        if is_var(a):
            bound = b
        elif is_var(b):
            bound = a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            return None
        s2 = st.fork()
        bv = self.load(s2, self.ev(s2, bound))
        if not z3.is_expr(bv):
            return None
        if bv.sort() == Real:
            return None
        bv = self.num(bv)
        start = st.locals[key]
        if step == 1 and op in ("<", "!="):
            N = bv - start
        elif step == 1 and op == "<=":
            N = bv - start + 1
        elif step == -1 and op == ">=":
            N = start - bv + 1
        elif step == -1 and op in (">", "!="):
            N = start - bv
        elif step > 1 and op == "<":
            N = (bv - start + (step - 1)) / step
        else:
            return None
        self._bound_check = (bound, bv)
        return key, step, z3.simplify(N), start

    def loop_general(self, st, cond, inc, body, n):
        con = self.cur_contract
        self.loop_ord += 1
        o = self.loop_ord
        inv = con.loops.get(o) if con else None
        if inv is None:
            raise Unsupported("loop without an affine induction variable and without an invariant", n)
        return self.loop_inv(st, inv, cond, inc, body, n, o)

    def modified_by(self, st, step):
        """names (heap keys, local keys) that a step can change, by fixpoint of dry runs."""
        M = set()
        for _ in range(8):
            s0 = st.fork()
            self.havoc_keys(s0, M)
            before_h = dict(s0.heap)
            before_l = dict(s0.locals)
            nob, nsink, nlog = len(self.obls), self.sink, self.loop_ord
            self.sink = []
            try:
                outs = step(s0.fork())
            finally:
                self.sink = nsink
                del self.obls[nob:]
                self.loop_ord = nlog
            new = set()
            for o in outs:
                if o.kind not in ("normal", "continue"):
                    continue
                for k, v in o.st.heap.items():
                    b = before_h.get(k)
                    if b is None:
                        b = z3.Const("H." + k, self.heap_sort(k))
                    if not v.eq(b):
                        new.add(("h", k))
                for k, v in o.st.locals.items():
                    if k in before_l and k != ("alloc",) and not same_lv(v, before_l[k]):
                        new.add(("l", k))
            if new <= M:
                return M
            M |= new
        raise Unsupported("loop effect did not stabilise")

    def havoc_keys(self, st, M):
        cur = {}
        for kind, k in sorted(M, key=str):
            if kind == "h":
                v = self.fresh("cur", self.H(st, k).sort())
                st.heap[k] = v
            else:
                old = st.locals[k]
                if not z3.is_expr(old):
                    if isinstance(old, VecIter):
                        v = VecIter(old.base, self.fresh("cur", Int))
                        st.locals[k] = v
                        continue
                    raise Unsupported("loop modifies a non-term local")
                v = self.fresh("cur", old.sort())
                st.locals[k] = v
            cur[(kind, k)] = v
        return cur

    def getk(self, st, key):
        kind, k = key
        return self.H(st, k) if kind == "h" else st.locals[k]

    def setk(self, st, key, v):
        kind, k = key
        if kind == "h":
            st.heap[k] = v
        else:
            st.locals[k] = v

    def iterate(self, st, N, run, node, finish=None, skip_keys=()):
        """loop of N iterations, body run(state, i) -> outcomes; i in [0,N)."""
        self.loop_ord += 1
        my_ord = self.loop_ord
        con = self.cur_contract
        N = z3.simplify(N)
        if z3.is_int_value(N) and N.as_long() <= 8 and not (con and my_ord in con.loops and (self.depth == 0 or con.loops_inlined)):
            return self.unroll(st, N.as_long(), run, finish)
        inv = con.loops.get(my_ord) if con and (self.depth == 0 or con.loops_inlined) else None
        cut = inv is not None and con.cut      # after the loop only the invariant is known
        i = self.fresh("i", Int)

        def dry(s):
            s.conds += [0 <= i, i < N]
            self.iter_stack.append(i)
            try:
                return run(s, i)
            finally:
                self.iter_stack.pop()
        M = {m for m in self.modified_by(st, dry) if m[1] not in skip_keys}
        s0 = st.fork()
        saved_log = self.fresh_log
        # the havocked constants stand for the state at the start of iteration i
        cur = self.havoc_keys(s0, M)
        s0.conds += [0 <= i, i < N]
        base_conds, base_facts = len(s0.conds), len(s0.facts)
        self.fresh_log = []
        saved_sink = self.sink
        self.sink = []
        obl_mark = len(self.obls)
        self.iter_stack.append(i)
        try:
            outs = run(s0.fork(), i)
            throws = self.sink
        finally:
            self.iter_stack.pop()
            log = self.fresh_log
            self.fresh_log = saved_log
            self.sink = saved_sink
        body_obls = self.obls[obl_mark:]
        del self.obls[obl_mark:]
        if self.fresh_log is not None:
            pass
        conts = [o for o in outs if o.kind in ("normal", "continue") and not self.dead(o.st)]
        exits = [o for o in outs if o.kind in ("return", "break") and not self.dead(o.st)] + [o for o in throws if not self.dead(o.st)]
        # closed forms
        init = {k: self.getk(st, k) for k in M}
        curids = {k: v.get_id() for k, v in cur.items()}
        lift = {}
        outer = list(self.iter_stack)
        for c in log:
            c.get_id()

        def lifted(t, at):
            """replace per-iteration constants (results of calls in the body, ...) by functions of the iteration."""
            subs = []
            for c in log:
                f = lift.get(c.get_id())
                if f is None:
                    f = z3.Function(c.decl().name() + "!it", Int, *[Int] * len(outer), c.sort())
                    lift[c.get_id()] = f
                subs.append((c, f(at, *outer)))
            return z3.substitute(t, *subs, (i, at)) if subs else z3.substitute(t, (i, at))
        cf = {}      # key -> function(k) -> term
        if conts:
            smerged, _ = self.merge([(o.st, None) for o in conts])
            new = {k: simp(self.getk(smerged, k)) for k in M}
            todo = set(M)
            # which continuing condition (vs exits) -- within the completed iterations no exit happened
            progress = True
            self.has_inv = inv is not None
            while progress and todo:
                progress = False
                for k in sorted(todo, key=str):
                    r = self.closed_form(k, cur, new, cf, todo, init, i, N, st, lifted, log)
                    if r is not None:
                        cf[k] = r
                        todo.discard(k)
                        progress = True
            # modified but unresolved: arbitrary per-iteration value (sound), unless an invariant is given
            for k in todo:
                fn_ = z3.Function("st!%d" % next(self.fresh_n), Int, *[Int] * len(outer), cur[k].sort())
                c0 = init[k]
                cf[k] = (lambda fn_, c0: (lambda at: fn_(at, *outer)))(fn_, c0)
                st.facts.append(cf[k](z3.IntVal(0)) == c0)
                if inv is None:
                    self.unresolved_loops.append((self.fn, my_ord, str(k)))
            unresolved = todo
        else:
            smerged = None
            new = {}
            for k in M:
                cf[k] = (lambda v: (lambda at: v))(init[k])
            unresolved = set()

        def at(t, kk):
            t = z3.substitute(t, *[(cur[k], cf[k](i)) for k in M if not isinstance(cur[k], VecIter)]) if M else t
            return lifted(t, kk)
        # unresolved: one-step relation as a quantified fact
        if conts and unresolved and not cut:
            kq = z3.Const("kq!%d" % next(self.fresh_n), Int)
            for k in unresolved:
                st.facts.append(z3.ForAll([kq], z3.Implies(z3.And(0 <= kq, kq < N), cf[k](kq + 1) == at(new[k], kq)), patterns=[cf[k](kq + 1)]))
        # per-iteration facts
        kq = z3.Const("kq!%d" % next(self.fresh_n), Int)
        rng = z3.And(0 <= kq, kq < N)
        exit_conds = [And(o.st.conds[base_conds:]) for o in exits]
        no_exit = None
        if exits:
            no_exit = Not(Or([at(c, kq) for c in exit_conds]))
        itfacts = []
        if smerged is not None:
            for f in smerged.facts[base_facts:]:
                itfacts.append(at(f, kq))
        Nc = N if z3.is_app(N) and N.decl().name().startswith("len_Vec") else If(N > 0, N, z3.IntVal(0))
        outs2 = []
        # user invariant
        if inv is not None:
            L0 = LoopCtx(self, st, M, cf, node, my_ord)
            for lab, e in inv(L0, self.spec_ctx, z3.IntVal(0)):
                self.oblige(st, "loop %d invariant '%s' holds initially" % (my_ord, lab), e, kind="inv")
            j = self.fresh("j", Int)
            s1 = st.fork(0 <= j, j < N)
            for lab, e in inv(L0, self.spec_ctx, j):
                s1.facts.append(e)
            for f in itfacts:
                s1.facts.append(z3.substitute(f, (kq, j)))
            if no_exit is not None:
                s1.conds.append(z3.substitute(no_exit, (kq, j)))
            for k in unresolved:
                s1.facts.append(cf[k](j + 1) == at(new[k], j))
            for lab, e in inv(L0, self.spec_ctx, j + 1):
                self.oblige(s1, "loop %d invariant '%s' is preserved" % (my_ord, lab), e, kind="inv")
            if not cut:
                st.facts.append(z3.ForAll([kq], z3.Implies(z3.And(0 <= kq, kq <= N), And([e for _, e in inv(L0, self.spec_ctx, kq)]))))
            for lab, e in inv(L0, self.spec_ctx, Nc):
                st.facts.append(e)
        # obligations raised inside the body: for an arbitrary iteration
        for o in body_obls:
            hy = []
            for h in o.hyps:
                hy.append(h)
            # hypotheses of the body already include 0<=i<N and the havocked state; substitute closed forms
            jj = self.fresh("it", Int)
            hy = [at(h, jj) for h in hy]
            if no_exit is not None:
                q = z3.Const("kq!%d" % next(self.fresh_n), Int)
                hy.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < jj), z3.substitute(no_exit, (kq, q)))))
            if itfacts:
                q = z3.Const("kq!%d" % next(self.fresh_n), Int)
                hy.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < jj), And([z3.substitute(f, (kq, q)) for f in itfacts]))))
            hy += [f for f in st.facts]
            if inv is not None:
                hy += [e for _, e in inv(LoopCtx(self, st, M, cf, node, my_ord), self.spec_ctx, jj)]
            self.obls.append(Obligation(o.func, o.name, hy, at(o.goal, jj), o.probes, o.kind, o.hints))
        # exits at iteration e
        for o, c in zip(exits, exit_conds):
            e = self.fresh("exit", Int)
            s2 = st.fork()
            s2.conds += [0 <= e, e < N]
            for x in o.st.conds[base_conds:]:
                s2.conds.append(at(x, e))
            for x in o.st.facts[base_facts:]:
                s2.facts.append(at(x, e))
            q = z3.Const("kq!%d" % next(self.fresh_n), Int)
            if no_exit is not None:
                self.assume_named(s2, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < e), z3.substitute(no_exit, (kq, q)))))
            if itfacts:
                s2.facts.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < e), And([z3.substitute(f, (kq, q)) for f in itfacts]))))
            for k, v in o.st.heap.items():
                s2.heap[k] = at(v, e) if not v.eq(st.heap.get(k, v)) or ("h", k) in M else v
            for k, v in o.st.locals.items():
                if z3.is_expr(v):
                    s2.locals[k] = at(v, e)
                elif k in st.locals:
                    s2.locals[k] = v
                elif isinstance(v, LV):
                    s2.locals[k] = self.subst_lv(v, lambda t: at(t, e))
            if inv is not None:
                for lab, x in inv(LoopCtx(self, st, M, cf, node, my_ord), self.spec_ctx, e):
                    s2.facts.append(x)
            val = o.val
            if z3.is_expr(val):
                val = at(val, e)
            elif isinstance(val, LV):
                val = self.subst_lv(val, lambda t: at(t, e))
            if o.kind == "throw":
                self.sink.append(Outcome("throw", s2, val))
            elif o.kind == "break":
                outs2.append(Outcome("normal", s2))
            else:
                outs2.append(Outcome(o.kind, s2, val))
        # completion
        if conts or True:
            s3 = st.fork()
            if no_exit is not None and not cut:
                self.assume_named(s3, z3.ForAll([kq], z3.Implies(rng, no_exit)))
            elif not conts:
                s3.conds.append(N <= 0)
            if not conts and exits:
                s3.conds.append(N <= 0)
            for k in M:
                self.setk(s3, k, simp(cf[k](Nc)) if z3.is_expr(cur[k]) else cur[k])
            if itfacts and not cut:
                s3.facts.append(z3.ForAll([kq], z3.Implies(rng, And(itfacts))))
            if finish:
                finish(s3)
            outs2.append(Outcome("normal", s3))
        if finish:
            pass
        # the loop-exit functions created while iterating an enclosing loop must be lifted there too
        if self.fresh_log is not None:
            self.lift_fns = getattr(self, "lift_fns", [])
        return self.merge_norm(outs2)

    def assume_named(self, st, F):
        """F as a path condition, under a name: the conditions that select values at joins stay free of quantifiers."""
        b = self.fresh("took", Bool)
        st.facts.append(z3.Implies(b, F))
        st.conds.append(b)

    def subst_lv(self, lv, f):
        if isinstance(lv, FieldLV):
            return FieldLV(lv.key, f(lv.ref), lv.ty)
        if isinstance(lv, ElemLV):
            return ElemLV(self.subst_lv(lv.base, f) if isinstance(lv.base, LV) else lv.base, f(lv.idx))
        if isinstance(lv, DerefLV):
            return DerefLV(f(lv.loc), lv.sort)
        if isinstance(lv, TempLV) and z3.is_expr(lv.v):
            return TempLV(f(lv.v))
        return lv

    def unroll(self, st, n, run, finish):
        cur = st
        outs = []
        for j in range(n):
            if cur is None:
                break
            r = run(cur, z3.IntVal(j))
            nx = []
            for o in r:
                if o.kind in ("normal", "continue"):
                    nx.append((o.st, None))
                elif o.kind == "break":
                    outs.append(Outcome("normal", o.st))
                else:
                    outs.append(o)
            cur = self.merge(nx)[0] if nx else None
        if cur is not None:
            if finish:
                finish(cur)
            outs.append(Outcome("normal", cur))
        return self.merge_norm(outs)

    # closed forms of loop-carried values -------------------------------------------------
    def closed_form(self, key, cur, new, cf, todo, init, i, N, st, lifted, log):
        c = cur[key]
        t = new[key]
        # substitute what is already solved
        sub = [(cur[k], cf[k](i)) for k in cf]
        if sub:
            t = simp(z3.substitute(t, *sub))
        others = {cur[k].get_id() for k in todo if k != key}
        if mentions(t, others):
            return None
        me = {c.get_id()}
        v0 = init[key]
        uid = next(self.fresh_n)
        sort = c.sort()
        if t.eq(c):
            return lambda at: v0
        if sort in (Real, Int):
            d = simp(t - c)
            if not mentions(d, me):
                def f(at, d=d):
                    kk = z3.Const("kk!%d" % uid, Int)
                    return v0 + mk_sum(at, kk, lifted(d, kk))
                return f
            # conditional accumulation: ite(p, c + a, c + b ...)
            d2 = self.delta_ite(t, c)
            if d2 is not None and not mentions(d2, me):
                def f(at, d2=d2):
                    kk = z3.Const("kk!%d" % uid, Int)
                    return v0 + mk_sum(at, kk, lifted(d2, kk))
                return f
        if not mentions(t, me):
            def f(at, t=t):
                prev = z3.simplify(at - 1)
                return If(z3.simplify(at <= 0), v0, lifted(t, prev))
            return f
        if sort == Bool:
            # v' = v or p(i)  /  v' = v and p(i)
            a = z3.simplify(z3.substitute(t, (c, z3.BoolVal(False))))
            b = z3.simplify(z3.substitute(t, (c, z3.BoolVal(True))))
            if z3.is_true(b):
                def f(at, a=a):
                    q = z3.Const("kb!%d" % uid, Int)
                    return z3.Or(v0, z3.Exists([q], z3.And(0 <= q, q < at, lifted(a, q))))
                return f
            if z3.is_false(a):
                def f(at, b=b):
                    q = z3.Const("kb!%d" % uid, Int)
                    return z3.And(v0, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < at), lifted(b, q))))
                return f
        if str(sort) in VEC_BY_NAME:
            return self.closed_vec(key, c, t, v0, i, N, st, lifted, uid, log)
        if z3.is_array_sort(c):
            return self.arr_form(c, t, v0, i, N, st, lifted, uid, log)
        return None

    def delta_ite(self, t, c):
        if not mentions(t, {c.get_id()}):
            return None
        if t.eq(c):
            return z3.RealVal(0) if c.sort() == Real else z3.IntVal(0)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not mentions(t.arg(0), {c.get_id()}):
            a, b = self.delta_ite(t.arg(1), c), self.delta_ite(t.arg(2), c)
            if a is None or b is None:
                return None
            return z3.If(t.arg(0), a, b)
        d = simp(t - c)
        return d if not mentions(d, {c.get_id()}) else None

    def closed_vec(self, key, c, t, v0, i, N, st, lifted, uid, log):
        V = VEC_BY_NAME[str(c.sort())]
        L, D = simp(dist(t, vlen)), simp(dist(t, vdata))
        cl, cd = V.len(c), V.data(c)
        cdk = z3.Const("cd!%d" % uid, cd.sort())
        clk = z3.Const("cl!%d" % uid, Int)
        D2 = z3.substitute(D, (cd, cdk), (cl, clk))
        L2 = z3.substitute(L, (cl, clk))
        if mentions(D2, {c.get_id()}) or mentions(L2, {c.get_id()}):
            # distribute ite over the datatype
            return None
        if L2.eq(clk):
            # in-place element updates
            if mentions(D2, {clk.get_id()}):
                D2 = z3.substitute(D2, (clk, vlen(v0)))
            f = self.arr_form(cdk, D2, vdata(v0), i, N, st, lifted, uid, log)
            if f is None:
                return None
            return lambda at: V.mk(vlen(v0), f(at))
        # push_back once per iteration
        if simp(L2 - clk).eq(z3.IntVal(1)) and z3.is_app(D2) and D2.decl().kind() == z3.Z3_OP_STORE and D2.arg(0).eq(cdk) and D2.arg(1).eq(clk):
            x = D2.arg(2)
            if mentions(x, {cdk.get_id(), clk.get_id()}):
                return None
            n0, d0 = vlen(v0), vdata(v0)

            def f(at):
                q = z3.Const("kl!%d" % uid, Int)
                arr = z3.Lambda([q], If(z3.And(q >= n0, q < n0 + at), lifted(x, simp(q - n0)), z3.Select(d0, q)))
                return V.mk(simp(n0 + at), arr)
            return f
        return None

    def arr_updates(self, t, c):
        """t as conditional stores over c: list of (cond, idx, val) in program order, or None."""
        if t.eq(c):
            return []
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_STORE:
                u = self.arr_updates(t.arg(0), c)
                if u is None:
                    return None
                return u + [(z3.BoolVal(True), t.arg(1), t.arg(2))]
            if k == z3.Z3_OP_ITE:
                a, b = self.arr_updates(t.arg(1), c), self.arr_updates(t.arg(2), c)
                if a is None or b is None:
                    return None
                return [(z3.And(t.arg(0), x), y, z) for x, y, z in a] + [(z3.And(Not(t.arg(0)), x), y, z) for x, y, z in b]
        return None

    def uniform_form(self, c, t, a0, i, lifted, uid, log):
        """every write of the loop stores the same value at an element (a value that depends on the element only):
        after `at` iterations element r holds it iff some iteration wrote r."""
        r = z3.Const("ru!%d" % uid, c.sort().domain())
        bad = {c.get_id(), i.get_id()} | {x.get_id() for x in log}
        val = []

        def value(v):
            if mentions(v, bad):
                return False
            v = simp(v)
            if val and not val[0].eq(v):
                return False
            val[:] = [v]
            return True

        def go(u):
            # condition under which u differs from c at r
            if u.eq(c):
                return z3.BoolVal(False)
            if z3.is_quantifier(u) and u.is_lambda():
                return point(z3.substitute_vars(u.body(), r))
            k = u.decl().kind() if z3.is_app(u) else None
            if k == z3.Z3_OP_STORE:
                b = go(u.arg(0))
                e = u.arg(1)
                if b is None or mentions(e, {c.get_id()}):
                    return None
                v = point(simp(z3.substitute(u.arg(2), (e, r))))
                if v is None:
                    return None
                return Or([b, And([e == r, v])])
            if k == z3.Z3_OP_ITE and not mentions(u.arg(0), {c.get_id()}):
                a, b = go(u.arg(1)), go(u.arg(2))
                if a is None or b is None:
                    return None
                return Or([And([u.arg(0), a]), And([Not(u.arg(0)), b])])
            return None

        def point(b):
            if not mentions(b, {c.get_id()}):
                return z3.BoolVal(True) if value(b) else None
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SELECT and b.arg(1).eq(r):
                return go(b.arg(0))
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and not mentions(b.arg(0), {c.get_id()}):
                x, y = point(b.arg(1)), point(b.arg(2))
                if x is None or y is None:
                    return None
                return Or([And([b.arg(0), x]), And([Not(b.arg(0)), y])])
            return None
        P = go(t)
        if P is None or not val:
            return None

        def f(at):
            q = z3.Const("ku!%d" % uid, Int)
            return z3.Lambda([r], If(z3.Exists([q], z3.And(0 <= q, q < at, lifted(P, q))), val[0], z3.Select(a0, r)))
        return f

    def arr_form(self, c, t, a0, i, N, st, lifted, uid, log):
        ups = self.arr_updates(t, c)
        if not ups:
            return self.uniform_form(c, t, a0, i, lifted, uid, log)
        idxs = []
        for _, e, _ in ups:
            if not any(e.eq(x) for x in idxs):
                idxs.append(e)
        if len(idxs) != 1:
            return self.uniform_form(c, t, a0, i, lifted, uid, log)
        e = idxs[0]
        if mentions(e, {c.get_id()}):
            return None
        # value at e after the iteration, in terms of the value before
        old = z3.Const("old!%d" % uid, c.sort().range())
        after = simp(dist(t, lambda x: sel(x, e)))
        after = z3.substitute(after, (z3.Select(c, e), old))
        if mentions(after, {c.get_id()}) and c.sort().domain() == Int:
            # elements the loop has not reached yet still hold their value from before the loop
            up = not mentions(simp(e - i), {i.get_id()})
            down = not mentions(simp(e + i), {i.get_id()})
            if up or down:
                subs = []
                for a in apps_in(after, lambda x: z3.is_select(x) and x.arg(0).eq(c)):
                    d = simp(a.arg(1) - e)
                    if z3.is_int_value(d) and (d.as_long() > 0 if up else d.as_long() < 0):
                        subs.append((a, z3.Select(a0, a.arg(1))))
                if subs:
                    after = z3.substitute(after, *subs)
        if mentions(after, {c.get_id()}):
            after = simp(z3.substitute(after, (c, z3.Store(c, e, old))))
            after = z3.substitute(after, (z3.Select(c, e), old))
            if mentions(after, {c.get_id()}):
                return None
        if not mentions(e, {i.get_id()}) and not mentions(e, {x.get_id() for x in log}):
            # fixed index: scalar accumulation
            if after.sort() in (Real, Int):
                d = self.delta_ite(after, old)
                if d is not None:
                    def f(at):
                        kk = z3.Const("kk!%d" % uid, Int)
                        return z3.Store(a0, e, sel(a0, e) + mk_sum(at, kk, lifted(d, kk)))
                    return f
            if not mentions(after, {old.get_id()}):
                def f(at):
                    return If(z3.simplify(at <= 0), a0, z3.Store(a0, e, lifted(after, z3.simplify(at - 1))))
                return f
            if str(old.sort()) in VEC_BY_NAME:
                g = self.closed_vec(None, old, after, sel(a0, e), i, N, st, lifted, uid + 100000, log)
                if g is not None:
                    return lambda at: z3.Store(a0, e, g(at))
            return None
        # moving index: must be injective
        dom = c.sort().domain()
        if dom == Int:
            off = simp(e - i)
            if not mentions(off, {i.get_id()}):
                def f(at):
                    q = z3.Const("ql!%d" % uid, Int)
                    it = simp(q - off)
                    body = If(z3.And(it >= 0, it < at), z3.substitute(lifted(after, it), (old, z3.Select(a0, q))), z3.Select(a0, q))
                    return z3.Lambda([q], body)
                return f
            off = simp(e + i)
            if not mentions(off, {i.get_id()}):
                def f(at):
                    q = z3.Const("ql!%d" % uid, Int)
                    it = simp(off - q)
                    body = If(z3.And(it >= 0, it < at), z3.substitute(lifted(after, it), (old, z3.Select(a0, q))), z3.Select(a0, q))
                    return z3.Lambda([q], body)
                return f
        u = self.uniform_form(c, t, a0, i, lifted, uid, log)
        if u is not None:
            return u
        if self.has_inv and dom in (Int, Loc):
            return None     # the stated invariant says what the array holds
        # general injective index: obligation + inverse function
        p, q = z3.Const("inj_a!%d" % uid, Int), z3.Const("inj_b!%d" % uid, Int)
        s2 = st.fork(0 <= p, p < q, q < N)
        self.oblige(s2, "loop writes distinct elements (%s)" % "injective index", lifted(e, p) != lifted(e, q), kind="loop")
        outer = list(self.iter_stack)
        invf0 = z3.Function("inv!%d" % uid, dom, *[Int] * len(outer), Int)
        invf = lambda x: invf0(x, *outer)
        kk = z3.Const("kinv!%d" % uid, Int)
        ek = lifted(e, kk)
        st.facts.append(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < N), invf(ek) == kk), patterns=pats(ek)))

        def f(at):
            r = z3.Const("rl!%d" % uid, dom)
            it = invf(r)
            body = If(z3.And(it >= 0, it < at, lifted(e, it) == r), z3.substitute(lifted(after, it), (old, z3.Select(a0, r))), z3.Select(a0, r))
            return z3.Lambda([r], body)
        return f

    def loop_inv(self, st, inv, cond, inc, body, n, o):
        """general loop cut by a user invariant inv(L, S, None)."""
        def step(s):
            c = self.to_bool(self.rv(s, cond)) if cond is not None else z3.BoolVal(True)
            s.conds.append(c)
            outs = self.exec(s, body)
            res = []
            for x in outs:
                if x.kind in ("normal", "continue"):
                    if inc is not None:
                        self.ev(x.st, inc)
                    x.kind = "normal"
                res.append(x)
            return res
        M = self.modified_by(st, step)
        names = self.local_names
        entry = st.fork()
        L = LoopCtx(self, st, M, None, n, o, entry)
        for lab, e in inv(L, self.spec_ctx, None):
            self.oblige(st, "loop %d invariant '%s' holds initially" % (o, lab), e, kind="inv")
        s0 = st.fork()
        self.havoc_keys(s0, M)
        L1 = LoopCtx(self, s0, M, None, n, o, entry)
        for lab, e in inv(L1, self.spec_ctx, None):
            s0.facts.append(e)
        s1 = s0.fork()
        outs = step(s1)
        res = []
        for x in outs:
            if x.kind == "normal":
                L2 = LoopCtx(self, x.st, M, None, n, o, entry)
                for lab, e in inv(L2, self.spec_ctx, None):
                    self.oblige(x.st, "loop %d invariant '%s' is preserved" % (o, lab), e, kind="inv")
            elif x.kind == "break":
                res.append(Outcome("normal", x.st))
            else:
                res.append(x)
        s2 = s0
        c = self.to_bool(self.rv(s2, cond)) if cond is not None else z3.BoolVal(True)
        s2.conds.append(Not(c))
        res.append(Outcome("normal", s2))
        return self.merge_norm(res)

    local_names = {}
    spec_ctx = None

    def lookup(self, st, did):
        fr = self.frame
        while fr is not None:
            if (fr, did) in st.locals:
                return (fr, did)
            fr = self.frame_parent.get(fr)
        return None

    # value of a MetaVec/MetaMat as a plain term
    def mat_val(self, st, v):
        if isinstance(v, MetaVec):
            q = z3.Const("mv!%d" % next(self.fresh_n), Int)
            V = vec(v.elem)
            return V.mk(v.n, z3.Lambda([q], v.f(q)))
        if isinstance(v, MetaMat):
            q = z3.Const("mr!%d" % next(self.fresh_n), Int)
            w = z3.Const("mc!%d" % next(self.fresh_n), Int)
            m = mat(v.elem)
            return m.mk(v.r, v.c, z3.Lambda([q], z3.Lambda([w], v.f(q, w))))
        return v


class LoopCtx:
    """what a user invariant may look at: loop-carried values by C++ name, and heap at iteration k."""

    def __init__(self, E, st, M, cf, node, ordn, entry=None):
        self.entry = entry if entry is not None else st              # state when the loop starts
        self.E, self.st, self.M, self.cf, self.node = E, st, M, cf, node
        self.outer = E.iter_stack[-1] if E.iter_stack else None      # index of the enclosing loop

    def var(self, name, k=None):
        for key in self.st.locals:
            if len(key) == 2 and self.E.local_names.get(key[1]) == name:
                if self.cf is not None and ("l", key) in self.cf and k is not None:
                    return self.cf[("l", key)](k)
                return self.E.load(self.st, self.st.locals[key])
        raise Unsupported("invariant names unknown local %s" % name)

    def F(self, key, ref, k=None):
        if self.cf is not None and ("h", key) in self.cf and k is not None:
            return sel(self.cf[("h", key)](k), ref)
        return sel(self.E.H(self.st, key), ref)

    def F0(self, key, ref):
        return sel(self.E.H(self.entry, key), ref)

    def Hh(self, key, k=None):
        """whole heap of a field at iteration k."""
        if self.cf is not None and ("h", key) in self.cf and k is not None:
            return self.cf[("h", key)](k)
        return self.E.H(self.st, key)


class SpecCtx:
    """the view a contract has: pre-state, post-state, arguments, result."""

    def __init__(self, E, con, f, this, args, pre, post, result, rawargs=None):
        self.E, self.con, self.f, self.this, self.args, self.pre, self.post, self.result = E, con, f, this, args, pre, post, result
        self.raw = rawargs

    # field access
    def key(self, name):
        if name in self.E.ghost or name.startswith("*"):
            return name
        cls, fld = name.rsplit(".", 1)
        return self.E.fkey(cls, fld)

    def F(self, name, ref=None):
        st = self.post if self.post is not None else self.pre
        return sel(self.E.H(st, self.key(name)), self.this if ref is None else ref)

    def old(self, name, ref=None):
        return sel(self.E.H(self.pre, self.key(name)), self.this if ref is None else ref)

    def Hh(self, name):
        st = self.post if self.post is not None else self.pre
        return self.E.H(st, self.key(name))

    def oldH(self, name):
        return self.E.H(self.pre, self.key(name))

    def on(self, ref):
        """the same state seen from another object (this := ref)."""
        s = SpecCtx(self.E, self.con, self.f, ref, self.args, self.pre, self.post, self.result, self.raw)
        return s

    def deref(self, loc, sort=Real):
        st = self.post if self.post is not None else self.pre
        lv = self.E.deref(loc, ("real",) if sort == Real else ("int",))
        return lv.get(self.E, st)

    def old_deref(self, loc):
        return self.E.deref(loc, ("real",)).get(self.E, self.pre)

    def param(self, name, ref=None):
        """value of a `const float*` parameter field."""
        return self.deref(self.F(name, ref))

    def argp(self, i):
        """value of a by-reference argument in the current (post) state."""
        st = self.post if self.post is not None else self.pre
        return self.E.load(st, self.raw[i])

    def local(self, name):
        """final value of a local of the body (witnesses of existential clauses)."""
        st = self.post if self.post is not None else self.pre
        for key in reversed(list(st.locals)):
            if len(key) == 2 and self.E.local_names.get(key[1]) == name:
                return self.E.load(st, st.locals[key])
        raise Unsupported("specification names unknown local %s" % name)

    def len(self, v):
        return vlen(v)

    def at(self, v, i):
        return vget(v, i if z3.is_expr(i) else z3.IntVal(i))

    def sub(self, name, ref=None):
        return self.E.sub(self.key(name), self.this if ref is None else ref)

    def isa(self, ref, cls):
        return self.E.type_is(ref, cls)

    def exact(self, ref, cls):
        return typ(ref) == self.E.cls_ids[cls]

    def sum(self, n, f):
        k = z3.Const("ks!%d" % next(self.E.fresh_n), Int)
        return mk_sum(n, k, f(k))

    def forall(self, lo, hi, f, pat=None):
        k = z3.Const("kf!%d" % next(self.E.fresh_n), Int)
        b = z3.Implies(z3.And(lo <= k, k < hi), f(k))
        return z3.ForAll([k], b)

    def forall_ref(self, f, pat=None):
        k = z3.Const("kr!%d" % next(self.E.fresh_n), Ref)
        return z3.ForAll([k], f(k), patterns=[pat(k)]) if pat else z3.ForAll([k], f(k))

    def forall_loc(self, f):
        k = z3.Const("kl!%d" % next(self.E.fresh_n), Loc)
        return z3.ForAll([k], f(k))

    def hint(self, idx):
        self.E.hints.append(idx)

    def enum(self, name):
        for en, vals in self.E.P.enums.items():
            for v, x in vals.items():
                if en + "::" + v == name:
                    return z3.IntVal(x)
        raise KeyError(name)
