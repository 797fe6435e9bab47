"""Model of the parts of the standard library and of Eigen that the code uses (trusted, see TRUST)."""
import z3
from core import *
from core import And, Or, Not, If
from engine import *
from expr import FullEngine, ratval

TRUST = ["std::vector/map/string/unique_ptr/algorithms and Eigen element-wise arrays behave as documented (stdlib_model.py)",
         "float/double arithmetic is treated as exact real arithmetic; int arithmetic as unbounded integers",
         "NaN and infinities are two distinguished constants without arithmetic"]


def real(v):
    if z3.is_expr(v) and v.sort() == Bool:
        return If(v, z3.RealVal(1), z3.RealVal(0))
    if z3.is_expr(v) and v.sort() == Int:
        s = z3.simplify(z3.ToReal(v))
        return s if z3.is_rational_value(s) else z3.ToReal(v)
    return v


def floor_(x):
    return z3.ToReal(z3.ToInt(x))


def powterm(x, y):
    x, y = real(x), real(y)
    ys = z3.simplify(y)
    if z3.is_rational_value(ys):
        fr = ys.as_fraction()
        if fr.denominator == 1 and 0 <= fr.numerator <= 5:
            r = z3.RealVal(1)
            for _ in range(fr.numerator):
                r = r * x
            return r
        if fr.denominator == 1 and -3 <= fr.numerator < 0:
            r = z3.RealVal(1)
            for _ in range(-fr.numerator):
                r = r * x
            return 1 / r
        if fr.denominator == 2 and fr.numerator == 1:
            return sqrt_(x)
    return pow_(x, ys if z3.is_rational_value(ys) else y)


class Model:
    # ------------------------------------------------------------ helpers
    def _lv(self, st, base):
        """evaluated base: (lvalue or None, value)"""
        b = self.ev(st, base)
        v = self.load(st, b)
        if isinstance(v, PtrVal):
            b = v.lv
            v = self.load(st, b)
        return (b if isinstance(b, LV) else None), v

    def elem_val(self, st, V, x):
        x = self.load(st, x)
        if isinstance(x, (MetaVec, MetaMat)):
            x = self.mat_val(st, x)
        if isinstance(x, PtrVal):
            a = self.addr(x.lv)
            if a is None:
                raise Unsupported("address of local stored in a container")
            return a
        if isinstance(x, Opaque):
            return self.fresh("opq", V.elem)
        if not z3.is_expr(x):
            raise Unsupported("container element %s" % type(x))
        if x.sort() != V.elem:
            x = self.coerce(x, {str(Real): ("real",), str(Int): ("int",), str(Bool): ("bool",), str(Loc): ("ptr", ("real",))}.get(str(V.elem), ("x",)))
        return x

    def callf(self, st, clo, args):
        return self.load(st, self.call_closure(st, clo, args))

    def meta(self, v):
        """element-wise view of a vector-like value."""
        if isinstance(v, MetaVec):
            return v
        if is_vec(v):
            return MetaVec(vlen(v), lambda k, v=v: vget(v, k), vecof(v).elem)
        return None

    def metam(self, v):
        if isinstance(v, MetaMat):
            return v
        if is_mat(v):
            return MetaMat(macc(v, 0), macc(v, 1), lambda i, j, v=v: sel(sel(macc(v, 2), i), j), matof(v).elem)
        return None

    def vsum(self, st, mv, lo=None, hi=None):
        n = mv.n if hi is None else hi
        lo = z3.IntVal(0) if lo is None else lo
        k = z3.Const("kv!sum", Int)
        return mk_sum(z3.simplify(n - lo), k, mv.f(z3.simplify(lo + k)))

    # ------------------------------------------------------------ members
    def std_member(self, st, name, base, args, n, callee):
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        lv, v = self._lv(st, base)
        if isinstance(v, Opaque):
            for a in args:
                try:
                    self.ev(st, a)
                except Unsupported:
                    pass
            ty = self.ntype(n)
            if ty[0] in ("bool", "int", "real", "str"):
                return self.fresh("opq_" + name.replace(" ", "_"), sort_of(ty))
            return Opaque(name)
        if z3.is_expr(v) and v.sort() == Bool and name in ("operator bool", "has_value"):
            return v
        if z3.is_expr(v) and v.sort() == Bool and name in ("error", "value"):
            return Opaque(name)
        if isinstance(v, VecIter):
            raise Unsupported("iterator member %s" % name, n)
        mv, mm = self.meta(v), self.metam(v)
        if mv is not None:
            return self.vec_member(st, name, lv, v, mv, args, n)
        if mm is not None:
            return self.mat_member(st, name, lv, v, mm, args, n)
        if is_map(v):
            return self.map_member(st, name, lv, v, args, n)
        if z3.is_expr(v) and v.sort() == Ref:
            if name in ("get", "operator->", "operator*"):
                return v
            if name == "reset":
                nv = self.rv(st, args[0]) if args else null
                lv.set(self, st, nv)
                return Opaque("void")
            if name == "release":
                lv.set(self, st, null)
                return v
            if name in ("operator bool",):
                return v != null
        if z3.is_expr(v) and v.sort() == Str:
            a = [self.rv(st, x) for x in args]
            if name in ("c_str", "data") or name.startswith("operator basic_string_view"):
                return v
            ty = self.ntype(n)
            pure_args = [x for x in a if z3.is_expr(x)]
            if name in ("empty",):
                return v == strlit("")
            if ty[0] in ("bool", "int", "str", "real"):
                f = z3.Function("str_" + name, Str, *[x.sort() for x in pure_args], sort_of(ty))
                return f(v, *pure_args)
            if name in ("begin", "end"):
                return Opaque("striter")
            return Opaque("str." + name)
        if name.startswith("operator "):
            ty = self.ntype(n)
            if ty[0] == "bool":
                return self.to_bool(v)
            return v
        raise Unsupported("member %s of %s" % (name, v.sort() if z3.is_expr(v) else type(v)), n)

    def vec_member(self, st, name, lv, v, mv, args, n):
        isz = z3.is_expr(v)
        V = vecof(v) if isz else vec(mv.elem)
        N = mv.n
        base = lv if lv is not None else v
        if name in ("size", "rows", "length"):
            return N
        if name == "cols":
            return z3.IntVal(1)
        if name == "empty":
            return N == 0
        if name in ("begin", "cbegin"):
            return VecIter(base if lv is not None else TempLV(self.mat_val(st, v)), z3.IntVal(0))
        if name in ("end", "cend"):
            return VecIter(base if lv is not None else TempLV(self.mat_val(st, v)), N)
        if name in ("back", "front", "at", "operator[]", "coeff", "operator()"):
            i = {"back": lambda: z3.simplify(N - 1), "front": lambda: z3.IntVal(0)}.get(name, lambda: self.num(self.rv(st, args[0])))()
            if name == "at":
                ok = z3.And(0 <= i, i < N)
                self.maybe_throw(st, Not(ok), "out_of_range")
            if not isz:
                return mv.f(i)
            return ElemLV(base, i)
        if name in ("push_back", "emplace_back"):
            ety = None
            if len(args) == 1:
                x = self.elem_arg(st, args[0], V)
            else:
                # emplace_back with constructor arguments
                bt = self.ntype(n) if name == "emplace_back" else None
                if bt and bt[0] == "obj":
                    r = self.alloc(st, bt[1])
                    self.construct(st, bt[1], r, [self.ev(st, a) for a in args])
                    x = r
                else:
                    raise Unsupported("emplace_back", n)
            lv.set(self, st, V.mk(z3.simplify(N + 1), z3.Store(vdata(v), N, x)))
            if name == "emplace_back":
                return ElemLV(lv, N)
            return Opaque("void")
        if name == "pop_back":
            lv.set(self, st, V.mk(z3.simplify(N - 1), vdata(v)))
            return Opaque("void")
        if name in ("reserve", "shrink_to_fit"):
            return Opaque("void")
        if name == "clear":
            lv.set(self, st, vlit(V.elem, []))
            return Opaque("void")
        if name == "assign" and len(args) == 1:
            x = self.rv(st, args[0])
            if isinstance(x, MetaVec):
                x = self.mat_val(st, x)
            if not (z3.is_expr(x) and x.sort() == v.sort()):
                raise Unsupported("assign from a list", n)
            lv.set(self, st, x)
            return Opaque("void")
        if name == "assign":
            m = self.num(self.rv(st, args[0]))
            if isinstance(m, VecIter):
                raise Unsupported("assign from range", n)
            x = self.elem_val(st, V, self.rv(st, args[1]))
            lv.set(self, st, V.mk(m, z3.K(Int, x)))
            return Opaque("void")
        if name == "resize":
            m = self.num(self.rv(st, args[0]))
            q = z3.Const("rs!%d" % next(self.fresh_n), Int)
            if len(args) > 1:
                x = self.elem_val(st, V, self.rv(st, args[1]))
            else:
                x = {str(Real): z3.RealVal(0), str(Int): z3.IntVal(0), str(Bool): z3.BoolVal(False), str(Ref): null, str(Loc): nullloc}.get(str(V.elem))
                if x is None and str(V.elem) in VEC_BY_NAME:
                    x = vlit(VEC_BY_NAME[str(V.elem)].elem, [])
                if x is None:
                    raise Unsupported("resize of %s" % V.elem, n)
            lv.set(self, st, V.mk(m, z3.Lambda([q], If(q < N, z3.Select(vdata(v), q), x))))
            return Opaque("void")
        if name == "insert":
            it = self.rv(st, args[0])
            if isinstance(it, VecIter) and len(args) == 2:
                x = self.elem_arg(st, args[1], V)
                q = z3.Const("in!%d" % next(self.fresh_n), Int)
                d = vdata(v)
                lv.set(self, st, V.mk(N + 1, z3.Lambda([q], If(q < it.idx, z3.Select(d, q), If(q == it.idx, x, z3.Select(d, q - 1))))))
                return VecIter(lv, it.idx)
            if isinstance(it, VecIter) and len(args) == 3:
                a, b = self.rv(st, args[1]), self.rv(st, args[2])
                if isinstance(a, VecIter) and isinstance(b, VecIter) and same_lv(a.base, b.base):
                    w = a.base.get(self, st) if isinstance(a.base, LV) else a.base
                    if z3.is_expr(w) and w.sort() == v.sort():
                        m = z3.simplify(b.idx - a.idx)
                        q = z3.Const("is!%d" % next(self.fresh_n), Int)
                        tail = vget(w, a.idx + q - it.idx)
                        if not z3.simplify(it.idx - N).eq(z3.IntVal(0)):
                            tail = If(q < it.idx + m, tail, z3.Select(vdata(v), q - m))
                        lv.set(self, st, V.mk(N + m, z3.Lambda([q], If(q < it.idx, z3.Select(vdata(v), q), tail))))
                        return VecIter(lv, it.idx)
            raise Unsupported("insert", n)
        if name == "erase":
            it = self.rv(st, args[0])
            if isinstance(it, VecIter) and len(args) == 1:
                q = z3.Const("er!%d" % next(self.fresh_n), Int)
                d = vdata(v)
                lv.set(self, st, V.mk(N - 1, z3.Lambda([q], If(q < it.idx, z3.Select(d, q), z3.Select(d, q + 1)))))
                return VecIter(lv, it.idx)
            raise Unsupported("erase", n)
        if name == "sum":
            return self.vsum(st, mv)
        if name == "data":
            if lv is not None and isz:
                return PtrVal(ElemLV(lv, z3.IntVal(0)))
        if name == "swap":
            l2, v2 = self._lv(st, args[0])
            lv.set(self, st, v2)
            l2.set(self, st, v)
            return Opaque("void")
        if name == "transpose":
            return ("rowvec", mv)
        if name == "unaryExpr":
            f = self.ev(st, args[0])
            return MetaVec(mv.n, self.pure_fn(st, f, mv.f), mv.elem)
        if name in ("array", "matrix", "eval"):
            return v
        if name in ("setZero", "setConstant", "fill"):
            x = z3.RealVal(0) if name == "setZero" else self.rv(st, args[0])
            lv.set(self, st, V.mk(N, z3.K(Int, self.elem_val(st, V, x))))
            return Opaque("void")
        raise Unsupported("vector member %s" % name, n)

    def elem_arg(self, st, a, V):
        if V.elem == Ref:
            ty = self.ntype(a)
            if ty[0] == "obj":
                return self.obj_init(st, ty[1], a)
        return self.elem_val(st, V, self.rv(st, a))

    def pure_fn(self, st, f, elem):
        def g(*k):
            s = st.fork()
            r = self.callf(s, f, [elem(*k)])
            return r
        return g

    def mat_member(self, st, name, lv, v, mm, args, n):
        base = lv if lv is not None else v
        if name == "rows":
            return mm.r
        if name == "cols":
            return mm.c
        if name == "size":
            return mm.r * mm.c
        if name == "row":
            i = self.num(self.rv(st, args[0]))
            if lv is not None:
                return RowLV(lv, i)
            return MetaVec(mm.c, lambda k: mm.f(i, k), mm.elem)
        if name == "col":
            j = self.num(self.rv(st, args[0]))
            return MetaVec(mm.r, lambda k: mm.f(k, j), mm.elem)
        if name == "unaryExpr":
            f = self.ev(st, args[0])
            return MetaMat(mm.r, mm.c, self.pure_fn(st, f, mm.f), mm.elem)
        if name in ("coeff", "operator()"):
            i, j = self.num(self.rv(st, args[0])), self.num(self.rv(st, args[1]))
            return MatElemLV(base, i, j) if z3.is_expr(v) else mm.f(i, j)
        if name == "sum":
            k, j = z3.Const("kv!sum", Int), z3.Const("kw!sum", Int)
            return mk_sum(mm.r, k, mk_sum(mm.c, j, mm.f(k, j)))
        raise Unsupported("matrix member %s" % name, n)

    def map_member(self, st, name, lv, v, args, n):
        M = MAP_BY_NAME[str(v.sort())]
        base = lv if lv is not None else v
        if name in ("end", "cend"):
            return MapIter(base, None, True)
        if name == "find":
            return MapIter(base, self.rv(st, args[0]))
        if name in ("contains", "count"):
            h = z3.Select(M.has(v), self.rv(st, args[0]))
            return h if name == "contains" else If(h, z3.IntVal(1), z3.IntVal(0))
        if name == "at":
            k = self.rv(st, args[0])
            self.maybe_throw(st, Not(z3.Select(M.has(v), k)), "out_of_range")
            return MapLV(base, k)
        if name == "operator[]":
            k = self.rv(st, args[0])
            return self.map_index(st, lv, v, M, k)
        if name in ("insert", "emplace"):
            if len(args) == 1 and M.val == Bool:
                k = self.rv(st, args[0])
                x = z3.BoolVal(True)
            elif len(args) == 2:
                k, x = self.rv(st, args[0]), self.rv(st, args[1])
            else:
                p = self.rv(st, args[0])
                if not isinstance(p, PairVal):
                    raise Unsupported("map insert", n)
                k, x = self.load(st, p.a), self.load(st, p.b)
            h = z3.Select(M.has(v), k)
            lv.set(self, st, M.mk(z3.Store(M.has(v), k, True), z3.Store(M.get(v), k, If(h, z3.Select(M.get(v), k), x))))
            return PairVal(MapIter(lv, k), Not(h))
        if name == "clear":
            lv.set(self, st, M.mk(z3.K(M.key, z3.BoolVal(False)), M.get(v)))
            return Opaque("void")
        if name == "empty":
            q = z3.Const("mk!%d" % next(self.fresh_n), M.key)
            return z3.Not(z3.Exists([q], z3.Select(M.has(v), q)))
        if name == "size":
            return z3.Function("mapsize_" + str(v.sort()), v.sort(), Int)(v)
        raise Unsupported("map member %s" % name, n)

    def map_index(self, st, lv, v, M, k):
        # operator[] default-constructs a missing entry
        h = z3.Select(M.has(v), k)
        dv = {str(Real): z3.RealVal(0), str(Int): z3.IntVal(0), str(Bool): z3.BoolVal(False), str(Ref): null, str(Loc): nullloc}.get(str(M.val))
        if dv is None and str(M.val) in VEC_BY_NAME:
            dv = vlit(VEC_BY_NAME[str(M.val)].elem, [])
        if dv is None:
            dv = self.fresh("mapdflt", M.val)
        lv.set(self, st, M.mk(z3.Store(M.has(v), k, True), z3.Store(M.get(v), k, If(h, z3.Select(M.get(v), k), dv))))
        return MapLV(lv, k)

    def maybe_throw(self, st, cond, what):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return
        s2 = st.fork(cond)
        self.sink.append(Outcome("throw", s2, what))
        st.conds.append(Not(cond))

    # ------------------------------------------------------------ free functions
    def std_call(self, st, name, args, n, declref=None):
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name in ("move", "forward", "as_const", "ref", "cref", "addressof", "launder"):
            return self.ev(st, args[0])
        if name in ("make_unique", "make_shared"):
            ty = self.ntype(n)
            if ty[0] != "ref" or ty[1] is None:
                raise Unsupported("make_unique of %s" % (ty,), n)
            r = self.alloc(st, ty[1])
            vals = [self.ev(st, a) for a in args]
            if len(vals) == 1:
                v0 = self.load(st, vals[0])
                aty = self.ntype(args[0])
                if aty[0] == "obj" and (aty[1] == ty[1]) and z3.is_expr(v0):
                    self.copy_obj(st, ty[1], r, v0)
                    return r
            self.construct(st, ty[1], r, vals)
            return r
        if name in ("max", "min"):
            if len(args) == 1:
                v = self.rv(st, args[0])
                mv = self.meta(v)
                k = z3.simplify(mv.n).as_long()
                r = mv.f(z3.IntVal(0))
                for j in range(1, k):
                    y = mv.f(z3.IntVal(j))
                    r = If(r < y, y, r) if name == "max" else If(y < r, y, r)
                return r
            x, y = self.num(self.rv(st, args[0])), self.num(self.rv(st, args[1]))
            if x.sort() != y.sort():
                x, y = self.unify(x, y)
            if len(args) == 3:
                raise Unsupported("max with comparator", n)
            return If(x < y, y, x) if name == "max" else If(y < x, y, x)
        if name == "clamp":
            x, lo, hi = [self.num(self.rv(st, a)) for a in args[:3]]
            return If(x < lo, lo, If(hi < x, hi, x))
        if name in ("abs", "fabs", "labs"):
            x = self.num(self.rv(st, args[0]))
            return z3.If(x >= 0, x, -x)
        if name == "pow":
            return powterm(self.rv(st, args[0]), self.rv(st, args[1]))
        if name in ("exp", "log", "tanh", "sqrt", "sin", "cos", "tan", "atan"):
            x = real(self.rv(st, args[0]))
            xs = z3.simplify(x)
            if z3.is_rational_value(xs):
                x = xs
                if name == "exp" and xs.as_fraction() == 0:
                    return z3.RealVal(1)
            return {"exp": exp_, "log": log_, "tanh": tanh_, "sqrt": sqrt_, "sin": sin_, "cos": cos_, "tan": tan_, "atan": atan_}[name](x)
        if name == "floor":
            return floor_(real(self.rv(st, args[0])))
        if name == "ceil":
            return -floor_(-real(self.rv(st, args[0])))
        if name in ("round", "lround", "llround"):
            x = real(self.rv(st, args[0]))
            r = z3.If(x >= 0, floor_(x + z3.Q(1, 2)), -floor_(-x + z3.Q(1, 2)))
            return r if name == "round" else z3.ToInt(r)
        if name in ("trunc",):
            x = real(self.rv(st, args[0]))
            return z3.If(x >= 0, floor_(x), -floor_(-x))
        if name in ("fmod",):
            x, y = real(self.rv(st, args[0])), real(self.rv(st, args[1]))
            q = x / y
            return x - y * z3.If(q >= 0, floor_(q), -floor_(-q))
        if name in ("isnan", "__builtin_isnan"):
            return real(self.rv(st, args[0])) == NAN
        if name in ("isinf",):
            x = real(self.rv(st, args[0]))
            return Or([x == INF, x == -INF])
        if name in ("isfinite",):
            x = real(self.rv(st, args[0]))
            return And([x != INF, x != -INF, x != NAN])
        if name in ("quiet_NaN", "signaling_NaN", "__builtin_nanf", "__builtin_nan", "nan", "nanf"):
            return NAN
        if name in ("infinity", "__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf"):
            return INF
        if name == "epsilon":
            t = (n["type"].get("desugaredQualType") or n["type"]["qualType"]).replace("const", "").strip()
            return z3.Q(1, 2 ** 23) if t == "float" else z3.Q(1, 2 ** 52) if t == "double" else self.fresh("ext_epsilon", Real)
        if name in ("max_size",):
            return self.fresh("max", Int)
        if name in ("begin", "end", "cbegin", "cend", "size", "ssize", "empty", "data"):
            return self.std_member(st, name if name != "ssize" else "size", args[0], [], n, None)
        if name in ("ignore",):
            return Opaque("void")
        if name in ("format", "to_string", "toupper", "tolower", "print", "println", "getenv"):
            for a in args:
                try:
                    self.ev(st, a)
                except Unsupported:
                    pass
            ty = self.ntype(n)
            return self.fresh("fmt", sort_of(ty)) if ty[0] in ("str", "int", "real", "bool") else Opaque("fmt")
        if name == "swap":
            a, b = self.ev(st, args[0]), self.ev(st, args[1])
            x, y = self.load(st, a), self.load(st, b)
            a.set(self, st, y)
            b.set(self, st, x)
            return Opaque("void")
        if name == "exchange":
            a = self.ev(st, args[0])
            x = self.load(st, a)
            y = self.rv(st, args[1])
            self.assign(st, a, y, None)
            return x
        if name in ("Zero", "Ones", "Constant"):
            ty = self.ntype(n)
            dims = [self.num(self.rv(st, a)) for a in args]
            val = z3.RealVal(0) if name == "Zero" else z3.RealVal(1)
            if name == "Constant":
                val = real(self.load(st, dims[-1]))
                dims = dims[:-1]
            t = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            if "int" in t.split("Array<")[-1][:4]:
                val = z3.ToInt(val)
            if len(dims) == 1:
                return MetaVec(dims[0], lambda k: val, val.sort())
            return MetaMat(dims[0], dims[1], lambda i, j: val, val.sort())
        if name in ("accumulate", "fill", "any_of", "all_of", "none_of", "find_if", "find", "copy", "for_each", "count_if", "transform",
                    "max_element", "min_element", "lower_bound", "upper_bound", "next", "prev", "distance", "advance", "fill_n", "reduce", "inner_product"):
            return self.algorithm(st, name, args, n, declref)
        if name in ("get",):
            ty = self.ntype(n)
            if ty[0] in ("bool", "int", "real", "str", "vec"):
                return self.fresh("opq_get", sort_of(ty))
            return Opaque("get")
        # opaque external function
        ty = self.ntype(n)
        for a in args:
            lv = None
            try:
                x = self.ev(st, a)
                x = self.load(st, x)
            except Unsupported:
                continue
            if isinstance(x, (PtrVal,)):
                raise Unsupported("external function %s may write through a pointer" % name, n)
            if z3.is_expr(x) and x.sort() == Loc:
                raise Unsupported("external function %s may write through a pointer" % name, n)
        if ty[0] in ("bool", "int", "real", "str"):
            return self.fresh("ext_" + str(name), sort_of(ty))
        return Opaque(str(name))

    def rng(self, st, a, b):
        x, y = self.rv(st, a), self.rv(st, b)
        if not (isinstance(x, VecIter) and isinstance(y, VecIter)):
            raise Unsupported("algorithm over a non-vector range")
        return x, y

    def algorithm(self, st, name, args, n, declref=None):
        ranges = declref is not None and False
        # std::ranges:: versions take the container
        a0 = None
        if name in ("next", "prev", "advance"):
            it = self.ev(st, args[0])
            x = self.load(st, it)
            if isinstance(x, Opaque) or not isinstance(x, VecIter):
                return Opaque("iter")
            d = self.num(self.rv(st, args[1])) if len(args) > 1 else z3.IntVal(1)
            r = VecIter(x.base, x.idx + d if name != "prev" else x.idx - d)
            if name == "advance":
                it.set(self, st, r)
                return Opaque("void")
            return r
        if name == "distance":
            x, y = self.rng(st, args[0], args[1])
            return z3.simplify(y.idx - x.idx)
        first = self.load(st, self.ev(st, args[0]))
        if is_vec(first):
            lvx = self.ev(st, args[0])
            lo, hi = VecIter(lvx if isinstance(lvx, LV) else TempLV(first), z3.IntVal(0)), VecIter(lvx if isinstance(lvx, LV) else TempLV(first), vlen(first))
            rest = args[1:]
        elif isinstance(first, Opaque):
            ty = self.ntype(n)
            return self.fresh("opq_alg", sort_of(ty)) if ty[0] in ("bool", "int", "real", "str") else Opaque("alg")
        else:
            lo, hi = self.rng(st, args[0], args[1])
            rest = args[2:]
        vv = self.load(st, lo.base) if isinstance(lo.base, LV) else lo.base
        N = z3.simplify(hi.idx - lo.idx)
        el = lambda k: ElemLV(lo.base, z3.simplify(lo.idx + k))
        if name in ("accumulate", "reduce"):
            init = self.rv(st, rest[0])
            ity = self.ntype(rest[0])
            if len(rest) == 1:
                k = z3.Const("kacc!sum", Int)
                term = vget(vv, z3.simplify(lo.idx + k))
                if z3.is_expr(init) and init.sort() == Real and term.sort() == Int:
                    term = z3.ToReal(term)
                if init.sort() == Int and term.sort() == Real:
                    raise Unsupported("accumulate truncates to int", n)
                return init + mk_sum(N, k, term)
            f = self.ev(st, rest[1])
            key = (self.frame, "acc!%d" % next(self.fresh_n))
            st.locals[key] = init

            def run(s, i):
                r = self.callf(s, f, [s.locals[key], el(i)])
                s.locals[key] = r if r.sort() == init.sort() else self.coerce(r, {str(Real): ("real",), str(Int): ("int",)}[str(init.sort())])
                return [Outcome("normal", s)]
            outs = self.iterate(st, N, run, n)
            st.become(outs[0].st)
            return st.locals.pop(key)
        if name in ("fill",):
            V = vecof(vv)
            x = self.elem_val(st, V, self.rv(st, rest[0]))
            q = z3.Const("fl!%d" % next(self.fresh_n), Int)
            if z3.simplify(lo.idx).eq(z3.IntVal(0)) and z3.simplify(hi.idx - vlen(vv)).eq(z3.IntVal(0)):
                lo.base.set(self, st, V.mk(vlen(vv), z3.K(Int, x)))
            else:
                lo.base.set(self, st, V.mk(vlen(vv), z3.Lambda([q], If(z3.And(q >= lo.idx, q < hi.idx), x, z3.Select(vdata(vv), q)))))
            return Opaque("void")
        if name in ("find_if", "find", "any_of", "all_of", "none_of"):
            if name == "find":
                target = self.rv(st, rest[0])
                pred = lambda s, i: self.binop(s, "==", vget(vv, z3.simplify(lo.idx + i)), target)
            else:
                f = self.ev(st, rest[0])
                pred = lambda s, i: self.to_bool(self.callf(s, f, [el(i)]))
            s = st.fork()
            k = z3.Const("kp!%d" % next(self.fresh_n), Int)
            p = pred(s, k)
            if name == "all_of":
                return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), p))
            if name == "any_of":
                return z3.Exists([k], z3.And(0 <= k, k < N, p))
            if name == "none_of":
                return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), Not(p)))
            r = self.fresh("found", Int)
            Nn = If(N > 0, N, z3.IntVal(0))
            st.facts.append(z3.And(0 <= r, r <= Nn))
            st.facts.append(z3.Implies(r < Nn, z3.substitute(p, (k, r))))
            st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), Not(p))))
            return VecIter(lo.base, z3.simplify(lo.idx + r))
        if name == "count_if":
            f = self.ev(st, rest[0])
            k = z3.Const("kp!%d" % next(self.fresh_n), Int)
            p = self.to_bool(self.callf(st.fork(), f, [el(k)]))
            return mk_sum(N, k, z3.If(p, z3.IntVal(1), z3.IntVal(0)))
        if name == "for_each":
            f = self.ev(st, rest[0])

            def run(s, i):
                self.callf(s, f, [el(i)])
                return [Outcome("normal", s)]
            outs = self.iterate(st, N, run, n)
            st.become(outs[0].st)
            return Opaque("void")
        if name in ("copy",):
            dst = self.rv(st, rest[0])
            if not isinstance(dst, VecIter):
                raise Unsupported("copy to %s" % type(dst), n)
            dv = self.load(st, dst.base)
            q = z3.Const("cp!%d" % next(self.fresh_n), Int)
            V = vecof(dv)
            dst.base.set(self, st, V.mk(vlen(dv), z3.Lambda([q], If(z3.And(q >= dst.idx, q < dst.idx + N), vget(vv, q - dst.idx + lo.idx), z3.Select(vdata(dv), q)))))
            return VecIter(dst.base, dst.idx + N)
        if name in ("lower_bound", "upper_bound") and len(rest) == 1:
            x = self.rv(st, rest[0])
            if x.sort() != vecof(vv).elem:
                x = real(x)
            k = z3.Const("kp!%d" % next(self.fresh_n), Int)
            r = self.fresh("bound", Int)
            e = lambda i: vget(vv, z3.simplify(lo.idx + i))
            lt = (lambda a: a < x) if name == "lower_bound" else (lambda a: a <= x)
            k2 = z3.Const("kp!%d" % next(self.fresh_n), Int)
            self.oblige(st, "%s: the range is partitioned" % name, z3.Implies(z3.And(0 <= k, k < k2, k2 < N, lt(e(k2))), lt(e(k))), kind="pre")
            Nn = If(N > 0, N, z3.IntVal(0))
            st.facts.append(z3.And(0 <= r, r <= Nn))
            st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), lt(e(k)))))
            st.facts.append(z3.ForAll([k], z3.Implies(z3.And(r <= k, k < N), Not(lt(e(k))))))
            return VecIter(lo.base, z3.simplify(lo.idx + r))
        if name in ("max_element", "min_element"):
            k = z3.Const("kp!%d" % next(self.fresh_n), Int)
            r = self.fresh("elt", Int)
            e = lambda i: vget(vv, z3.simplify(lo.idx + i))
            Nn = If(N > 0, N, z3.IntVal(0))
            st.facts.append(z3.If(N > 0, z3.And(0 <= r, r < N), r == 0))
            st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), e(k) <= e(r) if name == "max_element" else e(k) >= e(r))))
            return VecIter(lo.base, z3.simplify(lo.idx + r))
        raise Unsupported("algorithm %s" % name, n)

    # ------------------------------------------------------------ operators
    def std_operator(self, st, name, args, n):
        op = name.replace("operator", "", 1).strip()
        if op in ("=",):
            lv = self.ev(st, args[0])
            v = self.rv(st, args[1])
            if isinstance(v, tuple) and v and v[0] == "rowvec":
                v = v[1]
            cur = self.load(st, lv) if isinstance(lv, LV) else lv
            if isinstance(cur, (MetaVec,)) or not isinstance(lv, LV):
                raise Unsupported("assignment to an expression", n)
            if isinstance(lv, RowLV):
                mv = self.meta(v)
                lv.set(self, st, self.mat_val(st, mv))
                return lv
            if isinstance(v, PairVal) or isinstance(v, (VecIter, MapIter, Closure, Opaque)) and isinstance(lv, LocalLV):
                lv.set(self, st, v)
                return lv
            if z3.is_expr(cur) and is_vec(cur) and z3.is_expr(v) and v.sort() != cur.sort():
                raise Unsupported("vector assignment across element types", n)
            self.assign(st, lv, v, n)
            return lv
        if op in ("++", "--"):
            lv = self.ev(st, args[0])
            v = self.load(st, lv)
            if isinstance(v, VecIter):
                nv = VecIter(v.base, z3.simplify(v.idx + (1 if op == "++" else -1)))
                lv.set(self, st, nv)
                return v if len(args) > 1 else lv
            raise Unsupported("increment of %s" % type(v), n)
        if op == "*" and len(args) == 1:
            v = self.rv(st, args[0])
            if isinstance(v, VecIter):
                return self.iter_deref(v)
            if isinstance(v, MapIter):
                return PairVal(v.key, MapLV(v.base, v.key))
            if z3.is_expr(v) and v.sort() == Ref:
                return v
            if isinstance(v, PtrVal):
                return v.lv
            if isinstance(v, Opaque):
                return Opaque("deref")
            raise Unsupported("deref operator", n)
        if op == "->":
            v = self.rv(st, args[0])
            if isinstance(v, VecIter):
                x = self.iter_deref(v)
                xv = self.load(st, x)
                return xv if z3.is_expr(xv) and xv.sort() == Ref else PtrVal(x)
            if isinstance(v, MapIter):
                return v
            return v
        if op == "[]":
            b = self.ev(st, args[0])
            bv = self.load(st, b)
            i = self.rv(st, args[1])
            if is_vec(bv):
                return ElemLV(b if isinstance(b, LV) else bv, self.num(i))
            if isinstance(bv, MetaVec):
                return bv.f(self.num(i))
            if is_map(bv):
                return self.map_index(st, b, bv, MAP_BY_NAME[str(bv.sort())], i)
            if isinstance(bv, VecIter):
                return ElemLV(bv.base, bv.idx + i)
            if isinstance(bv, Opaque):
                return Opaque("elem")
            if z3.is_expr(bv) and bv.sort() == Str:
                return z3.Function("str_at", Str, Int, Int)(bv, self.num(i))
            raise Unsupported("operator[] on %s" % type(bv), n)
        if op == "()":
            b = self.ev(st, args[0])
            bv = self.load(st, b)
            if isinstance(bv, Closure) or (isinstance(bv, tuple) and bv and bv[0] == "func"):
                return self.call_closure(st, bv, [self.ev(st, a) for a in args[1:]])
            idx = [self.num(self.rv(st, a)) for a in args[1:]]
            if is_vec(bv):
                return ElemLV(b if isinstance(b, LV) else bv, idx[0])
            if isinstance(bv, MetaVec):
                return bv.f(idx[0])
            if is_mat(bv):
                return MatElemLV(b if isinstance(b, LV) else bv, idx[0], idx[1])
            if isinstance(bv, MetaMat):
                return bv.f(idx[0], idx[1])
            raise Unsupported("operator() on %s" % type(bv), n)
        if op in ("+=", "-=", "*=", "/="):
            lv = self.ev(st, args[0])
            x = self.load(st, lv)
            y = self.rv(st, args[1])
            if z3.is_expr(x) and x.sort() == Str:
                lv.set(self, st, self.fresh("str", Str))
                return lv
            if isinstance(x, Opaque):
                return lv
            if isinstance(x, VecIter):
                lv.set(self, st, VecIter(x.base, x.idx + y if op == "+=" else x.idx - y))
                return lv
            v = self.mat_val(st, self.eigen_bin(st, op[0], x, y, n))
            lv.set(self, st, v)
            return lv
        vals = [self.rv(st, a) for a in args]
        if len(vals) == 1:
            if op == "-":
                mv = self.meta(vals[0])
                if mv is not None:
                    return MetaVec(mv.n, lambda k: -mv.f(k), mv.elem)
                mm = self.metam(vals[0])
                if mm is not None:
                    return MetaMat(mm.r, mm.c, lambda i, j: -mm.f(i, j), mm.elem)
            if op == "!":
                return Not(self.to_bool(vals[0]))
            raise Unsupported("unary operator%s" % op, n)
        x, y = vals
        if op in ("==", "!="):
            if z3.is_expr(x) and z3.is_expr(y) and is_vec(x) and is_vec(y):
                k = z3.Const("ke!%d" % next(self.fresh_n), Int)
                e = z3.And(vlen(x) == vlen(y), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(x)), vget(x, k) == vget(y, k))))
                return e if op == "==" else z3.Not(e)
            if isinstance(x, MapIter) or isinstance(x, VecIter) or isinstance(x, Opaque) or isinstance(y, Opaque) or (z3.is_expr(x) and z3.is_expr(y)):
                if z3.is_expr(x) and x.sort() == Ref and z3.is_expr(y) and y.sort() == Ref:
                    r = z3.BoolVal(True) if x.eq(y) else x == y
                    return r if op == "==" else Not(r)
                return self.binop(st, op, x, y, n)
        if op in ("+",) and z3.is_expr(x) and x.sort() == Str:
            if z3.is_expr(y) and y.sort() == Str:
                return z3.Function("str_cat", Str, Str, Str)(x, y)
            return self.fresh("str", Str)
        if op == "<<" or op == ">>":
            return Opaque("stream")
        if op in ("<", ">", "<=", ">=") and z3.is_expr(x) and x.sort() == Str:
            return z3.Function("str" + op, Str, Str, Bool)(x, y)
        if isinstance(x, VecIter):
            return self.binop(st, op, x, y, n)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            ty = self.ntype(n)
            return self.fresh("opq", sort_of(ty)) if ty[0] in ("bool", "int", "real") else Opaque("op")
        return self.eigen_bin(st, op, x, y, n)

    def iter_deref(self, v):
        return ElemLV(v.base, v.idx) if isinstance(v.base, LV) else ElemLV(v.base, v.idx)

    def eigen_bin(self, st, op, x, y, n=None):
        def pick(op, a, b):
            if a.sort() != b.sort():
                a, b = real(a), real(b)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b}[op]()
        mx, my = self.meta(x), self.meta(y)
        if mx is not None and my is not None:
            return MetaVec(mx.n, lambda k: pick(op, mx.f(k), my.f(k)), mx.elem)
        if mx is not None and z3.is_expr(y):
            return MetaVec(mx.n, lambda k: pick(op, mx.f(k), y), mx.elem)
        if my is not None and z3.is_expr(x):
            return MetaVec(my.n, lambda k: pick(op, x, my.f(k)), my.elem)
        ax, ay = self.metam(x), self.metam(y)
        if ax is not None and ay is not None:
            return MetaMat(ax.r, ax.c, lambda i, j: pick(op, ax.f(i, j), ay.f(i, j)), ax.elem)
        if ax is not None and z3.is_expr(y):
            return MetaMat(ax.r, ax.c, lambda i, j: pick(op, ax.f(i, j), y), ax.elem)
        if ay is not None and z3.is_expr(x):
            return MetaMat(ay.r, ay.c, lambda i, j: pick(op, x, ay.f(i, j)), ay.elem)
        raise Unsupported("operator%s on %s, %s" % (op, type(x), type(y)), n)


for _k, _v in list(Model.__dict__.items()):
    if not _k.startswith("__"):
        setattr(FullEngine, _k, _v)
