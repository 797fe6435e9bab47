"""Expression evaluation."""
import z3
from fractions import Fraction
from core import *
from core import And, Or, Not, If
import engine
from engine import *
import frontend


def rat(s):
    s = s.strip().rstrip("fFlL")
    f = Fraction(s)
    return z3.RealVal(str(f.numerator)) / f.denominator if f.denominator != 1 else z3.RealVal(str(f.numerator))


def ratval(s, single=False):
    """a literal as the shortest decimal that denotes the same machine number (0.1 is one tenth)."""
    import struct
    x = float(s)
    if single:
        y = struct.unpack("f", struct.pack("f", x))[0]
        for d in range(1, 10):
            t = "%.*g" % (d, y)
            if struct.unpack("f", struct.pack("f", float(t)))[0] == y:
                break
    else:
        t = repr(x)
    f = Fraction(t)
    return z3.Q(f.numerator, f.denominator)


ITER_TYPES = ("__normal_iterator",)


class FullEngine(Engine):
    # ------------------------------------------------------------ dispatch
    def ev(self, st, n):
        k = n.get("kind")
        m = getattr(self, "e_" + str(k), None)
        if m is None:
            raise Unsupported("expression kind %s" % k, n)
        return m(st, n)

    def _pass(self, st, n):
        return self.ev(st, n["inner"][0])

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = _pass
    e_SubstNonTypeTemplateParmExpr = _pass
    e_CXXRewrittenBinaryOperator = _pass

    def e_ConstantExpr(self, st, n):
        return self.ev(st, n["inner"][0])

    def e_CXXDefaultArgExpr(self, st, n):
        if n.get("inner"):
            return self.ev(st, n["inner"][0])
        return Opaque("defaultarg")

    def e_CXXDefaultInitExpr(self, st, n):
        if n.get("inner"):
            return self.ev(st, n["inner"][0])
        raise Unsupported("default init", n)

    def e_IntegerLiteral(self, st, n):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, st, n):
        return z3.IntVal(int(n["value"]))

    def e_FloatingLiteral(self, st, n):
        return ratval(n["value"], n.get("type", {}).get("qualType") == "float")

    def e_CXXBoolLiteralExpr(self, st, n):
        return z3.BoolVal(n["value"] is True or n["value"] == "true")

    def e_StringLiteral(self, st, n):
        import json as _j
        v = n["value"]
        try:
            v = _j.loads(v)
        except Exception:
            v = v.strip('"')
        return strlit(v)

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return null

    def e_GNUNullExpr(self, st, n):
        return null

    def e_ImplicitValueInitExpr(self, st, n):
        return self.zero(self.ntype(n))

    def e_CXXScalarValueInitExpr(self, st, n):
        return self.zero(self.ntype(n))

    def e_CXXThisExpr(self, st, n):
        return self.this

    def e_CXXThrowExpr(self, st, n):
        self.sink.append(Outcome("throw", st.fork(), n["inner"][0]["type"]["qualType"] if n.get("inner") else "rethrow"))
        st.conds.append(z3.BoolVal(False))
        return Opaque("throw")

    # statement form is in Engine.s_CXXThrowExpr

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return self.fresh("sizeof", Int)

    def e_CXXNoexceptExpr(self, st, n):
        return z3.BoolVal(True)

    # ------------------------------------------------------------ casts
    def cast(self, st, n):
        ck = n.get("castKind")
        e = n["inner"][0]
        if ck == "LValueToRValue":
            return self.load(st, self.ev(st, e))
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ArrayToPointerDecay", "FunctionToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "FloatingCast", "BitCast", "LValueBitCast", "BuiltinFnToFnPtr"):
            v = self.ev(st, e)
            ty = self.ntype(n)
            if ck in ("NoOp",) and z3.is_expr(v) and ty[0] in ("real", "int", "bool"):
                return self.coerce(v, ty)
            return v
        if ck == "IntegralCast":
            v = self.rv(st, e)
            if isinstance(v, Opaque):
                return v
            return self.num(v)
        if ck == "IntegralToFloating":
            v = self.num(self.rv(st, e))
            return z3.ToReal(v) if v.sort() == Int else v
        if ck == "FloatingToIntegral":
            return self.trunc(self.rv(st, e))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.to_bool(self.rv(st, e))
        if ck == "NullToPointer":
            ty = self.ntype(n)
            return nullloc if ty[0] == "ptr" else null
        if ck == "ToVoid":
            if self.skip(e).get("kind") == "IntegerLiteral":
                return Opaque("void")
            self.ev(st, e)
            return Opaque("void")
        raise Unsupported("cast %s" % ck, n)

    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = cast

    def e_CXXFunctionalCastExpr(self, st, n):
        if n.get("castKind") in ("ConstructorConversion", "NoOp"):
            return self.ev(st, n["inner"][0])
        return self.cast(st, n)

    def e_CXXDynamicCastExpr(self, st, n):
        v = self.rv(st, n["inner"][0])
        ty = self.ntype(n)
        if ty[0] == "ref":
            return If(And([v != null, self.type_is(v, ty[1])]), v, null)
        return v

    # ------------------------------------------------------------ names
    def e_DeclRefExpr(self, st, n):
        rd = n["referencedDecl"]
        did = rd["id"]
        k = rd.get("kind")
        if k == "EnumConstantDecl":
            if did in self.P.enum_consts:
                return z3.IntVal(self.P.enum_consts[did][1])
            return self.fresh("enum", Int)
        if k == "BindingDecl" or k in ("VarDecl", "ParmVarDecl"):
            key = self.lookup(st, did)
            if key is not None:
                v = st.locals[key]
                if isinstance(v, LV):
                    return v
                if z3.is_expr(v) or isinstance(v, (VecIter, PtrVal, MetaVec, Opaque, MetaMat)):
                    ty = self.ntype(n)
                    if ty[0] == "obj" and z3.is_expr(v) and v.sort() == Ref:
                        return v
                    return LocalLV(key)
                return v
            if did in self.P.globals:
                return self.global_var(st, self.P.globals[did], rd)
            nm = rd.get("name")
            raise Unsupported("unknown variable %s" % nm, n)
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return ("func", did, rd.get("name"))
        if k == "CXXConstructorDecl":
            return ("func", did, rd.get("name"))
        raise Unsupported("reference to %s" % k, n)

    def global_var(self, st, g, rd):
        q = g["type"]["qualType"]
        nm = g.get("name")
        init = [c for c in g.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
        if nm in ("NAN_D", "NAN_F"):
            return NAN
        if g.get("constexpr") or "const" in q:
            if init:
                v = self.rv(st, init[-1])
                ty = self.ntype(g)
                return self.coerce(v, ty) if z3.is_expr(v) else v
        raise Unsupported("global variable %s" % nm)

    def e_MemberExpr(self, st, n):
        md = n.get("referencedMemberDecl")
        base = n["inner"][0]
        if md in self.P.field_by_id:
            cls, name, t = self.P.field_by_id[md]
            key = cls + "." + name
            b = self.rv(st, base)
            if isinstance(b, PtrVal):
                b = self.load(st, b.lv)
            if not z3.is_expr(b) or b.sort() != Ref:
                raise Unsupported("field of a non-object", n)
            ty = self.field_type(key)
            if ty[0] == "obj":
                return self.sub(key, b)
            return FieldLV(key, b, ty)
        if md in self.P.by_id:
            return ("method", self.P.by_id[md], base, n.get("isArrow"))
        nm = n.get("name")
        if nm in ("first", "second"):
            b = self.ev(st, base)
            b = self.load(st, b) if not isinstance(b, (MapIter, PairVal)) else b
            if isinstance(b, PairVal):
                return b.a if nm == "first" else b.b
            if isinstance(b, MapIter):
                if nm == "first":
                    return b.key
                return MapLV(b.base, b.key)
            raise Unsupported("pair member", n)
        if md in self.P.globals or md in self.P.enum_consts:
            if md in self.P.enum_consts:
                return z3.IntVal(self.P.enum_consts[md][1])
            return self.global_var(st, self.P.globals[md], None)
        raise Unsupported("member %s" % nm, n)

    # ------------------------------------------------------------ operators
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        e = n["inner"][0]
        if op in ("++", "--"):
            lv = self.ev(st, e)
            v = self.load(st, lv)
            d = 1 if op == "++" else -1
            if isinstance(v, VecIter):
                nv = VecIter(v.base, v.idx + d)
            elif z3.is_expr(v) and v.sort() == Loc:
                raise Unsupported("pointer arithmetic", n)
            else:
                nv = z3.simplify(v + d)
            lv.set(self, st, nv)
            return v if n.get("isPostfix") else lv
        if op == "&":
            se = self.skip(e)
            if se.get("kind") == "DeclRefExpr" and se["referencedDecl"].get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                return self.ev(st, se)
            lv = self.ev(st, e)
            if isinstance(lv, LV):
                cur = None
                try:
                    a = self.addr(lv)
                except Exception:
                    a = None
                if isinstance(lv, (ElemLV, FieldLV, LocalLV, DerefLV, TempLV, IteLV)):
                    ty = self.ntype(e)
                    if ty[0] == "obj":
                        return self.load(st, lv)
                return a if a is not None else PtrVal(lv)
            return lv   # address of an object: its Ref
        if op == "*":
            p = self.rv(st, e)
            if isinstance(p, VecIter):
                return ElemLV(p.base, p.idx)
            if z3.is_expr(p) and p.sort() == Ref:
                return p
            return self.deref(p, self.ntype(n))
        v = self.rv(st, e)
        if op == "!":
            return Not(self.to_bool(v))
        if op == "-":
            return -self.num(v)
        if op == "+":
            return self.num(v)
        raise Unsupported("unary %s" % op, n)

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(st, b)
            lv = self.ev(st, a)
            self.assign(st, lv, v, n)
            return lv
        if op in ("&&", "||"):
            x = z3.simplify(self.to_bool(self.rv(st, a)))
            if op == "&&" and z3.is_false(x):
                return z3.BoolVal(False)
            if op == "||" and z3.is_true(x):
                return z3.BoolVal(True)
            if z3.is_true(x) or z3.is_false(x):
                return self.to_bool(self.rv(st, b))
            s2 = st.fork(x if op == "&&" else Not(x))
            y = self.to_bool(self.rv(s2, b))
            s1 = st.fork(Not(x) if op == "&&" else x)
            if self.dead(s2):
                st.become(s1)
                return z3.BoolVal(op == "||")
            changed = any(k not in st.heap or not v.eq(st.heap[k]) for k, v in s2.heap.items() if k in st.heap) or len(s2.facts) > len(st.facts) or len(s2.conds) > len(st.conds) + 1
            if changed:
                s, v = self.merge([(s2, y), (s1, z3.BoolVal(op == "||"))])
                st.become(s)
                return v
            return And([x, y]) if op == "&&" else Or([x, y])
        if op == ",":
            self.ev(st, a)
            return self.ev(st, b)
        x, y = self.rv(st, a), self.rv(st, b)
        return self.binop(st, op, x, y, n)

    def assign(self, st, lv, v, n=None):
        if not isinstance(lv, LV):
            if z3.is_expr(lv) and lv.sort() == Ref and z3.is_expr(v) and v.sort() == Ref:
                # object assignment
                ty = self.ntype(n["inner"][0]) if n is not None else None
                if ty and ty[0] == "obj":
                    self.copy_obj(st, ty[1], lv, v)
                    return
            raise Unsupported("assignment target", n)
        try:
            cur = lv.get(self, st)
        except KeyError:
            cur = None
        if isinstance(v, MetaVec) or isinstance(v, MetaMat):
            v = self.mat_val(st, v)
        if isinstance(lv, (FieldLV,)) and lv.ty is not None and z3.is_expr(v):
            v = self.coerce(v, lv.ty)
        elif z3.is_expr(cur) and z3.is_expr(v) and cur.sort() != v.sort():
            tgt = {Real: ("real",), Int: ("int",), Bool: ("bool",), Loc: ("ptr", ("real",))}.get(cur.sort())
            if tgt is None:
                raise Unsupported("assignment %s := %s" % (cur.sort(), v.sort()), n)
            v = self.coerce(v, tgt)
        if isinstance(v, Opaque) and z3.is_expr(cur):
            v = self.fresh("opq", cur.sort())
        if isinstance(lv, FieldLV) and not z3.is_expr(v):
            if isinstance(v, PtrVal):
                a = self.addr(v.lv)
                if a is None:
                    raise Unsupported("address of a local escapes into the heap", n)
                v = a
            elif isinstance(v, Opaque):
                v = self.fresh("opq", sort_of(lv.ty))
            else:
                raise Unsupported("storing %s in the heap" % type(v), n)
        lv.set(self, st, v)

    def binop(self, st, op, x, y, n=None):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.fresh("opq", Bool)
            return Opaque("op")
        if isinstance(x, VecIter) and isinstance(y, VecIter):
            a, b = x.idx, y.idx
            return {"==": lambda: a == b, "!=": lambda: a != b, "-": lambda: a - b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
        if isinstance(x, VecIter):
            return VecIter(x.base, x.idx + y if op == "+" else x.idx - y)
        if isinstance(x, MapIter) and isinstance(y, MapIter):
            it = x if not x.end else y
            other = y if it is x else x
            if not other.end:
                raise Unsupported("map iterator comparison", n)
            if it.end:
                same = z3.BoolVal(True)
            else:
                m = it.base.get(self, st) if isinstance(it.base, LV) else it.base
                M = MAP_BY_NAME[str(m.sort())]
                same = Not(z3.Select(M.has(m), it.key))
            return same if op == "==" else Not(same)
        if isinstance(x, (MetaVec, MetaMat)) or isinstance(y, (MetaVec, MetaMat)) or is_vec(x) or is_vec(y) or is_mat(x) or is_mat(y):
            if op in ("==", "!=") and is_vec(x) and is_vec(y):
                return x == y if op == "==" else x != y
            return self.eigen_bin(st, op, x, y, n)
        if isinstance(x, PtrVal) or isinstance(y, PtrVal):
            o = y if isinstance(x, PtrVal) else x
            if z3.is_expr(o) and (o.eq(null) or o.eq(nullloc)):
                return z3.BoolVal(op == "!=")
            raise Unsupported("pointer comparison", n)
        if not (z3.is_expr(x) and z3.is_expr(y)):
            raise Unsupported("operands of %s" % op, n)
        if op in ("==", "!="):
            if x.sort() != y.sort():
                if z3.is_expr(x) and (x.eq(null) or y.eq(null)) and Loc in (x.sort(), y.sort()):
                    x = nullloc if x.eq(null) else x
                    y = nullloc if y.eq(null) else y
                elif x.eq(null) or y.eq(null):
                    # opaque handle against nullptr
                    return self.fresh("opq", Bool)
                else:
                    x, y = self.unify(self.num(x), self.num(y)) if self.num(x).sort() != self.num(y).sort() else (self.num(x), self.num(y))
            if x.eq(y):
                r = z3.BoolVal(True)
            elif x.sort() == Str and str(x).startswith("str!") and str(y).startswith("str!"):
                r = z3.BoolVal(str(x) == str(y))
            else:
                r = x == y
            return r if op == "==" else Not(r)
        if x.sort() == Loc or y.sort() == Loc or x.sort() == Ref or y.sort() == Ref:
            raise Unsupported("pointer arithmetic", n)
        x, y = self.num(x), self.num(y)
        if x.sort() != y.sort():
            x, y = self.unify(x, y)
        isint = x.sort() == Int
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if isint:
                return self.idiv(x, y)
            return x / y
        if op == "%":
            q = self.idiv(x, y)
            ys = z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() > 0:
                return If(x >= 0, x % ys, -((-x) % ys))
            return x - y * q
        if op == "<":
            return x < y
        if op == "<=":
            return x <= y
        if op == ">":
            return x > y
        if op == ">=":
            return x >= y
        if op in ("&", "|", "^", "<<", ">>"):
            return z3.Function("bit" + op, Int, Int, Int)(x, y)
        raise Unsupported("binary %s" % op, n)

    def idiv(self, x, y):
        ys = z3.simplify(y)
        if z3.is_int_value(ys) and ys.as_long() > 0:
            return If(x >= 0, x / ys, -((-x) / ys))
        ab = z3.If(y >= 0, y, -y)
        ax = z3.If(x >= 0, x, -x)
        return If((x >= 0) == (y > 0), ax / ab, -(ax / ab))

    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]
        y = self.rv(st, n["inner"][1])
        lv = self.ev(st, n["inner"][0])
        x = self.load(st, lv)
        tx = x.sort() if z3.is_expr(x) else None
        v = self.binop(st, op, x, y, n)
        if tx is not None and z3.is_expr(v) and v.sort() != tx:
            v = self.coerce(v, {Real: ("real",), Int: ("int",), Bool: ("bool",)}[tx])
        lv.set(self, st, v)
        return lv

    def e_ConditionalOperator(self, st, n):
        c = z3.simplify(self.to_bool(self.rv(st, n["inner"][0])))
        if z3.is_true(c):
            return self.ev(st, n["inner"][1])
        if z3.is_false(c):
            return self.ev(st, n["inner"][2])
        s1, s2 = st.fork(c), st.fork(Not(c))
        a = self.ev(s1, n["inner"][1])
        b = self.ev(s2, n["inner"][2])
        if self.dead(s1):
            st.become(s2)
            return b
        if self.dead(s2):
            st.become(s1)
            return a
        if n.get("valueCategory") != "lvalue" or not (isinstance(a, LV) and isinstance(b, LV)):
            a, b = self.load(s1, a), self.load(s2, b)
            ty = self.ntype(n)
            if z3.is_expr(a):
                a = self.coerce(a, ty)
            if z3.is_expr(b):
                b = self.coerce(b, ty)
        s, v = self.merge([(s1, a), (s2, b)])
        st.become(s)
        return v

    def e_ArraySubscriptExpr(self, st, n):
        b = self.ev(st, n["inner"][0])
        i = self.rv(st, n["inner"][1])
        bl = self.load(st, b)
        if is_vec(bl):
            return ElemLV(b if isinstance(b, LV) else bl, i)
        if z3.is_expr(bl) and bl.sort() == Loc:
            d = self.deref(bl)
            if isinstance(d, ElemLV):
                return ElemLV(d.base, z3.simplify(d.idx + i))
            raise Unsupported("array pointer", n)
        if isinstance(bl, PtrVal) and isinstance(bl.lv, ElemLV):
            return ElemLV(bl.lv.base, z3.simplify(bl.lv.idx + i))
        raise Unsupported("subscript", n)

    # ------------------------------------------------------------ construction
    def e_InitListExpr(self, st, n):
        ty = self.ntype(n)
        inner = n.get("inner", [])
        if ty[0] == "expected" and not inner:
            return z3.BoolVal(True)
        if ty[0] == "vec":
            es = ty[1]
            items = [self.coerce(self.val_of(st, c, es), es) for c in inner]
            if any(not z3.is_expr(x) for x in items):
                raise Unsupported("initialiser list of non-terms", n)
            return vlit(sort_of(es), items)
        if ty[0] == "obj":
            r = self.alloc(st, ty[1])
            self.construct(st, ty[1], r, [self.ev(st, c) for c in inner])
            return r
        if ty[0] == "pair":
            return PairVal(self.rv(st, inner[0]), self.rv(st, inner[1]))
        if len(inner) == 1:
            return self.rv(st, inner[0])
        if not inner:
            return self.zero(ty)
        raise Unsupported("initialiser list", n)

    def val_of(self, st, c, ty):
        if ty[0] == "obj":
            return self.obj_init(st, ty[1], c)
        v = self.rv(st, c)
        if isinstance(v, (MetaVec, MetaMat)):
            v = self.mat_val(st, v)
        return v

    def e_CXXStdInitializerListExpr(self, st, n):
        return self.ev(st, n["inner"][0])

    def e_CXXConstructExpr(self, st, n):
        ty = self.ntype(n)
        inner = n.get("inner", [])
        k = ty[0]
        if k == "expected":
            return self.to_bool(self.rv(st, inner[0])) if inner else z3.BoolVal(True)
        if k == "unexpected":
            for a in inner:
                if self.ntype(a)[0] == "unexpected":
                    return self.rv(st, a)
                try:
                    self.ev(st, a)
                except Unsupported:
                    pass
            return z3.BoolVal(False)
        if k == "obj":
            if len(inner) == 1 and self.ntype(inner[0])[0] == "obj":
                src = self.rv(st, inner[0])
                if self.skip(inner[0]).get("valueCategory") == "prvalue":
                    return src
                return self.copy_new(st, ty[1], src)
            if "Exception" in ty[1] or "Error" in ty[1]:
                return Opaque("exc")
            r = self.alloc(st, ty[1])
            self.construct(st, ty[1], r, [self.ev(st, a) for a in inner])
            return r
        if k == "vec":
            es = ty[1]
            V = vec(sort_of(es))
            args = [a for a in inner if a.get("kind") != "CXXDefaultArgExpr"]
            if not args:
                return vlit(sort_of(es), [])
            v0 = self.ev(st, args[0])
            a0 = self.load(st, v0)
            if isinstance(a0, (MetaVec,)):
                return self.mat_val(st, a0)
            if is_vec(a0):
                return a0
            if isinstance(a0, VecIter):
                b = self.rv(st, args[1])
                q = z3.Const("vr!%d" % next(self.fresh_n), Int)
                src = self.load(st, a0.base)
                return V.mk(z3.simplify(b.idx - a0.idx), z3.Lambda([q], vget(src, a0.idx + q)))
            if z3.is_expr(a0) and a0.sort() in (Int, Bool):
                fillv = self.coerce(self.rv(st, args[1]), es) if len(args) > 1 else self.zero(es)
                if "Eigen" in str(n.get("type", {}).get("desugaredQualType") or n["type"]["qualType"]):
                    return V.mk(self.num(a0), self.fresh("uninit", z3.ArraySort(Int, V.elem)))
                return V.mk(self.num(a0), z3.K(Int, fillv))
            raise Unsupported("vector construction", n)
        if k == "mat":
            args = inner
            if not args:
                return self.default(ty)
            a0 = self.rv(st, args[0])
            if isinstance(a0, MetaMat):
                return self.mat_val(st, a0)
            if is_mat(a0):
                return a0
            raise Unsupported("matrix construction", n)
        if k == "str":
            if not inner:
                return strlit("")
            if len(inner) >= 1:
                a0 = self.rv(st, inner[0])
                if z3.is_expr(a0) and a0.sort() == Str:
                    return a0
            return self.fresh("str", Str)
        if k == "ref":
            if not inner:
                return null
            return self.rv(st, inner[0])
        if k == "map":
            if not inner:
                return self.default(ty)
            v = self.rv(st, inner[0])
            if is_map(v):
                return v
            raise Unsupported("map construction", n)
        if k == "pair":
            if len(inner) == 2:
                return PairVal(self.rv(st, inner[0]), self.rv(st, inner[1]))
            return self.rv(st, inner[0])
        if k == "opaque":
            if len(inner) == 1:
                v = self.ev(st, inner[0])
                if isinstance(v, (MapIter, VecIter, Closure, PairVal, MetaVec, MetaMat, Opaque)) or isinstance(v, LV):
                    return self.load(st, v) if isinstance(v, LV) else v
                return v if not z3.is_expr(v) else Opaque(ty[1])
            for a in inner:
                try:
                    self.ev(st, a)
                except Unsupported:
                    pass
            return Opaque(ty[1])
        if len(inner) == 1:
            return self.rv(st, inner[0])
        if not inner:
            return self.zero(ty)
        raise Unsupported("construct %s" % (ty,), n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_LambdaExpr(self, st, n):
        rec = n["inner"][0]
        call = None
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                call = c
            if c.get("kind") == "FunctionTemplateDecl":
                for d in c.get("inner", []):
                    if d.get("kind") == "CXXMethodDecl":
                        call = d
        return Closure(n, self.frame, (self.this, self.this_cls), call)

    def call_closure(self, st, clo, args):
        if isinstance(clo, tuple) and clo[0] == "func":
            f = self.P.by_id.get(clo[1])
            if f is None:
                raise Unsupported("external function pointer %s" % clo[2])
            return self.load(st, self.call(st, f, None, args))
        if not isinstance(clo, Closure):
            raise Unsupported("call of a non-closure")
        saved = (self.frame, self.this, self.this_cls)
        fr = next(self.frames)
        self.frame_parent[fr] = clo.frame
        self.frame = fr
        self.this, self.this_cls = clo.this
        self.depth += 1
        try:
            params = [c for c in clo.call.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            body = [c for c in clo.call.get("inner", []) if c.get("kind") == "CompoundStmt"]
            body = body[-1] if body else [c for c in clo.node["inner"] if c.get("kind") == "CompoundStmt"][-1]
            for p, a in zip(params, args):
                isref = p["type"]["qualType"].strip().endswith("&")
                st.locals[(fr, p["id"])] = a if (isref and isinstance(a, LV)) else self.load(st, a)
            outs = self.exec(st, body)
            items = []
            for o in outs:
                if o.kind in ("normal", "return"):
                    items.append((o.st, self.load(o.st, o.val) if o.val is not None else None))
                else:
                    raise Unsupported("stray exit in lambda")
            if not items:
                st.conds.append(z3.BoolVal(False))
                return self.fresh("dead", Bool)
            s, v = self.merge(items)
            st.become(s)
            return v
        finally:
            self.depth -= 1
            self.frame, self.this, self.this_cls = saved

    def e_CXXNewExpr(self, st, n):
        ty = self.ntype(n)
        c = [x for x in n.get("inner", []) if x.get("kind") == "CXXConstructExpr"]
        r = self.alloc(st, ty[1])
        self.construct(st, ty[1], r, [self.ev(st, a) for a in (c[0].get("inner", []) if c else [])])
        return r

    def e_CXXDeleteExpr(self, st, n):
        self.rv(st, n["inner"][0])
        return Opaque("void")

    # ------------------------------------------------------------ calls
    def e_CXXMemberCallExpr(self, st, n):
        callee = self.skip(n["inner"][0])
        args = n["inner"][1:]
        if callee.get("kind") != "MemberExpr":
            raise Unsupported("member call through %s" % callee.get("kind"), n)
        md = callee.get("referencedMemberDecl")
        base = callee["inner"][0]
        if md in self.P.by_id:
            f = self.P.by_id[md]
            bt = base.get("type", {})
            static = frontend.norm_cls(bt.get("desugaredQualType") or bt.get("qualType"))
            if static not in self.P.classes:
                static = f.cls
            # explicit Base::f() call is non-virtual
            nonv = bool(callee.get("hasExplicitTemplateArgs")) and False
            this = self.rv(st, base)
            if isinstance(this, PtrVal):
                this = self.load(st, this.lv)
            sb = self.skip_casts(base)
            if sb.get("kind") == "CXXThisExpr":
                # Base::f() on this: clang spells the class in the qualifier; static class then differs from this
                q = callee.get("qualifier") or None
                if self.explicit_base(callee, f, static):
                    nonv = True
            a = [self.ev(st, x) for x in args if x.get("kind") != "CXXDefaultArgExpr"]
            if not nonv and sb.get("kind") == "CXXThisExpr" and self.this_cls and self.this_cls in self.P.classes and (
                    self.this_cls == static or static in self.P.all_bases(self.this_cls)):
                static = self.this_cls
            return self.call(st, f, this, a, static, nonv, n)
        return self.std_member(st, callee["name"], base, args, n, callee)

    def skip_casts(self, n):
        n = self.skip(n)
        while n.get("kind") in ("ImplicitCastExpr",):
            n = self.skip(n["inner"][0])
        return n

    def explicit_base(self, callee, f, static):
        """`Base::method()` inside a method of a derived class: source text between begin and the name contains '::'."""
        r = callee.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        bo, eo = b.get("offset"), e.get("offset")
        if bo is None or eo is None:
            return False
        # an implicit `this->` has begin == end at the name; a qualified call begins at the qualifier
        implicit = callee["inner"][0]
        while implicit.get("kind") == "ImplicitCastExpr":
            implicit = implicit["inner"][0]
        return implicit.get("implicit", False) and eo > bo

    def e_CallExpr(self, st, n):
        callee = n["inner"][0]
        args = n["inner"][1:]
        c = self.skip_casts(callee)
        if c.get("kind") == "DeclRefExpr":
            rd = c["referencedDecl"]
            if rd["id"] in self.P.by_id:
                f = self.P.by_id[rd["id"]]
                if f.name in IGNORE_FUNCS:
                    return Opaque("void")
                a = [self.ev(st, x) for x in args if x.get("kind") != "CXXDefaultArgExpr"]
                if f.body is None and self.find_contract(f) is None:
                    return self.std_call(st, rd.get("name"), args, n)
                return self.call(st, f, None, a, None, True, n)
            return self.std_call(st, rd.get("name"), args, n, c)
        if c.get("kind") == "MemberExpr":
            md = c.get("referencedMemberDecl")
            if md in self.P.by_id:   # static member
                f = self.P.by_id[md]
                return self.call(st, f, None, [self.ev(st, x) for x in args if x.get("kind") != "CXXDefaultArgExpr"], None, True, n)
        if c.get("kind") == "LambdaExpr":
            return self.call_closure(st, self.ev(st, c), [self.ev(st, x) for x in args])
        if c.get("kind") == "UnresolvedLookupExpr":
            raise Unsupported("unresolved call", n)
        raise Unsupported("call through %s" % c.get("kind"), n)

    def e_CXXOperatorCallExpr(self, st, n):
        c = self.skip_casts(n["inner"][0])
        rd = c.get("referencedDecl", {})
        name = rd.get("name") or c.get("name")
        args = n["inner"][1:]
        if rd.get("id") in self.P.by_id:
            f = self.P.by_id[rd["id"]]
            if f.body is not None:
                a = [self.ev(st, x) for x in args]
                if f.cls:
                    return self.call(st, f, self.load(st, a[0]), a[1:], f.cls, True, n)
                return self.call(st, f, None, a, None, True, n)
        return self.std_operator(st, name, args, n)


import stdlib_model  # noqa: E402,F401  (adds std_member / std_call / std_operator / eigen_bin)
