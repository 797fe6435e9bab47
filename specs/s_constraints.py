"""Contracts of the limiting step of a storage (C02)."""
from common import *
from s_flux import *
from s_splitter import amount_read, forcing, SpecCtxPre

P2 = ("C02",)
PC_ = "Process._container"
oP = z3.Function("process_of_rate", Loc, Int)      # skolem functions of "rates are not shared"
oO = z3.Function("output_of_rate", Loc, Int)
oI = z3.Function("input_of_rate", Loc, Int)


class Rates:
    """the rates a storage limits, read in one state."""

    def __init__(self, S):
        O = SpecCtxPre(S)
        self.S, self.O = S, O
        self.brick = O.F(WC + "_parent", S.this)
        self.ps = O.F("Brick._processes", self.brick)
        self.nP = O.len(self.ps)
        self.this = S.this

    def proc(self, i):
        return self.O.at(self.ps, i)

    def mine(self, i):
        return self.O.F(PC_, self.proc(i)) == self.this

    def outs(self, i):
        return self.O.F("Process._outputs", self.proc(i))

    def nO(self, i):
        return self.O.len(self.outs(i))

    def ptr(self, i, j):
        return self.O.F("Flux._changeRate", self.O.at(self.outs(i), j))

    def is_out(self, loc, k=None, m=None):
        """loc is a linked rate of this storage (of the first k processes / first m outputs of process k)."""
        n = self.nP if k is None else k
        full = And([oP(loc) >= 0, oP(loc) < n, oO(loc) >= 0, oO(loc) < self.nO(oP(loc)), self.mine(oP(loc)), self.ptr(oP(loc), oO(loc)) == loc, loc != nullloc])
        if m is None:
            return full
        return Or([full, And([oP(loc) == k, oO(loc) >= 0, oO(loc) < m, self.mine(k), self.ptr(k, oO(loc)) == loc, loc != nullloc])])

    def req(self):
        S = self.S
        return [("brick", self.brick != null),
                ("processes", S.forall(0, self.nP, lambda i: self.proc(i) != null)),
                ("outputs", S.forall(0, self.nP, lambda i: S.forall(0, self.nO(i), lambda j: self.O.at(self.outs(i), j) != null))),
                ("rates are not shared", S.forall(0, self.nP, lambda i: S.forall(0, self.nO(i), lambda j: imp(And([self.mine(i), self.ptr(i, j) != nullloc]), And([oP(self.ptr(i, j)) == i, oO(self.ptr(i, j)) == j])))))]


def allloc(f):
    x = z3.FreshConst(Loc, "loc")
    return z3.ForAll([x], f(x))


def H(S, loc):
    return S.deref(loc)


def zero_inv1(L, S, k):
    R = Rates(S)
    return [("rates so far", allloc(lambda x: L.Hh("*Real", k)[x] == If(R.is_out(x, k), R0, S.oldH("*Real")[x])))]


def zero_inv2(L, S, j):
    R = Rates(S)
    i = L.outer
    return [("rates so far", allloc(lambda x: L.Hh("*Real", j)[x] == If(R.is_out(x, i, j), R0, S.oldH("*Real")[x])))]


contract("WaterContainer::SetOutgoingRatesToZero", props=P2, modifies=[("*Real", None)],
         requires=lambda S: Rates(S).req(),
         loops={1: zero_inv1, 2: zero_inv2},
         ensures=lambda S: [("every outgoing rate is zero, no other changes", allloc(lambda x: S.Hh("*Real")[x] == If(Rates(S).is_out(x), R0, S.oldH("*Real")[x])))])

# ---- the limiting step ------------------------------------------------------------
SLOT = z3.Function("rates_before", Ref, Int, Int, Int)     # linked rates of the storage before output j of process i
ISLOT = z3.Function("inputs_before", Ref, Int, Int)        # rates among the first inputs
H0R = "*Real"


class Limits(Rates):
    """the same, with the order in which the rates are collected."""

    def __init__(self, S, dt=None, credited=None):
        super().__init__(S)
        O, t = self.O, S.this
        self.dt, self.credited = S.args[0] if dt is None else dt, S.args[1] if credited is None else credited
        self.old = S.oldH(H0R)
        self.ins = O.F(WC + "_inputs")
        self.nI = O.len(self.ins)
        self.cap = O.F(WC + "_capacity", t)

    # outgoing rates
    def linked(self, i, j):
        return self.ptr(i, j) != nullloc

    def at(self, i, j):
        return SLOT(self.this, i, j)

    def req_value(self, loc):
        """the rate as requested (a negative one counts as nothing)."""
        return maxz(self.old[loc], R0)

    def out_of(self, i, m=None):
        return If(self.mine(i), self.S.sum(self.nO(i) if m is None else m, lambda j: If(self.linked(i, j), self.req_value(self.ptr(i, j)), R0)), R0)

    def outputs(self, k=None):
        return self.S.sum(self.nP if k is None else k, lambda i: self.out_of(i))

    def slots(self):
        """definition of the numbering."""
        t, i, j = self.this, z3.Int("sl!i"), z3.Int("sl!j")
        return [SLOT(t, 0, 0) == 0,
                z3.ForAll([i], imp(And([i >= 0, i < self.nP]), And([SLOT(t, i + 1, 0) == If(self.mine(i), SLOT(t, i, self.nO(i)), SLOT(t, i, 0)), SLOT(t, i, 0) >= 0])), patterns=[z3.MultiPattern(SLOT(t, i, 0), self.proc(i))]),
                z3.ForAll([i, j], imp(And([i >= 0, i < self.nP, j >= 0, j < self.nO(i)]), And([SLOT(t, i, j + 1) == SLOT(t, i, j) + If(self.linked(i, j), z3.IntVal(1), z3.IntVal(0)), SLOT(t, i, j) >= 0])), patterns=[z3.MultiPattern(SLOT(t, i, j), self.O.at(self.outs(i), j))]),
                ISLOT(t, 0) == 0,
                z3.ForAll([i], imp(And([i >= 0, i < self.nI]), And([ISLOT(t, i + 1) == ISLOT(t, i) + If(self.is_rate(i), z3.IntVal(1), z3.IntVal(0)), ISLOT(t, i) >= 0])), patterns=[z3.MultiPattern(ISLOT(t, i), self.inp(i))])]

    # incoming
    def inp(self, q):
        return self.O.at(self.ins, q)

    def counted(self, q):
        """an input that is not already part of the content changes."""
        return And([Not(self.credited), Not(is_inst(self.O, self.inp(q)))])

    def amount_in(self, q):
        return And([self.counted(q), Or([self.O.isa(self.inp(q), "FluxForcing"), self.O.F("Flux._static", self.inp(q))])])

    def irate(self, q):
        return self.O.F("Flux._changeRate", self.inp(q))

    def is_rate(self, q):
        return And([self.counted(q), Not(self.amount_in(q)), self.irate(q) != nullloc])

    def weight(self, q):
        return minz(R1, self.O.F("Flux._fractionTotal", self.inp(q)))

    def inputs(self, k=None):
        return self.S.sum(self.nI if k is None else k, lambda q: If(self.is_rate(q), self.req_value(self.irate(q)) * self.weight(q), R0))

    def inputs_static(self, k=None):
        return self.S.sum(self.nI if k is None else k, lambda q: If(self.amount_in(q), amount_read(self.O, self.inp(q)), R0))

    def is_in(self, loc, k=None):
        q = oI(loc)
        return And([q >= 0, q < (self.nI if k is None else k), self.is_rate(q), self.irate(q) == loc])


def lim_req(S):
    R = Limits(S)
    return Rates(S).req() + [("inputs", S.forall(0, R.nI, lambda q: R.inp(q) != null)),
                             ("incoming rates are not shared", S.forall(0, R.nI, lambda q: imp(And([Not(R.amount_in(q)), R.irate(q) != nullloc]), And([oI(R.irate(q)) == q, Not(R.is_out(R.irate(q)))])))),
                             ("the capacity is not a rate", And([Not(R.is_out(R.cap)), Not(R.is_in(R.cap))])),
                             ("time step", R.dt > 0)]


def recorded(S, h):
    O, a0 = SpecCtxPre(S), S.oldH("Flux._amount")
    f = z3.FreshConst(Ref, "f")
    return z3.ForAll([f], Or([h[f] == a0[f], And([O.isa(f, "FluxForcing"), h[f] == forcing(O, O.F("FluxForcing._forcing", f))])]))


def vec_inv(vec, n, is_el, slot, old=None):
    q = z3.Int("vi!q")
    return [("rates collected", vlen(vec) == n), ("each is one of them", z3.ForAll([q], imp(And([q >= 0, q < vlen(vec)]), And([is_el(vget(vec, q)), slot(vget(vec, q)) == q])), patterns=[vget(vec, q)]))]


def out_slot(R):
    return lambda x: R.at(oP(x), oO(x))


def in_slot(R):
    return lambda x: ISLOT(R.this, oI(x))


def lim_out1(L, S, k):
    R = Limits(S)
    v = L.var("outgoingRates", k)
    i, j = z3.Ints("lo!i lo!j")
    return vec_inv(v, R.at(k, 0), lambda x: R.is_out(x, k), out_slot(R)) + [
        ("all of them", z3.ForAll([i, j], imp(And([i >= 0, i < k, R.mine(i), j >= 0, j < R.nO(i), R.linked(i, j)]), And([R.at(i, j) < vlen(v), vget(v, R.at(i, j)) == R.ptr(i, j)])), patterns=[R.at(i, j)])),
        ("requested rates", allloc(lambda x: L.Hh(H0R, k)[x] == If(R.is_out(x, k), R.req_value(x), R.old[x]))),
        ("total of the outgoing rates", L.var("outputs", k) == R.outputs(k))]


def lim_out2(L, S, m):
    R = Limits(S)
    k = L.outer
    v = L.var("outgoingRates", m)
    i, j = z3.Ints("lo!i lo!j")
    return vec_inv(v, R.at(k, m), lambda x: R.is_out(x, k, m), out_slot(R)) + [
        ("all of them", z3.ForAll([i, j], imp(And([i >= 0, Or([i < k, And([i == k, j < m])]), R.mine(i), j >= 0, j < R.nO(i), R.linked(i, j)]), And([R.at(i, j) < vlen(v), vget(v, R.at(i, j)) == R.ptr(i, j)])), patterns=[R.at(i, j)])),
        ("requested rates", allloc(lambda x: L.Hh(H0R, m)[x] == If(R.is_out(x, k, m), R.req_value(x), R.old[x]))),
        ("total of the outgoing rates", L.var("outputs", m) == R.outputs(k) + R.S.sum(m, lambda j: If(R.linked(k, j), R.req_value(R.ptr(k, j)), R0)))]


def lim_in(L, S, k):
    R = Limits(S)
    v = L.var("incomingRates", k)
    q = z3.Int("li!q")
    return vec_inv(v, ISLOT(R.this, k), lambda x: R.is_in(x, k), in_slot(R)) + [
        ("all of them", z3.ForAll([q], imp(And([q >= 0, q < k, R.is_rate(q)]), And([ISLOT(R.this, q) < vlen(v), vget(v, ISLOT(R.this, q)) == R.irate(q)])), patterns=[ISLOT(R.this, q)])),
        ("requested rates", allloc(lambda x: L.Hh(H0R, k)[x] == If(Or([R.is_out(x), R.is_in(x, k)]), R.req_value(x), R.old[x]))),
        ("total of the incoming rates", L.var("inputs", k) == R.inputs(k)), ("total of the incoming amounts", L.var("inputsStatic", k) == R.inputs_static(k)),
        ("a forcing flux only records what it read", recorded(S, L.Hh(S.key("Flux._amount"), k)))]


class Balance:
    """what the storage would hold, and how the rates are limited."""

    def __init__(self, R, local=None):
        O, t = R.O, R.this
        self.R = R
        self.i, self.o, st = (R.inputs(), R.outputs(), R.inputs_static()) if local is None else [local(n) for n in ("inputs", "outputs", "inputsStatic")]
        self.base = content_wc(O, t) + st
        self.change = self.i - self.o
        self.after = self.base + self.change * R.dt
        self.neg = And([Not(O.F(WC + "_allowNegativeContent", t)), self.change < 0, self.after < 0])
        self.diff = self.after / R.dt
        self.cap = O.param(WC + "_capacity", t)
        self.over = And([O.F(WC + "_capacity", t) != nullloc, self.after > self.cap])
        self.excess = (self.after - self.cap) / R.dt
        self.has_overflow = O.F(WC + "_overflow", t) != null
        self.ovp = O.F("Flux._changeRate", O.at(O.F("Process._outputs", O.F(WC + "_overflow", t)), 0))

    def out(self, x):
        r = self.R.req_value(x)
        o = self.o
        near = absz(self.diff + o) <= PREC
        return If(Or([Not(self.neg), r <= z3.Q(1, 2 ** 52)]), r, If(near, R0, r + self.diff * absz(r / o)))

    def inn(self, x):
        r = self.R.req_value(x)
        return If(Or([Not(self.over), self.has_overflow, r <= z3.Q(1, 2 ** 52)]), r, r - self.excess * absz(r / self.i))

    def extra(self, x):
        """what the overflow takes."""
        return If(And([self.over, self.has_overflow, x == self.ovp]), self.excess, R0)


def lim_cut_out(L, S, k):
    R = Limits(S)
    b = Balance(R, lambda n: L.var(n, k))
    h = L.Hh(H0R, k)
    return [("limited so far", allloc(lambda x: imp(And([R.is_out(x), out_slot(R)(x) < k]), h[x] == b.out(x)))),
            ("as requested so far", allloc(lambda x: imp(Or([R.is_in(x), And([R.is_out(x), out_slot(R)(x) >= k])]), h[x] == R.req_value(x)))),
            ("no other changes", allloc(lambda x: imp(Not(Or([R.is_out(x), R.is_in(x)])), h[x] == R.old[x])))]


def lim_cut_in(L, S, k):
    R = Limits(S)
    b = Balance(R, lambda n: L.var(n, k))
    h = L.Hh(H0R, k)
    return [("outgoing rates", allloc(lambda x: imp(R.is_out(x), h[x] == b.out(x)))),
            ("limited so far", allloc(lambda x: imp(And([R.is_in(x), in_slot(R)(x) < k]), h[x] == b.inn(x)))),
            ("as requested so far", allloc(lambda x: imp(And([R.is_in(x), in_slot(R)(x) >= k]), h[x] == R.req_value(x)))),
            ("no other changes", allloc(lambda x: imp(Not(Or([R.is_out(x), R.is_in(x)])), h[x] == R.old[x])))]


def lim_ens(S):
    R = Limits(S)
    b = Balance(R)
    inf = R.O.F(WC + "_infiniteStorage", S.this)
    return [("a bottomless source limits nothing", imp(inf, allloc(lambda x: S.Hh(H0R)[x] == R.old[x]))),
            ("an outgoing rate is limited as stated", imp(Not(inf), allloc(lambda x: imp(R.is_out(x), S.Hh(H0R)[x] == b.out(x) + b.extra(x))))),
            ("an incoming rate is limited as stated", imp(Not(inf), allloc(lambda x: imp(R.is_in(x), S.Hh(H0R)[x] == b.inn(x) + b.extra(x))))),
            ("no other changes", imp(Not(inf), allloc(lambda x: imp(Not(Or([R.is_out(x), R.is_in(x)])), S.Hh(H0R)[x] == R.old[x] + b.extra(x))))),
            ("a forcing flux only records what it read", recorded(S, S.Hh("Flux._amount")))]


contract("WaterContainer::ApplyConstraints", props=P2, throws=True, modifies=[(H0R, None), ("Flux._amount", None)], timeout=60, cut=True,
         requires=lambda S: lim_req(S) + [("overflow", imp(S.F(WC + "_overflow") != null, S.len(S.F("Process._outputs", S.F(WC + "_overflow"))) > 0)),
                                          ("overflow flux", imp(S.F(WC + "_overflow") != null, S.at(S.F("Process._outputs", S.F(WC + "_overflow")), 0) != null))],
         facts=lambda S: Limits(S).slots(), loops={1: lim_out1, 2: lim_out2, 3: lim_in, 4: lim_cut_out, 5: lim_cut_in}, ensures=lim_ens)
