"""Sequential solvers (C11): what a storage's processes move within the step.

Q(d): the total rate of the processes of a storage when its content has changed by d since the start of the step;
RATE(p, setting, d): the rates of process p at that content (everything else the process reads does not change while
its storage is being solved: the ghost 'setting' stands for it).
Rates are laid out one after the other: OFF(b, i) is where those of process i start; slot q belongs to process IP(q)
and is its connection JP(q).
"""
from common import *
from core import vec
from s_process import RATE, NCON, pre

P11 = ("C11",)
BP, BW, PC, DYN = "Brick._processes", "Brick._water", "Process._container", WC + "_contentChangeDynamic"
DLOC = z3.Function("loc:" + DYN, Ref, Loc)
OFF = z3.Function("first_slot", Ref, Int, Int)
IP = z3.Function("process_of_slot", Ref, Int, Int)
JP = z3.Function("connection_of_slot", Ref, Int, Int)
PPOS = z3.Function("place_of_process", Ref, Int)      # each process belongs to one place of one list
TOT = z3.Function("total_rate_of", Ref, Int, Real, Real)
MODP = [("Process._changeRates", None), ("Forcing._updatedValue", None), ("Forcing._hasUpdatedValue", None), ("ProcessMeltCemaNeige._coldContent", None),
        ("Flux._fractionUnitArea", None), ("Flux._fractionTotal", None), ("ProcessRefreezeDegreeDay._meltProcess", None)]


class Br:
    def __init__(self, S, brick):
        O = pre(S)
        self.S, self.O, self.b = S, O, brick
        self.w = O.F(BW, brick)
        self.ps = O.F(BP, brick)
        self.n = O.len(self.ps)

    def p(self, i):
        return self.O.at(self.ps, i)

    def rate(self, i, d):
        return RATE(self.p(i), self.O.old("setting", self.p(i)), d)

    def per(self, i, d):
        r = self.rate(i, d)
        return self.S.sum(vlen(r), lambda j: vget(r, j))

    def Q(self, d, n=None):
        return self.S.sum(self.n if n is None else n, lambda i: self.per(i, d))

    def tot(self, d):
        """the same total, as a function of the content change (TotalRateAt: it is Q)."""
        return TOT(self.b, self.O.old("setting", self.b), d)

    def at(self, q, d):
        """what slot q holds at content change d."""
        return vget(self.rate(IP(self.b, q), d), JP(self.b, q))

    def total(self):
        return OFF(self.b, self.n)

    def req(self):
        S, i, d = self.S, z3.Int("rq!i"), z3.Real("rq!d")
        return [("brick", And([self.b != null, self.w != null])),
                ("processes", S.forall(0, self.n, lambda i: And([self.p(i) != null, PPOS(self.p(i)) == i, self.O.F(PC, self.p(i)) == self.w])))]

    def layout(self):
        """definition of the layout (true of any list of processes)."""
        S, b = self.S, self.b
        i, j, q, d = z3.Ints("ly!i ly!j ly!q ly!d")[:4]
        x = z3.Real("ly!x")
        return [OFF(b, 0) == 0, S.forall(0, self.n, lambda i: And([OFF(b, i + 1) == OFF(b, i) + NCON(self.p(i)), NCON(self.p(i)) >= 0, OFF(b, i) >= 0, OFF(b, i + 1) <= OFF(b, self.n)])),
                z3.ForAll([i, x], imp(And([i >= 0, i < self.n]), vlen(self.rate(i, x)) == NCON(self.p(i)))),
                z3.ForAll([i, q], imp(And([i >= 0, i < self.n, q >= OFF(b, i), q < OFF(b, i) + NCON(self.p(i))]), And([IP(b, q) == i, JP(b, q) == q - OFF(b, i)])),
                          patterns=[z3.MultiPattern(OFF(b, i), IP(b, q))])]


def bind_delta(k):
    """the pointer argument is the storage's own dynamic change (required of every caller)."""
    def setup(E, st, this, vals):
        w = sel(E.H(st, E.fkey("Brick", "_water")), vals[0])
        f = E.P_cur
        st.locals[(0, f.params[k]["id"])] = DLOC(w)
        vals[k] = DLOC(w)
    return setup


EVAL = "evaluated_at"      # the content change at which the total rate of a storage was last evaluated
GHOSTS[EVAL] = z3.ArraySort(Ref, Real)
contract("SolverSequential::TotalRateAt", props=P11, setup=bind_delta(1), modifies=lambda S: MODP + [(DYN, Br(S, S.args[0]).w), (EVAL, Br(S, S.args[0]).w)],
         ghost=lambda S: [("evaluated", S.F(EVAL, Br(S, S.args[0]).w) == S.args[2]), ("the total of the storage", S.result == Br(S, S.args[0]).tot(S.args[2]))],
         requires=lambda S: Br(S, S.args[0]).req() + [("the change of that storage", S.args[1] == DLOC(Br(S, S.args[0]).w))],
         loops={1: lambda L, S, k: [("summed so far", L.var("total", k) == Br(S, S.args[0]).Q(S.args[2], k))]},
         checks=lambda S: [("total rate at that content", S.result == Br(S, S.args[0]).Q(S.args[2]))],
         ensures=lambda S: [("the content change is the given one", S.F(DYN, Br(S, S.args[0]).w) == S.args[2])])


def stored(B, H, base, n, d, S, old=None):
    """the first n slots hold the rates at content change d; (with old) every other element is as before."""
    q = z3.Int("st!q")
    out = [("rates at their place", z3.ForAll([q], imp(And([q >= 0, q < n]), vget(H, base + q) == B.at(q, d))))]
    if old is not None:
        out += [("no other rate", z3.ForAll([q], imp(Or([q < base, q >= base + n]), vget(H, q) == vget(old, q)))), ("size", vlen(H) == vlen(old))]
    return out


B0 = lambda S: Br(S, S.args[0])
dyn = lambda S: pre(S).F(DYN, B0(S).w)
contract("SolverSequential::StoreRatesAtCurrentContent", props=P11, modifies=lambda S: MODP + [("LV", S.raw[1])], requires=lambda S: B0(S).req(), facts=lambda S: B0(S).layout(),
         loops={1: lambda L, S, k: stored(B0(S), L.var("rates", k), 0, OFF(S.args[0], k), dyn(S), S) + [("length", vlen(L.var("rates", k)) == OFF(S.args[0], k))]},
         ensures=lambda S: stored(B0(S), S.argp(1), 0, B0(S).total(), dyn(S), S) + [("length", vlen(S.argp(1)) == B0(S).total())])

# ---- the rates each scheme gives a storage ----------------------------------
RV = "SolverSequential._rates"
HALF = z3.Function("half_to_the", Int, Real)
kh = z3.Int("hf!k")
HALVES = [HALF(0) == 1, z3.ForAll([kh], imp(kh >= 0, And([HALF(kh + 1) == HALF(kh) / 2, HALF(kh) > 0])), patterns=[HALF(kh + 1)]), HALF(100) == z3.Q(1, 2 ** 100)]
EPS12 = z3.Q(1, 10 ** 12)


class Step(Br):
    """arguments of ComputeBrickRates: storage, content, inflow, time step, first slot."""

    def __init__(self, S):
        super().__init__(S, S.args[0])
        self.content, self.inflow, self.h, self.start = S.args[1:5]
        self.neg = self.O.F(WC + "_allowNegativeContent", self.w)
        self.hi0 = self.h * maxz(self.inflow, R0)

    def req2(self):
        S = self.S
        return self.req() + [("the storage did not change yet", self.O.F(DYN, self.w) == 0), ("time step", self.h > 0),
                             ("room for the rates", And([self.start >= 0, self.start + self.total() <= self.S.len(self.O.F(RV))]))]

    def untouched(self):
        return [("the storage is back at its start", self.S.F(DYN, self.w) == 0)]

    def lo0(self, outflow):
        l = self.h * (self.inflow - outflow)
        return If(self.neg, l, maxz(l, -self.content))


def bisection(B, out, lo, hi):
    """lo, hi (content changes) bracket the root of d = h (inflow - out(d))."""
    G = lambda d: d - B.h * (B.inflow - out(d))
    l0, h0 = B.lo0(out(B.hi0)), B.hi0
    return [("ordered", And([l0 <= lo, lo <= hi, hi <= h0])), ("below the root", Or([lo == l0, G(lo) <= 0])), ("above the root", Or([hi == h0, G(hi) > 0]))]


def solved_end(S, B, out):
    l0, h0, d = B.lo0(out(B.hi0)), B.hi0, S.F(EVAL, B.w)
    lo, hi = S.local("lo") - B.content, S.local("hi") - B.content
    w = hi - lo
    return [("no outflow possible: the lower bound", imp(h0 <= l0, d == l0))] + [
        ("content at the end of the step: " + n, imp(h0 > l0, e)) for n, e in bisection(B, out, lo, hi) + [
            ("in the middle", d == (lo + hi) / 2), ("to 1e-12 mm", Or([w < EPS12, w <= (h0 - l0) * z3.Q(1, 2 ** 100)]))]]


def only(L, S, k, keys, r0):
    return [("only this one: " + key, S.forall_ref(lambda r: imp(r != r0, z3.Select(L.Hh(S.key(key), k), r) == z3.Select(S.oldH(key), r)))) for key in keys]


def bis_loop(out):
    def inv(L, S, k):
        B = Step(S)
        o = out(B, S)
        lo, hi = L.var("lo", k) - B.content, L.var("hi", k) - B.content
        return bisection(B, o, lo, hi) + [("halved", hi - lo == (B.hi0 - B.lo0(o(B.hi0))) * HALF(k))] + only(L, S, k, (DYN, EVAL), B.w)
    return inv


def comp_mod(S, cls, extra=()):
    w = B0(S).w
    return MODP + [(DYN, w), (EVAL, w), (RV, S.this)] + [(cls + "." + x, S.this) for x in extra]


def store_outer(L, S, k):
    B = Step(S)
    return stored(B, L.F(RV, S.this, k), B.start, OFF(B.b, k), L.F(EVAL, B.w, k), S, S.old(RV)) + [("next slot", L.var("iRate", k) == B.start + OFF(B.b, k))] + only(L, S, k, (RV,), S.this)


def store_inner(L, S, j):
    B = Step(S)
    n = OFF(B.b, L.outer) + j
    return stored(B, L.F(RV, S.this, j), B.start, n, L.F(EVAL, B.w, j), S, S.old(RV)) + [("next slot", L.var("iRate", j) == B.start + n)] + only(L, S, j, (RV,), S.this)


def common_ens(S, B):
    return B.untouched() + [("rates of other storages", z3.ForAll([z3.Int("oq")], imp(Or([z3.Int("oq") < B.start, z3.Int("oq") >= B.start + B.total()]), vget(S.F(RV), z3.Int("oq")) == vget(S.old(RV), z3.Int("oq"))))),
                            ("as many rates", vlen(S.F(RV)) == vlen(S.old(RV)))]


contract("SolverImplicitEuler::ComputeBrickRates", props=P11, timeout=60, modifies=lambda S: comp_mod(S, "SolverImplicitEuler"), requires=lambda S: Step(S).req2(),
         facts=lambda S: Step(S).layout() + HALVES, loops={1: bis_loop(lambda B, S: B.tot), 2: store_outer, 3: store_inner}, ensures=lambda S: common_ens(S, Step(S)),
         checks=lambda S: stored(Step(S), S.F(RV), Step(S).start, Step(S).total(), S.F(EVAL, Step(S).w), S) + solved_end(S, Step(S), Step(S).tot))

# ---- Crank-Nicolson ------------------------------------------------------------
CN = "SolverCrankNicolson"
mean_out = lambda B, S: (lambda d: (B.tot(0) + B.tot(d)) / 2)


def mixed(B, H, n, f, old):
    """the first n slots of the storage hold f(slot); every other element is as before."""
    q = z3.Int("mx!q")
    return [("rates at their place", z3.ForAll([q], imp(And([q >= 0, q < n]), vget(H, B.start + q) == f(q)))),
            ("no other rate", z3.ForAll([q], imp(Or([q < B.start, q >= B.start + n]), vget(H, q) == vget(old, q)))), ("size", vlen(H) == vlen(old))]


def avg_rate(S, B):
    return lambda q: (B.at(q, R0) + B.at(q, S.F(EVAL, B.w))) / 2


def avg_loop(L, S, k):
    B = Step(S)
    d = L.F(EVAL, B.w, k)
    return mixed(B, L.F(RV, S.this, k), k, lambda q: (B.at(q, R0) + B.at(q, d)) / 2, S.old(RV)) + only(L, S, k, (RV,), S.this)


contract(CN + "::ComputeBrickRates", props=P11, timeout=60, modifies=lambda S: comp_mod(S, CN, ("_startRates", "_endRates")), requires=lambda S: Step(S).req2(),
         facts=lambda S: Step(S).layout() + HALVES, loops={1: bis_loop(mean_out), 2: avg_loop}, ensures=lambda S: common_ens(S, Step(S)),
         checks=lambda S: mixed(Step(S), S.F(RV), Step(S).total(), avg_rate(S, Step(S)), S.old(RV)) + solved_end(S, Step(S), mean_out(Step(S), S)))

# ---- exponential Euler ---------------------------------------------------------
EE = "SolverExponentialEuler"


class Linearized:
    """Q(S) ~ Q(S0) + k (S - S0), integrated exactly over the step."""

    def __init__(self, B):
        eps = maxz(z3.Q(1, 1000), z3.Q(1, 1000) * maxz(B.content, B.content + B.h * B.inflow))
        self.slope = (B.tot(eps) - B.tot(R0)) / eps
        self.flat = self.slope <= z3.Q(1, 10 ** 10)
        end = B.content + (B.inflow - B.tot(R0)) / self.slope * (1 - exp_(-self.slope * B.h))
        self.end = If(B.neg, end, maxz(end, R0))
        self.d = self.end - B.content
        self.total = maxz(B.inflow - self.d / B.h, R0)
        self.w = lambda q: B.at(q, R0) + B.at(q, self.d)
        self.sum = B.S.sum(B.total(), self.w)

    def rate(self, q):
        return self.total * If(self.sum > 0, self.w(q) / self.sum, R0)


def ee_frozen(L, S, k):
    B = Step(S)
    return mixed(B, L.F(RV, S.this, k), k, lambda q: B.at(q, R0), S.old(RV)) + only(L, S, k, (RV,), S.this)


def ee_sum(L, S, k):
    B = Step(S)
    return [("summed so far", L.var("sumWeights", k) == S.sum(k, Linearized(B).w))]


def ee_fill(L, S, k):
    B = Step(S)
    return mixed(B, L.F(RV, S.this, k), k, Linearized(B).rate, S.old(RV)) + only(L, S, k, (RV,), S.this)


def ee_rates(S):
    B = Step(S)
    l = Linearized(B)
    return [("flat: " + n, imp(l.flat, e)) for n, e in mixed(B, S.F(RV), B.total(), lambda q: B.at(q, R0), S.old(RV))] + [
        ("linear: " + n, imp(Not(l.flat), e)) for n, e in mixed(B, S.F(RV), B.total(), l.rate, S.old(RV))]


contract(EE + "::ComputeBrickRates", props=P11, timeout=60, modifies=lambda S: comp_mod(S, EE, ("_startRates", "_endRates")), requires=lambda S: Step(S).req2(),
         facts=lambda S: Step(S).layout(), loops={1: ee_frozen, 2: ee_sum, 3: ee_fill}, ensures=lambda S: common_ens(S, Step(S)), checks=ee_rates)

# ---- analytic solution of linear storages ---------------------------------------
AL = "SolverAnalyticLinear"
POL = "ProcessOutflowLinear"
contract("Process::HasLinearResponse", props=P11, subtypes=True, pure=lambda S: S.isa(S.this, POL))
for c in ("Process", POL):
    contract(c + "::GetLinearResponseRate", props=P11 if c == POL else (), verify=c == POL, note="Process::GetLinearResponseRate throws unless overridden; ProcessOutflowLinear is the only override",
             requires=lambda S: [("a linear process", S.isa(S.this, POL)), ("parameter", S.F(POL + "._responseFactor") != nullloc)], pure=lambda S: S.param(POL + "._responseFactor"))


class Analytic:
    def __init__(self, B):
        self.B, O = B, B.O
        self.lin = lambda i: And([O.isa(B.p(i), POL), NCON(B.p(i)) == 1])
        self.coef = lambda i: O.param(POL + "._responseFactor", B.p(i))
        self.k = lambda n: B.S.sum(n, lambda i: If(self.lin(i), self.coef(i), R0))
        self.frozen = lambda n: B.S.sum(n, lambda i: If(self.lin(i), R0, B.per(i, R0)))
        self.K = self.k(B.n)
        net = B.inflow - self.frozen(B.n)
        decay = exp_(-self.K * B.h)
        self.end = B.content * decay + net / self.K * (1 - decay)
        self.out = maxz((net * B.h - (self.end - B.content)) / B.h, R0)

    def first(self, q):
        return If(self.lin(IP(self.B.b, q)), R0, self.B.at(q, R0))

    def rate(self, q):
        i = IP(self.B.b, q)
        return If(self.lin(i), self.out * self.coef(i) / self.K, self.B.at(q, R0))


def al_req(S):
    B = Step(S)
    return B.req2() + [("parameters", S.forall(0, B.n, lambda i: imp(S.isa(B.p(i), POL), B.O.F(POL + "._responseFactor", B.p(i)) != nullloc)))]


def al_outer(L, S, k):
    B = Step(S)
    A = Analytic(B)
    return mixed(B, L.F(RV, S.this, k), OFF(B.b, k), A.first, S.old(RV)) + [
        ("next slot", L.var("iRate", k) == B.start + OFF(B.b, k)), ("coefficients", L.var("totalLinearCoefficient", k) == A.k(k)),
        ("frozen rates", L.var("totalFrozenRate", k) == A.frozen(k))] + only(L, S, k, (RV,), S.this)


def al_inner(L, S, j):
    B = Step(S)
    A = Analytic(B)
    i = L.outer
    r = B.rate(i, R0)
    return mixed(B, L.F(RV, S.this, j), OFF(B.b, i) + j, A.first, S.old(RV)) + [
        ("next slot", L.var("iRate", j) == B.start + OFF(B.b, i) + j), ("frozen rates", L.var("totalFrozenRate", j) == A.frozen(i) + S.sum(j, lambda x: vget(r, x)))] + only(L, S, j, (RV,), S.this)


def al_fill(L, S, k):
    B = Step(S)
    A = Analytic(B)
    n = OFF(B.b, k)
    H, old, q = L.F(RV, S.this, k), S.old(RV), z3.Int("af!q")
    i = IP(B.b, q)
    e = vget(H, B.start + q)
    done = And([q >= 0, q < n])
    return [("linear rates so far", z3.ForAll([q], imp(And([done, A.lin(i)]), e == L.var("linearOutflowRate", k) * A.coef(i) / L.var("totalLinearCoefficient", k)))),
            ("other rates so far", z3.ForAll([q], imp(And([done, Not(A.lin(i))]), e == B.at(q, R0)))),
            ("rates to come", z3.ForAll([q], imp(And([q >= n, q < B.total()]), e == A.first(q)))),
            ("no other rate", z3.ForAll([q], imp(Or([q < B.start, q >= B.start + B.total()]), vget(H, q) == vget(old, q)))), ("size", vlen(H) == vlen(old)),
            ("next slot", L.var("iRateFill", k) == B.start + n)] + only(L, S, k, (RV,), S.this)


def al_rates(S):
    B = Step(S)
    A = Analytic(B)
    return [("nothing linear: " + n, imp(A.K <= 0, e)) for n, e in mixed(B, S.F(RV), B.total(), A.first, S.old(RV))] + [
        ("linear: " + n, imp(A.K > 0, e)) for n, e in mixed(B, S.F(RV), B.total(), A.rate, S.old(RV))]


contract(AL + "::ComputeBrickRates", props=P11, timeout=60, modifies=lambda S: [m for m in MODP] + [(RV, S.this)], requires=al_req,
         facts=lambda S: Step(S).layout(), loops={1: al_outer, 2: al_inner, 3: al_fill}, ensures=lambda S: common_ens(S, Step(S)), checks=al_rates)
