"""Contracts of the GR4J/GR6J production, unit hydrographs and routing (C08)."""
from common import *
from s_process import infil, evap, perc, law, one_rate, rate, cont, content, CR, f, p, FieldLVof, pre, dt_of
from s_splitter import inputs_sum
from core import exp_, pow_, log_, sqrt_, tanh_, vec

Qt = z3.Q(1, 4)

# ---- production formulas ------------------------------------------------------
contract("gr4j::Infiltration", props=("C08",), pure=lambda S: If(Or([S.args[1] <= 0, S.args[2] <= 0]), R0, infil(S.args[0], S.args[1], S.args[2])),
         ensures=lambda S: (lambda s, pn, x1: [
             ("takes in no more than offered", imp(And([0 <= s, s <= x1, pn >= 0]), And([S.result >= 0, S.result <= pn]))),
             ("the store stays within its capacity", imp(And([0 <= s, s <= x1]), s + S.result <= x1))])(*S.args))
contract("gr4j::Evaporation", props=("C08",), pure=lambda S: evap(S.args[0], S.args[1], S.args[2]),
         ensures=lambda S: (lambda s, en, x1: [
             ("evaporates no more than demanded nor stored", imp(And([0 <= s, s <= x1, en >= 0]), And([S.result >= 0, S.result <= en, S.result <= s])))])(*S.args))
contract("gr4j::Percolation", props=("C08",), pure=lambda S: perc(S.args[0], S.args[1]),
         ensures=lambda S: [("percolates no more than stored", imp(S.args[0] >= 0, And([S.result >= 0, S.result <= S.args[0]])))])


def production(S, O):
    c = cont(O)
    X1 = capacity(O, c)
    S0 = content_now(O, c)
    Pn = content_wc(O, c) - content_dyn(O, c)
    En = f(O, "ProcessProductionGR4J", "_pet")
    Ps = infil(S0, Pn, X1)
    S1 = S0 + Ps
    S2 = S1 - evap(S1, En, X1)
    on = And([O.F("ProcessProductionGR4J._pet") != null, X1 > 0])
    return [("one rate", S.len(S.F(CR)) == 1),
            ("rain that does not infiltrate plus percolation", rate(S) == If(on, (Pn - Ps) + perc(S2, X1), R0)),
            ("never negative", imp(And([S0 >= 0, S0 <= X1, Pn >= 0]), rate(S) >= 0)),
            ("no more than the rain and the store", imp(And([on, S0 >= 0, S0 <= X1, Pn >= 0]), rate(S) <= Pn + S0))]


law("ProcessProductionGR4J", ("C08",), any_content=True, ens=production, req=lambda S: [("capacity", S.F(WC + "_capacity", cont(S)) != nullloc)])

# ---- unit hydrographs ----------------------------------------------------------
P52 = z3.Q(5, 2)


def sh1(t, x4):
    return If(t <= 0, R0, If(t >= x4, R1, pow_(t / x4, P52)))


def sh2(t, x4):
    return If(t <= 0, R0, If(t >= 2 * x4, R1, If(t < x4, z3.Q(1, 2) * pow_(t / x4, P52), 1 - z3.Q(1, 2) * pow_(2 - t / x4, P52))))


SH1, SH2 = z3.Function("S_curve_1", Real, Real, Real), z3.Function("S_curve_2", Real, Real, Real)


def curve_facts(fmls):
    """facts about the S-curves as functions; each is proved of their definition under the contracts of SH1/SH2."""
    out, by = [], {}
    for fm in fmls:
        for a in apps_in(fm, lambda x: x.decl().name() in ("S_curve_1", "S_curve_2")):
            by.setdefault(a.decl().name(), {})[a.get_id()] = a
    for nm, d in by.items():
        L = list(d.values())
        end = 1 if nm == "S_curve_1" else 2
        for a in L:
            t, x = a.arg(0), a.arg(1)
            out.append(imp(x > 0, And([a >= 0, a <= 1, imp(t <= 0, a == 0), imp(t >= end * x, a == 1)])))
        for i in range(len(L)):
            for j in range(len(L)):
                if i != j and len(L) <= 24 and z3.simplify(L[i].arg(1)).eq(z3.simplify(L[j].arg(1))):
                    out.append(imp(And([L[i].arg(1) > 0, L[i].arg(0) <= L[j].arg(0)]), L[i] <= L[j]))
    return out


AXIOM_FNS.append(curve_facts)
_t2 = z3.Real("any_later_time")
for q, fn, F_, end in (("gr_uh::SH1", sh1, SH1, 1), ("gr_uh::SH2", sh2, SH2, 2), ("ProcessRoutingGR4J::_sh1", sh1, SH1, 1), ("ProcessRoutingGR4J::_sh2", sh2, SH2, 2)):
    contract(q, props=("C08",), pure=lambda S, F_=F_: F_(S.args[0], S.args[1]),
             facts=lambda S, fn=fn, F_=F_: [F_(S.args[0], S.args[1]) == fn(S.args[0], S.args[1])],
             requires=lambda S: [("base time", S.args[1] > 0)],
             checks=lambda S, fn=fn, end=end: [("a cumulative share", And([S.result >= 0, S.result <= 1])), ("nothing before the step", imp(S.args[0] <= 0, S.result == 0)),
                                ("all after the base time", imp(S.args[0] >= end * S.args[1], S.result == 1)),
                                ("never falls", imp(S.args[0] <= _t2, S.result <= fn(_t2, S.args[1])))])


def tr(k):
    return z3.ToReal(k)


def ceil_of(x, n):
    return And([tr(n) >= x, tr(n) < x + 1])


def ords(S, v, fn, x4, n_of):
    """unit hydrograph: differences of the S-curve over n steps, non-negative, sum one."""
    n = S.len(v)
    return [("length is the base time", ceil_of(n_of, n)),
            ("at least one ordinate", n >= 1),
            ("differences of the S-curve, non-negative", S.forall(0, n, lambda j: And([S.at(v, j) == fn(tr(j) + 1, x4) - fn(tr(j), x4), S.at(v, j) >= 0]))),
            ("they sum to one", S.sum(n, lambda j: S.at(v, j)) == 1)]


def tele(S, v, fn, x4):
    return [("telescoping sum", lambda k: imp(k <= S.len(v), S.sum(k, lambda j: S.at(v, j)) == fn(tr(k), x4)), S.len(v))]


def bt(x):
    return If(x <= 0, z3.Q(1, 2), x)


def kept_buffer(S, o):
    """resized without losing what is still inside."""
    s, t = S.F(o), pre(S).F(o)
    return S.forall(0, S.len(s), lambda j: S.at(s, j) == If(j < S.len(t), S.at(t, j), R0))


def g4(S, n):
    return S.F("ProcessRoutingGR4J." + n)


contract("ProcessRoutingGR4J::_recomputeUH", props=("C08",), requires=lambda S: [("base time", S.F("ProcessRoutingGR4J._uhBaseTime") != nullloc)],
         modifies=["ProcessRoutingGR4J._uh1Ord", "ProcessRoutingGR4J._uh2Ord", "ProcessRoutingGR4J._stuh1", "ProcessRoutingGR4J._stuh2"],
         lemmas=lambda S: (lambda x4: tele(S, g4(S, "_uh1Ord"), SH1, x4) + tele(S, g4(S, "_uh2Ord"), SH2, x4))(bt(S.param("ProcessRoutingGR4J._uhBaseTime"))),
         ensures=lambda S: (lambda x4: [("UH1 " + a, b) for a, b in ords(S, g4(S, "_uh1Ord"), SH1, x4, x4)] + [("UH2 " + a, b) for a, b in ords(S, g4(S, "_uh2Ord"), SH2, x4, 2 * x4)] + [
             ("UH1 buffer kept", kept_buffer(S, "ProcessRoutingGR4J._stuh1")), ("UH2 buffer kept", kept_buffer(S, "ProcessRoutingGR4J._stuh2")),
             ("buffers match", And([S.len(g4(S, "_stuh1")) == S.len(g4(S, "_uh1Ord")), S.len(g4(S, "_stuh2")) == S.len(g4(S, "_uh2Ord"))]))])(bt(S.param("ProcessRoutingGR4J._uhBaseTime"))))


contract("gr_uh::ComputeOrdinates", props=("C08",), modifies=lambda S: [("LV", S.raw[1]), ("LV", S.raw[2])],
         lemmas=lambda S: tele(S, S.argp(1), SH1, bt(S.args[0])) + tele(S, S.argp(2), SH2, bt(S.args[0])),
         ensures=lambda S: (lambda x4: [("UH1 " + a, b) for a, b in ords(S, S.argp(1), SH1, x4, x4)] + [("UH2 " + a, b) for a, b in ords(S, S.argp(2), SH2, x4, 2 * x4)])(bt(S.args[0])))


def g6(S, n):
    return S.F("ProcessRoutingGR6J." + n)


contract("ProcessRoutingGR6J::_recomputeUH", props=("C08",), requires=lambda S: [("base time", S.F("ProcessRoutingGR6J._uhBaseTime") != nullloc)],
         modifies=["ProcessRoutingGR6J._uh1Ord", "ProcessRoutingGR6J._uh2Ord", "ProcessRoutingGR6J._stuh1", "ProcessRoutingGR6J._stuh2"],
         ensures=lambda S: (lambda x4: [("UH1 " + a, b) for a, b in ords(S, g6(S, "_uh1Ord"), SH1, x4, x4)] + [("UH2 " + a, b) for a, b in ords(S, g6(S, "_uh2Ord"), SH2, x4, 2 * x4)] + [
             ("UH1 buffer kept", kept_buffer(S, "ProcessRoutingGR6J._stuh1")), ("UH2 buffer kept", kept_buffer(S, "ProcessRoutingGR6J._stuh2")),
             ("buffers match", And([S.len(g6(S, "_stuh1")) == S.len(g6(S, "_uh1Ord")), S.len(g6(S, "_stuh2")) == S.len(g6(S, "_uh2Ord"))]))])(bt(S.param("ProcessRoutingGR6J._uhBaseTime"))))


# ---- routing -------------------------------------------------------------------
AMT = ("Flux._amount", None)


def keep(x, cap):
    """share of a routing store that stays."""
    r = x / cap
    return pow_(1 + If(cap > 0, r * r * r * r, R0), -Qt)


def leave(x, cap):
    return x * (1 - keep(x, cap))


def step_fact(name, P):
    """an intermediate assertion: proved, then available to the postconditions."""
    return (name, lambda k: P, z3.IntVal(0))


def kept_lemma(x, cap):
    r = x / cap
    sq = (r * r) * (r * r)
    return [("a fourth power is not negative", 1 + If(cap > 0, r * r * r * r, R0) >= 1, [x, cap]),
            ("share kept is at most all", imp(1 + If(cap > 0, r * r * r * r, R0) >= 1, And([keep(x, cap) > 0, keep(x, cap) <= 1])), [1 + If(cap > 0, r * r * r * r, R0)]),
            ("released is part of what is there", imp(And([x >= 0, keep(x, cap) > 0, keep(x, cap) <= 1]), And([leave(x, cap) >= 0, leave(x, cap) <= x])), [keep(x, cap), x])]


def exch4(x2, r, x3):
    rr = r / x3
    return If(x3 > 0, x2 * rr * rr * rr * sqrt_(rr), R0)


def unit_hydro(S, o, b, O=None):
    """class invariant of a unit hydrograph and its buffer."""
    v, s = S.F(o), S.F(b)
    n = S.len(v)
    return [("ordinates", And([n >= 1, S.len(s) == n, S.sum(n, lambda j: S.at(v, j)) == 1])),
            ("ordinates non-negative", S.forall(0, n, lambda j: S.at(v, j) >= 0))]


def due(S, b, o, x):
    """what the unit hydrograph releases in this step for the input x."""
    s = S.F(b)
    return If(S.len(s) > 1, S.at(s, 1), R0) + S.at(S.F(o), 0) * x


def advanced(S, O, b, o, x):
    s, t, v = S.F(b), O.F(b), O.F(o)
    n = O.len(t)
    return [("buffer length kept", S.len(s) == n),
            ("buffer shifted, input spread", S.forall(0, n, lambda j: S.at(s, j) == If(j + 1 < n, S.at(t, j + 1), R0) + S.at(v, j) * x)),
            ("released plus in transit is what was in transit plus the input",
             S.sum(n, lambda j: S.at(s, j)) == S.sum(n, lambda j: S.at(t, j)) - S.at(t, 0) + x)]


def shift_lemmas(S, O, b, o, x):
    s, t, v = S.F(b), O.F(b), O.F(o)
    n = O.len(t)
    return [("what is released and in transit", lambda k: imp(k <= n, S.sum(k, lambda j: S.at(s, j)) ==
             S.sum(k, lambda j: S.at(t, j)) - If(k > 0, S.at(t, 0), R0) + If(And([k > 0, k < n]), S.at(t, k), R0) + x * S.sum(k, lambda j: S.at(v, j))), n)]


R4 = "ProcessRoutingGR4J."
INJ = R4 + "_exchangeInjected"
UH4 = [(R4 + "_uh1Ord", R4 + "_stuh1"), (R4 + "_uh2Ord", R4 + "_stuh2")]


def par(S, c, names):
    return [S.param(c + n) for n in names]


def has_par(S, c, names):
    return And([S.F(c + n) != nullloc for n in names])


def routing_req(c, names, uh):
    def R(S):
        return [("container", And([S.F(PC) != null, S.forall(0, S.len(S.F(WC + "_inputs", cont(S))), lambda k: S.at(S.F(WC + "_inputs", cont(S)), k) != null)])),
                ("parameters", has_par(S, c, names)), ("infinite level", INF > 10 ** 6)] + [("%s %s" % (o, a), e) for o, b in uh for a, e in unit_hydro(S, o, b)]
    return R


N4 = ["_exchangeFactor", "_routingCapacity", "_uhBaseTime"]
PC = "Process._container"


def gr4_core(S):
    O = pre(S)
    x2, x3, x4 = par(O, R4, N4)
    PR = inputs_sum(S, cont(O))
    return O, x2, x3, PR, exch4(x2, O.F(R4 + "_r"), x3)


def gr4_fin(S):
    O, x2, x3, PR, F = gr4_core(S)
    r1 = maxz(R0, O.F(R4 + "_r") + S.at(S.F(R4 + "_stuh1"), 0) + F)
    return ([("UH1 " + a, e) for a, e in advanced(S, O, R4 + "_stuh1", R4 + "_uh1Ord", z3.Q(9, 10) * PR)] +
            [("UH2 " + a, e) for a, e in advanced(S, O, R4 + "_stuh2", R4 + "_uh2Ord", z3.Q(1, 10) * PR)] +
            [("released by the routing store", S.F(R4 + "_qr") == leave(r1, x3)),
             ("what the store releases leaves it", S.F(R4 + "_r") == r1 - S.F(R4 + "_qr")),
             ("no more than it holds", And([S.F(R4 + "_qr") >= 0, S.F(R4 + "_r") >= 0])),
             ("the next step starts without exchange", S.F(INJ) == 0),
             ("direct branch", S.F(R4 + "_qd") == maxz(R0, S.at(S.F(R4 + "_stuh2"), 0) + F))])


contract("ProcessRoutingGR4J::Finalize", props=("C08",), requires=routing_req(R4, N4, UH4), ensures=gr4_fin,
         lemmas=lambda S: (lambda O, x2, x3, PR, F: shift_lemmas(S, O, R4 + "_stuh1", R4 + "_uh1Ord", z3.Q(9, 10) * PR) +
                           shift_lemmas(S, O, R4 + "_stuh2", R4 + "_uh2Ord", z3.Q(1, 10) * PR) +
                           kept_lemma(maxz(R0, O.F(R4 + "_r") + S.at(S.F(R4 + "_stuh1"), 0) + F), x3))(*gr4_core(S)),
         modifies=[R4 + x for x in ("_stuh1", "_stuh2", "_r", "_qr", "_qd", "_exchangeInjected", "_processStorage")] + [AMT])


def gr4_rates(S, O):
    """prediction of the step: the branches after this step's inflow and exchange; nothing is advanced yet."""
    x2, x3, x4 = par(O, R4, N4)
    PR = inputs_sum(O, cont(O))
    r0 = O.F(R4 + "_r")
    F = exch4(x2, r0, x3)
    u1 = due(S, R4 + "_stuh1", R4 + "_uh1Ord", z3.Q(9, 10) * PR)
    u2 = due(S, R4 + "_stuh2", R4 + "_uh2Ord", z3.Q(1, 10) * PR)
    r1 = maxz(R0, r0 + u1 + F)
    c = cont(O)
    net = (r1 - (r0 + u1)) + (S.F(R4 + "_qd") - u2)
    st = WC + "_contentChangeStatic"
    return [("one rate", S.len(S.F(CR)) == 1), ("discharge is the sum of the branches", rate(S) == S.F(R4 + "_qr") + S.F(R4 + "_qd")),
            ("routing branch", S.F(R4 + "_qr") == leave(r1, x3)), ("direct branch", S.F(R4 + "_qd") == maxz(R0, u2 + F)),
            ("routing store untouched", S.F(R4 + "_r") == r0),
            ("the exchange of the step is known", S.F(INJ) == If(O.F("Process._timeMachine") != null, net * dt_of(O), O.F(INJ))),
            ("the exchange is added once to the water of the container, however often the rates are asked", S.F(st, c) == O.F(st, c) + If(infinite(O, c), R0, S.F(INJ) - O.F(INJ)))] + [
            ("buffer kept " + b, imp(S.len(O.F(b)) == S.len(S.F(b)), S.forall(0, S.len(S.F(b)), lambda j, b=b: S.at(S.F(b), j) == S.at(O.F(b), j)))) for b in (R4 + "_stuh1", R4 + "_stuh2")] + [
            ("hydrograph " + a, e) for o, b in UH4 for a, e in unit_hydro(S, o, b)]


law("ProcessRoutingGR4J", ("C08",), gr4_rates, any_content=True,
    req=lambda S: routing_req(R4, N4, UH4)(S)[:2] + [("%s %s" % (o, a), e) for o, b in UH4 for a, e in unit_hydro(S, o, b)],
    mod=lambda S: [R4 + x for x in ("_stuh1", "_stuh2", "_uh1Ord", "_uh2Ord", "_qr", "_qd", "_exchangeInjected")] + [(WC + "_contentChangeStatic", S.F(PC)), AMT])


def resets(c, uh, zeros):
    def Ens(S):
        r = []
        for o, b in uh:
            r += [("buffer empty " + b, S.forall(0, S.len(S.F(b)), lambda j, b=b: S.at(S.F(b), j) == 0)), ("buffer length " + b, S.len(S.F(b)) == S.len(S.F(o)))]
            r += [("hydrograph " + a, e) for a, e in unit_hydro(S, o, b)]
        return r + [("%s back to zero" % z, S.F(c + z) == 0) for z in zeros]
    return Ens


Z4 = ["_r", "_qr", "_qd", "_exchangeInjected", "_processStorage"]
contract("ProcessRoutingGR4J::Reset", props=("C08", "C15"), requires=lambda S: [("base time", S.F(R4 + "_uhBaseTime") != nullloc), ("outputs", S.forall(0, S.len(S.F("Process._outputs")), lambda k: S.at(S.F("Process._outputs"), k) != null)),
                                                                               ("infinite level", INF > 10 ** 6)],
         ensures=resets(R4, UH4, Z4), modifies=[R4 + x for x in ["_uh1Ord", "_uh2Ord", "_stuh1", "_stuh2"] + Z4] + [AMT])

# ---- GR6J ----------------------------------------------------------------------
R6 = "ProcessRoutingGR6J."
UH6 = [(R6 + "_uh1Ord", R6 + "_stuh1"), (R6 + "_uh2Ord", R6 + "_stuh2")]
N6 = ["_exchangeFactor", "_routingCapacity", "_uhBaseTime", "_exchangeThreshold", "_expStoreCoeff"]
Z6 = ["_r", "_rexp", "_qr", "_qrexp", "_qd", "_processStorage"]


def xout(x, x6):
    ar = maxz(RealV(-33), minz(RealV(33), x / x6))
    return If(x6 <= 0, maxz(R0, x), If(ar > 7, x + x6 / exp_(ar), If(ar < -7, x6 * exp_(ar), x6 * log_(exp_(ar) + 1))))


RealV = z3.RealVal
contract("gr6j::ExponentialStoreOutflow", props=("C08",), pure=lambda S: xout(S.args[0], S.args[1]),
         checks=lambda S: [("never negative", S.result >= 0)])


def exch6(x2, r, x3, x5):
    return If(x3 > 0, x2 * (r / x3 - x5), R0)


def gr6_core(S, O, V):
    x2, x3, x4, x5, x6 = par(O, R6, N6)
    return x2, x3, x6, inputs_sum(V, cont(O)), exch6(x2, O.F(R6 + "_r"), x3, x5)


Q6, Q4 = z3.Q(6, 10), z3.Q(4, 10)


def gr6_fin(S):
    O = pre(S)
    x2, x3, x6, PR, F = gr6_core(S, O, S)
    u1, u2 = S.at(S.F(R6 + "_stuh1"), 0), S.at(S.F(R6 + "_stuh2"), 0)
    r1 = maxz(R0, O.F(R6 + "_r") + Q6 * u1 + F)
    e1 = O.F(R6 + "_rexp") + Q4 * u1 + F
    return ([("UH1 " + a, e) for a, e in advanced(S, O, R6 + "_stuh1", R6 + "_uh1Ord", z3.Q(9, 10) * PR)] +
            [("UH2 " + a, e) for a, e in advanced(S, O, R6 + "_stuh2", R6 + "_uh2Ord", z3.Q(1, 10) * PR)] +
            [("released by the routing store", S.F(R6 + "_qr") == leave(r1, x3)),
             ("what the store releases leaves it", S.F(R6 + "_r") == r1 - S.F(R6 + "_qr")),
             ("no more than it holds", And([S.F(R6 + "_qr") >= 0, S.F(R6 + "_r") >= 0])),
             ("released by the exponential store", S.F(R6 + "_qrexp") == xout(e1, x6)),
             ("what the exponential store releases leaves it", S.F(R6 + "_rexp") == e1 - S.F(R6 + "_qrexp")),
             ("direct branch", S.F(R6 + "_qd") == maxz(R0, u2 + F))])


contract("ProcessRoutingGR6J::Finalize", props=("C08",), requires=routing_req(R6, N6, UH6), ensures=gr6_fin,
         lemmas=lambda S: (lambda O: (lambda x2, x3, x6, PR, F: shift_lemmas(S, O, R6 + "_stuh1", R6 + "_uh1Ord", z3.Q(9, 10) * PR) +
                           shift_lemmas(S, O, R6 + "_stuh2", R6 + "_uh2Ord", z3.Q(1, 10) * PR) +
                           kept_lemma(maxz(R0, O.F(R6 + "_r") + Q6 * S.at(S.F(R6 + "_stuh1"), 0) + F), x3))(*gr6_core(S, O, S)))(pre(S)),
         modifies=[R6 + x for x in ["_stuh1", "_stuh2"] + Z6] + [AMT])


def gr6_rates(S, O):
    x2, x3, x6, PR, F = gr6_core(S, O, O)
    u1 = due(S, R6 + "_stuh1", R6 + "_uh1Ord", z3.Q(9, 10) * PR)
    u2 = due(S, R6 + "_stuh2", R6 + "_uh2Ord", z3.Q(1, 10) * PR)
    r1 = maxz(R0, O.F(R6 + "_r") + Q6 * u1 + F)
    e1 = O.F(R6 + "_rexp") + Q4 * u1 + F
    return [("one rate", S.len(S.F(CR)) == 1),
            ("discharge is the sum of the branches", rate(S) == maxz(R0, S.F(R6 + "_qr") + S.F(R6 + "_qrexp") + S.F(R6 + "_qd"))),
            ("routing branch", S.F(R6 + "_qr") == leave(r1, x3)), ("exponential branch", S.F(R6 + "_qrexp") == xout(e1, x6)), ("direct branch", S.F(R6 + "_qd") == maxz(R0, u2 + F)),
            ("stores untouched", And([S.F(R6 + "_r") == O.F(R6 + "_r"), S.F(R6 + "_rexp") == O.F(R6 + "_rexp")]))] + [
            ("buffer kept " + b, imp(S.len(O.F(b)) == S.len(S.F(b)), S.forall(0, S.len(S.F(b)), lambda j, b=b: S.at(S.F(b), j) == S.at(O.F(b), j)))) for b in (R6 + "_stuh1", R6 + "_stuh2")] + [
            ("hydrograph " + a, e) for o, b in UH6 for a, e in unit_hydro(S, o, b)]


law("ProcessRoutingGR6J", ("C08",), gr6_rates, any_content=True,
    req=lambda S: routing_req(R6, N6, UH6)(S)[:2] + [("%s %s" % (o, a), e) for o, b in UH6 for a, e in unit_hydro(S, o, b)],
    mod=lambda S: [R6 + x for x in ("_stuh1", "_stuh2", "_uh1Ord", "_uh2Ord", "_qr", "_qrexp", "_qd")] + [AMT])
contract("ProcessRoutingGR6J::Reset", props=("C08", "C15"), requires=lambda S: [("base time", S.F(R6 + "_uhBaseTime") != nullloc), ("outputs", S.forall(0, S.len(S.F("Process._outputs")), lambda k: S.at(S.F("Process._outputs"), k) != null)),
                                                                               ("infinite level", INF > 10 ** 6)],
         ensures=resets(R6, UH6, Z6), modifies=[R6 + x for x in ["_uh1Ord", "_uh2Ord", "_stuh1", "_stuh2"] + Z6] + [AMT])
