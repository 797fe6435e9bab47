"""Contracts of the HBV triangular routing (C09)."""
from common import *
from s_process import law, rate, cont, CR
from s_splitter import inputs_sum
from s_gr import tr, ords, tele, unit_hydro, kept_buffer, INF, PC, AMT, resets, step_fact
from core import vec

RH = "ProcessRoutingHBV."
UHH = [(RH + "_uhOrd", RH + "_stuh")]
P9 = ("C09",)

CW = z3.Function("triangle_cumulative", Real, Real, Real)


def cw(t, m):
    r = t / m
    return If(t <= 0, R0, If(t >= m, R1, If(r <= z3.Q(1, 2), 2 * r * r, 1 - 2 * (1 - r) * (1 - r))))


def cw_facts(fmls):
    """facts about the cumulative weight; each is proved of its definition under the contract of _cumulativeWeight."""
    out, L = [], {}
    for fm in fmls:
        for a in apps_in(fm, lambda x: x.decl().name() == "triangle_cumulative"):
            L[a.get_id()] = a
    L = list(L.values())
    for a in L:
        t, m = a.arg(0), a.arg(1)
        out.append(imp(m > 0, And([a >= 0, a <= 1, imp(t <= 0, a == 0), imp(t >= m, a == 1)])))
    for i in range(len(L)):
        for j in range(len(L)):
            if i != j and len(L) <= 24 and z3.simplify(L[i].arg(1)).eq(z3.simplify(L[j].arg(1))):
                out.append(imp(And([L[i].arg(1) > 0, L[i].arg(0) <= L[j].arg(0)]), L[i] <= L[j]))
    return out


AXIOM_FNS.append(cw_facts)
_t2 = z3.Real("any_later_time")
contract(RH[:-1] + "::_cumulativeWeight", props=P9, pure=lambda S: CW(S.args[0], S.args[1]),
         facts=lambda S: [CW(S.args[0], S.args[1]) == cw(S.args[0], S.args[1])],
         requires=lambda S: [("base time", S.args[1] > 0)],
         checks=lambda S: [("a cumulative share", And([S.result >= 0, S.result <= 1])), ("nothing before the step", imp(S.args[0] <= 0, S.result == 0)),
                           ("all after the base time", imp(S.args[0] >= S.args[1], S.result == 1)),
                           ("never falls", imp(S.args[0] <= _t2, S.result <= cw(_t2, S.args[1])))])


def base(x):
    return If(x < 1, R1, x)


def hparam(S):
    return S.param(RH + "_maxbas")


def total(S, b, n=None):
    s = S.F(b)
    return S.sum(S.len(s) if n is None else n, lambda j: S.at(s, j))


def rec_ens(S):
    O = pre(S)
    m = base(hparam(O))
    b = RH + "_stuh"
    s, t = S.F(b), O.F(b)
    n, k = S.len(s), O.len(t)
    return [("weights " + a, e) for a, e in ords(S, S.F(RH + "_uhOrd"), CW, m, m)] + [
        ("the base time is remembered", S.F(RH + "_lastMaxbas") == hparam(O)),
        ("schedule matches", S.len(s) == S.len(S.F(RH + "_uhOrd"))),
        ("schedule kept", S.forall(0, n, lambda j: imp(j + 1 < n, S.at(s, j) == If(j < k, S.at(t, j), R0)))),
        ("schedule kept whole when it is not shortened", imp(k <= n, S.at(s, n - 1) == If(k == n, S.at(t, n - 1), R0))),
        ("nothing scheduled is lost", total(S, b) == total(O, b))]


from s_process import pre


def rec_lemmas(S):
    O = pre(S)
    b = RH + "_stuh"
    s, t = S.F(b), O.F(b)
    n, k = S.len(s), O.len(t)
    return tele(S, S.F(RH + "_uhOrd"), CW, base(hparam(O))) + [
        ("part beyond the base", lambda j: imp(n + j <= k, S.sum(j, lambda i: S.at(t, n + i)) == S.sum(n + j, lambda i: S.at(t, i)) - S.sum(n, lambda i: S.at(t, i))), If(k > n, k - n, z3.IntVal(0))),
        ("kept part of the schedule", lambda j: imp(And([j < n]), S.sum(j, lambda i: S.at(s, i)) == S.sum(If(j <= k, j, k), lambda i: S.at(t, i))), n - 1)]


contract("ProcessRoutingHBV::_recomputeUH", props=P9, requires=lambda S: [("base time", S.F(RH + "_maxbas") != nullloc)],
         modifies=[RH + x for x in ("_uhOrd", "_stuh", "_lastMaxbas")], lemmas=rec_lemmas, ensures=rec_ens)


def h_req(S):
    return [("container", And([S.F(PC) != null, S.forall(0, S.len(S.F(WC + "_inputs", cont(S))), lambda k: S.at(S.F(WC + "_inputs", cont(S)), k) != null)])),
            ("infinite level", INF > 10 ** 6)] + [("%s %s" % (o, a), e) for o, b in UHH for a, e in unit_hydro(S, o, b)]


def h_rates(S, O):
    on = O.F(RH + "_maxbas") != nullloc
    b = RH + "_stuh"
    return [("one rate", S.len(S.F(CR)) == 1),
            ("what is due plus the share of this step's inflow", rate(S) == If(on, maxz(R0, S.at(S.F(b), 0)) + S.at(S.F(RH + "_uhOrd"), 0) * inputs_sum(O, cont(O)), R0)),
            ("schedule untouched by asking", imp(hparam(O) == O.F(RH + "_lastMaxbas"), And([S.F(b) == O.F(b), S.F(RH + "_uhOrd") == O.F(RH + "_uhOrd")]))),
            ("nothing scheduled is lost", total(S, b) == total(O, b)),
            ("weights of the current base time", imp(And([on, hparam(O) != O.F(RH + "_lastMaxbas")]), S.forall(0, S.len(S.F(RH + "_uhOrd")), lambda j: S.at(S.F(RH + "_uhOrd"), j) == CW(tr(j) + 1, base(hparam(O))) - CW(tr(j), base(hparam(O)))))),
            ] + [("hydrograph " + a, e) for o, b in UHH for a, e in unit_hydro(S, o, b)]


law("ProcessRoutingHBV", P9, h_rates, any_content=True, req=h_req, mod=lambda S: [RH + x for x in ("_stuh", "_uhOrd", "_lastMaxbas")] + [AMT])


def h_out(S):
    return S.at(S.F("Process._outputs"), 0)


def h_fin_core(S):
    O = pre(S)
    fx = h_out(O)
    fr = O.F("Flux._fractionTotal", fx)
    delivered = If(And([fr > 0, fr < 1]), O.F("Flux._amount", fx) / fr, O.F("Flux._amount", fx))
    gain = content_now(O, cont(O)) - O.F(RH + "_previousContent")
    return O, delivered, gain + delivered, gain


def h_fin(S):
    O, delivered, inflow, gain = h_fin_core(S)
    b, o = RH + "_stuh", RH + "_uhOrd"
    s, t, v = S.F(b), O.F(b), O.F(o)
    n = O.len(t)
    on = O.F(RH + "_maxbas") != nullloc
    return [("no base time: nothing done", imp(Not(on), And([s == t, S.F(RH + "_previousContent") == O.F(RH + "_previousContent")])))] + [(a, imp(on, e)) for a, e in [
        ("schedule length kept", S.len(s) == n),
        ("what came in is spread in the proportions of the hydrograph, what was not delivered is due next",
         S.forall(0, n, lambda j: S.at(s, j) == If(j + 1 < n, S.at(t, j + 1) + S.at(v, j + 1) * inflow, R0) + If(j == 0, S.at(t, 0) + S.at(v, 0) * inflow - delivered, R0))),
        ("to be released plus released is what was to be released plus what came in", total(S, b) == total(O, b) + inflow - delivered),
        ("what is still to be released is what the store holds", imp(total(O, b) == O.F(RH + "_previousContent"), total(S, b) == content_now(S, cont(S)))),
        ("level remembered", S.F(RH + "_previousContent") == content_now(O, cont(O))),
        ("reported water in transit", S.F(RH + "_processStorage") == total(S, b))]]


def h_shift(S):
    O, delivered, inflow, gain = h_fin_core(S)
    b, o = RH + "_stuh", RH + "_uhOrd"
    s, t, v = S.F(b), O.F(b), O.F(o)
    n = O.len(t)
    on = O.F(RH + "_maxbas") != nullloc
    carry = S.at(t, 0) + S.at(v, 0) * inflow - delivered
    return [("what is released and in transit", lambda k: imp(And([on, k <= n]), S.sum(k, lambda j: S.at(s, j)) ==
             S.sum(k, lambda j: S.at(t, j)) - If(k > 0, S.at(t, 0), R0) + If(And([k > 0, k < n]), S.at(t, k), R0) + If(k > 0, carry, R0) +
             inflow * S.sum(k, lambda j: S.at(v, j)) - If(k > 0, S.at(v, 0) * inflow, R0) + If(And([k > 0, k < n]), S.at(v, k) * inflow, R0)), n)]


contract("ProcessRoutingHBV::Finalize", props=P9,
         requires=lambda S: h_req(S) + [("output", And([S.len(S.F("Process._outputs")) >= 1, h_out(S) != null]))],
         ensures=h_fin, lemmas=h_shift, modifies=[RH + x for x in ("_stuh", "_previousContent", "_processStorage")])
contract("ProcessRoutingHBV::Reset", props=("C09", "C15"), requires=lambda S: [("base time", S.F(RH + "_maxbas") != nullloc), ("outputs", S.forall(0, S.len(S.F("Process._outputs")), lambda k: S.at(S.F("Process._outputs"), k) != null)),
                                                                               ("infinite level", INF > 10 ** 6)],
         ensures=resets(RH, UHH, ["_previousContent", "_processStorage"]), modifies=[RH + x for x in ["_uhOrd", "_stuh", "_lastMaxbas", "_previousContent", "_processStorage"]] + [AMT])
