"""Forcing and precipitation splitters (C04, C18)."""
from common import *
from s_flux import upd_requires, is_inst

TSD = "TimeSeriesData."


def ts_cur(S, t):
    return vget(S.F(TSD + "_values", t), S.F(TSD + "_cursor", t))


def forcing(S, f):
    """value served by the Forcing object f."""
    return If(S.F("Forcing._hasUpdatedValue", f), S.F("Forcing._updatedValue", f), ts_cur(S, S.F("Forcing._timeSeriesData", f)))


contract("TimeSeriesData::GetCurrentValue", props=("C04", "C18"), verify=False, pure=lambda S: ts_cur(S, S.this),
         note="assumed: while a step is computed the series stands on one of its values (TimeSeriesDataRegular::GetCurrentValue throws otherwise)")
contract("Forcing::GetValue", props=("C04", "C18"), pure=lambda S: forcing(S, S.this))
contract("Forcing::UpdateValue", props=("C18", "C05"), modifies=["Forcing._updatedValue", "Forcing._hasUpdatedValue"],
         ensures=lambda S: [("overridden", forcing(S, S.this) == S.args[0]), ("marked", S.F("Forcing._hasUpdatedValue"))])
contract("Forcing::ResetUpdate", props=("C18",), modifies=["Forcing._hasUpdatedValue"],
         ensures=lambda S: [("the override is dropped", Not(S.F("Forcing._hasUpdatedValue"))), ("override forgotten", forcing(S, S.this) == ts_cur(S, S.F("Forcing._timeSeriesData")))])


def outs(S, i):
    return S.at(S.F("Splitter._outputs"), i)


def split_req(n):
    def req(S):
        o = [outs(S, i) for i in range(n)]
        r = [("outputs", And([S.len(S.F("Splitter._outputs")) == n] + [x != null for x in o] + ([o[0] != o[1]] if n == 2 else [])))]
        for i, x in enumerate(o):
            S2 = S.on(x)
            r.append(("output %d is a plain flux" % i, And([Not(is_inst(S, x)), S.F("Flux._fractionTotal", x) == 1])))
        r.append(("precipitation is not negative", forcing(S, S.F(S.con.cls + "._precipitation")) >= 0))
        return r
    return req


def split_mod(n):
    return lambda S: [("Flux._amount", lambda r: Or([r == S.at(S.old("Splitter._outputs"), i) for i in range(n)]))]


def shares(S, cls, rcf, scf, share, extra=()):
    """rain and snow as the corrected shares of the precipitation; share: snow share specified."""
    P = forcing(S, S.F(cls + "._precipitation"))
    rain, snow = S.F("Flux._amount", outs(S, 0)), S.F("Flux._amount", outs(S, 1))
    return [("rain is the corrected liquid share", rain == P * (1 - share) * rcf),
            ("snow is the corrected solid share", snow == P * share * scf),
            ("nothing negative", imp(And([rcf >= 0, scf >= 0]), And([rain >= 0, snow >= 0]))),
            ("the shares add up to the precipitation", imp(And([rcf == 1, scf == 1]), rain + snow == P))] + list(extra)


def pos_cf(S, cls):
    return [("correction factors", And([S.param(cls + "._rainCorrectionFactor") >= 0, S.param(cls + "._snowCorrectionFactor") >= 0]))]


C = "SplitterSnowRainThreshold"


def thr(S):
    T = forcing(S, S.F("SplitterSnowRainThreshold._temperature"))
    return shares(S, "SplitterSnowRainThreshold", S.param("SplitterSnowRainThreshold._rainCorrectionFactor"), S.param("SplitterSnowRainThreshold._snowCorrectionFactor"),
                  If(T <= S.param("SplitterSnowRainThreshold._threshold"), R1, R0))


def mk(cls, ens, extra=None):
    con = contract(cls + "::Compute", props=("C04",), modifies=split_mod(2), ensures=ens,
                   requires=lambda S: split_req(2)(S) + pos_cf(S, cls) + (extra(S) if extra else []))
    con.cls = cls


mk(C, thr)


def linear(S):
    c = "SplitterSnowRainLinear"
    T = forcing(S, S.F(c + "._temperature"))
    a, b = S.param(c + "._transitionStart"), S.param(c + "._transitionEnd")
    P = forcing(S, S.F(c + "._precipitation"))
    rcf, scf = S.param(c + "._rainCorrectionFactor"), S.param(c + "._snowCorrectionFactor")
    rain, snow = S.F("Flux._amount", outs(S, 0)), S.F("Flux._amount", outs(S, 1))
    mid = And([T > a, T < b])
    return [("all snow at and below the transition start", imp(T <= a, And([rain == 0, snow == P * scf]))),
            ("all rain at and above the transition end", imp(And([T > a, T >= b]), And([rain == P * rcf, snow == 0]))),
            ("rain share rises linearly", imp(mid, rain * (b - a) == P * (T - a) * rcf)),
            ("snow share falls linearly", imp(mid, snow * (b - a) == P * (b - T) * scf)),
            ("nothing negative", And([rain >= 0, snow >= 0])),
            ("corrected shares add up", imp(rcf == scf, rain + snow == P * rcf))]


mk("SplitterSnowRainLinear", linear)


def cema(S):
    c = "SplitterSnowRainCemaNeige"
    T, tn, tx = (forcing(S, S.F(c + "." + x)) for x in ("_temperature", "_temperatureMin", "_temperatureMax"))
    P = forcing(S, S.F(c + "._precipitation"))
    z = S.F(c + "._elevation")
    rcf, scf = S.param(c + "._rainCorrectionFactor"), S.param(c + "._snowCorrectionFactor")
    rain, snow = S.F("Flux._amount", outs(S, 0)), S.F("Flux._amount", outs(S, 1))
    hi, lo = z >= 1500, z < 1500
    mh, ml = And([hi, T > -1, T < 3]), And([lo, tx > 0, tn < 0])
    allsnow, allrain = And([rain == 0, snow == P * scf]), And([rain == P * rcf, snow == 0])
    return [("high: all snow at and below -1", imp(And([hi, T <= -1]), allsnow)),
            ("high: all rain at and above 3", imp(And([hi, T >= 3]), allrain)),
            ("high: linear between", imp(mh, And([4 * snow == P * (3 - T) * scf, 4 * rain == P * (T + 1) * rcf]))),
            ("low: all snow when the maximum is not above zero", imp(And([lo, tx <= 0, tx >= tn]), allsnow)),
            ("low: all rain when the minimum is not below zero", imp(And([lo, tn >= 0, tx >= tn, tx > 0]), allrain)),
            ("low: share of the temperature range below zero", imp(ml, And([snow * (tx - tn) == -P * tn * scf, rain * (tx - tn) == P * tx * rcf]))),
            ("nothing negative", And([rain >= 0, snow >= 0])),
            ("corrected shares add up", imp(rcf == scf, rain + snow == P * rcf))]


mk("SplitterSnowRainCemaNeige", cema, lambda S: [("elevation is a number", S.F("SplitterSnowRainCemaNeige._elevation") != NAN)])

con = contract("SplitterRain::Compute", props=("C04",), modifies=split_mod(1), requires=split_req(1),
               ensures=lambda S: [("all precipitation is rain", S.F("Flux._amount", outs(S, 0)) == forcing(S, S.F("SplitterRain._precipitation")) * S.param("SplitterRain._rainCorrectionFactor"))])
con.cls = "SplitterRain"

# GetAmount: what a receiver reads
def amount_read(S, f):
    return If(is_inst(S, f), R0, If(S.isa(f, "FluxForcing"), forcing(S, S.F("FluxForcing._forcing", f)), S.F("Flux._amount", f)))


def amount_read_old(S, f):
    S2 = SpecCtxPre(S)
    return amount_read(S2, f)


def SpecCtxPre(S):
    return type(S)(S.E, S.con, S.f, S.this, S.args, S.pre, None, None, S.raw)


contract("Flux::GetAmount", props=("C03", "C04"), subtypes=True,
         modifies=["Flux._amount"],
         ensures=lambda S: [("what the flux carries", S.result == amount_read_old(S, S.this)),
                            ("a forcing flux records it", S.F("Flux._amount") == If(S.isa(S.this, "FluxForcing"), forcing(SpecCtxPre(S), S.old("FluxForcing._forcing")), S.old("Flux._amount")))])


def inputs_sum(S, c):
    """what a container reads from its incoming fluxes (pre-state)."""
    O = SpecCtxPre(S)
    v = O.F(WC + "_inputs", c)
    return O.sum(O.len(v), lambda k: amount_read(O, O.at(v, k)))


NOAMT = ("Flux._amount", lambda r: z3.BoolVal(True))
contract("WaterContainer::SumIncomingFluxes", props=("C03", "C01"), modifies=[("Flux._amount", None)],
         requires=lambda S: [("inputs", S.forall(0, S.len(S.F(WC + "_inputs")), lambda k: S.at(S.F(WC + "_inputs"), k) != null))],
         ensures=lambda S: [("sum of what the incoming fluxes carry", S.result == inputs_sum(S, S.this)),
                            ("only a forcing flux records what it read", S.forall_ref(lambda f: S.F("Flux._amount", f) == If(And([
                                S.isa(f, "FluxForcing"), z3.Not(S.F("Flux._amount", f) == S.old("Flux._amount", f))]), forcing(SpecCtxPre(S), S.old("FluxForcing._forcing", f)), S.old("Flux._amount", f))))])


def splitter_input(S):
    """what a splitter reads from its incoming fluxes (pre-state)."""
    O = SpecCtxPre(S)
    v = O.F("Splitter._inputs")
    return O.sum(O.len(v), lambda k: amount_read(O, O.at(v, k)))


def multi_ens(S):
    n = S.len(S.old("Splitter._outputs"))
    return [("every branch gets the whole input", S.forall(0, n, lambda k: S.F("Flux._amount", S.at(S.old("Splitter._outputs"), k)) == splitter_input(S)))]


def multi_inv(L, S, k):
    o = lambda j: S.at(S.old("Splitter._outputs"), j)
    return [("branches so far", S.forall(0, k, lambda j: L.F("Flux._amount", o(j), k) == splitter_input(S))),
            ("no credit", L.Hh(WC + "_contentChangeStatic", k) == S.oldH(WC + "_contentChangeStatic"))]


def multi_req(S):
    ni, no = S.len(S.F("Splitter._inputs")), S.len(S.F("Splitter._outputs"))
    i, o = (lambda k: S.at(S.F("Splitter._inputs"), k)), (lambda k: S.at(S.F("Splitter._outputs"), k))
    return [("input", S.forall(0, ni, lambda k: i(k) != null)),
            ("branches", S.forall(0, no, lambda k: And([o(k) != null, Not(is_inst(S, o(k))), S.F("Flux._fractionTotal", o(k)) == 1]))),
            ("distinct branches", S.forall(0, no, lambda k: S.forall(0, k, lambda j: o(j) != o(k))))]


contract("SplitterMultiFluxes::Compute", props=("C04",), ensures=multi_ens, loops={2: multi_inv}, requires=multi_req,
         modifies=lambda S: [("Flux._amount", None)])
