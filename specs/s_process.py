"""Rate laws of the processes (C05, C06, C07)."""
from common import *
from s_splitter import forcing, ts_cur
from core import exp_, pow_, tanh_, sqrt_, sin_
from core import vec

CR = "Process._changeRates"
PC = "Process._container"
RV = z3.RealVal


def cont(S):
    return S.F(PC)


def content(S, c=None):
    return content_wc(S, cont(S) if c is None else c)


def snow_accessible_block(S, c):
    return And([S.isa(c, "IceContainer"), S.F("IceContainer._noMeltWhenSnowCover", c),
                content_wc(S, S.F("Snowpack._snow", S.F("IceContainer._relatedSnowpack", c))) > z3.Q(1, 2 ** 23)])


def accessible(S, c):
    return And([content_wc(S, c) > 0, Not(snow_accessible_block(S, c))])


def is_infinite_ok(S, c):
    return [("the infinite level is positive", INF > 1000)]


def pre(S):
    return SpecCtxPre(S)


def SpecCtxPre(S):
    return type(S)(S.E, S.con, S.f, S.this, S.args, S.pre, None, None, S.raw)


def one_rate(S, law, extra=()):
    r = S.F(CR)
    return [("one rate", S.len(r) == 1), ("law", S.at(r, 0) == law)] + list(extra)


def rate(S):
    return S.at(S.F(CR), 0)


def law(cls, props, ens, req=None, mod=(), **kw):
    """contract of cls::GetRates. ens(S, O, forcing-of-field) with O the pre-state view."""
    def E(S):
        return ens(S, pre(S))

    def R(S):
        r = [("container", S.F(PC) != null)]
        # rates are only asked of a storage that holds something (Process::GetChangeRates)
        if not kw.get("any_content"):
            r.append(("content", content(S) > PREC))
        r.append(("infinite level", INF > 10 ** 6))
        return r + (req(S) if req else [])

    def M(S):
        return ["Process._changeRates"] + list(mod(S) if callable(mod) else mod)
    return contract(cls + "::GetRates", props=props, requires=R, ensures=E, modifies=M, result_lv=lambda S: FieldLVof(S, CR),
                    **{k: v for k, v in kw.items() if k != "any_content"})


def FieldLVof(S, key):
    from engine import FieldLV
    k = S.key(key)
    return FieldLV(k, S.this, S.E.field_type(k))


def f(S, cls, n):
    return forcing(S, S.F(cls + "." + n))


def p(S, cls, n):
    return S.param(cls + "." + n)


def nonneg(*xs):
    return And([x >= 0 for x in xs])


def filling(S, c):
    x = content_wc(S, c) / capacity(S, c)
    return maxz(R0, minz(R1, x))


# ---- containers the laws read -------------------------------------------------
contract("WaterContainer::ContentAccessible", props=("C05", "C06"), subtypes=True,
         requires=lambda S: [("snowpack known", imp(And([S.isa(S.this, "IceContainer"), S.F("IceContainer._noMeltWhenSnowCover")]),
                                                   And([S.F("IceContainer._relatedSnowpack") != null, S.F("Snowpack._snow", S.F("IceContainer._relatedSnowpack")) != null])))],
         pure=lambda S: accessible(S, S.this))
contract("WaterContainer::GetTargetFillingRatio", props=("C05", "C07"), pure=lambda S: filling(S, S.this),
         requires=lambda S: [("capacity", And([S.F(WC + "_capacity") != nullloc, capacity(S, S.this) > 0]))])

SHIELD = lambda S: [("snowpack known", imp(And([S.isa(cont(S), "IceContainer"), S.F("IceContainer._noMeltWhenSnowCover", cont(S))]),
                                           And([S.F("IceContainer._relatedSnowpack", cont(S)) != null, S.F("Snowpack._snow", S.F("IceContainer._relatedSnowpack", cont(S))) != null])))]
CAP = lambda S: [("capacity", And([S.F(WC + "_capacity", cont(S)) != nullloc, capacity(S, cont(S)) > 0]))]


def PET(cls, extra=None):
    return lambda S: CAP(S) + [("demand", f(S, cls, "_pet") >= 0)] + (extra(S) if extra else [])


def bounds(S, O, cls, dem=None):
    d = f(O, cls, "_pet") if dem is None else dem
    return [("between zero and the demand", And([rate(S) >= 0, rate(S) <= d]))]


# ---- C05 evapotranspiration ---------------------------------------------------
law("ProcessETLinear", ("C05",), req=PET("ProcessETLinear"),
    ens=lambda S, O: one_rate(S, f(O, "ProcessETLinear", "_pet") * filling(O, cont(O)), bounds(S, O, "ProcessETLinear") + [
        ("full store: full demand", imp(content(O) >= capacity(O, cont(O)), rate(S) == f(O, "ProcessETLinear", "_pet")))]))
law("ProcessETPowerLaw", ("C05",), req=PET("ProcessETPowerLaw", lambda S: [("exponent", p(S, "ProcessETPowerLaw", "_exponent") >= 0)]),
    ens=lambda S, O: one_rate(S, f(O, "ProcessETPowerLaw", "_pet") * pow_(filling(O, cont(O)), p(O, "ProcessETPowerLaw", "_exponent")), bounds(S, O, "ProcessETPowerLaw") + [
        ("full store: full demand", imp(content(O) >= capacity(O, cont(O)), rate(S) == f(O, "ProcessETPowerLaw", "_pet")))]))
law("ProcessETSocont", ("C05",), req=PET("ProcessETSocont", lambda S: [("square root law", S.F("ProcessETSocont._exponent") == z3.Q(1, 2))]),
    ens=lambda S, O: one_rate(S, f(O, "ProcessETSocont", "_pet") * pow_(filling(O, cont(O)), z3.Q(1, 2)), bounds(S, O, "ProcessETSocont") + [
        ("full store: full demand", imp(content(O) >= capacity(O, cont(O)), rate(S) == f(O, "ProcessETSocont", "_pet")))]))
law("ProcessETExponential", ("C05",), req=PET("ProcessETExponential", lambda S: [("curvature", p(S, "ProcessETExponential", "_alpha") >= 0)]),
    ens=lambda S, O: one_rate(S, f(O, "ProcessETExponential", "_pet") * (1 - exp_(-p(O, "ProcessETExponential", "_alpha") * filling(O, cont(O)))), bounds(S, O, "ProcessETExponential")))
law("ProcessETHBV", ("C05",), req=PET("ProcessETHBV", lambda S: [("parameters", nonneg(p(S, "ProcessETHBV", "_lp"), p(S, "ProcessETHBV", "_etCorrectionFactor")))]),
    ens=lambda S, O: (lambda d, th: one_rate(S, If(th <= 0, d, d * minz(R1, content(O) / th)), bounds(S, O, "ProcessETHBV", d) + [
        ("full demand above the threshold", imp(content(O) >= th, rate(S) == d))]))(
        f(O, "ProcessETHBV", "_pet") * p(O, "ProcessETHBV", "_etCorrectionFactor"), p(O, "ProcessETHBV", "_lp") * capacity(O, cont(O))))


def dt_of(S):
    return S.F("TimeMachine._timeStepInDays", S.F("Process._timeMachine"))


law("ProcessETOpenWater", ("C05",), req=lambda S: [("demand", f(S, "ProcessETOpenWater", "_pet") >= 0)],
    ens=lambda S, O: (lambda d, tm: one_rate(S, If(And([tm != null, dt_of(O) > 0]), minz(d, content(O) / dt_of(O)), d), bounds(S, O, "ProcessETOpenWater") + [
        ("no more than the store holds", imp(And([tm != null, dt_of(O) > 0]), rate(S) * dt_of(O) <= content(O)))]))(f(O, "ProcessETOpenWater", "_pet"), O.F("Process._timeMachine")))


def infil(Sx, Pn, X1):
    t = tanh_(minz(Pn / X1, RV(13)))
    sr = Sx / X1
    return If(Or([Pn <= 0, X1 <= 0]), R0, X1 * (1 - sr * sr) * t / (1 + sr * t))


def evap(Sx, En, X1):
    t = tanh_(minz(En / X1, RV(13)))
    sr = Sx / X1
    return If(Or([En <= 0, X1 <= 0]), R0, Sx * (2 - sr) * t / (1 + (1 - sr) * t))


def perc(Sx, X1):
    r = Sx / X1
    return If(X1 <= 0, R0, Sx * (1 - pow_(1 + (r * r * r * r) / z3.Q(2562890625, 10 ** 8), z3.Q(-1, 4))))


def et_gr4j(S, O):
    En = f(O, "ProcessETGR4J", "_pet")
    c = cont(O)
    X1 = capacity(O, c)
    S0 = content_now(O, c)
    Pn = content_wc(O, c) - content_dyn(O, c)
    S1 = S0 + infil(S0, Pn, X1)
    return [("one rate", S.len(S.F(CR)) == 1),
            ("production store evaporation after the infiltration of the step", rate(S) == If(Or([En <= 0, X1 <= 0]), R0, evap(S1, En, X1))),
            ("no demand, no evaporation", imp(En <= 0, rate(S) == 0))]


law("ProcessETGR4J", ("C05", "C08"), req=lambda S: [("capacity", S.F(WC + "_capacity", cont(S)) != nullloc)], ens=et_gr4j)

law("ProcessInterceptionGR4J", ("C05",), req=lambda S: [("demand", f(S, "ProcessInterceptionGR4J", "_pet") >= 0)],
    mod=lambda S: [("Forcing._updatedValue", S.F("ProcessInterceptionGR4J._pet")), ("Forcing._hasUpdatedValue", S.F("ProcessInterceptionGR4J._pet"))],
    ens=lambda S, O: (lambda P, E_: one_rate(S, minz(P, E_), [
        ("rain left plus rain intercepted is the rain", And([rate(S) <= P, rate(S) >= 0])),
        ("the remaining demand is what was not met", f(S, "ProcessInterceptionGR4J", "_pet") == E_ - rate(S))]))(content(O), f(O, "ProcessInterceptionGR4J", "_pet")))

law("ProcessSublimationConstant", ("C05",), req=SHIELD,
    ens=lambda S, O: one_rate(S, If(accessible(O, cont(O)), p(O, "ProcessSublimationConstant", "_sublimationRate"), R0)))
law("ProcessSublimationPET", ("C05",), req=lambda S: SHIELD(S) + [("demand", f(S, "ProcessSublimationPET", "_pet") >= 0)],
    ens=lambda S, O: one_rate(S, If(accessible(O, cont(O)), f(O, "ProcessSublimationPET", "_pet") * p(O, "ProcessSublimationPET", "_petFactor"), R0)))

# ---- C06 melt and refreezing --------------------------------------------------


def melt(cls, factor):
    def ens(S, O):
        T, T0 = f(O, cls, "_temperature"), p(O, cls, "_meltingTemperature")
        return one_rate(S, If(And([accessible(O, cont(O)), T > T0]), (T - T0) * factor(O), R0), [
            ("never negative", imp(factor(O) >= 0, rate(S) >= 0)),
            ("no melt at or below the melting temperature", imp(T <= T0, rate(S) == 0)),
            ("no melt when the snow or ice is not accessible", imp(Not(accessible(O, cont(O))), rate(S) == 0))])
    law(cls, ("C06",), ens=ens, req=SHIELD)


melt("ProcessMeltDegreeDay", lambda O: p(O, "ProcessMeltDegreeDay", "_degreeDayFactor"))
melt("ProcessMeltDegreeDayAspect", lambda O: p(O, "ProcessMeltDegreeDayAspect", "_degreeDayFactor"))
melt("ProcessMeltTemperatureIndex", lambda O: p(O, "ProcessMeltTemperatureIndex", "_meltFactor") + p(O, "ProcessMeltTemperatureIndex", "_radiationCoefficient") * f(O, "ProcessMeltTemperatureIndex", "_solarRadiation"))


def cema(S, O):
    k = "ProcessMeltCemaNeige"
    T, T0, ctg, kf = f(O, k, "_temperature"), p(O, k, "_meltingTemp"), p(O, k, "_coldContentFactor"), p(O, k, "_degreeDayFactor")
    cn = z3.Q(9, 10) * p(O, k, "_meanAnnualSnow")
    acc = accessible(O, cont(O))
    g0, g1 = O.F(k + "._coldContent"), S.F(k + "._coldContent")
    cold = minz(R0, ctg * g0 + (1 - ctg) * (T - T0))
    ratio = If(cn > 0, minz(R1, content(O) / cn), R1)
    return [("one rate", S.len(S.F(CR)) == 1),
            ("thermal state", g1 == If(acc, cold, g0)),
            ("law", rate(S) == If(And([acc, cold == 0, T > T0]), (z3.Q(9, 10) * ratio + z3.Q(1, 10)) * kf * (T - T0), R0)),
            ("never negative", imp(kf >= 0, rate(S) >= 0))]


law("ProcessMeltCemaNeige", ("C06",), ens=cema, req=SHIELD, mod=["ProcessMeltCemaNeige._coldContent"])


def refreeze(S, O):
    k, m = "ProcessRefreezeDegreeDay", "ProcessMeltDegreeDay"
    mp = O.F(k + "._meltProcess")
    T, T0 = f(O, k, "_temperature"), O.param(m + "._meltingTemperature", mp)
    law_ = If(T >= T0, R0, p(O, k, "_refreezingFactor") * O.param(m + "._degreeDayFactor", mp) * (T0 - T))
    return [("one rate", S.len(S.F(CR)) == 1),
            ("law", imp(mp != null, rate(S) == law_)),
            ("none at or above the threshold", imp(And([mp != null, T >= T0]), rate(S) == 0)),
            ("never negative", imp(And([mp != null, p(O, k, "_refreezingFactor") >= 0, O.param(m + "._degreeDayFactor", mp) >= 0]), rate(S) >= 0))]


law("ProcessRefreezeDegreeDay", ("C06",), ens=refreeze, mod=["ProcessRefreezeDegreeDay._meltProcess"],
    req=lambda S: [("sibling found at validation", S.F("ProcessRefreezeDegreeDay._meltProcess") != null)])
law("ProcessTransformSnowToIceConstant", ("C06",), ens=lambda S, O: one_rate(S, p(O, "ProcessTransformSnowToIceConstant", "_rate")))


def holding(S, O):
    b = O.F(WC + "_parent", cont(O))
    swe = content_wc(O, O.F("Snowpack._snow", b))
    ex = content(O) - p(O, "ProcessOutflowSnowHolding", "_waterHoldingCapacity") * swe
    dt = If(O.F("Process._timeMachine") != null, dt_of(O), R1)
    return [("one rate", S.len(S.F(CR)) == 1),
            ("water above the holding capacity leaves within the step", imp(O.isa(b, "Snowpack"), rate(S) * dt == maxz(ex, R0))),
            ("never negative", imp(O.isa(b, "Snowpack"), rate(S) >= 0))]


law("ProcessOutflowSnowHolding", ("C06",), ens=holding, req=lambda S: [("snow store", imp(S.isa(S.F(WC + "_parent", cont(S)), "Snowpack"), S.F("Snowpack._snow", S.F(WC + "_parent", cont(S))) != null)),
                                                                       ("parent", S.F(WC + "_parent", cont(S)) != null),
                                                                       ("step", imp(S.F("Process._timeMachine") != null, dt_of(S) > 0))])

# ---- C07 soil and reservoirs --------------------------------------------------
law("ProcessOutflowDirect", ("C07",), ens=lambda S, O: one_rate(S, maxz(content(O), R0)), any_content=True)
law("ProcessOutflowLinear", ("C07",), ens=lambda S, O: one_rate(S, p(O, "ProcessOutflowLinear", "_responseFactor") * content(O)))
law("ProcessOutflowOverflow", ("C07",), ens=lambda S, O: one_rate(S, R0), any_content=True)
law("ProcessOutflowThreshold", ("C07",), req=lambda S: [("step", imp(S.F("Process._timeMachine") != null, dt_of(S) > 0))],
    ens=lambda S, O: (lambda ex, dt: [("one rate", S.len(S.F(CR)) == 1),
                                      ("all the excess over the threshold leaves within the step", rate(S) * dt == maxz(ex, R0)),
                                      ("nothing below the threshold", imp(ex <= 0, rate(S) == 0))])(
        content(O) - p(O, "ProcessOutflowThreshold", "_capacity"), If(O.F("Process._timeMachine") != null, dt_of(O), R1)))
law("ProcessPercolationConstant", ("C07",), ens=lambda S, O: one_rate(S, p(O, "ProcessPercolationConstant", "_rate")))
law("ProcessPercolationGR4J", ("C07", "C08"), req=lambda S: [("capacity", S.F(WC + "_capacity", cont(S)) != nullloc)],
    ens=lambda S, O: one_rate(S, perc(content(O), capacity(O, cont(O))), [("no more than the store holds", And([rate(S) >= 0, rate(S) <= content(O)]))]))
law("ProcessRunoffHBV", ("C07",), ens=lambda S, O: one_rate(S, p(O, "ProcessRunoffHBV", "_responseFactor") * pow_(content(O), 1 + p(O, "ProcessRunoffHBV", "_alpha"))))


def tgt(S):
    return S.F("Brick._water", S.F("ProcessInfiltration._targetBrick"))


TGT = lambda S: [("target", And([S.F("ProcessInfiltration._targetBrick") != null, tgt(S) != null, S.F(WC + "_capacity", tgt(S)) != nullloc]))]
law("ProcessInfiltrationSocont", ("C07",), req=TGT,
    ens=lambda S, O: one_rate(S, If(capacity(O, tgt(O)) <= 0, R0, content(O) * (1 - filling(O, tgt(O)) * filling(O, tgt(O)))), [
        ("a share of the available water", And([rate(S) >= 0, rate(S) <= content(O)]))]))
law("ProcessInfiltrationHBV", ("C07",), req=lambda S: TGT(S) + [("shape", p(S, "ProcessInfiltrationHBV", "_beta") >= 0)],
    ens=lambda S, O: one_rate(S, If(capacity(O, tgt(O)) <= 0, R0, content(O) * (1 - pow_(filling(O, tgt(O)), p(O, "ProcessInfiltrationHBV", "_beta")))), [
        ("a share of the available water", And([rate(S) >= 0, rate(S) <= content(O)]))]))
law("ProcessInfiltrationGR4J", ("C07", "C08"), req=TGT,
    ens=lambda S, O: one_rate(S, infil(content_wc(O, tgt(O)), content(O), capacity(O, tgt(O)))))


def socont_area(O):
    af = O.F("ProcessRunoffSocont._areaFraction")
    return O.F("ProcessRunoffSocont._areaUnit") * If(af != nullloc, O.deref(af), R1)


def socont(S, O):
    k = "ProcessRunoffSocont"
    h = content(O) * 2 / 1000
    q = p(O, k, "_beta") * sqrt_(O.F(k + "._slope")) * pow_(h, O.F(k + "._exponent")) / socont_area(O)
    r = q * 86400 * 1000
    return one_rate(S, minz(r, content(O)), [("no more than the store holds", rate(S) <= content(O)),
                                            ("not negative", imp(nonneg(p(O, k, "_beta"), O.F(k + "._slope")), rate(S) >= 0))])


law("ProcessRunoffSocont", ("C07",), req=lambda S: [("area", socont_area(S) > 0), ("slope", S.F("ProcessRunoffSocont._slope") >= 0)], ens=socont)


def capil(S, O):
    k = "ProcessCapillaryHBV"
    T = O.F(k + "._targetBricks")
    n = O.len(T)
    W = O.F(k + "._weights")
    c = p(O, k, "_maxCapillaryFlux")

    def one(i):
        t = O.F("Brick._water", O.at(T, i))
        w = O.at(W, i)
        wt = If(O.len(w) == 0, R1, O.sum(O.len(w), lambda j: O.deref(O.at(w, j))))
        return S.at(S.F(CR), i) == If(capacity(O, t) <= 0, R0, c * wt * (1 - filling(O, t)))
    return [("one rate per soil", S.len(S.F(CR)) == n), ("law", S.forall(0, n, one))]


law("ProcessCapillaryHBV", ("C07",), ens=capil, any_content=True,
    req=lambda S: [("targets", S.forall(0, S.len(S.F("ProcessCapillaryHBV._targetBricks")), lambda i: And([
        S.at(S.F("ProcessCapillaryHBV._targetBricks"), i) != null, S.F("Brick._water", S.at(S.F("ProcessCapillaryHBV._targetBricks"), i)) != null,
        S.F(WC + "_capacity", S.F("Brick._water", S.at(S.F("ProcessCapillaryHBV._targetBricks"), i))) != nullloc]))),
        ("weights", S.len(S.F("ProcessCapillaryHBV._weights")) == S.len(S.F("ProcessCapillaryHBV._targetBricks")))])


def rest(S, O):
    c = cont(O)
    b = O.F(WC + "_parent", c)
    Pv = O.F("Brick._processes", b)
    n = O.len(Pv)

    def per(i):
        pr = O.at(Pv, i)
        ov = O.F("Process._outputs", pr)
        return If(pr == S.this, R0, O.sum(O.len(ov), lambda j: If(O.F("Flux._changeRate", O.at(ov, j)) != nullloc, O.deref(O.F("Flux._changeRate", O.at(ov, j))), R0)))
    sib = O.sum(n, per)
    r = content(O) - If(And([b != null, O.F("Brick._needsSolver", b)]), sib, R0)
    return one_rate(S, maxz(r, R0))


law("ProcessOutflowRest", ("C07",), ens=rest, any_content=True,
    req=lambda S: [("processes", S.forall(0, S.len(S.F("Brick._processes", S.F(WC + "_parent", cont(S)))), lambda i: S.at(S.F("Brick._processes", S.F(WC + "_parent", cont(S))), i) != null))])

# the law each process object follows, as seen through the virtual call
# (a function of the process, of what it reads - the setting, which changes with every other storage, forcing or
# parameter - and of the amount its own storage changed by so far in the step)
GHOSTS["setting"] = z3.ArraySort(Ref, Int)
LAW = z3.Function("law_of", Ref, Int, Real, vec(Real).sort)
RATE = z3.Function("change_rates_of", Ref, Int, Real, vec(Real).sort)
NCON = z3.Function("connections_of", Ref, Int)


def connections(S):
    """definition: one connection, except for the processes with a list of outputs fixed at build time."""
    return NCON(S.this) == If(Or([S.isa(S.this, "ProcessOutflow"), S.isa(S.this, "ProcessLateral")]), S.len(S.F("Process._outputs")), z3.IntVal(1))


for c in ("Process", "ProcessET", "ProcessInfiltration", "ProcessMelt", "ProcessOutflow", "ProcessSublimation", "ProcessLateral", "ProcessTransform"):
    contract(c + "::GetConnectionCount", props=() if c == "Process" else ("C11",), verify=c != "Process", pure=lambda S: NCON(S.this), facts=lambda S: [connections(S)],
             ensures=lambda S: [("count", NCON(S.this) >= 0)],
             note="dispatch: each override is under the same contract (the output lists do not change after the model is built)")


def law_at(S):
    return LAW(S.this, S.old("setting"), pre(S).F(WC + "_contentChangeDynamic", cont(pre(S))))


contract("Process::GetRates", props=(), trusted="dispatch to the process's own law, each under its own contract", verify=False,
         modifies=lambda S: ["Process._changeRates", ("Forcing._updatedValue", None), ("Forcing._hasUpdatedValue", None), ("ProcessMeltCemaNeige._coldContent", S.this), ("Flux._fractionUnitArea", None), ("Flux._fractionTotal", None),
                             ("ProcessRefreezeDegreeDay._meltProcess", S.this)],
         result_lv=lambda S: FieldLVof(S, CR), ensures=lambda S: [("its law", S.F(CR) == law_at(S))])


def change_rates(S):
    O = pre(S)
    r = S.F(CR)
    none = content(O) <= PREC
    return [("nothing leaves an empty store", imp(none, S.forall(0, S.len(r), lambda i: S.at(r, i) == 0))),
            ("otherwise its law", imp(Not(none), r == law_at(S)))]


contract("Process::GetChangeRates", props=("C05", "C06", "C07"), requires=lambda S: [("container", cont(S) != null)], ensures=change_rates,
         modifies=lambda S: ["Process._changeRates", ("Forcing._updatedValue", None), ("Forcing._hasUpdatedValue", None), ("ProcessMeltCemaNeige._coldContent", S.this), ("Flux._fractionUnitArea", None), ("Flux._fractionTotal", None),
                             ("ProcessRefreezeDegreeDay._meltProcess", S.this)], result_lv=lambda S: FieldLVof(S, CR),
         ghost=lambda S: [("the rates at this content", S.F(CR) == RATE(S.this, S.old("setting"), pre(S).F(WC + "_contentChangeDynamic", cont(pre(S)))))])
