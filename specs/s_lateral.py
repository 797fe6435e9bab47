"""Lateral redistribution of snow (C13)."""
from common import *
from s_process import CR, PC, cont, content, pre, FieldLVof, p, RV
from core import pow_, exp_

P13 = ("C13",)
PL = "ProcessLateral."
HU = "HydroUnit."


def cover_fraction(S, brick):
    return S.F("LandCover._areaFraction", S.F("SurfaceComponent._parent", brick))


def origin(S):
    return S.F(WC + "_parent", cont(S))


def target(S, fl):
    return S.F("FluxToBrick._toBrick", fl)


def unit_area(S, b):
    return S.F("HydroUnit._area", S.F("Brick._hydroUnit", b))


def component_ok(S, b):
    return And([b != null, S.isa(b, "SurfaceComponent"), S.F("SurfaceComponent._parent", b) != null, S.F("Brick._hydroUnit", b) != null])


def flux_ok(S, fl):
    return And([fl != null, S.isa(fl, "FluxToBrick"), component_ok(S, target(S, fl))])


FROM = lambda S: [("origin", And([cont(S) != null, component_ok(S, origin(S))]))]
TO = lambda S: [("target", flux_ok(S, S.args[0]))]
contract("ProcessLateral::GetOriginLandCoverAreaFraction", props=P13, requires=FROM, pure=lambda S: cover_fraction(S, origin(S)), modifies=[])
contract("ProcessLateral::GetTargetLandCoverAreaFraction", props=P13, requires=TO, pure=lambda S: cover_fraction(S, target(S, S.args[0])), modifies=[])


def from_area(S):
    return unit_area(S, origin(S)) * cover_fraction(S, origin(S))


def to_area(S, fl):
    return unit_area(S, target(S, fl)) * cover_fraction(S, target(S, fl))


contract("ProcessLateral::ComputeFractionAreas", props=P13, modifies=[],
         requires=lambda S: FROM(S) + TO(S) + [("area to receive", to_area(S, S.args[0]) > 0)],
         ensures=lambda S: [("the mass that leaves is the mass that arrives: depth removed times the origin area is depth received times the target area",
                             S.result * to_area(S, S.args[0]) == from_area(S)),
                            ("a positive share", imp(from_area(S) >= 0, S.result >= 0))])


def target_swe(S, fl):
    return content_now(S, S.F("Snowpack._snow", target(S, fl)))


def snow_ok(S, fl):
    return And([flux_ok(S, fl), S.isa(target(S, fl), "Snowpack"), S.F("Snowpack._snow", target(S, fl)) != null])


def dens(S, k):
    return RV(250) if k == "ProcessLateralSnowSlide" else rho(S)


def rho(S):
    k = "ProcessLateralSnowRedistributionFrey"
    return If(S.F(k + "._dynamicDensity"), If(S.F(k + "._density") > 0, S.F(k + "._density"), RV(250)), p(S, k, "_snowDensity"))


def full(S, k, fl):
    return And([p(S, k, "_maxSnowDepth") > 0, target_swe(S, fl) * 1000 > RV("1.5") * p(S, k, "_maxSnowDepth") * dens(S, k)])


SL, FR = "ProcessLateralSnowSlide", "ProcessLateralSnowRedistributionFrey"
RHO = lambda S: [("density", rho(S) > 0)]
contract(FR + "::GetSnowDensity", props=P13, modifies=[], pure=lambda S: rho(S))
for k in (SL, FR):
    contract(k + "::AvoidUnrealisticAccumulation", props=P13, modifies=[],
             requires=lambda S, k=k: [("snowpack", snow_ok(S, S.args[1]))] + (RHO(S) if k == FR else []),
             pure=lambda S, k=k: If(full(S, k, S.args[1]), R0, S.args[0]))


def slide_threshold(S):     # mm of snow depth that stays
    sl = S.F(SL + "._slopeDeg")
    d = p(S, SL, "_coeff") * pow_(maxz(sl, p(S, SL, "_minSlope")), p(S, SL, "_exp")) * 1000
    d = If(sl > p(S, SL, "_maxSlope"), p(S, SL, "_minSnowHoldingDepth"), d)
    d = maxz(d, p(S, SL, "_minSnowHoldingDepth"))
    return If(p(S, SL, "_maxSnowDepth") > 0, minz(d, p(S, SL, "_maxSnowDepth")), d)


def slide_total(S):
    return minz(RV(1000), maxz(R0, content(S) - slide_threshold(S) * RV("0.25")))


def frey_total(S):
    sl = minz(RV(90), maxz(R0, S.F(FR + "._slopeDeg")))
    ex = maxz(R0, content(S) - p(S, FR, "_holdingCapacity") * rho(S) / 1000)
    rm = p(S, FR, "_rhoMax")
    f = If(rho(S) < rm, (rm - rho(S)) / rm * exp_(-rho(S) / rm) * (sl / 90), R0)
    return If(And([content(S) > 0, ex > 0, f > 0]), minz(RV(1000), ex * f * p(S, FR, "_correction")), R0)


TOT = {SL: slide_total, FR: frey_total}
where = z3.Function("connection_of_flux", Ref, Int)


def lat_req(S, k):
    v = S.F("Process._outputs")
    return FROM(S) + [("infinite level", INF > 10 ** 6), ("one weight per connection", S.len(S.F(PL + "_weights")) == S.len(v)),
                      ("connections", S.forall(0, S.len(v), lambda i: And([snow_ok(S, S.at(v, i)), where(S.at(v, i)) == i, cover_fraction(S, target(S, S.at(v, i))) >= 0,
                                                                          unit_area(S, target(S, S.at(v, i))) > 0])))] + (
        RHO(S) + [("densities", p(S, FR, "_rhoMax") > 0)] if k == FR else [])


def share(S, k, i):
    v = S.F("Process._outputs")
    fl = S.at(v, i)
    fr = cover_fraction(S, target(S, fl))
    return If(Or([fr <= PREC, full(S, k, fl)]), R0, TOT[k](S) * S.at(S.F(PL + "_weights"), i) * fr)


def reached(S, k, i):
    return And([TOT[k](S) > 0, cover_fraction(S, target(S, S.at(S.F("Process._outputs"), i))) > PREC])


def lat_inv(k):
    def inv(L, S, n):
        O = pre(S)
        v = O.F("Process._outputs")
        r = L.F(CR, S.this, n)
        return [("rates so far", And([S.len(r) == O.len(v), S.forall(0, n, lambda i: S.at(r, i) == share(O, k, i)),
                                      S.forall(0, O.len(v), lambda i: imp(i >= n, S.at(r, i) == 0))])),
                ("area ratios so far", S.forall(0, n, lambda i: imp(cover_fraction(O, target(O, O.at(v, i))) > PREC,
                                                                    L.F("Flux._fractionUnitArea", O.at(v, i), n) * to_area(O, O.at(v, i)) == from_area(O)))),
                ("no other flux", S.forall_ref(lambda f: imp(Not(mine(O, f)), And([L.F("Flux._fractionUnitArea", f, n) == O.F("Flux._fractionUnitArea", f),
                                                                                  L.F("Flux._fractionTotal", f, n) == O.F("Flux._fractionTotal", f)]))))]
    return inv


def mine(O, f):
    v = O.F("Process._outputs")
    return And([where(f) >= 0, where(f) < O.len(v), O.at(v, where(f)) == f])


def lat_ens(k):
    def ens(S):
        O = pre(S)
        v = O.F("Process._outputs")
        r = S.F(CR)
        n = O.len(v)
        return [("one rate per connection", S.len(r) == n),
                ("each neighbour takes its share: the weight times the area share of its land cover, nothing below the holding threshold",
                 S.forall(0, n, lambda i: S.at(r, i) == share(O, k, i))),
                ("what a connection delivers is scaled by the ratio of the areas", S.forall(0, n, lambda i: imp(
                    reached(O, k, i), S.F("Flux._fractionUnitArea", S.at(v, i)) * to_area(O, S.at(v, i)) == from_area(O))))]
    return ens


for k in (SL, FR):
    contract(k + "::GetRates", props=P13, requires=lambda S, k=k: lat_req(S, k), ensures=lat_ens(k), loops={1: lat_inv(k)},
             modifies=lambda S: ["Process._changeRates", ("Flux._fractionUnitArea", lambda f: mine(pre(S), f)), ("Flux._fractionTotal", lambda f: mine(pre(S), f))],
             result_lv=lambda S: FieldLVof(S, CR))


# the snow density that sets the holding threshold (dynamic scheme)
def fresh(S):
    from s_splitter import forcing
    from core import sqrt_
    T = S.F(FR + "._temperature")
    t = If(T != null, forcing(S, T), R0) / p(S, FR, "_rhoScale") + p(S, FR, "_tScale")
    return (p(S, FR, "_rhoFreshMax") - p(S, FR, "_rhoMin")) * (t / sqrt_(1 + t * t) + 1) / 2 + p(S, FR, "_rhoMin")


DENS = lambda S: [("scale", p(S, FR, "_rhoScale") > 0)]
contract(FR + "::ComputeFreshSnowDensity", props=P13, modifies=[], requires=DENS, pure=fresh)


def settle(S):
    O = pre(S)
    dyn = O.F(FR + "._dynamicDensity")
    swe = content_now(O, cont(O))
    dt = If(O.F("Process._timeMachine") != null, O.F("TimeMachine._timeStepInDays", O.F("Process._timeMachine")), R1)
    d0, p0 = O.F(FR + "._density"), O.F(FR + "._prevSwe")
    d = d0 + (p(O, FR, "_rhoMax") - d0) * minz(R1, maxz(R0, p(O, FR, "_rhoSettling") * dt))
    new, old = maxz(R0, swe - p0), maxz(R0, minz(p0, swe))
    d1 = S.F(FR + "._density")
    return [("constant density: nothing tracked", imp(Not(dyn), And([d1 == d0, S.F(FR + "._prevSwe") == p0]))),
            ("no snow: the density of fresh snow", imp(And([dyn, swe <= 0]), d1 == fresh(O))),
            ("new snow mixes with the settled snow by mass", imp(And([dyn, swe > 0, new > 0]), d1 * (old + new) == old * d + new * fresh(O))),
            ("no new snow: the snow settles", imp(And([dyn, swe > 0, new <= 0]), d1 == d)),
            ("the pack is remembered", imp(dyn, S.F(FR + "._prevSwe") == swe))]


contract(FR + "::Finalize", props=P13, requires=lambda S: [("container", cont(S) != null), ("infinite level", INF > 10 ** 6)] + DENS(S), ensures=settle,
         modifies=[FR + "._density", FR + "._prevSwe"])
contract(FR + "::Reset", props=P13 + ("C15",), modifies=[FR + "._density", FR + "._prevSwe", ("Flux._amount", None)],
         ensures=lambda S: [("density of a fresh model", S.F(FR + "._density") == 250), ("no snow remembered", S.F(FR + "._prevSwe") == 0)])
