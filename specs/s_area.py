"""Area fractions reach the weighted fluxes (C03, C12)."""
from common import *


def weighted(S, value):
    """every weighted output of the processes of this brick carries `value`, and only those changed."""
    Pv = S.old("Brick._processes")
    out = lambda i: S.old("Process._outputs", S.at(Pv, i))
    hit = lambda f: S.old("Flux._needsWeighting", f)
    ok = lambda f: And([S.F("Flux._fractionLandCover", f) == value, S.F("Flux._fractionTotal", f) == S.old("Flux._fractionUnitArea", f) * value])
    keep = lambda f: And([S.F("Flux._fractionLandCover", f) == S.old("Flux._fractionLandCover", f), S.F("Flux._fractionTotal", f) == S.old("Flux._fractionTotal", f)])
    return [("every weighted output carries the fraction", S.forall(0, S.len(Pv), lambda i: S.forall(0, S.len(out(i)), lambda j: imp(hit(S.at(out(i), j)), ok(S.at(out(i), j)))))),
            ("a flux changes only to carry the fraction", S.forall_ref(lambda f: Or([keep(f), And([hit(f), ok(f)])])))]


procs_ok = lambda S: [("processes", S.forall(0, S.len(S.F("Brick._processes")), lambda i: And([S.at(S.F("Brick._processes"), i) != null] + [
    S.forall(0, S.len(S.F("Process._outputs", S.at(S.F("Brick._processes"), i))), lambda j: S.at(S.F("Process._outputs", S.at(S.F("Brick._processes"), i)), j) != null)])))]
MOD = [("Flux._fractionTotal", None), ("Flux._fractionLandCover", None)]

comps = lambda S: S.F("LandCover._surfaceComponents")


def frame(S):
    """a flux that changed needs weighting, and its total is kept consistent."""
    keep = lambda f: And([S.F("Flux._fractionLandCover", f) == S.old("Flux._fractionLandCover", f), S.F("Flux._fractionTotal", f) == S.old("Flux._fractionTotal", f)])
    return S.forall_ref(lambda f: Or([keep(f), And([S.old("Flux._needsWeighting", f), S.F("Flux._fractionTotal", f) == S.old("Flux._fractionUnitArea", f) * S.F("Flux._fractionLandCover", f)])]))


comps_ok = lambda S: [("components", S.forall(0, S.len(comps(S)), lambda i: And([S.at(comps(S), i) != null, S.F("SurfaceComponent._parent", S.at(comps(S), i)) != null] + [t for _, t in procs_ok(S.on(S.at(comps(S), i)))])))]
contract("LandCover::SetAreaFraction", props=("C03", "C12"), requires=lambda S: procs_ok(S) + comps_ok(S), modifies=lambda S: ["LandCover._areaFraction", ("SurfaceComponent._areaFraction", None)] + MOD,
         loops={1: lambda L, S, k: [("frame", S.forall_ref(lambda f: Or([And([L.F("Flux._fractionLandCover", f, k) == S.old("Flux._fractionLandCover", f), L.F("Flux._fractionTotal", f, k) == S.old("Flux._fractionTotal", f)]),
             And([S.old("Flux._needsWeighting", f), L.F("Flux._fractionTotal", f, k) == S.old("Flux._fractionUnitArea", f) * L.F("Flux._fractionLandCover", f, k)])])))]},
         ensures=lambda S: [("the cover takes the fraction", S.F("LandCover._areaFraction") == S.args[0]), weighted(S, S.args[0])[0],
                            ("a flux changes only to carry a fraction", frame(S))])
contract("SurfaceComponent::SetAreaFraction", props=("C03",), requires=lambda S: procs_ok(S) + [("parent", S.F("SurfaceComponent._parent") != null)],
         modifies=lambda S: ["SurfaceComponent._areaFraction"] + MOD,
         ensures=lambda S: [("the component takes the fraction", S.F("SurfaceComponent._areaFraction") == S.args[0])] + weighted(
             S, S.args[0] * S.old("LandCover._areaFraction", S.F("SurfaceComponent._parent"))))
