"""Aggregation at the outlet (C14): every attached flux counted once."""
from common import *
from s_splitter import amount_read, SpecCtxPre


def total(S):
    O = SpecCtxPre(S)
    v = O.F("SubBasin._outletFluxes")
    return O.sum(O.len(v), lambda k: amount_read(O, O.at(v, k)))


contract("SubBasin::ComputeOutletDischarge", props=("C14",), modifies=["SubBasin._outletTotal", ("Flux._amount", None)],
         requires=lambda S: [("fluxes", S.forall(0, S.len(S.F("SubBasin._outletFluxes")), lambda k: S.at(S.F("SubBasin._outletFluxes"), k) != null))],
         ensures=lambda S: [("the discharge is the sum of what every attached flux carries", S.F("SubBasin._outletTotal") == total(S)), ("computed", S.result)])

same = lambda S, v, k: S.at(S.F(v), k) == S.at(S.old(v), k)
contract("SubBasin::AttachOutletFlux", props=("C14",), requires=lambda S: [("flux", S.args[0] != null)], modifies=["SubBasin._outletFluxes"],
         ensures=lambda S: [("one more", S.len(S.F("SubBasin._outletFluxes")) == S.len(S.old("SubBasin._outletFluxes")) + 1),
                            ("it is the new one", S.at(S.F("SubBasin._outletFluxes"), S.len(S.old("SubBasin._outletFluxes"))) == S.args[0]),
                            ("the others stay", S.forall(0, S.len(S.old("SubBasin._outletFluxes")), lambda k: same(S, "SubBasin._outletFluxes", k)))])
contract("FluxToOutlet::GetAmount", props=("C14",), ensures=lambda S: [("amount", S.result == S.F("Flux._amount"))])
contract("SubBasin::AddHydroUnit", props=("C14",), requires=lambda S: [("unit", S.args[0] != null)],
         modifies=["SubBasin._area", "SubBasin._hydroUnits", "SubBasin._hydroUnitMap"],
         ensures=lambda S: [("the basin area grows by the area of the unit", S.F("SubBasin._area") == S.old("SubBasin._area") + S.old("HydroUnit._area", S.args[0]))])
