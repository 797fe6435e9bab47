"""Going back to the initial state (C15): the storages, the processes, the covers."""
from common import *
from s_area import procs_ok, comps_ok, MOD
from s_process import pre

P15 = ("C15",)
AMT = "Flux._amount"
ST = WC + "_content", WC + "_contentChangeDynamic", WC + "_contentChangeStatic"
INI = WC + "_initialState"
AF, AF0 = "LandCover._areaFraction", "LandCover._initialAreaFraction"
# what a process remembers from one step to the next: (class, numbers that go back to a value, buffers that are emptied, what is recomputed)
MEMORY = [("ProcessRoutingGR4J", {"_r": 0, "_qr": 0, "_qd": 0, "_exchangeInjected": 0, "_processStorage": 0}, ["_stuh1", "_stuh2"], ["_uh1Ord", "_uh2Ord"], "_uhBaseTime"),
          ("ProcessRoutingGR6J", {"_r": 0, "_rexp": 0, "_qr": 0, "_qrexp": 0, "_qd": 0, "_processStorage": 0}, ["_stuh1", "_stuh2"], ["_uh1Ord", "_uh2Ord"], "_uhBaseTime"),
          ("ProcessRoutingHBV", {"_previousContent": 0, "_processStorage": 0}, ["_stuh"], ["_uhOrd", "_lastMaxbas"], "_maxbas"),
          ("ProcessLateralSnowRedistributionFrey", {"_density": 250, "_prevSwe": 0}, [], [], None),
          ("ProcessMeltCemaNeige", {"_coldContent": 0}, [], [], None)]


def fresh(S, F, p):
    """a process as it was built."""
    r = []
    for cls, num, buf, _, _ in MEMORY:
        e = [F(cls + "." + n, p) == v for n, v in num.items()] + [S.forall(0, S.len(F(cls + "." + b, p)), lambda j, b=b: S.at(F(cls + "." + b, p), j) == 0) for b in buf]
        r.append(imp(S.isa(p, cls), And(e)))
    return And(r)


def emptied(S, F, p):
    o = S.F("Process._outputs", p)
    return S.forall(0, S.len(o), lambda j: F(AMT, S.at(o, j)) == 0)


def amounts(S, F):
    """a flux changes only to be emptied."""
    return S.forall_ref(lambda f: Or([F(AMT, f) == S.old(AMT, f), F(AMT, f) == 0]))


def proc_req(S, p):
    o = S.F("Process._outputs", p)
    return And([p != null, S.forall(0, S.len(o), lambda j: S.at(o, j) != null)] + [imp(S.isa(p, c), S.F(c + "." + b, p) != nullloc) for c, _, _, _, b in MEMORY if b])


MEM = [(c + "." + n, None) for c, num, buf, uh, _ in MEMORY for n in list(num) + buf + uh]
contract("Process::Reset", props=P15, subtypes=True, requires=lambda S: [("outputs", proc_req(S, S.this)), ("infinite level", INF > 10 ** 6)],
         modifies=lambda S: [(AMT, None)] + [(k, lambda r: r == S.this) for k, _ in MEM],
         ensures=lambda S: [("its fluxes are emptied", emptied(S, S.F, S.this)), ("a flux changes only to be emptied", amounts(S, S.F)), ("it remembers nothing", fresh(S, S.F, S.this))])

contract("WaterContainer::Reset", props=P15, modifies=[x for x in ST],
         ensures=lambda S: [("initial content", S.F(ST[0]) == S.F(INI)), ("no pending change", And([S.F(ST[1]) == 0, S.F(ST[2]) == 0]))])
contract("WaterContainer::SaveAsInitialState", props=P15, modifies=[INI], ensures=lambda S: [("the content becomes the initial one", S.F(INI) == S.F(ST[0]))])


def stores(S, b):
    """(condition, store) pairs of a brick."""
    return [(z3.BoolVal(True), S.F("Brick._water", b)), (S.isa(b, "Snowpack"), S.F("Snowpack._snow", b)), (S.isa(b, "Glacier"), S.F("Glacier._ice", b))]


def restored(S, F, c):
    return And([F(ST[0], c) == S.old(INI, c), F(ST[1], c) == 0, F(ST[2], c) == 0])


def brick_restored(S, F, b):
    return And([imp(k, restored(S, F, c)) for k, c in stores(S, b)] + [imp(S.isa(b, "LandCover"), F(AF, b) == S.old(AF0, b))])


def procs(S, b):
    return S.F("Brick._processes", b)


def procs_fresh(S, F, b):
    v = procs(S, b)
    return S.forall(0, S.len(v), lambda i: And([emptied(S, F, S.at(v, i)), fresh(S, F, S.at(v, i))]))


def only_restored(S, F):
    return S.forall_ref(lambda c: Or([And([F(x, c) == S.old(x, c) for x in ST]), restored(S, F, c)]))


def only_fresh(S, F):
    same = lambda p, c, num, buf: And([F(c + "." + x, p) == S.old(c + "." + x, p) for x in list(num) + buf])
    return [S.forall_ref(lambda p, c=c, num=num, buf=buf: imp(S.isa(p, c), Or([same(p, c, num, buf), fresh(S, F, p)]))) for c, num, buf, _, _ in MEMORY]


def covers_back(S, F):
    return S.forall_ref(lambda b: Or([F(AF, b) == S.old(AF, b), F(AF, b) == S.old(AF0, b)]))


def brick_req(S, b):
    v = procs(S, b)
    return And([b != null, S.forall(0, S.len(v), lambda i: proc_req(S, S.at(v, i)))] + [imp(k, c != null) for k, c in stores(S, b)] + [
        imp(S.isa(b, "LandCover"), And([e for _, e in procs_ok(S.on(b)) + comps_ok(S.on(b))]))])


BMOD = [(x, None) for x in ST] + [(AMT, None), (AF, None), ("SurfaceComponent._areaFraction", None)] + MOD + MEM


def back(S, F):
    """what else may have changed was brought back too."""
    return [("a store changes only to be restored", only_restored(S, F)), ("a flux changes only to be emptied", amounts(S, F)),
            ("a cover changes only to take its initial extent", covers_back(S, F))] + [("a process changes only to be as built (%s)" % m[0], e) for m, e in zip(MEMORY, only_fresh(S, F))]


contract("Brick::Reset", props=P15, subtypes=True, timeout=60, loops_inlined=True, requires=lambda S: [("brick", brick_req(S, S.this)), ("infinite level", INF > 10 ** 6)], modifies=lambda S: BMOD,
         loops={1: lambda L, S, k: back(S, lambda key, r: L.F(key, r, k)) + [("processes so far", S.forall(0, k, lambda i: And([
             emptied(S, lambda key, r: L.F(key, r, k), S.at(procs(S, S.this), i)), fresh(S, lambda key, r: L.F(key, r, k), S.at(procs(S, S.this), i))])))]},
         ensures=lambda S: [("its stores and extent are the initial ones", brick_restored(S, S.F, S.this)), ("its processes remember nothing", procs_fresh(S, S.F, S.this))] + back(S, S.F))


# ---- a unit, a sub-basin, the model
UB, SBB, SBU, OUTF = "HydroUnit._bricks", "SubBasin._bricks", "SubBasin._hydroUnits", "SubBasin._outletFluxes"


def all_bricks(S, v, f, n=None):
    return S.forall(0, S.len(v) if n is None else n, lambda i: f(S.at(v, i)))


def back_all(S, F, v, n=None):
    """the first n bricks are as at the start."""
    return [("bricks restored", all_bricks(S, v, lambda b: brick_restored(S, F, b), n)), ("what their processes remember is dropped", all_bricks(S, v, lambda b: procs_fresh(S, F, b), n))]


def reset_loop(v):
    def inv(L, S, k):
        F = lambda key, r: L.F(key, r, k)
        return back(S, F) + back_all(S, F, S.F(v), k)
    return inv


def unit_req(S, u):
    return And([u != null, all_bricks(S, S.F(UB, u), lambda b: brick_req(S, b))])


contract("HydroUnit::Reset", props=P15, requires=lambda S: [("bricks", all_bricks(S, S.F(UB), lambda b: brick_req(S, b))), ("infinite level", INF > 10 ** 6)], modifies=lambda S: BMOD,
         loops={1: reset_loop(UB)}, ensures=lambda S: back_all(S, S.F, S.F(UB)) + back(S, S.F))


def all_units(S, f, n=None):
    v = S.F(SBU)
    return S.forall(0, S.len(v) if n is None else n, lambda i: f(S.at(v, i)))


def units_back(S, F, n=None):
    return [("units restored", all_units(S, lambda u: all_bricks(S, S.F(UB, u), lambda b: brick_restored(S, F, b)), n)),
            ("what the processes of the units remember is dropped", all_units(S, lambda u: all_bricks(S, S.F(UB, u), lambda b: procs_fresh(S, F, b)), n))]


def basin_req(S):
    o = S.F(OUTF)
    return [("bricks of the basin", all_bricks(S, S.F(SBB), lambda b: brick_req(S, b))), ("units", all_units(S, lambda u: unit_req(S, u))),
            ("outlet fluxes", S.forall(0, S.len(o), lambda i: S.at(o, i) != null)), ("infinite level", INF > 10 ** 6)]


def basin_back(S, F):
    return back_all(S, F, S.F(SBB)) + units_back(S, F) + back(S, F)


def in_loop(parts):
    def inv(L, S, k):
        F = lambda key, r: L.F(key, r, k)
        return parts(S, F, k)
    return inv


def outlet_empty(S, F, n=None):
    o = S.F(OUTF)
    return [("outlet fluxes emptied", S.forall(0, S.len(o) if n is None else n, lambda i: F(AMT, S.at(o, i)) == 0))]


OUT = "SubBasin._outletTotal"
contract("SubBasin::Reset", props=P15, timeout=60, requires=basin_req, modifies=lambda S: BMOD + [OUT],
         loops={1: in_loop(lambda S, F, k: back(S, F) + back_all(S, F, S.F(SBB), k)), 2: in_loop(lambda S, F, k: back(S, F) + back_all(S, F, S.F(SBB)) + units_back(S, F, k)),
                3: in_loop(lambda S, F, k: basin_back(S, F) + outlet_empty(S, F, k))},
         ensures=lambda S: basin_back(S, S.F) + outlet_empty(S, S.F) + [("nothing left at the outlet", S.F(OUT) == 0)])


# ---- the state becomes the initial one
def saved(S, F, b, c):
    return F(INI, c) == S.F(ST[0], c)


def brick_saved(S, F, b):
    return And([imp(k, F(INI, c) == S.F(ST[0], c)) for k, c in stores(S, b)] + [imp(S.isa(b, "LandCover"), F(AF0, b) == S.F(AF, b))])


def only_saved(S, F):
    return [("an initial content changes only to the present one", S.forall_ref(lambda c: Or([F(INI, c) == S.old(INI, c), F(INI, c) == S.F(ST[0], c)]))),
            ("an initial extent changes only to the present one", S.forall_ref(lambda b: Or([F(AF0, b) == S.old(AF0, b), F(AF0, b) == S.F(AF, b)])))]


def store_req(S, b):
    return And([b != null] + [imp(k, c != null) for k, c in stores(S, b)])


SMOD = [(INI, None), (AF0, None)]
bricks_saved = lambda S, F, v, n=None: [("bricks saved", all_bricks(S, v, lambda b: brick_saved(S, F, b), n))]
units_saved = lambda S, F, n=None: [("units saved", all_units(S, lambda u: all_bricks(S, S.F(UB, u), lambda b: brick_saved(S, F, b)), n))]
contract("Brick::SaveAsInitialState", props=P15, subtypes=True, requires=lambda S: [("stores", store_req(S, S.this))], modifies=lambda S: SMOD,
         ensures=lambda S: [("its stores and extent become the initial ones", brick_saved(S, S.F, S.this))] + only_saved(S, S.F))
contract("HydroUnit::SaveAsInitialState", props=P15, requires=lambda S: [("bricks", all_bricks(S, S.F(UB), lambda b: store_req(S, b)))], modifies=lambda S: SMOD,
         loops={1: in_loop(lambda S, F, k: bricks_saved(S, F, S.F(UB), k) + only_saved(S, F))}, ensures=lambda S: bricks_saved(S, S.F, S.F(UB)) + only_saved(S, S.F))
contract("SubBasin::SaveAsInitialState", props=P15, modifies=lambda S: SMOD,
         requires=lambda S: [("bricks", all_bricks(S, S.F(SBB), lambda b: store_req(S, b))), ("units", all_units(S, lambda u: And([u != null, all_bricks(S, S.F(UB, u), lambda b: store_req(S, b))])))],
         loops={1: in_loop(lambda S, F, k: bricks_saved(S, F, S.F(SBB), k) + only_saved(S, F)), 2: in_loop(lambda S, F, k: bricks_saved(S, F, S.F(SBB)) + units_saved(S, F, k) + only_saved(S, F))},
         ensures=lambda S: bricks_saved(S, S.F, S.F(SBB)) + units_saved(S, S.F) + only_saved(S, S.F))

# ---- the extents alone
ULC = "HydroUnit._landCoverBricks"
AMOD = [(AF, None), ("SurfaceComponent._areaFraction", None)] + MOD
cover_req = lambda S, b: And([b != null] + [e for _, e in procs_ok(S.on(b)) + comps_ok(S.on(b))])
covers_restored = lambda S, F, u, n=None: all_bricks(S, S.F(ULC, u), lambda b: F(AF, b) == S.F(AF0, b), n)
contract("HydroUnit::RestoreInitialAreaFractions", props=P15 + ("C12",), requires=lambda S: [("covers", all_bricks(S, S.F(ULC), lambda b: cover_req(S, b)))], modifies=lambda S: AMOD,
         loops={1: in_loop(lambda S, F, k: [("covers restored", covers_restored(S, F, S.this, k)), ("others", covers_back(S, F))])},
         ensures=lambda S: [("every cover has its initial extent", covers_restored(S, S.F, S.this)), ("others", covers_back(S, S.F))])
basin_covers = lambda S: all_units(S, lambda u: And([u != null, all_bricks(S, S.F(ULC, u), lambda b: cover_req(S, b))]))
contract("SubBasin::RestoreInitialAreaFractions", props=P15 + ("C12",), requires=lambda S: [("covers", basin_covers(S))], modifies=lambda S: AMOD,
         loops={1: in_loop(lambda S, F, k: [("covers restored", all_units(S, lambda u: covers_restored(S, F, u), k)), ("others", covers_back(S, F))])},
         ensures=lambda S: [("every cover has its initial extent", all_units(S, lambda u: covers_restored(S, S.F, u))), ("others", covers_back(S, S.F))])
