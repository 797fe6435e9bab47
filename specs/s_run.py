"""The simulation loop: every step once, recorded on its own row, with the forcing, the schedule and the clock in step (C15, C16, C17, C18, C19)."""
from common import *
import s_actions, s_parameters, s_time, s_logger, s_reset
from s_time import TM, AMG, UPD, dt, clock_ok
from s_logger import LG

PR = ("C17", "C18", "C19")
MH = "ModelHydro."
# ---- forcing overrides end with their step
HU, SB = "HydroUnit._forcing", "SubBasin._hydroUnits"
UPDATED = "Forcing._hasUpdatedValue"
fpos, fown, upos = z3.Function("place_of_forcing", Ref, Int), z3.Function("unit_of_forcing", Ref, Ref), z3.Function("place_of_unit", Ref, Int)


def unit_forcings(S, u):
    v = S.F(HU, u)
    return S.forall(0, S.len(v), lambda i: And([S.at(v, i) != null, fpos(S.at(v, i)) == i, fown(S.at(v, i)) == u]))


def forcing_of(S, u, f, n=None):
    v = S.old(HU, u)
    return And([fpos(f) >= 0, fpos(f) < (S.len(v) if n is None else n), S.at(v, fpos(f)) == f])


def basin_units(S):
    v = S.F(SB)
    return S.forall(0, S.len(v), lambda i: And([S.at(v, i) != null, upos(S.at(v, i)) == i, unit_forcings(S, S.at(v, i))]))


def forcing_in(S, f, n=None):
    v, u = S.old(SB), fown(f)
    return And([upos(u) >= 0, upos(u) < (S.len(v) if n is None else n), S.at(v, upos(u)) == u, forcing_of(S, u, f)])


P18 = ("C18", "C15")
contract("HydroUnit::ResetForcingUpdates", props=P18, modifies=[(UPDATED, None)], requires=lambda S: [("forcings", unit_forcings(S, S.this))],
         loops={1: lambda L, S, k: [("dropped so far", S.forall_ref(lambda f: L.F(UPDATED, f, k) == And([S.old(UPDATED, f), Not(forcing_of(S, S.this, f, k))])))]},
         ensures=lambda S: [("no forcing of the unit keeps an override, no other changes", S.forall_ref(lambda f: S.F(UPDATED, f) == And([S.old(UPDATED, f), Not(forcing_of(S, S.this, f))])))])
contract("SubBasin::ResetForcingUpdates", props=P18, modifies=[(UPDATED, None)], requires=lambda S: [("units", basin_units(S))],
         loops={1: lambda L, S, k: [("dropped so far", S.forall_ref(lambda f: L.F(UPDATED, f, k) == And([S.old(UPDATED, f), Not(forcing_in(S, f, k))])))]},
         ensures=lambda S: [("no forcing of the basin keeps an override, no other changes", S.forall_ref(lambda f: S.F(UPDATED, f) == And([S.old(UPDATED, f), Not(forcing_in(S, f))])))])

# ---- series follow the clock
AT, ADV = "positioned_at", "advanced_by"           # ghost: the date a series was last positioned at, and the steps advanced since
GHOSTS[AT] = z3.ArraySort(Ref, Real)
GHOSTS[ADV] = z3.ArraySort(Ref, Int)
contract("TimeSeries::SetCursorToDate", props=PR, verify=False, throws=True, modifies=lambda S: [(AT, S.this), (ADV, S.this)], note="the implementations are under contract (C18); here: what positioning a series means to the loop",
         ghost=lambda S: [("positioned", imp(S.result, And([S.F(AT) == S.args[0], S.F(ADV) == 0])))])
contract("TimeSeries::AdvanceOneTimeStep", props=PR, verify=False, modifies=lambda S: [(ADV, S.this)], note="the implementations are under contract (C18)",
         ghost=lambda S: [("one value further", imp(S.result, S.F(ADV) == S.old(ADV) + 1))])
TSS = MH + "_timeSeries"
spos = z3.Function("place_of_series", Ref, Int)
sub = lambda S, x: S.sub(MH + x)


def series_ok(S):
    v = S.F(TSS)
    return [("series", S.forall(0, S.len(v), lambda i: And([S.at(v, i) != null, spos(S.at(v, i)) == i]))),
            ("basin", And([S.F(MH + "_subBasin") != null, basin_units(S.on(S.F(MH + "_subBasin")))]))]


def is_series(S, r, n=None):
    v = S.old(TSS)
    return And([spos(r) >= 0, spos(r) < (S.len(v) if n is None else n), S.at(v, spos(r)) == r])


def no_override(S):
    b = S.F(MH + "_subBasin")
    return S.forall_ref(lambda f: imp(forcing_in(S.on(b), f), Not(S.F(UPDATED, f))))


def positioned(L, S, k):
    now = S.old(TM + "_date", sub(S, "_timer"))
    return [("positioned so far", S.forall_ref(lambda r: imp(is_series(S, r, k), And([L.F(AT, r, k) == now, L.F(ADV, r, k) == 0]))))]


def advanced(L, S, k):
    return [("advanced so far", S.forall_ref(lambda r: L.F(ADV, r, k) == S.old(ADV, r) + If(is_series(S, r, k), z3.IntVal(1), z3.IntVal(0))))]


contract("ModelHydro::InitializeTimeSeries", props=PR, throws=True, requires=series_ok, modifies=[(AT, None), (ADV, None), (UPDATED, None)], loops={1: positioned},
         ensures=lambda S: [("every series stands on the date of the clock", imp(S.result, S.forall_ref(lambda r: imp(is_series(S, r), And([S.F(AT, r) == S.F(TM + "_date", sub(S, "_timer")), S.F(ADV, r) == 0]))))),
                            ("no forcing override is left", imp(S.result, no_override(S)))])
contract("ModelHydro::UpdateForcing", props=PR, requires=series_ok, modifies=[(ADV, None), (UPDATED, None)], loops={1: advanced},
         ensures=lambda S: [("every series moves by one value", imp(S.result, S.forall_ref(lambda r: imp(is_series(S, r), S.F(ADV, r) == S.old(ADV, r) + 1)))),
                            ("no forcing override is left", imp(S.result, no_override(S)))])

# ---- the loop
PROC, WHEN_P = "steps_processed", "step_dates"        # ghost: the steps the processor computed and the date of each
GHOSTS[PROC] = z3.ArraySort(Ref, Int)
contract("Processor::ProcessTimeStep", props=PR, verify=False, modifies=lambda S: [(PROC, S.this)], requires=lambda S: [],
         note="assumed here: computing a step changes storages, fluxes and processes only (its parts are under contract in C01-C14)",
         ghost=lambda S: [("one step computed", S.F(PROC) == S.old(PROC) + 1)])
T = lambda S: sub(S, "_timer")
L_ = lambda S: sub(S, "_logger")
CURS = LG + "_cursor"
CLOCK = [TM + "_date", TM + "_stepCount"]
SCHED = [(x, None) for x in (s_actions.CU, s_actions.CUR, s_actions.APPLIED, s_actions.OFFERS, s_actions.OFFERED, s_actions.LOG, s_actions.LOGN, s_actions.WHEN, s_parameters.VALUE, "ParametersUpdater._previousDate")] + s_parameters.TIME
TABS = [(LG + "_time",), (s_logger.SV,)] + [(v,) for v, _ in s_logger.TABLES]


def run_req(S, schedule=True):
    t, l = T(S), L_(S)
    S2, Sl = S.on(t), S.on(l)
    out = series_ok(S) + covers_known(S) + clock_ok(S2)
    if schedule:
        a, u = sub(S, "_actionsManager"), sub(S, "_parametersUpdater")
        out += [("own schedule", And([Or([S.F(AMG, t) == null, S.F(AMG, t) == a]), Or([S.F(UPD, t) == null, S.F(UPD, t) == u])]))]
        out += [("schedule: " + n, e) for n, e in s_actions.schedule(S.on(a))] + [("scheduled " + n, e) for n, e in s_parameters.lists_ok(S.on(u))]
    return out


def rows_ok(S):
    """a row per step of the period, tables of that many rows."""
    t, l = T(S), L_(S)
    n = S.len(S.F(LG + "_time", l))
    at = lambda k: S.F(TM + "_start", t) + k * dt(S.on(t))
    return [("a row per step", s_time.late(S.on(t), at(z3.ToReal(n))))] + [("tables: " + x, e) for x, e in s_logger.tables_ok(S.on(l)) if x != "row"]


EXTENT = s_reset.AMOD
covers_known = lambda S: [("covers", s_reset.basin_covers(S.on(S.F(MH + "_subBasin"))))]
extents = lambda S: s_reset.all_units(S.on(S.F(MH + "_subBasin")), lambda u: s_reset.covers_restored(S, S.F, u))
spin_mod = lambda S: EXTENT + [(PROC, sub(S, "_processor")), (AMG, T(S)), (UPD, T(S)), (AT, None), (ADV, None), (UPDATED, None), (TM + "_date", T(S)), (TM + "_stepCount", T(S))] + SCHED
contract("ModelHydro::RewindAfterSpinup", props=PR + ("C15",), throws=True, requires=lambda S: series_ok(S) + covers_known(S), modifies=lambda S: EXTENT + [(AT, None), (ADV, None), (UPDATED, None), (TM + "_date", T(S)), (TM + "_stepCount", T(S))],
         ensures=lambda S: [("the covers have their initial extents", extents(S)), ("the clock is back at the start", And([S.F(TM + "_date", T(S)) == S.F(TM + "_start", T(S)), S.F(TM + "_stepCount", T(S)) == 0])),
                            ("every series is back at the start", imp(S.result, S.forall_ref(lambda r: imp(is_series(S, r), And([S.F(AT, r) == S.F(TM + "_start", T(S)), S.F(ADV, r) == 0]))))),
                            ("no forcing override is left", imp(S.result, no_override(S)))])


def untouched(F, S):
    return [("nothing scheduled is applied", S.forall_ref(lambda r: And([F(x, r) == S.old(x, r) for x in (s_actions.APPLIED, s_actions.CU, s_actions.CUR, s_actions.OFFERS, s_parameters.VALUE)])))]


def spin_inv(L, S, k):
    t = T(S)
    p = sub(S, "_processor")
    return untouched(lambda x, r: L.F(x, r, k), S) + [("steps computed", L.F(PROC, p, k) == S.old(PROC, p) + k),
                                                      ("other clocks and processors", S.forall_ref(lambda r: And([imp(r != t, And([L.F(c, r, k) == S.old(c, r) for c in CLOCK])), imp(r != p, L.F(PROC, r, k) == S.old(PROC, r))])))]


def spin_ens(S):
    t = T(S)
    return untouched(S.F, S) + [
        ("the schedule is attached again", And([S.F(AMG, t) == sub(S, "_actionsManager"), S.F(UPD, t) == sub(S, "_parametersUpdater")])),
        ("the clock is back at the start", imp(S.result, And([S.F(TM + "_date", t) == S.F(TM + "_start", t), S.F(TM + "_stepCount", t) == 0]))),
        ("the spin-up steps are computed", imp(S.result, S.F(PROC, sub(S, "_processor")) == S.old(PROC, sub(S, "_processor")) + maxi(S.F(MH + "_spinupSteps")))),
        ("every series is back at the start", imp(S.result, S.forall_ref(lambda r: imp(is_series(S, r), And([S.F(AT, r) == S.F(TM + "_start", t), S.F(ADV, r) == 0]))))),
        ("no forcing override is left", imp(S.result, no_override(S)))]


maxi = lambda n: If(n > 0, n, z3.IntVal(0))
contract("ModelHydro::RunSpinup", props=PR + ("C15", "C16"), throws=True, requires=lambda S: run_req(S, False), modifies=spin_mod, loops={1: spin_inv}, ensures=spin_ens)


def run_inv(L, S, _):
    t, l, p = T(S), L_(S), sub(S, "_processor")
    c = L.F(CURS, l)
    n = L.F(TM + "_stepCount", t)
    tm = L.F(LG + "_time", l)
    old = S.old(LG + "_time", l)
    date = lambda k: S.F(TM + "_start", t) + z3.ToReal(k) * dt(S.on(t))
    A2 = Hs(L, S, sub(S, "_actionsManager"))
    return [("row of the step", And([c == n, n >= 0, L.F(TM + "_date", t) == date(n)])),
            ("as many rows", S.len(tm) == S.len(old)),
            ("dates recorded", S.forall(0, n, lambda k: S.at(tm, k) == date(k))),
            ("no row was past the end", S.forall(0, n, lambda k: Not(s_time.late(S.on(t), date(k))))),
            ("one step computed per row", L.F(PROC, p) == L.F0(PROC, p) + n),
            ("the forcing follows the clock", S.forall_ref(lambda r: imp(is_series(S, r), And([L.F(AT, r) == S.F(TM + "_start", t), L.F(ADV, r) == n])))),
            ] + [("schedule: " + x, e) for x, e in s_actions.schedule(A2)] + [("tables: " + x, e) for x, e in s_logger.tables_ok(Hs(L, S, l)) if x != "row"]


class Hs:
    """the current values of the loop seen from an object."""

    def __init__(self, L, S, ref):
        self.L, self.S, self.this = L, S, ref

    def F(self, key, ref=None):
        return self.L.F(self.S.key(key), self.this if ref is None else ref)

    def __getattr__(self, k):
        return getattr(self.S, k)


def run_ens(S):
    t, l, p = T(S), L_(S), sub(S, "_processor")
    n = S.F(CURS, l)
    date = lambda k: S.F(TM + "_start", t) + z3.ToReal(k) * dt(S.on(t))
    return [("every step of the period has its row with its date", imp(S.result, And([S.forall(0, n, lambda k: And([S.at(S.F(LG + "_time", l), k) == date(k), Not(s_time.late(S.on(t), date(k)))])), s_time.late(S.on(t), date(n)), n == S.F(TM + "_stepCount", t)]))),
            ("each step is computed once", imp(S.result, S.F(PROC, p) == S.old(PROC, p) + n + maxi(S.F(MH + "_spinupSteps")))),
            ("the forcing ends where the clock does", imp(S.result, S.forall_ref(lambda r: imp(is_series(S, r), And([S.F(AT, r) == S.F(TM + "_start", t), S.F(ADV, r) == n])))))]


contract("ModelHydro::Run", props=PR + ("C16", "C20"), throws=True, loops={1: run_inv}, ensures=run_ens, timeout=30,
         requires=lambda S: run_req(S) + rows_ok(S) + [("a fresh run", And([S.F(CURS, L_(S)) == 0, S.F(TM + "_stepCount", T(S)) == 0, S.F(TM + "_date", T(S)) == S.F(TM + "_start", T(S))])),
             ] + [("initial values: " + n, e) for n, e in s_logger.initial_ok(S.on(L_(S)))],
         modifies=lambda S: [m for m in spin_mod(S) if m[0] not in CLOCK + [PROC]] + [(x, None) for x in CLOCK + [PROC, CURS]] + [(x[0], None) for x in TABS] + [ (s_logger.IV, L_(S)), (s_logger.HI, L_(S))])


# ---- starting again
ACT = "ActionsManager._actions"
LAST = "ActionGlacierEvolutionDeltaH._lastRow"
basin = lambda S: S.F(MH + "_subBasin")


def acts_ok(S):
    a = sub(S, "_actionsManager")
    v = S.F(ACT, a)
    return [("actions", S.forall(0, S.len(v), lambda k: And([S.at(v, k) != null, s_actions.order(S.at(v, k)) == k])))]


def reset_ens(S):
    b, t, l, a = basin(S), T(S), L_(S), sub(S, "_actionsManager")
    v = S.F(ACT, a)
    return [("the clock is back at the start", And([S.F(TM + "_date", t) == S.F(TM + "_start", t), S.F(TM + "_stepCount", t) == 0])),
            ("the record is back at its first row", S.F(CURS, l) == 0),
            ("the schedule starts again", And([S.F(s_actions.CU, a) == 0, S.forall(0, S.len(v), lambda j: S.F(s_actions.CUR, S.at(v, j)) == 0)])),
            ("each evolution at its first row", S.forall(0, S.len(v), lambda j: imp(S.isa(S.at(v, j), "ActionGlacierEvolutionDeltaH"), S.F(LAST, S.at(v, j)) == 0)))] + s_reset.basin_back(S.on(b), S.F) + \
        s_reset.outlet_empty(S.on(b), S.F) + [("nothing left at the outlet", S.F(s_reset.OUT, b) == 0)]


contract("ModelHydro::Reset", props=("C15", "C16", "C17", "C19"), throws=True, requires=lambda S: [("basin", basin(S) != null)] + s_reset.basin_req(S.on(basin(S))) + acts_ok(S),
         modifies=lambda S: s_reset.BMOD + [(s_reset.OUT, basin(S)), (TM + "_date", T(S)), (TM + "_stepCount", T(S)), (CURS, L_(S)), (s_actions.CU, sub(S, "_actionsManager")), (s_actions.CUR, None), (LAST, None)],
         ensures=reset_ens)
contract("ModelHydro::SaveAsInitialState", props=("C15",), modifies=lambda S: s_reset.SMOD,
         requires=lambda S: [("basin", basin(S) != null), ("bricks", s_reset.all_bricks(S, S.F(s_reset.SBB, basin(S)), lambda b: s_reset.store_req(S, b))),
                             ("units", s_reset.all_units(S.on(basin(S)), lambda u: And([u != null, s_reset.all_bricks(S, S.F(s_reset.UB, u), lambda b: s_reset.store_req(S, b))])))],
         ensures=lambda S: s_reset.bricks_saved(S, S.F, S.F(s_reset.SBB, basin(S))) + s_reset.units_saved(S.on(basin(S)), S.F))
