"""Scheduled actions (C16).

Ghost history, one entry per action: how often its items were applied (`applied`), and the list of the dates on which a
recurrent action was offered (`offers` with their count). The calendar of a date (month, day) is a trusted function here;
the bounded harness checks it against std::chrono and an independent calendar.
"""
from common import *

P16 = ("C16",)
P17, P20 = ("C17",), ("C20",)
YEAR, MONTH, DAY = (z3.Function("calendar_" + x, Real, Int) for x in ("year", "month", "day"))
CAL = "assumed: the calendar of a date (std::chrono); bounded harness C17 compares it with an independent calendar"
contract("GetTimeStructFromMJD", props=P16 + P17 + P20, verify=False, modifies=[], note=CAL,
         ensures=lambda S: [("calendar", And([S.F("Time.year", S.result) == YEAR(S.args[0]), S.F("Time.month", S.result) == MONTH(S.args[0]), S.F("Time.day", S.result) == DAY(S.args[0])]))])

AM, AC = "ActionsManager.", "Action."
APPLIED, OFFERS, OFFERED = "applied", "offers", "offered"
GHOSTS[APPLIED] = z3.ArraySort(Ref, Int)
GHOSTS[OFFERS] = z3.ArraySort(Ref, Int)
DATES = z3.ArraySort(Int, Int)
GHOSTS[OFFERED] = z3.ArraySort(Ref, DATES)
TOL = z3.Q(1, 1000000)

def falls_on(S, n=None, t=None):
    m, d = S.F(AC + "_recursiveMonths"), S.F(AC + "_recursiveDays")
    return Not(S.forall(0, S.len(m) if n is None else n, lambda i: Or([S.at(m, i) != S.F("Time.month", S.args[0]), S.at(d, i) != S.F("Time.day", S.args[0])])))


contract("Action::ApplyIfRecursive", props=P16, modifies=lambda S: [(APPLIED, S.this), (OFFERS, S.this), (OFFERED, S.this), ("application_log", null), ("application_count", null), ("application_position", null)],
         requires=lambda S: [("months and days go by pairs", S.len(S.F(AC + "_recursiveMonths")) == S.len(S.F(AC + "_recursiveDays")))],
         checks=lambda S: [("applied once on its month and day, and on no other date", S.F(APPLIED) == S.old(APPLIED) + If(falls_on(S), z3.IntVal(1), z3.IntVal(0))),
                           ("a date that is not its own is not a failure", imp(Not(falls_on(S)), S.result))],
         loops={1: lambda L, S, k: [("not its date so far", Not(falls_on(S, k)))]},
         ghost=lambda S: [("offered one more day", And([S.F(OFFERS) == S.old(OFFERS) + 1, S.F(OFFERED) == z3.Store(S.old(OFFERED), S.old(OFFERS), 100 * S.F("Time.month", S.args[0]) + S.F("Time.day", S.args[0]))]))])
contract("Action::IncrementCursor", props=P16, modifies=lambda S: [(AC + "_cursor", S.this)], ensures=lambda S: [("next item", S.F(AC + "_cursor") == S.old(AC + "_cursor") + 1)])

order = z3.Function("position_of_action", Ref, Int)


def schedule(S):
    a, d, i, r = (S.F(AM + x) for x in ("_actions", "_sporadicActionDates", "_sporadicActionIndices", "_recursiveActionIndices"))
    ok = lambda v: S.forall(0, S.len(v), lambda k: And([S.at(v, k) >= 0, S.at(v, k) < S.len(a)]))
    return [("actions", S.forall(0, S.len(a), lambda k: And([S.at(a, k) != null, order(S.at(a, k)) == k, S.len(S.F(AC + "_recursiveMonths", S.at(a, k))) == S.len(S.F(AC + "_recursiveDays", S.at(a, k)))]))),
            ("one action per date", S.len(d) == S.len(i)), ("actions of the dates", ok(i)), ("recurrent actions", ok(r)),
            ("the dates are in order", S.forall(0, S.len(d), lambda k: S.forall(0, k, lambda j: S.at(d, j) <= S.at(d, k)))),
            ("a recurrent action is registered once", S.forall(0, S.len(r), lambda k: rk(S.at(a, S.at(r, k))) == k)),
            ("position", And([S.F(AM + "_cursorManager") >= 0, S.F(AM + "_cursorManager") <= S.len(d)]))]


rk = z3.Function("place_among_the_recurrent", Ref, Int)
floor_ = lambda x: z3.ToInt(x)


def days(S):
    lo, hi = floor_(S.args[0] + TOL) + 1, floor_(S.args[1] + TOL)
    return lo, hi




LOG, LOGN, WHEN = "application_log", "application_count", "application_position"      # ghost history of the run, kept at null
GHOSTS[LOG] = z3.ArraySort(Ref, z3.ArraySort(Int, Ref))
GHOSTS[LOGN] = z3.ArraySort(Ref, Int)
GHOSTS[WHEN] = z3.ArraySort(Ref, z3.ArraySort(Int, Int))
STORE_A = STORE_HIST = None
contract("Action::Apply", props=P16, verify=False, modifies=lambda S: [(APPLIED, S.this), (LOG, null), (LOGN, null), (WHEN, null)],
         note="assumed: an application changes the model's storages and covers, not the schedule",
         ghost=lambda S: [("one application", S.F(APPLIED) == S.old(APPLIED) + 1),
                          ("history", And([S.F(LOG, null) == z3.Store(S.old(LOG, null), S.old(LOGN, null), S.this), S.F(LOGN, null) == S.old(LOGN, null) + 1,
                                           S.F(WHEN, null) == z3.Store(S.old(WHEN, null), S.old(LOGN, null), S.old(AC + "_cursor"))]))])
A, D, I, R, CU = AM + "_actions", AM + "_sporadicActionDates", AM + "_sporadicActionIndices", AM + "_recursiveActionIndices", AM + "_cursorManager"
CUR = AC + "_cursor"


def recurrent(S, r, n=None):
    a, v = S.old(A), S.old(R)
    return And([rk(r) >= 0, rk(r) < (S.len(v) if n is None else n), S.at(a, S.at(v, rk(r))) == r])


def offered(S, H, HN, F, n, k):
    """after k days: every recurrent action was offered these days, in order, and nothing else was."""
    lo, _ = days(S)
    mine = lambda r: recurrent(S, r)
    return [("each recurrent action offered each day", S.forall_ref(lambda r: imp(mine(r), F(OFFERS, r) == S.old(OFFERS, r) + k))),
            ("others not offered", S.forall_ref(lambda r: imp(Not(mine(r)), And([F(OFFERS, r) == S.old(OFFERS, r), F(APPLIED, r) == S.old(APPLIED, r)])))),
            ]


def date_key(x):
    return 100 * MONTH(x) + DAY(x)


def outer_inv(L, S, k):
    lo, _ = days(S)
    return offered(S, None, None, lambda key, r: L.F(key, r, k), None, k) + [
        ("the days offered", S.forall_ref(lambda r: imp(recurrent(S, r), S.forall(0, k, lambda d: z3.Select(L.F(OFFERED, r, k), S.old(OFFERS, r) + d) == date_key(z3.ToReal(lo + d))))))]


def inner_inv(L, S, k):
    lo, _ = days(S)
    day = L.var("dateStruct")
    return [("the date", And([L.F("Time." + x, day, k) == L.F0("Time." + x, day) for x in ("month", "day")])),
            ("offered today so far", S.forall_ref(lambda r: imp(recurrent(S, r, k), L.F(OFFERS, r, k) == L.F0(OFFERS, r) + 1))),
            ("the day offered", S.forall_ref(lambda r: imp(recurrent(S, r, k), L.F(OFFERED, r, k) == z3.Store(L.F0(OFFERED, r), L.F0(OFFERS, r), date_key(z3.ToReal(lo + L.outer)))))),
            ("the others not yet", S.forall_ref(lambda r: imp(Not(recurrent(S, r, k)), And([L.F(OFFERS, r, k) == L.F0(OFFERS, r), L.F(OFFERED, r, k) == L.F0(OFFERED, r), L.F(APPLIED, r, k) == L.F0(APPLIED, r)]))))]


def while_inv(L, S, k):
    d, a, i = S.old(D), S.old(A), S.old(I)
    c0, c = S.old(CU), L.F(CU, S.this)
    n0, n = L.F0(LOGN, null), L.F(LOGN, null)
    return [("position", And([c >= c0, c <= S.len(d)])), ("all due", S.forall(c0, c, lambda k: S.at(d, k) <= S.args[1] + TOL)),
            ("other managers", S.forall_ref(lambda r: imp(r != S.this, L.F(CU, r) == S.old(CU, r)))),
            ("one application per item", n - n0 == c - c0),
            ("in the order of their dates", S.forall(c0, c, lambda k: z3.Select(L.F(LOG, null), n0 + k - c0) == S.at(a, S.at(i, k)))),
            ("history kept", S.forall(0, n0, lambda k: z3.Select(L.F(LOG, null), k) == z3.Select(L.F0(LOG, null), k))),
            ("an action moves to its next item when applied", S.forall_ref(lambda r: L.F(CUR, r) - S.old(CUR, r) == L.F(APPLIED, r) - L.F0(APPLIED, r)))]


def upd_ens(S):
    d, a, i = S.old(D), S.old(A), S.old(I)
    c, c0 = S.F(CU), S.old(CU)
    lo, hi = days(S)
    n = If(hi >= lo, hi - lo + 1, z3.IntVal(0))
    end = S.F(LOGN, null)
    return [("every item due is applied", S.forall(c, S.len(d), lambda k: S.at(d, k) > S.args[1] + TOL)),
            ("no item is applied before its date", S.forall(c0, c, lambda k: S.at(d, k) <= S.args[1] + TOL)),
            ("no item is applied again", And([c >= c0, c <= S.len(d)])),
            ("the items due are applied once each, in the order of their dates", S.forall(c0, c, lambda k: z3.Select(S.F(LOG, null), end - (c - k)) == S.at(a, S.at(i, k)))),
            ("an action moves to its next item when applied", S.forall_ref(lambda r: imp(Not(recurrent(S, r)), S.F(CUR, r) - S.old(CUR, r) == S.F(APPLIED, r) - S.old(APPLIED, r)))),
            ("each recurrent action is offered each day reached", S.forall_ref(lambda r: imp(recurrent(S, r), And([S.F(OFFERS, r) == S.old(OFFERS, r) + n,
                S.forall(0, n, lambda d: z3.Select(S.F(OFFERED, r), S.old(OFFERS, r) + d) == date_key(z3.ToReal(lo + d)))])))),
            ]


contract("ActionsManager::DateUpdate", arity=2, props=P16, throws=True, requires=schedule,
         modifies=lambda S: [(CU, S.this), (CUR, None), (APPLIED, None), (OFFERS, None), (OFFERED, None), (LOG, None), (LOGN, None), (WHEN, None)] + [("Time." + x, None) for x in ("year", "month", "day", "hour", "min", "sec")],
         loops={1: outer_inv, 2: inner_inv, 3: while_inv}, ensures=upd_ens)


# ---- the schedule as it is declared ------------------------------------------------
SD = AC + "_sporadicDates"
LC_ = "ActionLandCoverChange."


def ordered(S, v):
    return S.forall(0, S.len(v), lambda k: S.forall(0, k, lambda j: S.at(v, j) <= S.at(v, k)))


def place(S, v, r, date):
    """r is where a date goes among the dates v."""
    return And([r >= 0, r <= S.len(v), S.forall(0, r, lambda j: S.at(v, j) < date), S.forall(r, S.len(v), lambda j: S.at(v, j) >= date)])


contract("Action::GetIndexForInsertion", props=P16, modifies=[],
         requires=lambda S: [("the dates are in order", ordered(S, S.F(SD)))],
         loops={1: lambda L, S, k: [("place so far", L.var("index", k) == k), ("earlier dates", S.forall(0, k, lambda j: S.at(S.F(SD), j) < S.args[0]))]},
         ensures=lambda S: [("before the first date that is not earlier", place(S, S.F(SD), S.result, S.args[0]))])


def snapped(f):
    return If(absz(f) <= PREC, R0, If(absz(f - 1) <= PREC, R1, f))


contract("Action::CheckLandCoverAreaFraction", props=P16 + ("C12",), modifies=[], throws=lambda S: Or([snapped(S.args[2]) < 0, snapped(S.args[2]) > 1]),
         ensures=lambda S: [("an extent that is all or nothing of the unit is exactly so", S.result == snapped(S.args[2])), ("within the unit", And([S.result >= 0, S.result <= 1]))])

contract("ActionLandCoverChange::GetLandCoverId", props=P16, modifies=lambda S: [(LC_ + "_landCoverNames", S.this)],
         loops={1: lambda L, S, k: [("not found so far", And([L.var("landCoverId", k) == -1, S.forall(0, k, lambda j: S.at(S.F(LC_ + "_landCoverNames"), j) != S.args[0])]))]},
         ensures=lambda S: [("the cover of that name", And([S.result >= 0, S.result < S.len(S.F(LC_ + "_landCoverNames")), S.at(S.F(LC_ + "_landCoverNames"), S.result) == S.args[0]])),
                            ("the numbers given before keep their names", And([S.len(S.F(LC_ + "_landCoverNames")) >= S.len(S.old(LC_ + "_landCoverNames")),
                                S.forall(0, S.len(S.old(LC_ + "_landCoverNames")), lambda j: S.at(S.F(LC_ + "_landCoverNames"), j) == S.at(S.old(LC_ + "_landCoverNames"), j))]))])


def items(S, F):
    return [F(SD), F(LC_ + "_hydroUnitIds"), F(LC_ + "_landCoverIds"), F(LC_ + "_areas")]


def inserted(S, new, old, r, value):
    return And([S.len(new) == S.len(old) + 1, S.at(new, r) == value, S.forall(0, r, lambda j: S.at(new, j) == S.at(old, j)), S.forall(r, S.len(old), lambda j: S.at(new, j + 1) == S.at(old, j))])


def change_checks(S):
    new, old = items(S, S.F), items(S, S.old)
    date, unit, name, area = S.args
    r = S.local("index")
    cover = S.at(new[2], r)
    return [("the item is put at its date", inserted(S, new[0], old[0], r, date)), ("with its unit", inserted(S, new[1], old[1], r, unit)),
            ("with its cover", And([inserted(S, new[2], old[2], r, cover), S.at(S.F(LC_ + "_landCoverNames"), cover) == name])), ("with its area", inserted(S, new[3], old[3], r, area))]


def change_ens(S):
    new, old = items(S, S.F), items(S, S.old)
    date, unit, name, area = S.args
    return [("the dates stay in order", ordered(S, new[0])), ("one more item", And([S.len(v) == S.len(old[0]) + 1 for v in new]))]


contract("ActionLandCoverChange::AddChange", props=P16, modifies=lambda S: [(SD, S.this)] + [(LC_ + x, S.this) for x in ("_hydroUnitIds", "_landCoverIds", "_areas", "_landCoverNames")],
         requires=lambda S: [("the dates are in order", ordered(S, S.F(SD))), ("the items go together", And([S.len(v) == S.len(S.F(SD)) for v in items(S, S.F)]))],
         checks=change_checks, ensures=change_ens)

contract("Action::Init", props=(), subtypes=True, verify=False, modifies=[], note="assumed: the initialization of an action sets covers and ice, not the schedule")
contract("Action::IsValid", props=(), subtypes=True, verify=False, modifies=[], note="assumed: a test of the settings")


def add_mine(S, date, q):
    return S.at(S.F(SD, S.args[0]), q)


def add_outer(L, S, k):
    d, i, x = L.F(D, S.this, k), L.F(I, S.this, k), L.var("index", k)
    n0 = S.len(S.old(D))
    return [("the dates stay in order", ordered(S, d)), ("one more item per date", And([S.len(d) == n0 + k, S.len(i) == n0 + k])),
            ("position", And([x >= 0, Or([x < S.len(d), And([k == 0, x == 0])])])),
            ("every item is of an action", S.forall(0, S.len(i), lambda q: And([S.at(i, q) >= 0, S.at(i, q) <= S.len(S.old(A))]))),
            ("other managers", S.forall_ref(lambda r: imp(r != S.this, And([L.F(D, r, k) == S.old(D, r), L.F(I, r, k) == S.old(I, r)])))),
            ("the item is put at its date", imp(k > 0, And([S.at(d, x) == S.at(S.old(SD, S.args[0]), k - 1), S.at(i, x) == S.len(S.old(A))])))]


def add_inner(L, S, k):
    d, x, x0 = S.F(D), L.var("index", k), L.var("index", z3.IntVal(0))
    dd = L.F(D, S.this, k)
    return [("position", x == x0 + k), ("the dates before", S.forall(0, x, lambda q: S.at(dd, q) <= L.var("date", k)))]


def add_ens(S):
    d, i, a, r = S.F(D), S.F(I), S.F(A), S.F(R)
    na, n0 = S.len(S.old(A)), S.len(S.old(D))
    rec = S.old(AC + "_recursive", S.args[0])
    return [("the dates are in order", ordered(S, d)), ("one action per date", S.len(d) == S.len(i)),
            ("actions of the dates", S.forall(0, S.len(i), lambda k: And([S.at(i, k) >= 0, S.at(i, k) < S.len(a)]))),
            ("actions of the recurrent items", S.forall(0, S.len(r), lambda k: And([S.at(r, k) >= 0, S.at(r, k) < S.len(a)]))),
            ("the action is added last", imp(S.result, And([S.len(a) == na + 1, S.at(a, na) == S.args[0]]))),
            ("the other actions keep their numbers", S.forall(0, na, lambda k: S.at(a, k) == S.at(S.old(A), k))),
            ("all its items", imp(And([S.result, Not(rec)]), And([S.len(d) == n0 + S.len(S.old(SD, S.args[0])), r == S.old(R)]))),
            ("a recurrent action once", imp(And([S.result, rec]), And([S.len(r) == S.len(S.old(R)) + 1, S.at(r, S.len(S.old(R))) == na, d == S.old(D), i == S.old(I)]))),
            ("a rejected action is not scheduled", imp(Not(S.result), And([a == S.old(A), d == S.old(D), i == S.old(I), r == S.old(R)])))]


contract("Action::ResetCursor", props=P16 + ("C15",), modifies=lambda S: [(CUR, S.this)], ensures=lambda S: [("first item", S.F(CUR) == 0)])
contract("Action::Reset", props=P16 + ("C15",), subtypes=True, throws=True, modifies=lambda S: [("ActionGlacierEvolutionDeltaH._lastRow", S.this)],
         ensures=lambda S: [("first row of the table", imp(S.isa(S.this, "ActionGlacierEvolutionDeltaH"), S.F("ActionGlacierEvolutionDeltaH._lastRow") == 0))])
contract("ActionsManager::Reset", props=P16 + ("C15",), throws=True, modifies=lambda S: [(CU, S.this), (CUR, None), ("ActionGlacierEvolutionDeltaH._lastRow", None)],
         requires=lambda S: [("actions", S.forall(0, S.len(S.F(A)), lambda k: And([S.at(S.F(A), k) != null, order(S.at(S.F(A), k)) == k])))],
         loops={1: lambda L, S, k: [("first items so far", S.forall(0, k, lambda j: L.F(CUR, S.at(S.F(A), j), k) == 0)),
                                    ("first rows so far", S.forall(0, k, lambda j: imp(S.isa(S.at(S.F(A), j), "ActionGlacierEvolutionDeltaH"), L.F("ActionGlacierEvolutionDeltaH._lastRow", S.at(S.F(A), j), k) == 0)))]},
         ensures=lambda S: [("the schedule starts again", S.F(CU) == 0), ("each action at its first item", S.forall(0, S.len(S.F(A)), lambda j: S.F(CUR, S.at(S.F(A), j)) == 0)),
                            ("each evolution at its first row", S.forall(0, S.len(S.F(A)), lambda j: imp(S.isa(S.at(S.F(A), j), "ActionGlacierEvolutionDeltaH"), S.F("ActionGlacierEvolutionDeltaH._lastRow", S.at(S.F(A), j)) == 0)))])


contract("ActionsManager::AddAction", props=P16, modifies=lambda S: [(AC + "_manager", S.args[0]), (A, S.this), (D, S.this), (I, S.this), (R, S.this)],
         requires=lambda S: [("action", S.args[0] != null)] + [c for c in schedule(S) if c[0] in ("one action per date", "actions of the dates", "recurrent actions", "the dates are in order")] + [
             ("dates of the action", ordered(S, S.F(SD, S.args[0])))],
         loops={1: add_outer, 2: add_inner}, ensures=add_ens)
