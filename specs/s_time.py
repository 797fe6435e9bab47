"""Clock (C17), forcing series (C18)."""
from common import *
import s_actions
import s_parameters
from s_splitter import ts_cur, forcing, TSD

TM = "TimeMachine."
TR = "TimeSeriesDataRegular."
P17, P18 = ("C17",), ("C18",)
REST = ["_start", "_end", "_timeStep", "_timeStepUnit", "_timeStepInDays"]
tol = z3.Q(1, 10 ** 6)


def unit_days(S, u):
    e = lambda n: u == S.enum("TimeUnit::" + n)
    return If(e("Week"), z3.RealVal(7), If(e("Day"), R1, If(e("Hour"), z3.Q(1, 24), z3.Q(1, 1440))))


def known(S, u, week=True):
    return Or([u == S.enum("TimeUnit::" + n) for n in (("Week",) if week else ()) + ("Day", "Hour", "Minute")])


def dt(S):
    return z3.ToReal(S.F(TM + "_timeStep")) * unit_days(S, S.F(TM + "_timeStepUnit"))


def clock_ok(S):
    return [("configured clock", And([S.F(TM + "_timeStep") >= 1, known(S, S.F(TM + "_timeStepUnit")), S.F(TM + "_timeStepInDays") == dt(S)])),
            ("start before end", S.F(TM + "_start") <= S.F(TM + "_end"))]


contract("IncrementDateBy", props=P17 + P18, modifies=[], requires=lambda S: [("unit", known(S, S.args[2]))],
         ensures=lambda S: [("date moved by the amount", S.result == S.args[0] + z3.ToReal(S.args[1]) * unit_days(S, S.args[2]))])
contract("TimeMachine::UpdateTimeStepInDays", props=P17, modifies=["TimeMachine._timeStepInDays"],
         requires=lambda S: [("unit", known(S, S.F(TM + "_timeStepUnit")))],
         ensures=lambda S: [("step in days", S.F(TM + "_timeStepInDays") == dt(S))])
contract("TimeMachine::Initialize", arity=4, props=P17, modifies=["TimeMachine." + f for f in ["_date", "_stepCount"] + REST],
         requires=lambda S: [("unit", known(S, S.args[3]))],
         ensures=lambda S: [("starts at the start", S.F(TM + "_date") == S.args[0]), ("no step done", S.F(TM + "_stepCount") == 0),
                            ("period kept", And([S.F(TM + "_start") == S.args[0], S.F(TM + "_end") == S.args[1]])),
                            ("step kept", And([S.F(TM + "_timeStep") == S.args[2], S.F(TM + "_timeStepUnit") == S.args[3]])),
                            ("step in days", S.F(TM + "_timeStepInDays") == dt(S))])
contract("TimeMachine::Reset", props=P17 + ("C15",), modifies=["TimeMachine._date", "TimeMachine._stepCount"],
         ensures=lambda S: [("back to the start", S.F(TM + "_date") == S.F(TM + "_start")), ("no step done", S.F(TM + "_stepCount") == 0)])
AMG, UPD = TM + "_actionsManager", TM + "_parametersUpdater"


def inc_req(S):
    a, u = S.F(AMG), S.F(UPD)
    return clock_ok(S) + [("schedule: " + n, imp(a != null, e)) for n, e in s_actions.schedule(S.on(a))] + [("scheduled " + n, imp(u != null, e)) for n, e in s_parameters.lists_ok(S.on(u))]


def inc_ens(S):
    a, u = S.F(AMG), S.F(UPD)
    d, cu, now = S.old(s_actions.D, a), s_actions.CU, S.F(TM + "_date")
    val = s_parameters.VALUE
    from s_process import pre
    U = pre(S).on(u)
    U.args = [now]
    return [("one step further", S.F(TM + "_stepCount") == S.old(TM + "_stepCount") + 1),
            ("date after n steps is the start plus n steps, without drift", now == S.F(TM + "_start") + z3.ToReal(S.F(TM + "_stepCount")) * dt(S)),
            ("every action item due by the new date is applied, none before its date", imp(a != null, And([
                S.forall(S.F(cu, a), S.len(d), lambda k: S.at(d, k) > now + s_actions.TOL), S.forall(S.old(cu, a), S.F(cu, a), lambda k: S.at(d, k) <= now + s_actions.TOL), S.F(cu, a) >= S.old(cu, a), S.F(cu, a) <= S.len(d)]))),
            ("without a schedule nothing is applied", imp(a == null, S.forall_ref(lambda r: And([S.F(x, r) == S.old(x, r) for x in (s_actions.APPLIED, s_actions.CU, s_actions.CUR, s_actions.OFFERS)])))),
            ("scheduled parameters take the values of the new date", S.forall_ref(lambda p: S.F(val, p) == If(And([u != null, U.F("ParametersUpdater._active"), s_parameters.due(U, p)]), s_parameters.new_value(U, p, now, S.old(val, p)), S.old(val, p))))]


contract("TimeMachine::IncrementTime", props=P17 + ("C16", "C20"), modifies=lambda S: [(TM + "_date", S.this), (TM + "_stepCount", S.this), ("ParametersUpdater._previousDate", None), (s_parameters.VALUE, None),
                                                               (s_actions.CU, None)] + [(x, None) for x in (s_actions.CUR, s_actions.APPLIED, s_actions.OFFERS, s_actions.OFFERED, s_actions.LOG, s_actions.LOGN, s_actions.WHEN)] + s_parameters.TIME,
         throws=True, requires=inc_req, ensures=inc_ens)
late = lambda S, d: d > S.F(TM + "_end") + tol * dt(S)          # the period is over (within a millionth of a step)
contract("TimeMachine::IsOver", props=P17, modifies=[], requires=clock_ok,
         ensures=lambda S: [("over once the date is past the end", S.result == late(S, S.F(TM + "_date")))])


def count_ens(S):
    n = z3.ToReal(S.result)
    at = lambda k: S.F(TM + "_start") + k * dt(S)
    return [("every counted step starts within the period", Not(late(S, at(n - 1)))), ("the next one would not", late(S, at(n))), ("at least one", S.result >= 1)]


contract("TimeMachine::GetTimeStepCount", props=P17, modifies=[], requires=clock_ok, ensures=count_ens)


# --- forcing series ---------------------------------------------------------
def step(S, t=None):
    return z3.ToReal(S.F(TR + "_timeStep", t)) * unit_days(S, S.F(TR + "_timeStepUnit", t))


def series_ok(S, t=None):
    return [("regular series", And([S.F(TR + "_timeStep", t) >= 1, known(S, S.F(TR + "_timeStepUnit", t), False)]))]


def inrange(S):
    return And([S.args[0] >= S.F(TR + "_start") - PREC, S.args[0] <= S.F(TR + "_end") + PREC])


def at_date(S, date):
    """the cursor stands on the interval that holds the date."""
    c, d, o = z3.ToReal(S.F(TSD + "_cursor")), step(S), date - S.F(TR + "_start")
    return [("the value of the interval holding the date", imp(o >= 0, And([c * d <= o + 2 * tol * d, (c + 1) * d > o]))),
            ("never before the first value", S.F(TSD + "_cursor") >= 0), ("first value at the start", imp(o < 0, S.F(TSD + "_cursor") == 0))]


contract("TimeSeriesDataRegular::SetCursorToDate", props=P18, modifies=["TimeSeriesData._cursor"], requires=series_ok,
         ensures=lambda S: [("dates outside the series are refused", S.result == inrange(S)),
                            ("a refusal leaves the position", imp(Not(S.result), S.F(TSD + "_cursor") == S.old(TSD + "_cursor")))]
         + [(n, imp(S.result, e)) for n, e in at_date(S, S.args[0])])
contract("TimeSeriesDataRegular::AdvanceOneTimeStep", props=P18, modifies=["TimeSeriesData._cursor"],
         requires=lambda S: [("position", S.F(TSD + "_cursor") >= 0)],
         ensures=lambda S: [("exactly one value further", S.F(TSD + "_cursor") == If(S.result, S.old(TSD + "_cursor") + 1, S.old(TSD + "_cursor"))),
                            ("refused only at the end", S.result == (S.old(TSD + "_cursor") < S.len(S.F(TSD + "_values"))))])


def outside(S, c=None):
    c = S.F(TSD + "_cursor") if c is None else c
    return Or([c < 0, c >= S.len(S.F(TSD + "_values"))])


contract("TimeSeriesDataRegular::GetCurrentValue", props=P18, modifies=[], throws=lambda S: outside(S), requires=lambda S: [("position", S.F(TSD + "_cursor") >= 0)],
         ensures=lambda S: [("the value under the cursor", S.result == ts_cur(S, S.this))])
contract("TimeSeriesDataRegular::GetValueFor", props=P18, modifies=["TimeSeriesData._cursor"], requires=series_ok, throws=True,
         ensures=lambda S: [("only dates of the series are answered", inrange(S)), ("with the value of their interval", And([S.result == ts_cur(S, S.this), Not(outside(S))]))] + at_date(S, S.args[0]))
contract("TimeSeriesDataRegular::SetValues", props=P18, modifies=["TimeSeriesData._values"], requires=series_ok,
         ensures=lambda S: [("a refused series is not stored", imp(Not(S.result), S.F(TSD + "_values") == S.old(TSD + "_values"))),
                            ("one value per step", imp(S.result, And([S.len(S.F(TSD + "_values")) == S.len(S.args[0]),
                                                                      absz(S.F(TR + "_start") + (z3.ToReal(S.len(S.args[0])) - 1) * step(S) - S.F(TR + "_end")) <= PREC]))),
                            ("a matching series is accepted", imp(S.F(TR + "_start") + (z3.ToReal(S.len(S.args[0])) - 1) * step(S) == S.F(TR + "_end"), S.result))])


# --- series of the units ----------------------------------------------------
TD = "TimeSeriesDistributed."
CUR = TSD + "_cursor"
pos = z3.Function("position_in_series", Ref, Int)   # skolem function of "the data objects are distinct"


def data_ok(S):
    v = S.F(TD + "_data")
    return [("data", S.forall(0, S.len(v), lambda i: And([S.at(v, i) != null, pos(S.at(v, i)) == i, S.isa(S.at(v, i), "TimeSeriesDataRegular"), S.F(CUR, S.at(v, i)) >= 0]
                                                        + [e for _, e in series_ok(S, S.at(v, i))])))]


def mine(S, r, n):
    v = S.old(TD + "_data")
    return And([pos(r) >= 0, pos(r) < n, S.at(v, pos(r)) == r])


def adv_inv(L, S, k):
    v = S.old(TD + "_data")
    return [("advanced so far", S.forall(0, k, lambda i: L.F(CUR, S.at(v, i), k) == S.old(CUR, S.at(v, i)) + 1)),
            ("the rest untouched", S.forall_ref(lambda r: imp(Not(mine(S, r, k)), L.F(CUR, r, k) == S.old(CUR, r))))]


contract("TimeSeriesData::AdvanceOneTimeStep", props=P18, verify=False, modifies=["TimeSeriesData._cursor"], requires=lambda S: [("position", S.F(CUR) >= 0)],
         ensures=lambda S: [("exactly one value further", S.F(CUR) == If(S.result, S.old(CUR) + 1, S.old(CUR)))])
contract("TimeSeriesDistributed::AdvanceOneTimeStep", props=P18, requires=data_ok, modifies=lambda S: [(CUR, lambda r: mine(S, r, S.len(S.old(TD + "_data"))))],
         loops={1: adv_inv},
         ensures=lambda S: [("every unit's series moves by exactly one value", imp(S.result, S.forall(0, S.len(S.F(TD + "_data")), lambda i: S.F(CUR, S.at(S.F(TD + "_data"), i)) == S.old(CUR, S.at(S.F(TD + "_data"), i)) + 1)))])


def pos_ens(S, r, date, ok):
    c, d, o = z3.ToReal(S.F(CUR, r)), step(S, r), date - S.F(TR + "_start", r)
    return imp(And([ok, o >= 0]), And([c * d <= o + 2 * tol * d, (c + 1) * d > o]))


def set_inv(L, S, k):
    v = S.old(TD + "_data")

    def one(i):
        r = S.at(v, i)
        c, d, o = z3.ToReal(L.F(CUR, r, k)), step(S, r), S.args[0] - S.F(TR + "_start", r)
        return And([imp(o >= 0, And([c * d <= o + 2 * tol * d, (c + 1) * d > o])), L.F(CUR, r, k) >= 0])
    return [("positioned so far", S.forall(0, k, one)), ("the rest untouched", S.forall_ref(lambda r: imp(Not(mine(S, r, k)), L.F(CUR, r, k) == S.old(CUR, r))))]


contract("TimeSeriesData::SetCursorToDate", props=P18, verify=False, modifies=["TimeSeriesData._cursor"], throws=True, requires=series_ok,
         ensures=lambda S: [("a refusal leaves the position", imp(Not(S.result), S.F(CUR) == S.old(CUR))), ("position", imp(S.result, S.F(CUR) >= 0)),
                            ("the value of the interval holding the date", pos_ens(S, S.this, S.args[0], S.result))])
contract("TimeSeriesDistributed::SetCursorToDate", props=P18, requires=data_ok, throws=True, modifies=lambda S: [(CUR, lambda r: mine(S, r, S.len(S.old(TD + "_data"))))],
         loops={1: set_inv},
         ensures=lambda S: [("every unit's series stands on the date", imp(S.result, S.forall(0, S.len(S.F(TD + "_data")), lambda i: pos_ens(S, S.at(S.F(TD + "_data"), i), S.args[0], z3.BoolVal(True)))))])
contract("TimeSeriesDistributed::GetDataPointer", props=P18, modifies=[], throws=True,
         requires=lambda S: [("one identifier per series", S.len(S.F(TD + "_data")) == S.len(S.F(TD + "_unitIds")))],
         loops={1: lambda L, S, k: [("not found yet", S.forall(0, k, lambda i: S.at(S.F(TD + "_unitIds"), i) != S.args[0]))]},
         ensures=lambda S: [("the series of the unit's own identifier", Not(S.forall(0, S.len(S.F(TD + "_data")), lambda i: Or([S.at(S.F(TD + "_data"), i) != S.result, S.at(S.F(TD + "_unitIds"), i) != S.args[0]]))))])
contract("TimeSeriesUniform::GetDataPointer", props=P18, modifies=[], ensures=lambda S: [("the one series", S.result == S.F("TimeSeriesUniform._data"))])
contract("TimeSeriesUniform::AdvanceOneTimeStep", props=P18, modifies=lambda S: [(CUR, lambda r: r == S.old("TimeSeriesUniform._data"))],
         requires=lambda S: [("data", And([S.F("TimeSeriesUniform._data") != null, S.F(CUR, S.F("TimeSeriesUniform._data")) >= 0]))],
         ensures=lambda S: [("exactly one value further", S.F(CUR, S.F("TimeSeriesUniform._data")) == S.old(CUR, S.F("TimeSeriesUniform._data")) + If(S.result, z3.IntVal(1), z3.IntVal(0)))])
