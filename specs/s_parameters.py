"""Scheduled parameters (C20) and their place in the clock advance (C17)."""
from common import *
from s_actions import YEAR, MONTH, DAY, date_key

P20 = ("C20",)
PM, PA, PU = "ParameterModifier.", "Parameter.", "ParametersUpdater."


def pointed(S, loc):
    """the vector field whose element the pointer stands on."""
    assert loc.decl().name() == "locelem", loc
    base = loc.arg(0)
    key = base.decl().name()[len("loc:"):]
    return S.F(key, base.arg(0))


def whole(S):
    v = pointed(S, S.args[0])
    return v, And([S.args[0].arg(1) == 0, S.args[1].arg(1) == S.len(v) - 1, S.args[0].arg(0) == S.args[1].arg(0)])


increasing = lambda S, v: S.forall(0, S.len(v), lambda i: S.forall(0, i, lambda j: S.at(v, j) < S.at(v, i)))
contract("Find", sig="const double", props=P20, verify=False, modifies=[], note="assumed: exact search in an increasing array (std::lower_bound over pointers)",
         requires=lambda S: [("the whole array", whole(S)[1]), ("in order", increasing(S, whole(S)[0])), ("exact", S.args[3] == 0), ("not empty", S.len(whole(S)[0]) >= 1)],
         ensures=lambda S: (lambda v: [("found at its place", And([S.result < S.len(v), imp(S.result >= 0, S.at(v, S.result) == S.args[2])])),
                                       ("not found only when absent", imp(S.result < 0, S.forall(0, S.len(v), lambda i: S.at(v, i) != S.args[2])))])(whole(S)[0]))

PMV = z3.Function("scheduled_value", Ref, Real, Real)


def kind(S, n):
    return S.F(PM + "_type") == S.enum("ParameterModifierType::" + n)


def mod_ok(S):
    v, d = S.F(PM + "_values"), S.F(PM + "_dates")
    return [("a known kind", Or([kind(S, n) for n in ("Yearly", "Monthly", "Dates")])),
            ("a value per date", imp(Not(kind(S, "Monthly")), And([S.len(v) == S.len(d), S.len(d) >= 1, increasing(S, d)]))),
            ("twelve months", imp(kind(S, "Monthly"), S.len(v) == 12)), ("values", S.forall(0, S.len(v), lambda i: S.at(v, i) != NAN))]


def mod_ens(S):
    v, d = S.F(PM + "_values"), S.F(PM + "_dates")
    y = z3.ToReal(YEAR(S.args[0]))

    def table(when):
        return And([S.forall(0, S.len(d), lambda i: imp(S.at(d, i) == when, S.result == S.at(v, i))),
                    imp(S.forall(0, S.len(d), lambda i: S.at(d, i) != when), S.result == NAN)])
    return [("the value of the month", imp(kind(S, "Monthly"), S.result == S.at(v, MONTH(S.args[0]) - 1))),
            ("the value of the year", imp(kind(S, "Yearly"), table(y))), ("the value of the date", imp(kind(S, "Dates"), table(S.args[0])))]


contract("ParameterModifier::UpdateValue", props=P20, modifies=[("Time." + x, None) for x in ("year", "month", "day", "hour", "min", "sec")], requires=mod_ok, checks=mod_ens,
         ghost=lambda S: [("names the scheduled value", S.result == PMV(S.this, S.args[0]))])
TIME = [("Time." + x, None) for x in ("year", "month", "day", "hour", "min", "sec")]
MOD = PA + "_modifier"
VALUE = PA + "_value"
has_mod = lambda S, p: S.F(PA + "_hasModifier", p)


def new_value(S, p, date, old):
    v = PMV(S.sub(MOD, p), date)
    return If(And([has_mod(S, p), v != NAN]), v, old)


def param_ok(S, p):
    return imp(has_mod(S, p), And([e for _, e in mod_ok(S.on(S.sub(MOD, p)))]))


contract("Parameter::UpdateFromModifier", props=P20, modifies=lambda S: [(VALUE, S.this)] + TIME, requires=lambda S: [("modifier", param_ok(S, S.this))],
         ensures=lambda S: [("takes the scheduled value, and keeps its own where none is scheduled", S.F(VALUE) == new_value(S, S.this, S.args[0], S.old(VALUE))),
                            ("says whether it did", S.result == And([has_mod(S, S.this), PMV(S.sub(MOD, S.this), S.args[0]) != NAN]))])
LISTS = {"Year": PU + "_parametersYearly", "Month": PU + "_parametersMonthly", "Date": PU + "_parametersDates"}
spos = {k: z3.Function("place_in_%s_list" % k.lower(), Ref, Int) for k in LISTS}


def in_list(S, k, p, n=None):
    v = S.old(LISTS[k])
    return And([spos[k](p) >= 0, spos[k](p) < (S.len(v) if n is None else n), S.at(v, spos[k](p)) == p])


def lists_ok(S, ks=("Year", "Month", "Date")):
    out = []
    for k in ks:
        v = S.F(LISTS[k])
        out.append(("parameters by %s" % k.lower(), S.forall(0, S.len(v), lambda i: And([S.at(v, i) != null, spos[k](S.at(v, i)) == i, param_ok(S, S.at(v, i))]))))
    return out


def list_inv(k):
    return lambda L, S, n: [("updated so far", S.forall_ref(lambda p: L.F(VALUE, p, n) == If(in_list(S, k, p, n), new_value(S, p, S.args[0], S.old(VALUE, p)), S.old(VALUE, p))))]


for k in LISTS:
    contract("ParametersUpdater::Changing" + k, props=P20, modifies=[(VALUE, None)] + TIME, requires=lambda S, k=k: lists_ok(S, (k,)), loops={1: list_inv(k)},
             ensures=lambda S, k=k: [("every parameter of the list is updated, no other", S.forall_ref(lambda p: S.F(VALUE, p) == If(in_list(S, k, p), new_value(S, p, S.args[0], S.old(VALUE, p)), S.old(VALUE, p))))])


def due(S, p):
    d0, d = S.old(PU + "_previousDate"), S.args[0]
    y = YEAR(d0) != YEAR(d)
    m = Or([y, MONTH(d0) != MONTH(d)])
    return Or([And([in_list(S, "Year", p), y]), And([in_list(S, "Month", p), m]), in_list(S, "Date", p)])


contract("ParametersUpdater::DateUpdate", props=P20, modifies=lambda S: [(VALUE, None), (PU + "_previousDate", S.this)] + TIME,
         requires=lambda S: lists_ok(S),
         ensures=lambda S: [("parameters due take their scheduled value, the others keep theirs",
                             S.forall_ref(lambda p: S.F(VALUE, p) == If(And([S.F(PU + "_active"), due(S, p)]), new_value(S, p, S.args[0], S.old(VALUE, p)), S.old(VALUE, p)))),
                            ("the date is remembered", S.F(PU + "_previousDate") == If(S.F(PU + "_active"), S.args[0], S.old(PU + "_previousDate")))])
