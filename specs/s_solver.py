"""Time stepping of the coupled solvers (C10).

The system being integrated is seen through four operations of the Processor. Ghost state, one entry per processor:
  changes    the vector of the state variable changes since the start of the step
  committed  the changes that the last finalized step committed
  commits    the number of steps finalized
The operations' effect on the ghost state defines it (assumed at calls); their effect on the real
memory is proved of their bodies where it is stated under `ensures`/`checks`.
"""
from common import *
from core import vec, has_free
from s_process import pre

P10 = ("C10",)
V = vec(Real)
VS = V.sort
DS, CM, NC = "changes", "committed", "commits"
GHOSTS[DS] = z3.ArraySort(Ref, VS)
GHOSTS[CM] = z3.ArraySort(Ref, VS)
GHOSTS[NC] = z3.ArraySort(Ref, Int)
RATES = z3.Function("rates_of_the_system", Ref, VS, VS)                 # right-hand side, per connection
CON = z3.Function("constrained_rates", Ref, VS, VS, Real, VS)           # after enforcing the constraints
STEP = z3.Function("changes_of_the_state", Ref, VS, Real, VS)           # what applying rates over a time changes
NV = z3.Function("state_variables", Ref, Int)
NR = z3.Function("solved_connections", Ref, Int)


def elementwise(fmls):
    """the functions above depend on the elements of the vectors only."""
    by, seen, out = {}, set(), []

    def go(t):
        if t.get_id() in seen or not z3.is_app(t):
            if z3.is_quantifier(t) and t.get_id() not in seen:
                seen.add(t.get_id())
                go(t.body())
            return
        seen.add(t.get_id())
        for x in t.children():
            go(x)
        n = t.decl().name()
        if n in ("rates_of_the_system", "constrained_rates", "changes_of_the_state") and not has_free(t):
            by.setdefault(n, {})[t.get_id()] = t
    for fm in fmls:
        go(fm)
    for n, d in by.items():
        l = list(d.values())
        for t in l:
            out.append(vlen(t) == (NV(t.arg(0)) if n[0] == "c" and n[1] == "h" else NR(t.arg(0))))
        for i in range(len(l)):
            for j in range(i):
                same = []
                q = z3.Int("differs!%d!%d" % (l[i].get_id(), l[j].get_id()))      # some place where they differ, if they do
                for a, b in zip(l[i].children(), l[j].children()):
                    if a.sort() == VS:
                        same += [vlen(a) == vlen(b), imp(And([q >= 0, q < vlen(a)]), vget(a, q) == vget(b, q))]
                    else:
                        same.append(a == b)
                out.append(imp(And(same), l[i] == l[j]))
    return out


AXIOM_FNS.append(elementwise)


def mk(n, f):
    q = z3.Int("mk!q")
    return V.mk(n, z3.Lambda([q], f(q)))


def lin(*terms):
    """linear combination of vectors."""
    return mk(vlen(terms[0][1]), lambda i: z3.Sum([c * vget(v, i) for c, v in terms]) if len(terms) > 1 else terms[0][0] * vget(terms[0][1], i))


def eqv(S, a, b):
    return And([vlen(a) == vlen(b), S.forall(0, vlen(b), lambda i: vget(a, i) == vget(b, i))])


def zeros(n):
    return mk(n, lambda i: R0)


# ---- the operations ----------------------------------------------------------
SV = "Processor._stateVariableChanges"
size = lambda S: ("one element per state variable", And([vlen(S.argp(0)) == S.len(S.F(SV))]))
contract("Processor::GatherState", props=P10, modifies=lambda S: [("LV", S.raw[0])],
         requires=lambda S: [("one element per state variable", vlen(S.args[0]) == S.len(S.F(SV))),
                             ("state variables", S.forall(0, S.len(S.F(SV)), lambda i: S.at(S.F(SV), i) != nullloc))],
         ensures=lambda S: [size(S)],
         checks=lambda S: [("every state variable change is read at its place", S.forall(0, S.len(S.F(SV)), lambda i: vget(S.argp(0), i) == S.deref(S.at(S.F(SV), i))))],
         ghost=lambda S: [("it is the vector of the changes", S.argp(0) == S.F(DS))])
place = z3.Function("place_of_state_variable", Loc, Int)
VARS = lambda S: [("distinct state variables", S.forall(0, S.len(S.F(SV)), lambda i: And([S.at(S.F(SV), i) != nullloc, place(S.at(S.F(SV), i)) == i])))]
hit = lambda S: (lambda l: And([place(l) >= 0, place(l) < S.len(S.old(SV)), S.at(S.old(SV), place(l)) == l]))
contract("Processor::ScatterState", props=P10, modifies=lambda S: [("*Real", hit(S)), (DS, S.this)],
         requires=lambda S: VARS(S) + [("one element per state variable", vlen(S.args[0]) == S.len(S.F(SV)))],
         checks=lambda S: [("every state variable change takes its element", S.forall(0, S.len(S.F(SV)), lambda i: S.deref(S.at(S.F(SV), i)) == S.at(S.args[0], i)))],
         loops={1: lambda L, S, k: [("set so far", S.forall(0, k, lambda i: z3.Select(L.Hh("*Real", k), S.at(S.old(SV), i)) == S.at(S.args[0], i))),
                                    ("no other value", S.forall_loc(lambda l: imp(Not(hit(S)(l)), z3.Select(L.Hh("*Real", k), l) == z3.Select(S.oldH("*Real"), l))))]},
         ghost=lambda S: [("the changes are now these", S.F(DS) == S.args[0])])
contract("Processor::ResetState", props=P10, modifies=lambda S: [("*Real", hit(S)), (DS, S.this)], requires=VARS,
         checks=lambda S: [("every state variable change is zero", S.forall(0, S.len(S.F(SV)), lambda i: S.deref(S.at(S.F(SV), i)) == 0))],
         loops={1: lambda L, S, k: [("cleared so far", S.forall(0, k, lambda i: z3.Select(L.Hh("*Real", k), S.at(S.old(SV), i)) == 0)),
                                    ("no other value", S.forall_loc(lambda l: imp(Not(hit(S)(l)), z3.Select(L.Hh("*Real", k), l) == z3.Select(S.oldH("*Real"), l))))]},
         ghost=lambda S: [("no changes", S.F(DS) == zeros(NV(S.this)))])


def gcon(S, rates, h):
    return CON(S.this, rates, S.F(DS), h)


def put(S, v):
    """the vector argument takes the elements of v."""
    return And([vlen(S.argp(0)) == vlen(v), S.argp(0) == v])


contract("Processor::EvaluateRates", props=P10, verify=False, modifies=lambda S: [("LV", S.raw[0])],
         note="assumed: fills the vector with the (constrained) rates of the current state; bodies checked by the bounded harness",
         ghost=lambda S: [("rates of the current state", put(S, If(S.args[2], gcon(S, RATES(S.this, S.F(DS)), S.args[1]), RATES(S.this, S.F(DS)))))])
contract("Processor::ConstrainRates", props=P10, verify=False, modifies=lambda S: [("LV", S.raw[0])], note="assumed: as EvaluateRates",
         ghost=lambda S: [("constrained at the current state", put(S, gcon(S, S.args[0], S.args[1])))])
contract("Processor::ApplyRates", props=P10, verify=False, modifies=lambda S: [(DS, S.this)], note="assumed: adds what the rates move over the time to the changes",
         ghost=lambda S: [("the changes grow by what the rates move", S.F(DS) == mk(NV(S.this), lambda i: vget(S.old(DS), i) + vget(STEP(S.this, S.args[0], S.args[1]), i)))])
contract("Processor::FinalizeTimeStep", props=P10, verify=False, modifies=lambda S: [(DS, S.this), (CM, S.this), (NC, S.this)], note="assumed: commits the changes",
         ghost=lambda S: [("committed", And([S.F(CM) == S.old(DS), S.F(NC) == S.old(NC) + 1, S.F(DS) == zeros(NV(S.this))]))])

PR = lambda S: S.F("Solver._processor")


def fresh_step(S):
    p = PR(S)
    return [("processor", p != null), ("a step starts without changes", And([S.F(DS, p) == zeros(NV(p)), NV(p) >= 0, NR(p) >= 0]))]


class Sys:
    """the integration formulas, written over the operations."""

    def __init__(self, S):
        O = pre(S)
        self.p, self.h, self.z = PR(O), S.args[0], O.F(DS, PR(O))
        self.f = lambda d: RATES(self.p, d)
        self.con = lambda r, d=None: CON(self.p, r, self.z if d is None else d, self.h)
        self.g = lambda r: STEP(self.p, r, self.h)
        self.at = lambda r: mk(NV(self.p), lambda i: vget(self.z, i) + vget(self.g(r), i))      # the state after applying rates


def euler(Y):
    return Y.con(Y.f(Y.z))


def heun(Y):
    k1 = Y.con(Y.f(Y.z))
    k2 = Y.f(Y.at(k1))
    return Y.con(lin((z3.Q(1, 2), k1), (z3.Q(1, 2), k2)))


def rk4(Y):
    k1 = Y.con(Y.f(Y.z))
    k2 = Y.con(Y.f(lin((z3.Q(1, 2), Y.at(k1)))))
    k3 = Y.con(Y.f(lin((z3.Q(1, 2), Y.at(k2)))))
    k4 = Y.f(Y.at(k3))
    return Y.con(lin((z3.Q(1, 6), k1), (z3.Q(1, 3), k2), (z3.Q(1, 3), k3), (z3.Q(1, 6), k4)))


def solved(formula):
    def ens(S):
        Y = Sys(S)
        return [("the step is solved", S.result), ("one step is committed", S.F(NC, Y.p) == S.old(NC, Y.p) + 1),
                ("what is committed is the scheme's combination of the rates, applied once from the start of the step", eqv(S, S.F(CM, Y.p), Y.g(formula(Y)))),
                ("the next step starts without changes", S.forall(0, NV(Y.p), lambda i: vget(S.F(DS, Y.p), i) == 0))]
    return ens


GM = lambda S: [(DS, PR(S)), (CM, PR(S)), (NC, PR(S)), ("*Real", None)]
place_ok = lambda S: VARS(S.on(PR(S)))
for c, f, b in (("SolverEulerExplicit", euler, ["_k1"]), ("SolverHeunExplicit", heun, ["_k1", "_k2", "_combinedRates"]),
                ("SolverRK4", rk4, ["_k1", "_k2", "_k3", "_k4", "_combinedRates", "_state"])):
    contract(c + "::Solve", props=P10, requires=lambda S, c=c: fresh_step(S) + place_ok(S) + (
        [("state vector", vlen(S.F("SolverRK4._state")) == S.len(S.F(SV, PR(S))))] if c == "SolverRK4" else []) + [("state variables counted", S.len(S.F(SV, PR(S))) == NV(PR(S)))],
        ensures=solved(f), modifies=lambda S, c=c, b=b: [(c + "." + x, S.this) for x in b] + GM(S))
