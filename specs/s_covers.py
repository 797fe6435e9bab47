"""Land cover fractions of a unit (C12)."""
from common import *
from s_area import procs_ok, comps_ok, MOD
from s_process import pre
from core import MAP_BY_NAME

P12 = ("C12",)
LC = "HydroUnit._landCoverBricks"
AF = "LandCover._areaFraction"
GEN = z3.Function("generic_cover_of", Ref, Ref)
rank = z3.Function("rank_of_cover", Ref, Int)
EPS_F, EPS_D = z3.Q(1, 2 ** 23), z3.Q(1, 2 ** 52)


def covers_ok(S):
    v = S.F(LC)

    def one(i):
        b = S.at(v, i)
        return And([b != null, S.isa(b, "LandCover"), rank(b) == i] + [t for _, t in procs_ok(S.on(b))] + [t for _, t in comps_ok(S.on(b))])
    g = GEN(S.this)
    return [("covers", S.forall(0, S.len(v), one)),
            ("generic cover", imp(g != null, And([rank(g) >= 0, rank(g) < S.len(v), S.at(v, rank(g)) == g])))]


contract("HydroUnit::GetGenericLandCover", props=P12, verify=False, modifies=[], pure=lambda S: GEN(S.this),
         note="assumed: the generic cover is found by name and is one of the covers of the unit (searched in the map of names)")


def total(S, n=None, old=True):
    v = S.F(LC)
    return S.sum(S.len(v) if n is None else n, lambda i: S.F(AF, S.at(v, i)))


def change_lemma(S, ref, name="only one cover changed"):
    """sum of the fractions after changing one cover."""
    O = pre(S)
    return (name, lambda k: imp(k <= O.len(O.F(LC)), total(S, k) == total(O, k) + If(And([ref != null, rank(ref) < k]), S.F(AF, ref) - O.F(AF, ref), R0)), S.len(S.F(LC)))


def unchanged(S, *but):
    v = S.F(LC)
    return S.forall(0, S.len(v), lambda i: imp(And([S.at(v, i) != b for b in but]), S.F(AF, S.at(v, i)) == S.old(AF, S.at(v, i))))


FMOD = lambda g: [(AF, lambda r: And([g != null, r == g])), ("SurfaceComponent._areaFraction", None)] + MOD
positive = lambda S: S.forall(0, S.len(S.F(LC)), lambda i: S.F(AF, S.at(S.F(LC), i)) >= 0)


def fix_ens(S):
    O = pre(S)
    g = GEN(S.this)
    return [("the fractions of the unit sum to one", imp(S.result, absz(total(S) - 1) <= EPS_F)),
            ("the generic cover absorbs the difference", imp(And([S.result, g != null, absz(total(O) - 1) > EPS_D]), S.F(AF, g) == maxz(R0, O.F(AF, g) - (total(O) - 1)))),
            ("no fraction becomes negative", imp(positive(O), positive(S))),
            ("a refused correction changes nothing", imp(Not(S.result), unchanged(S))),
            ("a refused correction leaves the total", imp(Not(S.result), And([total(S) == total(O), imp(g != null, S.F(AF, g) == O.F(AF, g))]))),
            ("the other covers keep theirs", unchanged(S, g)),
            ("refused only when the generic cover cannot absorb it", imp(Or([And([g == null, absz(total(O) - 1) < EPS_F]), absz(total(O) - 1) <= EPS_D, And([g != null, O.F(AF, g) >= total(O) - 1 - EPS_F])]), S.result))]


contract("HydroUnit::FixLandCoverFractionsTotal", props=P12, requires=covers_ok, modifies=lambda S: FMOD(GEN(S.this)), ensures=fix_ens,
         lemmas=lambda S: [change_lemma(S, GEN(S.this))])


# --- changing the fraction of a cover -----------------------------------------
def in_map(S):
    m = S.F("HydroUnit._landCoverMap")
    M = MAP_BY_NAME[str(m.sort())]
    return z3.Select(M.has(m), S.args[0]), z3.Select(M.get(m), S.args[0])


def others(S, g, c, n=None):
    v = S.F(LC)
    return S.sum(S.len(v) if n is None else n, lambda i: If(S.at(v, i) == g, R0, If(S.at(v, i) == c, S.args[1], S.F(AF, S.at(v, i)))))


contract("HydroUnit::TransferLandCoverContent", props=P12, verify=False, modifies=[(WC + "_content", None)],
         note="assumed: moves contents only (the amounts are checked by the bounded harness)")


def chg_ens(S):
    O = pre(S)
    g = GEN(S.this)
    has, c = in_map(O)
    f = S.args[1]
    ok = And([f >= 0, f <= 1, has])
    return [("a refused change changes no fraction", imp(Not(S.result), unchanged(S))),
            ("out of range or unknown: refused", imp(Not(ok), Not(S.result))),
            ("the fractions of the unit sum to one", imp(S.result, absz(total(S) - 1) <= EPS_F)),
            ("the cover takes the fraction", imp(And([S.result, c != g]), S.F(AF, c) == f)),
            ("the other covers keep theirs", unchanged(S, g, c)),
            ("no fraction becomes negative", imp(positive(O), positive(S))),
            ("a change that fits is accepted", imp(And([ok, g != null, others(O, g, c) <= 1]), S.result))]


def chg_lemmas(S):
    O = pre(S)
    g = GEN(S.this)
    _, c = in_map(O)
    v = O.F(LC)
    mid = lambda k: O.sum(k, lambda i: If(O.at(v, i) == c, S.args[1], O.F(AF, O.at(v, i))))
    gm = lambda k: If(And([g != null, rank(g) < k]), If(g == c, S.args[1], O.F(AF, g)), R0)
    return [("the total with the new fraction", lambda k: imp(k <= O.len(v), mid(k) == others(O, g, c, k) + gm(k)), S.len(S.F(LC)))]


contract("HydroUnit::ChangeLandCoverAreaFraction", props=P12, ensures=chg_ens, lemmas=chg_lemmas,
         requires=lambda S: covers_ok(S) + [("named covers", imp(in_map(S)[0], And([in_map(S)[1] != null, rank(in_map(S)[1]) >= 0, rank(in_map(S)[1]) < S.len(S.F(LC)),
                                                                                   S.at(S.F(LC), rank(in_map(S)[1])) == in_map(S)[1]])))],
         modifies=lambda S: [(AF, lambda r: Or([And([GEN(S.this) != null, r == GEN(S.this)]), And([in_map(S)[0], r == in_map(S)[1]])])),
                             ("SurfaceComponent._areaFraction", None), (WC + "_content", None)] + MOD)
