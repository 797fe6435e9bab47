"""Recorder (C19)."""
from common import *
from core import macc

P19 = ("C19",)
LG = "Logger."
rows, cols = (lambda m: macc(m, 0)), (lambda m: macc(m, 1))
cell = lambda m, i, j: z3.Select(z3.Select(macc(m, 2), i), j)

contract("Logger::Reset", props=P19 + ("C15",), modifies=lambda S: [(LG + "_cursor", S.this)], ensures=lambda S: [("back to the first row", S.F(LG + "_cursor") == 0)])
contract("Logger::Increment", props=P19, modifies=lambda S: [(LG + "_cursor", S.this)], ensures=lambda S: [("next row", S.F(LG + "_cursor") == S.old(LG + "_cursor") + 1)])
contract("Logger::SetDate", props=P19, modifies=lambda S: [(LG + "_time", S.this)], requires=lambda S: [("row", And([S.F(LG + "_cursor") >= 0, S.F(LG + "_cursor") < S.len(S.F(LG + "_time"))]))],
         ensures=lambda S: [("the date of the row", S.at(S.F(LG + "_time"), S.F(LG + "_cursor")) == S.args[0]), ("as many rows", S.len(S.F(LG + "_time")) == S.len(S.old(LG + "_time"))),
                            ("the other rows keep theirs", S.forall(0, S.len(S.F(LG + "_time")), lambda t: imp(t != S.F(LG + "_cursor"), S.at(S.F(LG + "_time"), t) == S.at(S.old(LG + "_time"), t))))])

SV, SP = LG + "_subBasinValues", LG + "_subBasinValuesPt"
TABLES = [(LG + "_hydroUnitValues", LG + "_hydroUnitValuesPt"), (LG + "_hydroUnitFractions", LG + "_hydroUnitFractionsPt")]


def tables_ok(S):
    c, n = S.F(LG + "_cursor"), S.len(S.F(LG + "_time"))
    out = [("row", And([c >= 0, c < n])), ("series of the basin", And([S.len(S.F(SV)) == S.len(S.F(SP)), S.forall(0, S.len(S.F(SV)), lambda i: And([S.len(S.at(S.F(SV), i)) == n, S.at(S.F(SP), i) != nullloc]))]))]
    for v, p in TABLES:
        out.append(("a table per label", And([S.len(S.F(v)) == S.len(S.F(p)), S.forall(0, S.len(S.F(v)), lambda i: And([rows(S.at(S.F(v), i)) == n, cols(S.at(S.F(v), i)) == S.len(S.at(S.F(p), i))]))])))
    return out


def recorded(S, v, p, on=True):
    c = S.F(LG + "_cursor")
    now, was, pt = S.F(v), S.old(v), S.F(p)
    val = lambda i, j: S.deref(S.at(S.at(pt, i), j))
    cells = lambda i: And([rows(S.at(now, i)) == rows(S.at(was, i)), cols(S.at(now, i)) == cols(S.at(was, i)), S.forall(0, cols(S.at(was, i)), lambda j: And([
        cell(S.at(now, i), c, j) == If(And([on, S.at(S.at(pt, i), j) != nullloc]), val(i, j), cell(S.at(was, i), c, j)),
        S.forall(0, rows(S.at(was, i)), lambda t: imp(t != c, cell(S.at(now, i), t, j) == cell(S.at(was, i), t, j)))]))])
    return And([S.len(now) == S.len(was), S.forall(0, S.len(was), cells)])


def table_after(S, now, was, pt, k):
    """columns before k hold the current values in the row of the cursor, all else is as it was."""
    c = S.F(LG + "_cursor")
    return And([rows(now) == rows(was), cols(now) == cols(was), S.forall(0, cols(was), lambda j: And([
        cell(now, c, j) == If(And([j < k, S.at(pt, j) != nullloc]), S.deref(S.at(pt, j)), cell(was, c, j)),
        S.forall(0, rows(was), lambda t: imp(t != c, cell(now, t, j) == cell(was, t, j)))]))])


def outer(v, p):
    def inv(L, S, k):
        now, was, pt = L.F(v, S.this, k), S.old(v), S.old(p)
        return [("tables done", And([S.len(now) == S.len(was), S.forall(0, S.len(was), lambda i: table_after(S, S.at(now, i), S.at(was, i), S.at(pt, i), If(i < k, cols(S.at(was, i)), z3.IntVal(0))))])),
                ("other recorders", S.forall_ref(lambda r: imp(r != S.this, L.F(v, r, k) == S.old(v, r))))]
    return inv


def inner(v, p):
    def inv(L, S, k):
        now, was, pt, o = L.F(v, S.this, k), L.F0(v, S.this), S.old(p), L.outer
        return [("columns done", And([S.len(now) == S.len(was), table_after(S, S.at(now, o), S.at(was, o), S.at(pt, o), k), S.forall(0, S.len(was), lambda i: imp(i != o, S.at(now, i) == S.at(was, i)))])),
                ("other recorders", S.forall_ref(lambda r: imp(r != S.this, L.F(v, r, k) == L.F0(v, r))))]
    return inv


contract("Logger::Record", props=P19, timeout=30, modifies=lambda S: [(SV, S.this)] + [(v, S.this) for v, _ in TABLES], requires=tables_ok, loops={2: outer(*TABLES[0]), 3: inner(*TABLES[0]), 4: outer(*TABLES[1]), 5: inner(*TABLES[1])},
         ensures=lambda S: [("the basin's elements in their own series at the row", And([S.len(S.F(SV)) == S.len(S.old(SV)), S.forall(0, S.len(S.F(SV)), lambda i: And([
             S.len(S.at(S.F(SV), i)) == S.len(S.at(S.old(SV), i)), S.at(S.at(S.F(SV), i), S.F(LG + "_cursor")) == S.deref(S.at(S.F(SP), i)),
             S.forall(0, S.len(S.at(S.old(SV), i)), lambda t: imp(t != S.F(LG + "_cursor"), S.at(S.at(S.F(SV), i), t) == S.at(S.at(S.old(SV), i), t)))]))])),
             ("the units' elements in their own column at the row", recorded(S, *TABLES[0])),
             ("the cover fractions in their own column at the row", recorded(S, *TABLES[1], on=S.F(LG + "_recordFractions")))])

IV, HI = LG + "_subBasinInitialValues", LG + "_hydroUnitInitialValues"


def init_row(S, now, was, pt, k):
    return And([S.len(now) == S.len(was), S.forall(0, S.len(was), lambda j: S.at(now, j) == If(And([j < k, S.at(pt, j) != nullloc]), S.deref(S.at(pt, j)), S.at(was, j)))])


def init_outer(L, S, k):
    now, was, pt = L.F(HI, S.this, k), S.old(HI), S.old(TABLES[0][1])
    return [("rows done", And([S.len(now) == S.len(was), S.forall(0, S.len(was), lambda i: init_row(S, S.at(now, i), S.at(was, i), S.at(pt, i), If(i < k, S.len(S.at(was, i)), z3.IntVal(0))))])),
            ("other recorders", S.forall_ref(lambda r: imp(r != S.this, L.F(HI, r, k) == S.old(HI, r))))]


def init_inner(L, S, k):
    now, was, pt, o = L.F(HI, S.this, k), L.F0(HI, S.this), S.old(TABLES[0][1]), L.outer
    return [("columns done", And([S.len(now) == S.len(was), init_row(S, S.at(now, o), S.at(was, o), S.at(pt, o), k), S.forall(0, S.len(was), lambda i: imp(i != o, S.at(now, i) == S.at(was, i)))])),
            ("other recorders", S.forall_ref(lambda r: imp(r != S.this, L.F(HI, r, k) == L.F0(HI, r))))]


def initial_ok(S):
    return [("series of the basin", And([S.len(S.F(IV)) == S.len(S.F(SP)), S.forall(0, S.len(S.F(SP)), lambda i: S.at(S.F(SP), i) != nullloc)])),
                             ("a row per label", And([S.len(S.F(HI)) == S.len(S.F(TABLES[0][1])), S.len(S.F(TABLES[0][0])) == S.len(S.F(HI)),
                                                      S.forall(0, S.len(S.F(HI)), lambda i: And([S.len(S.at(S.F(HI), i)) == cols(S.at(S.F(TABLES[0][0]), i)), S.len(S.at(S.F(TABLES[0][1]), i)) == cols(S.at(S.F(TABLES[0][0]), i))]))]))]


contract("Logger::SaveInitialValues", props=P19, modifies=lambda S: [(IV, S.this), (HI, S.this)], loops={2: init_outer, 3: init_inner}, timeout=30,
         requires=lambda S: initial_ok(S),
         ensures=lambda S: [("the basin's elements", And([S.len(S.F(IV)) == S.len(S.old(IV)), S.forall(0, S.len(S.F(IV)), lambda i: S.at(S.F(IV), i) == S.deref(S.at(S.F(SP), i)))])),
                            ("the units' elements, each in its own place", And([S.len(S.F(HI)) == S.len(S.old(HI)), S.forall(0, S.len(S.F(HI)), lambda i: init_row(S, S.at(S.F(HI), i), S.at(S.old(HI), i), S.at(S.F(TABLES[0][1]), i), S.len(S.at(S.old(HI), i))))]))])
