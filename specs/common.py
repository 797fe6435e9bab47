"""Vocabulary shared by the contracts."""
import z3
from core import *
from core import And, Or, Not, If
from contracts import contract, STORE
from verify import GHOSTS, AXIOM_FNS

PREC = z3.Q(1, 10 ** 8)       # PRECISION: the 1e-8 mm of property C01
R0, R1 = z3.RealVal(0), z3.RealVal(1)
ImpliesZ = z3.Implies


def imp(a, b):
    return z3.Implies(a, b)


def absz(x):
    return z3.If(x >= 0, x, -x)


def minz(a, b):
    return z3.If(a <= b, a, b)


def maxz(a, b):
    return z3.If(a >= b, a, b)


def same_all(S, cls, names, ref=None):
    """named fields of ref unchanged."""
    return And([S.F("%s.%s" % (cls, n), ref) == S.old("%s.%s" % (cls, n), ref) for n in names])


# containers -----------------------------------------------------------------
WC = "WaterContainer."


def infinite(S, c):
    return S.F(WC + "_infiniteStorage", c)


def content_wc(S, c):      # with all changes
    return If(infinite(S, c), INF, S.F(WC + "_content", c) + S.F(WC + "_contentChangeDynamic", c) + S.F(WC + "_contentChangeStatic", c))


def content_dyn(S, c):
    return If(infinite(S, c), INF, S.F(WC + "_content", c) + S.F(WC + "_contentChangeDynamic", c))


def content_now(S, c):
    return If(infinite(S, c), INF, S.F(WC + "_content", c))


def capacity(S, c):
    return S.deref(S.F(WC + "_capacity", c))
