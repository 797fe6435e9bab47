"""What a brick takes in from its incoming fluxes (C03, C01)."""
from common import *
from s_splitter import inputs_sum, SpecCtxPre

D, T = WC + "_contentChangeDynamic", WC + "_contentChangeStatic"


def stores(S, b=None):
    """(water, second container, receives static)."""
    w = S.F("Brick._water", b)
    b = S.this if b is None else b
    return w, If(S.isa(b, "Snowpack"), S.F("Snowpack._snow", b), If(S.isa(b, "Glacier"), S.F("Glacier._ice", b), w))


def inp_ok(S, c):
    v = S.F(WC + "_inputs", c)
    return And([c != null, S.forall(0, S.len(v), lambda k: S.at(v, k) != null)])


def ucf_req(S):
    w, x = stores(S)
    two = Or([S.isa(S.this, "Snowpack"), S.isa(S.this, "Glacier")])
    return [("water container", inp_ok(S, w)), ("second container", imp(two, And([inp_ok(S, x), x != w])))]


def ucf_ens(S):
    O = SpecCtxPre(S)
    w, x = stores(O)
    sp, gl = O.isa(S.this, "Snowpack"), O.isa(S.this, "Glacier")
    add = lambda c: If(infinite(O, c), R0, inputs_sum(S, c))
    return [("water gets what its inputs carry", And([S.F(D, w) == O.F(D, w) + add(w), S.F(T, w) == O.F(T, w)])),
            ("snow gets what its inputs carry", imp(sp, And([S.F(T, x) == O.F(T, x) + add(x), S.F(D, x) == O.F(D, x)]))),
            ("ice gets what its inputs carry", imp(gl, And([S.F(D, x) == O.F(D, x) + add(x), S.F(T, x) == O.F(T, x)])))]


contract("Brick::UpdateContentFromInputs", props=("C03", "C01"), subtypes=True, requires=ucf_req, ensures=ucf_ens,
         modifies=lambda S: [("Flux._amount", None), (D, lambda r: Or([r == stores(S)[0], And([S.isa(S.this, "Glacier"), r == stores(S)[1]])])),
                             (T, lambda r: And([S.isa(S.this, "Snowpack"), r == stores(S)[1]]))])
