"""Contracts of fluxes (C03) and Process::ApplyChange (C01)."""
from common import *

FL = "Flux."


def frac_ok(S, f=None):
    return And([S.F("Flux._fractionTotal", f) >= 0, S.F("Flux._fractionTotal", f) <= 1])


def inst_target(S, f):
    """container credited at once by an instantaneous flux."""
    b = S.F("FluxToBrick._toBrick", f)
    return If(S.F("Flux._type", f) == S.enum("ContentType::Water"), S.F("Brick._water", b), S.F("Snowpack._snow", b))


def is_inst(S, f):
    return S.isa(f, "FluxToBrickInstantaneous")


def upd_requires(S):
    t = S.this
    b = S.F("FluxToBrick._toBrick")
    ty = S.F("Flux._type")
    return [("fraction within [0,1]", Or([is_inst(S, t), frac_ok(S)])),
            ("instantaneous target", imp(is_inst(S, t), And([
                b != null, Or([ty == S.enum("ContentType::Water"), And([ty == S.enum("ContentType::Snow"), S.isa(b, "Snowpack")])]),
                inst_target(S, t) != null]))),
            ]


def upd_ensures(S):
    t = S.this
    a = S.args[0] * S.old("Flux._fractionTotal")
    tgt = inst_target(S, t)
    K = WC + "_contentChangeStatic"
    return [("amount is the input times the fraction", S.F("Flux._amount") == a),
            ("instantaneous transfer credited once", imp(is_inst(S, t), S.F(K, tgt) == S.old(K, tgt) + If(infinite(S, tgt), R0, a))),
            ("no other credit", imp(Not(is_inst(S, t)), S.Hh(K) == S.oldH(K)))]


contract("Flux::UpdateFlux", props=("C01", "C03"), subtypes=True, requires=upd_requires, ensures=upd_ensures,
         modifies=lambda S: ["Flux._amount", (WC + "_contentChangeStatic", lambda r: And([is_inst(S, S.this), r == inst_target(S, S.this)]))])
contract("Flux::IsForcing", props=("C02", "C03"), subtypes=True, pure=lambda S: S.isa(S.this, "FluxForcing"))
contract("Flux::IsInstantaneous", props=("C02", "C03"), subtypes=True, pure=lambda S: is_inst(S, S.this))
contract("Flux::Reset", props=("C03", "C15"), subtypes=True, modifies=["Flux._amount"],
         ensures=lambda S: [("emptied", S.F("Flux._amount") == 0)])
contract("Flux::UpdateFractionTotal", props=("C03",), modifies=["Flux._fractionTotal"],
         ensures=lambda S: [("product of the fractions", S.F("Flux._fractionTotal") == S.F("Flux._fractionUnitArea") * S.F("Flux._fractionLandCover"))])
contract("Flux::SetFractionUnitArea", props=("C03", "C14"), modifies=["Flux._fractionTotal", "Flux._fractionUnitArea"],
         ensures=lambda S: [("set", S.F("Flux._fractionUnitArea") == S.args[0]),
                            ("total", S.F("Flux._fractionTotal") == S.args[0] * S.F("Flux._fractionLandCover"))])
contract("Flux::SetFractionLandCover", props=("C03", "C14"), modifies=["Flux._fractionTotal", "Flux._fractionLandCover"],
         ensures=lambda S: [("set", S.F("Flux._fractionLandCover") == S.args[0]),
                            ("total", S.F("Flux._fractionTotal") == S.args[0] * S.F("Flux._fractionUnitArea"))])


def proc_out(S, j=None):
    return S.at(S.F("Process._outputs"), S.args[0] if j is None else j)


def ac_requires(S):
    S2 = S.on(proc_out(S))
    i = S.args[0]
    return [("index", And([0 <= i, i < S.len(S.F("Process._outputs"))])), ("flux", proc_out(S) != null), ("container", S.F("Process._container") != null),
            ("dt", S.args[2] > 0),
            ] + upd_requires(S2)


def ac_ensures(S):
    i, rate, dt = S.args
    c = S.F("Process._container")
    fx = S.at(S.old("Process._outputs"), i)
    moved = If(rate > PREC, rate * dt, R0)
    D, T = WC + "_contentChangeDynamic", WC + "_contentChangeStatic"
    S2 = S.on(fx)
    tgt = inst_target(S2, fx)
    return [("what is debited is what the flux was handed", And([
                S.F("Flux._amount", fx) == moved * S.old("Flux._fractionTotal", fx),
                S.F(D, c) == S.old(D, c) - If(infinite(S, c), R0, moved)])),
            ("instantaneous credit", imp(is_inst(S, fx), S.F(T, tgt) == S.old(T, tgt) + If(infinite(S, tgt), R0, moved * S.old("Flux._fractionTotal", fx)))),
            ("a rate that is not positive moves nothing", imp(rate <= 0, And([S.F(D, c) == S.old(D, c), S.F("Flux._amount", fx) == 0])))]


contract("Process::ApplyChange", props=("C01",), requires=ac_requires, ensures=ac_ensures,
         modifies=lambda S: [("Flux._amount", proc_out(S)), (WC + "_contentChangeDynamic", S.F("Process._container")),
                             (WC + "_contentChangeStatic", lambda r: And([is_inst(S, proc_out(S)), r == inst_target(S.on(proc_out(S)), proc_out(S))]))])
