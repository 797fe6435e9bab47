"""Contracts of WaterContainer and its users (C01, C15)."""
from common import *

P1 = ("C01",)

contract("WaterContainer::SubtractAmountFromDynamicContentChange", props=P1,
         modifies=["WaterContainer._contentChangeDynamic"],
         ensures=lambda S: [("debited exactly", S.F(WC + "_contentChangeDynamic") == S.old(WC + "_contentChangeDynamic") - If(infinite(S, None), R0, S.args[0]))])
contract("WaterContainer::AddAmountToDynamicContentChange", props=P1,
         modifies=["WaterContainer._contentChangeDynamic"],
         ensures=lambda S: [("credited exactly", S.F(WC + "_contentChangeDynamic") == S.old(WC + "_contentChangeDynamic") + If(infinite(S, None), R0, S.args[0]))])
contract("WaterContainer::AddAmountToStaticContentChange", props=P1,
         modifies=["WaterContainer._contentChangeStatic"],
         ensures=lambda S: [("credited exactly", S.F(WC + "_contentChangeStatic") == S.old(WC + "_contentChangeStatic") + If(infinite(S, None), R0, S.args[0]))])


def _final(S):
    inf, neg = S.old(WC + "_infiniteStorage"), S.old(WC + "_allowNegativeContent")
    tot = S.old(WC + "_content") + S.old(WC + "_contentChangeDynamic") + S.old(WC + "_contentChangeStatic")
    c = S.F(WC + "_content")
    return [
        ("infinite storage unchanged", imp(inf, And([c == S.old(WC + "_content")]))),
        ("pending changes cleared", imp(Not(inf), And([S.F(WC + "_contentChangeDynamic") == 0, S.F(WC + "_contentChangeStatic") == 0]))),
        ("content is content plus changes", imp(And([Not(inf), Or([neg, tot > PREC])]), c == tot)),
        ("only a residue or deficit is removed", imp(And([Not(inf), Not(neg), tot <= PREC]), c == 0)),
    ]


contract("WaterContainer::Finalize", props=P1,
         modifies=["WaterContainer._content", "WaterContainer._contentChangeDynamic", "WaterContainer._contentChangeStatic"],
         ensures=_final)
contract("WaterContainer::GetContentWithChanges", props=P1, pure=lambda S: content_wc(S, None))
contract("WaterContainer::GetContentWithDynamicChanges", props=P1, pure=lambda S: content_dyn(S, None))
contract("WaterContainer::GetContentWithoutChanges", props=P1, pure=lambda S: content_now(S, None))
