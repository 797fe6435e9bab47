"""Contract store."""
import z3
from core import *


def _norm(x, S):
    if x is None:
        return []
    if callable(x):
        x = x(S)
    out = []
    for j, e in enumerate(x if isinstance(x, (list, tuple)) else [x]):
        if isinstance(e, tuple):
            out.append(e)
        else:
            out.append(("clause %d" % (j + 1), e))
    return out


class Contract:
    def __init__(self, qname, requires=None, ensures=None, modifies=(), throws=False, exc_ensures=None, pure=None, result_lv=None,
                 loops=None, props=(), inline=False, always=False, trusted=None, arity=None, sig=None, classes=None,
                 result_class=None, probes=None, frame=True, facts=None, hints=None, verify=True, subtypes=False, timeout=None, note=None,
                 invariant=None, setup=None, rounds=2, unfold=None, lemmas=None, checks=None, ghost=None, cut=False, loops_inlined=False):
        self.loops_inlined = loops_inlined      # the invariants also hold for loops reached through inlined (base) calls
        self.cut = cut            # loops with an invariant: only the invariant is known after the loop
        self.ghost = ghost        # clauses over ghost state: assumed at calls (they define the ghost state), not proved of the body
        self.checks = checks      # clauses proved of the body, not assumed at calls
        self.lemmas = lemmas      # [(name, P(k), n)]: P proved by induction on k >= 0, used at n
        self.qname, self.requires, self.ensures, self.modifies = qname, requires, ensures, modifies
        self.throws, self.exc_ensures, self.pure, self.result_lv = throws, exc_ensures, pure, result_lv
        self.loops, self.props, self.inline, self.always, self.trusted = loops or {}, tuple(props), inline, always, trusted
        self.arity, self.sig, self.classes, self.result_class, self.probes = arity, sig, classes, result_class, probes
        self.frame, self.facts, self.hints, self.verify, self.subtypes, self.timeout, self.note = frame, facts, hints, verify, subtypes, timeout, note
        self.setup, self.rounds = setup, rounds
        self.unfold = unfold      # functions with contracts whose bodies are inlined while verifying this one

    def get_requires(self, S):
        return _norm(self.requires, S)

    def get_ensures(self, S):
        out = _norm(self.ensures, S)
        return out

    def get_throws(self, S):
        t = self.throws
        if callable(t):
            return t(S)
        return t

    def get_pure(self, S):
        return self.pure(S) if self.pure else None

    def get_result_lv(self, S):
        return self.result_lv(S) if self.result_lv else None

    def get_modifies(self, S):
        """list of (heap key, ref | None | predicate)."""
        ms = self.modifies(S) if callable(self.modifies) else self.modifies
        out = []
        for m in ms:
            if isinstance(m, str):
                if m.startswith("*") or m in S.E.ghost:
                    out.append((m, None))
                else:
                    out.append((S.key(m), S.this))
            else:
                k, r = m
                if k == "LV":
                    out.append(m)
                    continue
                kk = k if k.startswith("*") or k in S.E.ghost else S.key(k)
                out.append((kk, r))
        return out


class Store:
    def __init__(self):
        self.by = {}

    def add(self, c):
        self.by.setdefault(c.qname, []).append(c)
        return c

    def get(self, q):
        l = self.by.get(q)
        return l[0] if l else None

    def get_all(self, q):
        return self.by.get(q, [])

    def all(self):
        for l in self.by.values():
            yield from l


STORE = Store()


def contract(qname, **kw):
    return STORE.add(Contract(qname, **kw))
