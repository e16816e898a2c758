"""lemmas over contracts: facts about the specification formulas, proved by the same normaliser"""
from contract import *
import traceback

LEMMAS = []


class Lemma:
    def __init__(self, name, props, cfgs, fn):
        self.name, self.props, self.cfgs, self.fn = name, props, cfgs, fn


def lemma(name, props, cfgs=('complex',)):
    def deco(fn):
        LEMMAS.append(Lemma(name, props.split() if isinstance(props, str) else props, cfgs, fn))
        return fn
    return deco


class LC(SymC):
    """a specification context with free inputs, and proof goals"""

    def __init__(self, cfg):
        eng = Engine(cfg)
        st = State({}, frozenset(), {})
        SymC.__init__(self, eng, st, cfg=cfg)
        self.goals = []

    def prove_eq(self, name, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = Cx.of(a), Cx.of(b)
            self.prove_eq(name + '.re', a.re, b.re)
            self.prove_eq(name + '.im', a.im, b.im)
            return
        d = P(a) - P(b)
        self.goals.append((name, prove_zero(d, self.facts), '' if not d.t else str(d)[:800]))

    def prove(self, name, cond):
        self.goals.append((name, entails(self.facts, cond), str(cond)[:800]))


def run(l):
    obls = []
    for cfg in l.cfgs:
        c = LC(cfg)
        try:
            l.fn(c)
            obls += c.goals
        except Exception as e:
            obls.append((l.name, False, 'internal: ' + traceback.format_exc()[-800:]))
    return dict(name=l.name, obls=obls, note='')
