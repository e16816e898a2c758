"""Entailment over path facts: syntactic fast path, then z3 (linearised with product
lemmas, then nonlinear)."""
import time
import z3
from terms import *
import terms

stats = {'z3_calls': 0, 'z3_time': 0.0, 'fast': 0, 'unknown': 0}
_cache = {}


def _atomvar(at, vars):
    v = vars.get(at.id)
    if v is None:
        v = z3.Int('a%d' % at.id) if at.sort == 'int' else z3.Real('a%d' % at.id)
        vars[at.id] = v
    return v


class Enc:
    def __init__(self, linear=True):
        self.vars = {}
        self.mono = {}
        self.linear = linear
        self.monos_used = set()
        self.bvars = {}

    def monoz(self, m):
        z = self.mono.get(m)
        if z is not None:
            return z
        if len(m) == 1 and m[0][1] == 1:
            z = _atomvar(terms.atom(m[0][0]), self.vars)
        elif self.linear:
            isint = all(e > 0 and terms.atom(a).sort == 'int' for a, e in m)
            z = (z3.Int if isint else z3.Real)('m%d' % len(self.mono))
            self.monos_used.add(m)
        else:
            z = None
            for a, e in m:
                v = _atomvar(terms.atom(a), self.vars)
                for _ in range(abs(e)):
                    if e > 0:
                        z = v if z is None else z * v
                    else:
                        z = (1 / v) if z is None else z / v
        self.mono[m] = z
        return z

    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            if isinstance(c, Fraction):
                cz = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            else:
                cz = z3.IntVal(int(c))
            if not m:
                ts.append(cz)
            else:
                ts.append(cz * self.monoz(m) if c != 1 else self.monoz(m))
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def boolz(self, b):
        o = b.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self.boolz(b.args[0]))
        if o == 'le':
            return self.poly(b.args[0]) <= 0
        if o == 'eq':
            return self.poly(b.args[0]) == 0
        if o == 'and':
            return z3.And([self.boolz(x) for x in b.args])
        if o == 'or':
            return z3.Or([self.boolz(x) for x in b.args])
        v = self.bvars.get(b)
        if v is None:
            v = z3.Bool('b%d' % len(self.bvars))
            self.bvars[b] = v
        return v


def _nn(b):
    """polys known >= 0 from fact b"""
    if b.op == 'le':
        return [-b.args[0]]
    if b.op == 'not' and b.args[0].op == 'le':
        p = b.args[0].args[0]
        return [p - 1] if p.is_int() else [p]
    if b.op == 'eq':
        return [b.args[0], -b.args[0]]
    if b.op == 'and':
        r = []
        for x in b.args:
            r += _nn(x)
        return r
    return []


def _fn_axioms(at):
    """defining facts of interpreted function atoms"""
    if at.kind == 'ind':
        return []
    if at.kind != 'fn':
        return []
    nm = at.args[0]
    r = []
    if nm in ('idiv', 'imod'):
        a, b = at.args[1], at.args[2]
        pos = band(le(0, a), lt(0, b))
        q = P(mk_fn('idiv', (a, b), 'int')) if nm == 'imod' else P(at)
        qq = a - P(at) if nm == 'imod' else b * q
        # for a>=0,b>0: b*q <= a < b*q+b
        if nm == 'idiv':
            r.append(bor(bnot(pos), band(le(qq, a), lt(a, qq + b), le(0, q), le(q, a))))
            if b.is_const():
                r.append(bor(bnot(lt(0, b)), band(le(qq - (b - 1), a), le(a, qq + b - 1))))
        else:
            r.append(bor(bnot(pos), band(le(0, P(at)), lt(P(at), b), le(P(at), a), eq(a - P(at), b * q))))
            if b.is_const():
                bb = abs(int(b.const_value()))
                r.append(band(lt(-bb, P(at)), lt(P(at), bb), eq(a - P(at), b * q)))
    elif nm == 'cdiv':
        n, s = at.args[1], at.args[2]
        r.append(bor(lt(s, 1), band(le(n, P(at) * s), lt(P(at) * s, n + s))))
        r.append(bor(lt(s, 1), lt(n, 0), le(0, P(at))))
        r.append(bor(lt(s, 1), lt(n, 1), le(1, P(at))))
        r.append(bor(lt(s, 1), lt(n, 0), le(P(at), n)))
    elif nm == 'ipart':
        p = at.args[1]
        r.append(bor(lt(p, 0), band(le(P(at), p), lt(p, P(at) + 1), le(0, P(at)))))
        r.append(bor(lt(0, p), band(le(p, P(at)), lt(P(at) - 1, p), le(P(at), 0))))
    elif nm == 'floor':
        p = at.args[1]
        r.append(band(le(P(at), p), lt(p, P(at) + 1)))
    elif nm == 'sqrt':
        r.append(le(0, P(at)))
        r.append(bor(lt(at.args[1], 0), eq(P(at) * P(at), at.args[1])))
        r.append(bor(le(at.args[1], 0), lt(0, P(at))))
    elif nm == 'abs':
        p = at.args[1]
        r.append(band(le(p, P(at)), le(-p, P(at)), bor(eq(p, P(at)), eq(-p, P(at)))))
    elif nm in ('cos', 'sin'):
        r.append(band(le(-1, P(at)), le(P(at), 1)))
    return r


def entails(facts, b, hard=False, timeout=1500):
    if b is TRUE:
        return True
    fs = facts if isinstance(facts, frozenset) else frozenset(facts)
    if b in fs:
        return True
    if b.op == 'and':
        return all(entails(fs, x, hard, timeout) for x in b.args)
    key = (fs, b, hard)
    r = _cache.get(key)
    if r is not None:
        return r
    r = _entails(fs, b, hard, timeout)
    if not r and b.op == 'eq' and b.args[0].is_int() and any(len(m) > 1 for f in (b,) + tuple(_relevant(fs, b)) for m in _monos(f)):
        p = b.args[0]
        r = _entails(fs, le(p, 0), hard, timeout) and _entails(fs, le(0, p), hard, timeout)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def _monos(b):
    if b.op in ('le', 'eq'):
        return b.args[0].t
    if b.op in ('and', 'or', 'not'):
        return [m for x in b.args for m in _monos(x)]
    return ()


def satisfiable(facts, timeout=1500):
    """False only if the facts are proved contradictory"""
    return not entails(facts, FALSE, False, timeout)


def _bound_fast(p, fs):
    """try to prove p <= 0 by substituting unit bounds: all atoms nonneg & coefficients"""
    return None


def _relevant(fs, b):
    """facts connected to the query by shared atoms (transitively)"""
    if b is FALSE:
        return list(fs)
    seen = set(b_atoms(b))
    todo = list(fs)
    rel = []
    changed = True
    fa = [(f, b_atoms(f)) for f in todo]
    while changed:
        changed = False
        rest = []
        for f, at in fa:
            if not at or at & seen:
                rel.append(f)
                if not at <= seen:
                    seen |= at
                    changed = True
            else:
                rest.append((f, at))
        fa = rest
        if not changed:
            break
    return rel


def _unmod(fs):
    return fs


_heavy_memo = {}
HEAVY = 40


def _int_only(b):
    if b.op in ('le', 'eq'):
        return b.args[0].is_int()
    if b.op in ('and', 'or', 'not'):
        return all(_int_only(x) for x in b.args)
    return True


def heavy(b):
    """a condition on big real terms: treated as a combination of unrelated propositions"""
    r = _heavy_memo.get(b)
    if r is None:
        r = not _int_only(b) and len(b_atoms(b)) > HEAVY
        _heavy_memo[b] = r
    return r


_skel = {}


def _skeleton(b):
    r = _skel.get(b)
    if r is None:
        o = b.op
        if o == 'true':
            r = z3.BoolVal(True)
        elif o == 'false':
            r = z3.BoolVal(False)
        elif o == 'not':
            r = z3.Not(_skeleton(b.args[0]))
        elif o == 'and':
            r = z3.And([_skeleton(x) for x in b.args])
        elif o == 'or':
            r = z3.Or([_skeleton(x) for x in b.args])
        else:
            r = z3.Bool('p%d' % len(_skel))
        _skel[b] = r
    return r


def _skeleton_entails(fs, b):
    s = z3.Solver()
    s.add([_skeleton(f) for f in fs])
    s.add(z3.Not(_skeleton(b)))
    return s.check() == z3.unsat


def _entails(fs, b, hard, timeout):
    if b.op == 'forall':
        bs, body = b.args
        ren = {}
        extra = []
        for v, T in bs:
            nv = P(fresh(v.name.split('!')[0] if v.name else 'q', 'int'))
            ren[v] = nv
            extra.append(le(0, nv))
            extra.append(lt(nv, subst(T, ren)))
        for f in fs:
            # the same range quantified over already: its instance
            if f.op == 'forall' and len(f.args[0]) == len(bs) and all(T == U for (_, T), (_, U) in zip(bs, f.args[0])):
                extra.append(bsubst(f.args[1], {w: ren[v] for (v, _), (w, _) in zip(bs, f.args[0])}))
        return entails(frozenset(fs) | frozenset(extra), bsubst(body, ren), hard, timeout)
    if heavy(b) or any(heavy(f) for f in fs):
        if _skeleton_entails(fs, b):
            return True
        if heavy(b):
            return False
        fs = [f for f in fs if not heavy(f)]
    facts = _relevant(fs, b)
    neg = bnot(b)
    # instantiate universally quantified facts on syntactically plausible terms
    qf = [f for f in facts if f.op == 'forall']
    facts = [f for f in facts if f.op != 'forall']
    if qf:
        facts = facts + _instantiate(qf, facts, neg)
    base = facts + [neg]
    ax = []
    done = set()
    for _ in range(3):
        ats = set()
        for f in base + ax:
            ats |= b_atoms(f)
        new = [a for a in ats if a not in done and a.kind in ('fn', 'ind')]
        if not new:
            break
        for a in new:
            done.add(a)
            ax += _fn_axioms(a)
    base = base + ax
    t0 = time.time()
    stats['z3_calls'] += 1
    enc = Enc(True)
    s = z3.SolverFor('QF_LIRA') if False else z3.Solver()
    s.set('timeout', timeout)
    zs = [enc.boolz(f) for f in base]
    zs += _inddefs(enc, done)
    if enc.monos_used:
        zs += _indprods(enc)
        zs += _products(enc, base)
    s.add(zs)
    r = s.check()
    if r == z3.unsat:
        stats['z3_time'] += time.time() - t0
        return True
    if enc.monos_used and (hard or r == z3.unknown):
        enc = Enc(False)
        s = z3.Solver()
        s.set('timeout', timeout if not hard else 5 * timeout)
        s.add([enc.boolz(f) for f in base])
        s.add(_inddefs(enc, done))
        r = s.check()
        if r == z3.unsat:
            stats['z3_time'] += time.time() - t0
            return True
    if enc.monos_used and not hard:
        r2 = _by_cases(facts, b, timeout)
        if r2:
            return True
    if r == z3.unknown:
        stats['unknown'] += 1
    stats['z3_time'] += time.time() - t0
    return False


def _by_cases(facts, b, timeout):
    """substitute equations for symbols; split disjunctions of such equations"""
    for f in facts:
        if f.op == 'eq':
            d = _solve_sym(f.args[0])
            if d is not None:
                mp = {d[0]: d[1]}
                return entails(frozenset(bsubst(x, mp) for x in facts if x is not f), bsubst(b, mp), False, timeout)
    for f in facts:
        if f.op == 'or' and len(f.args) <= 3 and all(x.op == 'eq' and _solve_sym(x.args[0]) is not None for x in f.args):
            rest = frozenset(x for x in facts if x is not f)
            return all(entails(rest | frozenset([x]), b, False, timeout) for x in f.args)
    return False


def _solve_sym(p):
    """(s, v) with p = 0 iff s = v, for an integer symbol s"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            at = terms.atom(m[0][0])
            if at.kind == 'sym' and at.sort == 'int':
                v = (P(at) - p * c) if c == 1 else (P(at) + p)
                if at not in v.fv:
                    return at, v
    return best


def _inddefs(enc, ats):
    out = []
    for at in ats:
        if at.kind == 'ind':
            out.append(z3.If(enc.boolz(at.args[0]), _atomvar(at, enc.vars) == 1, _atomvar(at, enc.vars) == 0))
    return out


def _indprods(enc):
    """monomials with an indicator factor are the rest of the monomial or zero"""
    out = []
    done = set()
    while True:
        todo = [m for m in enc.monos_used if m not in done]
        if not todo:
            return out
        for m in todo:
            done.add(m)
            for a, e in m:
                at = terms.atom(a)
                if at.kind == 'ind' and e == 1:
                    rest = tuple(x for x in m if x[0] != a)
                    z = enc.monoz(m)
                    zr = enc.monoz(rest) if rest else z3.IntVal(1)
                    zi = _atomvar(at, enc.vars)
                    out.append(z3.Or(z3.And(zi == 1, z == zr), z3.And(zi == 0, z == 0)))
                    break


def _sqnonneg(at):
    return False


def _products(enc, base):
    """lemmas: products of nonnegative facts that only mention monomials in use"""
    nn = []
    for f in base:
        nn += _nn(f)
    seen = set()
    out = []
    uniq = []
    for p in nn:
        if p in seen or p.is_const():
            continue
        seen.add(p)
        uniq.append(p)
    for m in list(enc.monos_used):
        if all(e % 2 == 0 for a, e in m):
            out.append(enc.mono[m] >= 0)
    target = set(enc.monos_used)
    level1 = list(uniq)
    cur = list(uniq)
    prods = []
    for rnd in range(2):
        new = []
        for p in level1:
            for q in cur:
                if len(p.t) * len(q.t) > 24:
                    continue
                r = p * q
                if r in seen or r.is_const():
                    continue
                hit = sum(1 for m in r.t if len(m) > 1 or (m and m[0][1] > 1))
                good = sum(1 for m in r.t if m in target)
                if good and hit - good <= 2:
                    seen.add(r)
                    new.append(r)
        if len(new) > 150:
            new.sort(key=lambda r: sum(1 for m in r.t if len(m) > 1 and m not in target))
            new = new[:150]
        prods += new
        for r in new:
            for m in r.t:
                if len(m) > 1 or (m and m[0][1] > 1):
                    target.add(m)
        cur = new
        if not new:
            break
    for r in prods:
        out.append(enc.poly(r) >= 0)
    return out


def _instantiate(qf, facts, neg):
    """instantiate forall facts by matching cells/fn atoms of the query"""
    out = []
    ats = set()
    for f in facts + [neg]:
        ats |= b_atoms(f)
    for q in qf:
        bs, body = q.args
        if len(bs) != 1:
            # try all int syms
            continue
        (v, T), = bs
        cands = set()
        for a in b_atoms(body):
            if v not in a.fv or a.kind not in ('cell', 'fn'):
                continue
            for g in ats:
                if g.kind != a.kind:
                    continue
                if a.kind == 'cell' and (g.args[0] != a.args[0] or g.args[2] != a.args[2]):
                    continue
                if a.kind == 'fn' and g.args[0] != a.args[0]:
                    continue
                pa = a.args[1]
                pg = g.args[1]
                if not isinstance(pa, Poly) or not isinstance(pg, Poly):
                    continue
                c = pa.t.get(((v.id, 1),))
                if c is None:
                    continue
                d = pg - pa + P(v) * c
                if v in d.fv:
                    continue
                s = d * const(Fraction(1) / c)
                if s.is_int():
                    cands.add(s)
        for a in ats:
            if a.kind == 'sym' and a.sort == 'int' and len(cands) < 6 and not cands:
                cands.add(P(a))
        for s in list(cands)[:8]:
            out.append(bor(bnot(band(le(0, s), lt(s, T))), bsubst(body, {v: s})))
    return out
