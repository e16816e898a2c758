"""Terms of the verification-condition generator.

Values are (Laurent) polynomials over hash-consed atoms with rational
coefficients.  The same representation is used for machine integers (treated as
mathematical integers) and for C doubles (treated as real numbers).
"""
from fractions import Fraction
from itertools import permutations
import hashlib
import math

# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'fv', 'key', 'name', 'skey')

    def __repr__(self):
        return self.key

_atoms = {}
_atom_by_id = []


def short(key):
    """long keys are abbreviated by a digest, so that shared subterms are not spelled out again and again"""
    return key[:100] + '~' + hashlib.sha1(key.encode()).hexdigest()[:24]


def _new_atom(kind, args, sort, fv, key):
    a = _atoms.get((kind, args))
    if a is not None:
        return a
    if len(key) > 400:
        key = short(key)
    a = Atom()
    a.id = len(_atom_by_id)
    a.kind = kind
    a.args = args
    a.sort = sort
    a.fv = fv
    a.key = key
    a.name = None
    _atoms[(kind, args)] = a
    _atom_by_id.append(a)
    if fv is None:
        a.fv = frozenset((a,))
    return a


class Poly:
    """Immutable Laurent polynomial.  t: dict monomial -> coefficient, where a
    monomial is a tuple of (atom_id, exponent) sorted by atom_id."""
    __slots__ = ('t', '_h', '_fv', '_key', '_int')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None
        self._key = None
        self._int = None

    # -- basic protocol
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        if isinstance(o, (int, Fraction)):
            return self.t == const(o).t
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= _atom_by_id[a].fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m, c in self.t.items():
                ms = '*'.join(sorted((_atom_by_id[a].key if e == 1 else '%s^%d' % (_atom_by_id[a].key, e))
                                     for a, e in m))
                if not ms:
                    parts.append(str(c))
                elif c == 1:
                    parts.append(ms)
                else:
                    parts.append('%s*%s' % (c, ms))
            parts.sort()
            self._key = '+'.join(parts) if parts else '0'
        return self._key

    def __repr__(self):
        return self.key

    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if isinstance(c, Fraction) and c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if e < 0 or _atom_by_id[a].sort != 'int':
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(_atom_by_id[a])
        return s

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, Poly):
            if type(o).__name__ == 'Cx':
                return NotImplemented
            o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _n(v)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            if type(o).__name__ == 'Cx':
                return NotImplemented
            o = P(o)
        return self + (-o)

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if type(o).__name__ == 'Cx':
                return NotImplemented
            o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c = o.t[()]
            if c == 1:
                return self
            return Poly({m: _n(v * c) for m, v in self.t.items()})
        if self.is_const():
            return o * self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, extra = _mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = _n(c)
                else:
                    v = v + c
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = _n(v)
        return Poly(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mmul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        if a in d:
            at = _atom_by_id[a]
            if at.kind == 'ind':
                continue
            e2 = d[a] + e
            if e2 == 0:
                del d[a]
            else:
                d[a] = e2
        else:
            d[a] = e
    return tuple(sorted(d.items())), None


ZERO = Poly({})
ONE = Poly({(): 1})


def const(c):
    if c == 0:
        return ZERO
    return Poly({(): _n(c)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): 1})
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return real_const(x)
    raise TypeError('cannot make a Poly from %r' % (x,))


_real_cache = {}


def real_const(f):
    r = _real_cache.get(f)
    if r is None:
        if f != f or f in (float('inf'), float('-inf')):
            r = P(mk_fn('fconst', (repr(f),), 'real'))
        elif f == int(f) and abs(f) < 1e15:
            r = const(int(f))
        else:
            q = Fraction(f / math.pi).limit_denominator(360)
            sm = Fraction(f).limit_denominator(1000)
            dec = Fraction(repr(f))
            if len(repr(abs(f)).replace('.', '')) <= 12:
                r = const(dec)
            elif q != 0 and abs(float(q) * math.pi - f) <= 4e-16 * abs(f):
                r = P(PI) * const(q)
            elif float(sm) == f:
                r = const(sm)
            else:
                r = const(dec)
        _real_cache[f] = r
    return r


def sym(name, sort='real'):
    return _new_atom('sym', (name, sort), sort, None, name)


_fresh = [0]


def fresh(prefix, sort='int'):
    _fresh[0] += 1
    return sym('%s!%d' % (prefix, _fresh[0]), sort)


_rnames = {}


def stable(facts, fv):
    """a bound-variable name free in neither the facts nor fv; the same each time, so that cached proofs are found again"""
    used = _rnames.get(facts)
    if used is None:
        used = frozenset(a.key for b in facts for a in b.fv if a.key.startswith('r~'))
        if len(_rnames) > 20000:
            _rnames.clear()
        _rnames[facts] = used
    i = 0
    while True:
        k = 'r~%d' % i
        if k not in used and not any(a.key == k for a in fv):
            return sym(k, 'int')
        i += 1


PI = sym('PI', 'real')


def _afv(args):
    s = set()
    for x in args:
        if isinstance(x, (Poly, Atom)):
            s |= x.fv
        elif isinstance(x, Bool):
            s |= x.fv
        elif isinstance(x, tuple):
            s |= _afv(x)
    return frozenset(s)


def _akey(x):
    if isinstance(x, (Poly, Atom, Bool)):
        return x.key
    if isinstance(x, tuple):
        return '(' + ','.join(_akey(y) for y in x) + ')'
    return str(x)


def mk_cell(obj, off, ty):
    """Initial content of the symbolic object `obj' at byte offset off."""
    sort = {'d': 'real', 'i': 'int', 'l': 'int', 'b': 'int', 'f': 'real', 'h': 'int'}[ty]
    args = (obj, off, ty)
    return _new_atom('cell', args, sort, off.fv, '%s[%s]%s' % (obj, off.key, '' if ty == 'd' else ty))


def mk_fn(name, args, sort='real'):
    args = (name,) + tuple(args)
    if name == 'ite' and args[2] == args[3]:
        raise ValueError
    a = _atoms.get(('fn', args + (sort,)))
    if a is not None:
        return a
    fv = _afv(args[1:])
    if name in _letdef:
        fv = fv | _letdef[name][2]
    return _new_atom('fn', args + (sort,), sort, fv,
                     '%s(%s)' % (name, ','.join(_akey(x) for x in args[1:])))


def mk_den(p):
    """Atom standing for the value of p (used only with negative exponents)."""
    return _new_atom('den', (p,), 'real', p.fv, '{%s}' % p.key)


def content(p):
    """Rational content of a polynomial (positive)."""
    num = 0
    den = 1
    for c in p.t.values():
        c = Fraction(c)
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    return Fraction(num, den)


def inv(p):
    p = P(p)
    if not p.t:
        return P(mk_fn('inv0', (), 'real'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(_atom_by_id[a].kind != 'ind' for a, _ in m):
            return Poly({tuple((a, -e) for a, e in m): _n(Fraction(1) / c)})
    c = content(p)
    # common monomial factor
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)} \
                if common else common
            if any(e < 0 for e in common.values()):
                common = {a: e for a, e in common.items() if e > 0}
    cm = tuple(sorted((a, e) for a, e in (common or {}).items() if _atom_by_id[a].kind != 'ind'))
    # sign normalisation: leading (by key) coefficient positive
    lead = min(p.t.items(), key=lambda mc: _mkey(mc[0]))
    if lead[1] < 0:
        c = -c
    q = p * const(Fraction(1) / c)
    if cm:
        q = q * Poly({tuple((a, -e) for a, e in cm): 1})
    d = mk_den(q)
    r = Poly({((d.id, -1),): _n(Fraction(1) / c)})
    if cm:
        r = r * Poly({tuple((a, -e) for a, e in cm): 1})
    return r


_mkeys = {}


def _mkey(m):
    k = _mkeys.get(m)
    if k is None:
        k = '*'.join(sorted('%s^%d' % (_atom_by_id[a].key, e) for a, e in m))
        _mkeys[m] = k
    return k


# ---------------------------------------------------------------- booleans

class Bool:
    __slots__ = ('op', 'args', 'fv', 'key', '_h', '__weakref__')

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.key

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)

    def __bool__(self):
        raise TypeError('symbolic boolean used as a Python bool: %s' % self.key)


_bools = {}


def _mkb(op, args, fv, key):
    b = _bools.get((op, args))
    if b is None:
        if len(key) > 1500:
            key = short(key)
        b = Bool()
        b.op = op
        b.args = args
        b.fv = fv
        b.key = key
        b._h = hash((op, key))
        _bools[(op, args)] = b
    return b


TRUE = _mkb('true', (), frozenset(), 'true')
FALSE = _mkb('false', (), frozenset(), 'false')


def bvar(name):
    return _mkb('var', (name,), frozenset(), name)


def bfn(name, args):
    """Uninterpreted predicate."""
    args = tuple(args)
    return _mkb('fn', (name,) + args, _afv(args), '%s(%s)' % (name, ','.join(_akey(x) for x in args)))


def _norm_rel(p):
    """scale to primitive integer coefficients (positive scaling)."""
    c = content(p)
    if c != 1:
        p = p * const(Fraction(1) / c)
    return p


def le0(p):
    """p <= 0"""
    p = P(p)
    if p.is_const():
        return TRUE if p.const_value() <= 0 else FALSE
    if p.is_int():
        # divide non-constant coefficients by their gcd, floor the constant
        c0 = p.t.get((), 0)
        g = 0
        for m, c in p.t.items():
            if m:
                g = math.gcd(g, abs(int(c)))
        if g > 1:
            q = {m: int(c) // g for m, c in p.t.items() if m}
            # g*q + c0 <= 0  <=> q <= floor(-c0/g)
            k = (-int(c0)) // g
            if k != 0:
                q[()] = -k
            p = Poly(q)
        return _canon_int_le(p)
    p = _norm_rel(p)
    return _mkb('le', (p,), p.fv, '(%s<=0)' % p.key)


def _canon_int_le(p):
    # choose canonical direction: p<=0  or  not(-p+1<=0)
    q = ONE - p
    lead = min(((m, c) for m, c in p.t.items() if m), key=lambda mc: _mkey(mc[0]))
    if lead[1] > 0:
        return _mkb('le', (p,), p.fv, '(%s<=0)' % p.key)
    return bnot(_mkb('le', (q,), q.fv, '(%s<=0)' % q.key))


def lt0(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.const_value() < 0 else FALSE
    if p.is_int():
        return le0(p + 1)
    # p < 0  <=> not (-p <= 0)
    return bnot(le0(-p))


def eq0(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.const_value() == 0 else FALSE
    if p.is_int():
        g = 0
        for m, c in p.t.items():
            if m:
                g = math.gcd(g, abs(int(c)))
        if int(p.t.get((), 0)) % g:
            return FALSE
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) > 1 or m[0][1] > 1:
            return bor(*[eq0(P(atom(a))) for a, _ in m])
    p = _norm_rel(p)
    lead = min(p.t.items(), key=lambda mc: _mkey(mc[0]))
    if lead[1] < 0:
        p = -p
    return _mkb('eq', (p,), p.fv, '(%s==0)' % p.key)


def lt(a, b): return lt0(P(a) - P(b))
def le(a, b): return le0(P(a) - P(b))
def gt(a, b): return lt0(P(b) - P(a))
def ge(a, b): return le0(P(b) - P(a))
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return bnot(eq0(P(a) - P(b)))


def bnot(b):
    if b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return _mkb('not', (b,), b.fv, '!' + b.key)


def _flat(op, bs):
    out = []
    for b in bs:
        if b.op == op:
            out.extend(b.args)
        else:
            out.append(b)
    return out


def band(*bs):
    bs = _flat('and', bs)
    s = []
    for b in bs:
        if b is TRUE or b in s:
            continue
        if b is FALSE or bnot(b) in s:
            return FALSE
        s.append(b)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.key)
    args = tuple(s)
    return _mkb('and', args, frozenset().union(*[b.fv for b in s]), '(' + '&'.join(b.key for b in s) + ')')


def bor(*bs):
    bs = _flat('or', bs)
    s = []
    for b in bs:
        if b is FALSE or b in s:
            continue
        if b is TRUE or bnot(b) in s:
            return TRUE
        s.append(b)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda b: b.key)
    args = tuple(s)
    return _mkb('or', args, frozenset().union(*[b.fv for b in s]), '(' + '|'.join(b.key for b in s) + ')')


def bforall(binders, b):
    """binders: tuple of (sym atom, T) meaning 0 <= sym < T"""
    if b is TRUE:
        return TRUE
    fv = set(b.fv)
    for v, T in binders:
        fv |= T.fv
    for v, T in binders:
        fv.discard(v)
    return _mkb('forall', (tuple(binders), b), frozenset(fv),
                'forall(%s).%s' % (','.join('%s<%s' % (v.key, T.key) for v, T in binders), b.key))


def ind(b):
    """indicator of a boolean as a Poly"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == 'not':
        return ONE - ind(b.args[0])
    if b.op == 'and':
        r = ONE
        for x in b.args:
            r = r * ind(x)
        return r
    if b.op == 'or':
        r = ONE
        for x in b.args:
            r = r * (ONE - ind(x))
        return ONE - r
    return P(_new_atom('ind', (b,), 'int', b.fv, '[%s]' % b.key))


def ite(c, a, b):
    if c is TRUE:
        return P(a)
    if c is FALSE:
        return P(b)
    a = P(a)
    b = P(b)
    if a == b:
        return a
    if a.is_int() and b.is_int():
        pass
    i = ind(c)
    return i * a + (ONE - i) * b


# ---------------------------------------------------------------- sums

def _factor_monos(p, vs):
    """yield (indep Poly, dep monomial) splitting each monomial of p by dependence on vs"""
    for m, c in p.t.items():
        ind_m = []
        dep_m = []
        for a, e in m:
            if _atom_by_id[a].fv & vs:
                dep_m.append((a, e))
            else:
                ind_m.append((a, e))
        yield Poly({tuple(ind_m): c}), tuple(dep_m)


MAX_CONST_SUM = 8
_mksum_cache = {}


def mk_sum(v, T, body):
    """Sum_{v=0}^{T-1} body ; v a sym atom, T a Poly (assumed >= 0)"""
    T = P(T)
    body = P(body)
    if not body.t:
        return ZERO
    if T.is_const():
        n = T.const_value()
        if n <= 0:
            return ZERO
        if n <= MAX_CONST_SUM:
            r = ZERO
            for i in range(int(n)):
                r = r + subst(body, {v: const(i)})
            return r
    vs = frozenset((v,))
    if not (body.fv & vs):
        return body * T
    if not v.key.startswith('b~'):
        i = 0
        used = {a.key for a in body.fv if a.key.startswith('b~')}
        used.update(a.key for a in T.fv if a.key.startswith('b~'))
        while 'b~%d' % i in used:
            i += 1
        w = sym('b~%d' % i, 'int')
        ck = (w, T, subst(body, {v: P(w)}))
        r = _mksum_cache.get(ck)
        if r is None:
            if len(_mksum_cache) > 200000:
                _mksum_cache.clear()
            r = _mksum_cache[ck] = mk_sum(w, T, ck[2])
        return r
    r = ZERO
    groups = {}
    for indep, dep in _factor_monos(body, vs):
        groups[dep] = groups.get(dep, ZERO) + indep
    for dep, co in groups.items():
        if not dep:
            r = r + co * T
            continue
        r = r + co * _sum_mono(((v, T),), dep)
    return r


def _sum_mono(binders, mono):
    """canonical Poly for sum over binders of the monomial."""
    # flatten nested sums
    binders = list(binders)
    changed = True
    while changed:
        changed = False
        for i, (a, e) in enumerate(mono):
            at = _atom_by_id[a]
            if at.kind == 'sum' and e >= 1:
                b2, m2 = at.args
                ren = {}
                nb = []
                for (v2, T2) in b2:
                    nv = fresh('s', 'int')
                    nb.append((nv, subst(T2, ren)))
                    ren[v2] = P(nv)
                mp = subst(Poly({m2: 1}), ren)
                rest = list(mono)
                if e == 1:
                    del rest[i]
                else:
                    rest[i] = (a, e - 1)
                full = Poly({tuple(rest): 1}) * mp
                if len(full.t) != 1:
                    # renaming expanded into several monomials
                    r = ZERO
                    for m, c in full.t.items():
                        r = r + const(c) * _sum_mono_top(binders + nb, m)
                    return r
                (mm, c), = full.t.items()
                if c != 1:
                    return const(c) * _sum_mono_top(binders + nb, mm)
                mono = mm
                binders = binders + nb
                changed = True
                break
    # Kronecker elimination: indicator of an equality that is linear in a binder
    for a, e in mono:
        at = _atom_by_id[a]
        if at.kind == 'ind' and at.args[0].op == 'eq':
            q = at.args[0].args[0]
            for (v, T) in binders:
                c = q.t.get(((v.id, 1),))
                if c in (1, -1) and q.is_int():
                    rest = q - P(v) * c
                    if v in rest.fv:
                        continue
                    sol = rest * (-c)
                    if any(v in T2.fv for (v2, T2) in binders if v2 is not v):
                        continue
                    others = [b for b in binders if b[0] is not v]
                    m2 = tuple(x for x in mono if x[0] != a)
                    body = subst(Poly({m2: 1}), {v: sol})
                    body = body * ind(le(0, sol)) * ind(lt(sol, T))
                    if not others:
                        return body
                    r = ZERO
                    for m, cc in body.t.items():
                        r = r + const(cc) * _sum_mono_top(others, m)
                    return r
    # row-major flattening: the body depends on (v, w) only through T_w v + w
    if len(binders) >= 2:
        bset = {v for v, _ in binders}
        for w, Tw in binders:
            if Tw.fv & bset or Tw.is_const():
                continue
            for v, Tv in binders:
                if v is w or Tv.fv & bset:
                    continue
                if any(b is not v and b is not w and T.fv & {v, w} for b, T in binders):
                    continue
                if not all((v in _atom_by_id[a].fv) == (w in _atom_by_id[a].fv) for a, e in mono):
                    continue
                q = subst(Poly({mono: 1}), {w: P(w) - Tw * P(v)})
                if v in q.fv:
                    continue
                nv = fresh('s', 'int')
                q = subst(q, {w: P(nv)})
                others = [b for b in binders if b[0] is not v and b[0] is not w] + [(nv, Tv * Tw)]
                r = ZERO
                for m, cc in q.t.items():
                    r = r + const(cc) * _sum_mono_top(others, m)
                return r
    return _canon_sum(binders, mono)


def _sum_mono_top(binders, m):
    """sum over all binders of monomial m, factoring out binders it does not depend on"""
    fvm = set()
    for a, _ in m:
        fvm |= _atom_by_id[a].fv
    changed = True
    binders = list(binders)
    factor = ONE
    while changed:
        changed = False
        for (v, T) in list(binders):
            if v not in fvm and not any(v in T2.fv for (v2, T2) in binders if v2 is not v):
                factor = factor * T
                binders.remove((v, T))
                changed = True
    # independent factors of the monomial
    vs = frozenset(v for v, _ in binders)
    indm = tuple((a, e) for a, e in m if not (_atom_by_id[a].fv & vs))
    depm = tuple((a, e) for a, e in m if (_atom_by_id[a].fv & vs))
    res = factor * Poly({indm: 1})
    if not binders:
        return res
    # factor that is itself dependent on removed binders' T? (T independent of remaining is fine)
    if res.fv & vs:
        # dependent ranges: factor depends on remaining binders
        r = ZERO
        for mm, c in (res * Poly({depm: 1})).t.items():
            r = r + const(c) * _canon_sum(binders, mm)
        return r
    return res * _sum_mono(tuple(binders), depm)


_canon_cache = {}


_neg_cache = {}


def _has_neg(p, v):
    """does v occur with a negative coefficient in some subterm?"""
    k = (p, v)
    r = _neg_cache.get(k)
    if r is None:
        r = False
        seen = []
        polys = []
        for a in all_atoms(p):
            if v in a.fv and a.kind in ('cell', 'fn', 'ind'):
                for x in _sub_polys(a):
                    polys.append(x)
        for q in polys:
            for m, c in q.t.items():
                if c < 0 and any(a == v.id for a, _ in m):
                    r = True
        _neg_cache[k] = r
    return r


def _sub_polys(a):
    if a.kind == 'cell':
        yield a.args[1]
    elif a.kind == 'fn':
        for x in a.args[1:-1]:
            if isinstance(x, Poly):
                yield x
    elif a.kind == 'ind':
        st = [a.args[0]]
        while st:
            b = st.pop()
            for x in b.args:
                if isinstance(x, Poly):
                    yield x
                elif isinstance(x, Bool):
                    st.append(x)


def _canon_sum(binders, mono):
    ck = (tuple(binders), mono)
    r = _canon_cache.get(ck)
    if r is not None:
        return r
    n = len(binders)
    best = None
    body = Poly({mono: 1})
    bset = set(v for v, _ in binders)
    # names of the bound variables: avoid names that occur free
    off = 0
    free = set(body.fv)
    for _, T in binders:
        free |= T.fv
    for x in free - bset:
        if x.key.startswith('#'):
            off = max(off, int(x.key[1:]) + 1)
    if off or any(x.key.startswith('#') for x in bset):
        ren0 = {v: fresh('s', 'int') for v, _ in binders}
        rp = {v: P(nv) for v, nv in ren0.items()}
        b0 = subst(body, rp)
        if len(b0.t) == 1:
            (m0, c0), = b0.t.items()
            binders = [(ren0[v], subst(T, rp)) for v, T in binders]
            if c0 != 1:
                r = _canon_cache[ck] = _canon_sum(binders, m0) * const(c0)
                return r
            mono = m0
            body = b0
            bset = set(v for v, _ in binders)
        else:
            raise ValueError('sum renaming')
    # order of the bound variables: by a signature, permuting only ties
    star = P(sym('*', 'int'))
    at_ = P(sym('@', 'int'))
    sigs = []
    neg = []
    for v, T in binders:
        mp = {w: (at_ if w is v else star) for w, _ in binders}
        sigs.append((subst(T, mp).key, subst(body, mp).key) if n > 1 else ('', ''))
        neg.append(_has_neg(body, v))
    deps = [set(i for i, (w, _) in enumerate(binders) if w in T.fv) for v, T in binders]

    def orders(done):
        if len(done) == n:
            yield tuple(done)
            return
        av = [i for i in range(n) if i not in done and deps[i] <= set(done)]
        if not av:
            return
        m = min(sigs[i] for i in av)
        tie = [i for i in av if sigs[i] == m]
        if n > 5:
            tie = tie[:1]
        for i in tie:
            for r in orders(done + [i]):
                yield r
    for perm in orders([]):
        ren = {}
        order = []
        for pos, bi in enumerate(perm):
            v, T = binders[bi]
            nv = _bound(pos + off)
            T2 = subst(T, ren)
            ren[v] = P(nv)
            order.append((nv, T2))
        flips = [0]
        if any(neg) and n <= 3:
            can = [pos for pos, bi in enumerate(perm) if neg[bi] and not any(binders[bi][0] in b[1].fv for b in binders)]
            for pos in can:
                flips = flips + [f | (1 << pos) for f in flips]
        for flip in flips:
            ren2 = {}
            for pos, bi in enumerate(perm):
                v, T = binders[bi]
                nv, T2 = order[pos]
                ren2[v] = T2 - 1 - P(nv) if flip & (1 << pos) else P(nv)
            b2 = subst(body, ren2)
            bk = Poly({m: 1 for m in b2.t}) if len(b2.t) == 1 else b2
            key = (';'.join('%s<%s' % (v.key, T.key) for v, T in order), bk.key)
            lk = (len(key[1]), key)
            if best is None or lk < best[0]:
                best = (lk, tuple(order), b2)
    if best is None:
        order = tuple(binders)
        b2 = body
    else:
        _, order, b2 = best
    if len(b2.t) != 1:
        # canonical renaming expanded the monomial: keep as a poly body through a den-like wrapper
        m2 = None
        order2 = tuple(binders)
        a = _mk_sum_atom(order2, mono)
    else:
        (m2, c), = b2.t.items()
        a = _mk_sum_atom(order, m2)
        if c != 1:
            a = P(a) * const(c)
    a = P(a)
    _canon_cache[ck] = a
    return a


def _mk_sum_atom(order, mono):
    body = Poly({mono: 1})
    fv = set(body.fv)
    for v, T in order:
        fv |= T.fv
    for v, T in order:
        fv.discard(v)
    sort = 'int' if body.is_int() else 'real'
    return _new_atom('sum', (order, mono), sort, frozenset(fv),
                     'Sum(%s|%s)' % (','.join('%s<%s' % (v.key, T.key) for v, T in order), body.key))


_bounds = []


def _bound(i):
    while len(_bounds) <= i:
        _bounds.append(sym('#%d' % len(_bounds), 'int'))
    return _bounds[i]


# ---------------------------------------------------------------- functions

def _is_even_neg(p):
    """canonical sign: True if -p has smaller key order"""
    lead = min(p.t.items(), key=lambda mc: _mkey(mc[0]))
    return lead[1] < 0


def sqrt_(p):
    p = P(p)
    if p.is_const():
        c = Fraction(p.const_value())
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    else:
        c = content(p)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        # pull out the square content
        if n * n == c.numerator and d * d == c.denominator and c != 1:
            return const(Fraction(n, d)) * sqrt_(p * const(Fraction(1) / c))
    return P(mk_fn('sqrt', (p,), 'real'))


def fabs_(p):
    p = P(p)
    if p.is_const():
        return const(abs(p.const_value()))
    if _is_even_neg(p):
        p = -p
    return P(mk_fn('abs', (p,), 'int' if p.is_int() else 'real'))


def cos_(p):
    p = P(p)
    if not p.t:
        return ONE
    if _is_even_neg(p):
        p = -p
    return P(mk_fn('cos', (p,), 'real'))


def sin_(p):
    p = P(p)
    if not p.t:
        return ZERO
    if _is_even_neg(p):
        return -P(mk_fn('sin', (-p,), 'real'))
    return P(mk_fn('sin', (p,), 'real'))


def idiv(a, b):
    """C integer division (truncating); simplifications assume nonnegative operands where
    symbolic (obligations record it)"""
    a = P(a)
    b = P(b)
    if b.is_const() and b.const_value() == 1:
        return a
    if a.is_const() and b.is_const() and b.const_value() != 0:
        x, y = int(a.const_value()), int(b.const_value())
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q)
    if not a.t:
        return ZERO
    # exact division by a monomial
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        q, r = divmono(a, mb, cb)
        if not r.t:
            return q
    elif b == a:
        return ONE
    return P(mk_fn('idiv', (a, b), 'int'))


def imod(a, b):
    a = P(a)
    b = P(b)
    if a.is_const() and b.is_const() and b.const_value() != 0:
        x, y = int(a.const_value()), int(b.const_value())
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r)
    if not a.t or (b.is_const() and abs(b.const_value()) == 1):
        return ZERO
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        q, r = divmono(a, mb, cb)
        if not r.t:
            return ZERO
    return P(mk_fn('imod', (a, b), 'int'))


def divmono(p, mb, cb):
    """split p = (cb*mb)*q + r termwise; constants split by floor division when mb is ()"""
    q = {}
    r = {}
    db = dict(mb)
    for m, c in p.t.items():
        dm = dict(m)
        ok = all(dm.get(a, 0) >= e for a, e in db.items())
        if ok:
            nm = []
            for a, e in m:
                e2 = e - db.get(a, 0)
                if e2:
                    nm.append((a, e2))
            nm = tuple(nm)
            cc = Fraction(c) / cb
            if cc.denominator == 1:
                q[nm] = int(cc)
                continue
            if not nm:
                k = int(cc.numerator // cc.denominator)
                if k:
                    q[()] = q.get((), 0) + k
                rem = c - k * cb
                if rem:
                    r[m] = _n(rem)
                continue
        r[m] = c
    return Poly(q), Poly(r)


# ---------------------------------------------------------------- substitution

_subst_cache = {}


def subst(p, mp):
    """substitute atoms (syms / cells / any) by Polys; mp: dict Atom -> Poly"""
    if not mp or not p.t:
        return p
    if all(a.kind == 'sym' for a in mp):
        if not any(a in p.fv for a in mp):
            return p
    mkey = tuple(sorted((a.id, v) for a, v in mp.items())) if len(mp) < 2 else \
        tuple(sorted(((a.id, v) for a, v in mp.items()), key=lambda x: x[0]))
    return _subst(p, mp, mkey)


def _subst(p, mp, mkey):
    ck = (p, mkey)
    r = _subst_cache.get(ck)
    if r is not None:
        return r
    res = {}
    slow = []
    for m, c in p.t.items():
        changed = False
        facs = []
        for a, e in m:
            at = _atom_by_id[a]
            na = _subst_atom(at, mp, mkey)
            if na is not None:
                changed = True
                facs.append((na, e))
            else:
                facs.append((a, e))
        if not changed:
            v = res.get(m)
            if v is None:
                res[m] = c
            else:
                v = v + c
                if v == 0:
                    del res[m]
                else:
                    res[m] = _n(v)
        else:
            slow.append((c, facs))
    r = Poly(res)
    for c, facs in slow:
        t = const(c)
        plain = tuple((a, e) for a, e in facs if isinstance(a, int))
        if plain:
            t = t * Poly({plain: 1})
        for a, e in facs:
            if isinstance(a, Poly):
                t = t * (a ** e)
        r = r + t
    if len(_subst_cache) > 400000:
        _subst_cache.clear()
    _subst_cache[ck] = r
    return r


def _subst_atom(at, mp, mkey):
    """returns Poly or None when unchanged"""
    if at in mp:
        return mp[at]
    k = at.kind
    if k == 'sym':
        return None
    if not (any((a.kind != 'sym' or a in at.fv) for a in mp)):
        return None
    if k == 'cell':
        o, off, ty = at.args
        n = _subst(off, mp, mkey)
        if n is off or n == off:
            return None
        return P(mk_cell(o, n, ty))
    if k == 'fn':
        changed = False
        na = []
        for x in at.args[1:-1]:
            y = _subst_any(x, mp, mkey)
            if y is not x:
                changed = True
            na.append(y)
        if at.args[0] in _letdef:
            d = _letdef[at.args[0]]
            if any(a.kind != 'sym' or a in d[2] for a in mp):
                qs, body, _ = let_open(at)
                b2 = _subst(body, mp, mkey)
                if b2 != body:
                    return let_app(b2, qs, na)
        if not changed:
            return None
        return apply_fn(at.args[0], na, at.args[-1])
    if k == 'den':
        n = _subst(at.args[0], mp, mkey)
        if n == at.args[0]:
            return None
        return n
    if k == 'ind':
        n = bsubst_(at.args[0], mp, mkey)
        if n is at.args[0]:
            return None
        return ind(n)
    if k == 'sum':
        order, mono = at.args
        # capture avoidance: bound names '#i' never occur free in substituted values unless nested
        cap = True      # always open the sum with fresh names
        if not any((a.kind != 'sym' or a in at.fv) for a in mp):
            return None
        mp2 = {a: v for a, v in mp.items() if not any(a is b for b, _ in order)}
        if cap:
            ren = {}
            o2 = []
            used = {a.key for a in at.fv if a.key.startswith('o~')}
            for v in mp.values():
                used.update(a.key for a in v.fv if a.key.startswith('o~'))
            for a in mp:
                if a.key.startswith('o~'):
                    used.add(a.key)
            i = 0
            for v, T in order:
                while 'o~%d' % i in used:
                    i += 1
                nv = sym('o~%d' % i, 'int')
                i += 1
                o2.append((nv, subst(T, ren)))
                ren[v] = P(nv)
            body = subst(Poly({mono: 1}), ren)
            if subst(body, mp2) == body and all(subst(T, mp2) == T for _, T in o2):
                return None
        else:
            o2 = list(order)
            body = Poly({mono: 1})
        b3 = subst(body, mp2)
        o3 = [(v, subst(T, mp2)) for v, T in o2]
        if not cap and b3 == body and all(a[1] == b[1] for a, b in zip(o3, o2)):
            return None
        r = b3
        for v, T in reversed(o3):
            r = mk_sum(v, T, r)
        return r
    raise ValueError(k)


def _subst_any(x, mp, mkey):
    if isinstance(x, Poly):
        r = _subst(x, mp, mkey)
        return x if r == x else r
    if isinstance(x, Bool):
        return bsubst_(x, mp, mkey)
    if isinstance(x, Atom):
        r = _subst_atom(x, mp, mkey)
        return x if r is None else r
    if isinstance(x, tuple):
        y = tuple(_subst_any(z, mp, mkey) for z in x)
        return x if all(a is b for a, b in zip(x, y)) else y
    return x


def bsubst(b, mp):
    if not mp:
        return b
    mkey = tuple(sorted(((a.id, v) for a, v in mp.items()), key=lambda x: x[0]))
    return bsubst_(b, mp, mkey)


def bsubst_(b, mp, mkey):
    o = b.op
    if o in ('true', 'false', 'var'):
        return b
    if o == 'not':
        n = bsubst_(b.args[0], mp, mkey)
        return b if n is b.args[0] else bnot(n)
    if o in ('le', 'eq'):
        n = _subst(b.args[0], mp, mkey)
        if n == b.args[0]:
            return b
        return le0(n) if o == 'le' else eq0(n)
    if o in ('and', 'or'):
        na = [bsubst_(x, mp, mkey) for x in b.args]
        if all(x is y for x, y in zip(na, b.args)):
            return b
        return band(*na) if o == 'and' else bor(*na)
    if o == 'fn':
        na = [_subst_any(x, mp, mkey) for x in b.args[1:]]
        if all(x is y for x, y in zip(na, b.args[1:])):
            return b
        return bfn(b.args[0], na)
    if o == 'forall':
        bs, body = b.args
        mp2 = {a: v for a, v in mp.items() if not any(a is v0 for v0, _ in bs)}
        if any(v0 in val.fv for v0, _ in bs for val in mp2.values()):
            ren = {}
            b2 = []
            for v0, T in bs:
                nv = fresh('a', 'int')
                b2.append((nv, subst(T, ren)))
                ren[v0] = P(nv)
            bs = tuple(b2)
            body = bsubst(body, ren)
        return bforall(tuple((v, subst(T, mp2)) for v, T in bs), bsubst(body, mp2))
    raise ValueError(o)


def define(p, sort='real'):
    """an atom that stands for the value of p (the same atom for the same polynomial; odd)"""
    if len(p.t) < 2:
        return p
    if _is_even_neg(p):
        return -P(mk_fn('def', (-p,), sort))
    return P(mk_fn('def', (p,), sort))


def has_ind_term(p):
    """some term has a 0/1 factor"""
    return any(_atom_by_id[a].kind == 'ind' for mo in p.t for a, e in mo)


def undefine(p):
    def f(at, fs):
        if at.kind == 'fn' and at.args[0] == 'def':
            return undefine(at.args[1])
        return None
    return rewrite(p, f)


def apply_fn(name, args, sort):
    if name == 'def':
        return define(args[0], sort)
    if name == 'sqrt':
        return sqrt_(args[0])
    if name == 'abs':
        return fabs_(args[0])
    if name == 'cos':
        return cos_(args[0])
    if name == 'sin':
        return sin_(args[0])
    if name == 'idiv':
        return idiv(*args)
    if name == 'imod':
        return imod(*args)
    if name == 'ipart':
        return ipart(args[0])
    if name == 'floor':
        return floor_(args[0])
    if name == 'ceil':
        return -floor_(-P(args[0]))
    if name == 'max':
        return max_(*args)
    if name == 'cdiv':
        return cdiv(*args)
    return P(mk_fn(name, args, sort))


_lets = {}        # (arity, body) -> name
_letdef = {}      # name -> (params, body, free symbols)


def let_param(depth, i):
    return sym('let%d_%d' % (depth, i), 'int')


def let_app(body, ps, args):
    """D(args) where the function D is defined by D(ps) = body; functions with the same body are the same"""
    if body.is_const():
        return body
    body, args = _let_shift(body, list(ps), list(args))
    can = [let_param(0, i) for i in range(len(args))]
    if list(ps) != can:
        body = subst(body, {p: P(q) for p, q in zip(ps, can)})
    k = (len(args), body)
    nm = _lets.get(k)
    if nm is None:
        nm = 'let#%d' % len(_lets)
        _lets[k] = nm
        _letdef[nm] = (can, body, frozenset(a for a in body.fv if a not in can))
    return P(mk_fn(nm, tuple(P(a) for a in args), 'real'))


def _let_shift(body, ps, args):
    """move offsets of a parameter into the argument:  f(b + o) with parameter b becomes f(b) at argument + o"""
    extra = [s for s in body.fv if '!' in s.key and s.sort == 'int' and not s.key.startswith('mk!') and s not in ps]
    for s in extra:
        if s not in body.fv:
            continue
        for i, p in enumerate(ps):
            d = _shift_of(body, p, s)
            if d is None:
                continue
            b2 = subst(body, {p: P(p) - d})
            if s not in b2.fv:
                body = b2
                args[i] = P(args[i]) + d
                break
    return body, args


def _shift_of(body, p, s):
    for at in all_atoms(body):
        if at.kind not in ('cell', 'fn') or p not in at.fv or s not in at.fv:
            continue
        for x in at.args:
            if not isinstance(x, Poly) or p not in x.fv or s not in x.fv:
                continue
            mp = [(m, c) for m, c in x.t.items() if (p.id, 1) in m]
            ms = [(m, c) for m, c in x.t.items() if (s.id, 1) in m]
            if len(mp) != 1 or len(ms) != 1 or any(p in _atom_by_id[a].fv for a, _ in ms[0][0]):
                continue
            rest = tuple(y for y in mp[0][0] if y[0] != p.id)
            q, r = divmono(Poly(dict(ms)), rest, mp[0][1])
            if not r.t:
                return q
    return None


def let_open(at):
    """(fresh parameters, body, arguments) of an abbreviation, None for other atoms"""
    d = _letdef.get(at.args[0])
    if d is None:
        return None
    qs = [fresh('q', 'int') for _ in d[0]]
    return qs, subst(d[1], {p: P(q) for p, q in zip(d[0], qs)}), at.args[1:-1]


def _let_facts(ps, args, facts):
    """what facts say about the arguments, as facts about the parameters"""
    fs = set()
    for p, a in zip(ps, args):
        at = _single(a)
        if at is not None:
            fs |= {bsubst(x, {at: P(p)}) for x in facts if at in x.fv and not any(b.key.startswith('let') for b in x.fv)}
        else:
            fs.add(eq(P(p), a))
    return frozenset(fs)


def _single(p):
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _atom_by_id[m[0][0]].kind == 'sym':
            return _atom_by_id[m[0][0]]
    return None


def let_expand(p):
    """p with all abbreviations unfolded"""
    def f(at, fs):
        if at.kind == 'fn' and at.args[0] in _letdef:
            ps, body, _ = _letdef[at.args[0]]
            return subst(let_expand(body), dict(zip(ps, [let_expand(a) for a in at.args[1:-1]])))
        return None
    return rewrite(p, f)


def max_(a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return a if d.const_value() > 0 else b
    return ite(le(b, a), a, b)


def ipart(p):
    """C cast double -> int (truncation towards zero)"""
    p = P(p)
    if p.is_int():
        return p
    if p.is_const():
        return const(int(Fraction(p.const_value())))
    return P(mk_fn('ipart', (p,), 'int'))


def floor_(p):
    p = P(p)
    if p.is_int():
        return p
    if p.is_const():
        return const(math.floor(Fraction(p.const_value())))
    return P(mk_fn('floor', (p,), 'int'))


def cdiv(n, s):
    """ceil(n/s) for s >= 1"""
    n, s = P(n), P(s)
    if s == ONE:
        return n
    if n.is_const() and s.is_const():
        return const(-((-int(n.const_value())) // int(s.const_value())))
    if len(s.t) == 1:
        (mb, cb), = s.t.items()
        q, r = divmono(n, mb, cb)
        if not r.t:
            return q
    return P(mk_fn('cdiv', (n, s), 'int'))


# ---------------------------------------------------------------- walking

def all_atoms(p, acc=None):
    """all atoms reachable in p (including nested)"""
    if acc is None:
        acc = set()
    for m in p.t:
        for a, _ in m:
            at = _atom_by_id[a]
            if at not in acc:
                acc.add(at)
                for x in at.args:
                    _walk(x, acc)
                if at.kind == 'fn' and at.args[0] in _letdef:
                    all_atoms(_letdef[at.args[0]][1], acc)
    return acc


def _walk(x, acc):
    if isinstance(x, Poly):
        all_atoms(x, acc)
    elif isinstance(x, Bool):
        b_atoms(x, acc)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], int):
            all_atoms(Poly({x: 1}), acc)
        else:
            for y in x:
                _walk(y, acc)


def b_atoms(b, acc=None):
    if acc is None:
        acc = set()
    for x in b.args:
        _walk(x, acc)
    return acc


def atom(i):
    return _atom_by_id[i]


# ---------------------------------------------------------------- normal form for zero test

def reduce_poly(p, rules=None):
    """Expand denominators, sqrt squares and cos^2, returning a polynomial that is
    (formally) zero iff p is (given nonzero denominators)."""
    for _ in range(12):
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            mul = tuple(sorted((a, -e) for a, e in neg.items()))
            p = p * Poly({mul: 1})
        changed = bool(neg)
        # expand den atoms / sqrt / cos / indicators
        for _ in range(60):
            target = None
            for m in p.t:
                for a, e in m:
                    at = _atom_by_id[a]
                    if at.kind == 'den' and e > 0:
                        target = (a, 'den')
                        break
                    if at.kind == 'fn' and e >= 2 and at.args[0] in ('sqrt', 'cos', 'abs', 'cbrt'):
                        if at.args[0] == 'cbrt' and e < 3:
                            continue
                        target = (a, at.args[0])
                        break
                if target:
                    break
            if not target:
                break
            changed = True
            a, what = target
            at = _atom_by_id[a]
            r = {}
            bye = {}
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(a, 0)
                bye.setdefault(e, {})[tuple(sorted(d.items()))] = c
            res = ZERO
            for e, tt in bye.items():
                q = Poly(tt)
                if what == 'den':
                    res = res + q * (at.args[0] ** e)
                elif what == 'sqrt' or what == 'abs':
                    base = at.args[1] if what == 'sqrt' else at.args[1] * at.args[1]
                    k, odd = divmod(e, 2)
                    t = q * (base ** k)
                    if odd:
                        t = t * P(at)
                    res = res + t
                elif what == 'cbrt':
                    k, odd = divmod(e, 3)
                    res = res + q * (at.args[1] ** k) * (P(at) ** odd)
                else:
                    k, odd = divmod(e, 2)
                    s = sin_(at.args[1])
                    t = q * ((ONE - s * s) ** k)
                    if odd:
                        t = t * P(at)
                    res = res + t
            p = res
        if not changed:
            break
    return p


# ---------------------------------------------------------------- numeric evaluation

class EvalError(Exception):
    pass


def evalf(p, env):
    """numeric value; env: dict Atom -> float for syms, or callable env('cell', obj, off, ty)"""
    tot = 0.0
    for m, c in p.t.items():
        v = float(c) if not isinstance(c, int) else c
        for a, e in m:
            x = evalatom(_atom_by_id[a], env)
            if e < 0 and x == 0:
                raise EvalError('division by zero')
            v = v * (x ** e)
        tot = tot + v
    return tot


def evalatom(at, env):
    k = at.kind
    if k == 'sym':
        if at is PI:
            return math.pi
        return env.sym(at)
    if k == 'cell':
        off = evalf(at.args[1], env)
        return env.cell(at.args[0], off, at.args[2])
    if k == 'den':
        return evalf(at.args[0], env)
    if k == 'ind':
        return 1 if evalb(at.args[0], env) else 0
    if k == 'sum':
        order, mono = at.args
        body = Poly({mono: 1})

        def rec(i):
            if i == len(order):
                return evalf(body, env)
            v, T = order[i]
            n = int(evalf(T, env))
            s = 0.0
            old = env.bind.get(v)
            for j in range(n):
                env.bind[v] = j
                s += rec(i + 1)
            if old is None:
                env.bind.pop(v, None)
            else:
                env.bind[v] = old
            return s
        return rec(0)
    if k == 'fn':
        nm = at.args[0]
        args = []
        for x in at.args[1:-1]:
            if isinstance(x, Poly):
                args.append(evalf(x, env))
            else:
                args.append(x)
        return env.fn(nm, args)
    raise EvalError(k)


def evalb(b, env):
    o = b.op
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o == 'not':
        return not evalb(b.args[0], env)
    if o == 'le':
        return evalf(b.args[0], env) <= 0
    if o == 'eq':
        return evalf(b.args[0], env) == 0
    if o == 'and':
        return all(evalb(x, env) for x in b.args)
    if o == 'or':
        return any(evalb(x, env) for x in b.args)
    return env.pred(b)


class Env:
    """random but consistent environment for numeric evaluation"""

    def __init__(self, rng, lo=1, hi=4):
        self.r = rng
        self.v = {}
        self.bind = {}
        self.lo, self.hi = lo, hi

    def sym(self, at):
        if at in self.bind:
            return self.bind[at]
        if at not in self.v:
            self.v[at] = self.r.randint(self.lo, self.hi) if at.sort == 'int' else self.r.uniform(-2, 2)
        return self.v[at]

    def cell(self, o, off, ty):
        k = (o, round(float(off), 6), ty)
        if k not in self.v:
            self.v[k] = self.r.uniform(-2, 2) if ty in 'df' else self.r.randint(self.lo, self.hi)
        return self.v[k]

    def pred(self, b):
        k = ('pred', b.key)
        if k not in self.v:
            self.v[k] = self.r.random() < 0.5
        return self.v[k]

    def fn(self, nm, args):
        try:
            if nm == 'sqrt':
                return math.sqrt(args[0])
            if nm in ('cos', 'sin', 'exp', 'log', 'floor', 'ceil', 'atan2', 'tan', 'atan', 'acos', 'asin'):
                return getattr(math, nm)(*args)
            if nm == 'abs':
                return abs(args[0])
            if nm == 'ipart':
                return int(args[0])
            if nm in _letdef:
                ps, body, _ = _letdef[nm]
                old = dict(self.bind)
                self.bind.update(zip(ps, args))
                try:
                    return evalf(body, self)
                finally:
                    self.bind = old
            if nm == 'idiv':
                a, b = int(args[0]), int(args[1])
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if nm == 'imod':
                return int(math.fmod(args[0], args[1]))
            if nm == 'cdiv':
                return -((-int(args[0])) // int(args[1]))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise EvalError(nm)
        k = (nm,) + tuple(round(x, 9) if isinstance(x, (int, float)) else str(x) for x in args)
        if k not in self.v:
            self.v[k] = self.r.uniform(-2, 2)
        return self.v[k]


# ---------------------------------------------------------------- generic rewriting

def rewrite(p, f, facts=frozenset()):
    """rebuild p; f(atom, facts) -> Poly (replacement) or None (recurse)."""
    res = ZERO
    plain = {}
    cache = {}
    for m, c in p.t.items():
        facs = []
        changed = False
        for a, e in m:
            if a in cache:
                na = cache[a]
            else:
                na = _rw_atom(_atom_by_id[a], f, facts)
                cache[a] = na
            if na is None:
                facs.append((a, e))
            else:
                facs.append((na, e))
                changed = True
        if not changed:
            plain[m] = c
        else:
            t = const(c)
            pl = tuple((a, e) for a, e in facs if isinstance(a, int))
            if pl:
                t = t * Poly({pl: 1})
            for a, e in facs:
                if isinstance(a, Poly):
                    t = t * (a ** e)
            res = res + t
    return res + Poly(plain)


def _rw_atom(at, f, facts):
    if at.kind == 'sym':
        r = f(at, facts)
        return r if r is not at else None
    try:
        memo = f.memo
    except AttributeError:
        try:
            memo = f.memo = {}
        except AttributeError:
            return _rw_atom1(at, f, facts)
    k = (at, facts)
    if k in memo:
        return memo[k]
    memo[k] = r = _rw_atom1(at, f, facts)
    return r


_ind_memo = {}


def has_ind(at):
    """does an indicator occur in the atom?"""
    r = _ind_memo.get(at)
    if r is None:
        r = at.kind == 'ind' or any(a.kind == 'ind' for a in all_atoms(Poly({((at.id, 1),): 1})))
        _ind_memo[at] = r
    return r


def _rw_atom1(at, f, facts):
    r = f(at, facts)
    if r is not None:
        return r if r is not at else None
    k = at.kind
    if k == 'sym':
        return None
    if k == 'cell':
        n = rewrite(at.args[1], f, facts)
        return None if n == at.args[1] else P(mk_cell(at.args[0], n, at.args[2]))
    if k == 'fn':
        na = [_rw_any(x, f, facts) for x in at.args[1:-1]]
        if at.args[0] in _letdef:
            d = _letdef[at.args[0]]
            fs = _let_facts(d[0], na, facts)
            cache = getattr(f, 'cache', None)
            key = (at.args[0], fs)
            b2 = cache.get(key) if cache is not None else None
            if b2 is None:
                qs, body, _ = let_open(at)
                mp = {p: P(q) for p, q in zip(d[0], qs)}
                b2 = rewrite(body, f, frozenset(bsubst(x, mp) for x in fs))
                b2 = d[1] if b2 == body else subst(b2, {q: P(p) for p, q in zip(d[0], qs)})
                if cache is not None:
                    cache[key] = b2
            if b2 != d[1]:
                return let_app(b2, d[0], na)
        if all(x is y for x, y in zip(na, at.args[1:-1])):
            return None
        return apply_fn(at.args[0], na, at.args[-1])
    if k == 'den':
        n = rewrite(at.args[0], f, facts)
        return None if n == at.args[0] else n
    if k == 'ind':
        n = brewrite(at.args[0], f, facts)
        return None if n is at.args[0] else ind(n)
    if k == 'sum':
        order, mono = at.args
        ren = {}
        o2 = []
        fs = set(facts)
        for v, T in order:
            nv = stable(frozenset(fs), at.fv)
            T2 = rewrite(subst(T, ren), f, frozenset(fs))
            o2.append((nv, T2))
            ren[v] = P(nv)
            fs.add(le(0, P(nv)))
            fs.add(lt(P(nv), T2))
        b0 = subst(Poly({mono: 1}), ren)
        b1 = rewrite(b0, f, frozenset(fs))
        if b1 == b0 and all(subst(T, ren) == T2 for (v, T), (nv, T2) in zip(order, o2)):
            return None
        r = b1
        for v, T in reversed(o2):
            r = mk_sum(v, T, r)
        return r
    raise ValueError(k)


def _rw_any(x, f, facts):
    if isinstance(x, Poly):
        r = rewrite(x, f, facts)
        return x if r == x else r
    if isinstance(x, Bool):
        return brewrite(x, f, facts)
    if isinstance(x, tuple):
        y = tuple(_rw_any(z, f, facts) for z in x)
        return x if all(a is b for a, b in zip(x, y)) else y
    return x


def brewrite(b, f, facts=frozenset()):
    o = b.op
    if o in ('true', 'false', 'var'):
        return b
    if o == 'not':
        n = brewrite(b.args[0], f, facts)
        return b if n is b.args[0] else bnot(n)
    if o in ('le', 'eq'):
        n = rewrite(b.args[0], f, facts)
        if n == b.args[0]:
            return b
        return le0(n) if o == 'le' else eq0(n)
    if o in ('and', 'or'):
        na = [brewrite(x, f, facts) for x in b.args]
        if all(x is y for x, y in zip(na, b.args)):
            return b
        return band(*na) if o == 'and' else bor(*na)
    if o == 'fn':
        na = [_rw_any(x, f, facts) for x in b.args[1:]]
        if all(x is y for x, y in zip(na, b.args[1:])):
            return b
        return bfn(b.args[0], na)
    if o == 'forall':
        bs, body = b.args
        ren = {}
        o2 = []
        fs = set(facts)
        for v, T in bs:
            nv = stable(frozenset(fs), b.fv)
            T2 = rewrite(subst(T, ren), f, frozenset(fs))
            o2.append((nv, T2))
            ren[v] = P(nv)
            fs.add(le(0, P(nv)))
            fs.add(lt(P(nv), T2))
        return bforall(tuple(o2), brewrite(bsubst(body, ren), f, frozenset(fs)))
    raise ValueError(o)


def simp_ind_bool(op, p):
    """le0/eq0 of an affine function of one indicator atom -> boolean"""
    if len(p.t) > 2:
        return None
    m1 = [m for m in p.t if m]
    if len(m1) != 1 or len(m1[0]) != 1 or m1[0][0][1] != 1:
        return None
    at = _atom_by_id[m1[0][0][0]]
    if at.kind != 'ind':
        return None
    c0 = p.t.get((), 0)
    c1 = p.t[m1[0]]
    ok = (lambda v: v <= 0) if op == 'le' else (lambda v: v == 0)
    t0, t1 = ok(c0), ok(c0 + c1)
    b = at.args[0]
    if t0 and t1:
        return TRUE
    if not t0 and not t1:
        return FALSE
    return b if t1 else bnot(b)


_le0_raw, _eq0_raw = le0, eq0


def le0(p):
    p = P(p)
    r = simp_ind_bool('le', p)
    return r if r is not None else _le0_raw(p)


def eq0(p):
    p = P(p)
    r = simp_ind_bool('eq', p)
    return r if r is not None else _eq0_raw(p)
