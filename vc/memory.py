"""Symbolic memory: per-object persistent lists of (families of) stores."""
from terms import *
import terms
from solver import entails, satisfiable

SIZE = {'d': 8, 'i': 4, 'l': 8, 'b': 1, 'p': 8, 'f': 4, 'h': 2}


class Unsupported(Exception):
    pass


class Split(Exception):
    """the executor must decide cond before it can go on"""

    def __init__(self, cond):
        Exception.__init__(self, str(cond))
        self.cond = cond


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=ZERO):
        self.obj = obj
        self.off = P(off)

    def __add__(self, d):
        return Ptr(self.obj, self.off + P(d))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


NULL = Ptr(None, ZERO)


class Pack:
    """two 32-bit integers in one 64-bit register (hi None: not known); shifted left by sh bits"""
    __slots__ = ('lo', 'hi', 'sh')

    def __init__(self, lo, hi, sh=0):
        self.lo = lo
        self.hi = hi
        self.sh = sh

    def __repr__(self):
        return 'pack(%s,%s)' % (self.lo, self.hi)


class Func:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Func) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Store:
    __slots__ = ('binders', 'guard', 'addr', 'ty', 'val')

    def __init__(self, addr, ty, val, binders=(), guard=TRUE):
        self.addr = addr
        self.ty = ty
        self.val = val
        self.binders = tuple(binders)
        self.guard = guard

    def __repr__(self):
        s = ''
        if self.binders:
            s += 'for ' + ','.join('%s<%s' % (v, T) for v, T in self.binders) + ': '
        if self.guard is not TRUE:
            s += 'if %s: ' % self.guard
        return s + '[%s]%s := %s' % (self.addr, self.ty, self.val)


class Havoc:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'havoc ' + self.tag


class Barrier:
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def __repr__(self):
        return 'barrier %s' % self.loop


class Node:
    """persistent update list"""
    __slots__ = ('prev', 'upd', 'base', 'n')

    def __init__(self, prev, upd, base):
        self.prev = prev
        self.upd = upd
        self.base = base
        self.n = 0 if prev is None else prev.n + 1

    def push(self, upd):
        return Node(self, upd, self.base)

    def list(self):
        r = []
        n = self
        while n.prev is not None:
            r.append(n.upd)
            n = n.prev
        r.reverse()
        return r


def base_node(base):
    return Node(None, None, base)


def val_subst(v, mp):
    if isinstance(v, Poly):
        return subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, mp))
    if isinstance(v, Bool):
        return bsubst(v, mp)
    if isinstance(v, Pack):
        return Pack(val_subst(v.lo, mp), val_subst(v.hi, mp))
    return v


# ------------------------------------------------------------------ address matching

def lin_split(addr, binders):
    """addr = base + sum stride_i * b_i ; returns (strides, base) or None"""
    vs = [v for v, _ in binders]
    strides = {v: {} for v in vs}
    base = {}
    vset = {v.id: v for v in vs}
    vfs = frozenset(vs)
    for m, c in addr.t.items():
        hit = None
        for a, e in m:
            at = terms.atom(a)
            if a in vset:
                if hit is not None or e != 1:
                    return None
                hit = a
            elif at.fv & vfs:
                return None
        if hit is None:
            base[m] = c
        else:
            rest = tuple(x for x in m if x[0] != hit)
            strides[vset[hit]][rest] = c
    return {v: Poly(s) for v, s in strides.items()}, Poly(base)


def _mono(p):
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if isinstance(c, Fraction):
        return None
    return m, c


def _divides(s, t):
    """monomial stride s divides t ; return quotient Poly or None"""
    ms = _mono(s)
    if ms is None:
        if s == t:
            return ONE
        # s a polynomial: try t = q * s with q monomial
        return _polydiv(t, s)
    q, r = divmono(t, ms[0], ms[1])
    if r.t:
        return None
    return q


def _polydiv(t, s):
    """exact division of t by s for simple cases (s = m*(poly)): multivariate long division"""
    if not s.t:
        return None
    lead = max(s.t.items(), key=lambda mc: (sum(e for _, e in mc[0]), terms._mkey(mc[0])))
    q = ZERO
    r = t
    for _ in range(20):
        if not r.t:
            return q
        # find term of r divisible by lead with max degree
        best = None
        for m, c in r.t.items():
            qq, rr = divmono(Poly({m: c}), lead[0], lead[1])
            if not rr.t:
                k = (sum(e for _, e in m), terms._mkey(m))
                if best is None or k > best[0]:
                    best = (k, qq)
        if best is None:
            return None
        q = q + best[1]
        r = r - best[1] * s
    return None


class Match:
    __slots__ = ('kind', 'sol', 'conds')

    def __init__(self, kind, sol=None, conds=None):
        self.kind = kind      # 'miss' | 'cand' | 'unknown'
        self.sol = sol        # dict binder -> Poly
        self.conds = conds    # conditions under which cand is a hit (else miss)


def order_strides(binders, strides):
    """order binders from largest stride to smallest by divisibility; None if no chain"""
    bl = list(binders)
    out = []
    while bl:
        cand = None
        for b in bl:
            if all(o is b or _divides(strides[o[0]], strides[b[0]]) is not None for o in bl):
                # all others divide b's stride => b is largest
                cand = b
                break
        if cand is None:
            return None
        out.append(cand)
        bl.remove(cand)
    return out


_inj_cache = {}


def chain(binders, strides, facts):
    """returns ordered [(v, T, stride, radix or None)] with injectivity proved, or None"""
    key = (tuple(binders), tuple(sorted((v.id, s) for v, s in strides.items())) if len(binders) < 2 else
           tuple((v.id, strides[v]) for v, _ in binders), facts)
    r = _inj_cache.get(key)
    if r is None:
        r = (_chain(binders, strides, facts),)
        _inj_cache[key] = r
    return r[0]


def _chain(binders, strides, facts):
    """[(v, T, stride, radix, shift)]: the digit of v is  v + shift  (shift linear in earlier binders)"""
    for v, _ in binders:
        if not strides[v].t:
            return None
    rng = frozenset(facts)
    for v, T in binders:
        rng = rng | frozenset([le(0, P(v)), lt(P(v), T)])
    # shear: stride_v = S + q*stride_w  ->  digit of w is w + q v
    for v, _ in binders:
        sv = strides[v]
        if len(sv.t) < 2:
            continue
        for w, _ in binders:
            if w is v:
                continue
            sw = strides[w]
            ms = _mono(sw)
            if ms is None or sv.t.get(ms[0]) is None:
                continue
            q = sv.t[ms[0]]
            if not isinstance(q, int) or not isinstance(ms[1], int) or q % ms[1]:
                continue
            q = q // ms[1]
            st2 = dict(strides)
            st2[v] = sv - sw * q
            if not st2[v].t:
                continue
            r = _chain1(binders, st2, {w: P(v) * q}, facts, rng)
            if r is not None:
                return r
    return _chain1(binders, strides, {}, facts, rng)


def _chain1(binders, strides, shift, facts, rng):
    od = order_strides(binders, strides)
    if od is None:
        return None
    out = []
    for i, (v, T) in enumerate(od):
        s = strides[v]
        sh = shift.get(v, ZERO)
        if i == 0:
            out.append((v, T, s, None, sh))
        else:
            q = _divides(s, strides[od[i - 1][0]])
            # canonical digit range
            dep = (T.fv | sh.fv) & {b for b, _ in binders}
            if not entails(rng if dep else facts, le(T + sh, q)):
                return None
            if sh.t and not entails(rng, le(0, P(v) + sh)):
                return None
            out.append((v, T, s, q, sh))
    return out


def match(binders, addr_u, size_u, a, size_a, facts, lazy=False):
    """solve addr_u(b) ~ a for b in ranges"""
    if not binders:
        d = a - addr_u
        if d.is_const():
            c = d.const_value()
            if c == 0:
                return Match('cand', {}, [])
            if c >= size_u or -c >= size_a:
                return Match('miss')
            return Match('unknown')
        # alignment
        g = _gcd_nonconst(d)
        if g:
            c0 = d.t.get((), 0)
            r = c0 % g
            if r >= size_u and (g - r) >= size_a:
                return Match('miss')
        e = eq0(d)
        if lazy and g and size_u == size_a and g % size_u == 0 and d.t.get((), 0) % size_u == 0:
            return Match('cand', {}, [e])
        if entails(facts, e):
            return Match('cand', {}, [])
        if entails(facts, bor(le(size_u, d), le(d, -size_a))):
            return Match('miss')
        if g and size_u == size_a and g % size_u == 0 and d.t.get((), 0) % size_u == 0:
            return Match('cand', {}, [e])
        return Match('unknown')
    ls = lin_split(addr_u, binders)
    if ls is None:
        return _match_fallback(binders, addr_u, size_u, a, size_a, facts)
    strides, base = ls
    bvs = {v for v, _ in binders}
    for v, T in binders:
        ms = _mono(strides[v])
        if ms is not None and ms[1] < 0 and not T.fv & bvs:
            # descending: enumerate it the other way round
            ren = {v: T - 1 - P(v)}
            m = match(tuple((w, W if w is v else subst(W, ren)) for w, W in binders), subst(addr_u, ren), size_u, a, size_a, facts)
            if m.sol and v in m.sol:
                m.sol = dict(m.sol)
                m.sol[v] = T - 1 - m.sol[v]
            return m
    D = a - base
    # gcd argument
    if D.is_const() or True:
        g = 0
        for v, _ in binders:
            g2 = _intcontent(strides[v])
            g = math.gcd(g, g2)
        gD = _gcd_nonconst(D)
        if gD is None:
            gD = 0
        gg = math.gcd(g, gD)
        if gg:
            c0 = D.t.get((), 0)
            if isinstance(c0, int):
                r = c0 % gg
                if r >= size_u and (gg - r) >= size_a:
                    return Match('miss')
    # equality-driven elimination of binders with zero stride
    zero = [b for b in binders if not strides[b[0]].t]
    nz = [b for b in binders if strides[b[0]].t]
    if zero:
        return Match('unknown')
    ch = chain(tuple(nz), strides, facts)
    if ch is None:
        return _match_fallback(binders, addr_u, size_u, a, size_a, facts)
    sol = {}
    R = D
    for v, T, s, radix, sh in ch:
        ms = _mono(s)
        if ms is not None:
            q, R = divmono(R, ms[0], ms[1])
        else:
            q, R = _polydivmod(R, s)
        sol[v] = q
    if R.t:
        # remainder must be matched exactly
        if R.is_const():
            r = R.const_value()
            # smallest stride constant?
            sm = ch[-1][2]
            if sm.is_const():
                g = abs(sm.const_value())
                r = r % g
                if r >= size_u and g - r >= size_a:
                    return Match('miss')
                return Match('unknown')
            # symbolic smallest stride, constant remainder smaller than it
            g = _intcontent(sm)
            rr = r % g
            if rr >= size_u and g - rr >= size_a:
                return Match('miss')
            # 0 < r and r + size_a <= sm and digits canonical -> miss
            if r >= size_u and entails(facts, le(P(r) + size_a, sm)):
                return Match('miss')
            if -r >= size_a and entails(facts, le(size_u - P(r), sm)):
                return Match('miss')
            return Match('unknown')
        sm = ch[-1][2]
        if entails(facts, band(le(size_u, R), le(R + size_a, sm))) or entails(facts, band(le(size_a, -R), le(size_u - R, sm))):
            return Match('miss')       # every stride is a multiple of the smallest one
        return _match_fallback(binders, addr_u, size_u, a, size_a, facts)
    conds = []
    allin = True
    canon = True
    # carries between digits
    nocarry = set()
    for i in range(len(ch) - 1, 0, -1):
        v, T, s, radix, sh = ch[i]
        q = sol[v]
        if not entails(facts, band(le(0, q), lt(q, radix))):
            for carry in (1, -1):
                q2 = q + radix * carry
                if entails(facts, band(le(0, q2), lt(q2, radix))):
                    sol[v] = q2
                    sol[ch[i - 1][0]] = sol[ch[i - 1][0]] - carry
                    q = q2
                    break
            else:
                # a multiple of the radix that is carried as a whole
                X = q0 = None
                if radix.t and not radix.is_const():
                    rm = _mono(radix)
                    X, q0 = divmono(q, rm[0], rm[1]) if rm is not None else _polydivmod(q, radix)
                if X is not None and X.t and entails(facts, band(le(0, q0), lt(q0, radix))):
                    sol[v] = q = q0
                    sol[ch[i - 1][0]] = sol[ch[i - 1][0]] + X
                    if not ((T.fv | sh.fv) & set(sol)) and entails(facts, le(T, q)):
                        return Match('miss')
                    continue
                # a digit that cannot borrow: the borrowed one would be out of its range
                done = False
                if not ((T.fv | sh.fv) & set(sol)) and not sh.t:
                    for carry in (0, 1, -1):
                        q2 = q + radix * carry
                        if entails(facts, band(le(-radix, q2), lt(q2, radix))) and entails(facts | frozenset([lt(q2, 0)]), le(T, q2 + radix)):
                            nocarry.add(v)
                            sol[v] = q2
                            sol[ch[i - 1][0]] = sol[ch[i - 1][0]] - carry
                            done = True
                            break
                if done:
                    continue
                # unknown digits: divide
                v2, T2, s2, radix2, sh2 = ch[i - 1]
                V = sol[v2] * radix + q
                off = next((o for o in (0, 1, 2) if V.is_int() and entails(facts, band(le(0, V + radix * o), lt(0, radix)))), None)
                if off is not None:
                    qq = idiv(V + radix * off, radix) - off
                    sol[v2] = qq
                    sol[v] = q = V - radix * qq
                else:
                    break
        # this digit is determined: out of its range means no solution
        if not ((T.fv | sh.fv) & set(sol)) and entails(facts, le(T, q)):
            return Match('miss')
    digit = dict(sol)
    for v, T, s, radix, sh in ch:
        if sh.t:
            sol[v] = sol[v] - subst(sh, sol)
    top = None
    for i, (v, T, s, radix, sh) in enumerate(ch):
        q = sol[v]
        T2 = subst(T, sol)
        inr = band(le(0, q), lt(q, T2))
        if entails(facts, inr):
            continue
        allin = False
        if i == 0 and not sh.t and T2.t and not T2.is_const():
            # T X + r with 0 <= r < T is in range exactly when X = 0
            rm = _mono(T2)
            X, q0 = divmono(q, rm[0], rm[1]) if rm is not None else (ZERO, q)
            if X.t and entails(facts, band(le(0, q0), lt(q0, T2))):
                sol[v] = q0
                e = eq(X, 0)
                if entails(facts, bnot(e)):
                    return Match('miss')
                if not entails(facts, e):
                    top = e
                continue
        if radix is not None and v not in nocarry:
            if not entails(facts, band(le(0, digit[v]), lt(digit[v], radix))):
                canon = False
        conds.append((inr, q, T2))
    if allin:
        return Match('cand', sol, [])
    if not canon:
        return _match_fallback(binders, addr_u, size_u, a, size_a, facts, sol, ([top] if top is not None else []) + [c for c, _, _ in conds])
    cl = [top] if top is not None else []
    for inr, q, T2 in conds:
        if entails(facts, bnot(inr)):
            return Match('miss')
        for x in (le(0, q), lt(q, T2)):
            if not entails(facts, x):
                cl.append(x)
    return Match('cand', sol, cl)


def _polydivmod(R, s):
    q = _polydiv(R, s)
    if q is not None:
        return q, ZERO
    # partial: greedy
    lead = max(s.t.items(), key=lambda mc: (sum(e for _, e in mc[0]), terms._mkey(mc[0])))
    q = ZERO
    r = R
    for _ in range(20):
        best = None
        for m, c in r.t.items():
            qq, rr = divmono(Poly({m: c}), lead[0], lead[1])
            if not rr.t and m:
                best = qq
                break
        if best is None:
            break
        q = q + best
        r = r - best * s
    return q, r


def _intcontent(p):
    g = 0
    for c in p.t.values():
        if isinstance(c, Fraction):
            return 1
        g = math.gcd(g, abs(c))
    return g


def _gcd_nonconst(p):
    g = 0
    for m, c in p.t.items():
        if m:
            if isinstance(c, Fraction):
                return 1
            g = math.gcd(g, abs(c))
    return g


def _match_fallback(binders, addr_u, size_u, a, size_a, facts, sol=None, conds=None):
    """try to prove disjointness with the solver"""
    ren = {}
    extra = []
    for v, T in binders:
        nv = P(fresh('q', 'int'))
        ren[v] = nv
        extra += [le(0, nv), lt(nv, subst(T, ren))]
    au = subst(addr_u, ren)
    d = a - au
    fs = frozenset(facts) | frozenset(extra)
    if entails(fs, bor(le(size_u, d), le(d, -size_a))):
        return Match('miss')
    if sol is None:
        sol = _guess(binders, addr_u, a)
    if sol is not None and size_u == size_a:
        # candidate: prove that any in-range solution of addr_u(b) = a is this one
        fe = fs | frozenset([eq0(d)])
        for v, T in binders:
            if not (entails(fe, le(ren[v], sol[v]), True) and entails(fe, le(sol[v], ren[v]), True)):
                return Match('unknown', sol, conds)
        # partial overlaps excluded by alignment
        g = _gcd_nonconst(d)
        if not (g and g % size_u == 0 and d.t.get((), 0) % size_u == 0):
            return Match('unknown', sol, conds)
        if subst(addr_u, sol) != a and not entails(facts, eq(subst(addr_u, sol), a)):
            return Match('unknown', sol, conds)
        cl = []
        for v, T in binders:
            T2 = subst(T, sol)
            for x in (le(0, sol[v]), lt(sol[v], T2)):
                if entails(facts, x):
                    continue
                cl.append(x)
        return Match('cand', sol, cl)
    return Match('unknown', sol, conds)


def _guess(binders, addr_u, a):
    ls = lin_split(addr_u, binders)
    if ls is None:
        return None
    strides, base = ls
    bl = sorted(binders, key=lambda b: -max([0] + [sum(e for _, e in m) for m in strides[b[0]].t]))
    R = a - base
    sol = {}
    for v, T in bl:
        s = strides[v]
        if not s.t:
            return None
        ms = _mono(s)
        if ms is not None:
            q, R = divmono(R, ms[0], ms[1])
        else:
            q, R = _polydivmod(R, s)
        sol[v] = q
    if R.t:
        return None
    return sol


# ------------------------------------------------------------------ reading

class Ctx:
    """what reading needs from the engine: facts, and handling of pre-iteration reads"""

    def __init__(self, eng, facts, mode='split'):
        self.eng = eng
        self.facts = facts
        self.mode = mode


def read(node, obj, addr, ty, cx):
    """value of type ty at byte offset addr"""
    facts = cx.facts
    size = SIZE[ty]
    n = node
    lazy = getattr(cx.eng, 'lazyalias', False)      # do not ask whether two addresses are (un)equal: both cases are kept
    while True:
        if n.prev is None:
            return cx.eng.read_base(n.base, obj, addr, ty, cx)
        u = n.upd
        if isinstance(u, Havoc):
            if ty == 'p':
                raise Unsupported('pointer read from havocked object %s' % obj)
            return P(mk_cell(u.tag, addr, ty))
        if isinstance(u, Barrier):
            return cx.eng.read_barrier(u, n.prev, obj, addr, ty, cx)
        m = match(u.binders, u.addr, SIZE[u.ty], addr, size, facts, lazy)
        if m.kind == 'miss':
            n = n.prev
            continue
        if m.kind == 'unknown':
            g = u.guard
            if g is not TRUE and m.sol is None and not u.binders and entails(facts, bnot(g)):
                n = n.prev
                continue
            raise Unsupported('cannot relate address %s[%s] to store %s' % (obj, addr, u))
        conds = list(m.conds)
        g = bsubst(u.guard, m.sol) if m.sol else u.guard
        cl = []
        miss = False
        for c in conds + (list(g.args) if g.op == 'and' else [g]):
            if c is TRUE or c in facts:
                continue
            if lazy:
                cl.append(c)
                continue
            if entails(facts, c):
                continue
            if entails(facts, bnot(c)):
                miss = True
                break
            cl.append(c)
        if miss:
            n = n.prev
            continue
        if u.ty != ty:
            v0 = val_subst(u.val, m.sol) if m.sol else u.val
            if u.val is UNDEF:
                return UNDEF
            if {u.ty, ty} <= {'i', 'l', 'h', 'b'} or (isinstance(v0, Poly) and not v0.t):
                if isinstance(v0, Poly) and not v0.t and ty == 'p':
                    return NULL
            elif {u.ty, ty} == {'p', 'l'}:
                pass
            else:
                raise Unsupported('type mismatch reading %s[%s] as %s from %s' % (obj, addr, ty, u))
        v = val_subst(u.val, m.sol) if m.sol else u.val
        if not cl:
            return v
        cond = band(*cl)
        if cx.mode == 'split' and not isinstance(v, Poly):
            raise Split(cl[0])
        if not isinstance(v, Poly):
            raise Split(cl[0])
        if cx.mode == 'split1':
            raise Split(cl[0])
        cx2 = Ctx(cx.eng, facts | frozenset([bnot(cond)]), cx.mode)
        rest = read(n.prev, obj, addr, ty, cx2)
        if not isinstance(rest, Poly):
            raise Split(cl[0])
        return ite(cond, v, rest)
