"""mirror parity projections and expectation values; the constant bands at k = 0"""
from contract import *
from common import *
from lemma import lemma

EZ, OZ, EY, OY = 1, 2, 4, 8


def par_data(c, axis, kind, parity, **kw):
    """kind: extent of the mirrored axis: 1, even or odd (> 1)"""
    if c.mode == 'con':
        r = c.rng
        n = {'one': 1, 'even': r.choice([2, 4]), 'odd': r.choice([3, 5])}[kind]
        lo = 1 if c.complex else 2
        dims = (r.randint(1, 3), r.randint(1, 3), n) if axis == 'z' else (r.randint(lo, 3), n, r.choice([1, 2, 3]))
        if axis == 'z' and kind == 'one' and not c.complex:
            dims = (r.randint(2, 3), r.randint(1, 3), 1)
        d = c.mdata('d', 'same', 0, 1, dims=dims)
        c.poke_field(d, 'maxwell_data', 'parity', parity)
        s = c.S(d, 'maxwell_data')
        rows = s.other_dims * s.last_dim
    else:
        h = c.int('h', 1)
        n = {'one': c.num(1), 'even': h * 2, 'odd': h * 2 + 1}[kind]
        if axis == 'z':
            od = c.int('other_dims', 1)
            ld = c.int('last_dim', 1) if kind == 'one' else n
            d = c.struct('d', 'maxwell_data', nz=n, other_dims=od, last_dim=ld, parity=parity)
            rows = od * ld
        else:
            nx, nz = c.int('local_nx', 0), c.int('nz', 1)
            d = c.struct('d', 'maxwell_data', ny=n, local_nx=nx, nz=nz, parity=parity)
            rows = nx * n * nz
    X = ev_setup(c, 'X', n=rows * 2, cc=2, localN=rows, **kw)
    return d, X


class Mirror:
    """rows of X as pairs (row, mirror row)"""

    def __init__(self, c, d, axis):
        s = c.S(d, 'maxwell_data')
        self.c = c
        if axis == 'z':
            if c.if_(c.lt(1, s.nz)):
                self.dims = [s.other_dims, s.last_dim]
                n = s.last_dim
                self.row = lambda i, j: i * n + j
                self.mir = lambda i, j: i * n + c.ite(c.lt(0, j), n - j, c.num(0))
            else:
                self.dims = [s.other_dims * s.last_dim]
                self.row = self.mir = lambda i: i
        else:
            ny, nz = s.ny, s.nz
            self.dims = [s.local_nx, ny, nz]
            self.row = lambda i, j, k: (i * ny + j) * nz + k
            self.mir = lambda i, j, k: (i * ny + c.ite(c.lt(0, j), ny - j, c.num(0))) * nz + k

    def each(self, p, f):
        self.c.each(*(self.dims + [p, f]))

    def total(self, f):
        """sum over all rows, mirror images together: 0, then 1+k and n-1-k (the middle row of an even n is its own image)"""
        c, D = self.c, self.dims
        ax = {1: None, 2: 1, 3: 1}[len(D)]

        def rec(i, ix):
            if i == len(D):
                return f(*ix)
            if i != ax:
                return c.sum(D[i], lambda k: rec(i + 1, ix + [k]))
            n = D[i]
            h, odd = self.half(n)
            t = rec(i + 1, ix + [c.num(0)])
            t = t + c.sum(h, lambda k: rec(i + 1, ix + [k + 1]) + rec(i + 1, ix + [n - 1 - k]))
            return t if odd else t - rec(i + 1, ix + [h])
        return rec(0, [])

    def half(self, n):
        c = self.c
        if c.mode == 'con':
            return int(n) // 2, int(n) % 2
        if n.is_const():
            return c.num(0), 1
        q, r = divmono(n, (), 2)
        return q, int(r.const_value()) if r.t else 0


def sign(c, parity, even, odd):
    v = int(parity) if c.mode == 'con' else int(parity.const_value())
    return 1 if v & even else -1 if v & odd else 0


def project(c, X, d, axis):
    s = c.S(d, 'maxwell_data')
    X = EV(c, X)
    sg = sign(c, s.parity, *((EZ, OZ) if axis == 'z' else (EY, OY)))
    if sg == 0:
        return
    if axis == 'y':
        sg = -sg
    M = Mirror(c, d, axis)
    h = c.num(Fraction(1, 2)) if c.mode == 'sym' else 0.5

    def one(*a):
        ix, b = a[:-1], a[-1]
        r, m = M.row(*ix), M.mir(*ix)
        X.set(2 * r, b, (X.z(2 * r, b) + X.z(2 * m, b) * sg) * h)
        X.set(2 * r + 1, b, (X.z(2 * r + 1, b) - X.z(2 * m + 1, b) * sg) * h)
    M.each(X.p, one)


def expectation(c, X, d, axis):
    X = EV(c, X)
    M = Mirror(c, d, axis)
    sg = 1 if axis == 'z' else -1
    out = c.malloc(X.p * 8)

    def val(b):
        def num(*ix):
            r, m = M.row(*ix), M.mir(*ix)
            u, v, u2, v2 = X.z(2 * r, b), X.z(2 * r + 1, b), X.z(2 * m, b), X.z(2 * m + 1, b)
            return (u.re * u2.re + u.im * u2.im - v.re * v2.re - v.im * v2.im) * sg

        def den(*ix):
            r = M.row(*ix)
            return X.z(2 * r, b).abs2() + X.z(2 * r + 1, b).abs2()
        return M.total(num) / M.total(den)
    c.each(X.p, lambda b: c.set(out, 8 * b, 'd', val(b)))
    c.ret(out)


KINDS = ('one', 'even', 'odd')


@contract('maxwell_zparity_constraint', 'maxwell_constraints.c', 'P07', cfgs=('complex', 'inv'), variants=[dict(kind=k, parity=p) for k in KINDS for p in (EZ, OZ, 0, EZ | EY, OZ | OY, EY)], opts=dict(peel=True))
class _:
    """X := (X + parity * mirror X) / 2 for the mirror z -> -z (first component even, second odd)"""
    def setup(c, kind, parity):
        d, X = par_data(c, 'z', kind, parity)
        return X, d

    def spec(c, X, d):
        project(c, X, d, 'z')


@contract('maxwell_yparity_constraint', 'maxwell_constraints.c', 'P07', cfgs=('complex', 'inv'), variants=[dict(kind=k, parity=p) for k in KINDS for p in (EY, OY, 0, EZ | EY, OZ | OY, EZ)], opts=dict(peel=True))
class _:
    """X := (X + parity * mirror X) / 2 for the mirror y -> -y (first component odd, second even)"""
    def setup(c, kind, parity):
        d, X = par_data(c, 'y', kind, parity)
        return X, d

    def spec(c, X, d):
        project(c, X, d, 'y')


@contract('maxwell_zparity', 'maxwell_constraints.c', 'P07', cfgs=('complex', 'inv'), variants=[dict(kind=k) for k in KINDS], opts=dict(peel=True))
class _:
    """<X|mirror X> / <X|X> of every column for the mirror z -> -z"""
    def setup(c, kind):
        d, X = par_data(c, 'z', kind, 0)
        return X, d

    def spec(c, X, d):
        expectation(c, X, d, 'z')


@contract('maxwell_yparity', 'maxwell_constraints.c', 'P07', cfgs=('complex', 'inv'), variants=[dict(kind=k) for k in KINDS], opts=dict(peel=True))
class _:
    """<X|mirror X> / <X|X> of every column for the mirror y -> -y"""
    def setup(c, kind):
        d, X = par_data(c, 'y', kind, 0)
        return X, d

    def spec(c, X, d):
        expectation(c, X, d, 'y')


@contract('maxwell_parity_constraint', 'maxwell_constraints.c', 'P07', cfgs=('complex', 'inv'), opts=dict(peel=True), variants=
          [dict(axis='z', kind=k, parity=p) for k in KINDS for p in (EZ, OZ)] + [dict(axis='y', kind=k, parity=p) for k in KINDS for p in (EY, OY, 0)])
class _:
    """the projections the data asks for: z, then y"""
    def setup(c, axis, kind, parity):
        d, X = par_data(c, axis, kind, parity)
        return X, d

    def spec(c, X, d):
        s = c.S(d, 'maxwell_data')
        v = int(s.parity) if c.mode == 'con' else int(s.parity.const_value())
        if v & (EZ | OZ):
            project(c, X, d, 'z')
        if v & (EY | OY):
            project(c, X, d, 'y')


# ---------------------------------------------------------------- k = 0

PARITIES = (0, EZ, OZ, EY, OY, EZ | EY, EZ | OY, OZ | EY, OZ | OY)


def zk_data(c, parity):
    if c.mode == 'con':
        d = c.mdata('d', 'same', 0, 1)
        c.poke_field(d, 'maxwell_data', 'parity', parity)
        s = c.S(d, 'maxwell_data')
        rows = s.other_dims * s.last_dim
    else:
        d = c.struct('d', 'maxwell_data', parity=parity)
        rows = c.int('rows', 1)
    X = ev_setup(c, 'X', n=rows * 2, p=c.int('X_p', 0, 4), cc=2, localN=rows, Nstart=c.int('Nstart', 0, 1))
    return d, X


def zk_bands(c, d):
    """whether the constant field along the first (m) and second (n) transverse direction has the parity asked for"""
    p = c.S(d, 'maxwell_data').parity
    p = int(p) if c.mode == 'con' else int(p.const_value())
    return int(not p & (OZ | EY)), int(not p & (OY | EZ))


@contract('maxwell_zero_k_num_const_bands', 'maxwell_constraints.c', 'P08', cfgs=('complex', 'inv'), variants=[dict(parity=p) for p in PARITIES])
class _:
    """number of constant fields of the parity asked for, at most the number of bands"""
    def setup(c, parity):
        d, X = zk_data(c, parity)
        return X, d

    def spec(c, X, d):
        X = EV(c, X)
        n = sum(zk_bands(c, d))
        c.ret(n if not c.if_(c.lt(X.p, n)) else X.p)


@contract('maxwell_zero_k_set_const_bands', 'maxwell_constraints.c', 'P08', cfgs=('complex', 'inv'), variants=[dict(parity=p) for p in PARITIES])
class _:
    """the first bands become the constant fields: the zero-frequency row a unit vector, every other row zero"""
    def setup(c, parity):
        d, X = zk_data(c, parity)
        return X, d

    def spec(c, Xp, d):
        X = EV(c, Xp)
        m, n = zk_bands(c, d)
        dirs = [0] * m + [1] * n
        here = c.if_(c.le(c.S(Xp, 'evectmatrix').Nstart, 0))
        z = Cx(c.num(0), c.num(0))
        for b, q in enumerate(dirs):
            if not c.if_(c.lt(b, X.p)):
                break
            c.each(X.n, lambda i: X.set(i, b, z))
            if here:
                X.set(q, b, Cx(c.num(1), c.num(0)))


@contract('maxwell_zero_k_constraint', 'maxwell_constraints.c', 'P08', cfgs=('complex', 'inv'))
class _:
    """the zero-frequency row of every band becomes zero; nothing else changes"""
    def setup(c):
        d, X = zk_data(c, 0)
        return X, c.null()

    def spec(c, Xp, d):
        X = EV(c, Xp)
        z = Cx(c.num(0), c.num(0))
        if c.if_(c.le(c.S(Xp, 'evectmatrix').Nstart, 0)):
            def one(b):
                X.set(0, b, z)
                X.set(1, b, z)
            c.each(X.p, one)


@lemma('parity_projection', ['P07'])
def _(c):
    """projecting twice is projecting once; the two projections are orthogonal and add up to the field; the
    expectation value of a mirror is between -1 and 1 and is the parity of the projected fields"""
    u, w = [Cx(c.real(n + 'r'), c.real(n + 'i')) for n in ('u', 'w')]      # a component at a row and at its mirror row
    h = c.num(Fraction(1, 2))
    pr = {}
    for s in (1, -1):
        p, q = (u + w * s) * h, (w + u * s) * h
        pr[s] = p, q
        c.prove_eq('idempotent', (p + q * s) * h, p)
        c.prove_eq('eigenstate', q, p * s)
    c.prove_eq('complete', pr[1][0] + pr[-1][0], u)
    c.prove_eq('orthogonal', pr[1][0].conj() * pr[-1][0] + pr[1][1].conj() * pr[-1][1], Cx(c.num(0), c.num(0)))
    for s in (1, -1):
        cross = (u.re * w.re + u.im * w.im) * 2
        c.prove_eq('bounded', u.abs2() + w.abs2() - cross * s, (u - w * s).abs2())


@lemma('zero_k_orthonormal', ['P08'])
def _(c):
    """the constant bands are orthonormal and orthogonal to every field that satisfies the constraint"""
    z, o = Cx(c.num(0), c.num(0)), Cx(c.num(1), c.num(0))
    a, b = [o, z], [z, o]                       # rows 0 and 1 of the two constant bands, zero elsewhere
    ip = lambda x, y: x[0].conj() * y[0] + x[1].conj() * y[1]
    c.prove_eq('normalised', ip(a, a), o)
    c.prove_eq('normalised2', ip(b, b), o)
    c.prove_eq('orthogonal', ip(a, b), z)
