"""k+G vectors, their transverse frames, planewaves and parity flags"""
from contract import *
from common import *
from lemma import lemma

EZ, OZ, EY, OY = 1, 2, 4, 8


def valid_parity(c, p, ky, kz):
    """the parity flags that remain: contradictory flags cancel, and a mirror needs a zero k component"""
    if c.mode == 'sym' and not p.is_const():
        return c.fn('parity.valid', p, c.ite(c.eq(ky, 0), c.num(1), c.num(0)), c.ite(c.eq(kz, 0), c.num(1), c.num(0)))
    v = int(p) if c.mode == 'con' else int(p.const_value())
    out = v
    if v & EZ and v & OZ or not c.if_(c.eq(kz, 0)):
        out &= ~(EZ | OZ)
    if v & EY and v & OY or not c.if_(c.eq(ky, 0)):
        out &= ~(EY | OY)
    return c.num(out)


@contract('set_maxwell_data_parity', 'maxwell.c', 'P03 P07', cfgs=('complex', 'inv'), variants=[{'parity': i} for i in range(16)])
class _:
    """contradictory parities cancel; a parity is kept only when the mirrored k component is exactly 0"""
    def setup(c, parity):
        if c.mode == 'con':
            d = c.struct('d', 'maxwell_data')
        else:
            d = c.struct('d', 'maxwell_data')
        off, _ = c.lay.field('maxwell_data', 'current_k')
        for i in range(3):
            c.poke(d, off + 8 * i, 'd', c.real('k%d' % i) if c.mode == 'sym' else c.rng.choice([0.0, 0.25, -0.5]))
        return d, c.num(parity)

    def spec(c, d, parity):
        off, _ = c.lay.field('maxwell_data', 'current_k')
        c.set_field(d, 'maxwell_data', 'parity', valid_parity(c, parity, c.d(d, off + 8), c.d(d, off + 16)))


def _x_parity(eng, st, args, ins):
    c = SymC(eng, st, call=True)
    d, p = args
    off, _ = c.lay.field('maxwell_data', 'current_k')
    c.set_field(d, 'maxwell_data', 'parity', valid_parity(c, p, c.d(d, off + 8), c.d(d, off + 16)))
    st.mem = c.apply(st.mem)
    return None


def freq(c, i, n):
    """signed frequency of the i-th Fourier index of a transform of length n"""
    h = c.idiv(n, 2)
    return c.ite(c.le(c.max(h, c.num(1)), i), i - n, i)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def frame(c, v, form='inverse'):
    """(n, m): n = z x v / |z x v| (y when v is along z or 0), m = n x v / |v| (z when v = 0)"""
    z, o = c.num(0), c.num(1)
    axial = c.and_(c.eq(v[0], 0), c.eq(v[1], 0))
    if c.mode == 'con':
        if axial:
            n = [z, o, z]
        else:
            l = 1 / c.sqrt(v[0] * v[0] + v[1] * v[1])
            n = [-(v[1] * l), v[0] * l, z]
        if axial and v[2] == 0:
            return n, [z, z, o]
        m = cross(n, v)
        l = 1 / c.sqrt(dot(m, m))
        return n, [x * l for x in m]
    l = 1 / c.sqrt(v[0] * v[0] + v[1] * v[1])
    zero = c.eq(dot(v, v), 0)
    n = [c.ite(zero, z, c.ite(axial, z, -(v[1] * l))), c.ite(zero, o, c.ite(axial, o, v[0] * l)), z]
    n1 = [-(v[1] * l), v[0] * l, z]
    m1 = cross(n1, v)
    l1 = 1 / c.sqrt(dot(m1, m1))
    lz = 1 / c.sqrt(v[2] * v[2])
    m = [c.ite(zero, z, c.ite(axial, v[2] * lz, m1[0] * l1)), c.ite(zero, z, c.ite(axial, z, m1[1] * l1)), c.ite(zero, o, c.ite(axial, z, m1[2] * l1))]
    return n, m


def kpg_mdata(c, **kw):
    if c.mode == 'con':
        d = c.mdata('d', 'same', 0, 1)
        return d
    n = [c.int(x, 1) for x in ('nx', 'ny', 'nz')]
    ln, ls = c.int('local_nx', 1), c.int('local_x_start', 0)
    c.assume(le(ls + ln, n[0]))
    a = dict(nx=n[0], ny=n[1], nz=n[2], local_nx=ln, local_x_start=ls, k_plus_G=c.array('k_plus_G', ln * n[1] * n[2], 'k_data'),
             k_plus_G_normsqr=c.array('k_plus_G_normsqr', ln * n[1] * n[2], 'd'))
    a.update(kw)
    return c.struct('d', 'maxwell_data', **a)


@contract('update_maxwell_data_k', 'maxwell.c', 'P03', cfgs=('complex', 'inv'), opts={'cut': 10, 'externals': {'set_maxwell_data_parity': _x_parity}, 'timeout': 600})
class _:
    """k+G, |k+G|, |k+G|^2 and the transverse frame of every local reciprocal vector; current_k, zero_k and the still valid parities"""
    def setup(c):
        d = kpg_mdata(c)
        if c.mode == 'con':
            c.poke_field(d, 'maxwell_data', 'parity', c.rng.randint(0, 15))
        k, G = c.array('k', 3, 'd'), [c.array('G%d' % i, 3, 'd') for i in (1, 2, 3)]
        if c.mode == 'con':
            kind = c.rng.randint(0, 4)
            for i in range(3):
                c.poke(k, 8 * i, 'd', 0.0 if kind == 0 else c.rng.choice([0.0, 0.5, -0.25, 0.3]))
                for j in range(3):
                    c.poke(G[i], 8 * j, 'd', (1.0 if i == j else 0.0) if kind < 3 else c.rng.choice([1.0, 0.0, -0.5, 0.4]))
        return [d, k] + G

    def spec(c, d, k, G1, G2, G3):
        s = c.S(d, 'maxwell_data')
        G = [[c.d(g, 8 * i) for i in range(3)] for g in (G1, G2, G3)]
        kk = [c.d(k, 8 * i) for i in range(3)]
        kv = [G[0][q] * kk[0] + G[1][q] * kk[1] + G[2][q] * kk[2] for q in range(3)]
        nx, ny, nz, x0 = s.nx, s.ny, s.nz, s.local_x_start
        par = valid_parity(c, s.parity, kv[1], kv[2])
        kg, k2 = s.k_plus_G, s.k_plus_G_normsqr
        ks = c.fsize('k_data')

        def one(x, y, z):
            g = [freq(c, x + x0, nx), freq(c, y, ny), freq(c, z, nz)]
            v = [c.cut(kv[q] - (G[0][q] * g[0] + G[1][q] * g[1] + G[2][q] * g[2])) for q in range(3)]
            n2 = dot(v, v)
            nn, mm = frame(c, v)
            ix = (x * ny + y) * nz + z
            p = kg + ix * ks
            c.set_field(p, 'k_data', 'kmag', c.sqrt(n2))
            for q, w in enumerate('xyz'):
                c.set_field(p, 'k_data', 'm' + w, mm[q])
                c.set_field(p, 'k_data', 'n' + w, nn[q])
            c.set(k2, 8 * ix, 'd', n2)
        c.each(s.local_nx, ny, nz, one)
        off, _ = c.lay.field('maxwell_data', 'current_k')
        for q in range(3):
            c.set(d, off + 8 * q, 'd', kv[q])
        zk = c.and_(c.eq(kv[0], 0), c.eq(kv[1], 0), c.eq(kv[2], 0))
        c.set_field(d, 'maxwell_data', 'zero_k', c.ite(zk, c.num(1), c.num(0)))
        c.set_field(d, 'maxwell_data', 'parity', par)


@lemma('transverse_frame_is_right_handed_orthonormal', 'P03')
def _(c):
    z, o = c.num(0), c.num(1)

    def check(nm, v, kmag):
        n, m = frame(c, v)
        c.prove_eq(nm + ': m.n = 0', dot(m, n), z)
        c.prove_eq(nm + ': m.k = 0', dot(m, v), z)
        c.prove_eq(nm + ': n.k = 0', dot(n, v), z)
        c.prove_eq(nm + ': |m| = 1', dot(m, m), o)
        c.prove_eq(nm + ': |n| = 1', dot(n, n), o)
        a, b = cross(v, m), cross(v, n)
        for q in range(3):
            c.prove_eq(nm + ': k x m = |k| n', a[q], n[q] * kmag)
            c.prove_eq(nm + ': k x n = -|k| m', b[q], -(m[q] * kmag))
    x, y, w = c.real('vx'), c.real('vy'), c.real('vz')
    base = c.facts
    c.facts = base | {lt(0, x * x + y * y), lt(0, x * x + y * y + w * w), bnot(band(eq(x, 0), eq(y, 0))), ne(x * x + y * y + w * w, 0)}
    l = 1 / c.sqrt(x * x + y * y)
    m1 = cross([-(y * l), x * l, z], [x, y, w])
    c.prove_eq('|n x k|^2 = |k|^2', dot(m1, m1), x * x + y * y + w * w)
    c.facts = c.facts | {lt(0, dot(m1, m1))}
    check('generic', [x, y, w], c.sqrt(dot(m1, m1)))
    c.facts = base | {lt(0, w), ne(w, 0), lt(0, w * w)}
    check('along +z', [z, z, w], c.sqrt(w * w))
    c.facts = base | {lt(w, 0), ne(w, 0), lt(0, w * w)}
    check('along -z', [z, z, w], c.sqrt(w * w))
    c.facts = base
    check('zero', [z, z, z], z)


@contract('maxwell_set_num_bands', 'maxwell.c', 'P03 P19', cfgs=('complex',))
class _:
    """the number of bands, and how many of them one FFT call transforms"""
    def setup(c):
        return c.struct('d', 'maxwell_data', max_fft_bands=c.int('max_fft', 1, 6)), c.int('num_bands', 1, 8)

    def spec(c, d, n):
        m = c.S(d, 'maxwell_data').max_fft_bands
        c.set_field(d, 'maxwell_data', 'num_bands', n)
        c.set_field(d, 'maxwell_data', 'num_fft_bands', c.ite(c.lt(n, m), n, m))


@contract('maxwell_set_planewave', 'maxwell.c', 'P03', cfgs=('complex',))
class _:
    """band = the plane wave of the reciprocal vector g with amplitudes s and p relative to the given axis, every other component of the band 0"""
    def setup(c):
        d = kpg_mdata(c)
        if c.mode == 'con':
            s = c.S(d, 'maxwell_data')
            n = s.local_nx * s.ny * s.nz
            import math
            for i in range(n):      # orthonormal frames
                q = [c.rng.gauss(0, 1) for _ in range(3)]
                nn, mm = frame(c, q)
                for j, w in enumerate('xyz'):
                    c.poke_field(s.k_plus_G + i * c.fsize('k_data'), 'k_data', 'm' + w, mm[j])
                    c.poke_field(s.k_plus_G + i * c.fsize('k_data'), 'k_data', 'n' + w, nn[j])
        else:
            s = c.S(d, 'maxwell_data')
            n = s.local_nx * s.ny * s.nz
        H = ev_setup(c, 'H', n=n * 2, cc=2, localN=n)
        g = c.array('g', 3, 'i')
        for i in range(3):
            c.poke(g, 4 * i, 'i', c.int('g%d' % i) if c.mode == 'sym' else c.rng.choice([0, 0, 1, -1, 2, -2]))
        b = c.int('band', 1, 2)
        c.assume(c.le(b, c.S(H, 'evectmatrix').p))
        return [d, H, b, g, c.real('sr'), c.real('si'), c.real('pr'), c.real('pi'), c.array('axis', 3, 'd')]

    def spec(c, d, H, band, g, sr, si, pr, pi, axis):
        s = c.S(d, 'maxwell_data')
        X = EV(c, H)
        n = [s.nx, s.ny, s.nz]
        ix = []
        for i in range(3):
            gi = c.i(g, 4 * i)
            ix.append(n[i] - gi if c.if_(c.lt(0, gi)) else -gi)
        c.dies_if(c.or_(*[c.or_(c.lt(x, 0), c.le(m, x)) for x, m in zip(ix, n)]))
        z = Cx(c.num(0), c.num(0))
        here = c.if_(c.and_(c.le(s.local_x_start, ix[0]), c.lt(ix[0], s.local_x_start + s.local_nx)))
        row = None
        if here:
            row = ((ix[0] - s.local_x_start) * s.ny + ix[1]) * s.nz + ix[2]
            K = KD(c, s.k_plus_G + row * c.fsize('k_data'))
            kh = cross(K.m, K.n)
            ax = [c.d(axis, 8 * i) for i in range(3)]
            pv = cross(kh, ax)
            ln = c.sqrt(dot(pv, pv))
            c.dies_if(c.le(ln, 0))
            pv = [x * (1 / ln) for x in pv]
            sv = cross(kh, pv)
            h = [Cx(sr * sv[q] + pr * pv[q], si * sv[q] + pi * pv[q]) for q in range(3)]
            amp = [h[0] * K.m[0] + h[1] * K.m[1] + h[2] * K.m[2], h[0] * K.n[0] + h[1] * K.n[1] + h[2] * K.n[2]]

        def one(i):
            X.set(2 * i, band - 1, z)
            X.set(2 * i + 1, band - 1, z)
        c.each(X.localN, one)
        if here:
            X.set(2 * row, band - 1, amp[0])
            X.set(2 * row + 1, band - 1, amp[1])


@contract('maxwell_dominant_planewave', 'maxwell.c', 'P03', cfgs=('complex', 'inv'))
class _:
    """the wavevector of the component of largest squared amplitude of the band"""
    def setup(c):
        d = kpg_mdata(c)
        s = c.S(d, 'maxwell_data')
        n = s.local_nx * s.ny * s.nz
        H = ev_setup(c, 'H', n=n * 2, cc=2, localN=n)
        return d, H, c.int('band', None if c.mode == 'sym' else 0, 5), c.array('kdom', 3, 'd')

    def spec(c, d, H, band, kdom):
        X = EV(c, H)
        c.dies_if(c.or_(c.lt(band, 1), c.lt(X.p, band)))
        if c.mode == 'sym':
            raise Unsupported('position of a maximum')
        a = [X.z(2 * i, band - 1).abs2() + X.z(2 * i + 1, band - 1).abs2() for i in range(X.localN)]
        i = a.index(max(a))
        K = KD(c, c.S(d, 'maxwell_data').k_plus_G + i * c.fsize('k_data'))
        v = cross(K.m, K.n)
        for q in range(3):
            c.set(kdom, 8 * q, 'd', v[q] * K.kmag)
