"""shared views and helpers for contracts"""
from contract import *
import contract as _c


class KD:
    """values of a k_data struct"""

    def __init__(self, c, p):
        s = c.S(p, 'k_data')
        self.kmag = s.kmag
        self.m = [s.mx, s.my, s.mz]
        self.n = [s.nx, s.ny, s.nz]

    def kxm(self):
        """k x m = |k| n ; k x n = -|k| m   (frame convention of k_data)"""
        return [self.n[j] * self.kmag for j in range(3)], [-(self.m[j]) * self.kmag for j in range(3)]


def sym33(c, p):
    """3x3 matrix (Cx entries) of a symmetric_matrix struct"""
    if c.herm:
        off, _ = c.lay.field('symmetric_matrix', 'm01')
        o2, _ = c.lay.field('symmetric_matrix', 'm02')
        o12, _ = c.lay.field('symmetric_matrix', 'm12')
        S = c.S(p, 'symmetric_matrix')
        a, b, d = c.zc(p + off), c.zc(p + o2), c.zc(p + o12)
        dd = [Cx(S.m00, c.num(0)), Cx(S.m11, c.num(0)), Cx(S.m22, c.num(0))]
        return [[dd[0], a, b], [a.conj(), dd[1], d], [b.conj(), d.conj(), dd[2]]]
    S = c.S(p, 'symmetric_matrix')
    z = c.num(0)
    a, b, d = Cx(S.m01, z), Cx(S.m02, z), Cx(S.m12, z)
    return [[Cx(S.m00, z), a, b], [a, Cx(S.m11, z), d], [b, d, Cx(S.m22, z)]]


def cmat_vec(M, v):
    """M v for 3x3 Cx matrix"""
    return [M[i][0] * v[0] + M[i][1] * v[1] + M[i][2] * v[2] for i in range(3)]


def matvec(c, M, v):
    """real matrices stay cheap"""
    if not c.herm:
        return [v[0] * M[i][0].re + v[1] * M[i][1].re + v[2] * M[i][2].re for i in range(3)]
    return cmat_vec(M, v)


class EV:
    """evectmatrix view"""

    def __init__(self, c, p):
        s = c.S(p, 'evectmatrix')
        self.c = c
        self.s = s
        self.N, self.localN, self.n, self.p, self.cc = s.N, s.localN, s.n, s.p, s.c
        self.data = s.data

    def z(self, row, b):
        return self.c.z(self.data, row * self.p + b)

    def at(self, row, b):
        return row * self.p + b

    def set(self, row, b, v):
        self.c.set_z(self.data, row * self.p + b, v)


def ev_setup(c, name, n=None, p=None, cc=None, **kw):
    """a by-value evectmatrix argument; data an array of its own"""
    n = n if n is not None else c.int(name + '_n', 1, 5)
    p = p if p is not None else c.int(name + '_p', 1, 4)
    if 'data' not in kw:
        kw['data'] = c.array(name + '_data', n * p, 'z')
    c_ = c.int(name + '_c', 1, 2) if cc is None else cc
    return c.struct(name, 'evectmatrix', n=n, p=p, c=c_, **kw)


def fft_kernel(c, d, dir, xo, i, j):
    """matrix element (position index xo, Fourier index (i,j)) of the discrete Fourier transform"""
    D = c.S(d, 'maxwell_data')
    if c.mode == 'con':
        return c.dft(D, dir, xo, i, j)
    sg = 'p' if dir > 0 else 'm'
    a = (xo, i, j)
    return Cx(c.fn('FFT' + sg + 'r', *a), c.fn('FFT' + sg + 'i', *a))


def fft_plus(c, d, xo, f):
    """position-space value at xo of the Fourier-space array f(i, j) -> Cx"""
    D = c.S(d, 'maxwell_data')
    return c.csum(D.other_dims, lambda i: c.csum(D.last_dim, lambda j: fmul(c, fft_kernel(c, d, 1, xo, i, j), f(i, j))))


def fmul(c, K, v):
    if not c.complex:      # real input
        return K * v.re
    return K * v


def fft_minus(c, d, i, j, g):
    """Fourier-space value at (i, j) of the position-space array g(xo) -> Cx"""
    D = c.S(d, 'maxwell_data')

    def term(x):
        K = fft_kernel(c, d, -1, x, i, j)
        v = g(x)
        if not c.complex:     # complex-to-real transform: a real-linear functional
            return Cx(K.re * v.re + K.im * v.im, c.num(0))
        return K * v
    return c.csum(D.fft_output_size, term)


def vfft_plus(c, d, xo, b, bs, g):
    """position-space vector at xo of band b (bs = (first, end): the bands that exist) of the field g(i, j, b)"""
    D = c.S(d, 'maxwell_data')

    def f(x, b):
        return [fft_plus(c, d, x, lambda i, j, q=q: g(i, j, b)[q]) for q in range(3)]
    return c.let(f, (xo, 0, D.fft_output_size), (b,) + bs)


def vfft_minus(c, d, i, j, b, bs, g):
    """Fourier-space vector at (i, j) of the position-space field g(x, b)"""
    D = c.S(d, 'maxwell_data')

    def f(i, j, b):
        return [fft_minus(c, d, i, j, lambda x, q=q: g(x, b)[q]) for q in range(3)]
    return c.let(f, (i, 0, D.other_dims), (j, 0, D.last_dim), (b,) + bs)


def mdata_setup(c, name='d', alias='same', mu=None, nfb=2, **kw):
    """a maxwell_data object; alias: fft_data2 same as / different from fft_data"""
    if c.mode == 'con':
        return c.mdata(name, alias, mu, nfb, **kw)
    nb = c.int('nfb', 1)
    od, ld, lds, fo = c.int('other_dims', 1), c.int('last_dim', 1), c.int('last_dim_size', 1), c.int('fft_output_size', 1)
    c.assume(le(ld, lds))
    if c.complex:
        c.assume(eq(ld, lds))
    f1 = c.array('fft_data', 0, 'd')
    f2 = f1 if alias == 'same' else c.array('fft_data2', 0, 'd')
    a = dict(other_dims=od, last_dim=ld, last_dim_size=lds, fft_output_size=fo, num_fft_bands=nb, fft_data=f1, fft_data2=f2,
             k_plus_G=c.array('k_plus_G', od * ld, 'k_data'), k_plus_G_normsqr=c.array('k_plus_G_normsqr', od * ld, 'd'),
             eps_inv=c.array('eps_inv', fo, 'symmetric_matrix'))
    if mu is not None:
        a['mu_inv'] = c.array('mu_inv', fo, 'symmetric_matrix') if mu else NULL
    a.update(kw)
    return c.struct(name, 'maxwell_data', **a)


class MD:
    """maxwell_data view with Fourier-space indexing"""

    def __init__(self, c, d):
        s = c.S(d, 'maxwell_data')
        self.c, self.d, self.s = c, d, s
        self.od, self.ld, self.lds, self.fo = s.other_dims, s.last_dim, s.last_dim_size, s.fft_output_size
        self.kg = s.k_plus_G
        self.ks = c.fsize('k_data')
        self.es = c.fsize('symmetric_matrix')

    def kd(self, ij):
        return KD(self.c, self.kg + ij * self.ks)

    def kd2(self, i, j):
        return self.kd(i * self.ld + j)

    def t2c(self, i, j, X, b):
        """cartesian components of the transverse vector X(ij, b)"""
        K = self.kd2(i, j)
        ij = i * self.ld + j
        v0, v1 = X.z(2 * ij, b), X.z(2 * ij + 1, b)
        return [v0 * K.m[q] + v1 * K.n[q] for q in range(3)]

    def curl(self, i, j, X, b):
        """(k+G) x X"""
        K = self.kd2(i, j)
        a, e = K.kxm()
        ij = i * self.ld + j
        v0, v1 = X.z(2 * ij, b), X.z(2 * ij + 1, b)
        return [v0 * a[q] + v1 * e[q] for q in range(3)]

    def ucross(self, i, j, X, b, u):
        v = self.t2c(i, j, X, b)
        return [v[2] * u[1] - v[1] * u[2], v[0] * u[2] - v[2] * u[0], v[1] * u[0] - v[0] * u[1]]

    def proj(self, i, j, a):
        """transverse components (m.a, n.a)"""
        K = self.kd2(i, j)
        return (a[0] * K.m[0] + a[1] * K.m[1] + a[2] * K.m[2], a[0] * K.n[0] + a[1] * K.n[1] + a[2] * K.n[2])

    def cross_c2t(self, i, j, a):
        """transverse components of (k+G) x a:   m.(k x a) = -|k| n.a ,  n.(k x a) = |k| m.a"""
        K = self.kd2(i, j)
        p0, p1 = self.proj(i, j, a)
        return (p1 * (-K.kmag), p0 * K.kmag)

    def tens(self, arr, x):
        return sym33(self.c, arr + x * self.es)


class ArrX:
    """field given by a function z(row, b)"""

    def __init__(self, z):
        self.z = z
