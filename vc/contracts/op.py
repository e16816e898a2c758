"""maxwell_op.c"""
from common import *
import common


def kd_setup(c):
    return c.struct('k', 'k_data')


@contract('assign_t2c', 'maxwell_op.c', 'P04', static=True)
class _:
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('a', 3, 'z'), kd_setup(c), c.array('v', s + 1, 'z'), s

    def spec(c, a, k, v, s):
        K = KD(c, k)
        v0, v1 = c.z(v, 0), c.z(v, s)
        for j in range(3):
            c.set_z(a, j, v0 * K.m[j] + v1 * K.n[j])


@contract('assign_cross_t2c', 'maxwell_op.c', 'P04', static=True)
class _:
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('a', 3, 'z'), kd_setup(c), c.array('v', s + 1, 'z'), s

    def spec(c, a, k, v, s):
        K = KD(c, k)
        kxm, kxn = K.kxm()
        v0, v1 = c.z(v, 0), c.z(v, s)
        for j in range(3):
            c.set_z(a, j, v0 * kxm[j] + v1 * kxn[j])


@contract('project_c2t', 'maxwell_op.c', 'P04', static=True)
class _:
    """adjoint of assign_t2c, times scale"""
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('v', s + 1, 'z'), s, kd_setup(c), c.array('a', 3, 'z'), c.real('scale')

    def spec(c, v, s, k, a, scale):
        K = KD(c, k)
        A = [c.z(a, j) for j in range(3)]
        c.set_z(v, 0, (A[0] * K.m[0] + A[1] * K.m[1] + A[2] * K.m[2]) * scale)
        c.set_z(v, s, (A[0] * K.n[0] + A[1] * K.n[1] + A[2] * K.n[2]) * scale)


@contract('assign_cross_c2t', 'maxwell_op.c', 'P04', static=True)
class _:
    """minus the adjoint of assign_cross_t2c, times scale (k x is antisymmetric)"""
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('v', s + 1, 'z'), s, kd_setup(c), c.array('a', 3, 'z'), c.real('scale')

    def spec(c, v, s, k, a, scale):
        K = KD(c, k)
        kxm, kxn = K.kxm()
        A = [c.z(a, j) for j in range(3)]
        c.set_z(v, 0, (A[0] * kxm[0] + A[1] * kxm[1] + A[2] * kxm[2]) * (-scale))
        c.set_z(v, s, (A[0] * kxn[0] + A[1] * kxn[1] + A[2] * kxn[2]) * (-scale))


@contract('assign_ucross_t2c', 'maxwell_op.c', 'P05', static=True)
class _:
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('a', 3, 'z'), c.array('u', 3, 'd'), kd_setup(c), c.array('v', s + 1, 'z'), s

    def spec(c, a, u, k, v, s):
        K = KD(c, k)
        v0, v1 = c.z(v, 0), c.z(v, s)
        w = [v0 * K.m[j] + v1 * K.n[j] for j in range(3)]
        U = [c.d(u, 8 * j) for j in range(3)]
        for j in range(3):
            p, q = (j + 1) % 3, (j + 2) % 3
            c.set_z(a, j, w[q] * U[p] - w[p] * U[q])


@contract('assign_symmatrix_vector', 'maxwell_op.c', ['P01', 'P04'], cfgs=('complex', 'inv', 'herm'), variants=({'inplace': 0}, {'inplace': 1}))
class _:
    def setup(c, inplace):
        a = c.array('newv', 3, 'zc')
        return a, c.struct('matrix', 'symmetric_matrix'), a if inplace else c.array('oldv', 3, 'zc')

    def spec(c, a, m, o):
        M = sym33(c, m)
        r = matvec(c, M, [c.zc(o, j) for j in range(3)])
        for j in range(3):
            c.set_zc(a, j, r[j])


# ------------------------------------------------------------------ FFT (assumed: FFTW computes a linear map)

def each_col(c, hm, ns, body):
    """for all points and all columns h < hm (columns grouped by three when hm = 3 m)"""
    if c.mode == 'con':
        return c.each(*ns, hm, body)
    hm = P(hm)
    if hm.is_const():
        for h in range(int(hm.const_value())):
            c.each(*ns, lambda *a: body(*a, P(h)))
        return
    m, r = divmono(hm, (), 3)
    if not r.t:
        for q in range(3):
            c.each(*ns, m, lambda *a: body(*a[:-1], a[-1] * 3 + q))
        return
    c.each(*ns, hm, body)


def split_col(c, h, hm):
    """h = 3 b + q of hm = 3 m columns"""
    if c.mode == 'con':
        return h // 3, h % 3, hm
    h = P(h)
    q = h.t.get((), 0) % 3
    m, r = divmono(P(hm), (), 3)
    b, r2 = divmono(h - q, (), 3)
    if r.t or r2.t:
        return P(0), h, 1
    return b, q, m


@contract('maxwell_compute_fft', 'maxwell_op.c', 'P04', trusted=True)
class _:
    """Every one of the howmany components is transformed on its own by one fixed linear map per direction."""
    def setup(c):
        d = mdata_setup(c)
        return c.int('dir'), d, c.array('in', 1), c.array('out', 1), c.int('howmany'), c.int('stride'), c.int('dist')

    def spec(c, dir, d, ain, aout, hm, stride, dist):
        D = c.S(d, 'maxwell_data')
        c.requires(c.eq(stride, hm), 'stride = howmany')
        c.requires(c.eq(dist, 1), 'dist = 1')
        od, ld, lds, fo = D.other_dims, D.last_dim, D.last_dim_size, D.fft_output_size
        plus = c.if_(c.lt(0, dir))
        if plus:
            if not (ain.obj == aout.obj):
                pass
            c.scratch(aout)

            def body(x, h):
                b, q, m = split_col(c, h, hm)
                v = c.let(lambda x, b: [fft_plus(c, d, x, lambda i, j: c.z(ain, (i * lds + j) * hm + 3 * b + q))], (x, 0, fo), (b, 0, m))
                c.set_zc(aout, x * hm + h, v[0])
            each_col(c, hm, (fo,), body)
        else:
            if not c.complex and ain.obj != aout.obj:
                c.scratch(ain)
            c.scratch(aout)

            def body(i, j, h):
                b, q, m = split_col(c, h, hm)
                v = c.let(lambda i, j, b: [fft_minus(c, d, i, j, lambda x: c.zc(ain, x * hm + 3 * b + q))], (i, 0, od), (j, 0, ld), (b, 0, m))
                c.set_z(aout, (i * lds + j) * hm + h, v[0])
            each_col(c, hm, (od, ld), body)


# ------------------------------------------------------------------ field conversions

def field_setup(c, alias, mu=None):
    """alias: 'same' fft_data2 == fft_data, 'own' field array is fft_data, 'ext' field array is external"""
    d = mdata_setup(c, alias='same' if alias in ('same', 'same_own') else 'two', mu=mu)
    D = c.S(d, 'maxwell_data')
    f = D.fft_data if alias in ('own', 'same_own') else c.field_array(d, 'field')
    return d, f


ALIAS = [{'alias': a} for a in ('same', 'own', 'ext', 'same_own')]


def bands(c, X, nbmax=3):
    s, n = c.int('bstart', 0, 1), c.int('nb', 1, 2)
    return s, n


def band_checks(c, E, cbs, cnb, d, f):
    c.dies_if(c.ne(E.cc, 2))
    c.dies_if(c.not_(c.and_(c.le(0, cbs), c.le(cbs + cnb, E.p))))


def fdin(c, d, f):
    D = c.S(d, 'maxwell_data')
    f1, f2 = D.fft_data, D.fft_data2
    if c.same(f1, f2):
        return f
    return f2 if c.same(f, f1) else f1


def spec_to_pos(which):
    def spec(c, d, H, f, cbs, cnb):
        X = EV(c, H)
        M = MD(c, d)
        band_checks(c, X, cbs, cnb, d, f)
        fi = fdin(c, d, f)
        if not c.same(fi, f):
            c.scratch(fi)

        def body(x, b):
            g = M.curl if which == 'curl' else M.t2c
            v = vfft_plus(c, d, x, b + cbs, (cbs, cbs + cnb), lambda i, j, b: g(i, j, X, b))
            for q in range(3):
                c.set_zc(f, 3 * (x * cnb + b) + q, v[q])
        c.scratch(f)
        c.each(M.fo, cnb, body)
    return spec


def setup_to_pos(c, alias):
    d, f = field_setup(c, alias)
    n = MD(c, d)
    H = ev_setup(c, 'H', n=2 * n.od * n.ld)
    s, nb = bands(c, H)
    return d, H, f, s, nb


@contract('maxwell_compute_d_from_H', 'maxwell_op.c', 'P04', variants=ALIAS)
class _:
    setup = setup_to_pos
    spec = spec_to_pos('curl')


@contract('maxwell_compute_h_from_H', 'maxwell_op.c', 'P04', variants=ALIAS)
class _:
    setup = setup_to_pos
    spec = spec_to_pos('t2c')


def spec_tensor(c, d, f, cnb, eps):
    M = MD(c, d)

    def body(x, b):
        T = M.tens(eps, x)
        v = [c.zc(f, 3 * (x * cnb + b) + q) for q in range(3)]
        r = matvec(c, T, v)
        for q in range(3):
            c.set_zc(f, 3 * (x * cnb + b) + q, r[q])
    c.each(M.fo, cnb, body)


@contract('maxwell_compute_e_from_d_', 'maxwell_op.c', 'P04', cfgs=('complex', 'inv', 'herm'))
class _:
    def setup(c):
        d, f = field_setup(c, 'ext')
        return d, f, c.int('nb', 1, 2), c.S(d, 'maxwell_data').eps_inv
    spec = spec_tensor


@contract('maxwell_compute_e_from_d', 'maxwell_op.c', 'P04')
class _:
    def setup(c):
        d, f = field_setup(c, 'ext')
        return d, f, c.int('nb', 1, 2)

    def spec(c, d, f, nb):
        spec_tensor(c, d, f, nb, c.S(d, 'maxwell_data').eps_inv)


@contract('maxwell_compute_H_from_e', 'maxwell_op.c', 'P04', variants=ALIAS)
class _:
    def setup(c, alias):
        d, f = field_setup(c, alias)
        n = MD(c, d)
        H = ev_setup(c, 'H', n=2 * n.od * n.ld)
        s, nb = bands(c, H)
        return d, H, f, s, nb, c.real('scale')

    def spec(c, d, H, f, cbs, cnb, scale):
        X = EV(c, H)
        M = MD(c, d)
        band_checks(c, X, cbs, cnb, d, f)

        def body(i, j, b):
            def g(x, b):
                return [c.zc(f, 3 * (x * cnb + b - cbs) + q) for q in range(3)]
            a = vfft_minus(c, d, i, j, b + cbs, (cbs, cbs + cnb), g)
            r = M.cross_c2t(i, j, a)
            for t in range(2):
                X.set(2 * (i * M.ld + j) + t, b + cbs, r[t] * scale)
        c.each(M.od, M.ld, cnb, body)
        c.scratch(f)
        c.scratch(fdin(c, d, f))


class Pair:
    """transverse field given by f(i, j, b) -> (v0, v1)"""

    def __init__(self, c, M, f):
        self.M = M
        self.f = c.cached(f)

    def curl(self, i, j, b):
        a, e = self.M.kd2(i, j).kxm()
        v = self.f(i, j, b)
        return [v[0] * a[q] + v[1] * e[q] for q in range(3)]

    def t2c(self, i, j, b):
        K = self.M.kd2(i, j)
        v = self.f(i, j, b)
        return [v[0] * K.m[q] + v[1] * K.n[q] for q in range(3)]


def ev_pair(c, M, X):
    return Pair(c, M, lambda i, j, b: (X.z(2 * (i * M.ld + j), b), X.z(2 * (i * M.ld + j) + 1, b)))


def scaled(r, s):
    return tuple(x * s for x in r)


def tens_apply(c, M, arr, g, bs):
    """Fourier-space vector field (i, j, b) of  FFT-( arr * FFT+ g )"""
    g = c.cached(g)
    e = c.cached(lambda x, b: matvec(c, M.tens(arr, x), vfft_plus(c, M.d, x, b, bs, g)))
    return c.cached(lambda i, j, b: vfft_minus(c, M.d, i, j, b, bs, e))


def mu_pair(c, M, V, N, bs):
    """P_t mu^-1 V as a transverse field"""
    out = tens_apply(c, M, M.s.mu_inv, V.t2c, bs)
    return Pair(c, M, lambda i, j, b: scaled(M.proj(i, j, out(i, j, b)), 1 / N))


def op_pair(c, M, V, N, bs):
    """Maxwell operator without mu"""
    out = tens_apply(c, M, M.s.eps_inv, V.curl, bs)
    return Pair(c, M, lambda i, j, b: scaled(M.cross_c2t(i, j, out(i, j, b)), -1 / N))


def full_op(c, M, V, N, bs):
    if c.if_(c.isnull(M.s.mu_inv)):
        return op_pair(c, M, V, N, bs)
    return mu_pair(c, M, op_pair(c, M, mu_pair(c, M, V, N, bs), N, bs), N, bs)


def put_pair(c, M, B, i, j, b, r):
    for t in range(2):
        B.set(2 * (i * M.ld + j) + t, b, r[t])


def put_pairs(c, M, B, V, nb=None):
    c.each(M.od, M.ld, B.p if nb is None else nb, lambda i, j, b: put_pair(c, M, B, i, j, b, V.f(i, j, b)))


@contract('maxwell_compute_H_from_B', 'maxwell_op.c', 'P04',
          variants=[{'alias': a, 'mu': m, 'same': s} for a, m, s in
                    (('same_own', 0, 0), ('same_own', 0, 1), ('same_own', 1, 0), ('own', 1, 0), ('own', 1, 1), ('ext', 1, 1))])
class _:
    def setup(c, alias, mu, same):
        d, f = field_setup(c, alias, mu=mu)
        n = MD(c, d)
        N = c.int('N', 1)
        B = ev_setup(c, 'B', n=2 * n.od * n.ld, cc=2)
        H = B if same else ev_setup(c, 'H', n=2 * n.od * n.ld, cc=2)
        c.poke_field(H, 'evectmatrix', 'N', N)
        s1, nb = bands(c, B)
        s2 = s1 if same else c.int('bstart2', 0, 1)
        c.assume(c.le(s1 + nb, EV(c, B).p))
        c.assume(c.le(s2 + nb, EV(c, H).p))
        return d, B, H, f, s1, s2, nb

    def spec(c, d, B, H, f, s1, s2, nb):
        X, Y = EV(c, B), EV(c, H)
        M = MD(c, d)
        if c.if_(c.isnull(M.s.mu_inv)):
            if not c.same(X.data, Y.data):
                c.dies_if(c.not_(c.and_(c.le(0, s1), c.le(0, s2), c.le(s1 + nb, X.p), c.le(s2 + nb, Y.p), c.eq(X.n, Y.n))))
                c.each(Y.n, nb, lambda r, b: Y.set(r, s2 + b, X.z(r, s1 + b)))
            return
        band_checks(c, X, s1, nb, d, f)
        V = mu_pair(c, M, ev_pair(c, M, X), Y.N, (s1, s1 + nb))

        def body(i, j, b):
            r = V.f(i, j, b + s1)
            for t in range(2):
                Y.set(2 * (i * M.ld + j) + t, b + s2, r[t])
        c.each(M.od, M.ld, nb, body)
        c.scratch(f)
        c.scratch(fdin(c, d, f))


# ------------------------------------------------------------------ the eigen-operators

def op_setup(c, alias, mu, two=True):
    d = mdata_setup(c, alias=alias, mu=mu)
    M = MD(c, d)
    n = 2 * M.od * M.ld
    p = c.int('p', 1, 5)
    N = c.int('N', 1)
    X = ev_setup(c, 'X', n=n, p=p, cc=2)
    Y = ev_setup(c, 'Y', n=n, p=p, cc=2)
    for q in (X, Y):
        c.poke_field(q, 'evectmatrix', 'N', N)
    return d, X, Y


def scratch_fft(c, M):
    c.scratch(M.s.fft_data)
    if M.s.fft_data2.obj != M.s.fft_data.obj:
        c.scratch(M.s.fft_data2)


@contract('maxwell_operator', 'maxwell_op.c', 'P04', variants=[{'alias': a, 'mu': m} for a in ('same', 'two') for m in (0, 1)], opts={'cost': 10, 'opaque': True})
class _:
    """Y = P_t mu^-1 k x eps^-1 k x P_t mu^-1 X, band by band, whatever num_fft_bands is"""
    def setup(c, alias, mu):
        d, X, Y = op_setup(c, alias, mu)
        return X, Y, d, c.int('iscur', 0, 1), ev_setup(c, 'W')

    def spec(c, X, Y, d, ic, W):
        A, B = EV(c, X), EV(c, Y)
        M = MD(c, d)
        c.dies_if(c.ne(A.cc, 2))
        c.requires(c.eq(B.cc, 2))
        c.requires(c.eq(A.p, B.p))
        c.requires(A.data.obj != B.data.obj)
        put_pairs(c, M, B, full_op(c, M, ev_pair(c, M, A), B.N, (0, A.p)))
        scratch_fft(c, M)


@contract('maxwell_muinv_operator', 'maxwell_op.c', 'P04', variants=[{'alias': a, 'mu': m} for a in ('same', 'two') for m in (0, 1)])
class _:
    """Y = P_t mu^-1 X"""
    def setup(c, alias, mu):
        d, X, Y = op_setup(c, alias, mu)
        return X, Y, d, c.int('iscur', 0, 1), ev_setup(c, 'W')

    def spec(c, X, Y, d, ic, W):
        A, B = EV(c, X), EV(c, Y)
        M = MD(c, d)
        c.dies_if(c.ne(A.cc, 2))
        c.requires(c.eq(B.cc, 2))
        c.requires(c.eq(A.p, B.p))
        c.requires(A.data.obj != B.data.obj)
        if c.if_(c.isnull(M.s.mu_inv)):
            c.each(B.n, B.p, lambda r, b: B.set(r, b, A.z(r, b)))
            return
        put_pairs(c, M, B, mu_pair(c, M, ev_pair(c, M, A), B.N, (0, A.p)))
        scratch_fft(c, M)
