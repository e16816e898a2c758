"""maxwell_pre.c, and the shifted operators of maxwell_op.c"""
from common import *
from op import *
from mat import SQ, sq_setup


def fix(c, x):
    return c.ite(c.eq(x, 0), c.num(1), x)


def xeys(c, Y, S, fi=None):
    """rows of Y S^dagger (S promised Hermitian), or of Y when S has size 0"""
    if c.if_(c.eq(S.p, 0)):
        return lambda r, b: Y.z(r, b)
    return lambda r, b: c.csum(Y.p, lambda l: Y.z(r, l) * c.z(S.data, b * S.p + l).conj())


def xeys_req(c, A, B, S):
    c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p))))
    c.dies_if(c.not_(c.or_(c.eq(S.p, 0), c.eq(S.p, B.p))))
    if not c.if_(c.eq(S.p, 0)):
        c.requires(A.data.obj != B.data.obj and S.data.obj != A.data.obj, 'output distinct')
    else:
        c.requires(A.data.obj != B.data.obj, 'output distinct')


def kscale(c, d, i):
    D = c.S(d, 'maxwell_data')
    return c.d(D.k_plus_G_normsqr, 8 * i) * D.eps_inv_mean


def simple_scale(c, d, A, power, z=None):
    z = z or A.z

    def body(i, q, b):
        s = kscale(c, d, i)
        if power == 2:
            s = s * s
        A.set(i * A.cc + q, b, z(i * A.cc + q, b) * (1 / fix(c, s)))
    c.each(A.localN, A.cc, A.p, body)


@contract('maxwell_simple_precondition', 'maxwell_pre.c', 'P06')
class _:
    def setup(c):
        d = mdata_setup(c)
        M = MD(c, d)
        X = ev_setup(c, 'X', n=2 * M.od * M.ld, cc=2, localN=M.od * M.ld)
        return X, d, c.null()

    def spec(c, X, d, ev):
        simple_scale(c, d, EV(c, X), 1)


def pre_args(c, sp0, alias='same', mu=None, p=None):
    d = mdata_setup(c, alias=alias, mu=mu)
    M = MD(c, d)
    p = c.int('p', 1, 4)
    n = M.od * M.ld
    N = c.int('N', 1)
    X, Y = [ev_setup(c, q, n=2 * n, p=p, cc=2, localN=n) for q in 'XY']
    for q in (X, Y):
        c.poke_field(q, 'evectmatrix', 'N', N)
    S = sq_setup(c, 'S', c.num(0) if sp0 else (p if c.mode == 'con' else None))
    return d, X, Y, S


@contract('maxwell_preconditioner', 'maxwell_pre.c', 'P06', variants=[{'sp0': s} for s in (0, 1)])
class _:
    """Xout = K (Xin YtY): a positive multiple of each row, 1/(|k+G|^2 <1/eps>) or 1"""
    def setup(c, sp0):
        d, X, Y, S = pre_args(c, sp0)
        return X, Y, d, ev_setup(c, 'W'), c.null(), S

    def spec(c, X, Y, d, W, ev, S):
        A, B, s = EV(c, X), EV(c, Y), SQ(c, S)
        xeys_req(c, B, A, s)
        c.requires(c.eq(B.n, B.localN * B.cc))
        simple_scale(c, d, B, 1, xeys(c, A, s))


@contract('maxwell_target_preconditioner', 'maxwell_pre.c', 'P06', variants=[{'sp0': s} for s in (0, 1)])
class _:
    def setup(c, sp0):
        d, X, Y, S = pre_args(c, sp0)
        t = c.struct('td', 'maxwell_target_data', d=d)
        return X, Y, t, ev_setup(c, 'W'), c.null(), S

    def spec(c, X, Y, td, W, ev, S):
        A, B, s = EV(c, X), EV(c, Y), SQ(c, S)
        xeys_req(c, B, A, s)
        c.requires(c.eq(B.n, B.localN * B.cc))
        simple_scale(c, c.S(td, 'maxwell_target_data').d, B, 2, xeys(c, A, s))


@contract('assign_crossinv_t2c', 'maxwell_pre.c', 'P06', static=True)
class _:
    """a = -(1/k^2) k x v, the inverse of the cross product on transverse vectors"""
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('a', 3, 'z'), kd_setup(c), c.array('v', s + 1, 'z'), s

    def spec(c, a, k, v, s):
        K = KD(c, k)
        v0, v1 = c.z(v, 0), c.z(v, s)
        r = crossinv(c, K, v0, v1)
        for j in range(3):
            c.set_z(a, j, r[j])


def crossinv(c, K, v0, v1):
    f = -1 / fix(c, K.kmag)
    return [(v0 * K.n[j] - v1 * K.m[j]) * f for j in range(3)]


def crossinv_t(c, K, a):
    f = 1 / fix(c, K.kmag)
    p0 = a[0] * K.m[0] + a[1] * K.m[1] + a[2] * K.m[2]
    p1 = a[0] * K.n[0] + a[1] * K.n[1] + a[2] * K.n[2]
    return p1 * f, -(p0 * f)


@contract('assign_crossinv_c2t', 'maxwell_pre.c', 'P06', static=True)
class _:
    def setup(c):
        s = c.int('vstride', 1, 4)
        return c.array('v', s + 1, 'z'), s, kd_setup(c), c.array('a', 3, 'z'), c.real('scale')

    def spec(c, v, s, k, a, scale):
        r = crossinv_t(c, KD(c, k), [c.z(a, j) for j in range(3)])
        c.set_z(v, 0, r[0] * scale)
        c.set_z(v, s, r[1] * scale)


def pre2(c, M, V, N, bs):
    """-1/N  (k x)^-1 FFT-  epsbar  FFT+ (k x)^-1 V"""
    def g(i, j, b):
        v = V.f(i, j, b)
        return crossinv(c, M.kd2(i, j), v[0], v[1])

    g = c.cached(g)

    def e(x, b):
        T = M.tens(M.s.eps_inv, x)
        f = 3 / (T[0][0].re + T[1][1].re + T[2][2].re)
        return [v * f for v in vfft_plus(c, M.d, x, b, bs, g)]

    e = c.cached(e)

    def out(i, j, b):
        r = crossinv_t(c, M.kd2(i, j), vfft_minus(c, M.d, i, j, b, bs, e))
        return scaled(r, -1 / N)
    return Pair(c, M, out)


def row_pair(c, M, z):
    return Pair(c, M, lambda i, j, b: (z(2 * (i * M.ld + j), b), z(2 * (i * M.ld + j) + 1, b)))


PRE2 = [{'alias': a, 'sp0': s, 'same': 0} for a in ('same', 'two') for s in (0, 1)] + [{'alias': 'two', 'sp0': 1, 'same': 1}]


@contract('maxwell_preconditioner2', 'maxwell_pre.c', 'P06', variants=PRE2, opts={'opaque': True})
class _:
    def setup(c, alias, sp0, same):
        d, X, Y, S = pre_args(c, sp0, alias)
        if same:
            X = Y
        return X, Y, d, ev_setup(c, 'W'), c.null(), S

    def spec(c, X, Y, d, W, ev, S):
        A, B, s = EV(c, X), EV(c, Y), SQ(c, S)
        M = MD(c, d)
        c.dies_if(c.ne(A.cc, 2))
        if c.same(A.data, B.data):
            z = B.z
        else:
            xeys_req(c, B, A, s)
            z = xeys(c, A, s)
        c.requires(c.eq(B.n, 2 * M.od * M.ld))
        put_pairs(c, M, B, pre2(c, M, row_pair(c, M, z), B.N, (0, B.p)))
        scratch_fft(c, M)


@contract('maxwell_target_preconditioner2', 'maxwell_pre.c', 'P06', variants=PRE2, opts={'opaque': True})
class _:
    """the preconditioner applied twice, as the operator is"""
    def setup(c, alias, sp0, same):
        d, X, Y, S = pre_args(c, sp0, alias)
        if same:
            X = Y
        return X, Y, c.struct('td', 'maxwell_target_data', d=d), ev_setup(c, 'W'), c.null(), S

    def spec(c, X, Y, td, W, ev, S):
        A, B, s = EV(c, X), EV(c, Y), SQ(c, S)
        d = c.S(td, 'maxwell_target_data').d
        M = MD(c, d)
        c.dies_if(c.ne(A.cc, 2))
        if c.same(A.data, B.data):
            z = B.z
        else:
            xeys_req(c, B, A, s)
            z = xeys(c, A, s)
        c.requires(c.eq(B.n, 2 * M.od * M.ld))
        P1 = pre2(c, M, row_pair(c, M, z), B.N, (0, B.p))
        put_pairs(c, M, B, pre2(c, M, P1, B.N, (0, B.p)))
        scratch_fft(c, M)


# ------------------------------------------------------------------ shifted operators

def shifted(c, M, V, N, bs, w):
    O = full_op(c, M, V, N, bs)

    def out(i, j, b):
        o, v = O.f(i, j, b), V.f(i, j, b)
        return tuple(o[t] + v[t] * (-w * w) for t in range(2))
    return Pair(c, M, out)


@contract('maxwell_target_operator1', 'maxwell_op.c', ['P04', 'P06'], variants=[{'mu': 0}], opts={'opaque': True})
class _:
    """Y = (M - w^2) X"""
    def setup(c, mu):
        d, X, Y = op_setup(c, 'two', mu)
        return X, Y, c.struct('td', 'maxwell_target_data', d=d), c.int('iscur', 0, 1), ev_setup(c, 'W')

    def spec(c, X, Y, td, ic, W):
        A, B = EV(c, X), EV(c, Y)
        T = c.S(td, 'maxwell_target_data')
        M = MD(c, T.d)
        c.dies_if(c.ne(A.cc, 2))
        for f in 'cpn':
            c.requires(c.eq(getattr(A.s, f), getattr(B.s, f)))
        c.requires(c.eq(A.n, 2 * M.od * M.ld))
        c.requires(A.data.obj != B.data.obj)
        put_pairs(c, M, B, shifted(c, M, ev_pair(c, M, A), B.N, (0, A.p), T.target_frequency))
        scratch_fft(c, M)


@contract('maxwell_target_operator', 'maxwell_op.c', ['P04', 'P06'], variants=[{'mu': 0}], opts={'opaque': True, 'cost': 5})
class _:
    """Y = (M - w^2)^2 X"""
    def setup(c, mu):
        d, X, Y = op_setup(c, 'two', mu)
        W = ev_setup(c, 'W', n=EV(c, X).n, p=EV(c, X).p, cc=2)
        c.poke_field(W, 'evectmatrix', 'N', EV(c, X).N)
        return X, Y, c.struct('td', 'maxwell_target_data', d=d), c.int('iscur', 0, 1), W

    def spec(c, X, Y, td, ic, W):
        A, B, C = EV(c, X), EV(c, Y), EV(c, W)
        T = c.S(td, 'maxwell_target_data')
        M = MD(c, T.d)
        c.dies_if(c.ne(A.cc, 2))
        c.requires(A.data.obj != B.data.obj and C.data.obj not in (A.data.obj, B.data.obj))
        S1 = shifted(c, M, ev_pair(c, M, A), C.N, (0, A.p), T.target_frequency)
        put_pairs(c, M, C, S1)
        put_pairs(c, M, B, shifted(c, M, S1, B.N, (0, A.p), T.target_frequency))
        scratch_fft(c, M)


@contract('maxwell_ucross_op', 'maxwell_op.c', 'P05', variants=[{'alias': a} for a in ('same', 'two')], opts={'opaque': True})
class _:
    """Y = k x eps^-1 u x X"""
    def setup(c, alias):
        d, X, Y = op_setup(c, alias, None)
        return X, Y, d, c.array('u', 3, 'd')

    def spec(c, X, Y, d, u):
        A, B = EV(c, X), EV(c, Y)
        M = MD(c, d)
        c.dies_if(c.ne(A.cc, 2))
        c.requires(c.eq(B.cc, 2))
        c.requires(c.eq(A.p, B.p))
        c.requires(A.data.obj != B.data.obj)
        U = [c.d(u, 8 * q) for q in range(3)]
        V = ev_pair(c, M, A)
        bs = (0, A.p)

        def ux(i, j, b):
            v = V.t2c(i, j, b)
            return [v[2] * U[1] - v[1] * U[2], v[0] * U[2] - v[2] * U[0], v[1] * U[0] - v[0] * U[1]]
        out = tens_apply(c, M, M.s.eps_inv, ux, bs)
        put_pairs(c, M, B, Pair(c, M, lambda i, j, b: scaled(M.cross_c2t(i, j, out(i, j, b)), -1 / B.N)))
        scratch_fft(c, M)
