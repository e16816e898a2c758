"""maxwell/maxwell_eps.c : material tensor algebra and Kottke averaging"""
from common import *
import ext, lap
from ext import external, _ch

HC = ('complex', 'herm')


def put_sym(c, p, M, guard=None):
    """store the 3x3 symmetric/Hermitian matrix M (upper triangle, Cx entries)"""
    S = 'symmetric_matrix'
    for i in range(3):
        c.set_field(p, S, 'm%d%d' % (i, i), M[i][i].re, guard)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        off, _ = c.lay.field(S, 'm%d%d' % (i, j))
        if c.herm:
            c.set_zc(p + off, 0, M[i][j], guard)
        else:
            c.set(p, off, 'd', M[i][j].re, guard)


def herm_of(c, d, o):
    """matrix from diagonal reals d and upper off-diagonals o (Cx)"""
    z = c.num(0)
    D = [Cx(x, z) for x in d]
    return [[D[0], o[0], o[1]], [o[0].conj(), D[1], o[2]], [o[1].conj(), o[2].conj(), D[2]]]


def offdiag(M):
    return [M[0][1], M[0][2], M[1][2]]


def det3(M):
    return ((M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
             - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
             + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])).re)


def minor2(M):
    return (M[0][0] * M[1][1] - M[0][1] * M[1][0]).re


def sum_minors(M):
    return sum(((M[i][i] * M[j][j] - M[i][j] * M[j][i]).re for i, j in ((0, 2), (1, 2))), minor2(M))


def cofactor(M, i, j):
    """cofactor of entry (i, j)"""
    a, b = (i + 1) % 3, (i + 2) % 3
    p, q = (j + 1) % 3, (j + 2) % 3
    return M[a][p] * M[b][q] - M[a][q] * M[b][p]


def is_diag(c, M):
    t = []
    for o in offdiag(M):
        t.append(c.eq(o.re, 0))
        if c.herm:
            t.append(c.eq(o.im, 0))
    return c.and_(*t)


def eig3(c, M):
    """the eigenvalues of a Hermitian 3x3 matrix, ascending; they depend on its invariants only"""
    if c.mode == 'con':
        import numpy
        return list(numpy.linalg.eigvalsh(numpy.array([[complex(float(x.re), float(x.im)) for x in r] for r in M])))
    k = (M[0][0].re + M[1][1].re + M[2][2].re, sum_minors(M), det3(M))
    return [c.fn('eig3.%d' % i, *k) for i in range(3)]


def eig3_info(c, M):
    if c.mode == 'con':
        return 0
    k = (M[0][0].re + M[1][1].re + M[2][2].re, sum_minors(M), det3(M))
    info = P(mk_fn('eig3.info', tuple(P(x) for x in k), 'int'))
    lap.assume_info(c, info)
    return info


def _eig3_ext(c, jobz, uplo, A, ld, w, work, lwork, pinfo, cplx, rwork=None):
    up = _ch(c, uplo)
    c.requires(c.le(3, ld), 'lda >= n')
    c.requires(c.le(5 if cplx else 8, c.i(lwork)), 'lwork large enough')
    rd = (lambda i, j: c.zc(A, i + j * ld)) if cplx else (lambda i, j: Cx(c.d(A, 8 * (i + j * ld)), c.num(0)))
    pick = (lambda i, j: rd(i, j) if i <= j else rd(j, i).conj()) if up == 'U' else (lambda i, j: rd(i, j) if j <= i else rd(j, i).conj())
    z = c.num(0)
    M = [[pick(i, j) if i != j else Cx(rd(i, i).re, z) for j in range(3)] for i in range(3)]
    info = eig3_info(c, M)
    for i, v in enumerate(eig3(c, M)):
        c.set(w, 8 * i, 'd', v)
    c.scratch(A)
    c.scratch(work)
    if rwork is not None:
        c.scratch(rwork)
    c.set(pinfo, 0, 'i', info)


def _is3(c, n):
    v = c.i(n)
    return v == 3 if isinstance(v, int) else (v.is_const() and v.const_value() == 3)


_zheev0, _dsyev0 = lap._heev_ext, (lambda c, jobz, uplo, n, A, lda, w, work, lwork, pinfo: lap._heev_ext(c, jobz, uplo, n, A, lda, w, work, lwork, None, pinfo))


@external('zheev_')
def _zheev(c, jobz, uplo, n, A, lda, w, work, lwork, rwork, pinfo):
    if _is3(c, n):
        return _eig3_ext(c, jobz, uplo, A, c.i(lda), w, work, lwork, pinfo, True, rwork)
    _zheev0(c, jobz, uplo, n, A, lda, w, work, lwork, rwork, pinfo)


@external('dsyev_')
def _dsyev(c, jobz, uplo, n, A, lda, w, work, lwork, pinfo):
    if _is3(c, n):
        return _eig3_ext(c, jobz, uplo, A, c.i(lda), w, work, lwork, pinfo, False)
    _dsyev0(c, jobz, uplo, n, A, lda, w, work, lwork, pinfo)


def sym_setup(c, name, diag=False):
    p = c.struct(name, 'symmetric_matrix')
    if diag:
        for f in ('m01', 'm02', 'm12'):
            off, _ = c.lay.field('symmetric_matrix', f)
            c.poke(p, off, 'd', 0)
            if c.herm:
                c.poke(p, off + 8, 'd', 0)
    return p


@contract('maxwell_sym_matrix_eigs', 'maxwell_eps.c', 'P01', cfgs=HC)
class _:
    """the three eigenvalues of the tensor"""
    def setup(c):
        return c.array('eigs', 3, 'd'), sym_setup(c, 'V')

    def spec(c, eigs, V):
        M = sym33(c, V)
        c.dies_if(c.ne(eig3_info(c, M), 0))
        for i, v in enumerate(eig3(c, M)):
            c.set(eigs, 8 * i, 'd', v)


@contract('maxwell_sym_matrix_invert', 'maxwell_eps.c', 'P01', cfgs=HC,
          variants=[dict(shape=s, same=m) for s in ('diag', 'full') for m in (0, 1)])
class _:
    """Vinv = adjugate(V) / det(V); a singular non-diagonal tensor is refused"""
    def setup(c, shape, same):
        V = sym_setup(c, 'V', shape == 'diag')
        return (V if same else c.struct('Vinv', 'symmetric_matrix')), V

    def spec(c, Vi, V):
        M = sym33(c, V)
        if c.if_(is_diag(c, M)):
            z = c.num(0)
            for i in range(3):
                c.requires(c.ne(M[i][i].re, 0), 'nonsingular diagonal')
            put_sym(c, Vi, herm_of(c, [1 / M[i][i].re for i in range(3)], [Cx(z, z)] * 3))
            return
        d = det3(M)
        c.dies_if(c.eq(d, 0))
        r = 1 / d
        put_sym(c, Vi, [[cofactor(M, j, i) * r for j in range(3)] for i in range(3)])


@contract('maxwell_sym_matrix_positive_definite', 'maxwell_eps.c', 'P01', cfgs=HC)
class _:
    """Sylvester: all leading principal minors positive"""
    def setup(c):
        return c.struct('V', 'symmetric_matrix'),

    def spec(c, V):
        M = sym33(c, V)
        c.ret(c.ite(posdef(c, M), c.num(1), c.num(0)))


def posdef(c, M):
    return c.and_(c.lt(0, M[0][0].re), c.lt(0, minor2(M)), c.lt(0, det3(M)))


def rotated(c, M, R):
    """R^T M R"""
    A = [[M[i][0] * R[0][j] + M[i][1] * R[1][j] + M[i][2] * R[2][j] for j in range(3)] for i in range(3)]
    return [[A[0][j] * R[0][i] + A[1][j] * R[1][i] + A[2][j] * R[2][i] for j in range(3)] for i in range(3)]


def rd33(c, p):
    return [[c.d(p, 8 * (3 * i + j)) for j in range(3)] for i in range(3)]


@contract('maxwell_sym_matrix_rotate', 'maxwell_eps.c', 'P01', cfgs=HC, variants=({'same': 0}, {'same': 1}))
class _:
    """RAR = R^T A R, complex off-diagonals included; RAR may be A"""
    def setup(c, same):
        A = c.struct('A', 'symmetric_matrix')
        return (A if same else c.struct('RAR', 'symmetric_matrix')), A, c.array('R', 9, 'd')

    def spec(c, RAR, A, R):
        put_sym(c, RAR, rotated(c, sym33(c, A), rd33(c, R)))


def rotmat(c, n):
    """the frame whose first axis is the unit vector n: third axis = (z x n) or (x x n), normalised; second = third x first"""
    z = c.num(0)
    if c.if_(c.or_(c.lt(c.num(TH), c.fabs(n[0])), c.lt(c.num(TH), c.fabs(n[1])))):
        t = [n[1], -n[0], z]
    else:
        t = [z, -n[2], n[1]]
    s = 1 / c.sqrt(t[0] * t[0] + t[1] * t[1] + t[2] * t[2])
    t = [x * s for x in t]
    m = [t[1] * n[2] - t[2] * n[1], t[2] * n[0] - t[0] * n[2], t[0] * n[1] - t[1] * n[0]]
    return [[n[i], m[i], t[i]] for i in range(3)]


from fractions import Fraction
TH = Fraction(1, 100)


@contract('maxwell_rotation_matrix', 'maxwell_eps.c', 'P01', cfgs=('complex',))
class _:
    def setup(c):
        n = [c.real('n%d' % i) for i in range(3)]
        if c.mode == 'con':
            l = sum(x * x for x in n) ** .5
            n = [x / l for x in n] if l else [1.0, 0.0, 0.0]
        else:
            c.assume(c.eq(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1))
        return [c.array('Rot', 9, 'd')] + n

    def spec(c, Rot, n0, n1, n2):
        R = rotmat(c, [n0, n1, n2])
        for i in range(3):
            for j in range(3):
                c.set(Rot, 8 * (3 * i + j), 'd', R[i][j])


@contract('check_maxwell_dielectric', 'maxwell_eps.c', 'P01', cfgs=HC)
class _:
    def setup(c):
        return mdata_setup(c, 'd'), c.int('negok', 0, 1)

    def spec(c, d, negok):
        m = MD(c, d)
        par = m.s.parity
        nok = c.eq(negok, 0)
        want2d = c.and_(c.eq(m.s.nz, 1), c.ne(c.bitand(par, 3), 0))
        ei = m.s.eps_inv

        def bad1(i):
            return c.and_(nok, c.not_(posdef(c, m.tens(ei, i))))

        def bad2(i):
            M = m.tens(ei, i)
            z = [c.eq(M[a][2].re, 0) for a in (0, 1)] + ([c.eq(M[a][2].im, 0) for a in (0, 1)] if c.herm else [])
            return c.and_(want2d, c.not_(c.and_(*z)))
        k = c.first(m.fo, lambda i: c.or_(bad1(i), bad2(i)))
        if k is None:
            return c.ret(0)
        c.ret(c.ite(bad1(k), c.num(1), c.num(2)))


# ---------------------------------------------------------------- lemmas over the contracts
from lemma import lemma


def free_herm(c, nm, real=False):
    z = c.num(0)
    o = [Cx(c.real('%s_o%d' % (nm, i)), z if real else c.real('%s_i%d' % (nm, i))) for i in range(3)]
    return herm_of(c, [c.real('%s_d%d' % (nm, i)) for i in range(3)], o)


@lemma('inverse_times_tensor_is_identity', 'P01')
def _(c):
    M = free_herm(c, 'm')
    d = det3(M)
    for i in range(3):
        for j in range(3):
            s = Cx(c.num(0))
            for l in range(3):
                s = s + M[i][l] * cofactor(M, j, l)
            c.prove_eq('M adj(M) = det I [%d%d]' % (i, j), s, Cx(d) if i == j else Cx(c.num(0)))
    c.prove_eq('det is real', (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
                               + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])).im, c.num(0))
    for i in range(3):
        for j in range(3):
            c.prove_eq('adjugate is Hermitian [%d%d]' % (i, j), cofactor(M, j, i), cofactor(M, i, j).conj())


@lemma('rotation_frame_is_orthonormal_and_proper', 'P01')
def _(c):
    # before normalisation t is orthogonal to n; n unit; second = t x n
    n = [c.real('n%d' % i) for i in range(3)]
    z = c.num(0)
    nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
    for nm, t in (('z x n', [n[1], -n[0], z]), ('x x n', [z, -n[2], n[1]])):
        tt = t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
        m = [t[1] * n[2] - t[2] * n[1], t[2] * n[0] - t[0] * n[2], t[0] * n[1] - t[1] * n[0]]
        c.prove_eq(nm + ': t.n = 0', t[0] * n[0] + t[1] * n[1] + t[2] * n[2], z)
        c.prove_eq(nm + ': m.n = 0', m[0] * n[0] + m[1] * n[1] + m[2] * n[2], z)
        c.prove_eq(nm + ': m.t = 0', m[0] * t[0] + m[1] * t[1] + m[2] * t[2], z)
        c.prove_eq(nm + ': |m|^2 = |t|^2 |n|^2', m[0] * m[0] + m[1] * m[1] + m[2] * m[2], tt * nn)
        R = [[Cx(n[i], z), Cx(m[i], z), Cx(t[i], z)] for i in range(3)]
        c.prove_eq(nm + ': det = |t|^2 |n|^2 (proper)', det3(R), tt * nn)


@lemma('rotation_by_orthonormal_frame_keeps_invariants', 'P01')
def _(c):
    # R^T M R is Hermitian, and rotating by R then by R^T multiplies by the Gram matrix R R^T on both sides
    M = free_herm(c, 'm')
    R = [[c.real('R%d%d' % (i, j)) for j in range(3)] for i in range(3)]
    T = rotated(c, M, R)
    for i in range(3):
        c.prove_eq('diagonal real', T[i][i].im, c.num(0))
        for j in range(3):
            c.prove_eq('Hermitian', T[i][j], T[j][i].conj())
    Rt = [[R[j][i] for j in range(3)] for i in range(3)]
    G = [[R[i][0] * R[j][0] + R[i][1] * R[j][1] + R[i][2] * R[j][2] for j in range(3)] for i in range(3)]
    B = rotated(c, T, Rt)
    Gm = rotated(c, M, G)
    for i in range(3):
        for j in range(3):
            c.prove_eq('R (R^T M R) R^T = (R R^T) M (R R^T)', B[i][j], Gm[i][j])


# ---------------------------------------------------------------- material callbacks

def _callback_tensors(c, nm, args, which):
    """tensor whose entries are functions of the arguments (symbolic)"""
    z = c.num(0)
    f = lambda s: c.fn('%s.%s.%s' % (nm, which, s), *args)
    o = [Cx(f('m%d%d' % p), f('i%d%d' % p) if c.herm else z) for p in ((0, 1), (0, 2), (1, 2))]
    return herm_of(c, [f('m%d%d' % (i, i)) for i in range(3)], o)


def _con_sym(c, buf):
    import struct
    n = 9 if c.herm else 6
    # layout as in the build
    lay = c.lay
    d = [struct.unpack_from('d', buf, lay.field('symmetric_matrix', 'm%d%d' % (i, i))[0])[0] for i in range(3)]
    o = []
    for p in ((0, 1), (0, 2), (1, 2)):
        off = lay.field('symmetric_matrix', 'm%d%d' % p)[0]
        o.append(Cx(struct.unpack_from('d', buf, off)[0], struct.unpack_from('d', buf, off + 8)[0] if c.herm else 0.0))
    return herm_of(c, d, o)


def mat(c, r, data):
    """(eps, eps_inv) of the material function at r"""
    if c.mode == 'con':
        import ctypes
        n = c.lay.size('symmetric_matrix')
        a, b = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
        c.lib.cb_eps(a, b, (ctypes.c_double * 3)(*r), ctypes.c_void_p(data.addr()))
        return _con_sym(c, a), _con_sym(c, b)
    return _callback_tensors(c, 'mat', r, 'eps'), _callback_tensors(c, 'mat', r, 'inv')


def mean(c, r, s, tol, data):
    """(ok, mean eps) of the mean-material callback"""
    if c.mode == 'con':
        import ctypes
        n = c.lay.size('symmetric_matrix')
        a, b = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
        D = ctypes.c_double
        ok = c.lib.cb_mean(a, b, (D * 3)(), D(s[0]), D(s[1]), D(s[2]), D(tol), (D * 3)(*r), ctypes.c_void_p(data.addr()))
        return ok, (_con_sym(c, a) if ok else herm_of(c, [1., 1., 1.], [Cx(0., 0.)] * 3))
    a = list(r) + list(s) + [tol]
    return P(mk_fn('mean.ok', tuple(P(x) for x in a), 'int')), _callback_tensors(c, 'mean', a, 'eps')


@external('cb_eps')
def _cb_eps(c, eps, epsinv, r, data):
    e, ei = mat(c, [c.d(r, 8 * i) for i in range(3)], data)
    put_sym(c, eps, e)
    put_sym(c, epsinv, ei)


@external('cb_mean')
def _cb_mean(c, em, eim, normal, s1, s2, s3, tol, r, data):
    R = [c.d(r, 8 * i) for i in range(3)]
    ok, e = mean(c, R, [s1, s2, s3], tol, data)
    put_sym(c, em, e)
    put_sym(c, eim, _callback_tensors(c, 'mean', list(R) + [s1, s2, s3, tol], 'inv'))
    c.scratch(normal)
    c.ret(ok)


def cb_data(c):
    if c.mode == 'sym':
        return c.array('epsilon_data', 0, 'd')
    r = c.rng
    p = [r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([0, 1]), r.uniform(0, 6)]
    for _ in range(2):
        p += [r.uniform(2, 9) for _ in range(3)] + [r.uniform(-.5, .5) for _ in range(6)]
    for _ in range(2):
        p += [r.uniform(.1, 1) for _ in range(3)] + [r.choice([0, r.uniform(-.1, .1)]) for _ in range(6)]
    p += [r.uniform(-.5, .8), 0, r.choice([-.3, 0, .3]), r.choice([0, .1])]
    a = c.array('epsilon_data', len(p), 'd')
    for i, v in enumerate(p):
        c.poke(a, 8 * i, 'd', float(v))
    return a


SMALL = Fraction(1, 10 ** 6)


@contract('get_mesh', 'maxwell_eps.c', 'P02', cfgs=('complex',), static=True)
class _:
    """centre and size of the averaging mesh; sizes below 1 count as 1"""
    def setup(c):
        ms = c.array('mesh_size', 3, 'i')
        for i in range(3):
            c.poke(ms, 4 * i, 'i', c.int('ms%d' % i, None if c.mode == 'sym' else -1, 4))
        return ms, c.array('mesh_center', 3, 'd'), c.array('mesh_prod', 1, 'i')

    def spec(c, ms, mc, mp):
        n = [atleast1(c, c.i(ms, 4 * i)) for i in range(3)]
        for i in range(3):
            c.set(mc, 8 * i, 'd', (n[i] - 1) * c.num(Fraction(1, 2)))
        c.set(mp, 0, 'i', n[0] * n[1] * n[2])


CORNERS = {1: [(-1, 0, 0), (1, 0, 0)], 2: [(a, b, 0) for a in (-1, 1) for b in (-1, 1)],
           3: [(a, b, d) for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)]}


def interface(c, r, rank, s, data):
    """some voxel corner has a tensor entry that differs from the centre's by more than SMALL"""
    e0 = mat(c, r, data)[0]
    cl = []
    h = c.num(Fraction(1, 2))
    for k in CORNERS[rank]:
        e = mat(c, [r[i] + s[i] * (h * k[i]) if k[i] else r[i] for i in range(3)], data)[0]
        for i in range(3):
            for j in range(i, 3):
                cl.append(c.lt(c.num(SMALL), c.fabs(e0[i][j].re - e[i][j].re)))
                if c.herm and i != j:
                    cl.append(c.lt(c.num(SMALL), c.fabs(e0[i][j].im - e[i][j].im)))
    return c.or_(*cl)


@contract('detect_interface_via_corner_check', 'maxwell_eps.c', 'P02', cfgs=HC, variants=[{'rank': i} for i in (1, 2, 3)])
class _:
    def setup(c, rank):
        r = c.array('r', 3, 'd')
        return [r, c.func('cb_eps'), c.num(rank)] + [c.real('s%d' % i, .05, .3) for i in (1, 2, 3)] + [cb_data(c)]

    def spec(c, r, eps, rank, s1, s2, s3, data):
        k = int(rank if c.mode == 'con' else rank.const_value()) if c.mode == 'con' or rank.is_const() else pick_rank(c, rank)
        c.ret(1 if c.if_(interface(c, [c.d(r, 8 * i) for i in range(3)], k, [s1, s2, s3], data)) else 0)


def pick_rank(c, rank):
    for k in (1, 2, 3):
        if c.if_(c.eq(rank, k)):
            return k
    raise Unsupported('rank')


def atleast1(c, x):
    return x if c.known(c.le(1, x)) else c.num(1) if c.known(c.le(x, 0)) else c.max(x, c.num(1))


def mesh_avg(c, r, ms, m, data, f):
    """mean of f(eps, eps_inv) (list of values) over the averaging mesh of the voxel at r"""
    n = [atleast1(c, x) for x in ms]
    h = c.num(Fraction(1, 2))

    def at(q):
        def g(i, j, k):
            ix = (i, j, k)
            return f(*mat(c, [r[a] + (ix[a] - (n[a] - 1) * h) * m[a] for a in range(3)], data))[q]
        return c.sum(n[0], lambda i: c.sum(n[1], lambda j: c.sum(n[2], lambda k: g(i, j, k))))
    nq = len(f(*mat(c, r, data)))
    pi = 1 / (n[0] * n[1] * n[2])
    return [at(q) * pi for q in range(nq)]


def flat(c, M):
    """independent real entries"""
    out = [M[i][i].re for i in range(3)]
    for o in offdiag(M):
        out += [o.re, o.im] if c.herm else [o.re]
    return out


def unflat(c, v):
    z = c.num(0)
    if c.herm:
        return herm_of(c, v[:3], [Cx(v[3], v[4]), Cx(v[5], v[6]), Cx(v[7], v[8])])
    return herm_of(c, v[:3], [Cx(v[3], z), Cx(v[4], z), Cx(v[5], z)])


@contract('average_eps_inv_over_mesh', 'maxwell_eps.c', 'P02', cfgs=HC, static=True, variants=[{'below': b} for b in range(8)])
class _:
    """mean of the inverse tensor over the mesh points of a voxel"""
    def setup(c, below):
        ms = c.array('mesh_size', 3, 'i')
        n = []
        for i in range(3):
            v = c.int('ms%d' % i, None if c.mode == 'sym' else -2, 0, hard_hi=True) if below >> i & 1 else c.int('ms%d' % i, 1, 3)
            c.poke(ms, 4 * i, 'i', v)
            n.append(atleast1(c, v))
        mc = c.array('mesh_center', 3, 'd')
        for i in range(3):
            c.poke(mc, 8 * i, 'd', (n[i] - 1) * c.num(Fraction(1, 2)))
        r = c.array('r', 3, 'd')
        ret = [c.struct('result', 'symmetric_matrix')]
        return ret + [r, c.func('cb_eps'), ms, mc] + [c.real('m%d' % i) for i in (1, 2, 3)] + [1 / (n[0] * n[1] * n[2]) if c.mode == 'sym' else 1.0 / (n[0] * n[1] * n[2]), cb_data(c)]

    def spec(c, res, r, eps, ms, mc, m1, m2, m3, pinv, data):
        v = mesh_avg(c, [c.d(r, 8 * i) for i in range(3)], [c.i(ms, 4 * i) for i in range(3)], [m1, m2, m3], data, lambda e, ei: flat(c, ei))
        put_sym(c, res, unflat(c, v))


# ---------------------------------------------------------------- sampling sphere for the interface normal
NSPH = {1: 2, 2: 12, 3: 50}
RSPH = {1: Fraction(1, 2), 2: Fraction('0.7071067811865475'), 3: Fraction('0.8660254037844386')}


def grid_rank(c, nx, ny, nz):
    if c.if_(c.lt(1, nz)):
        return 3
    return 2 if c.if_(c.lt(1, ny)) else 1


def sphere(c, nx, ny, nz, rank, R, G):
    """i -> (lattice-coordinate offset vector, weight) of the i-th sampling point"""
    q = c.global_('sphere_quad', 'maxwell_eps.c')
    n = [nx, ny, nz]
    dm = c.num(0)
    for i in range(rank):
        ri = c.sqrt(R[i][0] * R[i][0] + R[i][1] * R[i][1] + R[i][2] * R[i][2]) / n[i]
        dm = c.ite(c.lt(ri, dm), dm, ri)
    f = dm * c.num(RSPH[rank])

    def at(i):
        b = q + (50 * 4 * 8) * (rank - 1) + i * 32
        v = [c.d(b, 8 * j) * f for j in range(3)]
        return [G[j][0] * v[0] + G[j][1] * v[1] + G[j][2] * v[2] for j in range(3)], c.d(b, 24)
    return at


def rank_dims(c, rank):
    lo = [2, 2, 2]
    n = []
    for i in range(3):
        if rank == 1 and c.mode == 'sym':
            n.append(c.int('n%d' % i, 1) if i == 0 else c.num(1))
        elif i < rank:
            n.append(c.int('n%d' % i, 2 if i == rank - 1 else 1, 4))
        else:
            n.append(c.num(1))
    return n


@contract('get_moment_mesh', 'maxwell_eps.c', 'P02', cfgs=('complex',), static=True, variants=[{'rank': i} for i in (1, 2, 3)], opts={'may_die': True, 'timeout': 600})
class _:
    """sampling points on a sphere around the voxel, in lattice coordinates (internal sanity checks of the point table may abort)"""
    def setup(c, rank):
        n = rank_dims(c, rank)
        return n + [c.array('R', 9, 'd'), c.array('G', 9, 'd'), c.array('mm', 150, 'd'), c.array('mw', 50, 'd'), c.array('size', 1, 'i')]

    def spec(c, nx, ny, nz, R, G, mm, mw, sz):
        rank = grid_rank(c, nx, ny, nz)
        at = sphere(c, nx, ny, nz, rank, rd33(c, R), rd33(c, G))
        n = NSPH[rank]

        def one(i):
            v, w = at(i)
            for j in range(3):
                c.set(mm, (i * 3 + j) * 8, 'd', v[j])
            c.set(mw, i * 8, 'd', w)
        c.each(n, one)
        c.set(sz, 0, 'i', c.num(n))


# ---------------------------------------------------------------- the effective tensor of every voxel
def grid_mdata(c, rank, **kw):
    """a maxwell_data object for a grid of the given rank (fields not tied to the grid are arbitrary)"""
    if c.mode == 'con':
        r = c.rng
        lo = 1 if c.complex else 2
        n = [r.randint(1 if i < rank - 1 else max(lo, 2), 4) if i < rank else 1 for i in range(3)]
        if rank == 1 and c.complex:
            n[0] = r.randint(1, 5)
        if rank == 2:
            n[1] = max(n[1], 2)
        return c.mdata('md', 'same', 0, 2, dims=tuple(n), **kw)
    n = [c.int('nx', 1), c.int('ny', 2 if rank == 2 else 1) if rank > 1 else c.num(1), c.int('nz', 2) if rank == 3 else c.num(1)]
    if c.complex:
        od, ld = (n[0] * n[1], n[2]) if rank == 3 else ((n[0], n[1]) if rank == 2 else (c.num(1), n[0]))
        lds, fo = ld, n[0] * n[1] * n[2]
    else:
        h = c.int('half', 1)
        od, ld = (n[0] * n[1], n[2]) if rank == 3 else ((n[0], n[1]) if rank == 2 else (c.num(1), n[0]))
        lds, fo = h * 2, od * h
    a = dict(nx=n[0], ny=n[1], nz=n[2], local_nx=n[0], local_ny=n[1], local_x_start=0, local_y_start=0, last_dim=ld, last_dim_size=lds, other_dims=od,
             N=n[0] * n[1] * n[2], local_N=n[0] * n[1] * n[2], fft_output_size=fo, eps_inv=c.array('eps_inv', fo, 'symmetric_matrix'))
    a.update(kw)
    return c.struct('md', 'maxwell_data', **a)


class Grid:
    """the points of the position-space output grid: dims, index(ix), coordinates(ix)"""

    def __init__(self, c, d, rank):
        s = c.S(d, 'maxwell_data')
        self.c, self.rank = c, rank
        self.n = [s.nx, s.ny, s.nz]
        if c.complex:
            self.dims = self.n[:]
            self.index = lambda i, j, k: (i * self.n[1] + j) * self.n[2] + k
            self.coord = lambda i, j, k: [i, j, k]
        elif rank == 3:
            h = c.idiv(s.last_dim_size, 2)
            self.dims = [s.other_dims, h]
            self.index = lambda a, k: a * h + k
            self.coord = lambda a, k: [c.idiv(a, s.ny), c.imod(a, s.ny), k]
        elif rank == 2:
            h = c.idiv(s.last_dim_size, 2)
            self.dims = [s.other_dims, h]
            self.index = lambda a, k: a * h + k
            self.coord = lambda a, k: [a, k, c.num(0)]
        else:
            h = c.idiv(s.last_dim_size, 2)
            self.dims = [s.other_dims, h]
            self.index = lambda a, k: a * h + k
            self.coord = lambda a, k: [k, c.num(0), c.num(0)]

    def each(self, f):
        self.c.each(*(self.dims + [f]))

    def total(self, f):
        c, d = self.c, self.dims

        def rec(i, ix):
            if i == len(d):
                return f(*ix)
            return c.sum(d[i], lambda k: rec(i + 1, ix + [k]))
        return rec(0, [])


def a_rot(c, n):
    if c.mode == 'con':
        return rotmat(c, n)
    return [[c.fn('frame.%d%d' % (i, j), *n) for j in range(3)] for i in range(3)]


def a_rotate(c, M, R):
    if c.mode == 'con':
        return rotated(c, M, R)
    a = flat(c, M) + [R[i][j] for i in range(3) for j in range(3)]
    return unflat(c, [c.fn('rotated.%d' % i, *a) for i in range(9 if c.herm else 6)])


def a_inv(c, M):
    if c.mode == 'con':
        z = 0.0
        if is_diag(c, M):
            return herm_of(c, [1 / M[i][i].re for i in range(3)], [Cx(z, z)] * 3)
        r = 1 / det3(M)
        return [[cofactor(M, j, i) * r for j in range(3)] for i in range(3)]
    a = flat(c, M)
    return unflat(c, [c.fn('inverse.%d' % i, *a) for i in range(9 if c.herm else 6)])


def _x_rotm(eng, st, args, ins):
    return _abs(eng, st, lambda c: [c.set(args[0], 8 * (3 * i + j), 'd', v) for i, r in enumerate(a_rot(c, list(args[1:]))) for j, v in enumerate(r)])


def _abs(eng, st, f):
    c = SymC(eng, st, call=True)
    f(c)
    st.mem = c.apply(st.mem)
    return c.ret_value


def _x_rotate(eng, st, args, ins):
    return _abs(eng, st, lambda c: put_sym(c, args[0], a_rotate(c, sym33(c, args[1]), rd33(c, args[2]))))


def _x_inv(eng, st, args, ins):
    return _abs(eng, st, lambda c: put_sym(c, args[0], a_inv(c, sym33(c, args[1]))))


def a_sphere(c, nx, ny, nz, rank, R, G):
    if c.mode == 'con':
        return sphere(c, nx, ny, nz, rank, R, G)
    a = [nx, ny, nz] + [R[i][j] for i in range(rank) for j in range(3)] + [G[i][j] for i in range(3) for j in range(3)]
    return lambda i: ([c.fn('sphere%d.%d' % (rank, j), i, *a) for j in range(3)], c.fn('sphere%d.w' % rank, i))


def _x_sphere(eng, st, args, ins):
    def f(c):
        nx, ny, nz, R, G, mm, mw, sz = args
        rank = grid_rank(c, nx, ny, nz)
        at = a_sphere(c, nx, ny, nz, rank, rd33(c, R), rd33(c, G))

        def one(i):
            v, w = at(i)
            for j in range(3):
                c.set(mm, (i * 3 + j) * 8, 'd', v[j])
            c.set(mw, i * 8, 'd', w)
        c.each(NSPH[rank], one)
        c.set(sz, 0, 'i', c.num(NSPH[rank]))
    return _abs(eng, st, f)


def a_interface(c, r, rank, s, data):
    if c.mode == 'con':
        return interface(c, r, rank, s, data)
    return c.ne(P(mk_fn('interface%d' % rank, tuple(P(x) for x in list(r) + list(s)), 'int')), 0)


def _x_interface(eng, st, args, ins):
    def f(c):
        r, _, rank, s1, s2, s3, data = args
        k = int(rank.const_value()) if rank.is_const() else pick_rank(c, rank)
        g = a_interface(c, [c.d(r, 8 * i) for i in range(3)], k, [s1, s2, s3], data)
        c.ret(ite(g, ONE, ZERO))
    return _abs(eng, st, f)


ABS = {'detect_interface_via_corner_check': _x_interface, 'get_moment_mesh': _x_sphere, 'maxwell_rotation_matrix': _x_rotm, 'maxwell_sym_matrix_rotate': _x_rotate, 'maxwell_sym_matrix_invert': _x_inv}


def tau(c, e):
    """Kottke's map of a tensor in interface coordinates"""
    i = 1 / e[0][0].re
    z = c.num(0)
    return ([-i, e[1][1].re - e[0][1].abs2() * i, e[2][2].re - e[0][2].abs2() * i],
            [e[0][1] * i, e[0][2] * i, e[1][2] - e[0][2] * e[0][1].conj() * i])


def tau_inverse(c, t):
    i = 1 / t[0][0].re
    return herm_of(c, [-i, t[1][1].re - t[0][1].abs2() * i, t[2][2].re - t[0][2].abs2() * i],
                   [t[0][1] * (-i), t[0][2] * (-i), t[1][2] - t[0][2] * t[0][1].conj() * i])


def sym_ite(c, g, A, B):
    """entrywise choice between two lists"""
    return [c.ite(g, a, b) for a, b in zip(A, B)]


def voxel(c, r, s, ms, rank, sph, R, data, has_mean):
    """list of the independent entries of the effective inverse tensor of the voxel centred at r with sides s"""
    n = [atleast1(c, x) for x in ms]
    m = [s[i] / n[i] for i in range(3)]
    pi = 1 / (n[0] * n[1] * n[2])
    e, einv = mat(c, r, data)
    point = flat(c, einv)
    con = c.mode == 'con'
    one = c.eq(n[0] * n[1] * n[2], 1)
    if con and one:
        return point
    if has_mean:
        ok, em = mean(c, r, s, pi, data)
        if con and ok:
            return flat(c, a_inv(c, em))
        inv_mean = flat(c, a_inv(c, em))
    ifc = a_interface(c, r, rank, s, data)
    if con and not ifc:
        return point
    # normal = direction of the dipole moment of the trace over the sampling sphere, in cartesian coordinates
    def dip(q):
        def term(i):
            v, w = sph(i)
            t = mat(c, [r[a] + v[a] for a in range(3)], data)[0]
            return (t[0][0].re + t[1][1].re + t[2][2].re) * w * v[q]
        return c.sum(c.num(NSPH[rank]), term)
    mo = [dip(q) for q in range(3)]
    nv = [R[0][q] * mo[0] + R[1][q] * mo[1] + R[2][q] * mo[2] for q in range(3)]
    ln = c.sqrt(nv[0] * nv[0] + nv[1] * nv[1] + nv[2] * nv[2])
    known = c.lt(c.num(SMALL), ln)
    plain = None
    if not con or not known:
        plain = mesh_avg(c, r, ms, m, data, lambda e, ei: flat(c, ei))
        if con:
            return plain
    il = 1 / ln
    Rot = a_rot(c, [x * il for x in nv])

    def ft(e, ei):
        dd, oo = tau(c, a_rotate(c, e, Rot))
        out = list(dd)
        for o in oo:
            out += [o.re, o.im] if c.herm else [o.re]
        return out
    t = unflat(c, mesh_avg(c, r, ms, m, data, ft))
    back = a_rotate(c, tau_inverse(c, t), [[Rot[j][i] for j in range(3)] for i in range(3)])
    kott = flat(c, a_inv(c, back))
    if con:
        return kott
    v = sym_ite(c, ifc, sym_ite(c, known, kott, plain), point)
    if has_mean:
        v = sym_ite(c, c.ne(ok, 0), inv_mean, v)
    return sym_ite(c, one, point, v)


def dielectric_spec(c, md, ms, R, G, data, has_mean, rank, dest, mean_field):
    s_ = c.S(md, 'maxwell_data')
    n = [s_.nx, s_.ny, s_.nz]
    s = [1 / x for x in n]
    Rm = rd33(c, R)
    sph = a_sphere(c, n[0], n[1], n[2], rank, Rm, rd33(c, G))
    msz = [c.i(ms, 4 * i) for i in range(3)]
    g = Grid(c, md, rank)
    es = c.fsize('symmetric_matrix')

    def val(*ix):
        x = g.coord(*ix)
        return voxel(c, [x[a] * s[a] for a in range(3)], s, msz, rank, sph, Rm, data, has_mean)
    val = c.cached(val)
    g.each(lambda *ix: put_sym(c, dest + g.index(*ix) * es, unflat(c, val(*ix))))
    tot = g.total(lambda *ix: sum(val(*ix)[1:3], val(*ix)[0]))
    c.set_field(md, 'maxwell_data', mean_field, tot / (s_.fft_output_size * 3))


def eps_setup(c, rank, mean, mesh, **kw):
    md = grid_mdata(c, rank, **kw)
    ms = c.array('mesh_size', 3, 'i')
    for i in range(3):
        c.poke(ms, 4 * i, 'i', c.num(1) if mesh == 'one' else c.num(0) if mesh == 'below' and i == 0 else c.int('ms%d' % i, 1, 3))
    R, G = c.array('R', 9, 'd'), c.array('G', 9, 'd')
    if c.mode == 'con':
        import numpy
        A = numpy.eye(3) + numpy.array([[c.rng.uniform(-.4, .4) for _ in range(3)] for _ in range(3)])
        B = numpy.linalg.inv(A).T
        for i in range(9):
            c.poke(R, 8 * i, 'd', float(A[i // 3][i % 3]))
            c.poke(G, 8 * i, 'd', float(B[i // 3][i % 3]))
    return md, ms, R, G, c.func('cb_eps'), (c.func('cb_mean') if mean else c.null()), cb_data(c)


@contract('set_maxwell_dielectric', 'maxwell_eps.c', 'P02', cfgs=('complex', 'herm', 'inv'),
          variants=[dict(rank=r, mean=m, mesh='any') for r in (1, 2, 3) for m in (0, 1)] + [dict(rank=3, mean=1, mesh='one'), dict(rank=1, mean=0, mesh='below')],
          opts={'externals': ABS, 'may_die': True, 'timeout': 600})
class _:
    """every voxel: exact tensor for a 1x1x1 mesh; else inverse of the callback's mean; else by interface detection Kottke's average, the plain mean, or the centre"""
    def setup(c, rank, mean, mesh):
        return eps_setup(c, rank, mean, mesh)

    def spec(c, md, ms, R, G, eps, mean, data):
        s = c.S(md, 'maxwell_data')
        rank = grid_rank(c, s.nx, s.ny, s.nz)
        dielectric_spec(c, md, ms, R, G, data, not c.if_(c.isnull(mean)), rank, s.eps_inv, 'eps_inv_mean')


@contract('set_maxwell_mu', 'maxwell_eps.c', 'P02', cfgs=('complex', 'herm', 'inv'), variants=[dict(rank=r, mean=m, have=h) for r, m, h in ((1, 0, 0), (2, 1, 1), (3, 1, 0), (3, 0, 1))],
          opts={'externals': ABS, 'may_die': True, 'timeout': 600})
class _:
    """the same averages go to mu_inv (allocated when absent) and mu_inv_mean; eps_inv and eps_inv_mean keep their values"""
    def setup(c, rank, mean, have):
        md, ms, R, G, e, m, d = eps_setup(c, rank, mean, 'any')
        fo = c.S(md, 'maxwell_data').fft_output_size
        c.poke_field(md, 'maxwell_data', 'mu_inv', c.array('mu_inv', fo, 'symmetric_matrix') if have else c.null())
        return md, ms, R, G, e, m, d

    def spec(c, md, ms, R, G, mu, mean, data):
        s = c.S(md, 'maxwell_data')
        rank = grid_rank(c, s.nx, s.ny, s.nz)
        dest = s.mu_inv
        if c.if_(c.isnull(dest)):
            dest = c.malloc(s.fft_output_size * c.fsize('symmetric_matrix'))
            c.set_field(md, 'maxwell_data', 'mu_inv', dest)
        dielectric_spec(c, md, ms, R, G, data, not c.if_(c.isnull(mean)), rank, dest, 'mu_inv_mean')
