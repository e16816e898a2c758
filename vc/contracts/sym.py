"""overlaps of a field with its image under a symmetry operation"""
from contract import *
from common import *
from lemma import lemma
from pt import *
from pt import LATTICE, V3


def m3(c, p):
    """matrix3x3 by rows (libctl stores columns)"""
    return [[c.d(p, 24 * j + 8 * i) for j in range(3)] for i in range(3)]


def put3(c, p, M):
    for j in range(3):
        for i in range(3):
            c.set(p, 24 * j + 8 * i, 'd', M[i][j])


def mul3(A, B, c=None):
    if c is not None and c.mode == 'sym':
        a = [x for M in (A, B) for r in M for x in r]
        return [[c.fn('mul3.%d%d' % (i, j), *a) for j in range(3)] for i in range(3)]
    return [[sum((A[i][k] * B[k][j] for k in range(3)), A[i][0] * 0) for j in range(3)] for i in range(3)]


def vec3(A, v):
    return [A[i][0] * v[0] + A[i][1] * v[1] + A[i][2] * v[2] for i in range(3)]


def det33(M, c=None):
    if c is not None and c.mode == 'sym':
        return c.fn('det3', *[x for r in M for x in r])
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def inv3(c, M):
    if c.mode == 'con':
        d = det33(M)
        cf = lambda i, j: M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3]
        return [[cf(j, i) / d for j in range(3)] for i in range(3)]
    a = [x for r in M for x in r]
    return [[c.fn('inv3.%d%d' % (i, j), *a) for j in range(3)] for i in range(3)]


def _lib(f):
    """an external function of libctl: writes its result through the first argument"""
    def h(eng, st, a, ins):
        c = SymC(eng, st, call=True)
        r = f(c, *a)
        st.mem = c.apply(st.mem)
        return r
    return h


def rdv(c, a):
    """vector3 argument: pointer to it"""
    return V3(c, a)


LIBCTL = {
    'matrix3x3_determinant': _lib(lambda c, M: det33(m3(c, M), c)),
    'matrix3x3_inverse': _lib(lambda c, out, M: put3(c, out, inv3(c, m3(c, M)))),
    'matrix3x3_mult': _lib(lambda c, out, A, B: put3(c, out, mul3(m3(c, A), m3(c, B), c))),
    'matrix3x3_vector3_mult': _lib(lambda c, out, A, v: [c.set(out, 8 * i, 'd', x) for i, x in enumerate(vec3(m3(c, A), V3(c, v)))] and None),
    'vector3_minus': _lib(lambda c, out, a, b: [c.set(out, 8 * i, 'd', V3(c, a)[i] - V3(c, b)[i]) for i in range(3)] and None),
}


def _x_bfp(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    put_cv(c, a[0], bloch_vec(c, a[1]))
    st.mem = c.apply(st.mem)


def H_(c):
    return c.S(c.global_('H', 'fields.c'), 'evectmatrix')


def vol(c):
    return c.d(c.global_('Vol', 'fields.c'), 0)


def sym_world(c, t, mu):
    world_setup(c, k=True)
    B = c.global_('geometry_lattice', 'fields.c') + LATTICE['basis']
    if c.mode == 'con':
        d = c.mdata('d', 'same', mu, 1)
        s = c.S(d, 'maxwell_data')
        f = c.array('curfield', s.fft_output_size * 6 + 6, 'd')
        for i in range(9):
            c.poke(B, 8 * i, 'd', (1.0 if i % 4 == 0 else 0.0) + c.rng.choice([0.0, 0.25, -0.5]))
        c.poke(c.global_('Vol', 'fields.c'), 0, 'd', c.rng.uniform(.5, 2))
    else:
        n = [c.int(x, 1) for x in ('nx', 'ny', 'nz')]
        d = c.struct('d', 'maxwell_data', nx=n[0], ny=n[1], nz=n[2], last_dim_size=c.int('last_dim_size', 2), fft_output_size=n[0] * n[1] * n[2],
                     eps_inv=c.array('eps_inv', 0, 'symmetric_matrix'), mu_inv=c.array('mu_inv', 0, 'symmetric_matrix') if mu else NULL)
        f = c.array('curfield', 0, 'd')
        for i in range(9):
            c.poke(B, 8 * i, 'd', c.real('B%d' % i))
        c.poke(c.global_('Vol', 'fields.c'), 0, 'd', c.real('Vol'))
    N = c.int('H_N', 1) if c.mode == 'sym' else c.rng.randint(1, 9)
    c.poke_field(c.global_('H', 'fields.c'), 'evectmatrix', 'N', N)
    c.poke(c.global_('mdata', 'fields.c'), 0, 'p', d)
    c.poke(c.global_('curfield', 'fields.c'), 0, 'p', f)
    c.poke(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord(t)))
    return d, f


def con_op(c, p):
    """a signed permutation (sometimes not a symmetry at all)"""
    r = c.rng
    q = [0, 1, 2]
    r.shuffle(q)
    for i in range(9):
        c.poke(p, 8 * i, 'd', 0.0)
    for j in range(3):
        c.poke(p, 24 * j + 8 * q[j], 'd', r.choice([1.0, -1.0]))
    if r.random() < .3:
        c.poke(p, 8 * r.randrange(9), 'd', r.choice([1.0, 0.5, -1.0]))
    return p


@contract('transformed_overlap', 'transform.c', 'P18', cfgs=('complex', 'herm', 'inv'), variants=[dict(t=t, mu=m) for t, m in (('d', 0), ('b', 0), ('b', 1), ('e', 0), ('h', 1))],
          opts=dict(externals=dict(LIBCTL, get_bloch_field_point_=_x_bfp), timeout=500, may_only_die=True))
class _:
    """Vol/N sum_p conj(F(p)) . (Wc F'(W^-1 (p - w))) exp(i k.(W^-1(p - w) - p)), F' the loaded D or B and F the matching E or H;
    for B times det W, since B is a pseudovector.  Without a loaded D or B, or with |det W| != 1, the result is 0;
    the build for inversion symmetry, which stores half of the cell, refuses"""
    def setup(c, t, mu):
        sym_world(c, t, mu)
        W = c.struct('W', 'matrix3x3') if c.mode == 'sym' else con_op(c, c.struct('W', 'matrix3x3'))
        w = point_setup(c, 'w')
        return [W, w]

    def spec(c, W, w):
        t = ctype(c)
        z = c.num(0)
        M, tr = m3(c, W), V3(c, w)
        if t not in 'db':
            return c.ret((z, z))
        c.dies_if(not c.complex)        # not implemented there, and refused
        D = det33(M, c)
        tol = Fraction(1, 10 ** 12) if c.mode == 'sym' else 1e-12
        if c.if_(c.lt(tol, c.fabs(c.fabs(D) - 1))):
            return c.ret((z, z))
        d = c.p(c.global_('mdata', 'fields.c'), 0)
        m = MD(c, d)
        n = [m.s.nx, m.s.ny, m.s.nz]
        f = c.p(c.global_('curfield', 'fields.c'), 0)
        size = lattice_size(c)
        R = m3(c, c.global_('geometry_lattice', 'fields.c') + LATTICE['basis'])
        Wi = inv3(c, M)
        Wc = mul3(mul3(R, M, c), inv3(c, R), c)
        half = Fraction(1, 2) if c.mode == 'sym' else 0.5
        off = [c.ite(c.le(a, 1), z, s * half) for a, s in zip(n, size)]
        k = cur_k(c)
        lds = m.lds

        def term(i1, i2, i3):
            p = [i * s / a - o for i, s, a, o in zip((i1, i2, i3), size, n, off)]
            q = vec3(Wi, [a - b for a, b in zip(p, tr)])
            if c.mode == 'con':
                G = [Cx(interp(c, q, n, lds, f + 16 * e, c.num(6), 0, size), interp(c, q, n, lds, f + 16 * e + 8, c.num(6), 1, size)) for e in range(3)]
            else:
                G = [Cx(c.fn('interp:' + f.obj, *(q + n + [lds, c.num(6), c.num(0), f.off + 16 * e])),
                        c.fn('interp:' + f.obj, *(q + n + [lds, c.num(6), c.num(1), f.off + 16 * e + 8]))) for e in range(3)]
            G = [G[0] * Wc[i][0] + G[1] * Wc[i][1] + G[2] * Wc[i][2] for i in range(3)]
            x = (i1 * n[1] + i2) * n[2] + i3
            F = [c.zc(f, 3 * x + e) for e in range(3)]
            if t == 'd':
                F = matvec(c, m.tens(m.s.eps_inv, x), F)
            elif not c.if_(c.isnull(m.s.mu_inv)):
                F = matvec(c, m.tens(m.s.mu_inv, x), F)
            v = F[0].conj() * G[0] + F[1].conj() * G[1] + F[2].conj() * G[2]
            ph = c.pi * 2 * sum(((k[e] / size[e]) * (q[e] - p[e]) for e in range(3)), z)
            return v * Cx(c.cos(ph), c.sin(ph))
        s = c.csum(n[0], lambda i: c.csum(n[1], lambda j: c.csum(n[2], lambda l: term(i, j, l))))
        s = s * (vol(c) / H_(c).N)
        if t == 'b':
            s = s * D
        c.ret((s.re, s.im))


def band_cell(c):
    return c.global_('curfield_band', 'fields.c')


def a_overlap(c, W, w):
    a = [c.rd(c.global_('curfield_type', 'fields.c'), 0, 'b'), c.i(band_cell(c))] + [c.d(W, 8 * i) for i in range(9)] + V3(c, w)
    return c.fn('overlap.re', *a), c.fn('overlap.im', *a)


def load_b(c, band):
    c.set(band_cell(c), 0, 'i', band)
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord('b')))


def _x_get_bfield(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    load_b(c, a[0])
    st.mem = c.apply(st.mem)


def _x_overlap(eng, st, a, ins):
    return a_overlap(SymC(eng, st, call=True), a[0], a[1])


EXT_O = {'get_bfield': _x_get_bfield, 'transformed_overlap': _x_overlap}


@contract('compute_symmetry', 'transform.c', 'P18', cfgs=('complex',), samples=0, opts=dict(externals=EXT_O))
class _:
    """the overlap of the requested band's B field with its image"""
    def setup(c):
        return [c.int('band'), c.struct('W', 'matrix3x3'), c.struct('w', 'vector3')]

    def spec(c, band, W, w):
        load_b(c, band)
        a = [c.num(ord('b')), band] + [c.d(W, 8 * i) for i in range(9)] + V3(c, w)
        c.ret((c.fn('overlap.re', *a), c.fn('overlap.im', *a)))


def _x_symm(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    v = [a[0]] + [c.d(a[1], 8 * i) for i in range(9)] + V3(c, a[2])
    return c.fn('symm.re', *v), c.fn('symm.im', *v)


@contract('compute_symmetries', 'transform.c', 'P18', cfgs=('complex',), samples=0, opts=dict(externals={'compute_symmetry': _x_symm}))
class _:
    """one overlap per band, in the order of the bands"""
    def setup(c):
        c.poke(c.global_('num_bands', 'transform.c'), 0, 'i', c.int('nb', 1))
        return [c.struct('W', 'matrix3x3'), c.struct('w', 'vector3')]

    def spec(c, W, w):
        n = c.i(c.global_('num_bands', 'transform.c'))
        out = c.malloc(n * 16)
        a = [c.d(W, 8 * i) for i in range(9)] + V3(c, w)

        def one(b):
            c.set(out, 16 * b, 'd', c.fn('symm.re', b + 1, *a))
            c.set(out, 16 * b + 8, 'd', c.fn('symm.im', b + 1, *a))
        c.each(n, one)
        c.ret((n, out))
