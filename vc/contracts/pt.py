"""fields evaluated at an arbitrary point"""
from contract import *
from common import *
from lemma import lemma
from eps import sym33, sym_setup, herm_of, eig3, eig3_info


# the lattice type of the generated ctl-io.h (no debug information where it is only declared)
LATTICE = dict(basis1=0, basis2=24, basis3=48, size=72, basis_size=96, b1=120, b2=144, b3=168, basis=192, metric=264)


def V3(c, p):
    s = c.S(p, 'vector3')
    return [s.x, s.y, s.z]


def lattice_size(c):
    return V3(c, c.global_('geometry_lattice', 'fields.c') + LATTICE['size'])


def cur_k(c):
    return V3(c, c.global_('cur_kvector', 'fields.c'))


def world_setup(c, size=True, k=False):
    """the library's globals that hold vectors"""
    G = c.global_('geometry_lattice', 'fields.c') + LATTICE['size']
    K = c.global_('cur_kvector', 'fields.c')
    for i in range(3):
        s = c.real('size%d' % i, nonzero=True) if c.mode == 'sym' else c.rng.choice([1.0, 1.0, 2.0, 0.5, 3.0])
        c.poke(G, 8 * i, 'd', s)
        if k:
            c.poke(K, 8 * i, 'd', c.real('curk%d' % i) if c.mode == 'sym' else c.rng.choice([0.0, 0.25, 0.5, -0.3]))


def point_setup(c, name='p'):
    if c.mode == 'sym':
        return c.struct(name, 'vector3')
    p = c.struct(name, 'vector3')
    for w in 'xyz':
        c.poke_field(p, 'vector3', w, c.rng.choice([0.0, 0.5, -0.5, 0.25, 1.25, -0.75, c.rng.uniform(-2, 2), c.rng.uniform(-2, 2)]))
    return p


def half_dim(c, n, lds):
    """(axis, number of stored points) of the axis of which only part is stored"""
    ax = 2 if c.if_(c.lt(1, n[2])) else 1 if c.if_(c.lt(1, n[1])) else 0
    return ax, c.idiv(lds, 2)


def grid_val(c, ix, n, lds, data, stride, conj):
    """value at grid point ix of an n[0] x n[1] x n[2] grid; points that are not stored are the images under inversion of
    stored ones, where an imaginary part (conj) has the opposite sign"""
    ix, n = list(ix), list(n)
    sg = 1
    if not c.complex:
        ax, nl = half_dim(c, n, lds)
        if c.if_(c.le(nl, ix[ax])):
            ix = [c.num(0) if c.if_(c.eq(i, 0)) else m - i for i, m in zip(ix, n)]
            if c.if_(c.ne(conj, 0)):
                sg = -1
        n[ax] = nl
    return c.d(data, ((ix[0] * n[1] + ix[1]) * n[2] + ix[2]) * stride * 8) * sg


def a_val(c, ix, n, lds, data, stride, conj):
    if c.mode == 'con':
        return grid_val(c, ix, n, lds, data, stride, conj)
    a = list(ix) + list(n) + [lds, stride, conj, data.off]
    return c.fn('grid_val:' + data.obj, *a)


def _x_get_val(eng, st, args, ins):
    c = SymC(eng, st, call=True)
    return a_val(c, args[0:3], args[3:6], args[6], args[7], args[8], args[9])


def grid_dims(c):
    n = [c.int(x, 1, 4) for x in ('nx', 'ny', 'nz')]
    if c.mode == 'con':
        n = [c.rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        if c.rng.random() < .3:
            n[2] = 1
    return n


def con_data(c, n, stride):
    """a real array big enough for strided data on the grid (concrete samples)"""
    return c.array('data', (n[0] + 1) * (n[1] + 1) * (n[2] + 2) * stride + 8 if c.mode == 'con' else 0, 'd')


def con_lds(c, n):
    if c.mode == 'sym':
        return c.int('last_dim_size', 2)
    last = n[2] if n[2] > 1 else n[1] if n[1] > 1 else n[0]
    return 2 * (last // 2 + 1) if not c.complex else last


@contract('get_val', 'fields.c', 'P13', static=True)
class _:
    """the value stored for a grid point, or its image when only half of the cell is stored"""
    def setup(c):
        n = grid_dims(c)
        ix = [c.int(x, 0) if c.mode == 'sym' else c.rng.randrange(m) for x, m in zip(('ix', 'iy', 'iz'), n)]
        if c.mode == 'sym':
            for i, m in zip(ix, n):
                c.assume(c.lt(i, m))
        stride = c.int('stride', 1, 6)
        return ix + n + [con_lds(c, n), con_data(c, n, stride), stride, c.int('conjugate', 0, 1)]

    def spec(c, ix, iy, iz, nx, ny, nz, lds, data, stride, conj):
        c.ret(grid_val(c, [ix, iy, iz], [nx, ny, nz], lds, data, stride, conj))


def frac(c, x):
    """x - floor(x)"""
    t = x - c.trunc(x)
    return t + 1 if c.if_(c.lt(t, 0)) else t


def weights(c, p, n, size):
    """periodic trilinear interpolation; the cell is centred on the origin: (grid point, weight) of the eight neighbours"""
    lo, hi, w = [], [], []
    for q in range(3):
        r = frac(c, p[q] / size[q] + c.num(Fraction(1, 2) if c.mode == 'sym' else 0.5)) * n[q]
        i = c.trunc(r)
        lo.append(i)
        hi.append(c.imod(i + 1 + n[q], n[q]))
        w.append(r - i)
    return [([(lo, hi)[t][q] for q, t in enumerate(k)], wt) for k, wt in tri(c, w)]


def tri(c, w):
    """the eight trilinear weights of the corners k of a cell, from the offsets w within the cell"""
    out = []
    for k in [(a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)]:
        wt = c.num(1)
        for q, t in enumerate(k):
            wt = wt * (w[q] if t else 1 - w[q])
        out.append((k, wt))
    return out


def interp(c, p, n, lds, data, stride, conj, size):
    t = c.num(0)
    for ix, wt in weights(c, p, n, size):
        t = t + a_val(c, ix, n, lds, data, stride, conj) * wt
    return t


@contract('interp_val', 'fields.c', 'P13', static=True, opts=dict(externals={'get_val': _x_get_val}))
class _:
    """trilinear interpolation of the eight surrounding grid values, periodic in the lattice"""
    def setup(c):
        world_setup(c)
        n = grid_dims(c)
        stride = c.int('stride', 1, 6)
        return [point_setup(c)] + n + [con_lds(c, n), con_data(c, n, stride), stride, c.int('conjugate', 0, 1)]

    def spec(c, p, nx, ny, nz, lds, data, stride, conj):
        c.ret(interp(c, V3(c, p), [nx, ny, nz], lds, data, stride, conj, lattice_size(c)))


# ------------------------------------------------------------------ the stored fields

def a_interp(c, p, n, lds, data, stride, conj):
    if c.mode == 'con':
        return interp(c, V3(c, p), n, lds, data, stride, conj, lattice_size(c))
    return c.fn('interp:' + data.obj, *(V3(c, p) + list(n) + [lds, stride, conj, data.off]))


def _x_interp(eng, st, args, ins):
    c = SymC(eng, st, call=True)
    return a_interp(c, args[0], args[1:4], args[4], args[5], args[6], args[7])


def c_interp(c, p, n, lds, data, stride):
    return Cx(a_interp(c, p, n, lds, data, stride, c.num(0)), a_interp(c, p, n, lds, data + 8, stride, c.num(1)))


@contract('interp_cval', 'fields.c', 'P13', static=True, opts=dict(externals={'interp_val': _x_interp}))
class _:
    """real and imaginary parts are interpolated separately; only the imaginary part changes sign under inversion"""
    def setup(c):
        world_setup(c)
        n = grid_dims(c)
        stride = c.int('stride', 2, 6)
        return [point_setup(c)] + n + [con_lds(c, n), con_data(c, n, stride), stride]

    def spec(c, p, nx, ny, nz, lds, data, stride):
        v = c_interp(c, p, [nx, ny, nz], lds, data, stride)
        c.ret((v.re, v.im))


EXT_I = {'interp_val': _x_interp}
EXT_C = {'interp_val': _x_interp, 'interp_cval': lambda eng, st, a, ins: (lambda v: (v.re, v.im))(c_interp(SymC(eng, st, call=True), a[0], a[1:4], a[4], a[5], a[6]))}


def make_cnumber(eng, st, a, ins):
    return (a[0], a[1])


EXT_C['make_cnumber'] = make_cnumber


def field_world(c, type_, elems, k=True):
    """the library state after a field has been loaded: mdata, curfield (elems reals per point) and its type"""
    world_setup(c, k=k)
    if c.mode == 'con':
        d = c.mdata('d', 'same', 0, 1)
        s = c.S(d, 'maxwell_data')
        n = s.fft_output_size * elems + elems
        f = c.array('curfield', n, 'd')
    else:
        n = grid_dims(c)
        d = c.struct('d', 'maxwell_data', nx=n[0], ny=n[1], nz=n[2], last_dim_size=c.int('last_dim_size', 2))
        f = c.array('curfield', 0, 'd')
    c.poke(c.global_('mdata', 'fields.c'), 0, 'p', d)
    c.poke(c.global_('curfield', 'fields.c'), 0, 'p', f)
    c.poke(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord(type_)))
    return d, f


def md(c):
    """(dims, last_dim_size) of the grid"""
    d = c.p(c.global_('mdata', 'fields.c'), 0)
    s = c.S(d, 'maxwell_data')
    return [s.nx, s.ny, s.nz], s.last_dim_size


def ctype(c):
    v = c.rd(c.global_('curfield_type', 'fields.c'), 0, 'b')
    return chr(int(v) & 255 if c.mode == 'con' else int(v.const_value()) & 255)


def bloch_phase(c, p):
    k, s, x = cur_k(c), lattice_size(c), V3(c, p)
    ph = (k[0] * (x[0] / s[0]) + k[1] * (x[1] / s[1]) + k[2] * (x[2] / s[2])) * TWOPI(c)
    return Cx(c.cos(ph), c.sin(ph))


def TWOPI(c):
    return c.pi * 2


def put_cv(c, out, v):
    for q in range(3):
        c.set(out, 16 * q, 'd', v[q].re)
        c.set(out, 16 * q + 8, 'd', v[q].im)


def bloch_vec(c, p):
    n, lds = md(c)
    f = c.p(c.global_('curfield', 'fields.c'), 0)
    return [c_interp(c, p, n, lds, f + 16 * q, c.num(6)) for q in range(3)]


VT = [dict(t=t) for t in 'dhbecvDR-']


@contract('get_bloch_field_point_', 'fields.c', 'P13', variants=VT, opts=dict(externals=EXT_C, may_only_die=True))
class _:
    """the three interpolated components of the loaded vector field; it is an error if no vector field is loaded"""
    def setup(c, t):
        field_world(c, t, 6)
        return [c.array('field', 6, 'd'), point_setup(c)]

    def spec(c, field, p):
        c.dies_if(ctype(c) not in 'dhbecv')
        put_cv(c, field, bloch_vec(c, p))


@contract('get_bloch_field_point', 'fields.c', 'P13', variants=VT[:6], opts=dict(externals=EXT_C))
class _:
    def setup(c, t):
        field_world(c, t, 6)
        return [c.array('result', 6, 'd'), point_setup(c)]

    def spec(c, out, p):
        put_cv(c, out, bloch_vec(c, p))


@contract('get_field_point', 'fields.c', 'P13', variants=VT[:6], opts=dict(externals=EXT_C))
class _:
    """the interpolated Bloch field times exp(i k.r) (no phase for fields without wavevector)"""
    def setup(c, t):
        field_world(c, t, 6)
        return [c.array('result', 6, 'd'), point_setup(c)]

    def spec(c, out, p):
        v = bloch_vec(c, p)
        if ctype(c) != 'v':
            ph = bloch_phase(c, p)
            v = [x * ph for x in v]
        put_cv(c, out, v)


def bloch_scalar(c, p):
    n, lds = md(c)
    return c_interp(c, p, n, lds, c.p(c.global_('curfield', 'fields.c'), 0), c.num(2))


@contract('get_bloch_cscalar_point', 'fields.c', 'P13', variants=[dict(t='C'), dict(t='d')], opts=dict(externals=EXT_C, may_only_die=True))
class _:
    def setup(c, t):
        field_world(c, t, 2)
        return [point_setup(c)]

    def spec(c, p):
        c.dies_if(ctype(c) != 'C')
        v = bloch_scalar(c, p)
        c.ret((v.re, v.im))


@contract('get_cscalar_point', 'fields.c', 'P13', variants=[dict(t='C'), dict(t='d')], opts=dict(externals=EXT_C, may_only_die=True))
class _:
    def setup(c, t):
        field_world(c, t, 2)
        return [point_setup(c)]

    def spec(c, p):
        c.dies_if(ctype(c) != 'C')
        v = bloch_scalar(c, p) * bloch_phase(c, p)
        c.ret((v.re, v.im))


@contract('get_energy_point', 'fields.c', 'P13', variants=[dict(t=t) for t in 'DHBRd'], opts=dict(externals=EXT_C, may_only_die=True))
class _:
    def setup(c, t):
        field_world(c, t, 1)
        return [point_setup(c)]

    def spec(c, p):
        c.dies_if(ctype(c) not in 'DHBR')
        n, lds = md(c)
        c.ret(a_interp(c, p, n, lds, c.p(c.global_('curfield', 'fields.c'), 0), c.num(1), c.num(0)))


EPSI = ['m00', 'm11', 'm22']
EPSO = ['m01', 'm02', 'm12']


def interp_tensor(c, p):
    """(diagonal, off-diagonal) of the interpolated inverse permittivity tensor"""
    n, lds = md(c)
    e = c.S(c.p(c.global_('mdata', 'fields.c'), 0), 'maxwell_data').eps_inv
    st = c.num(c.fsize('symmetric_matrix') // 8)
    f = lambda m: e + c.lay.field('symmetric_matrix', m)[0]
    z = c.num(0)
    dg = [a_interp(c, p, n, lds, f(m), st, c.num(0)) for m in EPSI]
    if c.herm:
        return dg, [c_interp(c, p, n, lds, f(m), st) for m in EPSO]
    return dg, [Cx(a_interp(c, p, n, lds, f(m), st, c.num(0)), z) for m in EPSO]


def mean_eps(c, M):
    """2 / (sum of the two lower eigenvalues): the largest one belongs to the harmonic mean"""
    c.dies_if(c.ne(eig3_info(c, M), 0))
    e = eig3(c, M)
    return c.num(2) / (e[0] + e[1])


@contract('mean_medium_from_matrix', 'fields.c', 'P12 P13', cfgs=('complex', 'herm'))
class _:
    """the mean permittivity of an averaged inverse tensor"""
    def setup(c):
        return [sym_setup(c, 'V')]

    def spec(c, V):
        c.ret(mean_eps(c, sym33(c, V)))


def eps_world(c):
    d, f = field_world(c, 'n', 1, k=False)
    if c.mode == 'sym':
        c.poke_field(d, 'maxwell_data', 'eps_inv', c.array('eps_inv', 0, 'symmetric_matrix'))


def make_hermitian(eng, st, a, ins):
    """libctl: out = [[m00, m01, m02], [m01*, m11, m12], [m02*, m12*, m22]] by columns"""
    c = SymC(eng, st, call=True)
    out, d, o = a[0], a[1:4], a[4:]
    q = cnumbers(c, o)
    put_herm(c, out, d, q)
    st.mem = c.apply(st.mem)
    return None


def cnumbers(c, a):
    """complex arguments, each in two registers or in memory"""
    out, a = [], list(a)
    while a:
        x = a.pop(0)
        if isinstance(x, tuple):
            out.append(Cx(x[0], x[1]))
        elif isinstance(x, Ptr):
            out.append(Cx(c.d(x, 0), c.d(x, 8)))
        else:
            out.append(Cx(x, a.pop(0)))
    return out


def put_herm(c, out, d, o):
    z = c.num(0)
    M = [[Cx(d[0], z), o[0], o[1]], [o[0].conj(), Cx(d[1], z), o[2]], [o[1].conj(), o[2].conj(), Cx(d[2], z)]]
    for j in range(3):
        for i in range(3):
            c.set(out, 48 * j + 16 * i, 'd', M[i][j].re)
            c.set(out, 48 * j + 16 * i + 8, 'd', M[i][j].im)


EXT_C['make_hermitian_cmatrix3x3'] = make_hermitian


@contract('get_epsilon_inverse_tensor_point', 'fields.c', 'P13', cfgs=('complex', 'inv', 'herm'), opts=dict(externals=EXT_C))
class _:
    """the interpolated inverse permittivity tensor, as a Hermitian matrix"""
    def setup(c):
        eps_world(c)
        return [c.array('result', 18, 'd'), point_setup(c)]

    def spec(c, out, p):
        d, o = interp_tensor(c, p)
        put_herm(c, out, d, o)


@contract('get_epsilon_point', 'fields.c', 'P13', cfgs=('complex', 'inv', 'herm'), opts=dict(externals=EXT_C))
class _:
    """the mean permittivity belonging to the interpolated inverse tensor"""
    def setup(c):
        eps_world(c)
        return [point_setup(c)]

    def spec(c, p):
        c.ret(mean_eps(c, herm_of(c, *interp_tensor(c, p))))


def _x_assert_smob(eng, st, a, ins):
    return a[0]


EXT_C['assert_field_smob'] = _x_assert_smob
SM = dict(RS=0, CV=1, CS=2)


def smob(c, kind, t):
    """a field object (symbolic only: the objects belong to the Scheme interpreter)"""
    world_setup(c, k=True)
    n = grid_dims(c)
    fo = c.struct('fo', 'field_smob', type=c.num(SM[kind]), type_char=c.num(ord(t)), nx=n[0], ny=n[1], nz=n[2], last_dim_size=c.int('last_dim_size', 2))
    c.poke(fo, c.lay.field('field_smob', 'f')[0], 'p', c.array('data', 0, 'd'))
    return fo


def smob_get(c, fo):
    s = c.S(fo, 'field_smob')
    f = c.p(fo, c.lay.field('field_smob', 'f')[0])
    return [s.nx, s.ny, s.nz], s.last_dim_size, f, int(s.type.const_value()), chr(int(s.type_char.const_value()))


def _smob_contract(func, kinds, phase, want, vec):
    @contract(func, 'fields.c', 'P13', variants=[dict(kind=k, t=t) for k, t in kinds], samples=0, opts=dict(externals=EXT_C, may_only_die=True))
    class _:
        def setup(c, kind, t):
            fo = smob(c, kind, t)
            return ([c.array('result', 6, 'd')] if vec else []) + [fo, point_setup(c)]

        def spec(c, *a):
            fo, p = a[-2:]
            n, lds, f, ty, t = smob_get(c, fo)
            c.dies_if(ty != want)
            if want == 0:
                c.ret(a_interp(c, p, n, lds, f, c.num(1), c.num(0)))
                return
            v = [c_interp(c, p, n, lds, f + 16 * q, c.num(6 if vec else 2)) for q in range(3 if vec else 1)]
            if phase and t not in phase:
                ph = bloch_phase(c, p)
                v = [x * ph for x in v]
            if vec:
                put_cv(c, a[0], v)
            else:
                c.ret((v[0].re, v[0].im))
    return _


CVK = [('CV', t) for t in 'dhbecv'] + [('RS', 'D'), ('CS', 'C')]
_smob_contract('cvector_field_get_point_bloch', CVK, '', 1, True)
_smob_contract('cvector_field_get_point', CVK, 'v', 1, True)
_smob_contract('cscalar_field_get_point_bloch', [('CS', 'C'), ('CV', 'd'), ('RS', 'D')], '', 2, False)
_smob_contract('cscalar_field_get_point', [('CS', 'C'), ('CS', 'x'), ('CV', 'd'), ('RS', 'D')], 'x', 2, False)
_smob_contract('rscalar_field_get_point', [('CS', 'C'), ('CV', 'd'), ('RS', 'D'), ('RS', 'R')], '', 0, False)


# ------------------------------------------------------------------ the background grid of a dielectric file

def mirror_axis(c, r, n):
    """(index, other index, weight of the other one) on one axis: cell-centred data, mirrored at both edges of [0, 1]"""
    half = c.num(Fraction(1, 2)) if c.mode == 'sym' else 0.5
    r = c.ite(c.lt(r, 0), -r, c.ite(c.lt(1, r), 2 - r, r))
    x = c.trunc(r * n)
    x = x - c.ite(c.eq(x, n), c.num(1), c.num(0))
    d = r * n - x - half
    x2 = x + c.ite(c.le(0, d), c.num(1), c.num(-1))
    x2 = c.ite(c.lt(x2, 0), x2 + 1, c.ite(c.eq(x2, n), x2 - 1, x2))
    return x, x2, c.fabs(d)


def mirror_interp(c, r, n, at):
    ax = [mirror_axis(c, a, m) for a, m in zip(r, n)]
    t = c.num(0)
    for s in [(a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)]:
        w = c.num(1)
        for (x, x2, dx), k in zip(ax, s):
            w = w * (dx if k else 1 - dx)
        t = t + at(*[x2 if k else x for (x, x2, dx), k in zip(ax, s)]) * w
    return t


@contract('linear_interpolate', 'epsilon_file.c', 'P13 P17 P02', cfgs=('complex',))
class _:
    """trilinear interpolation of cell-centred data, mirrored at the edges of the unit cell; points in [-1, 2]"""
    def setup(c):
        n = grid_dims(c)
        stride = c.int('stride', 1, 3)
        r = [c.real('r' + w) if c.mode == 'sym' else c.rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, c.rng.uniform(-1, 2), c.rng.uniform(0, 1)]) for w in 'xyz']
        if c.mode == 'sym':
            for x in r:
                c.assume(c.and_(c.le(-1, x), c.le(x, 2)))
        data = c.array('data', n[0] * n[1] * n[2] * stride if c.mode == 'con' else 0, 'd')
        return r + [data] + n + [stride]

    def spec(c, rx, ry, rz, data, nx, ny, nz, stride):
        c.ret(mirror_interp(c, [rx, ry, rz], [nx, ny, nz], lambda i, j, k: c.d(data, ((i * ny + j) * nz + k) * stride * 8)))


@lemma('interpolation_weights', 'P13')
def _(c):
    w = [c.real('w%d' % i) for i in range(3)]
    t = c.num(0)
    for k, v in tri(c, w):
        t = t + v
    c.prove_eq('the weights sum to one, so a uniform field is reproduced', t, c.num(1))
    for q in range(3):      # a field linear along one axis of the cell
        t = c.num(0)
        for k, v in tri(c, w):
            t = t + v * k[q]
        c.prove_eq('a field linear in the cell is reproduced', t, w[q])
    t = c.num(0)
    for k, v in tri(c, [c.num(0)] * 3):
        t = t + v * c.real('f%d%d%d' % k)
    c.prove_eq('exact at a grid point', t, c.real('f000'))
