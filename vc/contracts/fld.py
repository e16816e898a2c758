"""energies and other reductions of a loaded field over the cell"""
from contract import *
from common import *
from lemma import lemma
from eps import eig3, eig3_info
from pt import V3, LATTICE, lattice_size, cur_k, ctype, mean_eps, sym33, bloch_phase, TWOPI
from sym import sym_world, H_, vol, _lib
import op


def weight(c, i, m):
    """how many points of the cell a stored point stands for: 1, or 2 when its mirror image is not stored"""
    if c.complex:
        return c.num(1)
    q = c.imod(i, c.idiv(m.lds, 2))
    return w_of(c, q, m.ld)


def w_of(c, q, ld):
    return c.ite(c.or_(c.eq(q, 0), c.eq(2 * q, ld)), c.num(1), c.num(2))


def world(c, t, mu=0):
    """sym_world with the inverse-symmetric storage (symbolic: any other_dims x last_dim grid)"""
    d, f = sym_world(c, t, mu)
    if c.mode == 'sym':
        c.poke_field(d, 'maxwell_data', 'last_dim', c.int('last_dim', 1))
        c.poke_field(d, 'maxwell_data', 'fft_output_size', c.int('fft_output_size', 1))
    return d, f


def cur(c):
    d = c.p(c.global_('mdata', 'fields.c'), 0)
    return MD(c, d), c.p(c.global_('curfield', 'fields.c'), 0)


def set_type(c, t):
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord(t)))


def dual(c, t, m, f, x):
    """E belonging to a loaded D, H belonging to a loaded B, else the field itself"""
    F = [c.zc(f, 3 * x + q) for q in range(3)]
    if t == 'd':
        return F, matvec(c, m.tens(m.s.eps_inv, x), F)
    if t == 'b' and not c.if_(c.isnull(m.s.mu_inv)):
        return F, matvec(c, m.tens(m.s.mu_inv, x), F)
    return F, F


def energy_parts(c, t, m, f, x):
    F, G = dual(c, t, m, f, x)
    out = []
    for q in range(3):
        out += [F[q].re * G[q].re, F[q].im * G[q].im]
    return out


def energy_internal(c, comp, t, newtype):
    m, f = cur(c)
    parts = [c.sum(m.fo, lambda x, q=q: energy_parts(c, t, m, f, x)[q] * weight(c, x, m)) for q in range(6)]
    tot = sum(parts, c.num(0))
    c.each(m.fo, lambda x: c.set(f, 8 * x, 'd', sum(energy_parts(c, t, m, f, x), c.num(0))))
    for q in range(6):
        c.set(comp, 8 * q, 'd', parts[q])
    set_type(c, newtype)
    return tot


TV = [dict(t=t, mu=m) for t, m in (('d', 0), ('d', 1), ('b', 0), ('b', 1), ('h', 0), ('c', 0), ('e', 0))]
FC = ('complex', 'inv', 'herm')


@contract('compute_field_energy_internal', 'fields.c', 'P12', cfgs=FC, variants=TV, opts=dict(timeout=300))
class _:
    """field* . dual field at every point, replaced in place; its sum over the cell and the sums of the six squared parts"""
    def setup(c, t, mu):
        world(c, t, mu)
        return [c.array('comp_sum', 6, 'd')]

    def spec(c, comp):
        t = ctype(c)
        c.ret(energy_internal(c, comp, t, t.upper()))


NULLV = [dict(t='d', mu=0, null=1), dict(t='b', mu=1, null=1)]
TE = [dict(t=t, mu=m, null=0) for t, m in (('d', 0), ('d', 1), ('b', 0), ('b', 1), ('h', 0), ('h', 1), ('e', 0), ('D', 0))] + NULLV


def maybe_null(c, null):
    if null:
        c.poke(c.global_('curfield', 'fields.c'), 0, 'p', c.null())



def not_loaded(c, types):
    if c.if_(c.isnull(c.p(c.global_('curfield', 'fields.c'), 0))):
        return True
    return ctype(c) not in types


@contract('compute_field_energy', 'fields.c', 'P12', cfgs=FC, variants=TE, opts=dict(timeout=300))
class _:
    """(total energy, six fractions that add up to 1): the total is the cell average of the density times the cell volume"""
    def setup(c, t, mu, null):
        world(c, t, mu)
        maybe_null(c, null)
        return []

    def spec(c, out=None):
        if not_loaded(c, 'dhb'):
            return c.ret((c.num(0), c.null()))
        t = ctype(c)
        m, f = cur(c)
        if t == 'h' and not c.if_(c.isnull(m.s.mu_inv)):
            return c.ret((c.num(0), c.null()))
        parts = [c.sum(m.fo, lambda x, q=q: energy_parts(c, t, m, f, x)[q] * weight(c, x, m)) for q in range(6)]
        tot = sum(parts, c.num(0))
        items = c.malloc(c.num(56))
        c.each(m.fo, lambda x: c.set(f, 8 * x, 'd', sum(energy_parts(c, t, m, f, x), c.num(0))))
        set_type(c, t.upper())
        c.set(items, 0, 'd', tot * vol(c) / H_(c).N)
        one = c.num(1)
        for q in range(6):
            c.set(items, 8 * (q + 1), 'd', parts[q] / c.ite(c.eq(tot, 0), one, tot))
        c.ret((c.num(7), items))


@contract('compute_field_squared', 'fields.c', 'P12', cfgs=FC, variants=TE + [dict(t='v', mu=1, null=0), dict(t='R', mu=0, null=0)], opts=dict(timeout=300))
class _:
    """the field is replaced by its squared modulus, whatever the materials are; without a vector field nothing happens"""
    def setup(c, t, mu, null):
        world(c, t, mu)
        maybe_null(c, null)
        return []

    def spec(c):
        if not_loaded(c, 'dhbecv'):
            return
        m, f = cur(c)
        c.each(m.fo, lambda x: c.set(f, 8 * x, 'd', sum(energy_parts(c, 'c', m, f, x), c.num(0))))
        set_type(c, 'R')


def full_world(c, t, alias, mu=0):
    """a complete maxwell_data; the loaded field is in fft_data ('own', 'same_own') as the library has it"""
    d, f = op.field_setup(c, alias, mu)
    world_globals(c, d, f, t)
    return d, f


def world_globals(c, d, f, t):
    c.poke(c.global_('Vol', 'fields.c'), 0, 'd', c.real('Vol') if c.mode == 'sym' else c.rng.uniform(.5, 2))
    N = c.int('H_N', 1) if c.mode == 'sym' else c.rng.randint(1, 9)
    c.poke_field(c.global_('H', 'fields.c'), 'evectmatrix', 'N', N)
    c.poke(c.global_('mdata', 'fields.c'), 0, 'p', d)
    c.poke(c.global_('curfield', 'fields.c'), 0, 'p', f)
    c.poke(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord(t)))


@contract('compute_field_divergence', 'fields.c', 'P12', variants=[dict(alias=a, t=t, null=0) for a in ('own', 'same_own') for t in 'dR'] + [dict(alias='own', t='d', null=1)], opts=dict(timeout=300))
class _:
    """i 2 pi (k+G).F, computed on the Fourier coefficients of F; without a Bloch vector field nothing happens"""
    def setup(c, alias, t, null):
        full_world(c, t, alias)
        maybe_null(c, null)
        return []

    def spec(c):
        if not_loaded(c, 'dhbec'):
            return
        m, f = cur(c)
        d = m.d
        fi = op.fdin(c, d, f)
        sc = TWOPI(c) / H_(c).N
        if not c.same(fi, f):
            c.scratch(fi)

        def g(i, j):
            K = m.kd2(i, j)
            a, e = K.m, K.n
            k = [K.kmag * (a[1] * e[2] - a[2] * e[1]), K.kmag * (a[2] * e[0] - a[0] * e[2]), K.kmag * (a[0] * e[1] - a[1] * e[0])]     # |k| m x n
            F = vfft_minus(c, d, i, j, c.num(0), (c.num(0), c.num(1)), lambda x, b: [c.zc(f, 3 * x + q) for q in range(3)])
            return F[0] * k[0] + F[1] * k[1] + F[2] * k[2]
        c.scratch(f)

        def body(x):
            v = fft_plus(c, d, x, g)
            c.set_zc(f, x, Cx(-v.im * sc, v.re * sc))
        c.each(m.fo, body)
        set_type(c, 'C')


# ------------------------------------------------------------------ sums over part of the cell

def mean_of(c, eps, x):
    """the (uninterpreted) mean permittivity of a stored inverse tensor; see mean_medium_from_matrix"""
    p = eps + x * c.fsize('symmetric_matrix')
    if c.mode == 'con':
        return mean_eps(c, sym33(c, p))
    return c.fn('mean_eps', *[c.d(p, 8 * k) for k in range(c.fsize('symmetric_matrix') // 8)])


EXT_M = {'mean_medium_from_matrix': _lib(lambda c, p: mean_of(c, p, c.num(0)))}


@contract('compute_energy_in_dielectric', 'fields.c', 'P12', cfgs=FC, variants=[dict(t=t, mu=0, null=0) for t in 'DHBRd'] + [dict(t='D', mu=0, null=1)], opts=dict(externals=EXT_M))
class _:
    """the energy at the points whose mean permittivity lies in the closed range"""
    def setup(c, t, mu, null):
        world(c, t, mu)
        maybe_null(c, null)
        lo = c.real('eps_low') if c.mode == 'sym' else c.rng.choice([0.0, -5.0, 0.5])
        hi = c.real('eps_high') if c.mode == 'sym' else c.rng.choice([lo + 1, lo + .1, 100.0])
        return [lo, hi]

    def spec(c, lo, hi):
        if not_loaded(c, 'DHBR'):
            return c.ret(c.num(0))
        m, f = cur(c)

        def term(x):
            e = mean_of(c, m.s.eps_inv, x)
            return c.ite(c.and_(c.le(lo, e), c.le(e, hi)), c.d(f, 8 * x) * weight(c, x, m), c.num(0))
        c.ret(c.sum(m.fo, term) * vol(c) / H_(c).N)


def cell_sum(c, m, term):
    """sum of term(x, (i1, i2, i3), q) over the stored points x; q is the index along the halved axis"""
    n = [m.s.nx, m.s.ny, m.s.nz]
    z = c.num(0)
    if c.complex:
        return c.csum(n[0], lambda i: c.csum(n[1], lambda j: c.csum(n[2], lambda l: Cx.of(term((i * n[1] + j) * n[2] + l, (i, j, l), z)))))
    nl = c.idiv(m.lds, 2)
    if c.if_(c.eq(n[2], 1)):
        if c.if_(c.eq(n[1], 1)):
            at = lambda i, j: (j, z, z)
        else:
            at = lambda i, j: (i, j, z)
    else:
        at = lambda i, j: (c.idiv(i, n[1]), c.imod(i, n[1]), j)
    return c.csum(m.od, lambda i: c.csum(nl, lambda j: Cx.of(term(i * nl + j, at(i, j), j))))


def position(c, m, ix):
    n = [m.s.nx, m.s.ny, m.s.nz]
    size = lattice_size(c)
    half = Fraction(1, 2) if c.mode == 'sym' else 0.5
    return [i * (s / a) - (c.num(0) if c.if_(c.le(a, 1)) else s * half) for i, s, a in zip(ix, size, n)]


def inside(c, obj, p):
    return c.ne(c.fn('inside:' + obj.obj, *([obj.off] + list(p)), kind='int'), 0)


def _x_inside(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return P(c.fn('inside:' + a[1].obj, *([a[1].off] + V3(c, a[0])), kind='int'))


EXT_O = dict(geom_fix_objects0=lambda eng, st, a, ins: None, point_in_periodic_fixed_objectp=_x_inside)


def grid_world(c, t, mu=0):
    d, f = world(c, t, mu)
    c.poke_field(d, 'maxwell_data', 'other_dims', c.int('other_dims', 1))
    return d, f


@contract('compute_energy_in_object_list', 'fields.c', 'P12', cfgs=('complex', 'inv'), samples=0, variants=[dict(t='D', k=k, null=0) for k in (0, 1, 2)] + [dict(t=t, k=1, null=n) for t, n in (('H', 0), ('B', 0), ('R', 0), ('d', 0), ('D', 1))],
          opts=dict(externals=EXT_O, timeout=300))
class _:
    """(lists of 0, 1 and 2 objects) the energy at the points whose topmost listed object is not made of 'nothing'"""
    def setup(c, t, k, null):
        grid_world(c, t)
        maybe_null(c, null)
        return [c.num(k), c.array('objs', k, 'geometric_object_struct')]

    def spec(c, k, objs):
        if not_loaded(c, 'DHBR'):
            return c.ret(c.num(0))
        m, f = cur(c)
        sz = c.fsize('geometric_object_struct')

        def term(x, ix, q):
            p = position(c, m, ix)
            e = c.d(f, 8 * x) * (c.num(1) if c.complex else w_of(c, q, m.ld))
            r = c.num(0)
            for o in range(int(k.const_value())):
                ob = objs + o * sz
                r = c.ite(inside(c, ob, p), c.ite(c.eq(c.i(ob), 0), c.num(0), e), r)
            return r
        c.ret(cell_sum(c, m, term).re * vol(c) / H_(c).N)


class Scm:
    """a Scheme value: the numbers it was made from"""

    def __init__(self, *v):
        self.v = v


def scm_call(name, *vals):
    """result of the user's function: some function of the numbers it is given (assumed to have no effects)"""
    return [P(execu.mk_fn('user.%s.%s' % (name, w), tuple(P(v) for v in vals), 'real')) for w in ('re', 'im')]


def _scm(f):
    def h(eng, st, a, ins):
        return f(SymC(eng, st, call=True), *a)
    return h


EXT_I = dict(EXT_M,
             scm_from_double=_scm(lambda c, x: Scm(x)),
             vector32scm=_scm(lambda c, p: Scm(*V3(c, p))),
             cvector32scm=_scm(lambda c, p: Scm(*[c.d(p, 8 * i) for i in range(6)])),
             scm_call_3=_scm(lambda c, f, x, y, z: Scm(*scm_call('f%d' % len(x.v), *(x.v + y.v + z.v)))),
             scm_to_double=_scm(lambda c, x: x.v[0]),
             scm2cnumber=_scm(lambda c, x: (x.v[0], x.v[1])))


def user_scalar(c, e, eps, p):
    return Cx(scm_call('f1', e, eps, *p)[0], c.num(0))


def user_vector(c, F, eps, p):
    a = []
    for v in F:
        a += [v.re, v.im]
    r = scm_call('f6', *(a + [eps] + list(p)))
    return Cx(r[0], r[1])


def field_integral(c):
    m, f = cur(c)
    t = ctype(c)
    n = [m.s.nx, m.s.ny, m.s.nz]
    size = lattice_size(c)
    k = cur_k(c) if t != 'v' else [c.num(0)] * 3
    z = c.num(0)

    def val(x, p, conj):
        e = mean_of(c, m.s.eps_inv, x)
        if t in 'DHBR':
            return user_scalar(c, c.d(f, 8 * x), e, p)
        a = TWOPI(c) * sum((k[i] * (p[i] / size[i]) for i in range(3)), z)
        ph = Cx(c.cos(a), c.sin(a))
        F = [c.zc(f, 3 * x + q) for q in range(3)]
        if conj:
            F = [v.conj() for v in F]
        return user_vector(c, [v * ph for v in F], e, p)

    def term(x, ix, q):
        r = val(x, position(c, m, ix), False)
        if not c.complex:
            im = [a - i if i is q else c.ite(c.eq(i, 0), z, a - i) for i, a in zip(ix, n)]        # (used for q > 0 only)
            s = val(x, position(c, m, im), True)
            one = c.or_(c.eq(q, 0), c.eq(2 * q, m.ld))
            r = r + Cx(c.ite(one, z, s.re), c.ite(one, z, s.im))
        return r
    return cell_sum(c, m, term) * (vol(c) / H_(c).N)


@contract('compute_field_integral', 'fields.c', 'P12', cfgs=('complex', 'inv'), samples=0, variants=[dict(t=t, null=0) for t in 'dvDRC'] + [dict(t='d', null=1)], opts=dict(externals=EXT_I, timeout=400))
class _:
    """the cell integral of the user's function of (field with Bloch phase or energy density, mean permittivity, position);
    points that are not stored are included as the images of the stored ones (conjugate field)"""
    def setup(c, t, null):
        grid_world(c, t)
        maybe_null(c, null)
        return [c.array('fun', 1)]

    def spec(c, fun):
        if not_loaded(c, 'dhbeDHBRcv'):
            return c.ret((c.num(0), c.num(0)))
        r = field_integral(c)
        c.ret((r.re, r.im))


@contract('compute_energy_integral', 'fields.c', 'P12', cfgs=('complex', 'inv'), samples=0, variants=[dict(t=t, null=0) for t in 'DRd'] + [dict(t='D', null=1)], opts=dict(externals=EXT_I, timeout=400))
class _:
    def setup(c, t, null):
        grid_world(c, t)
        maybe_null(c, null)
        return [c.array('fun', 1)]

    def spec(c, fun):
        if not_loaded(c, 'DHBR'):
            return c.ret(c.num(0))
        c.ret(field_integral(c).re)


# ------------------------------------------------------------------ loading a field

# What a block of columns contains is described by ghost numbers in its first entries: the band of its first column, and 1 if the
# columns are H (B multiplied by the inverse permeability) and not the solved B.

def _x_to_pos(kind):
    def f(c, d, Hp, out, s, n):
        X = EV(c, Hp)
        c.requires(c.and_(c.le(0, s), c.le(s + n, X.p)), 'the bands exist')
        c.requires(c.eq(n, 1), 'one band')
        b, g = c.d(X.data, 0) + s, c.d(X.data, 8)
        m = MD(c, d)
        c.scratch(out)

        def body(x):
            for q in range(2):
                c.set(out, 16 * x + 8 * q, 'd', c.fn('%s.%d' % (kind, q), x, b, g))
        c.each(m.fo * 3, body)
    return _lib(f)


def _x_HB(c, d, Xp, Yp, cd, s1, s2, nb):
    X, Y = EV(c, Xp), EV(c, Yp)
    c.requires(c.and_(c.le(0, s1), c.le(s1 + nb, X.p), c.eq(s2, 0), c.eq(nb, 1), c.eq(Y.p, 1)), 'one existing band into a one-column block')
    c.requires(X.data.obj != Y.data.obj, 'not in place')
    c.set(Y.data, 0, 'd', c.d(X.data, 0) + s1)
    c.set(Y.data, 8, 'd', c.d(X.data, 8) + 1)
    c.scratch(cd)


EXT_L = dict(maxwell_compute_d_from_H=_x_to_pos('d'), maxwell_compute_h_from_H=_x_to_pos('h'), maxwell_compute_H_from_B=_lib(_x_HB))


def load_world(c, mu, have=1):
    fo = c.int('fft_output_size', 1)
    d = c.struct('d', 'maxwell_data', fft_output_size=fo, fft_data=c.array('fft_data', 0, 'd'), mu_inv=c.array('mu_inv', 0, 'symmetric_matrix') if mu else c.null())
    g = lambda n, m='mpb.c': c.global_(n, m)
    c.poke(g('mdata'), 0, 'p', d if have else c.null())
    c.poke(g('kpoint_index'), 0, 'i', c.int('kpoint_index'))
    p = c.int('H_p', 1)
    Hd, Wd = c.array('H_data', 0, 'd'), c.array('W_data', 0, 'd')
    for f, v in dict(p=p, alloc_p=p, data=Hd).items():
        c.poke_field(g('H'), 'evectmatrix', f, v)
    c.poke(Hd, 0, 'd', 0)
    c.poke(Hd, 8, 'd', 0)
    for f, v in dict(p=c.int('W_p', 1), alloc_p=c.int('W_alloc', 1), n=c.int('W_n', 1), data=Wd).items():
        c.poke_field(g('W'), 'evectmatrix', f, v)
    c.assume(c.eq(c.S(g('W'), 'evectmatrix').p, c.S(g('W'), 'evectmatrix').alloc_p))
    c.poke(g('freqs'), 8, 'p', c.array('freqs_items', 0, 'd'))
    c.poke(g('Vol'), 0, 'd', c.real('Vol'))


def load_field(c, kind, band):
    """curfield is then the field of the band, scaled"""
    g = lambda n: c.global_(n, 'mpb.c')
    if c.if_(c.isnull(c.p(g('mdata'), 0))) or c.if_(c.eq(c.i(g('kpoint_index')), 0)):
        return False
    H, W = EV(c, g('H')), EV(c, g('W'))
    if c.if_(c.or_(c.lt(band, 1), c.lt(H.p, band))):
        return False
    d = c.p(g('mdata'), 0)
    m = MD(c, d)
    f = m.s.fft_data
    sc = c.num(1) / c.sqrt(c.d(g('Vol'), 0))
    if kind == 'd':
        w = c.d(c.p(g('freqs'), 8), 8 * (band - 1))
        sc = sc * (-1) if c.if_(c.eq(w, 0)) else sc * (-1) / w
    mu = kind != 'b' and not c.if_(c.isnull(m.s.mu_inv))
    c.scratch(f)

    def body(x):
        for q in range(2):
            c.set(f, 16 * x + 8 * q, 'd', sc * c.fn('%s.%d' % ('d' if kind == 'd' else 'h', q), x, band - 1, c.num(1 if mu else 0)))
    c.each(m.fo * 3, body)
    if mu:
        c.scratch(W.data)
    c.set(c.global_('curfield', 'fields.c'), 0, 'p', f)
    c.set(c.global_('curfield_band', 'fields.c'), 0, 'i', band)
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord(kind)))
    return True


def _getter(kind):
    @contract('get_%sfield' % kind, 'fields.c', 'P12', samples=0, variants=[dict(mu=m, have=1) for m in (0, 1)] + [dict(mu=0, have=0)], opts=dict(externals=EXT_L))
    class _:
        """the field of an existing band, scaled by 1/sqrt(cell volume) (D also by -1/frequency); the solved bands are untouched"""
        def setup(c, mu, have):
            load_world(c, mu, have)
            return [c.int('which_band')]

        def spec(c, band):
            load_field(c, kind, band)


for _k in 'dhb':
    _getter(_k)


def cmul_at(c, f, k, ph):
    return c.zc(f, k) * ph


@contract('fix_field_phase', 'fields.c', 'P12', variants=[dict(t=t, null=0) for t in 'db'] + [dict(t='D', null=0), dict(t='d', null=1)], opts=dict(timeout=300))
class _:
    """the loaded field and the column of H it was made from are multiplied by one and the same phase factor: exp(i theta) with
    theta maximising the sum of the squared real parts (1 if the fields are real), with the sign that makes the last
    component of at least half the largest magnitude positive"""
    def setup(c, t, null):
        if c.mode == 'con':
            d, f = full_world(c, t, 'same_own')
        else:
            d, f = world(c, t)
        maybe_null(c, null)
        H = c.global_('H', 'fields.c')
        n, p = c.int('H_n', 1, 4), c.int('H_p', 1, 4)
        for k, v in dict(n=n, p=p, alloc_p=p, data=c.array('H_data', n * p, 'z')).items():
            c.poke_field(H, 'evectmatrix', k, v)
        b = c.int('band', 1, 3)
        if c.mode == 'con':
            b = min(b, p)
        else:
            c.assume(c.le(b, p))
        c.poke(c.global_('curfield_band', 'fields.c'), 0, 'i', b)
        return []

    def spec(c):
        if not_loaded(c, 'dhbecv'):
            return
        m, f = cur(c)
        N = m.fo * 3
        if c.complex:
            F = lambda k: c.zc(f, k)
            s0 = c.sum(N, lambda k: F(k).re * F(k).re - F(k).im * F(k).im)
            s1 = c.sum(N, lambda k: F(k).re * F(k).im * 2)
            half = Fraction(1, 2) if c.mode == 'sym' else .5
            th = c.atan2(-s1, s0) * half
            ph = Cx(c.cos(th), c.sin(th))
            r = lambda k: F(k).re * ph.re - F(k).im * ph.im
        else:
            ph = Cx(c.num(1), c.num(0))
            r = lambda k: c.zc(f, k).re - c.zc(f, k).im
        mx = c.fold(c.num(0), N, lambda acc, k: c.max(acc, c.fabs(r(k))))
        k = c.first(N, lambda i: c.le(mx * (Fraction(1, 2) if c.mode == 'sym' else .5), c.fabs(r(N - 1 - i))))
        sg = c.num(1)
        if k is not None and c.if_(c.lt(r(N - 1 - k), 0)):
            sg = c.num(-1)
        ph = ph * sg
        c.each(N, lambda k: c.set_zc(f, k, c.zc(f, k) * ph))
        H = EV(c, c.global_('H', 'fields.c'))
        b = c.i(c.global_('curfield_band', 'fields.c'))
        c.each(H.n, lambda i: H.set(i, b - 1, H.z(i, b - 1) * ph))


@lemma('cell_counted_once', 'P12', ('inv',))
def _(c):
    """storage of q = 0 .. L/2 of an axis of L points: every point is counted once"""
    L, q = c.int('L', 1), c.int('q', 0)
    base = c.facts
    c.facts = base | frozenset([c.lt(0, q), c.lt(2 * q, L)])
    c.prove('a stored point with an image that is not stored counts twice', c.eq(w_of(c, q, L), 2))
    c.prove('its image is not stored', c.lt(c.idiv(L, 2), L - q))
    c.facts = base | frozenset([c.eq(q, 0)])
    c.prove('a point that is its own image counts once', c.eq(w_of(c, q, L), 1))
    c.facts = base | frozenset([c.eq(2 * q, L)])
    c.prove('a point that is its own image counts once', c.eq(w_of(c, q, L), 1))
    c.facts = base | frozenset([c.lt(c.idiv(L, 2), q), c.lt(q, L)])
    c.prove('every point that is not stored is the image of one that counts twice', c.and_(c.lt(0, L - q), c.lt(2 * (L - q), L)))


@lemma('energy_fractions', 'P12', ('complex',))
def _(c):
    p = [c.real('p%d' % i) for i in range(6)]
    tot = sum(p, c.num(0))
    c.facts = c.facts | frozenset([c.not_(c.eq(tot, 0))])
    c.prove_eq('the fractions add up to one', sum((x / c.ite(c.eq(tot, 0), c.num(1), tot) for x in p), c.num(0)), c.num(1))
    F = [Cx(c.real('fr%d' % i), c.real('fi%d' % i)) for i in range(3)]
    G = [Cx(c.real('gr%d' % i), c.real('gi%d' % i)) for i in range(3)]
    s = sum((F[i].re * G[i].re + F[i].im * G[i].im for i in range(3)), c.num(0))
    h = F[0].conj() * G[0] + F[1].conj() * G[1] + F[2].conj() * G[2]
    c.prove_eq('the six parts make up the Hermitian form', s, h.re)
    a = c.real('theta')
    ph = Cx(c.cos(a), c.sin(a))
    c.prove_eq('the phase has unit modulus', ph.re * ph.re + ph.im * ph.im, c.num(1))
