"""group velocities: the Hellmann-Feynman quotient, band by band"""
from contract import *
from common import *
from pt import V3
from sym import LIBCTL, _lib, m3, vec3
import mat, kpg, pre

# What a block of fields contains is described by two ghost numbers in its first entries: the band its first column belongs to,
# and 1 if the columns are H (multiplied by the inverse permeability) and not B.


def ghost(c, data):
    return c.d(data, 0), c.d(data, 8)


def set_ghost(c, data, b, mu):
    c.set(data, 0, 'd', b)
    c.set(data, 8, 'd', mu)


def _x_H_from_B(c, d, Xp, Yp, cd, s1, s2, nb):
    X, Y = EV(c, Xp), EV(c, Yp)
    b, f = ghost(c, X.data)
    mu = c.S(d, 'maxwell_data').mu_inv
    c.requires(c.eq(s2, 0), 'target columns start at 0')
    c.requires(c.eq(Y.p, nb), 'all columns of the target are computed')
    c.requires(c.le(s1 + nb, X.p), 'the bands exist')
    if c.if_(c.isnull(mu)):
        if not c.same(X.data, Y.data):
            set_ghost(c, Y.data, b + s1, f)
        else:
            c.requires(c.eq(s1, 0), 'in place: same columns')
        return
    set_ghost(c, Y.data, b + s1, f + 1)


def _x_ucross(c, Xp, Yp, d, u):
    X, Y = EV(c, Xp), EV(c, Yp)
    b, f = ghost(c, X.data)
    c.requires(c.eq(X.p, Y.p), 'equal numbers of columns')
    c.requires(X.data.obj != Y.data.obj, 'not in place')
    c.set(Y.data, 0, 'd', b)
    c.set(Y.data, 8, 'd', c.fn('ucross', f, *[c.d(u, 8 * i) for i in range(3)]))


def gv_of(c, band, f, u):
    """Re <H| curl eps^-1 i u x |H> of one band"""
    return c.fn('gv', band, f, c.fn('ucross', f, *u))


def _x_diag(c, Xp, Yp, diag, scr):
    X, Y = EV(c, Xp), EV(c, Yp)
    b, f = ghost(c, X.data)
    b2, g = ghost(c, Y.data)
    c.requires(c.eq(X.p, Y.p), 'equal numbers of columns')
    c.requires(c.eq(b, b2), 'the same bands')
    c.each(X.p, lambda j: c.set(diag, 8 * j, 'd', c.fn('gv', b + j, f, g)))
    c.each(X.p, lambda j: c.set(scr, 8 * j, 'd', c.fn('partial', b + j, f, g)))     # (the local parts of the sums)


def _x_reset(c):
    c.set(c.global_('curfield', 'fields.c'), 0, 'p', c.null())
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord('-')))


def unit3(c, v):
    return [c.fn('unit.%d' % i, *v) for i in range(3)]


EXT_G = {k: _lib(v) for k, v in dict(maxwell_compute_H_from_B=_x_H_from_B, maxwell_ucross_op=_x_ucross, evectmatrix_XtY_diag_real=_x_diag,
         unit_vector3=lambda c, out, v: [c.set(out, 8 * i, 'd', x) for i, x in enumerate(unit3(c, V3(c, v)))] and None).items()}
EXT_G['matrix3x3_vector3_mult'] = LIBCTL['matrix3x3_vector3_mult']


def G_(c, name, mod='mpb.c'):
    return c.global_(name, mod)


def gv_world(c, nb, alloc, mu, own):
    """bands solved in blocks of alloc; own: the block has storage of its own"""
    set_ = lambda ptr, **kw: [c.poke_field(ptr, 'evectmatrix', f, v) for f, v in kw.items()]
    c.poke(G_(c, 'num_bands'), 0, 'i', nb)
    c.poke(G_(c, 'kpoint_index'), 0, 'i', c.int('kpoint_index'))
    c.poke(G_(c, 'nwork_alloc'), 0, 'i', c.int('nwork', 1))
    c.poke(G_(c, 'negative_epsilon_okp'), 0, 'i', c.int('negok', 0, 1))
    d = c.struct('d', 'maxwell_data', num_bands=c.num(alloc), max_fft_bands=c.int('mfft', 1), mu_inv=c.array('mu_inv', 0, 'symmetric_matrix') if mu else c.null())
    c.poke(G_(c, 'mdata'), 0, 'p', d)
    n = c.int('n', 1)
    Hd = c.array('H_data', 0, 'd')
    set_(G_(c, 'H'), p=c.num(nb), alloc_p=c.num(nb), n=n, data=Hd)
    c.poke(Hd, 0, 'd', 0)
    c.poke(Hd, 8, 'd', 0)
    set_(G_(c, 'Hblock'), p=c.num(alloc), alloc_p=c.num(alloc), n=n, data=c.array('Hb_data', 0, 'd') if own else Hd)
    W = G_(c, 'W')
    sz = c.fsize('evectmatrix')
    for i in range(2):
        set_(W + i * sz, p=c.num(alloc), alloc_p=c.num(alloc), n=n, data=c.array('W%d_data' % i, 0, 'd'))
    for i in range(9):
        c.poke(G_(c, 'Gm'), 8 * i, 'd', c.real('G%d' % i))
    fr = G_(c, 'freqs')
    c.poke(fr, 0, 'i', c.num(nb))
    f = c.array('freqs_items', 0, 'd')
    c.poke(fr, 8, 'p', f)
    return d, f


def gv_final(c, band, f, negok, mu, u):
    w = c.d(f, 8 * band)
    v = gv_of(c, c.num(band), c.num(mu), u)
    if c.if_(c.eq(w, 0)):
        return c.num(0)
    return v / c.sqrt(c.fabs(w)) if c.if_(c.ne(negok, 0)) else v / w


def gv_u(c, dv):
    return unit3(c, vec3(m3(c, G_(c, 'Gm')), V3(c, dv)))


BL = [(1, 1, 0), (3, 3, 0), (2, 1, 1), (3, 2, 1), (4, 2, 1), (5, 2, 1)]


@contract('compute_group_velocity_component', 'mpb.c', 'P05', cfgs=('complex',), samples=0,
          variants=[dict(nb=n, alloc=a, own=o, mu=m) for n, a, o in BL for m in (0, 1)], opts=dict(externals=EXT_G, unroll=8, timeout=300, may_only_die=True))
class _:
    """(numbers of bands and block sizes as listed; everything else is free) every band's velocity along the unit direction: the
    expectation value of curl eps^-1 i u x over the frequency, 0 where the frequency is 0; fields and sizes are as they were"""
    def setup(c, nb, alloc, own, mu):
        gv_world(c, nb, alloc, mu, own)
        return [c.struct('dir', 'vector3')]

    def spec(c, dv):
        _x_reset(c)
        if c.if_(c.eq(c.i(G_(c, 'kpoint_index')), 0)):
            return c.ret((c.num(0), c.null()))
        nb = int(c.i(G_(c, 'num_bands')).const_value())
        d = c.p(G_(c, 'mdata'), 0)
        mu = 0 if c.if_(c.isnull(c.S(d, 'maxwell_data').mu_inv)) else 1
        Hb, H = EV(c, G_(c, 'Hblock')), EV(c, G_(c, 'H'))
        same = c.same(Hb.data, H.data)
        if mu and same:
            c.dies_if(c.le(c.i(G_(c, "nwork_alloc")), 1))
        u = gv_u(c, dv)
        out = c.malloc(c.num(8 * nb))
        f = c.p(G_(c, 'freqs'), 8)
        for b in range(nb):
            c.set(out, 8 * b, 'd', gv_final(c, b, f, c.i(G_(c, 'negative_epsilon_okp')), mu, u))
        for k in ('W0_data', 'W1_data', 'Hb_data'):
            if k in c.eng.objs:
                c.scratch(Ptr(k, ZERO))
        c.S(d, 'maxwell_data').num_fft_bands = c.min(Hb.s.alloc_p, c.S(d, 'maxwell_data').max_fft_bands)
        c.ret((c.num(nb), out))


@contract('compute_1_group_velocity_component', 'mpb.c', 'P05', cfgs=('complex',), samples=0, variants=[dict(mu=m) for m in (0, 1)],
          opts=dict(externals=EXT_G, may_only_die=True))
class _:
    """the velocity of one band"""
    def setup(c, mu):
        gv_world(c, 5, 2, mu, 1)
        c.assume(c.ne(c.i(G_(c, 'kpoint_index')), 0))
        return [c.struct('dir', 'vector3'), c.int('band', 1, 5, hard_hi=True)]

    def spec(c, dv, b):
        _x_reset(c)
        c.dies_if(c.le(c.i(G_(c, 'nwork_alloc')), 1))
        d = c.p(G_(c, 'mdata'), 0)
        mu = 0 if c.if_(c.isnull(c.S(d, 'maxwell_data').mu_inv)) else 1
        f = c.p(G_(c, 'freqs'), 8)
        w = c.d(f, 8 * (b - 1))
        v = gv_of(c, b - 1, c.num(mu), gv_u(c, dv))
        for k in ('W0_data', 'W1_data'):
            c.scratch(Ptr(k, ZERO))
        if c.if_(c.eq(w, 0)):
            return c.ret(c.num(0))
        c.ret(v / c.sqrt(c.fabs(w)) if c.if_(c.ne(c.i(G_(c, 'negative_epsilon_okp')), 0)) else v / w)
