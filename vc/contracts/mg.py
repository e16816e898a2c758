"""material grids: interpolated values and the gradients with respect to the grid unknowns"""
from contract import *
from common import *
from lemma import lemma
from pt import V3, LATTICE, grid_dims, mirror_axis, mirror_interp
from sym import _lib
import fld

U_MIN, U_PROD, U_SUM = 0, 1, 2
MATERIAL_GRID = 1
FCI = ('complex', 'inv')


def G(c, p):
    return c.S(p, 'material_grid_struct')


def gsize(c, g):
    return V3(c, c.field(g, 'material_grid_struct', 'size'))


def ntot(c, g):
    s = gsize(c, g)
    return c.trunc(s[0] * s[1] * s[2])


# A Scheme array is identified with its elements: the matgrid field of a ghost grid points to them (Guile is trusted to give access to
# the elements of the array it is asked for).
def _x_array(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return G(c, a[0]).matgrid


EXT_A = dict(material_grid_array=_x_array, material_grid_array_release=lambda eng, st, a, ins: None)


# ------------------------------------------------------------------ one grid

def axis(c, r, n):
    """pt.mirror_axis, with names for intermediate values (see the option 'cutind')"""
    half = c.num(Fraction(1, 2)) if c.mode == 'sym' else 0.5
    one, z = c.num(1), c.num(0)
    r = -r if c.if_(c.lt(r, 0)) else c.cut(c.ite(c.lt(1, r), 2 - r, r))
    x = c.trunc(r * n)
    x = c.cuti(x - c.ite(c.eq(x, n), one, z))
    d = r * n - x - half
    x2 = c.cuti(x + c.ite(c.le(0, d), one, -one))
    x2 = c.cuti(x2 + c.ite(c.lt(x2, 0), one, c.ite(c.eq(x2, n), -one, z)))
    return x, x2, c.fabs(d)


def corners(c, r, n):
    """(index, weight) of the eight grid cells"""
    ax = [axis(c, a, m) for a, m in zip(r, n)]
    out = []
    for z, y, x in [(a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)]:
        s = (x, y, z)
        w = c.num(1)
        for (i, i2, dx), k in zip(ax, s):
            w = w * (dx if k else 1 - dx)
        i = [i2 if k else i for (i, i2, dx), k in zip(ax, s)]
        out.append(((i[0] * n[1] + i[1]) * n[2] + i[2], w))
    return out


@contract('add_interpolate_weights', 'material_grid.c', 'P17', static=True, cfgs=('complex',), variants=[dict(kind=k) for k in (U_MIN, U_PROD, U_SUM)], opts=dict(timeout=90, cutind=True, lazyalias=True))
class _:
    """each grid cell gets its interpolation weight times the scale; for U_PROD the scale times product / this grid's value, for
    U_MIN only if this grid's interpolated value is the smallest one"""
    def setup(c, kind):
        n = grid_dims(c)
        stride = c.int('stride', 1, 3)
        r = [c.real('r' + w) if c.mode == 'sym' else c.rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, c.rng.uniform(-1, 2), c.rng.uniform(0, 1)]) for w in 'xyz']
        if c.mode == 'sym':
            for x in r:
                c.assume(c.and_(c.le(-1, x), c.le(x, 2)))
        N = n[0] * n[1] * n[2] * stride if c.mode == 'con' else 0
        data, u = c.array('data', N, 'd'), c.array('udata', N, 'd')
        return r + [data] + n + [stride, c.real('scaleby') if c.mode == 'sym' else c.rng.uniform(-1, 1), u, c.num(kind), c.real('uval') if c.mode == 'sym' else c.rng.uniform(0, 1)]

    def spec(c, rx, ry, rz, data, nx, ny, nz, stride, s, u, kind, uval):
        cs = corners(c, [rx, ry, rz], [nx, ny, nz])
        v = c.num(0)
        for i, w in cs:
            v = v + c.d(u, i * stride * 8) * w
        if c.if_(c.eq(kind, U_MIN)) and not c.if_(c.eq(v, uval)):
            return
        if c.if_(c.eq(kind, U_PROD)):
            s = s * (uval / v)
        for i, w in cs:
            c.set(data, i * stride * 8, 'd', c.named(c.now(data, i * stride * 8) + w * s))


def lin(c, r, data, n, stride):
    return c.fn('linterp:' + data.obj, *(list(r) + [data.off] + list(n) + [stride]))


def _x_lin(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return lin(c, a[0:3], a[3], a[4:7], a[7])


EXT_V = dict(EXT_A, linear_interpolate=_x_lin, scm_is_array=lambda eng, st, a, ins: P(1))


def grid(c, name, kind=None, **fields):
    """a material grid whose array is a ghost array of its own"""
    f = dict(matgrid=c.array(name + '_data', 0, 'd'), epsilon_min=c.real(name + '_emin'), epsilon_max=c.real(name + '_emax'),
             material_grid_kind=c.int(name + '_kind', 0, 2) if kind is None else c.num(kind))
    f.update(fields)
    g = c.struct(name, 'material_grid_struct', **f)
    off, _ = c.lay.field('material_grid_struct', 'size')
    for i, w in enumerate('xyz'):
        c.poke(g, off + 8 * i, 'd', c.int('%s_n%s' % (name, w), 1))
    return g


def value_at(c, g, p):
    return lin(c, p, G(c, g).matgrid, [c.trunc(s) for s in gsize(c, g)], c.num(1))


@contract('material_grid_val', 'material_grid.c', 'P17', cfgs=FCI, samples=0, opts=dict(externals=EXT_V))
class _:
    """the linear interpolation of the array of the grid"""
    def setup(c):
        return [c.struct('p', 'vector3'), grid(c, 'g')]

    def spec(c, p, g):
        c.ret(value_at(c, g, V3(c, p)))


# ------------------------------------------------------------------ the unknowns of a list of grids

def grids_setup(c, k):
    """k grids in an array, each with its own data"""
    a = c.array('grids', 0, 'material_grid_struct')
    off, _ = c.lay.field('material_grid_struct', 'size')
    sz = c.fsize('material_grid_struct')
    for g in range(k):
        c.poke_field(a + g * sz, 'material_grid_struct', 'matgrid', c.array('grid%d' % g, 0, 'd'))
        for i, w in enumerate('xyz'):
            c.poke(a, g * sz + off + 8 * i, 'd', c.int('g%d_n%s' % (g, w), 1))
    return a


def each_grid(c, grids, k):
    """(data, offset of its first unknown, number of unknowns)"""
    off = c.num(0)
    for g in range(k):
        q = grids + g * c.fsize('material_grid_struct')
        n = ntot(c, q)
        yield G(c, q).matgrid, off, n
        off = off + n


NG = [dict(k=k) for k in (0, 1, 2, 3)]


@contract('material_grids_ntot', 'material_grid.c', 'P17 P15', cfgs=FCI, samples=0, variants=NG)
class _:
    """(0 to 3 grids) the sum of the sizes of the grids"""
    def setup(c, k):
        return [grids_setup(c, k), c.num(k)]

    def spec(c, grids, k):
        c.ret(sum((n for _, _, n in each_grid(c, grids, int(k.const_value()))), c.num(0)))


@contract('material_grids_set', 'material_grid.c', 'P17 P15', cfgs=FCI, samples=0, variants=NG, opts=dict(externals=EXT_A))
class _:
    """(0 to 3 grids) each grid takes its own consecutive stretch of the unknowns"""
    def setup(c, k):
        return [c.array('u', 0, 'd'), grids_setup(c, k), c.num(k)]

    def spec(c, u, grids, k):
        for a, off, n in each_grid(c, grids, int(k.const_value())):
            c.each(n, lambda i: c.set(a, 8 * i, 'd', c.d(u, 8 * (off + i))))


@contract('material_grids_get', 'material_grid.c', 'P17 P15', cfgs=FCI, samples=0, variants=NG, opts=dict(externals=EXT_A))
class _:
    """(0 to 3 grids) the unknowns in the order in which they are set"""
    def setup(c, k):
        return [c.array('u', 0, 'd'), grids_setup(c, k), c.num(k)]

    def spec(c, u, grids, k):
        for a, off, n in each_grid(c, grids, int(k.const_value())):
            c.each(n, lambda i: c.set(u, 8 * (off + i), 'd', c.d(a, 8 * i)))


# ------------------------------------------------------------------ overlapping grids

# geom_box_tree and geom_box_object of libctlgeom.  Ghost: the t1 of a node found by a search is the node the next search finds, and
# its nobjects the number of the object found in it (MPB does not look at either).
TREE_NEXT, TREE_NUMBER, TREE_OBJECTS, BOX_SIZE, BOX_O = 144, 160, 168, 88, 48


def glob(c, n):
    return c.global_(n, 'material_grid.c')


def material(c, p):
    """(which_subclass, data)"""
    return c.i(p, 0), c.p(p, 8)


def compatible(c, mg, mat):
    w, d = material(c, mat)
    if not c.if_(c.eq(w, MATERIAL_GRID)):
        return False
    a, b = G(c, mg), G(c, d)
    return c.if_(c.and_(c.eq(a.material_grid_kind, b.material_grid_kind), c.eq(a.epsilon_min, b.epsilon_min), c.eq(a.epsilon_max, b.epsilon_max)))


def put_material(c, p, g):
    c.poke(p, 0, 'i', c.num(MATERIAL_GRID) if g is not None else c.num(4))
    c.poke(p, 8, 'p', g if g is not None else c.null())


@contract('compatible_matgrids', 'material_grid.c', 'P17', static=True, cfgs=('complex',), samples=0, variants=[dict(other=o) for o in (0, 1)])
class _:
    """a material grid of the same kind and range"""
    def setup(c, other):
        m = c.struct('m', 'material_type_struct')
        g = grid(c, 'g')
        put_material(c, m, grid(c, 'h') if not other else None)
        return [g, m]

    def spec(c, mg, m):
        c.ret(c.num(1) if compatible(c, mg, m) else c.num(0))


def chain_setup(c, L, default, kind):
    """L objects overlap at the point; returns the first node (or NULL) and its object number"""
    nxt, num = c.null(), c.num(0)
    for k in reversed(range(L)):
        g = grid(c, 'g%d' % k, kind)
        ob = c.struct('obj%d' % k, 'geometric_object_struct')
        put_material(c, ob, g)
        arr = c.array('boxes%d' % k, 0, 'd')
        oi = c.int('o%d' % k, 0)
        c.poke(arr, oi * BOX_SIZE + BOX_O, 'p', ob)
        t = c.struct('t%d' % k, 'geom_box_tree_struct')
        c.poke(t, TREE_OBJECTS, 'p', arr)
        c.poke(t, TREE_NEXT, 'p', nxt)
        c.poke(t, TREE_NUMBER, 'i', oi)
        nxt, num = t, oi
    put_material(c, glob(c, 'default_material'), grid(c, 'gd', kind) if default else None)
    S = glob(c, 'geometry_lattice') + LATTICE['size']
    for i, w in enumerate('xyz'):
        c.poke(S, 8 * i, 'd', c.real('size%d' % i, nonzero=True))
        c.poke(glob(c, 'no_size_' + w), 0, 'i', c.int('no_size_' + w, 0, 1))
    return nxt, num


def _next(c, tp, oip):
    t = c.p(tp, TREE_NEXT)
    if not c.if_(c.isnull(t)):
        c.set(oip, 0, 'i', c.i(t, TREE_NUMBER))
    return t


def box_coords(c, p, ob):
    return [c.fn('box.%d:%s' % (q, ob.obj), *(list(p) + [ob.off])) for q in range(3)]


def grid_value(c, g, p):
    return c.fn('gridval:' + g.obj, *p)


def _x_gridval(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return grid_value(c, a[1], V3(c, a[0]))


EXT_T = dict(geom_tree_search_next=_lib(lambda c, p, tp, oip: _next(c, tp, oip)),
             geom_tree_search=_lib(lambda c, p, tree, oip: _next(c, tree, oip)),
             to_geom_box_coords=_lib(lambda c, out, p, ob: [c.set(out, 8 * q, 'd', v) for q, v in enumerate(box_coords(c, V3(c, p), ob))] and None),
             material_grid_val=_x_gridval)


def overlap(c, mg, p, tp, oi):
    """[(grid, coordinates in the grid)] of the grids that count at p: the objects from (tp, oi) on as long as they are compatible
    with mg, and the default material if all of them are"""
    out = []
    while not c.if_(c.isnull(tp)):
        ob = c.p(tp, TREE_OBJECTS) + oi * BOX_SIZE
        mat = c.p(ob, BOX_O)
        if out and not compatible(c, mg, mat):
            return out
        out.append((material(c, mat)[1], box_coords(c, p, ob)))
        tp = c.p(tp, TREE_NEXT)
        if not c.if_(c.isnull(tp)):
            oi = c.i(tp, TREE_NUMBER)
    dm = glob(c, 'default_material')
    if compatible(c, mg, dm):
        S = V3(c, glob(c, 'geometry_lattice') + LATTICE['size'])
        q = [c.num(0) if c.if_(c.ne(c.i(glob(c, 'no_size_' + w)), 0)) else x / s for x, s, w in zip(p, S, 'xyz')]
        out.append((material(c, dm)[1], q))
    return out


def combined(c, kind, us):
    """value of the overlapping grids"""
    if kind == U_MIN:
        r = c.num(1)
        for u in us:
            r = u if c.if_(c.lt(u, r)) else r
        return r
    if kind == U_PROD:
        r = c.num(1)
        for u in us:
            r = r * u
        return r
    return sum(us, c.num(0)) / len(us)


def kind_of(c, g):
    k = G(c, g).material_grid_kind
    return int(k.const_value()) if c.mode == 'sym' else int(k)


CH = [dict(L=L, default=d, kind=k) for k in (U_MIN, U_PROD, U_SUM) for L in (0, 1, 2, 3) for d in (0, 1) if L or d]


@contract('matgrid_val', 'material_grid.c', 'P17 P02', cfgs=('complex',), samples=0, variants=CH, opts=dict(externals=EXT_T, unroll_all=True))
class _:
    """(up to 3 overlapping objects and the default material) minimum, product or mean of the values of the overlapping grids"""
    def setup(c, L, default, kind):
        tp, oi = chain_setup(c, L, default, kind)
        return [c.struct('p', 'vector3'), tp, oi, _grid_at(c, tp, oi) if L else c.p(glob(c, 'default_material'), 8)]

    def spec(c, p, tp, oi, mg):
        us = [grid_value(c, g, q) for g, q in overlap(c, mg, V3(c, p), tp, oi)]
        c.set(glob(c, 'matgrid_val_count'), 0, 'i', c.num(len(us)))
        c.ret(combined(c, kind_of(c, mg), us))


def _grid_at(c, tp, oi):
    return c.p(c.p(c.p(tp, TREE_OBJECTS) + oi * BOX_SIZE, BOX_O), 8)


# ghost log of the contributions made: calls of add_interpolate_weights in order
def log_setup(c):
    lg = c.array('log', 0, 'd')
    c.poke(lg, 0, 'i', c.num(0))
    return lg


class Log:
    def __init__(self, c):
        self.c, self.p = c, Ptr('log', terms.ZERO)
        self.n = int(c.i(self.p).const_value())

    def add(self, *vals):
        c = self.c
        at = 8 + 128 * self.n
        for k, v in enumerate(vals):
            c.set(self.p, at + 8 * k, 'p' if isinstance(v, Ptr) else 'd', v)
        self.n += 1

    def done(self):
        self.c.set(self.p, 0, 'i', self.c.num(self.n))


def _x_aiw(c, *a):
    lg = Log(c)
    lg.add(*a)
    lg.done()


def same_grid(c, a, b):
    return c.ne(c.fn('mgequal:%s:%s' % (a.obj, b.obj), a.off, b.off, kind='int'), 0)


def _x_equal(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return P(c.fn('mgequal:%s:%s' % (a[0].obj, a[1].obj), a[0].off, a[1].off, kind='int'))


EXT_P = dict(EXT_T, **EXT_A)
EXT_P.update(add_interpolate_weights=_lib(_x_aiw), material_grid_equal=_x_equal)

CP = [dict(L=L, default=d, kind=k, k=n) for k in (U_MIN, U_PROD, U_SUM) for L in (0, 1, 2) for d in (0, 1) for n in (1, 2) if L + d < 3 or n < 2]


@contract('material_grids_addgradient_point', 'material_grid.c', 'P17', static=True, cfgs=('complex',), samples=0, variants=CP, opts=dict(externals=EXT_P, unroll_all=True, may_die=True, timeout=300))
class _:
    """(up to 2 overlapping objects, 1 or 2 grids) every grid that counts at the point gets scale * (range of epsilon) (over the
    number of grids for U_SUM) times its interpolation weights, in its own stretch of the unknowns; no grid, no contribution"""
    def setup(c, L, default, kind, k):
        first, num = chain_setup(c, L, default, kind)
        root = c.struct('root', 'geom_box_tree_struct')
        c.poke(root, TREE_NEXT, 'p', first)
        c.poke(glob(c, 'geometry_tree'), 0, 'p', root)
        log_setup(c)
        return [c.array('v', 0, 'd'), c.struct('p', 'vector3'), c.real('scalegrad'), grids_setup(c, k), c.num(k)]

    def spec(c, v, p, s, grids, k):
        tp = c.p(c.p(glob(c, 'geometry_tree'), 0), TREE_NEXT)
        x = V3(c, p)
        if c.if_(c.isnull(tp)):
            oi, mat = c.num(0), glob(c, 'default_material')
        else:
            oi = c.i(tp, TREE_NUMBER)
            mat = c.p(c.p(tp, TREE_OBJECTS) + oi * BOX_SIZE, BOX_O)
        w, mg = material(c, mat)
        if not c.if_(c.eq(w, MATERIAL_GRID)):
            return
        ov = overlap(c, mg, x, tp, oi)
        kind = kind_of(c, mg)
        us = [grid_value(c, g, q) for g, q in ov]
        c.set(glob(c, 'matgrid_val_count'), 0, 'i', c.num(len(us)))
        s = s * (G(c, mg).epsilon_max - G(c, mg).epsilon_min)
        if kind == U_SUM:
            s = s / len(us)
        u = combined(c, kind, us)
        lg = Log(c)
        for g, q in ov:
            for a, off, n in each_grid(c, grids, int(k.const_value())):
                e = grids + int(n_index(c, grids, a)) * c.fsize('material_grid_struct')
                if c.if_(same_grid(c, e, g)):
                    lg.add(*(q + [v + 8 * off] + [c.trunc(t) for t in gsize(c, g)] + [c.num(1), s, a, c.num(kind), u]))
                    break
            else:
                c.dies_if(True)
                return
        lg.done()


def n_index(c, grids, a):
    return a.obj[4:].split('#')[0]


# ------------------------------------------------------------------ gradient over the cell

def point_weight(c, p):
    """what the unknown under consideration (any one) gets from the point p, per unit of scale"""
    return c.fn('W', *p)


def _x_agp(c, v, p, s, grids, n):
    c.set(v, 0, 'd', c.d(v, 0) + s * point_weight(c, V3(c, p)))


def _x_get_e(c, b):
    c.set(c.global_('curfield_band', 'fields.c'), 0, 'i', b)
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord('e')))


def esq(c, x, band, t):
    return c.fn('esq', x, band, t)


def each_stored(c, m, f):
    if c.complex:
        n = [m.s.nx, m.s.ny, m.s.nz]
        return c.each(n[0], n[1], n[2], lambda i, j, k: f((i * n[1] + j) * n[2] + k))
    nl = c.idiv(m.lds, 2)
    return c.each(m.od, nl, lambda i, j: f(i * nl + j))


def _x_sq(c):
    m, f = fld.cur(c)
    b, t = c.i(c.global_('curfield_band', 'fields.c')), c.rd(c.global_('curfield_type', 'fields.c'), 0, 'b')
    each_stored(c, m, lambda x: c.set(f, 8 * x, 'd', esq(c, x, b, t)))
    c.set(c.global_('curfield_type', 'fields.c'), 0, 'b', c.num(ord('R')))


EXT_G = dict(material_grids_addgradient_point=_lib(_x_agp), get_efield=_lib(_x_get_e), compute_field_squared=_lib(_x_sq))


def images(c, m, ix, q):
    """the grid indices of the image under inversion of a stored point, used when it is not stored itself"""
    n = [m.s.nx, m.s.ny, m.s.nz]
    return [a - i if i is q else c.ite(c.eq(i, 0), c.num(0), a - i) for i, a in zip(ix, n)]


def whole_grid(c):
    d, f = fld.grid_world(c, 'd')
    m = MD(c, d)
    c.poke_field(d, 'maxwell_data', 'fft_output_size', m.s.nx * m.s.ny * m.s.nz if c.complex else m.od * c.idiv(m.lds, 2))
    return d, f


@contract('material_grids_addgradient', 'material_grid.c', 'P17', cfgs=FCI, samples=0, variants=[dict(b=b) for b in (0, 1)], opts=dict(externals=EXT_G, timeout=300, may_die=True))
class _:
    """every point of the cell once: -(omega/2) |E|^2 dV times the weight of the unknown at that point (band 0: the loaded field, no
    frequency factor)"""
    def setup(c, b):
        whole_grid(c)
        c.poke(c.global_('freqs', 'mpb.c'), 8, 'p', c.array('freqs_items', 0, 'd'))
        return [c.array('v', 0, 'd'), c.real('scalegrad'), c.int('band', 1) if b else c.num(0), c.array('grids', 0, 'd'), c.int('ngrids', 0)]

    def spec(c, v, s, band, grids, n):
        if c.if_(c.lt(c.i(glob(c, 'num_bands')), band)):
            c.dies_if(True)
            return
        m, f = fld.cur(c)
        B, T = c.global_('curfield_band', 'fields.c'), c.global_('curfield_type', 'fields.c')
        b, t = c.i(B), c.rd(T, 0, 'b')
        if not c.if_(c.eq(band, 0)):
            s = s * (-c.d(c.p(c.global_('freqs', 'mpb.c'), 8), 8 * (band - 1))) / 2
            b, t = band, c.num(ord('e'))
            c.set(B, 0, 'i', b)
        s = s * fld.vol(c) / fld.H_(c).N

        def term(x, ix, q):
            e = esq(c, x, b, t)
            r = e * point_weight(c, fld.position(c, m, ix))
            if not c.complex:
                im = e * point_weight(c, fld.position(c, m, images(c, m, ix, q)))
                one = c.or_(c.eq(q, 0), c.eq(2 * q, m.ld))
                r = r + c.ite(one, c.num(0), im)
            return r
        each_stored(c, m, lambda x: c.set(f, 8 * x, 'd', esq(c, x, b, t)))
        c.set(T, 0, 'b', c.num(ord('R')))
        c.set(v, 0, 'd', c.d(v, 0) + fld.cell_sum(c, m, term).re * s)


# ------------------------------------------------------------------ objective functions

def _event(k):
    def f(c, *a):
        lg = Log(c)
        lg.add(c.num(k), *a)
        lg.done()
    return _lib(f)


SET, RESET = 1, 2


def epoch(c):
    return c.i(Ptr('log', terms.ZERO))


def _x_mean(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return c.fn('mean:' + a[0].obj, a[0].off, epoch(c))


EXT_M = dict(EXT_G, mean_medium_from_matrix=_x_mean, linear_interpolate=_x_lin, material_grids_set=_event(SET), reset_epsilon=_event(RESET))
ANON = {'match_eps_data': ('eps_nx', 'work'), 'mindiff_func_data': ('mdata1',), 'maxgap_func_data': ('f1s',), 'band_constraint_data': ('ik',)}


@contract('match_eps_func', 'material_grid.c', 'P17', static=True, cfgs=FCI, samples=0, variants=[dict(grad=g) for g in (0, 1)], opts=dict(externals=EXT_M, timeout=300))
class _:
    """mean squared difference from the file's epsilon over the whole cell; its gradient adds 2 (difference at that very point) / N times the
    weights of each point; the grids and the dielectric function are set first"""
    def setup(c, grad):
        whole_grid(c)
        log_setup(c)
        n = c.int('n', 1)
        s = c.struct('data', 'match_eps_data', eps=c.array('eps', 0, 'd'), work=c.array('work', 0, 'd'), grids=c.array('grids', 0, 'd'),
                     **{'eps_n' + w: c.int('eps_n' + w, 1) for w in 'xyz'})
        return [n, c.array('u', 0, 'd'), c.array('grad', 0, 'd') if grad else c.null(), s]

    def spec(c, n, u, grad, data):
        D = c.S(data, 'match_eps_data')
        m, f = fld.cur(c)
        lg = Log(c)
        lg.add(c.num(SET), u, D.grids, D.ngrids)
        lg.add(c.num(RESET))
        lg.done()
        N = fld.H_(c).N
        dims = [m.s.nx, m.s.ny, m.s.nz]
        ed = [D.eps_nx, D.eps_ny, D.eps_nz]
        half = Fraction(1, 2)

        def point(x, ix):
            e = c.fn('mean:' + m.s.eps_inv.obj, m.s.eps_inv.off + x * c.fsize('symmetric_matrix'), c.num(lg.n))
            return e - lin(c, [(i + half) / k for i, k in zip(ix, dims)], D.eps, ed, c.num(1)), point_weight(c, fld.position(c, m, ix))

        def both(g):
            def term(x, ix, q):
                r = g(*point(x, ix))
                if not c.complex:
                    one = c.or_(c.eq(q, 0), c.eq(2 * q, m.ld))
                    r = r + c.ite(one, c.num(0), g(*point(x, images(c, m, ix, q))))
                return r
            return fld.cell_sum(c, m, term).re
        work = D.work
        c.set_field(data, 'match_eps_data', 'iter', D.iter + 1)
        if not c.if_(c.isnull(grad)):
            gr = both(lambda e, w: e * w) * 2 / N
            for a in (work, grad):
                c.each(n, lambda i: c.set(a, 8 * i, 'd', c.num(0)))
                c.set(a, 0, 'd', gr)
        c.ret(both(lambda e, w: e * e) / N)


# Ghost state of the solver: whether the grids and the dielectric function are up to date, parity, whether the starting fields are fresh;
# and what they were, with the k point, when the bands were solved last.  Frequencies and their derivatives are functions of that.
ST = dict(set=0, reset=8, parity=16, fresh=24, k0=32, k1=40, k2=48, sparity=56, sfresh=64, sreset=72)


def gs(c, f):
    return c.d(Ptr('state', terms.ZERO), ST[f])


def put(c, **kw):
    for f, v in kw.items():
        c.set(Ptr('state', terms.ZERO), ST[f], 'd', v)


def freq(c, b, st):
    return c.fn('freq', b, *st)


def dfreq(c, b, st):
    return c.fn('dfreq', b, *st)


def freqs(c):
    return c.p(c.global_('freqs', 'mpb.c'), 8)


def now_state(c):
    return [gs(c, f) for f in ('k0', 'k1', 'k2', 'sparity', 'sfresh', 'sreset')]


def solved(c, k, parity, fresh, reset):
    put(c, k0=k[0], k1=k[1], k2=k[2], sparity=parity, sfresh=fresh, sreset=reset)
    st = list(k) + [parity, fresh, reset]
    c.each(c.i(glob(c, 'num_bands')), lambda b: c.set(freqs(c), 8 * b, 'd', freq(c, b + 1, st)))
    K = c.global_('cur_kvector', 'fields.c')
    for q in range(3):
        c.set(K, 8 * q, 'd', k[q])


def _x_state(fn):
    return _lib(lambda c, *a: fn(c, *a))


def _x_ag(c, v, s, b, grids, n):
    lg = Ptr('state', terms.ZERO)
    c.set(v, 0, 'd', c.d(v, 0) + s * dfreq(c, b, now_state(c)))
    c.requires(c.eq(n, c.i(lg, 96)) if c.same(grids, c.p(lg, 88)) else c.lt(n, n), 'the gradient is taken with respect to the grids that were set')


def _x_mset(c, u, grids, n):
    put(c, set=c.d(u, 0), reset=c.num(0))
    c.set(Ptr('state', terms.ZERO), 88, 'p', grids)
    c.set(Ptr('state', terms.ZERO), 96, 'i', n)


EXT_F = dict(material_grids_set=_x_state(_x_mset), reset_epsilon=_x_state(lambda c: put(c, reset=gs(c, 'set'))),
             set_maxwell_data_parity=_x_state(lambda c, d, p: put(c, parity=p, fresh=c.num(0))),
             randomize_fields=_x_state(lambda c: put(c, fresh=c.num(1))),
             solve_kpoint=_x_state(lambda c, k: solved(c, V3(c, k), gs(c, 'parity'), gs(c, 'fresh'), gs(c, 'reset'))),
             material_grids_addgradient=_lib(_x_ag), get_epsilon=lambda eng, st, a, ins: None, output_field_to_file=lambda eng, st, a, ins: None,
             snprintf=lambda eng, st, a, ins: P(0),
             vector3_equal=_x_state(lambda c, a, b: P(c.fn('v3eq', *(V3(c, a) + V3(c, b)), kind='int'))))


def solver_world(c):
    s = c.array('state', 0, 'd')
    c.poke(s, 88, 'p', c.array('grids', 0, 'd'))
    c.poke(s, 96, 'i', c.int('ngrids', 0))
    c.poke(c.global_('freqs', 'mpb.c'), 8, 'p', c.array('freqs_items', 0, 'd'))
    c.poke(c.global_('mdata', 'mpb.c'), 0, 'p', c.struct('md', 'maxwell_data'))
    return s


GR = [dict(grad=g) for g in (0, 1)]
GRIDS = lambda: Ptr('grids', terms.ZERO)


@contract('mindiff_func', 'material_grid_opt.c', 'P17', static=True, cfgs=('complex',), samples=0, variants=GR, opts=dict(externals=EXT_F))
class _:
    """(even-z frequency) - (odd-z frequency) of the band at the k point, each solved from fresh fields with the dielectric function made from
    the given unknowns; the gradient is the difference of their derivatives"""
    def setup(c, grad):
        solver_world(c)
        d = c.struct('data', 'mindiff_func_data', b=c.int('b', 1), ngrids=c.int('ngrids', 0), grids=GRIDS(), work=c.array('work', 0, 'd'))
        nb = c.int('num_bands', 1)
        c.poke(glob(c, 'num_bands'), 0, 'i', nb)
        c.assume(c.le(c.S(d, 'mindiff_func_data').b, nb))
        return [c.int('n', 1), c.array('u', 0, 'd'), c.array('grad', 0, 'd') if grad else c.null(), d]

    def spec(c, n, u, grad, data):
        D = c.S(data, 'mindiff_func_data')
        k = V3(c, c.field(data, 'mindiff_func_data', 'k'))
        w, u0, one = D.work, c.d(u, 0), c.num(1)
        EVEN, ODD = c.num(1), c.num(2)
        ev, od = k + [EVEN, one, u0], k + [ODD, one, u0]
        c.set_field(data, 'mindiff_func_data', 'iter', D.iter + 1)
        put(c, set=u0, reset=u0, parity=ODD, fresh=one)
        solved(c, k, ODD, one, u0)
        b = D.b
        if not c.if_(c.isnull(grad)):
            for a in (w, grad):
                c.each(n, lambda i: c.set(a, 8 * i, 'd', c.num(0)))
                c.set(a, 0, 'd', dfreq(c, b, ev) - dfreq(c, b, od))
        c.ret(freq(c, b, ev) - freq(c, b, od))


def maxgap_data(c):
    solver_world(c)
    nk = c.int('num_k', 1)
    d = c.struct('d', 'maxgap_func_data', b1=c.int('b1', 1), b2=c.int('b2', 1), ngrids=c.int('ngrids', 0), grids=GRIDS(),
                 f1s=c.array('f1s', 0, 'd'), f2s=c.array('f2s', 0, 'd'), work=c.array('work', 0, 'd'))
    off, _ = c.lay.field('maxgap_func_data', 'ks')
    c.poke(d, off + 8, 'p', c.array('ks', 0, 'd'))
    nb = c.int('num_bands', 1)
    c.poke(glob(c, 'num_bands'), 0, 'i', nb)
    D = c.S(d, 'maxgap_func_data')
    c.assume(c.le(D.b1, nb))
    c.assume(c.le(D.b2, nb))
    return d


@contract('band_constraint', 'material_grid_opt.c', 'P17', static=True, cfgs=('complex',), samples=0, variants=[dict(grad=g, kind=k) for g in (0, 1) for k in (0, 1)], opts=dict(externals=EXT_F, timeout=300))
class _:
    """(frequency of band b1) - u[n-1], or u[n-2] - (frequency of band b2), at the k point of the constraint, solved again unless the current bands are
    those of this k point and of these unknowns; the gradient is that of the value"""
    def setup(c, grad, kind):
        d = maxgap_data(c)
        cd = c.struct('cdata', 'band_constraint_data', d=d, ik=c.int('ik', 0), kind=c.num(kind))
        return [c.int('n', 3), c.array('u', 0, 'd'), c.array('grad', 0, 'd') if grad else c.null(), cd]

    def spec(c, n, u, grad, cdata):
        C = c.S(cdata, 'band_constraint_data')
        d = C.d
        D = c.S(d, 'maxgap_func_data')
        off, _ = c.lay.field('maxgap_func_data', 'ks')
        k = V3(c, c.p(d, off + 8) + 24 * C.ik)
        cur = V3(c, c.global_('cur_kvector', 'fields.c'))
        ik, b1, b2, w = C.ik, D.b1, D.b2, D.work
        par, rs = gs(c, 'parity'), gs(c, 'reset')
        again = c.if_(c.eq(c.fn('v3eq', *(cur + k), kind='int'), 0)) or c.if_(c.ne(D.unsolved, 0))
        c.set_field(d, 'maxgap_func_data', 'unsolved', c.num(0))
        if again:
            st = k + [par, c.num(1), rs]
            put(c, fresh=c.num(1))
            solved(c, k, par, c.num(1), rs)
            F = lambda b: freq(c, b, st)
        else:
            st = now_state(c)
            F = lambda b: c.d(freqs(c), 8 * (b - 1))
        first = c.if_(c.eq(C.kind, 0))
        b, sg = (b1, 1) if first else (b2, -1)
        val = (F(b) - c.d(u, 8 * (n - 1))) if first else (c.d(u, 8 * (n - 2)) - F(b))
        c.set(D.f1s if first else D.f2s, 8 * ik, 'd', F(b))
        if not c.if_(c.isnull(grad)):
            for a in (w, grad):
                c.each(n - 2, lambda i: c.set(a, 8 * i, 'd', c.num(0)))
                c.set(a, 0, 'd', dfreq(c, b, st) * sg)
            c.set(grad, 8 * (n - 1), 'd', c.num(-1 if first else 0))
            c.set(grad, 8 * (n - 2), 'd', c.num(0 if first else 1))
        c.ret(val)


def gap(f1, f2):
    return (f2 - f1) * 2 / (f1 + f2)


@contract('maxgap_func', 'material_grid_opt.c', 'P17', static=True, cfgs=('complex',), samples=0, variants=[dict(grad=g, do_min=m) for g in (0, 1) for m in (0, 1)], opts=dict(externals=EXT_F, timeout=300))
class _:
    """the relative gap between the bounds u[n-1] and u[n-2], negated to be maximised, and its derivatives with respect to them"""
    def setup(c, grad, do_min):
        d = maxgap_data(c)
        c.poke_field(d, 'maxgap_func_data', 'do_min', c.num(do_min))
        return [c.int('n', 3), c.array('u', 0, 'd'), c.array('grad', 0, 'd') if grad else c.null(), d]

    def spec(c, n, u, grad, d):
        D = c.S(d, 'maxgap_func_data')
        f1, f2 = c.d(u, 8 * (n - 1)), c.d(u, 8 * (n - 2))
        sg = 1 if c.if_(c.ne(D.do_min, 0)) else -1
        put(c, set=c.d(u, 0), reset=c.d(u, 0))
        c.set_field(d, 'maxgap_func_data', 'iter', D.iter + 1)
        c.set_field(d, 'maxgap_func_data', 'unsolved', c.num(1))
        if not c.if_(c.isnull(grad)):
            c.each(n - 2, lambda i: c.set(grad, 8 * i, 'd', c.num(0)))
            t = (f1 + f2) * (f1 + f2)
            c.set(grad, 8 * (n - 1), 'd', f2 * (-4 * sg) / t)
            c.set(grad, 8 * (n - 2), 'd', f1 * (4 * sg) / t)
        c.ret(gap(f1, f2) * sg)


@lemma('gradient_of_overlapping_grids', 'P17', ('complex',))
def _(c):
    h, J = c.real('h'), c.int('J', 0)
    w = [c.real('w%d' % k) for k in range(8)]
    ix = [c.int('i%d' % k, 0) for k in range(8)]
    U = lambda i: c.fn('U', i)
    hit = lambda i: c.ite(c.eq(i, J), c.num(1), c.num(0))
    val = lambda f: sum((f(i) * a for i, a in zip(ix, w)), c.num(0))
    dw = val(hit)
    c.prove_eq('the interpolated value changes by the collected weights', val(lambda i: U(i) + hit(i) * h) - val(U), dw * h)
    u = [c.real('u%d' % k) for k in range(3)]
    c.facts = c.facts | frozenset([c.not_(c.eq(u[0], 0))])
    c.prove_eq('product', (u[0] + h * dw) * u[1] * u[2] - u[0] * u[1] * u[2], h * dw * (u[0] * u[1] * u[2] / u[0]))
    c.prove_eq('mean', (u[0] + h * dw + u[1] + u[2]) / 3 - (u[0] + u[1] + u[2]) / 3, h * dw / 3)
    lo, hi, m = c.real('emin'), c.real('emax'), c.real('m')
    c.prove_eq('epsilon is linear in the combined value', (lo + (m + h) * (hi - lo)) - (lo + m * (hi - lo)), h * (hi - lo))
    f1, f2 = c.real('f1'), c.real('f2')
    c.facts = c.facts | frozenset([c.lt(0, f1), c.lt(0, f2), c.lt(0, h)])
    s = f1 + f2
    c.prove_eq('relative gap, upper band', (gap(f1, f2 + h) - gap(f1, f2)) * s * (s + h), f1 * 4 * h)
    c.prove_eq('relative gap, lower band', (gap(f1 + h, f2) - gap(f1, f2)) * s * (s + h), f2 * -4 * h)
