"""datasets: what is written is where it is read back"""
from contract import *
from common import *
from sym import _lib
from out import Log, log_setup, event, ival, EXT_IO, WRITE, CREATE, OPEN, CLOSE

FSPACE, MSPACE, TYPE, DSET = 1001, 1002, 1003, 1004
ALL = 0


def ghost(c, n):
    return Ptr(n, terms.ZERO)


def rank_of(c):
    return ival(c.i(ghost(c, 'hdf')))


# ghost 'hdf': rank of the data set (0), its extent (8..); ghosts 'sel<space>': extent (0..), selection start (32..), stride (64..), count (96..), kind (128)
def hdf_setup(c, rank):
    g = c.array('hdf', 0, 'l')
    c.poke(g, 0, 'i', c.num(rank))
    D = []
    for i in range(rank):
        n = c.int('D%d' % i, 0)
        c.poke(g, 8 + 8 * i, 'l', n)
        D.append(n)
    for s in (FSPACE, MSPACE):
        c.array('sel%d' % s, 0, 'l')
        c.poke(ghost(c, 'sel%d' % s), 128, 'l', c.num(0))
    c.array('file', 0, 'd')
    return D


def H(f):
    """external of the HDF5 library as an effect on the ghost state"""
    def h(eng, st, a, ins):
        c = SymC(eng, st, call=True)
        r = f(c, *a)
        st.mem = c.apply(st.mem)
        return P(r) if not isinstance(r, (Poly, Ptr, type(None))) else r
    return h


def _get_space(c, d):
    c.requires(c.eq(d, c.l(ghost(c, 'hdf'), 104)), 'the data set that was opened')
    return FSPACE


def _dims(c, s, dims, mx):
    r = rank_of(c)
    for i in range(r):
        n = c.l(ghost(c, 'hdf'), 8 + 8 * i)
        c.set(dims, 8 * i, 'l', n)
        if isinstance(mx, Ptr) and mx.obj is not None:
            c.set(mx, 8 * i, 'l', n)
    return r


def _create_simple(c, r, dims, mx):
    g = ghost(c, 'sel%d' % MSPACE)
    for i in range(ival(r)):
        c.set(g, 8 * i, 'l', c.l(dims, 8 * i))
    return MSPACE


def _select(c, s, op, start, stride, count, block):
    g = ghost(c, 'sel%d' % ival(s))
    for i in range(rank_of(c)):
        c.set(g, 32 + 8 * i, 'l', c.l(start, 8 * i))
        c.set(g, 64 + 8 * i, 'l', c.num(1) if c.if_(c.isnull(stride)) else c.l(stride, 8 * i))
        c.set(g, 96 + 8 * i, 'l', c.l(count, 8 * i))
    c.set(g, 128, 'l', c.num(1))
    return 0


def selection(c, s):
    g = ghost(c, 'sel%d' % s)
    r = rank_of(c)
    return [[c.l(g, 32 * k + 8 * i) for i in range(r)] for k in range(4)]


def _write(c, d, ty, ms, fs, plist, buf):
    """the selected elements of the buffer go, in order, to the selected places of the file"""
    ext, start, stride, count = selection(c, MSPACE)
    f = selection(c, FSPACE)
    n = c.num(1)
    for i, x in enumerate(ext):
        c.requires(c.and_(c.eq(start[i], 0), c.eq(stride[i], 1), c.eq(count[i], x)), 'the buffer is written as a whole')
        n = n * x
    c.each(n, lambda i: c.set(ghost(c, 'file'), 8 * i, 'd', c.d(buf, 8 * i)))
    event(c, c.num(WRITE), d, ms, fs, *f[1], *f[2], *f[3])
    return 0


HX = dict(H5open=H(lambda c: 0), H5Dget_space=H(_get_space), H5Sget_simple_extent_ndims=H(lambda c, s: rank_of(c)), H5Sget_simple_extent_dims=H(_dims),
          H5Screate_simple=H(_create_simple), H5Sselect_hyperslab=H(_select), H5Sselect_none=H(lambda c, s: 0), H5Scopy=H(lambda c, s: MSPACE),
          H5Sclose=H(lambda c, s: 0), H5Dwrite=H(_write), H5Dclose=H(lambda c, s: 0))


@contract('matrixio_write_real_data', 'matrixio.c', 'P15', cfgs=('complex',), samples=0, variants=[dict(rank=r, stride=s) for r in (1, 2, 3, 4) for s in (1, 6)] + [dict(rank=2, stride=0)],
          opts=dict(externals=HX, may_die=True, timeout=150))
class _:
    """every element of the strided array goes to its place in the data set: point i of the block to start + i"""
    def setup(c, rank, stride):
        log_setup(c)
        hdf_setup(c, rank)
        did = c.int('did', 0)
        c.poke(ghost(c, 'hdf'), 104, 'l', did)
        ld, st = c.array('local_dims', rank, 'i'), c.array('local_start', rank, 'i')
        for i in range(rank):
            c.poke(ld, 4 * i, 'i', c.int('n%d' % i, 0))
            c.poke(st, 4 * i, 'i', c.int('s%d' % i, 0))
        s = c.num(stride) if stride else c.int('stride', 2)
        return [did, c.num(1), ld, st, s, c.array('data', 0, 'd')]

    def spec(c, did, par, ld, st, stride, data):
        r = rank_of(c)
        n = [c.i(ld, 4 * i) for i in range(r)]
        s = [c.i(st, 4 * i) for i in range(r)]
        for k in (FSPACE, MSPACE):
            c.scratch(ghost(c, 'sel%d' % k))
        N = c.num(1)
        for x in n:
            N = N * x
        if c.if_(c.ne(N, 0)):
            c.each(N, lambda i: c.set(ghost(c, 'file'), 8 * i, 'd', c.d(data, 8 * stride * i)))
            lg = Log(c)
            lg.add(c.num(WRITE), did, c.num(MSPACE), c.num(FSPACE), *s, *[c.num(1)] * r, *n)
            lg.done()


# ------------------------------------------------------------------ reading

READ = 12


def _dopen(c, fid, name):
    """opens the data set of that name: negative if there is none"""
    for i in range(4):
        c.set(ghost(c, 'opened'), 8 * (1 + i), 'd', c.rd(name, i, 'b'))
    c.set(ghost(c, 'opened'), 0, 'd', fid)
    return c.l(ghost(c, 'hdf'), 104)


def _read(c, d, ty, ms, fs, plist, buf):
    c.requires(c.eq(d, c.l(ghost(c, 'hdf'), 104)), 'the data set that was opened')
    if ival(ms) == ALL:
        n = c.num(1)
        for i in range(rank_of(c)):
            n = n * c.l(ghost(c, 'hdf'), 8 + 8 * i)
        c.each(n, lambda i: c.set(buf, 8 * i, 'd', c.d(ghost(c, 'file'), 8 * i)))
        event(c, c.num(READ), ms, fs)
        return 0
    m, f = selection(c, MSPACE), selection(c, FSPACE)
    event(c, c.num(READ), ms, fs, buf, *f[1], *f[2], *f[3])
    lg = Log(c)
    at = 8 + 128 * (lg.n + 1)
    for k, v in enumerate(m[0] + m[1] + m[2] + m[3]):
        c.set(Ptr('log', terms.ZERO), at + 8 * k, 'd', v)
    return 0


def _iterate(c, fid, at, idx, f, dname):
    """the name of the first data set, if there is one"""
    if c.if_(c.lt(0, c.l(ghost(c, 'hdf'), 112))):
        c.set(dname, 0, 'p', ghost(c, 'found'))
    return c.l(ghost(c, 'hdf'), 112)


RX = dict(HX, H5Dopen1=H(_dopen), H5Dread=H(_read), H5Eget_auto1=_lib(lambda c, a, b: c.set(b, 0, 'p', NULL)), H5Eset_auto1=H(lambda c, a, b: 0),
          H5Giterate=H(_iterate), strcpy=_lib(lambda c, d, s: [c.set(d, i, 'b', c.rd(s, i, 'b')) for i in range(4)] and d), strlen=H(lambda c, s: 3))


@contract('matrixio_read_real_data', 'matrixio.c', 'P15', cfgs=('complex',), samples=0,
          variants=[dict(rank=r, data=1, name=1) for r in (1, 2, 3, 4)] + [dict(rank=r, data=0, name=n) for r in (1, 2, 3) for n in (0, 1)],
          opts=dict(externals=RX, may_die=True, timeout=150))
class _:
    """with a buffer: file rows start .. start + n - 1 go to the buffer, one element every stride, if the extents agree; without:
    the whole data set, and its rank and dimensions; NULL if there is no such data set"""
    def setup(c, rank, data, name):
        log_setup(c)
        D = hdf_setup(c, rank)
        g = ghost(c, 'hdf')
        c.poke(g, 104, 'l', c.int('did'))
        c.poke(g, 112, 'l', c.int('niter'))
        for n in ('opened', 'found', 'name'):
            c.array(n, 0, 'd' if n == 'opened' else 'b')
        r = c.array('rank', 1, 'i')
        c.poke(r, 0, 'i', c.num(rank) if data else c.num(3))
        fid = c.int('fid', 0)
        return [fid, c.num(1), ghost(c, 'name') if name else NULL, r, c.array('dims', 3, 'i'), c.int('n0', 0), c.int('s0', 0), c.int('stride', 1), c.array('data', 0, 'd') if data else NULL]

    def spec(c, fid, par, name, rank, dims, n0, s0, stride, data):
        r = rank_of(c)
        g = ghost(c, 'hdf')
        for k in (FSPACE, MSPACE):
            c.scratch(ghost(c, 'sel%d' % k))
        D = [c.l(g, 8 + 8 * i) for i in range(r)]
        if c.if_(c.isnull(name)):
            if c.if_(c.le(c.l(g, 112), 0)):
                c.ret(NULL)
                return
            name = ghost(c, 'found')
        c.set(ghost(c, 'opened'), 0, 'd', fid)
        for i in range(4):
            c.set(ghost(c, 'opened'), 8 * (1 + i), 'd', c.rd(name, i, 'b'))
        if c.if_(c.lt(c.l(g, 104), 0)):
            c.ret(NULL)
            return
        lg = Log(c)
        if not c.if_(c.isnull(data)):
            want = [c.i(dims, 4 * i) for i in range(r)]
            c.dies_if(c.or_(*[c.ne(a, b) for a, b in zip(D, want)]))
            row = [n0] + want[1:]
            f0 = [c.num(0)] * (r - 1)
            lg.add(c.num(READ), c.num(MSPACE), c.num(FSPACE), data, s0, *f0, *[c.num(1)] * r, *row)
            one = [c.num(1)] * (r - 1)
            lg.add(*row[:-1], row[-1] * stride, *[c.num(0)] * r, *one, stride, *row)
            lg.n -= 1
            lg.done()
            c.ret(data)
            return
        n = c.num(1)
        for i in range(r):
            n = n * D[i]
            c.set_i(dims, 4 * i, D[i])
        c.set_i(rank, 0, c.num(r))
        lg.add(c.num(READ), c.num(ALL), c.num(ALL))
        lg.done()
        h = c.malloc(8 * n)
        c.each(n, lambda i: c.set(h, 8 * i, 'd', c.d(ghost(c, 'file'), 8 * i)))
        c.ret(h)


# ------------------------------------------------------------------ data sets

def _exists(c, fid, par, name):
    return c.fn('exists', *[c.rd(name, i, 'b') for i in range(4)], kind='int')


def _create(c, fid, name, ty, space, plist):
    g = selection(c, MSPACE)
    event(c, c.num(CREATE), fid, *[c.rd(name, i, 'b') for i in range(4)], space, *g[0])
    return c.l(ghost(c, 'hdf'), 104)


DX = dict(HX, matrixio_dataset_exists=_lib(_exists), matrixio_dataset_delete=_lib(lambda c, fid, par, name: event(c, c.num(CLOSE), fid, *[c.rd(name, i, 'b') for i in range(4)])),
          H5Dcreate1=H(_create), H5Dopen1=H(_dopen), mpi_is_master=H(lambda c: 1), H5Fflush=H(lambda c, a, b: 0), matrixio_write_string_attr=H(lambda c, *a: 0))


@contract('matrixio_create_dataset', 'matrixio.c', 'P15 P14', cfgs=('complex',), samples=0, variants=[dict(rank=r) for r in (1, 2, 3, 4)], opts=dict(externals=DX, may_die=True))
class _:
    """a new data set of that name with those dimensions, in place of an existing one"""
    def setup(c, rank):
        log_setup(c)
        hdf_setup(c, rank)
        c.poke(ghost(c, 'hdf'), 104, 'l', c.int('did', 0))
        dims = c.array('dims', rank, 'i')
        return [c.int('fid', 0), c.num(1), c.array('name', 4, 'b'), NULL, c.num(rank), dims]

    def spec(c, fid, par, name, desc, rank, dims):
        c.scratch(ghost(c, 'sel%d' % MSPACE))
        lg = Log(c)
        nm = [c.rd(name, i, 'b') for i in range(4)]
        if c.if_(c.ne(_exists(c, fid, par, name), 0)):
            lg.add(c.num(CLOSE), fid, *nm)
        lg.add(c.num(CREATE), fid, *nm, c.num(MSPACE), *[c.i(dims, 4 * i) for i in range(ival(rank))])
        lg.done()
        c.ret((c.l(ghost(c, 'hdf'), 104), par))


@contract('matrixio_open_dataset', 'matrixio.c', 'P15', cfgs=('complex',), samples=0, variants=[dict(rank=r) for r in (1, 2, 3, 4)], opts=dict(externals=DX, may_die=True))
class _:
    """the data set of that name; aborts if its extent is not the expected one"""
    def setup(c, rank):
        log_setup(c)
        hdf_setup(c, rank)
        c.poke(ghost(c, 'hdf'), 104, 'l', c.int('did'))
        c.array('opened', 0, 'd')
        dims = c.array('dims', rank, 'i')
        return [c.int('fid', 0), c.num(1), c.array('name', 4, 'b'), c.num(rank), dims]

    def spec(c, fid, par, name, rank, dims):
        g = ghost(c, 'hdf')
        c.set(ghost(c, 'opened'), 0, 'd', fid)
        for i in range(4):
            c.set(ghost(c, 'opened'), 8 * (1 + i), 'd', c.rd(name, i, 'b'))
        c.dies_if(c.or_(c.lt(c.l(g, 104), 0), *[c.ne(c.l(g, 8 + 8 * i), c.i(dims, 4 * i)) for i in range(ival(rank))]))
        c.ret((c.l(g, 104), par))


# ------------------------------------------------------------------ eigenvectors

def name_of(c, p):
    """the first characters of a text"""
    return [c.rd(p, i, 'b') for i in range(4)]


def _file(kind):
    def f(c, name, *a):
        event(c, c.num(kind), name, *a)
        return (c.fn('fileid', kind, kind='int'), P(1 if kind != 41 else 0))
    return _lib(f)


def pick(c, x, vs):
    """the value of x, one of vs"""
    for v in vs[:-1]:
        if c.if_(c.eq(x, v)):
            return v
    return vs[-1]


def _ev_create(c, fid, par, name, desc, rank, dims):
    r = pick(c, rank, (4, 3, 2, 1))
    event(c, c.num(CREATE), fid, *name_of(c, name), c.num(r), *[c.i(dims, 4 * i) for i in range(r)])
    return (c.fn('dsetid', kind='int'), par)


def _ev_write(c, did, par, ld, st, stride, data):
    r = rank_of(c)
    event(c, c.num(WRITE), did, *[c.i(ld, 4 * i) for i in range(r)], *[c.i(st, 4 * i) for i in range(r)], stride, data)


def _ev_read(c, fid, par, name, rank, dims, n0, s0, stride, data):
    event(c, c.num(READ), fid, *name_of(c, name), c.i(rank, 0), *[c.i(dims, 4 * i) for i in range(ival(c.i(rank, 0)))], n0, s0, stride, data)
    return data if c.if_(c.ne(c.fn('readok', kind='int'), 0)) else NULL


def _n(eng, st, a, ins):
    return P(0)


EX = dict(matrixio_create=_file(40), matrixio_open=_file(42), matrixio_create_dataset=_lib(_ev_create), matrixio_write_real_data=_lib(_ev_write),
          matrixio_read_real_data=_lib(_ev_read), matrixio_close_dataset=_n, matrixio_close=_n)


def ev_io(c):
    log_setup(c)
    c.poke(c.array('hdf', 0, 'l'), 0, 'i', c.num(4))
    a = c.struct('A', 'evectmatrix', N=c.int('N', 1), c=c.int('c', 1), p=c.int('p', 0), localN=c.int('localN', 0), Nstart=c.int('Nstart', 0), data=c.array('data', 0, 'd'))
    return [c.array('filename', 0, 'b'), a]


@contract('evectmatrixio_writeall_raw', 'evectmatrixio.c', 'P15', samples=0, opts=dict(externals=EX))
class _:
    """the local rows of the matrix are rows Nstart .. of a data set with the dimensions N x c x p x (1 or 2)"""
    def setup(c):
        return ev_io(c)

    def spec(c, name, a):
        A = c.S(a, 'evectmatrix')
        nv = c.num(2 if c.complex else 1)
        lg = Log(c)
        lg.add(c.num(40), name)
        lg.add(c.num(CREATE), c.fn('fileid', 40, kind='int'), *[c.num(ord(x)) for x in 'rawd'], c.num(4), A.N, A.c, A.p, nv)
        z = c.num(0)
        lg.add(c.num(WRITE), c.fn('dsetid', kind='int'), A.localN, A.c, A.p, nv, A.Nstart, z, z, z, c.num(1), A.data)
        lg.done()


@contract('evectmatrixio_readall_raw', 'evectmatrixio.c', 'P15', samples=0, opts=dict(externals=EX, may_die=True))
class _:
    """reads the rows that evectmatrixio_writeall_raw wrote; aborts if they are not there"""
    def setup(c):
        return ev_io(c)

    def spec(c, name, a):
        A = c.S(a, 'evectmatrix')
        nv = c.num(2 if c.complex else 1)
        c.dies_if(c.eq(c.fn('readok', kind='int'), 0))
        lg = Log(c)
        lg.add(c.num(42), name, c.num(1))
        lg.add(c.num(READ), c.fn('fileid', 42, kind='int'), *[c.num(ord(x)) for x in 'rawd'], c.num(4), A.N, A.c, A.p, nv, A.localN, A.Nstart, c.num(1), A.data)
        lg.done()


# ------------------------------------------------------------------ material grids

import mg
from pt import mirror_interp


def _lin(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    return lin_at(c, a[:3], a[3], a[4:7], a[7])


def lin_at(c, r, data, n, stride):
    return c.fn('linear_interpolate:' + data.obj, *r, *n, stride)


MX = dict(EX, matrixio_create_serial=_file(41), matrixio_open_serial=_file(43), mpi_is_master=H(lambda c: 1), linear_interpolate=_lin,
          matrixio_read_real_data=_lib(lambda c, fid, par, name, rank, dims, n0, s0, stride, data: _mg_read(c, fid, name, rank, dims, data)), **mg.EXT_A)


def _mg_read(c, fid, name, rank, dims, data):
    event(c, c.num(READ), fid, *name_of(c, name), c.i(rank, 0), *[c.i(dims, 4 * i) for i in range(3)])
    c.set_i(rank, 0, c.fn('filerank', kind='int'))
    r = 3 if c.if_(c.eq(c.fn('filerank', kind='int'), 3)) else 2 if c.if_(c.eq(c.fn('filerank', kind='int'), 2)) else 1
    for i in range(r):
        c.set_i(dims, 4 * i, c.fn('filedim', i, kind='int'))
    return ghost(c, 'filedata') if c.if_(c.ne(c.fn('readok', kind='int'), 0)) else NULL


def grid_io(c):
    log_setup(c)
    g = c.struct('g', 'material_grid_struct')
    for i, w in enumerate('xyz'):
        c.poke(c.field(g, 'material_grid_struct', 'size'), 8 * i, 'd', c.int('n' + w, 1))
    c.poke_field(g, 'material_grid_struct', 'matgrid', c.array('x', 0, 'd'))
    c.array('filedata', 0, 'd')
    c.poke(c.array('hdf', 0, 'l'), 0, 'i', c.num(3))
    return g


@contract('save_material_grid', 'material_grid.c', 'P15', cfgs=('complex',), samples=0, opts=dict(externals=MX))
class _:
    """the elements of the grid, in order, as a data set with the dimensions of the grid"""
    def setup(c):
        return [grid_io(c), c.array('filename', 0, 'b')]

    def spec(c, g, name):
        n = mg.gsize(c, g)
        rank = c.num(3) if not c.if_(c.eq(n[2], 1)) else c.num(2) if not c.if_(c.eq(n[1], 1)) else c.num(1)
        lg = Log(c)
        z = c.num(0)
        lg.add(c.num(41), name)
        r = ival(rank)
        lg.add(c.num(CREATE), c.fn('fileid', 41, kind='int'), *[c.num(ord(x)) for x in 'data'], rank, *n[:r])
        lg.add(c.num(WRITE), c.fn('dsetid', kind='int'), *n, z, z, z, c.num(1), mg.G(c, g).matgrid)
        lg.done()


@contract('load_material_gridB', 'material_grid.c', 'P15', cfgs=('complex',), samples=0, opts=dict(externals=MX, may_die=True, timeout=200))
class _:
    """every element is the (clamped) interpolation of the file's data at the centre of its cell in the supercell"""
    def setup(c):
        return [grid_io(c), c.array('filename', 0, 'b'), c.struct('sc', 'vector3')]

    def spec(c, g, name, sc):
        ok = c.fn('readok', kind='int')
        c.dies_if(c.eq(ok, 0))
        r = 3 if c.if_(c.eq(c.fn('filerank', kind='int'), 3)) else 2 if c.if_(c.eq(c.fn('filerank', kind='int'), 2)) else 1
        m = [c.fn('filedim', i, kind='int') if i < r else c.num(1) for i in range(3)]
        n = mg.gsize(c, g)
        s = [c.d(sc, 8 * i) if c.if_(c.lt(0, c.d(sc, 8 * i))) else c.num(1) for i in range(3)]
        lg = Log(c)
        lg.add(c.num(43), name, c.num(1))
        lg.add(c.num(READ), c.fn('fileid', 43, kind='int'), *[c.num(ord(x)) for x in 'data'], c.num(3), *[c.num(1)] * 3)
        lg.done()
        x = mg.G(c, g).matgrid
        fd = ghost(c, 'filedata')

        def frac(i, s, n):
            p = (i + c.num(Fraction(1, 2))) * (s / n)
            return p - c.trunc(p)

        def put(i, j, k):
            v = lin_at(c, [frac(a, *b) for a, b in zip((i, j, k), zip(s, n))], fd, m, c.num(1))
            c.set(x, 8 * ((i * n[1] + j) * n[2] + k), 'd', c.ite(c.lt(1, v), c.num(1), c.ite(c.lt(v, 0), c.num(0), v)))
        c.each(n[0], lambda i: c.each(n[1], lambda j: c.each(n[2], lambda k: put(i, j, k))))
