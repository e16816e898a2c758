"""field output: Bloch phases, datasets, and the other half of the cell in the inversion-symmetric build"""
import math
from contract import *
from common import *
from sym import _lib
from pt import TWOPI

MID = 16


class Log:
    """ghost log of calls"""
    def __init__(self, c):
        self.c, self.p = c, Ptr('log', terms.ZERO)
        self.n = int(c.i(self.p).const_value())

    def add(self, *vals):
        c = self.c
        at = 8 + 128 * self.n
        for k, v in enumerate(vals):
            c.set(self.p, at + 8 * k, 'p' if isinstance(v, Ptr) else 'd', v)
        self.n += 1

    def done(self):
        self.c.set(self.p, 0, 'i', self.c.num(self.n))


def log_setup(c):
    lg = c.array('log', 0, 'd')
    c.poke(lg, 0, 'i', c.num(0))
    return lg


def event(c, *a):
    lg = Log(c)
    lg.add(*a)
    lg.done()


CREATE, WRITE, CLOSE, ATTR, OPEN, HALF = 1, 2, 3, 4, 5, 6


def name3(c, p):
    return [c.rd(p, i, 'b') for i in range(3)]


# the point of the block that is looked at when a block is written: any point
def probe(c):
    return [c.i(Ptr('probe', terms.ZERO), 4 * i) for i in range(3)]


def probe_setup(c, dims):
    p = c.array('probe', 3, 'i')
    q = []
    for i, n in enumerate(dims):
        x = c.int('probe%d' % i, 0)
        c.assume(c.lt(x, n))
        c.poke(p, 4 * i, 'i', x)
        q.append(x)
    return q


def new_id(c, n):
    """datasets and files get numbers that are never negative"""
    return c.fn('h5id', n, kind='int') * c.fn('h5id', n, kind='int')


def _x_create(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    fid, par, name, desc, rank, dims = a
    n = P(Log(c).n)
    nm = name3(c, name)
    event(c, c.num(CREATE), fid, par, *nm, c.rd(name, 3, 'b'), rank, *[c.i(dims, 4 * i) for i in range(3)])
    st.mem = c.apply(st.mem)
    return (new_id(c, n), par)


def _x_write(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    did, par, ld, start, stride, data = a
    n = [c.i(ld, 4 * i) for i in range(3)]
    q = probe(c)
    at = ((q[0] * n[1] + q[1]) * n[2] + q[2]) * stride
    event(c, c.num(WRITE), did, par, *n, *[c.i(start, 4 * i) for i in range(3)], stride, data, c.d(data, 8 * at))
    st.mem = c.apply(st.mem)


EXT_IO = dict(matrixio_create_dataset=_x_create, matrixio_write_real_data=_x_write)


def dims3(c, nm):
    p = c.array(nm, 3, 'i')
    v = []
    for i in range(3):
        x = c.int('%s%d' % (nm, i), 0 if nm == 'start' else 1)
        c.poke(p, 4 * i, 'i', x)
        v.append(x)
    return p, v


CX = [dict(which=w, nc=n, k=k, append=a) for w, n in ((-1, 3), (0, 3), (1, 3), (2, 3), (7, 3), (0, 1), (-1, 1), (7, 1)) for k in (0, 1) for a in (0, 1)]


def ival(x):
    if isinstance(x, Poly):
        if not x.is_const():
            raise Unsupported('a constant is expected')
        x = x.const_value()
    return int(x)


@contract('fieldio_write_complex_field', 'fieldio.c', 'P14', cfgs=('complex',), variants=CX, opts=dict(externals=EXT_IO, timeout=120))
class _:
    """the field times exp(2 pi i k.x/n) at every point, with x the position in the whole array; then real and imaginary part of each
    requested component to its own dataset"""
    def setup(c, which, nc, k, append):
        if c.mode == 'con':
            c.assume(which == 7)
        dims, _ = dims3(c, 'dims')
        ld, n = dims3(c, 'local_dims')
        start, _ = dims3(c, 'start')
        if c.mode == 'sym':
            log_setup(c)
            probe_setup(c, n)
        f = c.array('field', n[0] * n[1] * n[2] * nc, 'zc')
        fid = c.struct('fid', 'matrixio_id')
        ids = c.array('ids', 2 * nc, 'matrixio_id')
        kv = c.array('k', 3, 'd') if k else NULL
        return [f, c.int('rank', 1, 3), dims, ld, start, c.num(which), c.num(nc), kv, fid, c.num(append), ids]

    def spec(c, f, rank, dims, ld, start, which, nc, kv, fid, append, ids):
        nc, which, append = ival(nc), ival(which), ival(append)
        D, n, s = ([c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start))
        two = c.eq(D[2], 1)
        rank = c.num(3) if not c.if_(c.eq(D[2], 1)) else c.num(1) if c.if_(c.eq(D[1], 1)) else c.num(2)

        def value(i, j, k, a):
            z = c.zc(f, ((i * n[1] + j) * n[2] + k) * nc + a)
            if c.if_(c.isnull(kv)):
                return z
            p = Cx(c.num(1), c.num(0))
            for x, m, l, d in ((i, 0, n, D), (j, 1, n, D), (k, 2, n, D)):
                th = TWOPI(c) * c.d(kv, 8 * m) / D[m] * (x + s[m])
                p = p * Cx(c.cos(th), c.sin(th))
            return z * p
        if not c.if_(c.isnull(kv)):
            for a in range(nc):
                c.each(n[0], lambda i: c.each(n[1], lambda j: c.each(n[2], lambda k: c.set_zc(f, ((i * n[1] + j) * n[2] + k) * nc + a, value(i, j, k, a)))))
        if c.mode == 'con':
            return
        lg = Log(c)
        q = probe(c)
        for a in range(nc):
            if which >= 0 and a != which:
                continue
            for part in (0, 1):
                at = 2 * a + part
                if not append:
                    name = [ord('c' if nc == 1 else 'xyz'[a]), ord('.'), ord('i' if part else 'r'), 0]
                    did = new_id(c, P(lg.n))
                    par = c.i(fid, 8)
                    lg.add(c.num(CREATE), c.l(fid, 0), par, *[c.num(x) for x in name], rank, *D)
                    c.set(ids, MID * at, 'l', did)
                    c.set(ids, MID * at + 8, 'i', par)
                else:
                    did, par = c.l(ids, MID * at), c.i(ids, MID * at + 8)
                v = value(*q, a)
                lg.add(c.num(WRITE), did, par, *n, *s, c.num(2 * nc), f + (16 * a + 8 * part), v.im if part else v.re)
        lg.done()


@contract('fieldio_write_real_vals', 'fieldio.c', 'P14', cfgs=('complex',), samples=0, variants=[dict(append=a) for a in (0, 1)], opts=dict(externals=EXT_IO))
class _:
    """the values go to the data set of that name, which is created unless it is appended to"""
    def setup(c, append):
        dims, _ = dims3(c, 'dims')
        ld, n = dims3(c, 'local_dims')
        start, _ = dims3(c, 'start')
        log_setup(c)
        probe_setup(c, n)
        v = c.array('vals', n[0] * n[1] * n[2], 'd')
        name = c.array('name', 4, 'b')
        return [v, c.int('rank', 1, 3), dims, ld, start, c.struct('fid', 'matrixio_id'), c.num(append), name, c.struct('id', 'matrixio_id')]

    def spec(c, v, rank, dims, ld, start, fid, append, name, did):
        D, n, s = ([c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start))
        rank = c.num(3) if not c.if_(c.eq(D[2], 1)) else c.num(1) if c.if_(c.eq(D[1], 1)) else c.num(2)
        lg = Log(c)
        i, par = c.l(did, 0), c.i(did, 8)
        if not ival(append) or c.if_(c.lt(i, 0)):
            i = new_id(c, P(lg.n))
            par = c.i(fid, 8)
            lg.add(c.num(CREATE), c.l(fid, 0), par, *name3(c, name), c.rd(name, 3, 'b'), rank, *D)
            c.set(did, 0, 'l', i)
            c.set(did, 8, 'i', par)
        q = probe(c)
        lg.add(c.num(WRITE), i, par, *n, *s, c.num(1), v, c.d(v, 8 * ((q[0] * n[1] + q[1]) * n[2] + q[2])))
        lg.done()


# ------------------------------------------------------------------ the other half of the cell

INPLACE = 'in-place exchange of mirrored points: compared with the contract on samples (grids of up to 7 points along each axis)'


def half(c, d, nc, get, put, ph):
    """new point (o, j) of the half that is not stored = (conjugate of the phase-corrected value at) its mirror image"""
    m = c.S(d, 'maxwell_data')
    n = [int(x) for x in (m.nx, m.ny, m.nz)]
    a = 2 if n[2] > 1 else 1 if n[1] > 1 else 0
    st = int(m.last_dim_size) // 2
    new = n[a] - st
    oth = [x for i, x in enumerate(n) if i != a]
    for o0 in range(oth[0]):
        for o1 in range(oth[1]):
            s0, s1 = (-o0) % oth[0], (-o1) % oth[1]
            for j in range(new):
                src = (s0 * oth[1] + s1) * st + new - j
                R = [0.0, 0.0, 0.0]
                for i, x in zip([i for i in range(3) if i != a], (s0, s1)):
                    R[i] = float(x != 0)
                R[a] = 1.0
                for k in range(nc):
                    v = get(nc * src + k)
                    if ph is not None:
                        th = -2 * math.pi * sum(x * y for x, y in zip(ph, R))
                        v = (v * Cx(math.cos(th), math.sin(th))).conj()
                    put(nc * ((o0 * oth[1] + o1) * new + j) + k, v)


def half_setup(c, nc, elem):
    r = c.rng
    k = r.randint(0, 2)
    dims = {0: (r.randint(2, 7), 1, 1), 1: (r.randint(1, 7), r.randint(2, 7), 1), 2: (r.randint(1, 7), r.randint(1, 6), r.randint(2, 7))}[k]
    d = c.mdata('d', dims=dims)
    m = c.S(d, 'maxwell_data')
    n = int(m.nx) * int(m.ny) * int(m.nz)
    st = int(m.last_dim_size) // 2
    last = dims[2] if dims[2] > 1 else dims[1] if dims[1] > 1 else dims[0]
    f = c.array('field', n // last * st * nc, elem)
    return d, f


for fn_, nc_ in (('maxwell_vectorfield_otherhalf', 3), ('maxwell_cscalarfield_otherhalf', 1), ('maxwell_scalarfield_otherhalf', 1)):
    def _one(fn_, nc_):
        real = fn_ == 'maxwell_scalarfield_otherhalf'

        @contract(fn_, 'maxwell_op.c', 'P14', cfgs=('inv',), samples=60, bounded=INPLACE)
        class _:
            def setup(c):
                d, f = half_setup(c, nc_, 'd' if real else 'zc')
                return [d, f] + ([] if real else [c.rng.choice([0.0, 0.5, c.rng.uniform(-1, 1)]) for _ in range(3)])

            def spec(c, d, f, *ph):
                c.scratch(f)
                if real:
                    half(c, d, 1, lambda i: c.d(f, 8 * i), lambda i, v: c.set(f, 8 * i, 'd', v), None)
                else:
                    half(c, d, nc_, lambda i: c.zc(f, i), lambda i, v: c.set_zc(f, i, v), ph)
    _one(fn_, nc_)


# ------------------------------------------------------------------ output of the loaded field

SCALAR, TENSOR = 7, 8
FIELDS = 'fields.c'


def _x_file(eng, st, a, ins):
    return (new_id(SymC(eng, st, call=True), -1), P(1))


def _x_complex_field(c, f, rank, dims, ld, start, which, nc, k, fid, append, ids):
    ks = [c.num(0)] + [c.num(0)] * 3 if c.if_(c.isnull(k)) else [c.num(1)] + [c.d(k, 8 * i) for i in range(3)]
    event(c, c.num(WRITE), f, *[c.i(dims, 4 * i) for i in range(3)])
    lg = Log(c)
    lg.add(c.num(WRITE), f, *[c.i(p, 4 * i) for p in (dims, ld, start) for i in range(3)], which, nc, append)
    lg.add(c.num(WRITE), *ks, c.l(fid, 0), ids)
    lg.done()


def log_complex_field(c, lg, f, D, n, s, which, nc, k, append, ids):
    lg.add(c.num(WRITE), f, *D, *n, *s, which, c.num(nc), c.num(append))
    lg.add(c.num(WRITE), *([c.num(0)] * 4 if k is None else [c.num(1)] + list(k)), new_id(c, -1))


def _x_cf(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    f, rank, dims, ld, start, which, nc, k, fid, append, ids = a
    lg = Log(c)
    log_complex_field(c, lg, f, *[[c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start)], which, ival(nc),
                      None if c.if_(c.isnull(k)) else [c.d(k, 8 * i) for i in range(3)], ival(append), ids)
    lg.done()
    st.mem = c.apply(st.mem)


def _x_half(kind):
    def f(c, d, f, *ph):
        event(c, c.num(HALF), c.num(kind), d, f, *ph)
    return _lib(f)


def log_scalar(c, lg, f, D, n, s, name, ldi, lds, ldn, fds, fdn, w0):
    lg.add(c.num(SCALAR), f, *D, *n, *s)
    lg.add(c.num(SCALAR), new_id(c, -1), *name, ldi, lds, ldn, fds, fdn, w0)


def _x_scalar(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    f, dims, ld, start, fid, par, name, ldi, lds, ldn, fds, fdn, w0 = a
    lg = Log(c)
    nm = [c.num(0)] * 4 if name.obj.startswith('@') or 'str' in name.obj else [c.num(1)] + [c.l(name, 8 * i) for i in range(3)]
    log_scalar(c, lg, f, *[[c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start)], nm, ldi, lds, ldn, fds, fdn, w0)
    lg.done()
    st.mem = c.apply(st.mem)


def _x_sprintf(eng, st, a, ins):
    """the text is not modelled; of a name made of a word and two letters, the length of the word and the letters are kept"""
    c = SymC(eng, st, call=True)
    if len(a) == 5 and isinstance(a[2], Ptr) and not isinstance(a[3], Ptr):
        n = eng.libfn('strlen', st, [a[2]]) if hasattr(eng, 'libfn') else __import__('execu').b_strlen(eng, st, [a[2]], ins)
        for i, v in enumerate((n, a[3], a[4])):
            c.set(a[0], 8 * i, 'l', v)
        st.mem = c.apply(st.mem)
    return P(0)


def _x_attr(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    fid, par, name, val, rank, dims = a
    r = ival(rank)
    lg = Log(c)
    lg.add(c.num(ATTR), fid, rank, *[c.i(dims, 4 * i) for i in range(r)], *[c.d(val, 8 * i) for i in range(3 ** r)])
    lg.done()
    st.mem = c.apply(st.mem)


def _x_tensor(c, a, b, im, inv):
    event(c, c.num(TENSOR), a, b, im, inv)


def _nop(eng, st, a, ins):
    return P(0)


EXT_F = dict(matrixio_create=_x_file, fieldio_write_complex_field=_x_cf, maxwell_vectorfield_otherhalf=_x_half(3), maxwell_cscalarfield_otherhalf=_x_half(1),
             output_scalarfield=_x_scalar, sprintf=_x_sprintf, matrixio_write_data_attr=_x_attr, matrixio_write_string_attr=_nop, matrixio_close=_nop,
             matrixio_close_dataset=_nop, get_epsilon_tensor=_lib(_x_tensor), fix_fname=lambda eng, st, a, ins: Ptr('fname2', terms.ZERO), strcat=lambda eng, st, a, ins: a[0])


@contract('output_field_to_file', FIELDS, 'P14', cfgs=('complex', 'inv'), samples=0, variants=[dict(t=t, which=w) for t in 'dvCnR?' for w in ((-1, 1) if t in 'dvC' else (-1,))],
          opts=dict(externals=EXT_F, may_die=True, unroll_all=True, timeout=200))
class _:
    """the loaded field (times its Bloch phase unless its wavevector is unknown) goes to the file at its place in the whole grid; in the
    inversion-symmetric build the other half is then written after it; epsilon with all six components of it and of its inverse"""
    def setup(c, t, which):
        n = [c.int('n' + w, 1) for w in 'xyz']
        lds = c.int('last_dim_size', 2)
        d = c.struct('d', 'maxwell_data', nx=n[0], ny=n[1], nz=n[2], local_nx=n[0], local_x_start=c.num(0), last_dim_size=lds)
        f = c.array('curfield', 0, 'd')
        c.poke(c.global_('mdata', FIELDS), 0, 'p', d)
        c.poke(c.global_('curfield', FIELDS), 0, 'p', f)
        c.poke(c.global_('curfield_type', FIELDS), 0, 'b', c.num(ord(t)))
        log_setup(c)
        c.array('fname2', 0, 'b')
        c.poke_field(c.global_('freqs', FIELDS), 'number_list', 'items', c.array('freqs', 0, 'd')) if False else None
        return [c.num(which), c.array('prefix', 0, 'b')]

    def spec(c, which, prefix):
        d = c.p(c.global_('mdata', FIELDS), 0)
        f = c.p(c.global_('curfield', FIELDS), 0)
        t = chr(ival(c.rd(c.global_('curfield_type', FIELDS), 0, 'b')))
        m = c.S(d, 'maxwell_data')
        D = [m.nx, m.ny, m.nz]
        n, s = list(D), [c.num(0)] * 3
        R = c.global_('R', FIELDS)
        R = [[c.d(R, 8 * (3 * i + j)) for j in range(3)] for i in range(3)]
        K = c.field(d, 'maxwell_data', 'current_k')
        K = [c.d(K, 8 * i) for i in range(3)]
        k = [sum((R[i][j] * K[j] for j in range(3)), c.num(0)) for i in range(3)]
        if t in 'Rv':
            k = [c.num(0)] * 3
        a = new = first = None
        extra = [c.num(0)] * 6
        if not c.complex:
            a = 2 if not c.if_(c.eq(D[2], 1)) else 1 if not c.if_(c.eq(D[1], 1)) else 0
            st = c.idiv(m.last_dim_size, 2)
            n[a] = st
            n2, s2 = list(n), list(s)
            n2[a], s2[a] = D[a] - st, st
            extra = [c.num(a), st, D[a] - st, s2[0], n2[0], c.num(0)]
        lg = Log(c)
        nc = 3 if t in 'dhbecv' else 1
        if t in 'dhbecvC':
            log_complex_field(c, lg, f, D, n, s, which, nc, k, 0, None)
            if not c.complex:
                lg.add(c.num(HALF), c.num(nc), d, f, *k)
                log_complex_field(c, lg, f, D, n2, s2, which, nc, None, 1, None)
            lg.add(c.num(ATTR), new_id(c, -1), c.num(1), c.num(3), *k)
        elif t in 'DHBnmR':
            z4 = [c.num(0)] * 4
            log_scalar(c, lg, f, D, n, s, z4, *extra)
            if t == 'n':
                for inv in (0, 1):
                    for i in range(3):
                        for j in range(i, 3):
                            lg.add(c.num(TENSOR), c.num(i), c.num(j), c.num(0), c.num(inv))
                            name = [c.num(1), c.num(15 if inv else 7), c.num(ord('x') + i), c.num(ord('x') + j)]
                            log_scalar(c, lg, f, D, n, s, name, *extra)
        if t != '?':
            lg.add(c.num(ATTR), new_id(c, -1), c.num(2), c.num(3), c.num(3), *[R[i][j] for i in range(3) for j in range(3)])
        lg.done()
        c.set(c.global_('curfield', FIELDS), 0, 'p', NULL)
        c.set(c.global_('curfield_type', FIELDS), 0, 'b', c.num(ord('-')))


def log_vals(c, lg, v, D, n, s, append, name, at):
    lg.add(c.num(WRITE), v, *D, *n, *s, append, name, at)


def _x_vals(eng, st, a, ins):
    c = SymC(eng, st, call=True)
    v, rank, dims, ld, start, fid, append, name, did = a
    lg = Log(c)
    first = c.lt(c.l(did, 0), 0)
    log_vals(c, lg, v, *[[c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start)], append, name, c.l(did, 0))
    lg.done()
    if c.if_(c.eq(append, 0)):
        c.set(did, 0, 'l', new_id(c, -2))
    st.mem = c.apply(st.mem)


EXT_S = dict(fieldio_write_real_vals=_x_vals, maxwell_scalarfield_otherhalf=_x_half(0), matrixio_close_dataset=_nop)


@contract('output_scalarfield', FIELDS, 'P14', static=True, cfgs=('complex', 'inv'), samples=0, variants=[dict(special=s) for s in (0, 1)], opts=dict(externals=EXT_S, timeout=100, peel=0))
class _:
    """the stored points, then (inversion-symmetric build) the other half at its place, split in two where it is not contiguous"""
    def setup(c, special):
        ps = []
        for nm in ('dims', 'local_dims', 'start'):
            ps.append(dims3(c, nm)[0])
        log_setup(c)
        c.poke(c.global_('mdata', FIELDS), 0, 'p', c.struct('d', 'maxwell_data'))
        name = c.array('name', 8, 'b')
        ld = c.int('last_index', 0)
        c.assume(c.le(ld, 2))
        return [c.array('vals', 0, 'd')] + ps + [c.int('fid', 0), c.num(1), name, ld, c.int('lds', 0), c.int('ldn', 0), c.int('fds', 0), c.int('fdn', 0), c.num(special)]

    def spec(c, v, dims, ld, start, fid, par, name, ax, lds, ldn, fds, fdn, special):
        D, n, s = ([c.i(p, 4 * i) for i in range(3)] for p in (dims, ld, start))
        lg = Log(c)
        log_vals(c, lg, v, D, n, s, c.num(0), name, c.num(-1))
        if not c.complex:
            did = new_id(c, -2)
            lg.add(c.num(HALF), c.num(0), c.p(c.global_('mdata', FIELDS), 0), v)
            n, s = list(n), list(s)
            for i in range(3):
                if c.if_(c.eq(ax, i)):
                    s[i], n[i] = lds, ldn
                    break
            s[0], n[0] = fds, fdn
            if ival(special):
                log_vals(c, lg, v + 8 * n[1] * n[2], D, n, s, c.num(1), name, did)
                n[0], s[0] = c.num(1), c.num(0)
            log_vals(c, lg, v, D, n, s, c.num(1), name, did)
        lg.done()
