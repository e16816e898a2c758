"""division of work: process groups, grid points per process (serial: all of them), arrays of a maxwell_data"""
from contract import *
from common import *
from lemma import lemma


@contract('divide_parallel_processes', 'mpi_utils.c', 'P20', cfgs=('complex',))
class _:
    """the serial build accepts exactly one group, and this process is in group 0"""
    def setup(c):
        return [c.int('numgroups', None if c.mode == 'sym' else -1, 3)]

    def spec(c, n):
        c.dies_if(c.ne(n, 1))
        c.ret(0)


@contract('my_global_rank', 'mpi_utils.c', 'P20', cfgs=('complex',))
class _:
    def setup(c):
        return []

    def spec(c):
        c.ret(0)


def x_comm_size(eng, st, args, ins):
    c = SymC(eng, st, call=True)
    c.set_i(args[1], 0, c.fn_int('mpi.size'))
    st.mem = c.apply(st.mem)
    return ZERO


@contract('create_maxwell_data', 'maxwell.c', 'P20 P03', cfgs=('complex', 'inv'), variants=[dict(rank=r) for r in (1, 2, 3)])
class _:
    """one process holds the whole grid: every local count is the total count and every offset 0; half of the last dimension
    (rounded up, plus one) is stored when the fields are real in reciprocal space"""
    def setup(c, rank):
        lo = 1 if c.complex or c.mode == 'sym' else 2
        n = [c.int(x, lo, 4) for x in ('nx', 'ny', 'nz')[:rank]] + [c.num(1)] * (3 - rank)
        if rank > 1:
            c.assume(c.lt(1, n[rank - 1]))
        o = [c.array(x, 1, 'i') for x in ('local_N', 'N_start', 'alloc_N')]
        return n + o + [c.int('num_bands', 1, 5), c.int('max_fft_bands', 1, 3)]

    def spec(c, nx, ny, nz, local_N, N_start, alloc_N, nb, mfb):
        N = nx * ny * nz
        if c.if_(c.eq(nz, 1)):
            last = nx if c.if_(c.eq(ny, 1)) else ny
            other = c.num(1) if c.if_(c.eq(ny, 1)) else nx
        else:
            last, other = nz, nx * ny
        lds = last if c.complex else (c.idiv(last, 2) + 1) * 2
        fo = N if c.complex else other * (c.idiv(last, 2) + 1)
        fsz = N if c.complex else fo * 2
        d = c.malloc(c.fsize('maxwell_data'))
        mf = c.ite(c.lt(nb, mfb), nb, mfb)
        z = c.num(0)
        for f, v in dict(nx=nx, ny=ny, nz=nz, max_fft_bands=mf, num_bands=nb, num_fft_bands=mf, parity=z, last_dim=last, last_dim_size=lds,
                         nplans=z, local_nx=nx, local_ny=ny, local_x_start=z, local_y_start=z, other_dims=other, fft_output_size=fo,
                         local_N=N, N_start=z, alloc_N=N, N=N).items():
            c.set_field(d, 'maxwell_data', f, v)
        off, _ = c.lay.field('maxwell_data', 'current_k')
        for q in range(3):
            c.set(d, off + 8 * q, 'd', c.num(0))
        c.set_field(d, 'maxwell_data', 'eps_inv_mean', c.num(1))
        c.set_field(d, 'maxwell_data', 'mu_inv_mean', c.num(1))
        c.set_field(d, 'maxwell_data', 'mu_inv', c.null())
        data = c.malloc(fsz * mf * 3 * (16 if c.complex else 8))
        c.set_field(d, 'maxwell_data', 'fft_data', data)
        c.set_field(d, 'maxwell_data', 'fft_data2', data)
        c.set_field(d, 'maxwell_data', 'eps_inv', c.malloc(fo * c.fsize('symmetric_matrix')))
        c.set_field(d, 'maxwell_data', 'k_plus_G', c.malloc(N * c.fsize('k_data')))
        c.set_field(d, 'maxwell_data', 'k_plus_G_normsqr', c.malloc(N * 8))
        c.set_i(local_N, 0, N)
        c.set_i(alloc_N, 0, N)
        c.set_i(N_start, 0, z)
        c.ret(d)


def _mpi_int(name):
    def h(eng, st, args, ins):
        c = SymC(eng, st, call=True)
        c.set_i(args[1], 0, P(sym(name, 'int')))
        st.mem = c.apply(st.mem)
        return ZERO
    return h


@contract('divide_parallel_processes', 'mpi_utils.c', 'P20', cfgs=('mpi',), samples=0,
          opts=dict(externals={'MPI_Comm_size': _mpi_int('mpi_size'), 'MPI_Comm_rank': _mpi_int('mpi_rank'), 'MPI_Comm_free': execu.b_nop, 'MPI_Comm_split': execu.b_nop}))
class _:
    """process r of s is put into group floor(r n / s); more groups than processes, or none, is an error"""
    def setup(c):
        s, r = c.int('mpi_size', 1), c.int('mpi_rank', 0)
        c.assume(c.lt(r, s))
        return [c.int('numgroups')]

    def spec(c, n):
        s, r = P(sym('mpi_size', 'int')), P(sym('mpi_rank', 'int'))
        c.dies_if(c.or_(c.lt(n, 1), c.lt(s, n)))
        for g in ('mpb_comm', 'mpb_comm_save'):
            c.scratch(c.global_(g, 'mpi_utils.c'))
        c.ret(c.idiv(r * n, s))


@lemma('groups_cover_the_processes_evenly', 'P20')
def _(c):
    s, n, r, g, q, m = [c.int(x, 0) for x in ('s', 'n', 'r', 'g', 'q', 'm')]
    a, b = c.int('a', 0), c.int('b', 0)
    base = c.facts | {le(1, n), le(n, s)}
    # g = floor(r n / s)
    c.facts = base | {lt(r, s), le(g * s, r * n), lt(r * n, g * s + s)}
    c.prove('group number below the number of groups', lt(g, n))
    # first process of group g: a = ceil(g s / n); of the next group: b;  s = q n + m
    c.facts = base | {lt(g, n), le(g * s, n * a), lt(n * a, g * s + n), le(g * s + s, n * b), lt(n * b, g * s + s + n), eq(s, q * n + m), lt(m, n), le(1, q)}
    c.prove('group size at least floor(s / n)', le(q, b - a))
    c.prove('group size at most floor(s / n) + 1', le(b - a, q + 1))
    # membership: a <= r < b  <=>  floor(r n / s) = g
    f = c.facts
    c.facts = f | {le(a, r), lt(r, b)}
    c.prove('members are in the group (1)', le(g * s, r * n))
    c.prove('members are in the group (2)', lt(r * n, g * s + s))
    c.facts = f | {lt(r, a)}
    c.prove('smaller ranks are in earlier groups', lt(r * n, g * s))
    c.facts = f | {le(b, r)}
    c.prove('larger ranks are in later groups', le(g * s + s, r * n))
