"""matrices/matrices.c, evectmatrix.c, sqmatrix.c"""
from common import *
import ext
import blas
import contract as _cc

_cc.IGNORED_GLOBALS.add('evectmatrix_flops')


class SQ:
    """square matrix view"""

    def __init__(self, c, a):
        self.c = c
        if isinstance(a, SqArg):
            self.p, self.alloc_p, self.data = a.p, a.alloc_p, a.data
        else:
            s = c.S(a, 'sqmatrix')
            self.p, self.alloc_p, self.data = s.p, s.alloc_p, s.data

    def z(self, i, j):
        return self.c.z(self.data, i * self.p + j)

    def el(self, dag):
        return (lambda i, j: self.z(j, i).conj()) if dag else self.z

    def set(self, i, j, v, g=None):
        self.c.set_z(self.data, i * self.p + j, v, g)


def sq_setup(c, name, p=None, data=None, alloc=None):
    p = p if p is not None else c.int(name + '_p', 1, 4)
    alloc = alloc if alloc is not None else p
    data = data if data is not None else c.array(name + '_data', alloc * alloc, 'z')
    return SqArg(p, alloc, data)


# ------------------------------------------------------------------ matrices.c

@contract('create_evectmatrix', 'matrices.c', 'P09')
class _:
    def setup(c):
        N = c.int('N', 1, 4)
        return (c.struct('result', 'evectmatrix'), N, c.int('c', 1, 2), c.int('p', 1, 3), c.int('localN', 0, 4), c.int('Nstart', 0, 3), c.int('allocN', 0, 5))

    def spec(c, res, N, cc, p, localN, Nstart, allocN):
        c.dies_if(c.not_(c.and_(c.le(localN, N), c.le(localN, allocN), c.lt(Nstart, N))))
        s = c.S(res, 'evectmatrix')
        if c.if_(c.lt(0, allocN)):
            s.data = c.malloc(allocN * cc * p * c.ss)
        else:
            s.data = c.null()
        s.N, s.localN, s.Nstart, s.allocN, s.c = N, localN, Nstart, allocN, cc
        s.n, s.p, s.alloc_p = localN * cc, p, p


@contract('create_sqmatrix', 'matrices.c', 'P09')
class _:
    def setup(c):
        return (c.int('p', 0, 4),)

    def spec(c, p):
        c.ret((Pack(p, p), c.malloc(p * p * c.ss) if c.if_(c.lt(0, p)) else c.null()))


@contract('destroy_evectmatrix', 'matrices.c', 'P09', samples=0)
class _:
    def setup(c):
        return (ev_setup(c, 'X'),)

    def spec(c, X):
        pass


@contract('destroy_sqmatrix', 'matrices.c', 'P09', samples=0)
class _:
    def setup(c):
        return (sq_setup(c, 'X'),)

    def spec(c, X):
        pass


def np_setup(c):
    n, p = c.int('n', 0, 4), c.int('p', 1, 4)
    return n, p, c.array('X', n * p, 'z'), c.array('Y', n * p, 'z')


@contract('matrix_XtY_diag', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, Y, n, p, c.array('diag', p, 'z')

    def spec(c, X, Y, n, p, diag):
        c.each(p, lambda j: c.set_z(diag, j, c.csum(n, lambda i: c.z(X, i * p + j).conj() * c.z(Y, i * p + j))))


@contract('matrix_XtY_diag_real', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, Y, n, p, c.array('diag', p, 'd')

    def spec(c, X, Y, n, p, diag):
        c.each(p, lambda j: c.set(diag, j * 8, 'd', c.csum(n, lambda i: c.z(X, i * p + j).conj() * c.z(Y, i * p + j)).re))


@contract('matrix_XtX_diag_real', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, n, p, c.array('diag', p, 'd')

    def spec(c, X, n, p, diag):
        c.each(p, lambda j: c.set(diag, j * 8, 'd', c.csum(n, lambda i: c.z(X, i * p + j).conj() * c.z(X, i * p + j)).re))


@contract('matrix_XpaY_diag', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, c.real('a'), Y, c.array('diag', p, 'z'), n, p

    def spec(c, X, a, Y, diag, n, p):
        c.each(n, p, lambda i, j: c.set_z(X, i * p + j, c.z(X, i * p + j) + c.z(Y, i * p + j) * c.z(diag, j) * a))


@contract('matrix_XpaY_diag_real', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, c.real('a'), Y, c.array('diag', p, 'd'), n, p

    def spec(c, X, a, Y, diag, n, p):
        c.each(n, p, lambda i, j: c.set_z(X, i * p + j, c.z(X, i * p + j) + c.z(Y, i * p + j) * (c.d(diag, 8 * j) * a)))


@contract('matrix_X_diag_real_pY_diag_real', 'matrices.c', 'P09')
class _:
    def setup(c):
        n, p, X, Y = np_setup(c)
        return X, c.array('diag1', p, 'd'), Y, c.array('diag2', p, 'd'), n, p

    def spec(c, X, d1, Y, d2, n, p):
        c.each(n, p, lambda i, j: c.set_z(X, i * p + j, c.z(X, i * p + j) * c.d(d1, 8 * j) + c.z(Y, i * p + j) * c.d(d2, 8 * j)))


@contract('matrix_re_trace_A_diag_real', 'matrices.c', 'P09')
class _:
    def setup(c):
        p = c.int('p', 0, 4)
        return c.array('A', p * p, 'z'), c.array('diag', p, 'd'), p

    def spec(c, A, diag, p):
        c.ret(c.sum(p, lambda i: c.z(A, i * p + i).re * c.d(diag, 8 * i)))


@contract('matrix_diag_trace', 'matrices.c', 'P09')
class _:
    def setup(c):
        p = c.int('p', 0, 4)
        return c.array('diag', p, 'z'), p

    def spec(c, diag, p):
        r = c.csum(p, lambda i: c.z(diag, i))
        c.ret(r if c.complex else r.re)


@contract('matrix_diag_real_trace', 'matrices.c', 'P09')
class _:
    def setup(c):
        p = c.int('p', 0, 4)
        return c.array('diag', p, 'd'), p

    def spec(c, diag, p):
        c.ret(c.sum(p, lambda i: c.d(diag, 8 * i)))


# ------------------------------------------------------------------ evectmatrix.c

def scratch_unless(c, S, *others):
    c.scratch(S)


@contract('evectmatrix_copy', 'evectmatrix.c', 'P09', variants=({'same': 0}, {'same': 1}))
class _:
    def setup(c, same):
        X = ev_setup(c, 'X')
        return X, X if same else ev_setup(c, 'Y')

    def spec(c, X, Y):
        A, B = EV(c, X), EV(c, Y)
        c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p))))
        if A.data.obj == B.data.obj and c.same(A.data, B.data):
            return
        c.each(A.n, A.p, lambda i, j: A.set(i, j, B.z(i, j)))


@contract('evectmatrix_copy_slice', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n = c.int('n', 1, 4)
        return ev_setup(c, 'X', n=n), ev_setup(c, 'Y', n=n), c.int('ix', -1, 3), c.int('iy', -1, 3), c.int('p', 0, 4)

    def spec(c, X, Y, ix, iy, p):
        A, B = EV(c, X), EV(c, Y)
        c.dies_if(c.not_(c.and_(c.le(ix + p, A.p), c.le(iy + p, B.p), c.le(0, ix), c.le(0, iy), c.eq(A.n, B.n))))
        c.requires(A.data.obj != B.data.obj or c.same(A.data, B.data), 'distinct or identical data')
        if A.data.obj == B.data.obj and c.same(A.data, B.data) and c.if_(c.eq(ix, iy)):
            return
        c.each(A.n, p, lambda i, j: A.set(i, ix + j, B.z(i, iy + j)))


@contract('evectmatrix_resize', 'evectmatrix.c', 'P09', variants=[dict(pres=x) for x in (0, 1)])
class _:
    """the leading min(old, new) columns keep their entries"""
    def setup(c, pres):
        ap = c.int('alloc_p', 1, 5)
        n = c.int('n', 1, 4)
        A = c.struct('A', 'evectmatrix', n=n, alloc_p=ap, p=c.int('Ap', 1, 5), data=c.array('data', n * 5, 'z'))
        return A, c.int('p', 1, 6), c.num(pres)

    def spec(c, Ap, p, pres):
        A = EV(c, Ap)
        c.dies_if(c.lt(A.s.alloc_p, p))
        old = A.p
        if c.if_(c.ne(pres, 0)):
            if c.if_(c.ne(p, old)):
                m = p if c.if_(c.lt(p, old)) else old
                c.scratch(A.data)
                c.each(A.n, m, lambda i, j: c.set_z(A.data, i * p + j, c.z(A.data, i * old + j)))
        A.s.p = p


@contract('evectmatrix_aXpbY', 'evectmatrix.c', 'P09', variants=({'same': 0}, {'same': 1}))
class _:
    def setup(c, same):
        X = ev_setup(c, 'X')
        return c.real('a'), X, c.real('b'), X if same else ev_setup(c, 'Y')

    def spec(c, a, X, b, Y):
        A, B = EV(c, X), EV(c, Y)
        c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p))))
        c.each(A.n, A.p, lambda i, j: A.set(i, j, A.z(i, j) * a + B.z(i, j) * b))


def ays(c, a, X, b, Y, S, Soffset, sdag):
    A, B, S = EV(c, X), EV(c, Y), SQ(c, S)
    if c.if_(c.eq(S.p, 0)):
        c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p))))
        c.each(A.n, A.p, lambda i, j: A.set(i, j, A.z(i, j) * a + B.z(i, j) * b))
        return
    c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p), c.le(A.p, S.p))))
    c.dies_if(c.lt(S.p * S.p, Soffset + (B.p - 1) * S.p + B.p))
    c.requires(A.data.obj != B.data.obj and S.data.obj != A.data.obj, 'output distinct')
    dag = c.if_(c.ne(sdag, 0))

    def s(l, j):
        if dag:
            return c.z(S.data, Soffset + j * S.p + l).conj()
        return c.z(S.data, Soffset + l * S.p + j)
    c.each(A.n, A.p, lambda i, j: A.set(i, j, A.z(i, j) * a + c.csum(A.p, lambda l: B.z(i, l) * s(l, j)) * b))


@contract('evectmatrix_aXpbYS_sub', 'evectmatrix.c', 'P09', variants=[dict(dag=x, sp0=y) for x in (0, 1) for y in (0, 1)])
class _:
    def setup(c, dag, sp0):
        n, p = c.int('n', 0, 4), c.int('p', 1, 3)
        X, Y = ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p)
        sp = c.num(0) if sp0 else c.int('Sp', 3, 5)
        if not sp0:
            c.assume(c.le(1, sp))
        return c.real('a'), X, c.real('b'), Y, sq_setup(c, 'S', sp), c.int('Soffset', 0, 2), c.num(dag)

    def spec(c, a, X, b, Y, S, Soffset, sdag):
        ays(c, a, X, b, Y, S, Soffset, sdag)


@contract('evectmatrix_XeYS', 'evectmatrix.c', 'P09', variants=[dict(sherm=x) for x in (0, 1)])
class _:
    """X = Y S;  sherm promises S = S^dagger, so that S^dagger may be used"""
    def setup(c, sherm):
        n, p = c.int('n', 0, 4), c.int('p', 1, 3)
        return ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p), sq_setup(c, 'S', p if c.mode == 'con' else None), c.num(sherm)

    def spec(c, X, Y, S, sherm):
        B, s = EV(c, Y), SQ(c, S)
        c.dies_if(c.not_(c.or_(c.eq(s.p, 0), c.eq(s.p, B.p))))
        ays(c, c.num(0), X, c.num(1), Y, S, c.num(0), sherm)


@contract('evectmatrix_XpaYS', 'evectmatrix.c', 'P09', variants=[dict(dag=x) for x in (0, 1)])
class _:
    def setup(c, dag):
        n, p = c.int('n', 0, 4), c.int('p', 1, 3)
        return ev_setup(c, 'X', n=n, p=p), c.real('a'), ev_setup(c, 'Y', n=n, p=p), sq_setup(c, 'S', p if c.mode == 'con' else None), c.num(dag)

    def spec(c, X, a, Y, S, dag):
        B, s = EV(c, Y), SQ(c, S)
        c.dies_if(c.not_(c.or_(c.eq(s.p, 0), c.eq(s.p, B.p))))
        ays(c, c.num(1), X, a, Y, S, c.num(0), dag)


@contract('evectmatrix_XtX', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        X = ev_setup(c, 'X')
        p = c.S(X, 'evectmatrix').p
        return sq_setup(c, 'U', p), X, sq_setup(c, 'S', p)

    def spec(c, U, X, S):
        A, U, S = EV(c, X), SQ(c, U), SQ(c, S)
        c.dies_if(c.not_(c.and_(c.eq(A.p, U.p), c.le(U.p, S.alloc_p))))
        c.requires(S.data.obj != A.data.obj and U.data.obj != A.data.obj, 'distinct outputs')
        if S.data.obj != U.data.obj:
            c.scratch(S.data)
        c.each(U.p, U.p, lambda i, j: U.set(i, j, c.csum(A.n, lambda l: A.z(l, i).conj() * A.z(l, j))))


def xty(c, U, X, Y, ix, iy, p, q, iu):
    A, B = EV(c, X), EV(c, Y)
    c.each(p, q, lambda i, j: c.set_z(U.data, i * U.p + j + iu, c.csum(A.n, lambda l: A.z(l, ix + i).conj() * B.z(l, iy + j))))


@contract('evectmatrix_XtY_slice2', 'evectmatrix.c', 'P09', variants=({'alias': 0}, {'alias': 1}))
class _:
    """U[:, iu:iu+q] = X[:, ix:ix+p]^dagger Y[:, iy:iy+q]"""
    def setup(c, alias):
        n = c.int('n', 0, 4)
        X, Y = ev_setup(c, 'X', n=n), ev_setup(c, 'Y', n=n)
        p = c.int('p', 1, 4)
        U = sq_setup(c, 'U')
        q, iu = (p, c.num(0)) if alias else (c.int('q', 1, 4), c.int('iu', 0, 3))
        c.assume(c.le(iu + q, p))
        al = c.int('alloc', 1, 5)
        S1 = sq_setup(c, 'S1', alloc=al)
        c.assume(c.le(U.p, S1.alloc_p))
        return U, X, Y, c.int('ix', -1, 3), c.int('iy', -1, 3), p, q, iu, S1, U if alias else sq_setup(c, 'S2', alloc=c.int('alloc2', 1, 5))

    def spec(c, U, X, Y, ix, iy, p, q, iu, S1, S2):
        A, B, U, S1, S2 = EV(c, X), EV(c, Y), SQ(c, U), SQ(c, S1), SQ(c, S2)
        c.dies_if(c.not_(c.and_(c.le(ix + p, A.p), c.le(iy + q, B.p), c.le(0, ix), c.le(0, iy), c.eq(A.n, B.n), c.eq(p, U.p),
                                c.le(q, p), c.le(p, S1.alloc_p), c.le(p, S2.alloc_p))))
        c.requires(c.and_(c.le(0, iu), c.le(iu + q, p)), 'the destination columns lie in U')
        c.requires(S1.data.obj not in (A.data.obj, B.data.obj, U.data.obj) and S2.data.obj not in (A.data.obj, B.data.obj), 'scratch distinct')
        c.scratch(S1.data)
        if S2.data.obj != S1.data.obj and S2.data.obj != U.data.obj:
            c.scratch(S2.data)
        xty(c, U, X, Y, ix, iy, p, q, iu)


@contract('evectmatrix_XtY_slice', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n = c.int('n', 0, 4)
        return sq_setup(c, 'U'), ev_setup(c, 'X', n=n), ev_setup(c, 'Y', n=n), c.int('ix', -1, 3), c.int('iy', -1, 3), c.int('p', 1, 4), sq_setup(c, 'S', alloc=c.int('alloc', 1, 5))

    def spec(c, U, X, Y, ix, iy, p, S):
        A, B, U, S = EV(c, X), EV(c, Y), SQ(c, U), SQ(c, S)
        c.dies_if(c.not_(c.and_(c.le(ix + p, A.p), c.le(iy + p, B.p), c.le(0, ix), c.le(0, iy), c.eq(A.n, B.n), c.eq(p, U.p),
                                c.le(p, S.alloc_p), c.le(p, U.alloc_p))))
        c.requires(S.data.obj not in (A.data.obj, B.data.obj, U.data.obj), 'scratch distinct')
        c.scratch(S.data)
        xty(c, U, X, Y, ix, iy, p, p, c.num(0))


@contract('evectmatrix_XtY', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n, p = c.int('n', 0, 4), c.int('p', 1, 4)
        X, Y = ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p)
        return sq_setup(c, 'U', p), X, Y, sq_setup(c, 'S', p)

    def spec(c, U, X, Y, S):
        A, B, U, S = EV(c, X), EV(c, Y), SQ(c, U), SQ(c, S)
        c.dies_if(c.not_(c.and_(c.eq(A.p, B.p), c.eq(A.n, B.n), c.eq(A.p, U.p), c.le(A.p, S.alloc_p), c.le(A.p, U.alloc_p))))
        c.requires(S.data.obj not in (A.data.obj, B.data.obj, U.data.obj), 'scratch distinct')
        c.scratch(S.data)
        xty(c, U, X, Y, c.num(0), c.num(0), A.p, A.p, c.num(0))


@contract('evectmatrixXtY_sub', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n, p = c.int('n', 0, 4), c.int('p', 1, 3)
        X, Y = ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p)
        return sq_setup(c, 'U', c.int('Up', 3, 5)), c.int('Uoffset', 0, 3), X, Y, sq_setup(c, 'S', p)

    def spec(c, U, Uoff, X, Y, S):
        A, B, U, S = EV(c, X), EV(c, Y), SQ(c, U), SQ(c, S)
        c.dies_if(c.not_(c.and_(c.eq(A.p, B.p), c.eq(A.n, B.n), c.le(B.p, U.p))))
        c.dies_if(c.lt(U.p * U.p, Uoff + (B.p - 1) * U.p + B.p))
        c.dies_if(c.lt(S.alloc_p, B.p))
        c.requires(S.data.obj not in (A.data.obj, B.data.obj, U.data.obj), 'scratch distinct')
        c.scratch(S.data)
        c.each(B.p, B.p, lambda i, j: c.set_z(U.data, Uoff + i * U.p + j, c.csum(A.n, lambda l: A.z(l, i).conj() * B.z(l, j))))


@contract('evectmatrix_XtY_diag', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n, p = c.int('n', 0, 4), c.int('p', 1, 4)
        X, Y = ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p)
        return X, Y, c.array('diag', p, 'z'), c.array('scratch', p, 'z')

    def spec(c, X, Y, diag, scr):
        A, B = EV(c, X), EV(c, Y)
        if scr.obj != diag.obj:
            c.scratch(scr)
        c.each(A.p, lambda j: c.set_z(diag, j, c.csum(A.n, lambda i: c.z(A.data, i * A.p + j).conj() * c.z(B.data, i * A.p + j))))


@contract('evectmatrix_XtY_diag_real', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n, p = c.int('n', 0, 4), c.int('p', 1, 4)
        X, Y = ev_setup(c, 'X', n=n, p=p), ev_setup(c, 'Y', n=n, p=p)
        return X, Y, c.array('diag', p, 'd'), c.array('scratch', p, 'd')

    def spec(c, X, Y, diag, scr):
        A, B = EV(c, X), EV(c, Y)
        if scr.obj != diag.obj:
            c.scratch(scr)
        c.each(A.p, lambda j: c.set(diag, 8 * j, 'd', c.csum(A.n, lambda i: c.z(A.data, i * A.p + j).conj() * c.z(B.data, i * A.p + j)).re))


@contract('evectmatrix_XtX_diag_real', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        n, p = c.int('n', 0, 4), c.int('p', 1, 4)
        return ev_setup(c, 'X', n=n, p=p), c.array('diag', p, 'd'), c.array('scratch', p, 'd')

    def spec(c, X, diag, scr):
        A = EV(c, X)
        if scr.obj != diag.obj:
            c.scratch(scr)
        c.each(A.p, lambda j: c.set(diag, 8 * j, 'd', c.sum(A.n, lambda i: A.z(i, j).abs2())))


@contract('evectmatrix_traceXtY', 'evectmatrix.c', 'P09')
class _:
    def setup(c):
        return ev_setup(c, 'X'), ev_setup(c, 'Y')

    def spec(c, X, Y):
        A, B = EV(c, X), EV(c, Y)
        c.dies_if(c.not_(c.and_(c.eq(A.n, B.n), c.eq(A.p, B.p))))
        r = c.csum(A.n, lambda i: c.csum(A.p, lambda j: A.z(i, j).conj() * B.z(i, j)))
        c.ret(r if c.complex else r.re)


# ------------------------------------------------------------------ sqmatrix.c
import lap
import blas as _b


@contract('sqmatrix_assert_hermitian', 'sqmatrix.c', 'P09', samples=0)
class _:
    def setup(c):
        return (sq_setup(c, 'A'),)

    def spec(c, A):
        pass


@contract('sqmatrix_copy', 'sqmatrix.c', 'P09')
class _:
    def setup(c):
        return sq_setup(c, 'A'), sq_setup(c, 'B')

    def spec(c, A, B):
        A, B = SQ(c, A), SQ(c, B)
        c.dies_if(c.ne(A.p, B.p))
        if A.data.obj == B.data.obj and c.same(A.data, B.data):
            return
        c.each(A.p * A.p, lambda k: c.set_z(A.data, k, c.z(B.data, k)))


@contract('sqmatrix_resize', 'sqmatrix.c', 'P09', variants=[dict(pres=x) for x in (0, 1)])
class _:
    """the leading min(old, new) rows and columns keep their entries"""
    def setup(c, pres):
        A = c.struct('A', 'sqmatrix', p=c.int('Ap', 1, 5), alloc_p=c.int('alloc_p', 1, 5), data=c.array('data', 36, 'z'))
        return A, c.int('p', 1, 6), c.num(pres)

    def spec(c, Ap, p, pres):
        s = c.S(Ap, 'sqmatrix')
        old, data = s.p, s.data
        c.dies_if(c.lt(s.alloc_p, p))
        if c.if_(c.ne(pres, 0)):
            if c.if_(c.ne(p, old)):
                m = p if c.if_(c.lt(p, old)) else old
                c.scratch(data)
                c.each(m, m, lambda i, j: c.set_z(data, i * p + j, c.z(data, i * old + j)))
        s.p = p


@contract('sqmatrix_copy_upper2full', 'sqmatrix.c', 'P09', variants=({'same': 0}, {'same': 1}, {'same': 2}), opts=dict(may_only_die=True))
class _:
    def setup(c, same):
        U = sq_setup(c, 'U')
        if same == 2:
            F = sq_setup(c, 'F')
            c.assume(c.ne(F.p, U.p))
            return F, U
        return (U if same else sq_setup(c, 'F', U.p)), U

    def spec(c, F, U):
        F, U = SQ(c, F), SQ(c, U)
        c.dies_if(c.ne(F.p, U.p))
        c.each(U.p, U.p, lambda i, j: F.set(i, j, c.ite(c.lt(j, i), U.z(j, i).conj(), U.z(i, j))))


@contract('sqmatrix_symmetrize', 'sqmatrix.c', 'P09')
class _:
    def setup(c):
        A = sq_setup(c, 'A')
        return sq_setup(c, 'S', A.p if c.mode == 'con' else None), A

    def spec(c, S, A):
        S, A = SQ(c, S), SQ(c, A)
        c.dies_if(c.ne(S.p, A.p))
        c.requires(S.data.obj != A.data.obj, 'distinct')
        half = c.num(Fraction(1, 2)) if c.mode == 'sym' else 0.5
        c.each(A.p, A.p, lambda i, j: S.set(i, j, (A.z(i, j) + A.z(j, i).conj()) * half))


def rets(c, r):
    c.ret(r if c.complex else r.re)


@contract('sqmatrix_trace', 'sqmatrix.c', 'P09')
class _:
    def setup(c):
        return (sq_setup(c, 'A'),)

    def spec(c, A):
        A = SQ(c, A)
        rets(c, c.csum(A.p, lambda i: A.z(i, i)))


@contract('sqmatrix_traceAtB', 'sqmatrix.c', 'P09')
class _:
    def setup(c):
        return sq_setup(c, 'A'), sq_setup(c, 'B')

    def spec(c, A, B):
        A, B = SQ(c, A), SQ(c, B)
        c.dies_if(c.ne(A.p, B.p))
        rets(c, c.csum(A.p, lambda i: c.csum(A.p, lambda j: A.z(i, j).conj() * B.z(i, j))))


@contract('sqmatrix_AeBC', 'sqmatrix.c', 'P09', variants=[dict(b=x, d=y) for x in (0, 1) for y in (0, 1)])
class _:
    def setup(c, b, d):
        A = sq_setup(c, 'A')
        q = A.p if c.mode == 'con' else None
        return A, sq_setup(c, 'B', q), c.num(b), sq_setup(c, 'C', q), c.num(d)

    def spec(c, A, B, bd, C, cd):
        A, B, C = SQ(c, A), SQ(c, B), SQ(c, C)
        c.dies_if(c.not_(c.and_(c.eq(A.p, B.p), c.eq(A.p, C.p))))
        c.requires(A.data.obj not in (B.data.obj, C.data.obj), 'distinct')
        b, d = B.el(c.if_(c.ne(bd, 0))), C.el(c.if_(c.ne(cd, 0)))
        c.each(A.p, A.p, lambda i, j: A.set(i, j, c.csum(A.p, lambda l: b(i, l) * d(l, j))))


@contract('sqmatrix_ApaBC', 'sqmatrix.c', 'P09', variants=[dict(b=x, d=y) for x in (0, 1) for y in (0, 1)])
class _:
    def setup(c, b, d):
        A = sq_setup(c, 'A')
        q = A.p if c.mode == 'con' else None
        return A, c.real('a'), sq_setup(c, 'B', q), c.num(b), sq_setup(c, 'C', q), c.num(d)

    def spec(c, A, a, B, bd, C, cd):
        A, B, C = SQ(c, A), SQ(c, B), SQ(c, C)
        c.dies_if(c.not_(c.and_(c.eq(A.p, B.p), c.eq(A.p, C.p))))
        c.requires(A.data.obj not in (B.data.obj, C.data.obj), 'distinct')
        b, d = B.el(c.if_(c.ne(bd, 0))), C.el(c.if_(c.ne(cd, 0)))
        c.each(A.p, A.p, lambda i, j: A.set(i, j, A.z(i, j) + c.csum(A.p, lambda l: b(i, l) * d(l, j)) * a))


@contract('sqmatrix_ApaB', 'sqmatrix.c', 'P09', variants=({'same': 0}, {'same': 1}))
class _:
    def setup(c, same):
        A = sq_setup(c, 'A')
        return A, c.real('a'), A if same else sq_setup(c, 'B')

    def spec(c, A, a, B):
        A, B = SQ(c, A), SQ(c, B)
        c.dies_if(c.ne(A.p, B.p))
        c.each(A.p * A.p, lambda k: c.set_z(A.data, k, c.z(A.data, k) + c.z(B.data, k) * a))


@contract('sqmatrix_aApbB', 'sqmatrix.c', 'P09', variants=({'same': 0}, {'same': 1}))
class _:
    def setup(c, same):
        A = sq_setup(c, 'A')
        return c.real('a'), A, c.real('b'), A if same else sq_setup(c, 'B')

    def spec(c, a, A, b, B):
        A, B = SQ(c, A), SQ(c, B)
        c.dies_if(c.ne(A.p, B.p))
        c.each(A.p * A.p, lambda k: c.set_z(A.data, k, c.z(A.data, k) * a + c.z(B.data, k) * b))


def herm_setup(c, name, p=None):
    """a Hermitian positive definite matrix (concrete runs)"""
    A = sq_setup(c, name, p)
    if c.mode == 'con':
        n = A.p
        for i in range(n):
            for j in range(i, n):
                v = Cx(c.rnd(), c.rnd())
                if i == j:
                    v = Cx(5.0 * n + i, 0.0)
                for (x, y, w) in ((i, j, v), (j, i, v.conj())):
                    c.poke(A.data, (x * n + y) * c.ss, 'd', w.re)
                    if c.complex:
                        c.poke(A.data, (x * n + y) * c.ss + 8, 'd', w.im)
    return A


def hel(A):
    """column-major view of the row-major matrix"""
    return lambda i, j: A.z(j, i)


@contract('sqmatrix_invert', 'sqmatrix.c', 'P09', variants=({'pd': 1}, {'pd': 0}))
class _:
    """the Hermitian matrix whose upper triangle is LAPACK's inverse of U"""
    def setup(c, pd):
        U = herm_setup(c, 'U')
        return U, c.num(pd), sq_setup(c, 'W', U.p + 1 if c.mode == 'con' else None)

    def spec(c, U, pd, W):
        U, W = SQ(c, U), SQ(c, W)
        c.requires(U.data.obj != W.data.obj, 'distinct')
        c.requires(c.le(1, W.p))
        n = U.p
        if c.if_(c.ne(pd, 0)):
            info, f = lap.tri_op(c, 'zpotrf', 'dpotrf', 'L', n, hel(U))
            put = lambda out: lap.set_tri(c, 'L', n, lambda i, j, v, g: c.set_z(U.data, i + j * n, v, g), out)
            if c.if_(c.ne(info, 0)):
                put(f)
                return c.ret(0)
            info, f = lap.tri_op(c, 'zpotri', 'dpotri', 'L', n, f)
            if c.if_(c.ne(info, 0)):
                put(f)
                return c.ret(0)
        else:
            c.dies_if(c.lt(W.p * W.p, n))
            c.scratch(W.data)
            info, f, ip = lap.hetrf(c, 'L', n, hel(U))
            put = lambda out: lap.set_tri(c, 'L', n, lambda i, j, v, g: c.set_z(U.data, i + j * n, v, g), out)
            if c.if_(c.ne(info, 0)):
                put(f)
                return c.ret(0)
            info, f = lap.hetri(c, 'L', n, f, ip)
            if c.if_(c.ne(info, 0)):
                put(f)
                return c.ret(0)
        c.each(n, n, lambda i, j: U.set(i, j, c.ite(c.lt(j, i), f(i, j).conj(), f(j, i))))
        c.ret(1)


@contract('sqmatrix_gen_eigensolve', 'sqmatrix.c', 'P09', variants=({'B': 0}, {'B': 1}))
class _:
    def setup(c, B):
        U = herm_setup(c, 'U')
        b = herm_setup(c, 'B', U.p) if B else SqArg(c.num(0), c.num(0), c.null())
        return U, b, c.array('ev', U.p, 'd'), sq_setup(c, 'W')

    def spec(c, U, B, ev, W):
        U, B, W = SQ(c, U), SQ(c, B), SQ(c, W)
        c.requires(c.le(1, U.p))
        c.requires(c.le(0, W.p))
        n = U.p
        if c.if_(c.isnull(B.data)):
            info, out, w = lap.heev(c, 'V', 'L', n, hel(U))
            c.dies_if(c.ne(info, 0))
            c.scratch(W.data)
            c.each(n, n, lambda i, j: U.set(i, j, out(j, i)))
            c.each(n, lambda i: c.set(ev, 8 * i, 'd', w(i)))
            return
        c.dies_if(c.ne(B.p, n))
        info, out, ob, w = lap.hegv(c, 1, 'V', 'L', n, hel(U), hel(B))
        c.dies_if(c.ne(info, 0))
        c.scratch(W.data)
        lap.put_hegv(c, 'V', 'L', n, U.data, n, B.data, n, ev, out, ob, w)


@contract('sqmatrix_eigensolve', 'sqmatrix.c', 'P09')
class _:
    def setup(c):
        U = herm_setup(c, 'U')
        return U, c.array('ev', U.p, 'd'), sq_setup(c, 'W')

    def spec(c, U, ev, W):
        U, W = SQ(c, U), SQ(c, W)
        c.requires(c.le(1, U.p))
        c.requires(c.le(0, W.p))
        n = U.p
        info, out, w = lap.heev(c, 'V', 'L', n, hel(U))
        c.dies_if(c.ne(info, 0))
        c.scratch(W.data)
        c.each(n, n, lambda i, j: U.set(i, j, out(j, i)))
        c.each(n, lambda i: c.set(ev, 8 * i, 'd', w(i)))


@contract('sqmatrix_sqrt', 'sqmatrix.c', 'P09')
class _:
    """V^dagger diag(sqrt(w)) V where U = V^dagger diag(w) V is LAPACK's eigendecomposition"""
    def setup(c):
        U = herm_setup(c, 'U')
        return sq_setup(c, 'R', U.p), U, sq_setup(c, 'W', U.p)

    def spec(c, R, U, W):
        R, U, W = SQ(c, R), SQ(c, U), SQ(c, W)
        c.requires(c.le(1, U.p))
        c.requires(len({R.data.obj, U.data.obj, W.data.obj}) == 3, 'distinct')
        c.dies_if(c.not_(c.and_(c.eq(R.p, U.p), c.eq(U.p, W.p))))
        n = U.p
        info, out, w = lap.heev(c, 'V', 'L', n, hel(U))
        c.dies_if(c.ne(info, 0))
        c.dies_if_any(n, lambda i: c.le(w(i), 0))
        c.scratch(W.data)
        c.each(n, n, lambda i, j: U.set(i, j, out(j, i)))
        c.each(n, n, lambda i, j: R.set(i, j, c.csum(n, lambda l: out(i, l).conj() * out(j, l) * c.sqrt(w(l)))))
