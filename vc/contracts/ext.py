"""Assumed contracts of BLAS and LAPACK (Fortran calling convention, column-major)."""
from common import *
import contract as _cc


def external(*names):
    def deco(f):
        for n in names:
            k = Contract(n, None, [], None, f, trusted=True)
            _cc.EXTERNALS[n] = k
        return f
    return deco


def _ch(c, p):
    v = c.rd(p, 0, 'b')
    if c.mode == 'con':
        return chr(int(v))
    if not v.is_const():
        for x in 'NCTULV':
            if c.if_(c.eq(v, ord(x))):
                return x
        raise Unsupported('character argument')
    return chr(int(v.const_value()) & 255)


@external('zcopy_', 'dcopy_')
def _copy(c, n, x, incx, y, incy):
    N, ix, iy = c.i(n), c.i(incx), c.i(incy)
    c.requires(c.lt(0, iy), 'incy > 0')
    if x.obj == y.obj and c.same(x, y) and c.if_(c.eq(ix, iy)):
        return
    c.each(N, lambda k: c.set_z(y, k * iy, c.z(x, k * ix)))


@external('zaxpy_', 'daxpy_')
def _axpy(c, n, a, x, incx, y, incy):
    N, ix, iy, A = c.i(n), c.i(incx), c.i(incy), c.z(a)
    c.requires(c.lt(0, iy), 'incy > 0')
    c.each(N, lambda k: c.set_z(y, k * iy, c.z(y, k * iy) + A * c.z(x, k * ix)))


@external('zscal_', 'dscal_')
def _scal(c, n, a, x, incx):
    N, ix, A = c.i(n), c.i(incx), c.z(a)
    c.requires(c.lt(0, ix), 'incx > 0')
    c.each(N, lambda k: c.set_z(x, k * ix, A * c.z(x, k * ix)))


@external('zdotc_', 'ddot_')
def _dotc(c, n, x, incx, y, incy):
    N, ix, iy = c.i(n), c.i(incx), c.i(incy)
    r = c.csum(N, lambda k: c.z(x, k * ix).conj() * c.z(y, k * iy))
    c.ret(r if c.complex else r.re)


def _op(c, t, p, ld):
    """element (i, l) of op(P), column-major"""
    if t == 'N':
        return lambda i, l: c.z(p, i + l * ld)
    if t == 'C':
        return lambda i, l: c.z(p, l + i * ld).conj()
    return lambda i, l: c.z(p, l + i * ld)


@external('zgemm_', 'dgemm_')
def _gemm(c, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc):
    ta, tb = _ch(c, ta), _ch(c, tb)
    M, N, K, la, lb, lc = c.i(m), c.i(n), c.i(k), c.i(lda), c.i(ldb), c.i(ldc)
    al, be = c.z(alpha), c.z(beta)
    c.requires(c.le(M, lc), 'ldc >= m')
    c.requires(A.obj != C.obj and B.obj != C.obj, 'output distinct')
    a, b = _op(c, ta, A, la), _op(c, tb, B, lb)
    c.each(M, N, lambda i, j: c.set_z(C, i + j * lc, al * c.csum(K, lambda l: a(i, l) * b(l, j)) + be * c.z(C, i + j * lc)))


@external('zherk_', 'dsyrk_')
def _herk(c, uplo, trans, n, k, alpha, A, lda, beta, C, ldc):
    up, t = _ch(c, uplo), _ch(c, trans)
    N, K, la, lc = c.i(n), c.i(k), c.i(lda), c.i(ldc)
    al, be = c.d(alpha), c.d(beta)
    c.requires(c.le(N, lc), 'ldc >= n')
    c.requires(A.obj != C.obj, 'output distinct')

    def elt(i, j):
        if t == 'N':
            s = c.csum(K, lambda l: c.z(A, i + l * la) * c.z(A, j + l * la).conj())
        else:
            s = c.csum(K, lambda l: c.z(A, l + i * la).conj() * c.z(A, l + j * la))
        v = al * s + be * c.z(C, i + j * lc)
        if c.complex:     # the diagonal is set exactly real
            v = Cx(v.re, c.ite(c.eq(i, j), c.num(0), v.im))
        return v
    if up == 'U':      # i <= j
        c.each(N, N, lambda j, i: c.set_z(C, i + j * lc, elt(i, j), c.le(i, j)))
    else:
        c.each(N, N, lambda j, i: c.set_z(C, i + j * lc, elt(i, j), c.le(j, i)))


def _ch2(c, v):
    for x in 'NCTULV':
        if c.if_(c.eq(v, ord(x))):
            return x
    raise Unsupported('character argument')
