"""matrices/blasglue.c : row-major matrix operations expressed through column-major BLAS"""
from common import *
import ext


def RM(c, t, p, fd):
    """element (i, l) of op(P), row-major with leading dimension fd"""
    if t == 'N':
        return lambda i, l: c.z(p, i * fd + l)
    if t == 'C':
        return lambda i, l: c.z(p, l * fd + i).conj()
    return lambda i, l: c.z(p, l * fd + i)


def tch(c, v):
    if c.mode == 'con':
        return chr(int(v))
    return ext._ch2(c, v) if not v.is_const() else chr(int(v.const_value()) & 255)


VEC = dict(cfgs=('complex', 'inv'))


@contract('blasglue_copy', 'blasglue.c', 'P10')
class _:
    def setup(c):
        n, ix, iy = c.int('n', 1, 6), c.int('incx', 1, 3), c.int('incy', 1, 3)
        return n, c.array('x', n * ix, 'z'), ix, c.array('y', n * iy, 'z'), iy

    def spec(c, n, x, ix, y, iy):
        c.requires(c.lt(0, iy), 'incy > 0')
        if x.obj == y.obj and c.same(x, y) and c.if_(c.eq(ix, iy)):
            return
        c.each(n, lambda k: c.set_z(y, k * iy, c.z(x, k * ix)))


@contract('blasglue_axpy', 'blasglue.c', 'P10', variants=({'same': 0}, {'same': 1}))
class _:
    def setup(c, same):
        n, ix = c.int('n', 1, 6), c.int('incx', 1, 3)
        iy = ix if same else c.int('incy', 1, 3)
        x = c.array('x', n * ix, 'z')
        return n, c.real('a'), x, ix, x if same else c.array('y', n * iy, 'z'), iy

    def spec(c, n, a, x, ix, y, iy):
        c.requires(c.lt(0, iy), 'incy > 0')
        c.each(n, lambda k: c.set_z(y, k * iy, c.z(y, k * iy) + c.z(x, k * ix) * a))


@contract('blasglue_scal', 'blasglue.c', 'P10')
class _:
    def setup(c):
        n, ix = c.int('n', 1, 6), c.int('incx', 1, 3)
        a = [c.real('a_re'), c.real('a_im')] if c.complex else [c.real('a')]
        return [n] + a + [c.array('x', n * ix, 'z'), ix]

    def spec(c, n, *r):
        a = Cx(r[0], r[1]) if c.complex else Cx(r[0])
        x, ix = r[-2], r[-1]
        c.requires(c.lt(0, ix), 'incx > 0')
        c.each(n, lambda k: c.set_z(x, k * ix, a * c.z(x, k * ix)))


@contract('blasglue_rscal', 'blasglue.c', 'P10')
class _:
    def setup(c):
        n, ix = c.int('n', 1, 6), c.int('incx', 1, 3)
        return n, c.real('a'), c.array('x', n * ix, 'z'), ix

    def spec(c, n, a, x, ix):
        c.requires(c.lt(0, ix), 'incx > 0')
        c.each(n, lambda k: c.set_z(x, k * ix, c.z(x, k * ix) * a))


@contract('blasglue_dotc', 'blasglue.c', 'P10')
class _:
    def setup(c):
        n, ix, iy = c.int('n', 1, 6), c.int('incx', 1, 3), c.int('incy', 1, 3)
        return n, c.array('x', n * ix, 'z'), ix, c.array('y', n * iy, 'z'), iy

    def spec(c, n, x, ix, y, iy):
        r = c.csum(n, lambda k: c.z(x, k * ix).conj() * c.z(y, k * iy))
        c.ret(r if c.complex else r.re)


GV = [dict(ta=a, tb=b) for a in 'NCT' for b in 'NCT']


@contract('blasglue_gemm', 'blasglue.c', 'P10', variants=GV)
class _:
    """C = a op(A) op(B) + b C, row-major"""
    def setup(c, ta, tb):
        m, n, k = c.int('m', 0, 4), c.int('n', 0, 4), c.int('k', 0, 4)
        fA, fB, fC = c.int('fdA', 4, 6), c.int('fdB', 4, 6), c.int('fdC', 4, 6)
        c.assume(le(n, fC))
        return (c.num(ord(ta)), c.num(ord(tb)), m, n, k, c.real('a'), c.array('A', fA * 4, 'z'), fA, c.array('B', fB * 4, 'z'), fB,
                c.real('b'), c.array('C', fC * 4, 'z'), fC)

    def spec(c, ta, tb, m, n, k, a, A, fA, B, fB, b, C, fC):
        ta, tb = tch(c, ta), tch(c, tb)
        c.requires(c.le(n, fC), 'n <= fdC')
        c.requires(A.obj != C.obj and B.obj != C.obj, 'output distinct')
        x, y = RM(c, ta, A, fA), RM(c, tb, B, fB)
        c.each(m, n, lambda i, j: c.set_z(C, i * fC + j, c.csum(k, lambda l: x(i, l) * y(l, j)) * a + c.z(C, i * fC + j) * b))


@contract('blasglue_herk', 'blasglue.c', 'P10', variants=[dict(uplo=u, trans=t) for u in 'UL' for t in 'NCT'])
class _:
    """one triangle of C = a op(A) op(A)^dagger + b C, row-major: trans = C means A^dagger A"""
    def setup(c, uplo, trans):
        n, k = c.int('n', 0, 4), c.int('k', 0, 4)
        fA, fC = c.int('fdA', 4, 6), c.int('fdC', 4, 6)
        c.assume(le(n, fC))
        return (c.num(ord(uplo)), c.num(ord(trans)), n, k, c.real('a'), c.array('A', fA * 4, 'z'), fA, c.real('b'), c.array('C', fC * 4, 'z'), fC)

    def spec(c, uplo, trans, n, k, a, A, fA, b, C, fC):
        up, t = tch(c, uplo), tch(c, trans)
        c.requires(c.le(n, fC), 'n <= fdC')
        c.requires(A.obj != C.obj, 'output distinct')

        def elt(i, j):
            if t == 'N':     # A A^dagger
                s = c.csum(k, lambda l: c.z(A, i * fA + l) * c.z(A, j * fA + l).conj())
            else:            # A^dagger A
                s = c.csum(k, lambda l: c.z(A, l * fA + i).conj() * c.z(A, l * fA + j))
            v = s * a + c.z(C, i * fC + j) * b
            if c.complex:
                v = Cx(v.re, c.ite(c.eq(i, j), c.num(0), v.im))
            return v
        if up == 'U':
            c.each(n, n, lambda i, j: c.set_z(C, i * fC + j, elt(i, j), c.le(i, j)))
        else:
            c.each(n, n, lambda i, j: c.set_z(C, i * fC + j, elt(i, j), c.le(j, i)))
