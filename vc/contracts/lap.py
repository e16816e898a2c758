"""LAPACK: assumed contracts (deterministic functions of the arguments) and the row-major wrappers over them"""
from common import *
import ext
from ext import external, _ch
from blas import tch
import ctypes

IX0, IX1 = P(sym('ix0', 'int')), P(sym('ix1', 'int'))


def tri_ok(c, uplo, i, j):
    return c.le(i, j) if uplo == 'U' else c.le(j, i)


def content(c, n, el, uplo=None, m=None):
    """polynomials of the array content at the canonical position (ix0, ix1)"""
    c.push_range(IX0_, n)
    c.push_range(IX1_, m if m is not None else n)
    if uplo:
        c.push_guard(tri_ok(c, uplo, IX0, IX1))
    try:
        v = Cx.of(el(IX0, IX1))
    finally:
        for _ in range(3 if uplo else 2):
            c.pop_range()
    return (P(v.re), P(v.im)) if c.complex else (P(v.re),)


IX0_, IX1_ = sym('ix0', 'int'), sym('ix1', 'int')


def ghost(c, name, idx, params, cont, kind='real'):
    a = tuple(P(x) for x in idx) + tuple(P(x) for x in params) + tuple(cont)
    if kind == 'z':
        return Cx(P(mk_fn(name + '.re', a, 'real')), P(mk_fn(name + '.im', a, 'real')) if c.complex else ZERO)
    return P(mk_fn(name, a, kind))


class FA:
    """Fortran arrays for the concrete runs"""

    def __init__(self, c):
        self.c = c
        self.t = ctypes.c_double

    def mat(self, n, m, el, uplo=None):
        w = 2 if self.c.complex else 1
        a = (ctypes.c_double * max(1, n * m * w))()
        for j in range(m):
            for i in range(n):
                if uplo and not tri_ok(self.c, uplo, i, j):
                    continue
                v = Cx.of(el(i, j))
                a[(i + j * n) * w] = v.re
                if w == 2:
                    a[(i + j * n) * w + 1] = v.im
        return a

    def get(self, a, n):
        w = 2 if self.c.complex else 1
        return lambda i, j: Cx(a[(i + j * n) * w], a[(i + j * n) * w + 1] if w == 2 else 0.0)


def call(c, zname, dname, *args):
    f = getattr(c.lib, (zname if c.complex else dname) + '_')
    f.restype = None
    vals = []
    for a in args:
        if isinstance(a, str):
            vals.append(ctypes.c_char_p(a.encode()))
        elif isinstance(a, int):
            vals.append(ctypes.byref(ctypes.c_int(a)))
        else:
            vals.append(a)
    f(*vals)


def assume_info(c, info):
    if c.mode == 'sym':
        b = le(0, info)
        if c.call:
            c.st.add(b)
        c.facts = c.facts | frozenset([b])


def tri_op(c, zname, dname, uplo, n, el, extra=()):
    """in-place triangular operation: (info, out)"""
    if c.mode == 'con':
        f = FA(c)
        a = f.mat(n, n, el, uplo)
        info = ctypes.c_int(0)
        call(c, zname, dname, uplo, n, a, n, *extra, ctypes.byref(info))
        return info.value, f.get(a, n)
    k = content(c, n, el, uplo)
    nm = zname + '.' + uplo
    info = ghost(c, nm + '.info', (), (n,), k, 'int')
    assume_info(c, info)
    return info, lambda i, j: ghost(c, nm, (i, j), (n,), k, 'z')


def set_tri(c, uplo, n, setter, out):
    if c.mode == 'con':
        c.each(n, n, lambda j, i: setter(i, j, out(i, j), tri_ok(c, uplo, i, j)) if tri_ok(c, uplo, i, j) else None)
    else:
        c.each(n, n, lambda j, i: setter(i, j, out(i, j), tri_ok(c, uplo, i, j)))


@external('zpotrf_', 'dpotrf_')
def _potrf(c, uplo, n, A, lda, pinfo):
    up, N, ld = _ch(c, uplo), c.i(n), c.i(lda)
    c.requires(c.le(N, ld), 'lda >= n')
    info, out = tri_op(c, 'zpotrf', 'dpotrf', up, N, lambda i, j: c.z(A, i + j * ld))
    set_tri(c, up, N, lambda i, j, v, g: c.set_z(A, i + j * ld, v, g), out)
    c.set(pinfo, 0, 'i', info)


@external('zpotri_', 'dpotri_')
def _potri(c, uplo, n, A, lda, pinfo):
    up, N, ld = _ch(c, uplo), c.i(n), c.i(lda)
    c.requires(c.le(N, ld), 'lda >= n')
    info, out = tri_op(c, 'zpotri', 'dpotri', up, N, lambda i, j: c.z(A, i + j * ld))
    set_tri(c, up, N, lambda i, j, v, g: c.set_z(A, i + j * ld, v, g), out)
    c.set(pinfo, 0, 'i', info)


def flip(t):
    return 'L' if t == 'U' else 'U'


def potr_spec(zn, dn):
    def spec(c, uplo, n, A, fd):
        up = flip(tch(c, uplo))
        c.requires(c.le(n, fd), 'fdA >= n')
        info, out = tri_op(c, zn, dn, up, n, lambda i, j: c.z(A, i + j * fd))
        set_tri(c, up, n, lambda i, j, v, g: c.set_z(A, i + j * fd, v, g), out)
        c.ret(c.ite(c.eq(info, 0), c.num(1), c.num(0)))
    return spec


def spd(c, n):
    """entries of a random positive definite Hermitian matrix (concrete runs), diagonally dominant"""
    return lambda i: 1.0


def mat_setup(c, name, n, fd, dominant=True):
    A = c.array(name, n * fd, 'z')
    if c.mode == 'con':
        for i in range(n):
            c.poke(A, (i * fd + i) * c.ss, 'd', 4.0 * n + i)
            if c.complex:
                c.poke(A, (i * fd + i) * c.ss + 8, 'd', 0.0)
    return A


for _f, _z in (('potrf', 'potrf'), ('potri', 'potri')):
    class _K:
        def setup(c, uplo):
            n = c.int('n', 1, 4)
            fd = c.int('fdA', 1, 6)
            c.assume(c.le(n, fd))
            return c.num(ord(uplo)), n, mat_setup(c, 'A', n, fd), fd
        spec = potr_spec('z' + _z, 'd' + _z)
    contract('lapackglue_' + _f, 'blasglue.c', 'P10', variants=({'uplo': 'U'}, {'uplo': 'L'}))(_K)


# ---- indefinite factorisation

def hetrf(c, uplo, n, el):
    if c.mode == 'con':
        f = FA(c)
        a = f.mat(n, n, el, uplo)
        ip = (ctypes.c_int * max(1, n))()
        w = (ctypes.c_double * (64 * n + 64))()
        info = ctypes.c_int(0)
        call(c, 'zhetrf', 'dsytrf', uplo, n, a, n, ip, w, 32 * n, ctypes.byref(info))
        return info.value, f.get(a, n), lambda i: ip[i]
    k = content(c, n, el, uplo)
    nm = 'hetrf.' + uplo
    info = ghost(c, nm + '.info', (), (n,), k, 'int')
    assume_info(c, info)
    return info, (lambda i, j: ghost(c, nm, (i, j), (n,), k, 'z')), lambda i: ghost(c, nm + '.ipiv', (i,), (n,), k, 'int')


def hetri(c, uplo, n, el, ipiv):
    if c.mode == 'con':
        f = FA(c)
        a = f.mat(n, n, el, uplo)
        ip = (ctypes.c_int * max(1, n))(*[int(ipiv(i)) for i in range(n)])
        w = (ctypes.c_double * (64 * n + 64))()
        info = ctypes.c_int(0)
        call(c, 'zhetri', 'dsytri', uplo, n, a, n, ip, w, ctypes.byref(info))
        return info.value, f.get(a, n)
    k = content(c, n, el, uplo)
    c.push_range(IX0_, n)
    try:
        k = k + (P(ipiv(IX0)),)
    finally:
        c.pop_range()
    nm = 'hetri.' + uplo
    info = ghost(c, nm + '.info', (), (n,), k, 'int')
    assume_info(c, info)
    return info, lambda i, j: ghost(c, nm, (i, j), (n,), k, 'z')


@external('zhetrf_', 'dsytrf_')
def _hetrf(c, uplo, n, A, lda, ipiv, work, lwork, pinfo):
    up, N, ld = _ch(c, uplo), c.i(n), c.i(lda)
    c.requires(c.le(N, ld), 'lda >= n')
    c.requires(c.le(1, c.i(lwork)), 'lwork >= 1')
    info, out, ip = hetrf(c, up, N, lambda i, j: c.z(A, i + j * ld))
    set_tri(c, up, N, lambda i, j, v, g: c.set_z(A, i + j * ld, v, g), out)
    c.each(N, lambda i: c.set(ipiv, 4 * i, 'i', ip(i)))
    c.scratch(work)
    c.set(pinfo, 0, 'i', info)


@external('zhetri_', 'dsytri_')
def _hetri(c, uplo, n, A, lda, ipiv, work, pinfo):
    up, N, ld = _ch(c, uplo), c.i(n), c.i(lda)
    c.requires(c.le(N, ld), 'lda >= n')
    info, out = hetri(c, up, N, lambda i, j: c.z(A, i + j * ld), lambda i: c.i(ipiv, 4 * i))
    set_tri(c, up, N, lambda i, j, v, g: c.set_z(A, i + j * ld, v, g), out)
    c.scratch(work)
    c.set(pinfo, 0, 'i', info)


@contract('lapackglue_hetrf', 'blasglue.c', 'P10', variants=({'uplo': 'U'}, {'uplo': 'L'}))
class _:
    def setup(c, uplo):
        n = c.int('n', 1, 4)
        fd = c.int('fdA', 1, 6)
        c.assume(c.le(n, fd))
        lw = c.int('lwork', 1, 20)
        return c.num(ord(uplo)), n, mat_setup(c, 'A', n, fd), fd, c.array('ipiv', n, 'i'), c.array('work', lw, 'z'), lw

    def spec(c, uplo, n, A, fd, ipiv, work, lw):
        up = flip(tch(c, uplo))
        c.requires(c.le(n, fd), 'fdA >= n')
        c.requires(c.le(1, lw), 'lwork >= 1')
        info, out, ip = hetrf(c, up, n, lambda i, j: c.z(A, i + j * fd))
        c.scratch(work)
        set_tri(c, up, n, lambda i, j, v, g: c.set_z(A, i + j * fd, v, g), out)
        c.each(n, lambda i: c.set(ipiv, 4 * i, 'i', ip(i)))
        c.ret(c.ite(c.eq(info, 0), c.num(1), c.num(0)))


@contract('lapackglue_hetri', 'blasglue.c', 'P10', variants=({'uplo': 'U'}, {'uplo': 'L'}))
class _:
    def setup(c, uplo):
        n = c.int('n', 1, 4)
        fd = c.int('fdA', 1, 6)
        c.assume(c.le(n, fd))
        ip = c.array('ipiv', n, 'i', values=lambda i: i + 1)
        return c.num(ord(uplo)), n, mat_setup(c, 'A', n, fd), fd, ip, c.array('work', 2 * n, 'z')

    def spec(c, uplo, n, A, fd, ipiv, work):
        up = flip(tch(c, uplo))
        c.requires(c.le(n, fd), 'fdA >= n')
        info, out = hetri(c, up, n, lambda i, j: c.z(A, i + j * fd), lambda i: c.i(ipiv, 4 * i))
        c.scratch(work)
        set_tri(c, up, n, lambda i, j, v, g: c.set_z(A, i + j * fd, v, g), out)
        c.ret(c.ite(c.eq(info, 0), c.num(1), c.num(0)))


# ---- eigenvalues

def heev(c, jobz, uplo, n, el):
    if c.mode == 'con':
        f = FA(c)
        a = f.mat(n, n, el, uplo)
        w = (ctypes.c_double * max(1, n))()
        wk = (ctypes.c_double * (200 * n + 200))()
        rw = (ctypes.c_double * (3 * n + 8))()
        info = ctypes.c_int(0)
        if c.complex:
            call(c, 'zheev', 'dsyev', jobz, uplo, n, a, n, w, wk, 60 * n, rw, ctypes.byref(info))
        else:
            call(c, 'zheev', 'dsyev', jobz, uplo, n, a, n, w, wk, 60 * n, ctypes.byref(info))
        return info.value, f.get(a, n), lambda i: w[i]
    k = content(c, n, el, uplo)
    nm = 'heev.' + jobz + uplo
    info = ghost(c, nm + '.info', (), (n,), k, 'int')
    assume_info(c, info)
    return info, (lambda i, j: ghost(c, nm, (i, j), (n,), k, 'z')), lambda i: ghost(c, nm + '.w', (i,), (n,), k)


def put_heev(c, job, up, N, A, ld, w, out, ev):
    if job == 'V':
        c.each(N, N, lambda j, i: c.set_z(A, i + j * ld, out(i, j)))
    else:
        set_tri(c, up, N, lambda i, j, v, g: c.set_z(A, i + j * ld, v, g), out)
    c.each(N, lambda i: c.set(w, 8 * i, 'd', ev(i)))


def _heev_ext(c, jobz, uplo, n, A, lda, w, work, lwork, rwork, pinfo):
    job, up, N, ld = _ch(c, jobz), _ch(c, uplo), c.i(n), c.i(lda)
    c.requires(c.le(N, ld), 'lda >= n')
    c.requires(c.le(1, c.i(lwork)), 'lwork >= 1')
    c.requires(c.le((2 if rwork is not None else 3) * N - 1, c.i(lwork)), 'lwork large enough')
    info, out, ev = heev(c, job, up, N, lambda i, j: c.z(A, i + j * ld))
    put_heev(c, job, up, N, A, ld, w, out, ev)
    c.scratch(work)
    if rwork is not None:
        c.scratch(rwork)
    c.set(pinfo, 0, 'i', info)


external('zheev_')(_heev_ext)
external('dsyev_')(lambda c, jobz, uplo, n, A, lda, w, work, lwork, pinfo: _heev_ext(c, jobz, uplo, n, A, lda, w, work, lwork, None, pinfo))


@contract('lapackglue_heev', 'blasglue.c', 'P10', variants=({'job': 'V', 'uplo': 'U'}, {'job': 'V', 'uplo': 'L'}, {'job': 'N', 'uplo': 'U'}))
class _:
    def setup(c, job, uplo):
        n = c.int('n', 1, 4)
        fd = c.int('fdA', 1, 6)
        c.assume(c.le(n, fd))
        lw = c.int('lwork', 12, 40)
        c.assume(c.le(3 * n, lw))
        return (c.num(ord(job)), c.num(ord(uplo)), n, mat_setup(c, 'A', n, fd), fd, c.array('w', n, 'd'), c.array('work', lw, 'z'), lw,
                c.array('rwork', 3 * n, 'd'))

    def spec(c, jobz, uplo, n, A, fd, w, work, lw, rwork):
        job, up = tch(c, jobz), flip(tch(c, uplo))
        c.requires(c.le(n, fd), 'fdA >= n')
        c.requires(c.le(3 * n - 1 if not c.complex else 2 * n - 1, lw), 'lwork large enough')
        c.requires(c.le(1, lw), 'lwork >= 1')
        info, out, ev = heev(c, job, up, n, lambda i, j: c.z(A, i + j * fd))
        c.dies_if(c.ne(info, 0))
        if c.complex:
            c.scratch(rwork)
        c.scratch(work)
        put_heev(c, job, up, n, A, fd, w, out, ev)


@contract('lapackglue_syev', 'blasglue.c', 'P10', cfgs=('inv',), variants=({'job': 'V', 'uplo': 'U'}, {'job': 'N', 'uplo': 'L'}))
class _:
    def setup(c, job, uplo):
        n = c.int('n', 1, 4)
        fd = c.int('fdA', 1, 6)
        c.assume(c.le(n, fd))
        lw = c.int('lwork', 12, 40)
        c.assume(c.le(3 * n, lw))
        return (c.num(ord(job)), c.num(ord(uplo)), n, mat_setup(c, 'A', n, fd), fd, c.array('w', n, 'd'), c.array('work', lw, 'z'), lw)

    def spec(c, jobz, uplo, n, A, fd, w, work, lw):
        job, up = tch(c, jobz), flip(tch(c, uplo))
        c.requires(c.le(n, fd), 'fdA >= n')
        c.requires(c.le(3 * n - 1, lw), 'lwork large enough')
        c.requires(c.le(1, lw), 'lwork >= 1')
        info, out, ev = heev(c, job, up, n, lambda i, j: c.z(A, i + j * fd))
        c.dies_if(c.ne(info, 0))
        c.scratch(work)
        put_heev(c, job, up, n, A, fd, w, out, ev)


def hegv(c, itype, job, up, n, a, b):
    if c.mode == 'con':
        f = FA(c)
        A, B = f.mat(n, n, a, up), f.mat(n, n, b, up)
        w = (ctypes.c_double * max(1, n))()
        wk = (ctypes.c_double * (200 * n + 200))()
        rw = (ctypes.c_double * (3 * n + 8))()
        info = ctypes.c_int(0)
        x = (rw,) if c.complex else ()
        call(c, 'zhegv', 'dsygv', int(itype), job, up, n, A, n, B, n, w, wk, 60 * n, *x, ctypes.byref(info))
        return info.value, f.get(A, n), f.get(B, n), lambda i: w[i]
    k = content(c, n, a, up) + content(c, n, b, up)
    nm = 'hegv.' + job + up
    p = (n, itype)
    info = ghost(c, nm + '.info', (), p, k, 'int')
    assume_info(c, info)
    return info, (lambda i, j: ghost(c, nm, (i, j), p, k, 'z')), (lambda i, j: ghost(c, nm + '.B', (i, j), p, k, 'z')), lambda i: ghost(c, nm + '.w', (i,), p, k)


def put_hegv(c, job, up, n, A, la, B, lb, w, oa, ob, ev):
    put_heev(c, job, up, n, A, la, w, oa, ev)
    set_tri(c, up, n, lambda i, j, v, g: c.set_z(B, i + j * lb, v, g), ob)


def _hegv_ext(c, itype, jobz, uplo, n, A, lda, B, ldb, w, work, lwork, rwork, pinfo):
    it, job, up, N, la, lb = c.i(itype), _ch(c, jobz), _ch(c, uplo), c.i(n), c.i(lda), c.i(ldb)
    c.requires(c.and_(c.le(N, la), c.le(N, lb)), 'lda, ldb >= n')
    c.requires(A.obj != B.obj, 'distinct')
    c.requires(c.le(1, c.i(lwork)), 'lwork >= 1')
    c.requires(c.le((2 if rwork is not None else 3) * N - 1, c.i(lwork)), 'lwork large enough')
    info, oa, ob, ev = hegv(c, it, job, up, N, lambda i, j: c.z(A, i + j * la), lambda i, j: c.z(B, i + j * lb))
    put_hegv(c, job, up, N, A, la, B, lb, w, oa, ob, ev)
    c.scratch(work)
    if rwork is not None:
        c.scratch(rwork)
    c.set(pinfo, 0, 'i', info)


external('zhegv_')(_hegv_ext)
external('dsygv_')(lambda c, it, jobz, uplo, n, A, lda, B, ldb, w, work, lwork, pinfo: _hegv_ext(c, it, jobz, uplo, n, A, lda, B, ldb, w, work, lwork, None, pinfo))


@contract('lapackglue_hegv', 'blasglue.c', 'P10', variants=({'job': 'V', 'uplo': 'U'}, {'job': 'N', 'uplo': 'L'}))
class _:
    def setup(c, job, uplo):
        n = c.int('n', 1, 4)
        fa, fb = c.int('fdA', 1, 6), c.int('fdB', 1, 6)
        c.assume(c.le(n, fa))
        c.assume(c.le(n, fb))
        lw = c.int('lwork', 12, 40)
        c.assume(c.le(3 * n, lw))
        return (c.int('itype', 1, 3), c.num(ord(job)), c.num(ord(uplo)), n, mat_setup(c, 'A', n, fa), fa, mat_setup(c, 'B', n, fb), fb,
                c.array('w', n, 'd'), c.array('work', lw, 'z'), lw, c.array('rwork', 3 * n, 'd'))

    def spec(c, it, jobz, uplo, n, A, fa, B, fb, w, work, lw, rwork):
        job, up = tch(c, jobz), flip(tch(c, uplo))
        c.requires(c.and_(c.le(n, fa), c.le(n, fb)), 'fd >= n')
        c.requires(A.obj != B.obj, 'distinct')
        c.requires(c.le(3 * n - 1 if not c.complex else 2 * n - 1, lw), 'lwork large enough')
        c.requires(c.le(1, lw), 'lwork >= 1')
        info, oa, ob, ev = hegv(c, it, job, up, n, lambda i, j: c.z(A, i + j * fa), lambda i, j: c.z(B, i + j * fb))
        c.dies_if(c.ne(info, 0))
        if c.complex:
            c.scratch(rwork)
        c.scratch(work)
        put_hegv(c, job, up, n, A, fa, B, fb, w, oa, ob, ev)
