"""mpb-data: periodic interpolation with Bloch phases"""
from contract import *
import frontend
from common import *
from sym import _lib
from pt import TWOPI

F = 'mpb-data.c'


def statics(c):
    n = ['add_cmplx_times_phase.' + x for x in ('phase', 'p_re', 'p_im')]
    gs = frontend.module(c.cfg, F).globals
    return [c.global_(x, F) for x in n] if all(x in gs for x in n) else []


@contract('add_cmplx_times_phase', F, 'P16', cfgs=('complex',), samples=0)
class _:
    """adds scale * d * exp(i (ix s0 + iy s1 + iz s2)); the remembered phase and its cosine and sine belong together"""
    def setup(c):
        x = c.real('phase')
        for p, v in zip(statics(c), (x, c.cos(x), c.sin(x))):
            c.poke(p, 0, 'd', v)
        return [c.array('re', 1, 'd'), c.array('im', 1, 'd')] + [c.real(n) for n in ('dre', 'dim', 'ix', 'iy', 'iz')] + [c.array('s', 3, 'd'), c.real('scale')]

    def spec(c, re, im, dre, dim, ix, iy, iz, s, scale):
        th = ix * c.d(s, 0) + iy * c.d(s, 8) + iz * c.d(s, 16)
        v = Cx(dre, dim) * Cx(c.cos(th), c.sin(th)) * scale
        for p, x in zip(statics(c), (th, c.cos(th), c.sin(th))):
            c.set(p, 0, 'd', x)
        c.set(re, 0, 'd', c.d(re, 0) + v.re)
        c.set(im, 0, 'd', c.d(im, 0) + v.im)


def add_phase(c, re, im, dre, dim, ix, iy, iz, s, scale):
    v = contribution(c, dre, dim, (ix, iy, iz), [c.d(s, 8 * i) for i in range(3)], scale)
    c.set(re, 0, 'd', c.d(re, 0) + v.re)
    c.set(im, 0, 'd', c.d(im, 0) + v.im)


def contribution(c, dre, dim, cell, s, scale):
    th = sum((a * b for a, b in zip(cell, s)), c.num(0))
    return Cx(dre, dim) * Cx(c.cos(th), c.sin(th)) * scale


def axis(c, x, n):
    """(index, cell) of the two neighbours of the point x and the weight of the second"""
    q = c.cuti(c.floor(x))
    f = x - q
    i = c.cuti(c.floor(f * n))
    d = f * n - i
    last = c.le(n, i + 1)
    return (i, q), (c.ite(last, i + 1 - n, i + 1), c.ite(last, q + 1, q)), d


@contract('map_data', F, 'P16', cfgs=('complex',), variants=[dict(cx=x, k=k, near=n, tr=t) for x in (0, 1) for k in ((0, 1) if x else (0,)) for n in (0, 1) for t in (0, 1)],
          samples=250, bounded='grids of 1 to 4 points per axis, random maps: the symbolic comparison exceeds its time limit',
          opts=dict(externals=dict(add_cmplx_times_phase=_lib(add_phase), vector3_scale=_lib(lambda c, out, s, v: [c.set(out, 8 * i, 'd', c.d(v, 8 * i) * s) for i in range(3)] and None)), timeout=200))
class _:
    """output point i is the periodic trilinear interpolation (or nearest sample) of the input at map (i/n - 1/2) + 1/2, every sample
    times the Bloch phase of its cell; the first two axes exchanged on request"""
    def setup(c, cx, k, near, tr):
        def dims(nm):
            p = c.array(nm, 3, 'i')
            for i in range(3):
                x = c.int('%s%d' % (nm, i), 1) if c.mode == 'sym' else c.rng.randint(1, 4)
                c.poke(p, 4 * i, 'i', x)
            return p
        ni, no = dims('nin'), dims('nout')

        def tot(p):
            return c.i(p, 0) * c.i(p, 4) * c.i(p, 8) if c.mode == 'con' else 0
        a = [c.array(n, tot(ni), 'd') for n in ('inre', 'inim')]
        b = [c.array(n, tot(no), 'd') for n in ('outre', 'outim')]
        if not cx:
            a[1] = b[1] = NULL
        M = c.struct('map', 'matrix3x3')
        if c.mode == 'con':
            for i in range(9):
                c.poke(M, 8 * i, 'd', c.rng.choice([0.0, 1.0, -1.0, c.rng.uniform(-2, 2)]))
        return [a[0], a[1], ni, b[0], b[1], no, M, c.array('k', 3, 'd') if k else NULL, c.num(near), c.num(tr)]

    def spec(c, inre, inim, ni, outre, outim, no, M, kv, near, tr):
        n = [c.i(ni, 4 * i) for i in range(3)]
        o = [c.i(no, 4 * i) for i in range(3)]
        half = c.num(Fraction(1, 2)) if c.mode == 'sym' else 0.5
        m = [[c.d(M, 24 * col + 8 * row) for col in range(3)] for row in range(3)]
        s = [c.num(0)] * 3 if c.if_(c.isnull(kv)) else [c.d(kv, 8 * i) * TWOPI(c) for i in range(3)]
        cx = not c.if_(c.isnull(inim))
        near = bool(near.const_value() if c.mode == 'sym' else near)
        tr = bool(tr.const_value() if c.mode == 'sym' else tr)

        def put(*ix):
            at = (ix[1] * o[0] + ix[0]) * o[2] + ix[2] if tr else (ix[0] * o[1] + ix[1]) * o[2] + ix[2]
            ax = []
            for row in range(3):
                x = sum((m[row][j] / o[j] * ix[j] for j in range(3)), c.num(0)) + half - sum((m[row][j] * half for j in range(3)), c.num(0))
                p, q, d = axis(c, x, n[row])
                if near:
                    if c.mode == 'con':
                        c.assume(abs(d - half) > 1e-6 and d < 1 - 1e-6)
                    d = c.ite(c.le(d, half), c.num(0), c.num(1))
                ax.append((p, q, d))
            v = Cx(c.num(0), c.num(0))
            for b in [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]:
                w = c.num(1)
                for a, t in zip(ax, b):
                    w = w * (a[2] if t else 1 - a[2])
                e = [a[t] for a, t in zip(ax, b)]
                j = (e[0][0] * n[1] + e[1][0]) * n[2] + e[2][0]
                if cx:
                    v = v + contribution(c, c.d(inre, 8 * j), c.d(inim, 8 * j), [x[1] for x in e], s, w)
                else:
                    v = v + Cx(c.d(inre, 8 * j) * w, c.num(0))
            c.set(outre, 8 * at, 'd', v.re)
            if cx:
                c.set(outim, 8 * at, 'd', v.im)
        c.each(o[0], lambda i: c.each(o[1], lambda j: c.each(o[2], lambda k: put(i, j, k))))
