"""Contracts: one Python specification per C function, evaluated symbolically (verification of the body,
and at call sites) and concretely (replay against the real code)."""
import os, re, signal, sys, threading, time, traceback
from terms import *
import terms
import itertools
import solver
from solver import entails, satisfiable
import memory
from memory import *
import execu
from execu import Engine, State, Outcome
import frontend


class SpecDie(Exception):
    pass


class Cx:
    """complex value (pair of reals) usable with Polys and floats"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        return x if isinstance(x, Cx) else Cx(x, 0)

    def __add__(self, o):
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __sub__(self, o):
        o = Cx.of(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        if not isinstance(o, Cx):
            return Cx(self.re * o, self.im * o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def conj(self):
        return Cx(self.re, -self.im)

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def __truediv__(self, o):
        if isinstance(o, Cx):
            d = 1 / (o.re * o.re + o.im * o.im)
            return self * o.conj() * d
        return self * (1 / o)

    def __repr__(self):
        return '(%s + i %s)' % (self.re, self.im)


class SqArg:
    """a 16-byte struct {int, int, pointer} passed by value"""
    __slots__ = ('p', 'alloc_p', 'data')

    def __init__(self, p, alloc_p, data):
        self.p = p
        self.alloc_p = alloc_p
        self.data = data


def collapse(args, fn=None):
    out = []
    i = 0
    ps = fn.params if fn is not None and len(fn.params) == len(args) else None
    while i < len(args):
        a = args[i]
        if ps is not None and i + 1 < len(args) and ps[i][1].endswith('.coerce0') and ps[i + 1][1].endswith('.coerce1') and ps[i][0].k == 'int' and ps[i][0].a == 64 and ps[i + 1][0].k == 'ptr':
            lo, hi = (a.lo, a.hi) if isinstance(a, Pack) else (UNDEF, UNDEF)
            out.append(SqArg(lo, hi, args[i + 1]))
            i += 2
        elif isinstance(a, Pack) and i + 1 < len(args) and isinstance(args[i + 1], Ptr):
            out.append(SqArg(a.lo, a.hi, args[i + 1]))
            i += 2
        else:
            out.append(a)
            i += 1
    return out


def expand(c, fn, args):
    """logical arguments -> register arguments of the compiled function"""
    out = []
    for a in args:
        if isinstance(a, SqArg):
            i = len(out)
            if i < len(fn.params) and 'byval' in fn.params[i][2]:
                out.append(c.struct('sq%d' % i, 'sqmatrix', p=a.p, alloc_p=a.alloc_p, data=a.data))
            else:
                out += [Pack(a.p, a.alloc_p), a.data]
        else:
            out.append(a)
    return out


class SV:
    """typed view of a struct in memory"""

    def __init__(self, c, ptr, sname):
        object.__setattr__(self, '_c', c)
        object.__setattr__(self, '_p', ptr)
        object.__setattr__(self, '_s', sname)

    def __getattr__(self, f):
        return self._c.field(self._p, self._s, f)

    def __setattr__(self, f, v):
        self._c.set_field(self._p, self._s, f, v)


class Layouts:
    def __init__(self, cfg):
        self.cfg = cfg
        self.cache = {}

    FILES = {'maxwell_data': 'maxwell.c', 'evectmatrix': 'evectmatrix.c', 'sqmatrix': 'sqmatrix.c',
             'k_data': 'maxwell_op.c', 'symmetric_matrix': 'maxwell_eps.c'}

    def find(self, sname, hint=None):
        k = sname
        if k in self.cache:
            return self.cache[k]
        for f in ([hint] if hint else []) + ['maxwell_constraints.c', 'maxwell_eps.c', 'maxwell_op.c', 'eigensolver.c', 'fields.c', 'material_grid.c', 'material_grid_opt.c',
                                             'epsilon_file.c', 'field-smob.c', 'matrix-smob.c', 'mpb.c', 'medium.c', 'matrixio.c']:
            m = frontend.module(self.cfg, f)
            if sname in m.fields and m.fields[sname]['fields']:
                self.cache[k] = (m, m.fields[sname])
                return self.cache[k]
        raise KeyError('struct ' + sname)

    def field(self, sname, f):
        m, s = self.find(sname)
        cur = s
        off = 0
        parts = f.split('.')
        for i, q in enumerate(parts):
            o, tid, size = cur['fields'][q]
            off += o
            k = frontend.dwarf_kind(m, tid)
            if i < len(parts) - 1:
                cur = m.fields[k[1]]
        return off, k

    def size(self, sname):
        return self.find(sname)[1]['size']

    def cells(self, sname):
        """{offset: ty}"""
        m, s = self.find(sname)
        out = {}

        def rec(fields, base):
            for f, (o, tid, size) in fields.items():
                k = frontend.dwarf_kind(m, tid)
                put(k, base + o)

        def put(k, o):
            if k[0] == 's':
                nm = k[1]
                if nm in m.fields:
                    rec(m.fields[nm]['fields'], o)
            elif k[0] == 'a':
                ek = frontend.dwarf_kind(m, k[1])
                es = self.ksize(m, ek)
                for i in range(k[2]):
                    put(ek, o + i * es)
            elif k[0] in 'dilbhfp':
                out[o] = k[0]
        rec(s['fields'], 0)
        return out

    def ksize(self, m, k):
        if k[0] == 's':
            return m.fields[k[1]]['size']
        if k[0] == 'a':
            return k[2] * self.ksize(m, frontend.dwarf_kind(m, k[1]))
        return SIZE[k[0]]


_lay = {}


def layouts(cfg):
    if cfg not in _lay:
        _lay[cfg] = Layouts(cfg)
    return _lay[cfg]


class Base:
    """operations shared by the symbolic and concrete contexts"""

    def struct_view(self, ptr, sname):
        return SV(self, ptr, sname)
    S = struct_view

    def fsize(self, sname):
        return self.lay.size(sname)

    @property
    def ss(self):
        """sizeof(scalar)"""
        return 16 if self.complex else 8

    def z(self, p, idx=0):
        """scalar p[idx]"""
        if self.complex:
            return Cx(self.d(p, idx * 16), self.d(p, idx * 16 + 8))
        return Cx(self.d(p, idx * 8), self.num(0))

    def zc(self, p, idx=0):
        return Cx(self.d(p, idx * 16), self.d(p, idx * 16 + 8))

    def set_z(self, p, idx, v, guard=None):
        v = Cx.of(v)
        if self.complex:
            self.set(p, idx * 16, 'd', v.re, guard)
            self.set(p, idx * 16 + 8, 'd', v.im, guard)
        else:
            self.set(p, idx * 8, 'd', v.re, guard)

    def set_zc(self, p, idx, v, guard=None):
        v = Cx.of(v)
        self.set(p, idx * 16, 'd', v.re, guard)
        self.set(p, idx * 16 + 8, 'd', v.im, guard)

    def csum(self, n, f):
        """complex sum"""
        if self.mode == 'con':
            r = Cx(self.num(0), self.num(0))
            for i in range(int(n)):
                r = r + f(i)
            return r
        k = fresh('s', 'int')
        self.push_range(k, n)
        try:
            b = Cx.of(f(P(k)))
        finally:
            self.pop_range()
        return Cx(mk_sum(k, P(n), P(b.re)), mk_sum(k, P(n), P(b.im)))

    def field(self, p, sname, f):
        off, k = self.lay.field(sname, f)
        if k[0] in ('s', 'a'):
            return p + off
        return self.rd(p, off, k[0])

    def set_field(self, p, sname, f, v, guard=None):
        off, k = self.lay.field(sname, f)
        if k[0] == 's' and isinstance(v, Cx):
            self.set(p, off, 'd', v.re, guard)
            self.set(p, off + 8, 'd', v.im, guard)
            return
        self.set(p, off, k[0], v, guard)

    def d(self, p, off=0):
        return self.rd(p, off, 'd')

    def i(self, p, off=0):
        return self.rd(p, off, 'i')

    def l(self, p, off=0):
        return self.rd(p, off, 'l')

    def p(self, p, off=0):
        return self.rd(p, off, 'p')

    def set_d(self, p, off, v, guard=None):
        self.set(p, off, 'd', v, guard)

    def set_i(self, p, off, v, guard=None):
        self.set(p, off, 'i', v, guard)


class SymC(Base):
    mode = 'sym'

    def __init__(self, eng, st, facts=None, call=False, cfg=None):
        self.eng = eng
        self.st = st
        self.cfg = cfg or eng.cfg
        self.complex = self.cfg != 'inv'
        self.herm = self.cfg in ('herm', 'mpi')
        self.lay = layouts(self.cfg)
        self.call = call
        self.updates = []
        self.facts = facts if facts is not None else st.facts
        self.ranges = []
        self.letdepth = 0
        self.ret_value = None
        self.scratches = set()
        self.setup_phase = False
        self.requires_failed = []
        self.outcome_dies = False
        self.newmem = None
        self.fname = ''
        self.assumed = []
        self.precond = False

    # numbers
    def num(self, x):
        return P(x)

    def cut(self, x):
        """name the value (as the option 'cut' does in the code)"""
        return terms.define(P(x))

    def named(self, x):
        x = P(x)
        return terms.define(x) if terms.has_ind_term(x) else x

    def cuti(self, x):
        return terms.define(P(x), 'int')

    def now(self, p, off, ty='d'):
        """the value at p + off after the updates specified so far"""
        n = self.apply(self.st.mem).get(p.obj) or self.eng.node(self.st, p.obj)
        return read(n, p.obj, p.off + P(off), ty, Ctx(self.eng, self.all_facts(), 'ind'))

    def sqrt(self, x): return sqrt_(x)
    def cos(self, x): return cos_(x)
    def sin(self, x): return sin_(x)
    def fabs(self, x): return fabs_(x)
    def exp(self, x): return P(mk_fn('exp', (P(x),), 'real'))
    def atan2(self, y, x): return P(mk_fn('atan2', (P(y), P(x)), 'real'))
    def floor(self, x): return floor_(x)
    def trunc(self, x): return ipart(x)
    def idiv(self, a, b): return idiv(a, b)
    def imod(self, a, b): return imod(a, b)

    def bitand(self, a, mask):
        """a & mask for mask = 2^n - 1"""
        a = P(a)
        if a.is_const():
            return const(int(a.const_value()) & mask)
        return imod(a, const(mask + 1)) if entails(self.all_facts(), le(0, a)) else P(mk_fn('and', (a, const(mask)), 'int'))

    def cdiv(self, a, b): return cdiv(a, b)

    def cached(self, f):
        return f

    def let(self, fn, *params):
        """fn(x0, x1, ..) for params (x, lo, hi), lo <= x < hi; abbreviated in contracts that are verified with folded
        transforms; the value of fn is a list of complex numbers"""
        if not getattr(self.eng, 'opaque', False):
            return fn(*[p[0] for p in params])
        d = self.letdepth
        self.letdepth += 1
        ps = [P(terms.let_param(d, i)) for i in range(len(params))]
        saved = self.ranges
        self.ranges = saved + [(None, None, band(le(lo, p), lt(p, hi))) for p, (_, lo, hi) in zip(ps, params)]
        try:
            r = fn(*ps)
        finally:
            self.letdepth -= 1
            self.ranges = saved
        args = [p[0] for p in params]
        qs = [terms.let_param(d, i) for i in range(len(params))]
        return [Cx(terms.let_app(P(v.re), qs, args), terms.let_app(P(v.im), qs, args)) for v in r]

    def fn(self, name, *a, kind='real'): return P(mk_fn(name, tuple(P(x) if isinstance(x, (int, float, Fraction)) else x for x in a), kind))
    @property
    def pi(self): return P(PI)

    def lt(self, a, b): return lt(a, b)
    def le(self, a, b): return le(a, b)
    def eq(self, a, b):
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            return self.eng.cmp(self.st, 'eq', a, b)
        return eq(a, b)
    def ne(self, a, b): return bnot(self.eq(a, b))
    def and_(self, *a): return band(*a)
    def or_(self, *a): return bor(*a)
    def not_(self, a): return bnot(a)

    def ite(self, c, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = Cx.of(a), Cx.of(b)
            return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
        return ite(c, a, b)

    def max(self, a, b): return ite(le(b, a), a, b)
    def min(self, a, b): return ite(le(a, b), a, b)

    def isnull(self, p):
        return self.eng.cmp(self.st, 'eq', p, NULL)

    def if_(self, c):
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        fs = self.all_facts()
        if entails(fs, c):
            return True
        if entails(fs, bnot(c)):
            return False
        raise Split(c)

    def known(self, b):
        return entails(self.all_facts(), b)

    def all_facts(self):
        fs = self.facts
        for v, T, g in self.ranges:
            fs = fs | frozenset([le(0, P(v)), lt(P(v), T)]) if g is None else fs | frozenset([g])
        return fs

    def push_range(self, v, T):
        self.ranges.append((v, P(T), None))

    def push_guard(self, g):
        self.ranges.append((None, None, g))

    def pop_range(self):
        self.ranges.pop()

    # memory
    def rd(self, p, off, ty):
        if p.obj is None:
            raise Unsupported('spec dereferences NULL')
        n = self.eng.node(self.st, p.obj)
        mode = 'ind' if ty in 'df' else ('split' if not self.ranges else 'split')
        return read(n, p.obj, p.off + P(off), ty, Ctx(self.eng, self.all_facts(), mode))

    def set(self, p, off, ty, v, guard=None):
        g = guard if guard is not None else TRUE
        binders = [(v0, T) for v0, T, gg in self.ranges if gg is None]
        for v0, T, gg in self.ranges:
            if gg is not None:
                g = band(g, gg)
        if isinstance(v, (int, float, Fraction)):
            v = P(v)
        if isinstance(v, Bool):
            v = ind(v)
        self.updates.append((p.obj, Store(p.off + P(off), ty, v, binders, g)))

    def each(self, *a):
        """each(n1, n2, ..., fn): for all i1<n1, i2<n2, ...: fn(i1, i2, ...)"""
        ns, fn = a[:-1], a[-1]

        def rec(i, idx):
            if i == len(ns):
                fn(*idx)
                return
            n = ns[i]
            n = P(n(*idx) if callable(n) else n)
            if n.is_const() and n.const_value() <= 4:
                for v in range(int(n.const_value())):
                    rec(i + 1, idx + [P(v)])
                return
            v = fresh('e', 'int')
            self.push_range(v, n)
            try:
                rec(i + 1, idx + [P(v)])
            finally:
                self.pop_range()
        rec(0, [])

    def when(self, cond, fn):
        """guarded effects"""
        self.push_guard(cond)
        try:
            fn()
        finally:
            self.pop_range()

    def sum(self, n, f):
        k = fresh('s', 'int')
        self.push_range(k, n)
        try:
            b = P(f(P(k)))
        finally:
            self.pop_range()
        return mk_sum(k, P(n), b)

    def fold(self, init, n, f):
        """iterate acc := f(acc, k)"""
        init = P(init)
        kk = sym('foldk', 'int')
        for kind in ('int', 'real') if init.is_int() else ('real',):
            acc = sym('foldacc', kind)
            self.push_range(kk, n)
            try:
                body = P(f(P(acc), P(kk)))
            finally:
                self.pop_range()
            if kind == 'int' and body.is_int():
                break
        return execu.mk_fold(init, P(n), body)

    def scratch(self, p):
        """contents of the object are unspecified afterwards"""
        self.scratches.add(p.obj)
        self.eng.counter += 1
        self.updates.append((p.obj, Havoc('havoc%d:%s' % (self.eng.counter, p.obj))))

    def ret(self, v):
        if isinstance(v, Cx):
            v = (P(v.re), P(v.im))
        elif isinstance(v, (int, float, Fraction)):
            v = P(v)
        self.ret_value = v

    def requires(self, c, what=''):
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        if self.call:
            if not entails(self.all_facts(), c):
                self.requires_failed.append('%s requires %s %s' % (self.fname, what, c))
        else:
            self.facts = self.facts | frozenset([c])

    def dies_if(self, c):
        if self.if_(c):
            raise SpecDie()

    def dies_if_any(self, n, f):
        """aborts when f(k) for some 0 <= k < n"""
        if not self.outcome_dies:
            return
        for s in sorted({s for b in self.facts for s in b.fv if s.sort == 'int'}, key=lambda s: s.key):
            k = P(s)
            if entails(self.facts, band(le(0, k), lt(k, P(n)))) and entails(self.facts, f(k)):
                raise SpecDie()

    def first(self, n, f):
        """the least 0 <= k < n with f(k), or None"""
        if self.call:
            raise Unsupported('search contract used by a caller')
        n = P(n)
        v = fresh('q', 'int')
        none = bforall(((v, n),), bnot(f(P(v))))
        if entails(self.facts, none):
            return None
        for s in sorted({s for b in self.facts for s in b.fv if s.sort == 'int'}, key=lambda s: s.key):
            k = P(s)
            if entails(self.facts, band(le(0, k), lt(k, n))) and entails(self.facts, f(k)) and \
                    entails(self.facts, bforall(((v, k),), bnot(f(P(v))))):
                return k
        if self.precond:
            raise SpecDie()
        if execu.DEBUG:
            print('first:', f(P(v)), [str(b) for b in self.facts])
        raise Unsupported('search result not determined by the path')

    def malloc(self, size=None):
        obj = self.eng.new_obj('heap', base=('undef', 'heap'), heap=True, size=size)
        return Ptr(obj, ZERO)

    def null(self):
        return NULL

    def same(self, a, b):
        """pointer identity known from the shape of the state"""
        if a.obj != b.obj:
            return False
        return self.if_(eq(a.off, b.off))

    # ---- setup
    def field_array(self, d, name):
        return self.array(name, 0, 'd')

    def poke_field(self, p, sname, f, v):
        off, k = self.lay.field(sname, f)
        self.poke(p, off, k[0], v)

    def int(self, name, lo=None, hi=None, hard_hi=False, choices=None):
        if choices is not None and len(choices) == 1:
            return const(choices[0])
        v = P(sym(name, 'int'))
        if lo is not None:
            self.st.add(le(lo, v))
        if hi is not None and hard_hi:
            self.st.add(le(v, hi))
        if choices is not None:
            self.st.add(bor(*[eq(v, c) for c in choices]))
        self.facts = self.st.facts
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, choices=None):
        v = P(sym(name, 'real'))
        if pos:
            self.st.add(lt(0, v))
        if nonzero:
            self.st.add(ne(v, 0))
        self.facts = self.st.facts
        return v

    def assume(self, c):
        self.st.add(c)
        self.facts = self.st.facts

    def array(self, name, n, elem='d', nonneg=False, values=None):
        es, cells, et = self._elem(elem)
        obj = self.eng.new_obj(name, size=P(n) * es, elem=et, layout=(es, cells) if cells else None, nonnull=True)
        return Ptr(obj, ZERO)

    def _elem(self, elem):
        if elem == 'z':
            return (16 if self.complex else 8), None, 'd'
        if elem == 'zc':
            return 16, None, 'd'
        if elem in SIZE:
            return SIZE[elem], None, elem
        cells = self.lay.cells(elem)
        return self.lay.size(elem), cells, 'd'

    def struct(self, name_, sname_, **kw):
        name, sname = name_, sname_
        sz = self.lay.size(sname)
        obj = self.eng.new_obj(name, size=const(sz), layout=(sz, self.lay.cells(sname)), nonnull=True, sname=sname)
        p = Ptr(obj, ZERO)
        self.init(p, sname, **kw)
        return p

    def init(self, ptr_, sname_, **kw):
        p, sname = ptr_, sname_
        for f, v in kw.items():
            f = f.replace('__', '.')
            off, k = self.lay.field(sname, f)
            if isinstance(v, Cx):
                self.poke(p, off, 'd', v.re)
                self.poke(p, off + 8, 'd', v.im)
            elif isinstance(v, (list, tuple)):
                if k[0] == 'a':
                    m, _ = self.lay.find(sname)
                    ek = frontend.dwarf_kind(m, k[1])
                    es = self.lay.ksize(m, ek)
                    for i, x in enumerate(v):
                        if x is not None:
                            self.poke(p, off + i * es, ek[0], x)
                else:
                    raise TypeError(f)
            else:
                self.poke(p, off, k[0], v)

    def poke(self, p, off, ty, v):
        if isinstance(v, (int, float, Fraction)):
            v = P(v)
        n = self.eng.node(self.st, p.obj)
        self.st.mem[p.obj] = n.push(Store(p.off + P(off), ty, v))

    def memo(self, key, fn):
        return fn()

    def func(self, name):
        return execu.Func(name)

    def global_(self, name, mod):
        return self.eng.global_ptr(frontend.module(self.cfg, mod), name)

    # ---- result
    def apply(self, mem):
        mem = dict(mem)
        for obj, u in self.updates:
            n = mem.get(obj)
            if n is None:
                n = self.eng.base_of(obj)
                for lc in self.eng.loopstack:
                    n = n.push(Barrier(lc))
            mem[obj] = n.push(u)
        return mem


# ------------------------------------------------------------------ equality prover

def simp(d, facts):
    def f(at, fs):
        if at.kind == 'ind':
            b = brewrite(at.args[0], f, fs)
            ff = facts | fs
            if entails(ff, b):
                return ONE
            if entails(ff, bnot(b)):
                return ZERO
            return ind(b)
        return None if has_ind(at) else at
    if not any(a.kind == 'ind' for a in all_atoms(d)):
        return d
    return rewrite(d, f)


def unify_cells(d, facts):
    """merge cell atoms whose offsets are provably equal"""
    ats = [a for a in all_atoms(d) if a.kind == 'cell']
    by = {}
    for a in ats:
        if any(s.key.startswith('#') for s in a.fv):
            continue
        by.setdefault((a.args[0], a.args[2]), []).append(a)
    mp = {}
    for l in by.values():
        l.sort(key=lambda a: a.id)
        for i, a in enumerate(l):
            if a in mp:
                continue
            for b in l[i + 1:]:
                if b in mp:
                    continue
                if (a.args[1] - b.args[1]).is_const():
                    continue
                if entails(facts, eq(a.args[1], b.args[1])):
                    mp[b] = P(a)
    return subst(d, mp) if mp else d


def eq_subst(d, facts):
    """use equalities among the facts as rewrite rules"""
    for f in facts:
        if f.op != 'eq':
            continue
        p = f.args[0]
        ats = all_atoms(d)
        done = False
        for m, c in p.t.items():
            pos = [x for x in m if x[1] > 0]
            if len(pos) == 1 and pos[0][1] == 1:
                at = terms.atom(pos[0][0])
                if at in ats and at.kind in ('sym', 'cell', 'fn', 'sum'):
                    rest = p - Poly({m: c})
                    if at in all_atoms(rest):
                        continue
                    inv = Poly({tuple((i, -e) for i, e in m if e < 0): Fraction(-1) / c})
                    d = subst(d, {at: rest * inv})
                    done = True
                    break
        if not done and len(p.t) == 1:
            (m, c), = p.t.items()
            pos = dict(x for x in m if x[1] > 0)
            d = Poly({q: v for q, v in d.t.items() if not all(dict(q).get(i, 0) >= e for i, e in pos.items())})
    return d


def abstract_idiv(d, facts):
    """generalise quotients to fresh symbols, then use the equalities"""
    ats = [a for a in all_atoms(d) if a.kind == 'fn' and a.args[0] == 'idiv' and not any(s.key.startswith('#') for s in a.fv)]
    if not ats:
        return None
    mp = {a: P(fresh('quo', 'int')) for a in ats}
    d2 = subst(d, mp)
    fs = frozenset(bsubst(f, mp) for f in facts if f.op == 'eq')
    d3 = eq_subst(d2, fs)
    return d3 if d3 != d2 else None


def _nonneg(facts, y):
    """y >= 0, also by removing common positive factors and using that truncation rounds towards zero"""
    if entails(facts, le(0, y)):
        return True
    for at in [terms.atom(a) for m in y.t for a, e in m if e == 1]:
        if at.kind == 'fn' and at.args[0] == 'ipart':
            k = y.t.get(((at.id, 1),), 0)
            if k < 0 and not (y * (Fraction(-1) / k) - at.args[1] + P(at)).t:
                return _nonneg(facts, at.args[1])
    com = None
    for m in y.t:
        ks = dict(m)
        com = ks if com is None else {a: min(e, ks[a]) for a, e in com.items() if a in ks and e * ks[a] > 0}
    for a, e in (com or {}).items():
        at = terms.atom(a)
        if at.kind == 'sym' and entails(facts, lt(0, P(at))):
            return _nonneg(facts, y * P(at) ** (-e))
    return False


def simp_abs(d, facts):
    def f(at, fs):
        if at.kind == 'fn' and at.args[0] == 'abs':
            y = rewrite(at.args[1], f)
            if _nonneg(facts, y):
                return y
            if _nonneg(facts, -y):
                return -y
        if at.kind == 'ind' and at.args[0].op == 'le':
            y = -rewrite(at.args[0].args[0], f)
            if _nonneg(facts, y):
                return ONE
        return None
    return rewrite(d, f)


def simp_idiv(d, facts):
    """idiv(q b + r, b) = q when 0 <= r < b"""
    if not any(a.kind == 'fn' and a.args[0] == 'idiv' for a in all_atoms(d)):
        return d
    d = eq_subst(d, facts)

    def f(at, fs):
        if at.kind == 'fn' and at.args[0] == 'idiv':
            a, b = at.args[1], at.args[2]
            a = rewrite(a, f, fs)
            b = rewrite(b, f, fs)
            if len(b.t) == 1:
                (mb, cb), = b.t.items()
                q, r = divmono(a, mb, cb)
                ff = facts | fs
                if q.t and entails(ff, band(le(0, r), lt(r, b))):
                    return q
            return idiv(a, b)
        return None
    return rewrite(d, f)


def prove_zero(d, facts, depth=0):
    if not d.t:
        return True
    if depth == 0:
        d = simp_idiv(d, facts)
        if not d.t:
            return True
    d = simp(d, facts)
    if not d.t:
        return True
    r = reduce_poly(d)
    if not r.t:
        return True
    if any(a.kind == 'fn' and a.args[0] in ('abs', 'ipart') for a in all_atoms(r)):
        r = reduce_poly(simp_abs(r, facts))
        if not r.t:
            return True
    inds = sorted({terms.atom(a) for m in r.t for a, _ in m if terms.atom(a).kind == 'ind'}, key=lambda a: a.key)
    if inds and depth < 14:
        a = inds[0]
        for c, v in ((a.args[0], ONE), (bnot(a.args[0]), ZERO)):
            fs = facts | frozenset([c])
            if not satisfiable(fs):
                continue
            if c.op == 'le' and le(0, c.args[0]) in facts:
                fs = fs | frozenset([eq0(c.args[0])])
            if not prove_zero(subst_ind(r, a, v), fs, depth + 1):
                return False
        return True
    d2 = eq_subst(r, facts)
    if d2 != r:
        r2 = reduce_poly(simp(d2, facts))
        if not r2.t:
            return True
        r = r2
    d4 = abstract_idiv(r, facts)
    if d4 is not None:
        d4 = reduce_poly(d4)
        if not d4.t:
            return True
    d3 = unify_cells(r, facts)
    if d3 != r:
        r = reduce_poly(simp(d3, facts))
        if not r.t:
            return True
    if r.is_int() and entails(facts, eq0(r), True):
        return True
    if not satisfiable(facts):
        return True
    # integer sub-expressions equal under the facts
    return False


def subst_ind(p, at, v):
    def f(a, fs):
        return v if a is at else None
    return rewrite(p, f)


# ------------------------------------------------------------------ contracts

REG = {}


class Contract:
    def __init__(self, func, file, props, setup, spec, cfgs=('complex', 'inv'), variants=({},), inline=(), opts=None,
                 trusted=False, static=False, samples=6, bounded=None):
        self.func = func
        self.file = file
        self.props = props.split() if isinstance(props, str) else [q for x in props for q in x.split()]
        self.setup = setup
        self.spec = spec
        self.cfgs = cfgs
        self.variants = list(variants)
        self.inline = set(inline)
        self.opts = opts or {}
        self.trusted = trusted
        self.static = static
        self.samples = samples
        self.bounded = bounded

    def handler(self):
        def h(eng, st, args, ins):
            c = SymC(eng, st, call=True)
            c.fname = self.func
            f = eng.funcs.get(self.func)
            try:
                self.spec(c, *collapse(args, f and f[1]))
            except SpecDie:
                return [Outcome('die', st, val='die in ' + self.func)]
            for r in c.requires_failed:
                eng.obligs.append(('precondition at call of ' + self.func, False, r))
            if not c.requires_failed:
                eng.obligs.append(('precondition at call of ' + self.func, True, ''))
            st.mem = c.apply(st.mem)
            return c.ret_value
        return h


def contract(func, file, props, cfgs=('complex', 'inv'), variants=({},), **kw):
    """class decorator: the class has setup(c, **variant) and spec(c, *args)"""
    def deco(cls):
        k = Contract(func, file, props if isinstance(props, (list, tuple)) else [props], cls.__dict__.get('setup'),
                     cls.__dict__['spec'], cfgs, variants, **kw)
        key = kw.get('name') or func
        REG.setdefault(func, []).append(k)
        cls.contract = k
        return k
    return deco


_index = {}


def func_index(cfg):
    """function name -> (file) for non-static functions, by scanning definitions in the IR"""
    if cfg in _index:
        return _index[cfg]
    idx = {}
    files = [f for f in frontend.sources() if f not in ('epsilon.c', 'sphere-quad.c', 'debug_malloc.c', 'minpack2-linmin.c')]
    from concurrent.futures import ThreadPoolExecutor

    def go(f):
        try:
            return f, open(frontend.ir_path(cfg, f)).read()
        except frontend.FrontendError as e:
            return f, None
    with ThreadPoolExecutor(8) as ex:
        for f, t in ex.map(go, files):
            if t is None:
                continue
            for m in re.finditer(r'^define (.*)@([\w.$]+)\(', t, re.M):
                if 'internal' in m.group(1):
                    idx.setdefault(('static', f, m.group(2)), f)
                else:
                    idx[m.group(2)] = f
    _index[cfg] = idx
    return idx


class LazyFuncs(dict):
    def __init__(self, cfg):
        dict.__init__(self)
        self.cfg = cfg

    def get(self, name, default=None):
        if name in self:
            return self[name]
        f = func_index(self.cfg).get(name)
        if f is None:
            return default
        m = frontend.module(self.cfg, f)
        self[name] = (m, m.funcs[name])
        return self[name]


class Result:
    def __init__(self, func, cfg, variant):
        self.func = func
        self.cfg = cfg
        self.variant = variant
        self.obls = []     # (name, ok, detail)
        self.called = set()
        self.inlined = set()
        self.error = None
        self.time = 0
        self.paths = 0
        self.missing = False

    def ok(self):
        return self.error is None and all(o[1] for o in self.obls) and not self.missing

    def label(self):
        v = ','.join('%s=%s' % kv for kv in self.variant.items())
        return '%s[%s%s]' % (self.func, self.cfg, ';' + v if v else '')


def mk_engine(k, cfg):
    eng = Engine(cfg, k.opts.get('unroll', execu.UNROLL))
    eng.funcs = LazyFuncs(cfg)
    eng.opaque = bool(k.opts.get('opaque'))
    eng.cut = k.opts.get('cut', 0)
    eng.unroll_all = k.opts.get('unroll_all', False)
    eng.cutind = k.opts.get('cutind', False)
    eng.lazyalias = k.opts.get('lazyalias', False)
    eng.peel = k.opts.get('peel', False)
    for name, ks in REG.items():
        if name == k.func or name in k.inline:
            continue
        eng.contracts[name] = ks[0].handler()
    for name, h in EXTERNALS.items():
        eng.contracts.setdefault(name, h.handler() if isinstance(h, Contract) else h)
    for name, h in k.opts.get('externals', {}).items():
        eng.contracts[name] = h.handler() if isinstance(h, Contract) else h
    return eng


IGNORED_GLOBALS = set()
EXTERNALS = {'mpi_die': execu.b_die, 'mpi_one_printf': execu.b_nop, 'mpi_one_fprintf': execu.b_nop, 'vfprintf': execu.b_nop, 'vprintf': execu.b_nop}


class TimeUp(BaseException):
    pass


def _ring(sig, frame):
    raise TimeUp()


def verify(k, cfg, variant, timeout=300, verbose=False):
    res = Result(k.func, cfg, variant)
    t0 = time.time()
    armed = threading.current_thread() is threading.main_thread()
    try:
        if armed:
            signal.signal(signal.SIGALRM, _ring)
            signal.setitimer(signal.ITIMER_REAL, timeout + 5, 3)
        try:
            _verify(k, cfg, variant, res, timeout, verbose)
        finally:
            if armed:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        res.error = 'Unsupported: time limit'
    except (Unsupported, Split) as e:
        res.error = '%s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    except RecursionError as e:
        res.error = 'RecursionError'
    except Exception as e:
        res.error = 'internal %s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
        else:
            res.error += ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()
    res.time = time.time() - t0
    return res


def _verify(k, cfg, variant, res, timeout, verbose):
    mod = frontend.module(cfg, k.file)
    if k.func not in mod.funcs:
        alt = func_index(cfg).get(k.func)
        if alt is None:
            res.missing = True
            res.error = 'function not found'
            return
        mod = frontend.module(cfg, alt)
    fn = mod.funcs[k.func]
    eng = mk_engine(k, cfg)
    eng.deadline = time.time() + timeout
    st = State({}, frozenset(), {})
    c = SymC(eng, st)
    c.setup_phase = True
    c.mod = mod
    args = list(k.setup(c, **variant))
    args = expand(c, fn, args)
    st = c.st
    if len(args) != len(fn.params):
        res.error = 'signature changed: contract has %d arguments, code has %d' % (len(args), len(fn.params))
        if k.static:
            res.missing = True
        return
    args = [P(a) if isinstance(a, (int, float, Fraction)) else a for a in args]
    pre = State(dict(st.mem), st.facts, {})
    if not satisfiable(pre.facts):
        res.obls.append(('precondition is satisfiable', False, 'contradictory precondition'))
        return
    outs = eng.run_function(mod, fn, args, pre)
    res.called = eng.called
    res.inlined = eng.inlined
    res.paths = len(outs)
    for nm, ok, det in eng.obligs:
        res.obls.append((nm, ok, det))
    nret = 0
    for oi, o in enumerate(outs):
        if not satisfiable(o.st.facts):
            continue
        stack = [o.st.facts]
        n = 0
        while stack:
            facts = stack.pop()
            n += 1
            if n > 300:
                raise Unsupported('too many specification cases')
            if time.time() > eng.deadline:
                raise Unsupported('time limit')
            try:
                if o.kind == 'ret':
                    nret += 1
                check_outcome(k, eng, pre, args, o, facts, res, mod, fn, verbose)
            except Split as s:
                for cc in (s.cond, bnot(s.cond)):
                    f2 = facts | (frozenset(cc.args) if cc.op == 'and' else frozenset([cc]))
                    if satisfiable(f2):
                        stack.append(f2)
    if not outs:
        res.obls.append(('some execution exists', False, 'no path through the function was found'))
    if not nret and not k.opts.get('may_only_die'):
        res.obls.append(('some execution returns', False, 'no returning path: vacuous'))


def check_outcome(k, eng, pre, args, o, facts, res, mod, fn, verbose=False):
    c = SymC(eng, State(dict(pre.mem), facts, {}), facts=facts)
    c.fname = k.func
    c.outcome_dies = o.kind == 'die'
    try:
        k.spec(c, *collapse(args, fn))
        dies = False
    except SpecDie:
        dies = True
    facts = c.facts
    if o.kind == 'die' and k.opts.get('may_die'):
        return
    if o.kind == 'die':
        res.obls.append(('does not abort unless specified', dies, '' if dies else 'abort reached under %s' % fmt_facts(facts, pre)))
        return
    if dies:
        res.obls.append(('aborts when specified', False, 'returned under %s' % fmt_facts(facts, pre)))
        return
    exp = c.apply(pre.mem)
    cmp_ = Comparer(eng, o.st.mem, exp, facts, res, c.scratches, pre, verbose)
    cmp_.value('return value', o.val, c.ret_value, fn)
    cmp_.memory()


def fmt_facts(facts, pre):
    return '{' + ', '.join(sorted(f.key[:200] for f in facts if f not in pre.facts)) + '}'


class Comparer:
    def __init__(self, eng, act, exp, facts, res, scratches, pre, verbose):
        self.eng = eng
        self.act = act
        self.exp = exp
        self.facts = facts
        self.res = res
        self.scr = scratches
        self.pre = pre
        self.hmap = {}
        self.work = []
        self.verbose = verbose
        self.seen = set()

    def ob(self, name, ok, det=''):
        self.res.obls.append((name, ok, det))
        if self.verbose and not ok:
            print('   FAIL', self.res.label(), name, det[:3000])

    def value(self, name, a, e, fn=None):
        if e is None:
            return
        if isinstance(e, tuple):
            for i, x in enumerate(e):
                self.value('%s[%d]' % (name, i), a[i] if isinstance(a, tuple) else UNDEF, x)
            return
        ok, det = self.same(a, e, self.facts)
        self.ob(name, ok, det)

    def same(self, a, e, facts):
        if a is UNDEF and self.eng.lost:
            raise execu.Unsupported(self.eng.lost)
        if isinstance(a, Bool):
            a = ind(a)
        if isinstance(e, Bool):
            e = ind(e)
        if isinstance(e, Poly) and isinstance(a, Poly):
            d = a - e
            if prove_zero(d, facts):
                return True, ''
            return False, 'code: %s\n   spec: %s\n   under %s' % (a, e, fmt_facts(facts, self.pre))
        if isinstance(e, Ptr) and isinstance(a, Ptr):
            if a.obj == e.obj:
                if prove_zero(a.off - e.off, facts):
                    return True, ''
            elif a.obj and e.obj and self.eng.objs.get(a.obj, {}).get('heap') and self.eng.objs.get(e.obj, {}).get('heap'):
                if self.hmap.get(a.obj, e.obj) == e.obj and prove_zero(a.off - e.off, facts):
                    if a.obj not in self.hmap:
                        sa, se = self.eng.objs[a.obj].get('size'), self.eng.objs[e.obj].get('size')
                        if se is not None:
                            ok = sa is not None and (prove_zero(P(sa) - P(se), facts) or entails(facts, le(se, sa)))
                            self.ob('size of the memory allocated for ' + e.obj, ok, 'code: %s\n   spec: %s' % (sa, se))
                        self.hmap[a.obj] = e.obj
                        self.work.append((a.obj, e.obj))
                    return True, ''
            return False, 'code: %r\n   spec: %r' % (a, e)
        if isinstance(a, Pack) and isinstance(e, Pack):
            ok, det = self.same(a.lo, e.lo, facts)
            return self.same(a.hi, e.hi, facts) if ok else (ok, det)
        if a is e or (isinstance(a, execu.Func) and a == e):
            return True, ''
        return False, 'code: %r\n   spec: %r' % (a, e)

    def memory(self):
        objs = []
        for obj in set(self.act) | set(self.exp):
            info = self.eng.objs.get(obj, {})
            if info.get('local') or info.get('heap'):
                continue
            if info.get('ignore') or obj in IGNORED_GLOBALS or obj.lstrip('@') in IGNORED_GLOBALS:
                continue
            objs.append((obj, obj))
        objs.sort()
        self.work = objs + self.work
        while self.work:
            a, e = self.work.pop(0)
            self.object(a, e)

    def object(self, oa, oe):
        na = self.act.get(oa) or self.eng.base_of(oa)
        ne_ = self.exp.get(oe) or self.eng.base_of(oe)
        n0 = self.pre.mem.get(oa)
        if na is ne_ or (na is n0 and ne_ is n0):
            return
        if oe in self.scr:
            ups = []
            for u in self._new(ne_, n0):      # newest first
                if isinstance(u, Havoc):
                    break
                ups.append(u)
        else:
            ups = self._new(na, n0) + self._new(ne_, n0)
        for u in ups:
            if isinstance(u, Havoc):
                raise execu.Unsupported('contents of %s unknown after %s' % (oa, u))
            key = (oa, u.addr, u.ty, u.binders, u.guard)
            if key in self.seen:
                continue
            self.seen.add(key)
            done = self.cell(u, na, ne_, oa, oe, {}, ())
            if done is None:
                continue
            ok, det, addr = done
            if not ok and u.binders:
                for sp in self._splits(u.binders):
                    if all(d is None or d[0] for d in (self.cell(u, na, ne_, oa, oe, r, b) for r, b in sp)):
                        ok, det = True, ''
                        break
            self.ob('%s[%s]' % (oa, short(addr)), ok, det and ('at %s: ' % addr) + det)

    def cell(self, u, na, ne_, oa, oe, ren0, extra):
        """compare the cells written by u (binders in ren0 replaced, new binders extra)"""
        ren = dict(ren0)
        fs = self.facts
        r2 = {}
        for v, T in extra:
            nv = stable(v, fs)
            r2[v] = nv
            fs = fs | frozenset([le(0, nv), lt(nv, T)])
        for v in ren:
            ren[v] = subst(ren[v], r2)
        for v, T in u.binders:
            T2 = subst(T, ren)
            if v not in ren:
                nv = stable(v, fs)
                if T2 == ONE or (not T2.is_const() and entails(fs, eq(T2, 1))):
                    nv = ZERO
                ren[v] = nv
            nv = ren[v]
            fs = fs | frozenset([le(0, nv), lt(nv, subst(T, ren))])
        g = bsubst(u.guard, ren) if ren else u.guard
        if g is not TRUE:
            fs = fs | (frozenset(g.args) if g.op == 'and' else frozenset([g]))
        if (u.binders or g is not TRUE) and not satisfiable(fs):
            return None
        addr = subst(u.addr, ren)
        va = read(na, oa, addr, u.ty, Ctx(self.eng, fs, 'ind'))
        ve = read(ne_, oe, addr, u.ty, Ctx(self.eng, fs, 'ind'))
        ok, det = self.same(va, ve, fs)
        return ok, det, addr

    def _splits(self, binders):
        """ways to write a binder with a product bound as mixed-radix digits: lists of (renaming, new binders)"""
        for v, T in binders:
            if len(T.t) != 1:
                continue
            (m, c), = T.t.items()
            if not isinstance(c, int) or any(e != 1 for _, e in m) or c > 4 or len(m) > 3 or len(m) + (c > 1) < 2:
                continue
            fac = [P(terms.atom(a)) for a, _ in m]
            for perm in itertools.permutations(fac):
                bs = tuple((fresh('d', 'int'), f) for f in perm)
                e = ZERO
                for d, f in bs:
                    e = e * f + P(d)
                yield [({v: e * c + t}, bs) for t in range(c)]

    def _new(self, n, n0):
        r = []
        while n.prev is not None and n is not n0:
            if isinstance(n.upd, Barrier):
                pass
            else:
                r.append(n.upd)
            n = n.prev
        return r


def stable(v, facts):
    """a name for the bound variable that is the same in every cell (so that cached proofs are found again)"""
    base = v.key.split('!')[0].split('~')[0]
    used = {a.key for f in facts for a in f.fv}
    i = 0
    while '%s~%d' % (base, i) in used:
        i += 1
    return P(sym('%s~%d' % (base, i), 'int'))


def short(p):
    s = p.key
    return s if len(s) < 60 else s[:57] + '...'
