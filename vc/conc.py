"""Concrete evaluation of contracts against the compiled /repo code (replay of failed obligations)."""
import ctypes, math, os, re, random, subprocess, struct, sys, json, time, signal, select
from contract import *
import contract as _c
import frontend
from memory import SIZE

RED = 128
FILL = 0xA5


class Reject(Exception):
    pass


class CannotRun(Exception):
    pass


class CPtr:
    __slots__ = ('c', 'obj', 'off')

    def __init__(self, c, obj, off=0):
        self.c, self.obj, self.off = c, obj, int(off)

    def __add__(self, n):
        return CPtr(self.c, self.obj, self.off + int(n))

    def __repr__(self):
        return '&%s+%d' % (self.obj, self.off)

    def addr(self):
        if self.obj is None:
            return 0
        o = self.c.objs[self.obj]
        return o.addr + self.off


class Obj:
    def __init__(self, name, addr, size, buf, cells=None, esize=None, ety='d'):
        self.name, self.addr, self.size, self.buf = name, addr, size, buf
        self.cells, self.esize, self.ety = cells, esize, ety
        self.red = buf is not None
        self.ignore = False


FMT = {'d': 'd', 'i': 'i', 'l': 'q', 'p': 'Q', 'b': 'b', 'h': 'h', 'f': 'f'}


class ConC(Base):
    mode = 'con'

    def __init__(self, lib, cfg, seed, consts=()):
        self.lib = lib
        self.cfg = cfg
        self.complex = cfg != 'inv'
        self.herm = cfg in ('herm', 'mpi')
        self.lay = layouts(cfg)
        self.rng = random.Random(seed)
        self.objs = {}
        self.log = []
        self.consts = list(consts)
        self.ret_value = None
        self.heaps = 0
        self.guards = []
        self.chosen = {}
        self.keep = []
        self.setup_phase = True
        self.events = []
        self.fname = ''

    # numbers
    def num(self, x): return x
    def cut(self, x): return x
    def cuti(self, x): return x
    def named(self, x): return x

    def now(self, p, off, ty='d'):
        o = self.objs[p.obj]
        lo = p.off + int(off) + (RED if o.red else 0)
        return struct.unpack(FMT[ty], bytes(self.exp[p.obj][lo:lo + SIZE[ty]]))[0]

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def fabs(self, x): return abs(x)
    def exp(self, x): return math.exp(x)
    def atan2(self, y, x): return math.atan2(y, x)
    def floor(self, x): return math.floor(x)
    def trunc(self, x): return int(x)

    def idiv(self, a, b):
        a, b = int(a), int(b)
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def bitand(self, a, mask): return int(a) & mask
    def imod(self, a, b): return int(a) - int(b) * self.idiv(a, b)
    def cached(self, f):
        tab = {}

        def g(*a):
            if a not in tab:
                tab[a] = f(*a)
            return tab[a]
        return g

    def let(self, fn, *params): return fn(*[p[0] for p in params])
    def cdiv(self, a, b): return -((-int(a)) // int(b))
    pi = math.pi
    def fn(self, name, *a): raise CannotRun('uninterpreted ' + name)

    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b

    def eq(self, a, b):
        if isinstance(a, CPtr) or isinstance(b, CPtr):
            return a.addr() == b.addr()
        return a == b

    def ne(self, a, b): return not self.eq(a, b)
    def known(self, b): return b
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def ite(self, c, a, b): return a if c else b
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def isnull(self, p): return getattr(p, "obj", p) is None
    def if_(self, c): return bool(c)

    # memory (pre-state)
    def raw(self, p, off, n):
        if p.obj is None:
            raise CannotRun('null dereference in specification')
        o = self.objs[p.obj]
        a = p.off + int(off)
        src = self.pre[p.obj] if not self.setup_phase else None
        lo = a + (RED if o.red else 0)
        if src is not None:
            if lo < 0 or lo + n > len(src):
                raise CannotRun('specification reads outside %s (+%d)' % (p.obj, a))
            return bytes(src[lo:lo + n])
        return ctypes.string_at(o.addr + a, n)

    def rd(self, p, off, ty):
        v = struct.unpack(FMT[ty], self.raw(p, off, SIZE[ty]))[0]
        if ty == 'p':
            return self.at(v)
        return v

    def at(self, addr):
        if addr == 0:
            return CPtr(self, None, 0)
        for o in self.objs.values():
            if o.addr <= addr < o.addr + max(o.size, 1):
                return CPtr(self, o.name, addr - o.addr)
        nm = '?%x' % addr
        self.objs[nm] = Obj(nm, addr, 1, None)
        self.objs[nm].ignore = True
        if not self.setup_phase:
            self.pre[nm] = b''
            self.exp[nm] = bytearray()
        return CPtr(self, nm, 0)

    def pack(self, ty, v):
        if isinstance(v, Poly):
            v = v.const_value()
        if ty == 'p':
            if isinstance(v, CPtr):
                v = v.addr()
            elif isinstance(v, CFunc):
                v = v.addr
            return struct.pack('Q', v)
        if ty in 'df':
            try:
                return struct.pack(FMT[ty], float(v))
            except OverflowError:
                return struct.pack(FMT[ty], float('inf'))
        return struct.pack(FMT[ty], int(v))

    def set(self, p, off, ty, v, guard=None):
        if guard is not None and not guard:
            return
        if not all(self.guards):
            return
        if isinstance(v, CPtr) and v.obj is not None and v.obj.startswith('heap:') and ty == 'p':
            self.heap_refs.append((p.obj, p.off + int(off), v.obj, v.off))
            self.mark(p, off, ty, b'\0' * 8)
            return
        self.mark(p, off, ty, self.pack(ty, v))

    def mark(self, p, off, ty, b):
        o = self.objs[p.obj]
        lo = p.off + int(off) + (RED if o.red else 0)
        e = self.exp[p.obj]
        if lo < 0 or lo + len(b) > len(e):
            raise CannotRun('specification writes outside %s (+%d of %d)' % (p.obj, p.off + int(off), o.size))
        e[lo:lo + len(b)] = b
        if p.obj in self.unspec:
            self.unspec[p.obj][lo:lo + len(b)] = b'\0' * len(b)
        self.writes.setdefault(p.obj, {})[p.off + int(off)] = ty

    def each(self, *a):
        ns, fn = a[:-1], a[-1]

        def rec(i, idx):
            if i == len(ns):
                fn(*idx)
                return
            n = ns[i](*idx) if callable(ns[i]) else ns[i]
            for k in range(int(n)):
                rec(i + 1, idx + [k])
        rec(0, [])

    def when(self, cond, fn):
        if cond:
            fn()

    def sum(self, n, f):
        r = 0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def fold(self, init, n, f):
        acc = init
        for k in range(int(n)):
            acc = f(acc, k)
        return acc

    def scratch(self, p):
        if p.obj is None:
            return
        self.unspec[p.obj] = bytearray(b'\1' * len(self.pre[p.obj]))
        o = self.objs[p.obj]
        if o.red:
            self.unspec[p.obj][:RED] = b'\0' * RED
            self.unspec[p.obj][-RED:] = b'\0' * RED
        w = self.writes.pop(p.obj, None)

    def ret(self, v):
        self.ret_value = v

    def requires(self, c, what=''):
        if not c:
            raise Reject(what)

    def dies_if(self, c):
        if c:
            raise SpecDie()

    def dies_if_any(self, n, f):
        self.dies_if(any(f(k) for k in range(int(n))))

    def first(self, n, f):
        for k in range(int(n)):
            if f(k):
                return k
        return None

    def malloc(self, size=None):
        self.heaps += 1
        nm = 'heap:%d' % self.heaps
        size = int(size if size is not None else 0)
        self.objs[nm] = Obj(nm, 0, size, None)
        self.pre[nm] = bytes(size)
        self.exp[nm] = bytearray(size)
        self.unspec[nm] = bytearray(b'\1' * size)
        return CPtr(self, nm, 0)

    def null(self): return CPtr(self, None, 0)

    def same(self, a, b): return a.obj == b.obj and a.off == b.off

    # ---- setup
    def alloc(self, name, size, cells=None, esize=None, ety='d'):
        n = name
        k = 1
        while n in self.objs:
            k += 1
            n = '%s#%d' % (name, k)
        buf = ctypes.create_string_buffer(size + 2 * RED + 64)
        base = ctypes.addressof(buf)
        base = (base + 63) // 64 * 64
        ctypes.memset(base, FILL, size + 2 * RED)
        self.keep.append(buf)
        self.objs[n] = Obj(n, base + RED, size, buf, cells, esize, ety)
        return CPtr(self, n, 0)

    def register(self, name, addr, size, cells=None, esize=None, ety='d'):
        """an object owned by the library"""
        self.objs[name] = Obj(name, addr, size, None, cells, esize, ety)
        return CPtr(self, name, 0)

    def rnd(self):
        r = self.rng
        x = r.random()
        if x < 0.05:
            return 0.0
        if x < 0.1:
            return float(r.choice([1, -1, 2, 0.5]))
        return r.uniform(-2, 2)

    def array(self, name, n, elem='d', nonneg=False, values=None):
        if elem == 'z':
            es, cells, ety = self.ss, None, 'd'
        elif elem == 'zc':
            es, cells, ety = 16, None, 'd'
        elif elem in SIZE:
            es, cells, ety = SIZE[elem], None, elem
        else:
            es, cells, ety = self.lay.size(elem), self.lay.cells(elem), None
        n = max(int(n), 0)
        p = self.alloc(name, n * es, cells, es, ety)
        if cells is not None:
            for i in range(n):
                self.fill_struct(p + i * es, cells)
        elif ety == 'd':
            for i in range(n * es // 8):
                v = values(i) if values else self.rnd()
                self.poke(p, i * 8, 'd', abs(v) if nonneg else v)
        else:
            for i in range(n):
                self.poke(p, i * es, ety, values(i) if values else self.rng.randint(0, 5))
        return p

    def fill_struct(self, p, cells):
        for off, ty in cells.items():
            if ty in 'df':
                self.poke(p, off, ty, self.rnd())
            elif ty == 'p':
                self.poke(p, off, 'p', 0)
            else:
                self.poke(p, off, ty, self.rng.randint(0, 3))

    def struct(self, name_, sname_, **kw):
        sz = self.lay.size(sname_)
        cells = self.lay.cells(sname_)
        p = self.alloc(name_, sz, cells, sz, None)
        ctypes.memset(p.addr(), 0, sz)
        self.fill_struct(p, cells)
        self.init(p, sname_, **kw)
        return p

    def init(self, ptr_, sname_, **kw):
        for f, v in kw.items():
            f = f.replace('__', '.')
            off, k = self.lay.field(sname_, f)
            if isinstance(v, Cx):
                self.poke(ptr_, off, 'd', v.re)
                self.poke(ptr_, off + 8, 'd', v.im)
            elif isinstance(v, (list, tuple)):
                m, _ = self.lay.find(sname_)
                ek = frontend.dwarf_kind(m, k[1])
                es = self.lay.ksize(m, ek)
                for i, x in enumerate(v):
                    if x is not None:
                        self.poke(ptr_, off + i * es, ek[0], x)
            else:
                self.poke(ptr_, off, k[0], v)

    def poke(self, p, off, ty, v):
        if v is NULL:
            v = 0
        b = self.pack(ty, v)
        ctypes.memmove(p.addr() + int(off), b, len(b))

    def poke_field(self, p, sname, f, v):
        off, k = self.lay.field(sname, f)
        self.poke(p, off, k[0], v)

    def int(self, name, lo=None, hi=None, hard_hi=False, choices=None):
        if choices is not None:
            v = self.rng.choice(list(choices))
        else:
            lo = 0 if lo is None else int(lo)
            hi = lo + 5 if hi is None else int(hi)
            v = self.rng.randint(lo, max(lo, hi))
            ic = [int(x) for x in self.consts if x == int(x) and lo <= x <= lo + 64]
            if ic and self.rng.random() < 0.15:
                v = self.rng.choice(ic)
        self.chosen[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, choices=None):
        r = self.rng
        if choices is not None:
            v = r.choice(list(choices))
        elif self.consts and r.random() < 0.3:
            v = float(r.choice(self.consts))
        else:
            v = self.rnd() if lo is None else r.uniform(float(lo), float(hi))
        if pos:
            v = abs(v) + (0.1 if v == 0 else 0)
        if nonzero and v == 0:
            v = 0.75
        if lo is not None and v < lo or hi is not None and v > hi:
            v = r.uniform(float(lo), float(hi))
        self.chosen[name] = v
        return v

    def assume(self, c):
        if isinstance(c, Bool):
            c = c is TRUE
        if not c:
            raise Reject('assume')

    def memo(self, key, fn):
        m = self.__dict__.setdefault('_memo', {})
        if key not in m:
            m[key] = fn()
        return m[key]

    def func(self, name):
        return CFunc(name, ctypes.cast(getattr(self.lib, name), ctypes.c_void_p).value)

    def global_(self, name, mod, size=None):
        nm = '@' + name
        m = frontend.module(self.cfg, mod)
        if nm in self.objs:
            return CPtr(self, nm, 0)
        size = size or glob_size(m, name)
        addr = ctypes.addressof(ctypes.c_char.in_dll(self.lib, name))
        o = Obj(nm, addr, size, None)
        o.cells = glob_cells(m, name)
        o.esize = size
        self.objs[nm] = o
        if not self.setup_phase:
            self.pre[nm] = ctypes.string_at(addr, size)
            self.exp[nm] = bytearray(self.pre[nm])
        return CPtr(self, nm, 0)

    def field_array(self, d, name):
        """an array large enough for the position-space field of a maxwell_data"""
        n = 2 * self.mdinfo['alloc']
        return self.array(name, n, 'd')

    def finish_setup(self):
        self.setup_phase = False
        self.pre = {}
        self.exp = {}
        self.unspec = {}
        self.writes = {}
        self.heap_refs = []
        for nm, o in self.objs.items():
            if o.ignore:
                self.pre[nm] = b''
            elif o.red:
                self.pre[nm] = ctypes.string_at(o.addr - RED, o.size + 2 * RED)
            else:
                self.pre[nm] = ctypes.string_at(o.addr, o.size)
            self.exp[nm] = bytearray(self.pre[nm])

    # ---- maxwell_data
    def mdata(self, name, alias='same', mu=None, nfb=2, dims=None, **kw):
        r = self.rng
        if dims is None:
            k = r.randint(0, 3)
            dims = {0: (r.randint(1 if self.complex else 2, 4), 1, 1), 1: (r.randint(2, 4), r.randint(2, 4), 1),
                    2: (r.randint(1, 3), r.randint(1, 3), r.randint(2, 4)), 3: (1, r.randint(2, 3), r.randint(2, 5))}[k]
        nx, ny, nz = dims
        L = self.lib
        nb = r.randint(1, 3)
        a, b, cc = ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
        L.create_maxwell_data.restype = ctypes.c_void_p
        d = L.create_maxwell_data(nx, ny, nz, ctypes.byref(a), ctypes.byref(b), ctypes.byref(cc), nb, nb)
        sz = self.lay.size('maxwell_data')
        p = self.alloc(name, sz, {o: t for o, t in self.lay.cells('maxwell_data').items()}, sz, None)
        ctypes.memmove(p.addr(), d, sz)
        S = self.S(p, 'maxwell_data')
        fo, od, ld, lds = S.fft_output_size, S.other_dims, S.last_dim, S.last_dim_size
        n_data = (fo if self.complex else od * lds) * 3 * 12
        self.mdinfo = dict(dims=dims, alloc=n_data, complex=self.complex)
        self.chosen['dims'] = dims
        f1 = self.array('fft_data', n_data * (2 if self.complex else 1), 'd')
        f2 = f1 if alias == 'same' else self.array('fft_data2', n_data * (2 if self.complex else 1), 'd')
        a = dict(fft_data=f1, fft_data2=f2, k_plus_G=self.array('k_plus_G', od * ld, 'k_data'),
                 k_plus_G_normsqr=self.array('k_plus_G_normsqr', od * ld, 'd', nonneg=True),
                 eps_inv=self.array('eps_inv', fo, 'symmetric_matrix'))
        if mu is not None:
            a['mu_inv'] = self.array('mu_inv', fo, 'symmetric_matrix') if mu else 0
        a.update(kw)
        self.init(p, 'maxwell_data', **a)
        o = self.objs[p.obj]
        o.skip = set()
        for f in ('plans', 'iplans', 'nplans', 'plans_howmany', 'plans_stride', 'plans_dist'):
            off, _ = self.lay.field('maxwell_data', f)
            n = {'plans': 32 * 8, 'iplans': 32 * 8, 'nplans': 4}.get(f, 32 * 4)
            o.skip |= set(range(off, off + n, 4))
        return p

    def dft(self, D, dir, xo, i, j):
        nx, ny, nz = self.mdinfo['dims']
        key = (dir, xo, i, j)
        cache = self.mdinfo.setdefault('k', {})
        if key in cache:
            return cache[key]
        ld = D.last_dim
        ij = int(i) * int(ld) + int(j)

        def dec(q, a, b, c):
            return (q // (b * c), (q // c) % b, q % c)
        f = dec(ij, nx, ny, nz)
        sg = -1 if dir > 0 else 1
        w = 1.0
        if self.complex:
            x = dec(int(xo), nx, ny, nz)
        else:
            if nz > 1:
                h = nz // 2 + 1
                x = dec(int(xo), nx, ny, h)
                l, n = x[2], nz
            elif ny > 1:
                h = ny // 2 + 1
                x = (int(xo) // h, int(xo) % h, 0)
                l, n = x[1], ny
            else:
                x = (int(xo), 0, 0)
                l, n = x[0], nx
            if dir < 0 and not (l == 0 or 2 * l == n):
                w = 2.0
        th = 2 * math.pi * sg * (x[0] * f[0] / nx + x[1] * f[1] / ny + x[2] * f[2] / nz)
        K = Cx(w * math.cos(th), w * math.sin(th))
        if not self.complex and dir < 0:
            K = Cx(K.re, -K.im)
        cache[key] = K
        return K


class CFunc:
    def __init__(self, name, addr):
        self.name, self.addr = name, addr


def glob_size(m, name):
    d = m.globals.get(name, '')
    mm = re.match(r'((?:[\w()"]+ )*?)(constant|global) (.*)', d)
    t = __import__('irparse').tokenize(mm.group(3))
    ty, i = m.ptype(t, 0)
    return m.size(ty)


def glob_cells(m, name):
    d = m.globals.get(name, '')
    mm = re.match(r'((?:[\w()"]+ )*?)(constant|global) (.*)', d)
    t = __import__('irparse').tokenize(mm.group(3))
    ty, i = m.ptype(t, 0)
    out = {}
    for off, lt_ in m.leaves(ty):
        out[off] = execu.Engine.tykind(None, m, lt_)
    return out


# ------------------------------------------------------------------ building the library

_libs = {}
_objcache = {}
LIBS = ['-lfftw3', '-llapack', '-lblas', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5', '-lctl', '-lctlgeom', '-lguile-3.0', '-lnlopt', '-lm']


def _compile(src, out, extra=()):
    r = subprocess.run(['clang-18', '-O1', '-fPIC', '-w', '-c', src, '-o', out] + list(extra), capture_output=True, text=True)
    if r.returncode:
        raise CannotRun('compile: ' + r.stderr[-800:])


def globalize(text):
    text = re.sub(r'^(define )internal ', r'\1', text, flags=re.M)
    text = re.sub(r'^(@[\w.$"]+ = )(internal|private)( (?:unnamed_addr |local_unnamed_addr )?global)', r'\1\3', text, flags=re.M)
    text = re.sub(r'^(@[\w$]+ = )internal( (?:unnamed_addr |local_unnamed_addr )?constant)', r'\1\2', text, flags=re.M)
    return text


def build_lib(cfg, fname):
    key = (cfg, fname)
    if key in _libs:
        if isinstance(_libs[key], Exception):
            raise _libs[key]
        return _libs[key]
    try:
        r = _build_lib(cfg, fname)
    except (CannotRun, OSError, frontend.FrontendError) as e:
        _libs[key] = CannotRun(str(e))
        raise _libs[key]
    _libs[key] = r
    return r


def prebuild(cfg, fname):
    return _build_lib(cfg, fname)


MPB_SKIP = ('epsilon.c', 'mu.c')


def _build_lib(cfg, fname):
    w = os.path.join(frontend.work(), 'con_' + cfg)
    os.makedirs(w, exist_ok=True)
    src = frontend.sources()
    ismpb = '/mpb/' in src[fname]
    files = [f for f, p in src.items() if (ismpb or '/mpb/' not in p) and (f == fname or '/utils/' not in p) and f not in MPB_SKIP
             and f not in ('sphere-quad.c', 'debug_malloc.c', 'minpack2-linmin.c')]
    from concurrent.futures import ThreadPoolExecutor

    def one(f):
        tgt = f == fname
        o = os.path.join(w, f + ('.g.o' if tgt else '.o'))
        if os.path.exists(o):
            return o
        ll = frontend.ir_path(cfg, f)
        if tgt:
            t = globalize(open(ll).read())
            ll = os.path.join(w, f + '.g.ll')
            open(ll, 'w').write(t)
        tmp = o + '.%d.tmp.o' % os.getpid()
        _compile(ll, tmp)
        os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    o = os.path.join(w, 'callbacks.o')
    if not os.path.exists(o):
        _compile(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'callbacks.c'), o, frontend.cflags(cfg))
    objs.append(o)
    if ismpb:
        g = frontend.cfgdir(cfg)
        for f in ('ctl-io.c', 'geom.c'):
            p = os.path.join(g, f)
            if os.path.exists(p):
                o = os.path.join(w, 'gen_' + f + '.o')
                if not os.path.exists(o):
                    _compile(p, o, frontend.cflags(cfg, True))
                objs.append(o)
    so = os.path.join(w, 'lib_%s.so' % fname)
    if not os.path.exists(so):
        r = subprocess.run(['clang-18', '-shared', '-Wl,-Bsymbolic', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition', '-o', so + '.tmp'] + objs + LIBS,
                           capture_output=True, text=True)
        if r.returncode:
            raise CannotRun('link: ' + r.stderr[-800:])
        os.rename(so + '.tmp', so)
    return ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)


# ------------------------------------------------------------------ running

class Dbl2(ctypes.Structure):
    _fields_ = [('re', ctypes.c_double), ('im', ctypes.c_double)]


class IntP(ctypes.Structure):
    _fields_ = [('n', ctypes.c_int), ('data', ctypes.c_void_p)]


class SqS(ctypes.Structure):
    _fields_ = [('p', ctypes.c_int), ('alloc_p', ctypes.c_int), ('data', ctypes.c_void_p)]


_bv = {}


def byval_struct(n):
    if n not in _bv:
        class BV(ctypes.Structure):
            _fields_ = [('b', ctypes.c_char * n)]
        _bv[n] = BV
    return _bv[n]


CT = {'i': ctypes.c_int, 'l': ctypes.c_int64, 'd': ctypes.c_double, 'p': ctypes.c_void_p, 'b': ctypes.c_int8, 'h': ctypes.c_int16, 'f': ctypes.c_float}


def marshal(c, mod, fn, args):
    """logical arguments -> ctypes values"""
    vals = []
    ip = 0
    eng = execu.Engine
    for a in args:
        if isinstance(a, SqArg):
            vals.append(SqS(int(a.p), int(a.alloc_p), a.data.addr()))
            ip += 1 if ip < len(fn.params) and 'byval' in fn.params[ip][2] else 2
            continue
        if ip >= len(fn.params):
            raise CannotRun('signature changed')
        ty, nm, at = fn.params[ip]
        ip += 1
        if 'byval' in at:
            n = mod.size(at['byval'])
            B = byval_struct(n)
            vals.append(B.from_buffer_copy(ctypes.string_at(a.addr(), n)))
            continue
        k = eng.tykind(None, mod, ty)
        if k == 'p':
            if a is NULL:
                vals.append(ctypes.c_void_p(0))
            else:
                vals.append(ctypes.c_void_p(a.addr if isinstance(a, CFunc) else a.addr()))
        elif k == 'd':
            vals.append(ctypes.c_double(float(a)))
        elif k in CT:
            vals.append(CT[k](int(a)))
        else:
            raise CannotRun('argument kind %r' % (k,))
    if ip != len(fn.params):
        raise CannotRun('signature changed: %d arguments' % len(fn.params))
    return vals


def rettype(mod, fn):
    t = mod.resolve(fn.ret) if fn.ret is not None else None
    if t is None or t.k == 'void':
        return None
    if t.k == 'struct':
        ks = [execu.Engine.tykind(None, mod, x) for x in t.a]
        if ks == ['d', 'd']:
            return Dbl2
        if ks == ['l', 'p']:
            return SqS
        if ks == ['i', 'p']:
            return IntP
        raise CannotRun('return type')
    return CT[execu.Engine.tykind(None, mod, t)]


def close(a, b, scale):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if a != a or b != b:
        return False
    if abs(a) == float('inf') or abs(b) == float('inf'):
        return a == b
    return abs(a - b) <= 1e-7 * (scale + abs(b)) + 1e-11


def compare(c, ret):
    """called in the child after the call; list of differences"""
    diffs = []
    ev = c.ret_value
    vals = []

    def flat(v):
        if isinstance(v, Cx):
            return [v.re, v.im]
        if isinstance(v, tuple):
            r = []
            for x in v:
                r += flat(x)
            return r
        if isinstance(v, Pack):
            return [v.lo, v.hi]
        return [v]
    hm = {}

    def chk(nm, a, e):
        if isinstance(e, CPtr):
            if e.obj is not None and e.obj.startswith('heap:'):
                if not a:
                    diffs.append('%s: NULL, expected allocated memory' % nm)
                elif hm.setdefault(e.obj, a - e.off) != a - e.off:
                    diffs.append('%s: wrong pointer' % nm)
                return
            if (a or 0) != e.addr():
                diffs.append('%s: pointer %r, expected %r' % (nm, a, e))
            return
        if isinstance(e, bool):
            e = int(e)
        if isinstance(a, float) or isinstance(e, float):
            if not close(float(a), float(e), 1.0):
                diffs.append('%s: got %r, expected %r' % (nm, a, e))
        elif a != int(e):
            diffs.append('%s: got %r, expected %r' % (nm, a, e))
    if ev is not None:
        e = flat(ev)
        if isinstance(ret, Dbl2):
            a = [ret.re, ret.im]
        elif isinstance(ret, IntP):
            a = [ret.n, ret.data]
        elif isinstance(ret, SqS):
            a = [ret.p, ret.alloc_p, ret.data]
        else:
            a = [ret]
        for i, (x, y) in enumerate(zip(a, e)):
            chk('return value' + ('[%d]' % i if len(e) > 1 else ''), x, y)
    for obj, off, h, hoff in sorted(c.heap_refs, key=lambda x: (x[0].startswith('heap:'), x[0] if x[0].startswith('heap:') else '', x[1])):
        o = c.objs[obj]
        if o.addr == 0:
            o.addr = hm.get(obj, 0)
        if o.addr == 0:
            continue
        v = ctypes.c_uint64.from_address(o.addr + off).value
        chk('%s+%d' % (obj, off), v, CPtr(c, h, hoff))
        c.exp[obj][off + (RED if o.red else 0):][:8] = b''
        lo = off + (RED if o.red else 0)
        c.exp[obj][lo:lo + 8] = struct.pack('Q', v)
    for nm, o in c.objs.items():
        if o.ignore or nm not in c.exp:
            continue
        if nm.startswith('heap:'):
            if nm not in hm:
                continue
            act = ctypes.string_at(hm[nm], o.size)
            o.addr = hm[nm]
        else:
            act = ctypes.string_at(o.addr - RED, o.size + 2 * RED) if o.red else ctypes.string_at(o.addr, o.size)
        exp = bytes(c.exp[nm])
        if act == exp:
            continue
        un = c.unspec.get(nm)
        r0 = RED if o.red else 0
        if o.red and (act[:RED] != exp[:RED] or act[-RED:] != exp[-RED:]):
            diffs.append('%s: written outside of its bounds' % nm)
        skip = getattr(o, 'skip', ())
        cells = []
        if o.cells and o.esize:
            for i in range(o.size // o.esize):
                for co, ty in sorted(o.cells.items()):
                    cells.append((i * o.esize + co, ty))
        elif o.ety and o.ety != 'd':
            cells = [(i, o.ety) for i in range(0, o.size - SIZE[o.ety] + 1, SIZE[o.ety])]
        else:
            wt = c.writes.get(nm, {})
            if any(t != 'd' for t in wt.values()):
                i = 0
                while i < o.size:
                    t = wt.get(i, 'b')
                    cells.append((i, t))
                    i += SIZE[t]
            else:
                cells = [(i, 'd') for i in range(0, o.size - 7, 8)]
        sc = 0.0
        for off, ty in cells:
            if ty == 'd':
                v = abs(struct.unpack_from('d', exp, r0 + off)[0])
                if v == v and v < 1e100:
                    sc = max(sc, v)
        nd = 0
        for off, ty in cells:
            if off in skip:
                continue
            lo = r0 + off
            n = SIZE[ty]
            if act[lo:lo + n] == exp[lo:lo + n]:
                continue
            if un is not None and any(un[lo:lo + n]):
                continue
            a, e = struct.unpack_from(FMT[ty], act, lo)[0], struct.unpack_from(FMT[ty], exp, lo)[0]
            if ty in 'df' and close(a, e, sc):
                continue
            nd += 1
            if nd <= 4:
                diffs.append('%s+%d: got %r, expected %r' % (nm, off, a, e))
    exp_log, act_log = getattr(c, 'exp_log', []), getattr(c, 'act_log', [])
    if exp_log != act_log:
        diffs.append('calls: got %r, expected %r' % (act_log[:6], exp_log[:6]))
    return diffs


def run_one(k, cfg, variant, seed, consts=()):
    """None = sample rejected; [] = agreed; [text..] = the real code disagrees with the contract"""
    mod = frontend.module(cfg, k.file)
    if k.func not in mod.funcs:
        raise CannotRun('function not found')
    lib = build_lib(cfg, k.file)
    fn = mod.funcs[k.func]
    c = ConC(lib, cfg, seed, consts)
    c.mod = mod
    c.fname = k.func
    try:
        args = list(k.setup(c, **variant))
    except Reject:
        return None, c
    c.finish_setup()
    vals = marshal(c, mod, fn, args)
    dies = False
    try:
        k.spec(c, *args)
    except Reject:
        return None, c
    except SpecDie:
        dies = True
    except (ZeroDivisionError, ValueError, OverflowError):
        return None, c
    f = getattr(lib, k.func)
    f.restype = rettype(mod, fn)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_RDWR)
            for fd in ((0,) if os.environ.get("VC_DEBUG") else (0, 1, 2)):
                os.dup2(dn, fd)
            signal.alarm(20)
            ret = f(*vals)
            try:
                d = compare(c, ret)
            except Exception as e:
                d = ['replay error: %r' % e] if os.environ.get('VC_DEBUG') else []
            os.write(w, json.dumps(d[:8]).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        if dies:
            return [], c
        return ['the call did not return (status %d), but the contract says it returns' % status], c
    d = json.loads(data)
    if dies:
        return ['the call returned, but the contract says it aborts'], c
    return d, c


def search(k, cfg, variant, n, seed=1, consts=(), budget=60):
    """try n samples; returns (tried, failing or None)"""
    t0 = time.time()
    tried = 0
    i = 0
    while tried < n and i < n * 6 and time.time() - t0 < budget:
        i += 1
        d, c = run_one(k, cfg, variant, seed * 100003 + i, consts)
        if d is None:
            continue
        tried += 1
        if d:
            return tried, dict(function=k.func, file=k.file, config=cfg, variant=variant, seed=seed * 100003 + i, consts=list(consts),
                               chosen={x: repr(y) for x, y in c.chosen.items()}, differences=d)
    return tried, None
