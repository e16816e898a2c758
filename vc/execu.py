"""Symbolic executor over LLVM IR with automatic loop summaries."""
import os
import re
import time
import itertools
from terms import *
import terms
from solver import entails, satisfiable
import memory
from memory import *
import frontend

UNROLL = 9


DEBUG = bool(os.environ.get('VC_DEBUG'))


class State:
    __slots__ = ('mem', 'facts', 'env', 'unroll', 'log')

    def __init__(self, mem, facts, env, unroll=frozenset(), log=()):
        self.mem = mem
        self.facts = facts
        self.env = env
        self.unroll = unroll
        self.log = log

    def copy(self):
        return State(dict(self.mem), self.facts, dict(self.env), self.unroll, self.log)

    def add(self, b):
        if b is TRUE:
            return
        if b.op == 'and':
            self.facts = self.facts | frozenset(b.args)
        else:
            self.facts = self.facts | frozenset([b])


class Outcome:
    __slots__ = ('kind', 'st', 'label', 'prev', 'val')

    def __init__(self, kind, st, label=None, prev=None, val=None):
        self.kind = kind
        self.st = st
        self.label = label
        self.prev = prev
        self.val = val


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.exits = set()


class LoopCtx:
    n = 0

    def __init__(self, loop, fr):
        LoopCtx.n += 1
        self.id = LoopCtx.n
        self.loop = loop
        self.fr = fr
        self.marker = sym('mk!%d' % self.id, 'int')
        self.k = fresh('k', 'int')
        self.syms = {self.k, self.marker}
        self.phis = {}
        self.T = None
        self.stay = None
        self.entry = None
        self.reads = []      # recorded direct reads of ints/pointers through the barrier
        self.writes = {}

    def __repr__(self):
        return 'L%d' % self.id


class Frame:
    def __init__(self, mod, fn):
        self.mod = mod
        self.fn = fn
        self.loops = loops_of(fn)


def succs(term):
    if term.op == 'br':
        return list(term.x)
    if term.op == 'switch':
        return [term.x[0]] + [l for _, l in term.x[1]]
    return []


def loops_of(fn):
    if hasattr(fn, '_loops'):
        return fn._loops
    blocks = fn.order
    succ = {b: succs(fn.blocks[b].term) for b in blocks}
    pred = {b: [] for b in blocks}
    for b in blocks:
        for s in succ[b]:
            pred[s].append(b)
    entry = blocks[0]
    dom = {b: set(blocks) for b in blocks}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in blocks[1:]:
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in blocks:
        for s in succ[b]:
            if s in dom[b]:
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work += pred[x]
    for L in loops.values():
        for b in L.blocks:
            for s in succ[b]:
                if s not in L.blocks:
                    L.exits.add(s)
    fn._loops = loops
    return loops


def _leaves(b):
    r = _leafcache.get(b)
    if r is None:
        r = frozenset(a for a in b_atoms(b) if a.kind in ('cell', 'sym') or a.kind == 'fn' and a.args[0] not in ('abs', 'sqrt', 'floor'))
        _leafcache[b] = r
    return r


_leafcache = {}


def _fresh_leaf(facts, cond):
    """a real comparison mentioning a value no fact mentions"""
    c = cond.args[0] if cond.op == 'not' else cond
    if c.op not in ('le', 'eq') or not c.args or not isinstance(c.args[0], Poly) or c.args[0].is_int():
        return False
    new = [a for a in _leaves(cond) if a.sort == 'real']
    if not new:
        return False
    seen = set()
    for f in facts:
        seen |= _leaves(f)
    return any(a not in seen for a in new)


class Engine:
    def __init__(self, cfg, unroll=UNROLL):
        self.cfg = cfg
        self.unroll_limit = unroll
        self.peel = False
        self.objs = {}
        self.loopstack = []
        self.contracts = {}      # name -> contract used at call sites
        self.externals = {}
        self.callbacks = {}
        self.inline_ok = None
        self.counter = 0
        self.lost = None
        self.cut = 0
        self.cutind = False
        self.unroll_all = False
        self.dies = []
        self.obligs = []         # (name, ok, detail) recorded during execution (preconditions)
        self.depth = 0
        self.funcs = {}
        self.called = set()
        self.inlined = set()
        self.deadline = None
        self.glob = {}
        self.maxpaths = 4000
        self.paths = 0
        self.trace = False
        self.strs = {}
        self.use_contract = None

    # ------------------------------------------------------------ modules
    def add_module(self, mod):
        for f in mod.funcs.values():
            if f.internal and f.name in self.funcs and self.funcs[f.name][0] is not mod:
                continue
            self.funcs.setdefault(f.name, (mod, f))

    def lookup(self, mod, name):
        if mod is not None and name in mod.funcs:
            return mod, mod.funcs[name]
        return self.funcs.get(name)

    # ------------------------------------------------------------ objects
    def new_obj(self, name, base=None, size=None, local=False, unique=True, **kw):
        if unique:
            n = name
            while n in self.objs:
                self.counter += 1
                n = '%s#%d' % (name, self.counter)
            name = n
        self.objs[name] = dict(base=base or ('sym', name), size=size, local=local, **kw)
        return name

    def node(self, st, obj):
        n = st.mem.get(obj)
        if n is None:
            n = self.base_of(obj)
            for lc in self.loopstack:
                n = n.push(Barrier(lc))
            st.mem[obj] = n
        return n

    def base_of(self, obj):
        info = self.objs.get(obj)
        if info is None:
            self.objs[obj] = info = dict(base=('sym', obj), size=None, local=False)
        return base_node(info['base'])

    def read_base(self, base, obj, addr, ty, cx):
        k = base[0]
        if k == 'zero':
            return NULL if ty == 'p' else ZERO
        if k == 'undef':
            if ty == 'p':
                return UNDEF
            return P(mk_cell('undef:' + obj, addr, ty))
        if k == 'const':
            if addr.is_const():
                o = int(addr.const_value())
                tab = base[1]
                if (o, ty) in tab:
                    return tab[(o, ty)]
                if (o, 'any') in tab:
                    v = tab[(o, 'any')]
                    return v
            return P(mk_cell('const:' + obj, addr, ty))
        if ty == 'p':
            hook = self.objs.get(obj, {}).get('ptrhook')
            if hook:
                r = hook(addr, cx)
                if r is not None:
                    return r
            nm = '%s@%s' % (obj, addr.key)
            if nm not in self.objs:
                self.objs[nm] = dict(base=('sym', nm), size=None, local=False, lazy=True)
            return Ptr(nm, ZERO)
        return P(mk_cell(obj, addr, ty))

    def read_barrier(self, bar, node, obj, addr, ty, cx):
        lc = bar.loop
        if ty == 'd' or (ty == 'f'):
            if addr.fv.isdisjoint(lc.syms) and obj not in lc.maybe_written and lc.know_writes:
                return read(node, obj, addr, ty, cx)
            return P(mk_fn('pre', (P(lc.marker), obj, addr, ty), 'real'))
        if lc.know_writes and obj in lc.maybe_written and ty != 'p':
            # integers in memory modified by the loop
            v = read(node, obj, addr, ty, cx)
            if self.int_conflict(lc, obj, addr, ty, cx):
                return P(mk_fn('pre', (P(lc.marker), obj, addr, ty), 'int'))
            return v
        v = read(node, obj, addr, ty, cx)
        lc.reads.append((obj, addr, ty, cx.facts))
        return v

    def int_conflict(self, lc, obj, addr, ty, cx):
        for e in lc.prev_writes.get(obj, ()):
            m = match(e.binders, e.addr, SIZE[e.ty], addr, SIZE[ty], cx.facts)
            if m.kind != 'miss':
                return True
        return False

    # ------------------------------------------------------------ loads/stores
    def load(self, st, p, ty, mode='split'):
        if isinstance(p, Ptr) and p.obj is None:
            raise Unsupported('null dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        n = self.node(st, p.obj)
        if ty == 'l' and self.is_pair(n, p):
            return Pack(self.load(st, p, 'i'), self.load(st, p + 4, 'i'))
        mode = 'ind' if ty in ('d', 'f') else 'split'
        v = read(n, p.obj, p.off, ty, Ctx(self, st.facts, mode))
        return v

    def store(self, st, p, ty, v):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported('store through %r' % (p,))
        if isinstance(v, Pack):
            self.store(st, p, 'i', v.lo)
            self.store(st, p + 4, 'i', v.hi)
            return
        n = self.node(st, p.obj)
        et = self.objs.get(p.obj, {}).get('ints')
        if et and ty in 'hil' and SIZE[ty] > SIZE[et] and isinstance(v, Poly) and v.is_const():
            b = SIZE[et]
            w = int(v.const_value()) & ((1 << (8 * SIZE[ty])) - 1)
            for k in range(0, SIZE[ty], b):
                x = w >> (8 * k) & ((1 << (8 * b)) - 1)
                n = n.push(Store(p.off + k, et, const(x - (1 << (8 * b)) if et != 'b' and x >> (8 * b - 1) else x)))
            st.mem[p.obj] = n
            return
        st.mem[p.obj] = n.push(Store(p.off, ty, v))

    def is_pair(self, n, p):
        while n.prev is not None:
            u = n.upd
            if isinstance(u, Store) and not u.binders and u.addr == p.off:
                return u.ty == 'i'
            n = n.prev
        lay = self.objs.get(p.obj, {}).get('layout')
        if lay:
            q, r = divmono(p.off, (), lay[0])
            if r.is_const():
                o = int(r.const_value())
                return lay[1].get(o) == 'i' and lay[1].get(o + 4) == 'i'
        return False

    # ------------------------------------------------------------ values
    def tykind(self, mod, ty):
        ty = mod.resolve(ty)
        if ty.k == 'int':
            return {1: 'b', 8: 'b', 16: 'h', 32: 'i', 64: 'l', 128: 'x'}.get(ty.a, 'i')
        if ty.k == 'fp':
            return {'double': 'd', 'float': 'f', 'x86_fp80': 'd'}[ty.a]
        if ty.k == 'ptr':
            return 'p'
        return 's'

    def val(self, fr, st, ty, v):
        k = v[0]
        if k == 'reg':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported('use of undefined value %s in %s' % (v[1], fr.fn.name))
        if k == 'int':
            t = fr.mod.resolve(ty) if ty is not None else None
            if t is not None and t.k == 'int' and t.a == 1:
                return TRUE if v[1] else FALSE
            return const(v[1])
        if k == 'fp':
            return real_const(v[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(fr.mod, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = fr.mod.resolve(ty)
            if t.k == 'struct':
                return tuple(self.val(fr, st, e, ('zero', e)) for e in t.a)
            if t.k == 'ptr':
                return NULL
            return ZERO
        if k == 'cgep':
            return self.gep(fr, st, v[1], v[2])
        if k == 'ccast':
            return self.val(fr, st, None, v[2])
        if k == 'agg':
            return tuple(self.val(fr, st, e, x) for e, x in v[1])
        raise Unsupported('value %r' % (v,))

    def global_ptr(self, mod, name):
        if name in mod.funcs or name in mod.decls:
            return Func(name)
        internal = ' internal ' in (' ' + mod.globals.get(name, '')) or ' private ' in (' ' + mod.globals.get(name, ''))
        nm = '@' + (name if not internal else '%s:%s' % (mod.fname, name))
        if nm not in self.objs:
            d = mod.globals.get(name, '')
            m = re.match(r'((?:[\w()"]+ )*?)(constant|global) (.*)', d)
            base = ('sym', nm)
            if m and m.group(2) == 'constant':
                try:
                    t = __import__('irparse').tokenize(m.group(3))
                    ty, i = mod.ptype(t, 0)
                    v, i = mod.pval(ty, t, i)
                    tab = {}
                    self._const_tab(mod, ty, v, 0, tab)
                    base = ('const', tab)
                    if v[0] == 'str':
                        self.strs[nm] = v[1]
                except Exception as e:
                    base = ('sym', nm)
            self.objs[nm] = dict(base=base, size=None, local=False, glob=True)
        return Ptr(nm, ZERO)

    def _const_tab(self, mod, ty, v, off, tab):
        ty = mod.resolve(ty)
        if v[0] == 'zero':
            for o, lt_ in mod.leaves(ty):
                tab[(off + o, self.tykind(mod, lt_))] = NULL if lt_.k == 'ptr' else ZERO
            return
        if v[0] == 'agg':
            if ty.k == 'struct':
                offs, _ = mod.offsets(ty)
                for (ety, ev), o in zip(v[1], offs):
                    self._const_tab(mod, ety, ev, off + o, tab)
            else:
                s = mod.size(ty.b)
                for i, (ety, ev) in enumerate(v[1]):
                    self._const_tab(mod, ety, ev, off + i * s, tab)
            return
        if v[0] == 'str':
            raw = v[1]
            bs = []
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    bs.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(raw[i]))
                    i += 1
            for i, c in enumerate(bs):
                tab[(off + i, 'b')] = const(c)
            return
        k = self.tykind(mod, ty)
        if v[0] == 'int':
            tab[(off, k)] = const(v[1])
        elif v[0] == 'fp':
            tab[(off, k)] = real_const(v[1])
        elif v[0] == 'null':
            tab[(off, 'p')] = NULL
        elif v[0] == 'glob':
            tab[(off, 'p')] = self.global_ptr(mod, v[1])

    def gep(self, fr, st, ety, ops):
        p = self.val(fr, st, ops[0][0], ops[0][1])
        if isinstance(p, Func):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        i0 = self.val(fr, st, ops[1][0], ops[1][1])
        off = off + i0 * fr.mod.size(ety)
        t = ety
        for oty, ov in ops[2:]:
            t = fr.mod.resolve(t)
            if t.k == 'struct':
                i = ov[1]
                off = off + fr.mod.offsets(t)[0][i]
                t = t.a[i]
            else:
                iv = self.val(fr, st, oty, ov)
                t = t.b
                off = off + iv * fr.mod.size(t)
        return Ptr(p.obj, off)

    def nonneg(self, st, a):
        """shifts, masks and unsigned quotients are the truncating ones only for nonnegative operands"""
        return self.decide(st, le(0, a)) is True

    def peel_on(self, c):
        """a condition singling out the first iteration of an enclosing loop"""
        for lc in reversed(self.loopstack):
            if c.fv <= {lc.k} and lc.k in c.fv and not lc.syms & c.fv - {lc.k}:
                if entails(frozenset([le(1, P(lc.k)), c]), FALSE) or entails(frozenset([le(1, P(lc.k)), bnot(c)]), FALSE):
                    raise Peel(lc.loop.header, 'select on the first iteration of %s' % lc.loop.header)

    # ------------------------------------------------------------ decisions
    def decide(self, st, cond):
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if cond in st.facts:
            return True
        if bnot(cond) in st.facts:
            return False
        if _fresh_leaf(st.facts, cond):
            return None        # undetermined; an infeasible branch is discarded at the end
        if entails(st.facts, cond):
            return True
        if entails(st.facts, bnot(cond)):
            return False
        return None

    def invariant_here(self, cond):
        return bool(self.loopstack) and cond.fv.isdisjoint(self.loopstack[-1].syms)

    def named(self, r):
        return terms.define(r) if self.cutind and terms.has_ind_term(r) else r

    # ------------------------------------------------------------ function execution
    def run_function(self, mod, fn, args, st, depth=0):
        """execute fn; returns list of Outcome ('ret'|'die')"""
        fr = Frame(mod, fn)
        env = {}
        st = State(dict(st.mem), st.facts, env, frozenset(), st.log)
        for (ty, nm, at), v in zip(fn.params, args):
            if 'byval' in at and isinstance(v, Ptr):
                v = self.byval_copy(st, mod, at['byval'], v, fn.name + nm)
            env[nm] = v
        for a in args[len(fn.params):]:
            pass
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            return self.explore(fr, st, fn.order[0], None, frozenset())
        finally:
            self.depth -= 1

    def byval_copy(self, st, mod, ty, p, name):
        obj = self.new_obj('byval:' + name, base=('undef', name), local=True)
        for off, lt_ in mod.leaves(ty):
            k = self.tykind(mod, lt_)
            v = self.load(st, p + off, k)
            self.store(st, Ptr(obj, const(off)), k, v)
        return Ptr(obj, ZERO)

    def explore(self, fr, st0, label0, prev0, stops, skip_first=False):
        outs = []
        stack = [(st0, label0, prev0, 0, skip_first, None)]
        while stack:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            st, label, prev, idx, skip, phase = stack.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            blk = fr.fn.blocks[label]
            if idx == 0 and not skip:
                if label in stops:
                    outs.append(Outcome('stop', st, label, prev))
                    continue
                L = fr.loops.get(label)
                if L is not None and (prev not in L.blocks or ('peel', label) in st.unroll):
                    # loop entry
                    if phase != 'unroll':
                        peeled = prev in L.blocks
                        st.unroll -= {('peel', label)}
                        try:
                            r = 'unroll' if self.unroll_all else self.loop(fr, L, st, prev)
                        except Peel as s:
                            if peeled or s.header != label:
                                raise Unsupported(s.why)
                            st.unroll |= {('peel', label)}
                            stack.append((st, label, prev, 0, False, 'unroll'))
                            continue
                        except Split as s:
                            if self.invariant_here(s.cond):
                                raise
                            if peeled:
                                st.unroll |= {('peel', label)}
                            for c in (bnot(s.cond), s.cond):
                                s2 = st.copy()
                                s2.add(c)
                                if self.decide(st, bnot(c)) is not True:
                                    stack.append((s2, label, prev, 0, False, None))
                            continue
                        if r == 'unroll':
                            stack.append((st, label, prev, 0, False, 'unroll'))
                            continue
                        for o in r:
                            if o.kind == 'stop':
                                stack.append((o.st, o.label, o.prev, 0, False, None))
                            else:
                                outs.append(o)
                        continue
                # phis
                if blk.phis:
                    vals = []
                    for ph in blk.phis:
                        for v, pl in ph.args:
                            if pl == prev:
                                vals.append((ph.dst, self.val(fr, st, ph.ty, v)))
                                break
                        else:
                            raise Unsupported('phi without incoming')
                    for d, v in vals:
                        st.env[d] = v
            i = idx
            n = len(blk.ins)
            dead = False
            while i < n:
                ins = blk.ins[i]
                try:
                    r = self.instr(fr, st, ins)
                except Split as s:
                    if self.invariant_here(s.cond):
                        raise
                    for c in (bnot(s.cond), s.cond):
                        if entails(st.facts, bnot(c)):
                            continue
                        s2 = st.copy()
                        s2.add(c)
                        stack.append((s2, label, prev, i, True, None))
                    dead = True
                    break
                if r is not None:
                    # list of outcomes of a call
                    for o in r:
                        if o.kind == 'die':
                            outs.append(o)
                            continue
                        s2 = State(o.st.mem, o.st.facts, dict(st.env), st.unroll, o.st.log)
                        if ins.dst:
                            s2.env[ins.dst] = o.val
                        stack.append((s2, label, prev, i + 1, True, None))
                    dead = True
                    break
                i += 1
            if dead:
                continue
            t = blk.term
            if t.op == 'ret':
                v = None if t.args is None else self.val(fr, st, t.ty, t.args)
                outs.append(Outcome('ret', st, val=v))
            elif t.op == 'unreachable':
                outs.append(Outcome('die', st, val='unreachable'))
            elif t.op == 'br':
                if t.args is None:
                    stack.append((st, t.x[0], label, 0, False, None))
                else:
                    c = self.val(fr, st, None, t.args)
                    if c is UNDEF:
                        raise Unsupported('branch on undefined value in %s' % fr.fn.name)
                    if isinstance(c, Poly):
                        c = ne(c, 0)
                    self.branch(fr, st, label, c, t.x[0], t.x[1], stack, outs)
            elif t.op == 'switch':
                v = self.val(fr, st, t.ty, t.args)
                rest = TRUE
                for cv, lab in t.x[1]:
                    c = eq(v, cv)
                    d = self.decide(st, c)
                    if d is False:
                        continue
                    if d is True:
                        stack.append((st, lab, label, 0, False, None))
                        rest = FALSE
                        break
                    if self.invariant_here(c):
                        raise Split(c)
                    s2 = st.copy()
                    s2.add(c)
                    stack.append((s2, lab, label, 0, False, None))
                    st = st.copy()
                    st.add(bnot(c))
                if rest is TRUE and satisfiable(st.facts):
                    stack.append((st, t.x[0], label, 0, False, None))
        return outs

    def branch(self, fr, st, label, c, l1, l2, stack, outs):
        if l1 == l2:
            stack.append((st, l1, label, 0, False, None))
            return
        lc = self.loopstack[-1] if self.loopstack else None
        if lc is not None and lc.fr is fr and label in lc.loop.blocks and ((l1 in lc.loop.blocks) != (l2 in lc.loop.blocks)):
            stay = c if l1 in lc.loop.blocks else bnot(c)
            lin, lout = (l1, l2) if l1 in lc.loop.blocks else (l2, l1)
            if lc.T is None and not lc.final:
                conj = list(stay.args) if stay.op == 'and' else [stay]
                for j, q in enumerate(conj):
                    T = self.count(st, lc, q)
                    if T is not None:
                        lc.T = T
                        lc.stay = q
                        lc.exit_block = label
                        others = conj[:j] + conj[j + 1:]
                        break
                if lc.T is not None:
                    st.add(lt(P(lc.k), lc.T))
                    st.add(lc.stay)
                    oc = band(*others)
                    if oc is not TRUE:
                        d = self.decide(st, oc)
                        if d is not True:
                            s2 = st.copy()
                            s2.add(bnot(oc))
                            outs.append(Outcome('stop', s2, lout, label, 'early'))
                        if d is False:
                            return
                        st.add(oc)
                    stack.append((st, lin, label, 0, False, None))
                    return
            elif lc.T is not None and not lc.final:
                # same counted exit reached on another path?
                if lc.exit_block == label and stay is lc.stay:
                    st.add(lt(P(lc.k), lc.T))
                    st.add(stay)
                    stack.append((st, lin, label, 0, False, None))
                    return
        d = self.decide(st, c)
        if d is True:
            stack.append((st, l1, label, 0, False, None))
            return
        if d is False:
            stack.append((st, l2, label, 0, False, None))
            return
        if self.invariant_here(c):
            raise Split(c)
        s2 = st.copy()
        s2.add(bnot(c))
        stack.append((s2, l2, label, 0, False, None))
        st.add(c)
        stack.append((st, l1, label, 0, False, None))

    def count(self, st, lc, stay):
        """number of iterations k=0,1,.. for which stay(k) holds (initial run); None if not counted"""
        k = lc.k
        neg = False
        b = stay
        if b.op == 'not':
            b = b.args[0]
            neg = True
        if b.op == 'le':
            p = b.args[0]
            if not p.is_int():
                return None
            if neg:
                p = ONE - p
            s, a = self._lin_k(p, k)
            if s is None or (a.fv | s.fv) & lc.syms:
                return None
            if not s.is_const():
                # symbolic step: need sign
                if not self._need(st, lc, le(1, s)):
                    return None
                if not self._need_split(st, le(a, 1)):
                    return ZERO
                return cdiv(1 - a, s)
            sv = s.const_value()
            if sv <= 0:
                return None
            if not self._need_split(st, le(a, 1)):
                return ZERO
            return cdiv(1 - a, const(sv))
        if b.op == 'eq' and neg:
            p = b.args[0]
            if not p.is_int():
                return None
            s, a = self._lin_k(p, k)
            if s is None or (a.fv | s.fv) & lc.syms or not s.is_const():
                return None
            sv = s.const_value()
            if sv not in (1, -1):
                return None
            T = -a * sv
            if entails(st.facts, le(0, T)):
                return T
            return None
        return None

    def _need(self, st, lc, c):
        return entails(st.facts, c)

    def _need_split(self, st, c):
        """True if c holds, False if its negation; otherwise split outside of the loop"""
        if entails(st.facts, c):
            return True
        if entails(st.facts, bnot(c)):
            return False
        raise Split(c)

    def _lin_k(self, p, k):
        s = {}
        a = {}
        for m, c in p.t.items():
            hit = [x for x in m if x[0] == k.id]
            if hit:
                if hit[0][1] != 1:
                    return None, None
                s[tuple(x for x in m if x[0] != k.id)] = c
            else:
                if any(k in terms.atom(x).fv for x, _ in m):
                    return None, None
                a[m] = c
        if not s:
            return None, None
        return Poly(s), Poly(a)

    # ------------------------------------------------------------ loops
    def static_step(self, fr, L, ph):
        """(latch value is phi + invariant operand) -> callable giving step, else None"""
        lv = None
        for v, pl in ph.args:
            if pl in L.blocks:
                if lv is not None and lv != v:
                    return None
                lv = v
        if lv is None:
            return None
        if lv == ('reg', ph.dst):
            return ('zero',)
        if lv[0] != 'reg':
            return None
        # find def
        d = None
        for b in L.blocks:
            for ins in fr.fn.blocks[b].ins:
                if ins.dst == lv[1]:
                    d = ins
        if d is None:
            return None

        def invop(v):
            if v[0] in ('int', 'glob'):
                return True
            if v[0] == 'reg':
                for b in L.blocks:
                    for x in fr.fn.blocks[b].phis + fr.fn.blocks[b].ins:
                        if x.dst == v[1]:
                            return False
                return True
            return False
        if d.op == 'bin' and d.x in ('add', 'sub'):
            a, b = d.args
            if a == ('reg', ph.dst) and invop(b):
                return ('add' if d.x == 'add' else 'sub', d.ty, b)
            if b == ('reg', ph.dst) and invop(a) and d.x == 'add':
                return ('add', d.ty, a)
        if d.op == 'gep' and d.args[0][1] == ('reg', ph.dst) and all(invop(v) for _, v in d.args[1:]):
            return ('gep', d.ty, d.args)
        return None

    def loop(self, fr, L, st, prev):
        hdr = fr.fn.blocks[L.header]
        init = {}
        for ph in hdr.phis:
            for v, pl in ph.args:
                if pl == prev:
                    init[ph.dst] = self.val(fr, st, ph.ty, v)
                    break
        steps = {}
        for ph in hdr.phis:
            s = self.static_step(fr, L, ph)
            if s is None:
                continue
            iv = init[ph.dst]
            if s[0] == 'zero':
                steps[ph.dst] = ZERO
                continue
            if s[0] in ('add', 'sub'):
                v = self.val(fr, st, s[1], s[2])
                if isinstance(v, Poly) and isinstance(iv, Poly):
                    steps[ph.dst] = v if s[0] == 'add' else -v
            elif s[0] == 'gep' and isinstance(iv, Ptr):
                tmp = State(st.mem, st.facts, dict(st.env))
                tmp.env[ph.dst] = Ptr(iv.obj, ZERO)
                r = self.gep(fr, tmp, s[1], s[2])
                steps[ph.dst] = r.off
        prev_writes = {}
        know = False
        last_err = None
        for attempt in range(5):
            lc = LoopCtx(L, fr)
            lc.final = False
            lc.know_writes = know
            lc.maybe_written = set(prev_writes)
            lc.prev_writes = prev_writes
            k = P(lc.k)
            r = self._loop_try(fr, L, st, prev, hdr, init, steps, lc)
            if r[0] == 'unroll':
                return 'unroll'
            if r[0] == 'steps':
                steps = r[1]
                continue
            if r[0] == 'know':
                know = True
                prev_writes = r[1]
                continue
            return r[1]
        raise Unsupported('loop in %s at %s: no summary' % (fr.fn.name, L.header))

    def _loop_try(self, fr, L, st, prev, hdr, init, steps, lc):
        k = P(lc.k)
        s0 = st.copy()
        phis = {}
        for ph in hdr.phis:
            iv = init[ph.dst]
            if ph.dst in steps:
                stp = steps[ph.dst]
                if not stp.t:
                    s0.env[ph.dst] = iv
                elif isinstance(iv, Ptr):
                    s0.env[ph.dst] = Ptr(iv.obj, iv.off + stp * k)
                else:
                    s0.env[ph.dst] = iv + stp * k
            else:
                tk = self.tykind(fr.mod, ph.ty)
                if tk == 'p':
                    f = fresh('phi', 'int')
                    v = Ptr(iv.obj if isinstance(iv, Ptr) else None, P(f))
                elif tk == 'b' and fr.mod.resolve(ph.ty).a == 1:
                    f = fresh('phi', 'int')
                    v = ne(P(f), 0)
                else:
                    f = fresh('phi', 'real' if tk in 'df' else 'int')
                    v = P(f)
                lc.syms.add(f)
                phis[ph.dst] = f
                s0.env[ph.dst] = v
        lc.entry = st.mem
        base_facts = st.facts
        s0.mem = {o: n.push(Barrier(lc)) for o, n in st.mem.items()}
        s0.add(le(0, k))
        rng0 = s0.facts
        self.loopstack.append(lc)
        try:
            outs = self.explore(fr, s0, L.header, None, frozenset({L.header}) | frozenset(L.exits), skip_first=True)
        finally:
            self.loopstack.pop()
        lc.final = True
        if lc.T is None:
            if all(o.label != L.header for o in outs if o.kind == 'stop'):
                # the body never iterates: run it once as it stands
                return ('unroll',)
            latch = [o for o in outs if o.kind == 'stop' and o.label == L.header]
            lv, newsteps, changed = self._discover(fr, hdr, phis, latch, init, steps, lc)
            if changed:
                return ('steps', newsteps)
            return self._uncounted(fr, L, st, lc, outs)
        T = lc.T
        if T.is_const() and T.const_value() <= self.unroll_limit:
            return ('unroll',)
        latch = [o for o in outs if o.kind == 'stop' and o.label == L.header]
        early = [o for o in outs if o.kind == 'stop' and o.label != L.header]
        dies = [o for o in outs if o.kind == 'die']
        # late discovery of affine phis
        lv, newsteps, changed = self._discover(fr, hdr, phis, latch, init, steps, lc)
        if changed:
            return ('steps', newsteps)
        # written objects
        lc.kfacts = base_facts | frozenset([le(0, k), lt(k, T)])
        lc.written = {}
        for o in latch + early:
            for obj, n in o.st.mem.items():
                ups = self._since(n, lc)
                if ups is None:
                    continue     # object created inside the loop
                if ups:
                    lc.written.setdefault(obj, [])
        if not lc.know_writes:
            # integer or pointer reads that went straight through the barrier must not be of written objects
            bad = [r for r in lc.reads if r[0] in lc.written]
            if bad:
                pw = {}
                for o in latch + early:
                    for obj, n in o.st.mem.items():
                        for u in self._since(n, lc) or ():
                            if isinstance(u, Store):
                                pw.setdefault(obj, []).append(u)
                return ('know', pw)
        return ('ok', self._summarise(fr, L, st, prev, hdr, init, steps, lc, phis, lv, latch, early, dies, rng0))

    def _discover(self, fr, hdr, phis, latch, init, steps, lc):
        newsteps = dict(steps)
        changed = False
        lv = {}
        for dst, f in phis.items():
            vs = []
            ph = [p for p in hdr.phis if p.dst == dst][0]
            for o in latch:
                for v, pl in ph.args:
                    if pl == o.prev:
                        vs.append(self.val(fr, o.st, ph.ty, v))
                        break
            lv[dst] = vs
            iv = init[dst]
            ds = set()
            for v in vs:
                if isinstance(v, Ptr) and isinstance(iv, Ptr) and v.obj == iv.obj:
                    ds.add(v.off - P(f))
                elif isinstance(v, Poly):
                    ds.add(v - P(f))
                elif isinstance(v, Bool) and v is ne(P(f), 0):
                    ds.add(ZERO)
                else:
                    ds.add(None)
            if len(ds) == 1:
                d = ds.pop()
                if d is not None and d.fv.isdisjoint(lc.syms) and (not d.t or f.sort == 'int'):
                    newsteps[dst] = d
                    changed = True
        return lv, newsteps, changed

    def _uncounted(self, fr, L, st, lc, outs):
        raise Unsupported('loop in %s at %s is not a counted loop' % (fr.fn.name, L.header))

    def _since(self, n, lc):
        """updates pushed since the barrier of lc, or None if the object is newer than the loop"""
        r = []
        while n.prev is not None:
            if isinstance(n.upd, Barrier) and n.upd.loop is lc:
                r.reverse()
                return r
            r.append(n.upd)
            n = n.prev
        return None

    def _summarise(self, fr, L, st, prev, hdr, init, steps, lc, phis, lv, latch, early, dies, rng0):
        k = P(lc.k)
        T = lc.T
        S = LoopSummary(self, lc, st, init, phis, lv, latch, rng0)
        if DEBUG and S.why:
            print('   havoc', L.header, S.why, [str(f) for f in S.base][:30])
        res = []
        # normal exit
        for o in dies:
            s2 = o.st
            fs = frozenset(S.rwb(f, S.base) for f in s2.facts)
            res.append(Outcome('die', State(s2.mem, fs | lc.kfacts, {}, log=s2.log), val=o.val))
        if st.log is not None and any(o.st.log != st.log for o in latch):
            raise Unsupported('effects inside a summarised loop')
        sN = st.copy()
        sN.mem = S.memory_after(T)
        for ph in hdr.phis:
            sN.env[ph.dst] = S.phi_at(ph.dst, T, steps)
        stayN = bsubst(lc.stay, {lc.k: T})
        sN.add(bnot(S.rwb(stayN, st.facts)) if lc.stay.fv else TRUE)
        if early:
            g = bor(*[S.guards[i] for i in range(len(latch))])
            g = S.rwb(g, lc.kfacts)
            sN.add(bforall(((lc.k, T),), g))
        lc.final = True
        outs = self.explore(fr, sN, L.header, None, frozenset({L.header}) | frozenset(L.exits), skip_first=True)
        for o in outs:
            if o.kind == 'stop' and o.label == L.header:
                if satisfiable(o.st.facts):
                    raise Unsupported('loop continues past its trip count')
                continue
            res.append(o)
        # early exits
        for o in early:
            if not satisfiable(o.st.facts):
                continue
            s2 = o.st
            kk = P(lc.k)
            mem = S.memory_after(kk)
            efacts = lc.kfacts
            for obj, n in s2.mem.items():
                ups = self._since(n, lc)
                if ups is None:
                    mem[obj] = n
                    continue
                cur = mem.get(obj)
                if cur is None:
                    cur = self.node(st, obj)
                for u in ups:
                    cur = cur.push(S.rw_store(u, efacts))
                mem[obj] = cur
            env = {}
            for r, v in s2.env.items():
                try:
                    env[r] = S.rwv(v, efacts)
                except Unsupported:
                    env[r] = UNDEF
            fs = frozenset(S.rwb(f, S.base) for f in s2.facts) | lc.kfacts
            g = S.rwb(bor(*[S.guards[i] for i in range(len(latch))]), lc.kfacts)
            mm = fresh('m', 'int')
            fs = fs | frozenset([bforall(((mm, kk),), bsubst(g, {lc.k: P(mm)}))])
            res.append(Outcome('stop', State(mem, fs, env, st.unroll, s2.log), o.label, o.prev))
        return res

    # ------------------------------------------------------------ instructions
    def instr(self, fr, st, ins):
        op = ins.op
        env = st.env
        mod = fr.mod
        if op == 'bin':
            a = self.val(fr, st, ins.ty, ins.args[0])
            b = self.val(fr, st, ins.ty, ins.args[1])
            if isinstance(a, Poly) and not a.is_const() and ins.x in ('udiv', 'urem', 'lshr', 'ashr', 'and') and isinstance(b, Poly):
                if ins.x != 'and' or b.is_const() and b.const_value() not in (0, -1):
                    if not self.nonneg(st, a) or not b.is_const() and not self.nonneg(st, b):
                        if ins.x == 'ashr' and b.is_const() and all(isinstance(x, int) and x % (1 << int(b.const_value())) == 0 and all(e > 0 for _, e in m) for m, x in a.t.items()):
                            env[ins.dst] = a * Fraction(1, 1 << int(b.const_value()))      # exact, whatever the sign
                            return None
                        if ins.x in ('ashr', 'and', 'lshr'):
                            env[ins.dst] = P(mk_fn(ins.x, (a, b), 'int'))
                            return None
                        raise Unsupported('%s of an integer that may be negative' % ins.x)
            env[ins.dst] = self.binop(mod, ins.x, ins.ty, a, b)
            return None
        if op == 'load':
            p = self.val(fr, st, None, ins.args)
            k = self.tykind(mod, ins.ty)
            if k == 's':
                env[ins.dst] = tuple(self.load(st, p + off, self.tykind(mod, t)) for off, t in mod.leaves(ins.ty))
                return None
            if k in 'x':
                raise Unsupported('aggregate load')
            v = self.load(st, p, k)
            if mod.resolve(ins.ty).k == 'int' and mod.resolve(ins.ty).a == 1 and isinstance(v, Poly):
                v = ne(v, 0)
            env[ins.dst] = v
            return None
        if op == 'store':
            v = self.val(fr, st, ins.ty, ins.args[0])
            p = self.val(fr, st, None, ins.args[1])
            k = self.tykind(mod, ins.ty)
            if k == 's' and isinstance(v, tuple):
                for (off, t), x in zip(mod.leaves(ins.ty), v):
                    self.store(st, p + off, self.tykind(mod, t), x)
                return None
            if k in 'xs':
                raise Unsupported('aggregate store')
            if isinstance(v, Bool):
                v = ind(v)
            self.store(st, p, k, v)
            return None
        if op == 'gep':
            env[ins.dst] = self.gep(fr, st, ins.ty, ins.args)
            return None
        if op == 'call':
            return self.call(fr, st, ins)
        if op in ('icmp', 'fcmp'):
            a = self.val(fr, st, ins.ty, ins.args[0])
            b = self.val(fr, st, ins.ty, ins.args[1])
            env[ins.dst] = self.cmp(st, ins.x, a, b)
            return None
        if op == 'select':
            c = self.val(fr, st, ins.x, ins.args[0])
            a = self.val(fr, st, ins.ty, ins.args[1])
            b = self.val(fr, st, ins.ty, ins.args[2])
            if c is UNDEF:
                raise Unsupported('select on undef')
            d = self.decide(st, c)
            if d is True:
                env[ins.dst] = a
            elif d is False:
                env[ins.dst] = b
            elif isinstance(a, Poly) and isinstance(b, Poly):
                if self.peel:
                    self.peel_on(c)
                r = ite(c, a, b)
                env[ins.dst] = terms.define(r) if self.cutind and ins.ty.k == 'fp' else r
            elif isinstance(a, Bool) and isinstance(b, Bool):
                env[ins.dst] = bor(band(c, a), band(bnot(c), b))
            else:
                raise Split(c)
            return None
        if op == 'cast':
            v = self.val(fr, st, ins.x[1], ins.args)
            env[ins.dst] = self.cast(mod, ins.x[0], ins.x[1], ins.ty, v, st)
            return None
        if op == 'fneg':
            env[ins.dst] = -self.val(fr, st, ins.ty, ins.args)
            return None
        if op == 'alloca':
            if ins.args is not None:
                cnt = self.val(fr, st, None, ins.args)
            nm = '%s.%s' % (fr.fn.name, ins.dst[1:])
            lay = None
            if mod.resolve(ins.ty).k == 'struct':
                lay = (mod.size(ins.ty), {o: self.tykind(mod, t) for o, t in mod.leaves(ins.ty)})
            obj = self.new_obj(nm, base=('undef', nm), local=True, size=const(mod.size(ins.ty)), layout=lay)
            aty = mod.resolve(ins.ty)
            if aty.k == 'arr' and mod.resolve(aty.b).k == 'int' and mod.resolve(aty.b).a in (8, 16, 32):
                self.objs[obj]['ints'] = self.tykind(mod, aty.b)
            env[ins.dst] = Ptr(obj, ZERO)
            return None
        if op == 'extractvalue':
            v = self.val(fr, st, ins.ty, ins.args)
            for i in ins.x:
                v = v[i] if v is not UNDEF else UNDEF
            env[ins.dst] = v
            return None
        if op == 'insertvalue':
            agg = self.val(fr, st, ins.ty, ins.args[0])
            e = self.val(fr, st, ins.args[1][0], ins.args[1][1])
            env[ins.dst] = self._insert(mod, ins.ty, agg, ins.x, e)
            return None
        if op == 'freeze':
            env[ins.dst] = self.val(fr, st, ins.ty, ins.args)
            return None
        if op == 'nop':
            return None
        raise Unsupported('instruction %s in %s' % (ins.x or op, fr.fn.name))

    def _insert(self, mod, ty, agg, idx, e):
        t = mod.resolve(ty)
        n = len(t.a) if t.k == 'struct' else t.a
        l = list(agg) if isinstance(agg, tuple) else [UNDEF] * n
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            et = t.a[idx[0]] if t.k == 'struct' else t.b
            l[idx[0]] = self._insert(mod, et, l[idx[0]], idx[1:], e)
        return tuple(l)

    def binop(self, mod, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Pack) or isinstance(b, Pack):
            if isinstance(a, Pack) and isinstance(b, Poly) and b.is_const():
                c = int(b.const_value())
                if op in ('lshr', 'ashr') and c == 32 and not a.sh and a.hi is not None:
                    return a.hi
                if op in ('lshr', 'ashr') and c < 32 and not a.sh and isinstance(a.lo, Poly) and not a.lo.t and a.hi is not None:
                    return a.hi * (1 << (32 - c))
                if op == 'shl' and c == 32 and not a.sh:
                    return Pack(ZERO, a.lo)
                if op == 'shl' and c < 32 and not a.sh:
                    return Pack(a.lo, None, c)
                if op == 'and' and a.sh and c == (0xffffffff << a.sh):
                    return a.lo * (1 << a.sh)
                if op == 'and' and c in (0xffffffff,):
                    return Pack(a.lo, ZERO)
                if op == 'and' and c in (-4294967296, 0xffffffff00000000):
                    return Pack(ZERO, a.hi)
            if op in ('mul', 'add', 'sub') and not getattr(a, 'sh', 0) and not getattr(b, 'sh', 0):
                x = a.lo if isinstance(a, Pack) else a
                y = b.lo if isinstance(b, Pack) else b
                return Pack(self.binop(mod, op, ty, x, y), None)
            if op == 'or':
                pa, pb = self._aspack(a), self._aspack(b)
                if pa and pb:
                    if pa.sh or pb.sh or None in (pa.lo, pa.hi, pb.lo, pb.hi):
                        raise Unsupported('packed or')
                    if not pb.lo.t and not pa.hi.t:
                        return Pack(pa.lo, pb.hi)
                    if not pa.lo.t and not pb.hi.t:
                        return Pack(pb.lo, pa.hi)
            raise Unsupported('packed integer %s' % op)
        if isinstance(a, Bool) or isinstance(b, Bool):
            if not isinstance(a, Bool):
                a = ne(a, 0)
            if not isinstance(b, Bool):
                b = ne(b, 0)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op == 'xor':
                return bor(band(a, bnot(b)), band(bnot(a), b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
                return a.off - b.off
            raise Unsupported('pointer arithmetic ' + op)
        if op in ('fadd', 'add'):
            r = a + b
            if self.cutind and terms.has_ind_term(r):
                return terms.define(r, 'int' if op == 'add' else 'real')
            return terms.define(r) if self.cut and op == 'fadd' and len(r.t) >= self.cut else r
        if op in ('fsub', 'sub'):
            r = a - b
            if self.cutind and terms.has_ind_term(r):
                return terms.define(r, 'int' if op == 'sub' else 'real')
            return terms.define(r) if self.cut and op == 'fsub' and len(r.t) >= self.cut else r
        if op in ('fmul', 'mul'):
            return a * b
        if op == 'fdiv':
            return a * inv(b)
        if op in ('sdiv', 'udiv'):
            return idiv(a, b)
        if op in ('srem', 'urem'):
            return imod(a, b)
        if op == 'shl':
            if b.is_const():
                r = a * (1 << int(b.const_value()))
                w = mod.resolve(ty).a
                if r.is_const() and isinstance(w, int):
                    v = int(r.const_value()) & ((1 << w) - 1)
                    return const(v - (1 << w) if v >> (w - 1) else v)
                return r
            return P(mk_fn('shl', (a, b), 'int'))
        if op in ('ashr', 'lshr'):
            if a.is_const() and b.is_const():
                v = int(a.const_value())
                if v < 0 and op == 'lshr':
                    v += 1 << mod.resolve(ty).a
                return const(v >> int(b.const_value()))
            if b.is_const():
                return idiv(a, const(1 << int(b.const_value())))
            return P(mk_fn(op, (a, b), 'int'))
        if op == 'and' and b.is_const():
            c = int(b.const_value())
            if a.is_const():
                return const(int(a.const_value()) & c)
            if c > 0 and (c & (c + 1)) == 0:
                return imod(a, const(c + 1))
            if c < 0 and ((-c) & (-c - 1)) == 0:
                return a - imod(a, const(-c))
        if op in ('and', 'or', 'xor'):
            r = _by_indicators(a, b, {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op])
            if r is not None:
                return r
        if a.is_const() and b.is_const():
            x, y = int(a.const_value()), int(b.const_value())
            return const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if op == 'xor' and b.is_const() and b.const_value() == -1:
            return -a - 1
        if op == 'or' and self.tykind(mod, ty) == 'l':
            for x, y in ((a, b), (b, a)):
                q, r = divmono(x, (), 1 << 32)
                if q.t and not r.t:
                    return Pack(y, q)
        if op == 'or':
            # disjoint bits (add) when b is a small constant and a a multiple of a larger power of two
            return P(mk_fn('or', (a, b), 'int')) if not (b.is_const() and self._even(a, int(b.const_value()))) else a + b
        return P(mk_fn(op, (a, b), 'int' if op != 'frem' else 'real'))

    def _aspack(self, a):
        if isinstance(a, Pack):
            return a
        q, r = divmono(a, (), 1 << 32)
        if not r.t:
            return Pack(ZERO, q)
        return Pack(a, ZERO)

    def _even(self, a, c):
        if c < 0:
            return False
        g = 1
        while g <= c:
            g *= 2
        return all(not isinstance(v, Fraction) and v % g == 0 for v in a.t.values())

    def _unpack(self, a):
        """a packed pair whose low half is zero, as one integer"""
        if isinstance(a, Pack) and not a.sh and isinstance(a.lo, Poly) and isinstance(a.hi, Poly) and not a.lo.t:
            return a.hi * (1 << 32)
        return a

    def _primitive(self, st, d):
        """d without integer symbols that divide it and are positive here"""
        if len(d.t) < 2 or not d.is_int():
            return d
        com = None
        for m in d.t:
            ks = dict(m)
            com = ks if com is None else {a: min(e, ks.get(a, 0)) for a, e in com.items()}
        for a, e in com.items():
            if e > 0 and terms.atom(a).kind == 'sym' and entails(st.facts, le(1, P(terms.atom(a)))):
                q, r = divmono(d, ((a, e),), 1)
                if not r.t:
                    d = q
        return d

    def cmp(self, st, pred, a, b):
        if isinstance(a, Func) or isinstance(b, Func):
            e = TRUE if a == b else FALSE
            return e if pred == 'eq' else bnot(e)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a, b = self._unpack(a), self._unpack(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Poly) or isinstance(b, Poly):
                raise Unsupported('pointer/integer comparison')
            if a.obj is None and b.obj is None:
                e = TRUE
            elif a.obj is None or b.obj is None:
                q = a if b.obj is None else b
                e = bnot(self.nonnull(q))
            elif a.obj == b.obj:
                if pred in ('eq', 'ne'):
                    e = eq(a.off, b.off)
                else:
                    d = a.off - b.off
                    return {'ult': lt(d, 0), 'ule': le(d, 0), 'ugt': gt(d, 0), 'uge': ge(d, 0),
                            'slt': lt(d, 0), 'sgt': gt(d, 0), 'sle': le(d, 0), 'sge': ge(d, 0)}[pred]
            else:
                e = FALSE
                if pred not in ('eq', 'ne'):
                    raise Unsupported('pointer order across objects')
            if pred == 'eq':
                return e
            if pred == 'ne':
                return bnot(e)
            raise Unsupported('pointer comparison ' + pred)
        if isinstance(a, Bool) or isinstance(b, Bool):
            a2 = a if isinstance(a, Bool) else ne(a, 0)
            b2 = b if isinstance(b, Bool) else ne(b, 0)
            e = bor(band(a2, b2), band(bnot(a2), bnot(b2)))
            return e if pred == 'eq' else bnot(e)
        if isinstance(b, Poly) and b.is_const() and isinstance(a, Poly) and len(a.t) == 1 and not self._fpred:
            (m, co), = a.t.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1:
                at = terms.atom(m[0][0])
                if at.kind == 'fn' and at.args[0] in ('or', 'and'):
                    bv = b.const_value()
                    x, y = at.args[1], at.args[2]
                    e = None
                    if (pred == 'sge' and bv == 0) or (pred == 'sgt' and bv == -1):
                        e = (band if at.args[0] == 'or' else bor)(le(0, x), le(0, y))
                    elif (pred == 'slt' and bv == 0) or (pred == 'sle' and bv == -1):
                        e = (bor if at.args[0] == 'or' else band)(lt(x, 0), lt(y, 0))
                    elif pred == 'eq' and bv == 0 and at.args[0] == 'or':
                        e = band(eq(x, 0), eq(y, 0))
                    elif pred == 'ne' and bv == 0 and at.args[0] == 'or':
                        e = bor(ne(x, 0), ne(y, 0))
                    if e is not None:
                        return e
        if pred in ('eq', 'ne') and isinstance(a, Poly) and isinstance(b, Poly):
            d = self._primitive(st, a - b)
            return eq(d, 0) if pred == 'eq' else ne(d, 0)
        if pred in ('eq', 'oeq', 'ueq'):
            return eq(a, b)
        if pred in ('ne', 'one', 'une'):
            return ne(a, b)
        if pred in ('slt', 'olt', 'ult'):
            r = lt(a, b)
        elif pred in ('sle', 'ole', 'ule'):
            r = le(a, b)
        elif pred in ('sgt', 'ogt', 'ugt'):
            r = gt(a, b)
        elif pred in ('sge', 'oge', 'uge'):
            r = ge(a, b)
        elif pred == 'uno':
            return FALSE
        elif pred == 'ord':
            return TRUE
        else:
            raise Unsupported('cmp ' + pred)
        if pred in ('ult', 'ule') and a.is_int() and b.is_int() and not self._fpred:
            # unsigned: a <u b with b >= 0  <=>  0 <= a and a < b
            if not (entails(st.facts, le(0, a))):
                return band(le(0, a), r)
        if pred in ('ugt', 'uge') and a.is_int() and b.is_int() and not self._fpred:
            if not (entails(st.facts, le(0, a))):
                return bor(lt(a, 0), r)
        return r
    _fpred = False

    def nonnull(self, p):
        info = self.objs.get(p.obj, {})
        if info.get('local') or info.get('glob') or info.get('nonnull'):
            return TRUE
        if info.get('heap'):
            return TRUE
        return bvar('nonnull:' + p.obj)

    def cast(self, mod, op, t1, t2, v, st=None):
        if v is UNDEF:
            return UNDEF
        if op in ('sext', 'zext'):
            if isinstance(v, Bool):
                return ind(v) if op == 'zext' else -ind(v)
            return v
        if op == 'trunc':
            t = mod.resolve(t2)
            if isinstance(v, Pack):
                if t.a != 32 or v.sh:
                    raise Unsupported('trunc of packed integer')
                return v.lo
            if t.a == 1:
                if isinstance(v, Bool):
                    return v
                return ne(imod(v, const(2)), 0)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, Bool):
                return ind(v)
            return v
        if op in ('fptosi', 'fptoui'):
            return ipart(v)
        if op in ('fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, ins):
        callee = ins.x
        args = []
        for ty, v, at in ins.args:
            args.append(self.val(fr, st, ty, v))
        if callee[0] == 'glob':
            name = callee[1]
        else:
            f = self.val(fr, st, None, callee)
            if isinstance(f, Func):
                name = f.name
            elif isinstance(f, Ptr) and f.obj in self.callbacks:
                return self._special(st, self.callbacks[f.obj](self, st, args, ins), ins)
            else:
                raise Unsupported('indirect call through %r' % (f,))
        return self.call_name(fr, st, name, args, ins)

    def call_name(self, fr, st, name, args, ins):
        con = self.contracts.get(name)
        if con is not None and (self.use_contract is None or self.use_contract(name)):
            self.called.add(name)
            # byval arguments: pass the pointer (contract only reads it)
            return self._special(st, con(self, st, args, ins), ins)
        r = self.lookup(fr.mod if fr else None, name)
        if r is not None and name not in self.externals:
            mod, fn = r
            self.inlined.add(name)
            return self.run_function(mod, fn, args, st)
        h = self.externals.get(name) or BUILTINS.get(name)
        if h is None and name.startswith('llvm.'):
            for pfx, f in INTRINSICS:
                if name.startswith(pfx):
                    h = f
                    break
        if h is None:
            raise Unsupported('call to %s (no body, no contract)' % name)
        self.called.add(name)
        return self._special(st, h(self, st, args, ins), ins)

    def _special(self, st, r, ins):
        """handlers return a value (single continuation in st) or a list of Outcomes"""
        if isinstance(r, list):
            return r
        if ins.dst:
            st.env[ins.dst] = r
        return None


class Peel(Exception):
    """the first iteration has to be taken apart before the loop can be summarised"""

    def __init__(self, header, why):
        self.header = header
        self.why = why


class LoopSummary:
    """memory and phi values after N iterations of a loop whose body was executed symbolically once"""

    def __init__(self, eng, lc, st, init, phis, lv, latch, rng0):
        self.eng = eng
        self.lc = lc
        self.st = st
        self.init = init
        self.phis = phis
        self.k = lc.k
        self.base = st.facts | lc.kfacts
        self.latch = latch
        skip = rng0 | lc.kfacts | frozenset([lc.stay])
        self.guards = [band(*sorted((f for f in o.st.facts if f not in skip), key=lambda b: b.key)) for o in latch]
        # every completed iteration took the only path to the latch
        self.sg = [TRUE] if len(latch) == 1 else self.guards
        self.bysym = {f: d for d, f in phis.items()}
        self.lv = lv
        self.acc = {}        # dst -> ('acc', delta(k)) | ('lag', v(k)) after rewriting
        self.busy = set()
        self.A = {}
        self.B = {}
        self.havoc = set()
        self.why = {}
        self._fus = {}
        self.letcache = {}
        self._classify()

    # -- memory classification
    def _classify(self):
        lc = self.lc
        eng = self.eng
        for obj in lc.written:
            ents = []
            hv = False
            for pi, o in enumerate(self.latch):
                n = o.st.mem.get(obj)
                if n is None:
                    continue
                older = []
                for u in eng._since(n, lc) or ():
                    if isinstance(u, Havoc):
                        hv = True
                    elif isinstance(u, Store):
                        if not self._identity(obj, u, older, self.base | o.st.facts):
                            ents.append((pi, u))
                        older.append(u)
            if hv:
                self.havoc.add(obj)
                continue
            A = []
            B = []
            for pi, u in ents:
                if lc.k in u.addr.fv or any(lc.k in T.fv for _, T in u.binders):
                    A.append((pi, u))
                else:
                    B.append((pi, u))
            self.A[obj] = A
            # B: distinct families
            fams = []
            for pi, u in B:
                key = (u.addr, tuple(T for _, T in u.binders)) if not u.binders else self._famkey(u)
                if key not in [f[0] for f in fams]:
                    fams.append((key, u))
            self.B[obj] = [u for _, u in fams]
        for obj in list(self.A):
            try:
                self._check(obj)
            except Unsupported as ex:
                self.havoc.add(obj)
                self.why[obj] = str(ex)
                self.A.pop(obj)
                self.B.pop(obj)

    def _identity(self, obj, u, older, facts):
        """the store writes back what the location holds at the start of the iteration"""
        if u.ty not in 'dil' or u.val != P(mk_fn('pre', (P(self.lc.marker), obj, u.addr, u.ty), 'real' if u.ty == 'd' else 'int')):
            return False
        fs = facts | self._bfacts(u)
        for w in older:
            if match(w.binders, w.addr, SIZE[w.ty], u.addr, SIZE[u.ty], fs).kind != 'miss':
                return False
        return True

    def _famkey(self, u):
        ren = {}
        i = 0
        bs = []
        for v, T in u.binders:
            nv = terms._bound(i)
            i += 1
            bs.append(subst(T, ren))
            ren[v] = P(nv)
        return (subst(u.addr, ren), tuple(bs))

    def _fusable(self, pi, u):
        """(v, s, n): the iterations k and the binder v of u together enumerate  s k + v  over 0..n-1 (n: the
        bound of a loop that steps by s)"""
        key = (pi, u)
        if key not in self._fus:
            self._fus[key] = self._fusable1(pi, u)
        return self._fus[key]

    def _fusable1(self, pi, u):
        cd = [at for at in all_atoms(self.lc.T) if at.kind == 'fn' and at.args[0] == 'cdiv'] \
            if not self.lc.T.is_const() else []
        if len(cd) != 1 or P(cd[0]) != self.lc.T:
            return None
        n, s = cd[0].args[1], cd[0].args[2]
        if not any(self.k in T.fv for _, T in u.binders):
            return None
        sp = lin_split(u.addr, ((self.k, self.lc.T),) + u.binders)
        if sp is None:
            return None
        fs = self.base | self._bfacts(u) | frozenset([self.guards[pi]])
        k = P(self.k)
        for v, T in u.binders:
            if sp[0][v] * s != sp[0][self.k]:
                continue
            r = n - s * k
            if entails(fs, le(T, s)) and entails(fs, le(T, r)) and entails(fs, bor(eq(T, s), eq(T, r))):
                return v, s, n
        return None

    def _ext(self, u, kk, pi=None):
        """binders of u over all iterations, renamed; and the iteration as a function of them"""
        fu = None if pi is None else self._fusable(pi, u)
        if fu is not None:
            v0, s, n = fu
            ke = idiv(P(kk), s)
            ren = {self.k: ke, v0: P(kk) - s * ke}
            bs = [(kk, n)]
        else:
            v0 = None
            ke = P(kk)
            ren = {self.k: ke}
            bs = [(kk, self.lc.T)]
        for v, T in u.binders:
            if v is v0:
                continue
            nv = fresh('b', 'int')
            bs.append((nv, subst(T, ren)))
            ren[v] = P(nv)
        return tuple(bs), subst(u.addr, ren), ke, ren

    def _bfacts(self, u):
        fs = []
        for v, T in u.binders:
            fs += [le(0, P(v)), lt(P(v), T)]
        return frozenset(fs)

    def _check(self, obj):
        """cross-iteration conflicts of the writes to obj"""
        A = self.A[obj]
        B = self.B[obj]
        done = set()
        for i, (p1, u1) in enumerate(A):
            for p2, u2 in A:
                kk = fresh('k', 'int')
                key = (u1.addr, u2.addr, tuple(T for _, T in u1.binders), tuple(T for _, T in u2.binders))
                if key in done:
                    continue
                done.add(key)
                bs, addr, ke, _ = self._ext(u1, kk, p1)
                fs = self.base | self._bfacts(u2) | frozenset([self.guards[p2]])
                m = match(bs, addr, SIZE[u1.ty], u2.addr, SIZE[u2.ty], fs)
                if m.kind == 'miss':
                    continue
                if m.kind == 'cand':
                    k1 = subst(ke, m.sol)
                    if k1 == P(self.k) or entails(fs | frozenset(m.conds), eq(k1, P(self.k))):
                        continue
                raise Unsupported('writes of different iterations may collide: %s / %s in %s' % (u1, u2, obj))
            for u2 in B:
                kk = fresh('k', 'int')
                bs, addr, ke, _ = self._ext(u1, kk, p1)
                m = match(bs, addr, SIZE[u1.ty], u2.addr, SIZE[u2.ty], self.base | self._bfacts(u2))
                if m.kind != 'miss':
                    raise Unsupported('stationary and moving writes may collide in %s: %s / %s' % (obj, u1, u2))
        for i, u1 in enumerate(B):
            for u2 in B[i + 1:]:
                m = match(u1.binders, u1.addr, SIZE[u1.ty], u2.addr, SIZE[u2.ty], self.base | self._bfacts(u2))
                if m.kind != 'miss':
                    raise Unsupported('overlapping stationary writes in %s: %s / %s' % (obj, u1, u2))

    # -- rewriting of terms to values at iteration k (in terms of the entry state)
    def rw(self, p, facts):
        S = self.lc.syms - {self.k}

        def f(at, fs):
            if at.fv.isdisjoint(S):
                return at
            if at.kind == 'sym':
                if at in self.bysym:
                    return self.phi_val(self.bysym[at], P(self.k))
                return None
            if at.kind == 'fn' and at.args[0] == 'pre' and at.args[1] == P(self.lc.marker):
                obj, addr, ty = at.args[2], at.args[3], at.args[4]
                addr = self.rw(addr, facts | fs)
                return self.mem_val(obj, addr, ty, P(self.k), facts | fs)
            return None
        if p.fv.isdisjoint(self.lc.syms - {self.k}):
            return p
        f.cache = self.letcache.setdefault(facts, {})
        return rewrite(p, f)

    def rwb(self, b, facts):
        S = self.lc.syms - {self.k}
        if b.fv.isdisjoint(S):
            return b

        def f(at, fs):
            if at.fv.isdisjoint(S):
                return at
            if at.kind == 'sym':
                if at in self.bysym:
                    return self.phi_val(self.bysym[at], P(self.k))
                return None
            if at.kind == 'fn' and at.args[0] == 'pre' and at.args[1] == P(self.lc.marker):
                obj, addr, ty = at.args[2], at.args[3], at.args[4]
                addr = self.rw(addr, facts | fs)
                return self.mem_val(obj, addr, ty, P(self.k), facts | fs)
            return None
        return brewrite(b, f)

    def rwv(self, v, facts):
        if isinstance(v, Poly):
            return self.rw(v, facts)
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.rw(v.off, facts))
        if isinstance(v, Bool):
            return self.rwb(v, facts)
        return v

    def rw_store(self, u, facts):
        if isinstance(u, Havoc):
            return u
        fs = facts | self._bfacts(u)
        g = self.rwb(u.guard, fs)
        return Store(self.rw(u.addr, fs), u.ty, self.rwv(u.val, fs | frozenset([g])), u.binders, g)

    # -- phis
    def phi_kind(self, dst):
        if dst in self.acc:
            return self.acc[dst]
        if dst in self.busy:
            raise Unsupported('mutually dependent loop variables')
        self.busy.add(dst)
        try:
            f = self.phis[dst]
            r = self._phi_kind(dst, f)
        finally:
            self.busy.discard(dst)
        self.acc[dst] = r
        return r

    def _phi_kind(self, dst, f):
        vs = self.lv[dst]
        iv = self.init[dst]
        ptr = isinstance(iv, Ptr)
        vals = []
        for v in vs:
            if isinstance(v, Ptr):
                if not ptr or v.obj != iv.obj:
                    raise Unsupported('pointer loop variable changes object')
                v = v.off
            if isinstance(v, Bool):
                v = ind(v)
            if not isinstance(v, Poly):
                raise Unsupported('loop variable %s has value %r' % (dst, v))
            vals.append(v)
        # accumulator?
        ds = [v - P(f) for v in vals]
        if all(f not in d.fv for d in ds):
            delta = ZERO
            for g, d in zip(self.guards, ds):
                if not d.t:
                    continue
                fs = self.base | frozenset([g])
                delta = delta + (ind(self.rwb(g, self.base)) if g is not TRUE and len(ds) > 1 else ONE) * self.rw(d, fs)
            return ('acc', delta)
        if all(f not in v.fv for v in vals) and all(f not in g.fv for g in self.guards):
            val = ZERO
            for g, v in zip(self.guards, vals):
                fs = self.base | frozenset([g])
                val = val + (ind(self.rwb(g, self.base)) if len(vals) > 1 else ONE) * self.rw(v, fs)
            return ('lag', val)
        # general fold over a single variable
        acc = sym('foldacc', f.sort)
        kk = sym('foldk', 'int')
        mp = {f: P(acc)}
        body = ZERO
        for g, v in zip(self.guards, vals):
            body = body + (ind(g) if len(vals) > 1 else ONE) * v
        others = [s for s in self.lc.syms if s is not f and s is not self.k]
        save = self.bysym
        self.bysym = {s: d for s, d in save.items() if s is not f}
        try:
            body = self.rw(body, self.base)
        finally:
            self.bysym = save
        body = subst(body, {f: P(acc), self.k: P(kk)})
        return ('fold', body)

    def phi_val(self, dst, n):
        """value of the loop variable at the start of iteration n"""
        kind = self.phi_kind(dst)
        iv = self.init[dst]
        if isinstance(iv, Ptr):
            iv = iv.off
        elif isinstance(iv, Bool):
            iv = ind(iv)
        if kind[0] == 'acc':
            m = fresh('m', 'int')
            if iv is UNDEF:
                raise Unsupported('accumulator starts undefined')
            return iv + mk_sum(m, n, subst(kind[1], {self.k: P(m)}))
        if kind[0] == 'lag':
            last = subst(kind[1], {self.k: n - 1})
            if entails(self.base, le(1, n)) or iv is UNDEF:
                return last
            return ite(le(1, n), last, iv)
        if iv is UNDEF:
            raise Unsupported('recurrence starts undefined')
        return mk_fold(iv, n, kind[1])

    def phi_at(self, dst, n, steps):
        iv = self.init[dst]
        if dst in steps:
            s = steps[dst]
            if not s.t:
                return iv
            if isinstance(iv, Ptr):
                return Ptr(iv.obj, iv.off + s * n)
            return iv + s * n
        try:
            if iv is UNDEF and self.phi_kind(dst)[0] != 'lag':
                return UNDEF
            v = self.phi_val(dst, n)
        except Unsupported as ex:
            # not expressible: fatal only if the value is used later
            self.eng.lost = str(ex)
            return UNDEF
        if isinstance(iv, Ptr):
            return Ptr(iv.obj, v)
        if isinstance(iv, Bool):
            return ne(v, 0)
        return v

    # -- memory values at the start of iteration n
    def mem_val(self, obj, addr, ty, n, facts):
        lc = self.lc
        if obj in self.havoc:
            raise Unsupported('read of a havocked object %s in loop (%s)' % (obj, self.why.get(obj)))
        for pi, u in self.A.get(obj, ()):
            kk = fresh('k', 'int')
            bs, a, ke, _ = self._ext(u, kk, pi)
            m = match(bs, a, SIZE[u.ty], addr, SIZE[ty], facts | self.base)
            if m.kind == 'miss':
                continue
            if m.kind == 'cand':
                k1 = subst(ke, m.sol)
                if k1 == n or entails(facts | self.base | frozenset(m.conds), le(n, k1)):
                    continue
            raise Unsupported('loop-carried dependence: read %s[%s] vs %s' % (obj, addr, u))
        for u in self.B.get(obj, ()):
            m = match(u.binders, u.addr, SIZE[u.ty], addr, SIZE[ty], facts | self.base)
            if m.kind == 'miss':
                continue
            if m.kind == 'cand' and not m.conds:
                return self.b_val(obj, u, m.sol, n, facts)
            if m.kind == 'cand':
                # partially covered: indicator
                c = band(*m.conds)
                e = self.entry_read(obj, addr, ty, facts)
                return ite(c, self.b_val(obj, u, m.sol, n, facts | frozenset([c])), e)
            raise Unsupported('loop-carried dependence: read %s[%s] vs %s' % (obj, addr, u))
        return self.entry_read(obj, addr, ty, facts)

    def entry_node(self, obj):
        n = self.lc.entry.get(obj)
        if n is None:
            n = self.eng.base_of(obj)
            for l in self.eng.loopstack:
                n = n.push(Barrier(l))
        return n

    def entry_read(self, obj, addr, ty, facts):
        return read(self.entry_node(obj), obj, addr, ty, Ctx(self.eng, facts | self.base, 'ind'))

    def b_kind(self, obj, u):
        key = (obj, u)
        if key in self.acc:
            return self.acc[key]
        if key in self.busy:
            raise Unsupported('mutually dependent accumulations in %s' % obj)
        self.busy.add(key)
        try:
            r = self._b_kind(obj, u)
        finally:
            self.busy.discard(key)
        self.acc[key] = r
        return r

    def _b_kind(self, obj, u):
        """('acc', delta) / ('lag', v) with free binders of u and k"""
        lc = self.lc
        fs = self.base | self._bfacts(u)
        me = P(mk_fn('pre', (P(lc.marker), obj, u.addr, u.ty), 'real' if u.ty in 'df' else 'int'))
        meat = [terms.atom(a) for m in me.t for a, _ in m][0]
        vals = []
        for pi, o in enumerate(self.latch):
            n = o.st.mem.get(obj)
            if n is None:
                v = me
            else:
                v = read(n, obj, u.addr, u.ty, Ctx(self.eng, fs | frozenset([self.guards[pi]]), 'ind'))
            vals.append(v)
        if all(not isinstance(v, Poly) for v in vals):
            if all(v == vals[0] for v in vals) and (not isinstance(vals[0], Ptr) or vals[0].off.fv.isdisjoint(lc.syms)):
                return ('cst', vals[0])
            if len(vals) == 1 and isinstance(vals[0], Ptr):
                return ('lagp', vals[0].obj, self.rw(vals[0].off, fs))
            raise Unsupported('pointer stored in loop')
        ds = [v - me for v in vals]
        if all(meat not in all_atoms(d) for d in ds):
            delta = ZERO
            for g, d in zip(self.guards, ds):
                if d.t:
                    delta = delta + (ind(self.rwb(g, fs)) if g is not TRUE and len(ds) > 1 else ONE) * self.rw(d, fs | frozenset([g]))
            return ('acc', delta)
        if all(meat not in all_atoms(v) for v in vals):
            val = ZERO
            for g, v in zip(self.guards, vals):
                val = val + (ind(self.rwb(g, fs)) if len(vals) > 1 else ONE) * self.rw(v, fs | frozenset([g]))
            return ('lag', val)
        raise Unsupported('unrecognised recurrence in %s' % obj)

    def b_val(self, obj, u, sol, n, facts):
        kind = self.b_kind(obj, u)
        fs = facts | self.base
        sol = {v: s for v, s in sol.items()}
        if kind[0] == 'cst':
            return kind[1]
        if kind[0] == 'lagp':
            if not entails(fs, le(1, n)):
                raise Unsupported('pointer stored in possibly empty loop')
            return Ptr(kind[1], subst(subst(kind[2], sol), {self.k: n - 1}))
        if kind[0] == 'acc':
            m = fresh('m', 'int')
            d = subst(subst(kind[1], sol), {self.k: P(m)})
            return self.entry_read(obj, subst(u.addr, sol), u.ty, facts) + mk_sum(m, n, d)
        v = subst(subst(kind[1], sol), {self.k: n - 1})
        if entails(fs, le(1, n)):
            return v
        return ite(le(1, n), v, self.entry_read(obj, subst(u.addr, sol), u.ty, facts))

    def unrolled(self, moved):
        """stores of an unrolled loop (elements s k, s k + 1 .. s k + s-1 in iteration k) as one store over all elements"""
        us = [u for _, u in moved]
        if len(us) < 3 or len({pi for pi, _ in moved}) != 1 or any(len(u.binders) != 1 or u.ty == 'p' or not isinstance(u.val, Poly) for u in us):
            return us
        try:
            ks = [u.binders[0][0] for u in us]
            k0, T = us[0].binders[0]
            ren = [(subst(u.addr, {k: P(k0)}), subst(u.val, {k: P(k0)}), u) for u, k in zip(us, ks)]
            if any(subst(u.binders[0][1], {k: P(k0)}) != T or u.ty != us[0].ty or bsubst(u.guard, {k: P(k0)}) != us[0].guard for u, k in zip(us, ks)):
                return us
            if k0 in us[0].guard.fv:
                return us
            s = len(us)
            base = ren[0][0]
            ds = [(a - base) for a, _, _ in ren]
            if not all(d.is_const() for d in ds):
                return us
            ren = [x for _, x in sorted(zip([d.const_value() for d in ds], ren), key=lambda y: y[0])]
            base, v0, u0 = ren[0]
            step = ren[1][0] - base
            if any((a - base) != step * j for j, (a, _, _) in enumerate(ren)) or subst(base, {k0: P(k0) + 1}) - base != step * s:
                return us
            kk = fresh('k', 'int')
            m = {k0: P(kk) * Fraction(1, s)}
            val = subst(v0, m)
            for j, (_, v, _) in enumerate(ren):
                if subst(val, {kk: P(k0) * s + j}) != v:
                    return us
            return [Store(subst(base, m), u0.ty, val, ((kk, T * s),), u0.guard)]
        except (AttributeError, Unsupported):
            return us

    def memory_after(self, N):
        mem = dict(self.lc.entry)
        lc = self.lc
        for obj in lc.written:
            node = self.entry_node(obj)
            if obj in self.havoc:
                self.eng.counter += 1
                mem[obj] = node.push(Havoc('havoc%d:%s (%s)' % (self.eng.counter, obj, self.why.get(obj))))
                continue
            try:
                moved = []
                for pi, u in self.A[obj]:
                    g = self.guards[pi]
                    fs = self.base | frozenset([g])
                    u2 = self.rw_store(u, fs)
                    gg = band(self.rwb(self.sg[pi], self.base), u2.guard)
                    nk = fresh('k', 'int')
                    if N == lc.T and self._fusable(pi, u2) is not None:
                        bs, _, _, mp = self._ext(u2, nk, pi)
                    else:
                        mp = {self.k: P(nk)}
                        bs = [(nk, N)] + [(v, subst(T, mp)) for v, T in u2.binders]
                    moved.append((pi, Store(subst(u2.addr, mp), u2.ty, val_subst(u2.val, mp), bs, bsubst(gg, mp))))
                for u in self.unrolled(moved):
                    node = node.push(u)
                for u in self.B[obj]:
                    sol = {v: P(v) for v, _ in u.binders}
                    try:
                        v = self.b_val(obj, u, sol, N, self._bfacts(u))
                    except Unsupported:
                        if self.eng.objs.get(obj, {}).get('local') and not u.binders:
                            v = UNDEF if u.ty == 'p' else P(fresh('undef', 'real' if u.ty in 'df' else 'int'))
                        else:
                            raise
                    node = node.push(Store(u.addr, u.ty, v, u.binders))
            except Unsupported:
                if self.eng.objs.get(obj, {}).get('local'):
                    self.eng.counter += 1
                    node = self.entry_node(obj).push(Havoc('havoc%d:%s' % (self.eng.counter, obj)))
                else:
                    raise
            mem[obj] = node
        return mem


def mk_fold(iv, n, body):
    """fold atom: iterate acc := body(acc, k) for k = 0..n-1 from iv (syms foldacc, foldk are bound)"""
    if n.is_const() and n.const_value() <= MAX_CONST_SUM:
        v = iv
        for i in range(int(n.const_value())):
            acc = [s for s in body.fv if s.name is None and s.key == 'foldacc']
            v = subst(body, {sym('foldacc', 'real'): v, sym('foldacc', 'int'): v, sym('foldk', 'int'): const(i)})
        return v
    for q in (iv, n):
        if any(x.key in ('foldacc', 'foldk') for x in q.fv):
            raise Unsupported('nested recurrences')
    if any(a.kind == 'fn' and a.args[0] == 'fold' for a in all_atoms(body)):
        raise Unsupported('nested recurrences')
    sort = 'int' if iv.is_int() and body.is_int() else 'real'
    return P(mk_fn('fold', (iv, n, body), sort))


# ------------------------------------------------------------------ builtins

def _f1(f):
    return lambda eng, st, a, ins: f(a[0])


def b_memcpy(eng, st, a, ins):
    dst, src, n = a[0], a[1], a[2]
    if n.is_const():
        nb = int(n.const_value())
        if nb == 0:
            return dst
        vals = copy_cells(eng, st, src, nb, dst)
        for off, ty, v in vals:
            eng.store(st, dst + off, ty, v)
        return dst
    # symbolic size: array of doubles (or ints)
    ty = 'd'
    info = eng.objs.get(dst.obj, {})
    et = info.get('elem') or eng.objs.get(src.obj, {}).get('elem') or 'd'
    sz = SIZE[et]
    cnt, rem = divmono(n, (), sz)
    if rem.t:
        et, sz = 'i', 4
        cnt, rem = divmono(n, (), sz)
        if rem.t:
            raise Unsupported('memcpy size %s' % n)
    if dst.obj == src.obj and dst.off == src.off:
        return dst
    parts = [0]
    if et == 'd' and eng.cfg != 'inv':
        c2, r2 = divmono(n, (), 16)
        if not r2.t:
            cnt, sz, parts = c2, 16, [0, 8]
    node = eng.node(st, dst.obj)
    for o in parts:
        k = fresh('c', 'int')
        fs = st.facts | frozenset([le(0, P(k)), lt(P(k), cnt)])
        v = read(eng.node(st, src.obj), src.obj, src.off + P(k) * sz + o, et, Ctx(eng, fs, 'ind'))
        node = node.push(Store(dst.off + P(k) * sz + o, et, v, ((k, cnt),)))
    st.mem[dst.obj] = node
    return dst


def copy_cells(eng, st, src, nb, dst=None):
    """typed cells of a constant-size memory block"""
    node = eng.node(st, src.obj)
    out = []
    off = 0
    lay = eng.objs.get(src.obj, {}).get('layout') or (eng.objs.get(dst.obj, {}).get('layout') if dst else None)
    base = eng.objs.get(src.obj, {}).get('base')
    if base and base[0] == 'const' and src.off.is_const() and node.prev is None:
        s0 = int(src.off.const_value())
        return [(o - s0, ty, eng.load(st, Ptr(src.obj, const(o)), ty)) for o, ty in sorted(base[1]) if s0 <= o < s0 + nb]
    while off < nb:
        # look for the most recent store at this address to learn the type
        ty = None
        a = src.off + off
        n = node
        while n.prev is not None and ty is None:
            u = n.upd
            if isinstance(u, Store):
                m = match(u.binders, u.addr, SIZE[u.ty], a, 1, st.facts)
                if m.kind == 'cand':
                    ty = u.ty
            n = n.prev
        if ty is None and lay:
            esz, cells = lay
            q, r = divmono(a, (), esz)
            if r.is_const():
                ty = cells.get(int(r.const_value()))
        if ty is None and eng.objs.get(src.obj, {}).get('elem'):
            ty = eng.objs[src.obj]['elem']
        if ty is None:
            ty = 'd' if nb - off >= 8 else 'i'
        v = eng.load(st, src + off, ty)
        out.append((off, ty, v))
        off += SIZE[ty]
    return out


def b_memset(eng, st, a, ins):
    dst, c, n = a[0], a[1], a[2]
    if not (c.is_const() and c.const_value() == 0):
        raise Unsupported('memset with nonzero byte')
    et = eng.objs.get(dst.obj, {}).get('elem', 'd')
    sz = SIZE[et]
    if n.is_const():
        nb = int(n.const_value())
        it = eng.objs.get(dst.obj, {}).get('ints')
        if it and nb <= 512 and nb % SIZE[it] == 0:
            for i in range(0, nb, SIZE[it]):
                eng.store(st, dst + i, it, ZERO)
            return dst
        if nb % 8 == 0 and nb // 8 <= 64:
            for i in range(nb // 8):
                eng.store(st, dst + 8 * i, 'd', ZERO)
            return dst
        if nb % 4 == 0 and nb <= 64:
            for i in range(nb // 4):
                eng.store(st, dst + 4 * i, 'i', ZERO)
            return dst
    cnt, rem = divmono(n, (), sz)
    if rem.t:
        raise Unsupported('memset size %s' % n)
    parts = [0]
    if et == 'd' and eng.cfg != 'inv':
        c2, r2 = divmono(n, (), 16)
        if not r2.t:
            cnt, sz, parts = c2, 16, [0, 8]
    node = eng.node(st, dst.obj)
    for o in parts:
        k = fresh('c', 'int')
        node = node.push(Store(dst.off + P(k) * sz + o, et, ZERO, ((k, cnt),)))
    st.mem[dst.obj] = node
    return dst


def b_malloc(eng, st, a, ins):
    obj = eng.new_obj('heap', base=('undef', 'heap'), heap=True, size=a[0])
    return Ptr(obj, ZERO)


def b_calloc(eng, st, a, ins):
    obj = eng.new_obj('heap', base=('zero',), heap=True, size=a[0] * a[1])
    return Ptr(obj, ZERO)


def b_nop(eng, st, a, ins):
    return P(fresh('ret', 'int'))


def b_die(eng, st, a, ins):
    return [Outcome('die', st, val='die')]


def b_pow(eng, st, a, ins):
    x, y = a
    if y.is_const():
        c = Fraction(y.const_value())
        if c.denominator == 1:
            return x ** int(c)
        if c == Fraction(1, 2):
            return sqrt_(x)
    return P(mk_fn('pow', (x, y), 'real'))


def _by_indicators(a, b, f):
    """bitwise operation on integers that are functions of a few indicators"""
    ats = set()
    for p in (a, b):
        for m, c in p.t.items():
            for x, _ in m:
                ats.add(terms.atom(x))
    if len(ats) > 4 or any(x.kind != 'ind' for x in ats):
        return None
    ats = sorted(ats, key=lambda x: x.key)
    r = ZERO
    for bits in itertools.product((0, 1), repeat=len(ats)):
        mp = {x: const(v) for x, v in zip(ats, bits)}
        x, y = subst(a, mp), subst(b, mp)
        w = const(f(int(x.const_value()), int(y.const_value())))
        for at, v in zip(ats, bits):
            w = w * (P(at) if v else ONE - P(at))
        r = r + w
    return r


def b_minmax(which, unsigned=False):
    def f(eng, st, a, ins):
        x, y = a[0], a[1]
        if unsigned and not (entails(st.facts, le(0, x)) and entails(st.facts, le(0, y))):
            raise Unsupported('unsigned minimum or maximum of possibly negative values')
        c = le(y, x) if which == 'max' else le(x, y)
        d = eng.decide(st, c)
        return ite(c, x, y) if d is None else x if d else y
    return f


def ufn(name, sort='real'):
    return lambda eng, st, a, ins: P(mk_fn(name, tuple(a), sort))


def b_strchr(eng, st, a, ins):
    c = a[1]
    if not c.is_const():
        raise Unsupported('strchr of a symbolic character')
    c = int(c.const_value()) & 255
    for i in range(300):
        v = eng.load(st, a[0] + i, 'b')
        if not (isinstance(v, Poly) and v.is_const()):
            raise Unsupported('strchr in an unknown string')
        v = int(v.const_value()) & 255
        if v == c:
            return a[0] + i
        if v == 0:
            return NULL
    raise Unsupported('strchr')


def b_memchr(eng, st, a, ins):
    if not a[1].is_const() or not a[2].is_const():
        raise Unsupported('memchr of a symbolic character')
    c = int(a[1].const_value()) & 255
    for i in range(int(a[2].const_value())):
        v = eng.load(st, a[0] + i, 'b')
        if not (isinstance(v, Poly) and v.is_const()):
            raise Unsupported('memchr in unknown memory')
        if int(v.const_value()) & 255 == c:
            return a[0] + i
    return NULL


def b_case(f):
    def g(eng, st, a, ins):
        if isinstance(a[0], Poly) and a[0].is_const():
            return P(ord(f(chr(int(a[0].const_value()) & 127))))
        raise Unsupported('toupper')
    return g


def b_strlen(eng, st, a, ins):
    for i in range(300):
        v = eng.load(st, a[0] + i, 'b')
        if not (isinstance(v, Poly) and v.is_const()):
            raise Unsupported('strlen of an unknown string')
        if v.const_value() == 0:
            return const(i)
    raise Unsupported('strlen')


def b_modf(eng, st, a, ins):
    t = ipart(a[0])
    eng.store(st, a[1], 'd', t)
    return a[0] - t


BUILTINS = {
    'modf': b_modf, 'strchr': b_strchr, 'memchr': b_memchr, 'strlen': b_strlen, 'toupper': b_case(str.upper), 'tolower': b_case(str.lower),
    'sqrt': _f1(sqrt_), 'fabs': _f1(fabs_), 'cos': _f1(cos_), 'sin': _f1(sin_),
    'floor': _f1(floor_), 'ceil': lambda e, s, a, i: -floor_(-a[0]),
    'pow': b_pow, 'exp': ufn('exp'), 'log': ufn('log'), 'atan2': ufn('atan2'), 'tan': ufn('tan'), 'atan': ufn('atan'),
    'tanh': ufn('tanh'), 'acos': ufn('acos'), 'asin': ufn('asin'), 'fmod': ufn('fmod'), 'cbrt': ufn('cbrt'),
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset,
    'malloc': b_malloc, 'calloc': b_calloc, 'free': b_nop,
    'fftw_malloc': b_malloc, 'fftw_free': b_nop,
    'printf': b_nop, 'fprintf': b_nop, 'fputs': b_nop, 'puts': b_nop, 'fflush': b_nop, 'fputc': b_nop, 'putchar': b_nop,
    'fwrite': b_nop,
    'exit': b_die, 'abort': b_die, 'mpi_die': b_die,
}
INTRINSICS = [
    ('llvm.fmuladd', lambda e, s, a, i: e.named(a[0] * a[1] + a[2])),
    ('llvm.memcpy', b_memcpy), ('llvm.memmove', b_memcpy), ('llvm.memset', b_memset),
    ('llvm.fabs', _f1(fabs_)), ('llvm.sqrt', _f1(sqrt_)), ('llvm.floor', _f1(floor_)),
    ('llvm.ceil', lambda e, s, a, i: -floor_(-a[0])),
    ('llvm.cos', _f1(cos_)), ('llvm.sin', _f1(sin_)), ('llvm.pow', b_pow),
    ('llvm.smax', b_minmax('max')), ('llvm.smin', b_minmax('min')),
    ('llvm.umax', b_minmax('max', True)), ('llvm.umin', b_minmax('min', True)),
    ('llvm.abs', _f1(fabs_)), ('llvm.maxnum', b_minmax('max')), ('llvm.minnum', b_minmax('min')),
    ('llvm.va_', b_nop), ('llvm.assume', b_nop), ('llvm.stack', b_nop), ('llvm.expect', lambda e, s, a, i: a[0]),
]
