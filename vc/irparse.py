"""Parser for the textual LLVM-18 IR subset produced by the frontend."""
import re


class Ty:
    __slots__ = ('k', 'a', 'b', 's')

    def __init__(self, k, a=None, b=None, s=None):
        self.k = k
        self.a = a
        self.b = b
        self.s = s

    def __repr__(self):
        return self.s or self.k


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, name, attrs)
        self.ret = None
        self.blocks = {}   # label -> Block
        self.order = []
        self.internal = False
        self.attrs = ''
        self.dbg = None


class Block:
    def __init__(self, label):
        self.label = label
        self.phis = []
        self.ins = []
        self.term = None


class Ins:
    __slots__ = ('dst', 'op', 'args', 'ty', 'x', 'dbg', 'text')

    def __init__(self, dst, op, args, ty=None, x=None):
        self.dst = dst
        self.op = op
        self.args = args
        self.ty = ty
        self.x = x


TOK = re.compile(r'''"(?:[^"])*"|c"(?:[^"])*"|@"[^"]*"|@[\w.$-]+|%"[^"]*"|%[\w.$-]+|!\w+|\.\.\.|-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[0-9A-Fa-f]+|-?\d+|#\d+|[A-Za-z_][\w.]*|[\[\]{}()<>,*=:]|;.*|!''')


def tokenize(s):
    return [t for t in TOK.findall(s) if not t.startswith(';')]


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.meta = {}
        self.parse(text)

    # ---- type parsing on token lists
    def ptype(self, t, i):
        tok = t[i]
        if tok == 'void':
            return Ty('void', s='void'), i + 1
        if re.fullmatch(r'i\d+', tok):
            r = Ty('int', int(tok[1:]), s=tok)
            i += 1
        elif tok in ('double', 'float', 'x86_fp80'):
            r = Ty('fp', tok, s=tok)
            i += 1
        elif tok == 'ptr':
            r = Ty('ptr', s='ptr')
            i += 1
        elif tok == '[':
            n = int(t[i + 1])
            e, j = self.ptype(t, i + 3)
            assert t[j] == ']', t[i:j + 3]
            r = Ty('arr', n, e, '[%d x %s]' % (n, e))
            i = j + 1
        elif tok == '{':
            fs = []
            i += 1
            while t[i] != '}':
                e, i = self.ptype(t, i)
                fs.append(e)
                if t[i] == ',':
                    i += 1
            r = Ty('struct', fs, None, '{' + ','.join(map(str, fs)) + '}')
            i += 1
        elif tok == '<':
            if t[i + 1] == '{':
                r, i = self.ptype(t, i + 1)
                r.b = 'packed'
                assert t[i] == '>'
                i += 1
            else:
                n = int(t[i + 1])
                e, j = self.ptype(t, i + 3)
                r = Ty('vec', n, e, '<%d x %s>' % (n, e))
                i = j + 1
        elif tok[0] == '%':
            r = Ty('named', tok[1:].strip('"'), s=tok)
            i += 1
        elif tok == 'label' or tok == 'metadata':
            r = Ty(tok, s=tok)
            i += 1
        else:
            raise ValueError('type? %r in %r' % (tok, t))
        # function types: ret (args...)
        if i < len(t) and t[i] == '(' and False:
            pass
        return r, i

    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.a]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return max(1, ty.a // 8)
        if ty.k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[ty.a]
        if ty.k == 'ptr':
            return 8
        if ty.k == 'arr':
            return self.align(ty.b)
        if ty.k == 'struct':
            return max([self.align(f) for f in ty.a] or [1])
        if ty.k == 'vec':
            return self.size(ty)
        raise ValueError(ty)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return max(1, (ty.a + 7) // 8)
        if ty.k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[ty.a]
        if ty.k == 'ptr':
            return 8
        if ty.k == 'arr':
            return ty.a * self.size(ty.b)
        if ty.k == 'vec':
            return ty.a * self.size(ty.b)
        if ty.k == 'struct':
            return self.offsets(ty)[1]
        raise ValueError(ty)

    def offsets(self, ty):
        ty = self.resolve(ty)
        o = 0
        offs = []
        al = 1
        for f in ty.a:
            a = 1 if ty.b == 'packed' else self.align(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
        o = (o + al - 1) // al * al
        return offs, o

    def leaves(self, ty, base=0):
        """[(offset, leaf type)]"""
        ty = self.resolve(ty)
        if ty.k == 'struct':
            r = []
            offs, _ = self.offsets(ty)
            for f, o in zip(ty.a, offs):
                r += self.leaves(f, base + o)
            return r
        if ty.k in ('arr', 'vec'):
            r = []
            s = self.size(ty.b)
            for i in range(ty.a):
                r += self.leaves(ty.b, base + i * s)
            return r
        return [(base, ty)]

    # ---- top level
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rhs = l.split(' = type ', 1)
                if rhs.strip() == 'opaque':
                    self.types[nm[1:].strip('"')] = Ty('struct', [], None, 'opaque')
                else:
                    self.types[nm[1:].strip('"')] = self.ptype(tokenize(rhs), 0)[0]
            elif l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', l)
                self.globals[m.group(1)[1:].strip('"')] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                self.decls[m.group(1)[1:].strip('"')] = l
            elif l.startswith('define'):
                i = self.parse_func(lines, i)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1

    PATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'noalias', 'readonly', 'writeonly',
             'returned', 'immarg', 'inreg', 'readnone', 'nofree', 'dso_local', 'internal', 'hidden',
             'local_unnamed_addr', 'unnamed_addr', 'nest', 'noinline', 'tail', 'notail', 'musttail',
             'fastcc', 'ccc', 'coldcc', 'linkonce_odr', 'weak', 'nsw', 'nuw', 'exact', 'inbounds', 'volatile',
             'available_externally', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
             'afn', 'reassoc', 'dead_on_unwind', 'writable', 'captures', 'noreturn', 'allocptr', 'allocalign', 'swiftself'}

    def skip_attrs(self, t, i):
        attrs = {}
        while i < len(t):
            x = t[i]
            if x in self.PATTR:
                i += 1
            elif x == 'align':
                if t[i + 1] == '(':
                    i += 4
                else:
                    i += 2
            elif x in ('byval', 'sret', 'elementtype', 'preallocated', 'inalloca'):
                ty, j = self.ptype(t, i + 2)
                attrs[x] = ty
                i = j + 1
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'range', 'memory', 'initializes'):
                d = 0
                i += 1
                while True:
                    if t[i] == '(':
                        d += 1
                    if t[i] == ')':
                        d -= 1
                        if d == 0:
                            i += 1
                            break
                    i += 1
            else:
                break
        return attrs, i

    def parse_func(self, lines, i):
        head = lines[i]
        t = tokenize(head)
        p = 1
        attrs, p = self.skip_attrs(t, p)
        ret, p = self.ptype(t, p)
        name = t[p][1:].strip('"')
        f = Func(name)
        f.internal = ' internal ' in head
        f.ret = ret
        m = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(m.group(1)) if m else None
        p += 2
        k = 0
        while t[p] != ')':
            if t[p] == '...':
                p += 1
                f.vararg = True
                continue
            ty, p = self.ptype(t, p)
            at, p = self.skip_attrs(t, p)
            nm = '%%%d' % k
            if t[p].startswith('%'):
                nm = t[p]
                p += 1
            f.params.append((ty, nm, at))
            k += 1
            if t[p] == ',':
                p += 1
        i += 1
        cur = None
        nparams = sum(1 for q in f.params)
        while not lines[i].startswith('}'):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(';'):
                i += 1
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                lab = m.group(1).strip('"')
                cur = Block('%' + lab)
                f.blocks[cur.label] = cur
                f.order.append(cur.label)
                i += 1
                continue
            if cur is None:
                # implicit entry label: next unnamed number
                cur = Block('%' + str(nparams))
                f.blocks[cur.label] = cur
                f.order.append(cur.label)
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s:
                while ']' not in lines[i]:
                    i += 1
                    s += ' ' + lines[i].strip()
            try:
                ins = self.parse_ins(s)
            except Exception as e:
                ins = Ins(None, 'unsupported', None, None, 'parse: %s: %r' % (s, e))
                ins.dbg = None
                ins.text = s
            if ins is not None:
                if ins.op == 'phi':
                    cur.phis.append(ins)
                elif ins.op in ('br', 'ret', 'switch', 'unreachable'):
                    cur.term = ins
                else:
                    cur.ins.append(ins)
            i += 1
        self.funcs[name] = f
        return i

    def pval(self, ty, t, i):
        """parse a value operand of the given type"""
        x = t[i]
        if x[0] == '%':
            return ('reg', x), i + 1
        if x[0] == '@':
            return ('glob', x[1:].strip('"')), i + 1
        if x == 'null':
            return ('null',), i + 1
        if x in ('undef', 'poison'):
            return ('undef', ty), i + 1
        if x == 'true':
            return ('int', 1), i + 1
        if x == 'false':
            return ('int', 0), i + 1
        if x == 'zeroinitializer':
            return ('zero', ty), i + 1
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast'):
            # constant expression
            j = i + 1
            while t[j] in self.PATTR:
                j += 1
            assert t[j] == '('
            if x == 'getelementptr':
                ety, j = self.ptype(t, j + 1)
                j += 1
                ops = []
                while True:
                    oty, j = self.ptype(t, j)
                    v, j = self.pval(oty, t, j)
                    ops.append((oty, v))
                    if t[j] == ')':
                        break
                    j += 1
                return ('cgep', ety, ops), j + 1
            oty, j = self.ptype(t, j + 1)
            v, j = self.pval(oty, t, j)
            assert t[j] == 'to'
            _, j = self.ptype(t, j + 1)
            return ('ccast', x, v), j + 1
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            items = []
            i += 1
            while t[i] != close:
                ety, i = self.ptype(t, i)
                v, i = self.pval(ety, t, i)
                items.append((ety, v))
                if t[i] == ',':
                    i += 1
            return ('agg', items), i + 1
        if x.startswith('c"'):
            return ('str', x[2:-1]), i + 1
        if x == 'c' and t[i + 1].startswith('"'):
            return ('str', t[i + 1][1:-1]), i + 2
        rty = self.resolve(ty) if ty.k == 'named' else ty
        if rty.k == 'fp':
            if x.startswith('0x') or x.startswith('-0x'):
                import struct
                return ('fp', struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0]), i + 1
            return ('fp', float(x)), i + 1
        return ('int', int(x, 0)), i + 1

    def parse_ins(self, s):
        # strip metadata
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        k = s.find(', !')
        body = s[:k] if k >= 0 else s
        if 'llvm.dbg.' in s or 'llvm.lifetime' in s:
            return None
        t = tokenize(body)
        dst = None
        if len(t) > 1 and t[1] == '=':
            dst = t[0]
            t = t[2:]
        op = t[0]
        r = self._pi(dst, op, t)
        r.dbg = dbg
        r.text = body
        return r

    def _pi(self, dst, op, t):
        i = 1
        if op in ('tail', 'musttail', 'notail'):
            op = t[1]
            i = 2
        if op == 'ret':
            if t[1] == 'void':
                return Ins(dst, 'ret', None)
            ty, i = self.ptype(t, 1)
            v, i = self.pval(ty, t, i)
            return Ins(dst, 'ret', v, ty)
        if op == 'br':
            if t[1] == 'label':
                return Ins(dst, 'br', None, None, [t[2]])
            ty, i = self.ptype(t, 1)
            v, i = self.pval(ty, t, i)
            return Ins(dst, 'br', v, None, [t[i + 2], t[i + 5]])
        if op == 'switch':
            ty, i = self.ptype(t, 1)
            v, i = self.pval(ty, t, i)
            dflt = t[i + 2]
            i += 3
            assert t[i] == '['
            i += 1
            cases = []
            while t[i] != ']':
                cty, i = self.ptype(t, i)
                cv, i = self.pval(cty, t, i)
                assert t[i] == ',' and t[i + 1] == 'label'
                cases.append((cv[1], t[i + 2]))
                i += 3
            return Ins(dst, 'switch', v, ty, (dflt, cases))
        if op == 'unreachable':
            return Ins(dst, op, None)
        if op == 'phi':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            inc = []
            while i < len(t) and t[i] == '[':
                v, i = self.pval(ty, t, i + 1)
                assert t[i] == ','
                inc.append((v, t[i + 1]))
                i += 3
                if i < len(t) and t[i] == ',':
                    i += 1
            return Ins(dst, 'phi', inc, ty)
        if op == 'alloca':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            cnt = None
            if i + 1 < len(t) and t[i] == ',' and t[i + 1] != 'align':
                cty, i = self.ptype(t, i + 1)
                cnt, i = self.pval(cty, t, i)
            return Ins(dst, op, cnt, ty)
        if op == 'load':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            pty, i = self.ptype(t, i + 1)
            v, i = self.pval(pty, t, i)
            return Ins(dst, op, v, ty)
        if op == 'store':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            pty, i = self.ptype(t, i + 1)
            p, i = self.pval(pty, t, i)
            return Ins(dst, op, (v, p), ty)
        if op == 'getelementptr':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            i += 1
            ops = []
            while i < len(t):
                oty, i = self.ptype(t, i)
                v, i = self.pval(oty, t, i)
                ops.append((oty, v))
                if i < len(t) and t[i] == ',':
                    i += 1
                else:
                    break
            return Ins(dst, 'gep', ops, ty)
        if op == 'call':
            while t[i] in self.PATTR:
                i += 1
            _, i = self.skip_attrs(t, i)
            ret, i = self.ptype(t, i)
            # optional function type
            if t[i] == '(':
                d = 0
                while True:
                    if t[i] == '(':
                        d += 1
                    if t[i] == ')':
                        d -= 1
                        if d == 0:
                            i += 1
                            break
                    i += 1
            callee, i = self.pval(Ty('ptr'), t, i)
            assert t[i] == '(', t
            i += 1
            args = []
            while t[i] != ')':
                if t[i] == 'metadata':
                    return Ins(dst, 'nop', None)
                aty, i = self.ptype(t, i)
                at, i = self.skip_attrs(t, i)
                v, i = self.pval(aty, t, i)
                args.append((aty, v, at))
                if t[i] == ',':
                    i += 1
            return Ins(dst, 'call', args, ret, callee)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            b, i = self.pval(ty, t, i + 1)
            return Ins(dst, 'bin', (a, b), ty, op)
        if op == 'fneg':
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            return Ins(dst, 'fneg', a, ty)
        if op in ('icmp', 'fcmp'):
            while t[i] in self.PATTR:
                i += 1
            pred = t[i]
            ty, i = self.ptype(t, i + 1)
            a, i = self.pval(ty, t, i)
            b, i = self.pval(ty, t, i + 1)
            return Ins(dst, op, (a, b), ty, pred)
        if op == 'select':
            while t[i] in self.PATTR:
                i += 1
            cty, i = self.ptype(t, i)
            c, i = self.pval(cty, t, i)
            ty, i = self.ptype(t, i + 1)
            a, i = self.pval(ty, t, i)
            ty2, i = self.ptype(t, i + 1)
            b, i = self.pval(ty2, t, i)
            return Ins(dst, 'select', (c, a, b), ty, cty)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr'):
            while t[i] in self.PATTR:
                i += 1
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            assert t[i] == 'to', t
            ty2, i = self.ptype(t, i + 1)
            return Ins(dst, 'cast', v, ty2, (op, ty))
        if op == 'freeze':
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            return Ins(dst, 'freeze', v, ty)
        if op in ('extractvalue', 'insertvalue'):
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            if op == 'insertvalue':
                ety, i = self.ptype(t, i + 1)
                e, i = self.pval(ety, t, i)
                v = (v, (ety, e))
            idx = [int(x) for x in t[i:] if re.fullmatch(r'\d+', x)]
            return Ins(dst, op, v, ty, idx)
        if op in ('insertelement', 'extractelement', 'shufflevector'):
            return Ins(dst, 'unsupported', None, None, op)
        raise ValueError('instruction? ' + ' '.join(t))
