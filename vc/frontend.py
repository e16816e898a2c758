"""/repo C sources -> LLVM IR -> Module, per build configuration."""
import os, subprocess, hashlib, re, tempfile, shutil
import irparse
import threading
_lock = threading.Lock()

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = os.path.join(os.path.dirname(HERE), 'gen')
WORK = os.environ.get('VC_WORK') or os.path.join(tempfile.gettempdir(), 'vc_work_%d' % os.getpid())

PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa)'


def work():
    os.makedirs(WORK, exist_ok=True)
    return WORK


def cfgdir(cfg):
    return os.path.join(GEN, cfg)


def sources():
    out = {}
    for d in ('src/util', 'src/matrices', 'src/matrixio', 'src/maxwell', 'mpb'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith('.c'):
                out[f] = os.path.join(REPO, d, f)
    out['mpb-data.c'] = os.path.join(REPO, 'utils', 'mpb-data.c')
    return out


def cflags(cfg, ctl=False):
    g = cfgdir(cfg)
    fl = ['-DHAVE_CONFIG_H', '-I' + g, '-I' + prep(cfg)]
    for d in ('src/util', 'src/matrices', 'src/matrixio', 'src/maxwell', 'mpb'):
        fl.append('-I%s/%s' % (REPO, d))
    fl.append('-I/usr/include/hdf5/serial')
    if cfg == 'mpi':
        fl += ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
    if ctl:
        fl += open(os.path.join(g, 'ctlflags')).read().split()
    return fl


def prep(cfg):
    """generated sources that depend on the current tree"""
    with _lock:
        return _prep(cfg)


def _prep(cfg):
    d = os.path.join(work(), 'prep_' + cfg)
    if os.path.exists(os.path.join(d, 'done')):
        return d
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(REPO, 'mpb/epsilon.c')).read()
    s = s.replace('epsilon', 'mu').replace('eps_inv', 'mu_inv')
    # mu.c as the Makefile makes it (perl -pe), regenerated from the current epsilon.c
    mk = open(os.path.join(REPO, 'mpb/Makefile.am')).read()
    open(os.path.join(d, 'mu.c'), 'w').write(s)
    sq = os.path.join(REPO, 'src/util/sphere-quad.c')
    exe = os.path.join(d, 'sphere-quad')
    subprocess.run(['gcc', '-O1', '-I' + cfgdir(cfg), '-DHAVE_CONFIG_H', '-I%s/src/util' % REPO, sq, '-o', exe, '-lm'],
                   check=True, stderr=subprocess.DEVNULL)
    with open(os.path.join(d, 'sphere-quad.h'), 'w') as f:
        subprocess.run([exe], check=True, stdout=f)
    open(os.path.join(d, 'done'), 'w').close()
    return d


class FrontendError(Exception):
    pass


_mods = {}


def ir_path(cfg, fname, defs=()):
    key = '%s_%s_%s' % (cfg, fname, hashlib.md5(' '.join(defs).encode()).hexdigest()[:6])
    out = os.path.join(work(), key + '.ll')
    if os.path.exists(out):
        return out
    if fname == 'mu.c':
        src = os.path.join(prep(cfg), 'mu.c')
        ctl = True
    else:
        src = sources()[fname]
        ctl = src.startswith((os.path.join(REPO, 'mpb') + '/', os.path.join(REPO, 'utils') + '/'))
    raw = out + '.%d.%d.raw' % (os.getpid(), threading.get_ident())
    cmd = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-S', '-emit-llvm', '-fPIC', '-w',
           '-fno-discard-value-names'] \
        + cflags(cfg, ctl) + list(defs) + [src, '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontendError('clang failed on %s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, raw, '-o', raw + '.tmp'], capture_output=True, text=True)
    if r.returncode:
        raise FrontendError('opt failed on %s: %s' % (src, r.stderr[-2000:]))
    os.unlink(raw)
    os.rename(raw + '.tmp', out)
    return out


def module(cfg, fname, defs=()):
    k = (cfg, fname, tuple(defs))
    if k not in _mods:
        _mods[k] = irparse.Module(open(ir_path(cfg, fname, defs)).read())
        _mods[k].cfg = cfg
        _mods[k].fname = fname
        _mods[k].fields = dwarf_fields(_mods[k])
    return _mods[k]


def dwarf_fields(mod):
    """struct/typedef name -> {field: (offset bytes, type meta id)}"""
    meta = mod.meta
    res = {}

    def attrs(s):
        d = {}
        for m in re.finditer(r'(\w+): (!\d+|"[^"]*"|[\w|]+)', s):
            d[m.group(1)] = m.group(2)
        return d
    comp = {}
    for i, s in meta.items():
        if 'DICompositeType' in s and 'DW_TAG_structure_type' in s:
            a = attrs(s)
            comp[i] = a
    names = {}
    for i, a in comp.items():
        if 'name' in a:
            names.setdefault(a['name'].strip('"'), i)
    for i, s in meta.items():
        if 'DIDerivedType' in s and 'DW_TAG_typedef' in s:
            a = attrs(s)
            b = a.get('baseType', '')
            if b.startswith('!') and int(b[1:]) in comp:
                names[a['name'].strip('"')] = int(b[1:])
    for nm, i in names.items():
        a = comp[i]
        if 'elements' not in a:
            continue
        els = re.findall(r'!(\d+)', meta.get(int(a['elements'][1:]), ''))
        fl = {}
        for e in els:
            s = meta.get(int(e), '')
            if 'DW_TAG_member' not in s:
                continue
            d = attrs(s)
            if 'name' not in d:
                continue
            fl[d['name'].strip('"')] = (int(d.get('offset', '0')) // 8, int(d['baseType'][1:]), int(d['size']) // 8)
        res[nm] = {'fields': fl, 'size': int(a.get('size', '0')) // 8}
    mod._attrs = attrs
    return res


def dwarf_kind(mod, tid):
    """kind of a DWARF type: ('d',)|('i',)|('l',)|('p', tid)|('s', name)|('a', tid, n)|('h',)"""
    seen = 0
    while seen < 40:
        seen += 1
        s = mod.meta[tid]
        a = mod._attrs(s)
        if 'DIBasicType' in s:
            sz = int(a.get('size', '0'))
            enc = a.get('encoding', '')
            if 'float' in enc:
                return ('d',) if sz == 64 else ('f',)
            return ({8: 'b', 16: 'h', 32: 'i', 64: 'l'}[sz],)
        if 'DW_TAG_enumeration_type' in s:
            return ('i',)
        if 'DW_TAG_pointer_type' in s:
            b = a.get('baseType')
            return ('p', int(b[1:]) if b and b.startswith('!') else None)
        if 'DW_TAG_structure_type' in s or 'DW_TAG_union_type' in s:
            return ('s', a.get('name', '""').strip('"'), tid)
        if 'DW_TAG_array_type' in s:
            els = re.findall(r'!(\d+)', mod.meta.get(int(a['elements'][1:]), ''))
            n = 1
            for e in els:
                m = re.search(r'count: (-?\d+)', mod.meta.get(int(e), ''))
                n *= int(m.group(1)) if m else 0
            return ('a', int(a['baseType'][1:]), n)
        b = a.get('baseType')
        if not b or not b.startswith('!'):
            return ('v',)
        if 'DW_TAG_typedef' in s:
            last = a.get('name', '').strip('"')
            nt = int(b[1:])
            if 'DICompositeType' in mod.meta[nt] and 'name:' not in mod.meta[nt] and 'DW_TAG_enumeration_type' not in mod.meta[nt]:
                return ('s', last, nt)
        tid = int(b[1:])
    return ('v',)
