#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]   decide one property from /repo's current sources"""
import os, sys, time, json, shutil, tempfile, glob, traceback, atexit, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'vc', 'contracts')]
sys.setrecursionlimit(20000)
W = tempfile.mkdtemp(prefix='vc_work_')
os.environ['VC_WORK'] = W
MAIN = os.getpid()
atexit.register(lambda: os.getpid() == MAIN and shutil.rmtree(W, ignore_errors=True))
import importlib
import multiprocessing as mp
import terms, solver, execu, memory, frontend
import contract as C
import conc, lemma

PROVED, BOUNDED, FAILED, SKIP, TRUSTED = 'proved', 'bounded', 'failed', 'skipped', 'trusted'


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'vc', 'contracts', '*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def known():
    """known_findings.txt: lines 'KNOWN-FINDING property=P func=F config=C variant=V obligation=... : text'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                head, _, txt = l[8:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split())
                d['text'] = txt
                out.append(d)
    return out


def job(a):
    """one (contract, configuration, variant)"""
    k, cfg, variant, tier, seed = a
    t0 = time.time()
    r = dict(func=k.func, file=k.file, cfg=cfg, variant=variant, obls=[], status=None, note='', samples=0, fail=None, called=[], inlined=[], z3=0, z3n=0)
    z0 = dict(solver.stats)
    thorough = tier == 'thorough'
    err = None
    res = None
    if k.bounded:
        err = k.bounded
        r['missing'] = k.func not in frontend.module(cfg, k.file).funcs
    elif not k.trusted:
        # the proofs of a quick run share a budget; what is left over when it ends is compared on samples
        left = DEADLINE - time.time()
        res = C.verify(k, cfg, variant, timeout=max(2, min(left, (900 if thorough else 240) if not k.opts.get('timeout') else k.opts['timeout'])))
        err = res.error
        r['obls'] = [(n, bool(o), (d or '')[:1500]) for n, o, d in res.obls]
        r['called'] = sorted(res.called)
        r['inlined'] = sorted(res.inlined)
        r['missing'] = res.missing
        if err and 'signature changed' in err:
            r['missing'] = True
    r['z3'] = solver.stats['z3_time'] - z0['z3_time']
    r['z3n'] = solver.stats['z3_calls'] - z0['z3_calls']
    failed = [o for o in r['obls'] if not o[1]]
    try:
        if r.get('missing'):
            r['status'], r['note'] = SKIP, err or 'function not found'
            return r
        consts = set()
        if failed or err:
            consts = constants(k, cfg)
        n = k.samples and (k.samples if not (failed or err or k.trusted) else (600 if thorough else 250))
        if k.trusted and n:
            n = 400 if thorough else 60
        elif thorough and n and not (failed or err):
            n = 60
        if n and cfg != 'mpi':
            try:
                r['samples'], r['fail'] = conc.search(k, cfg, variant, n, seed, sorted(consts), budget=(180 if thorough else 45 if time.time() < DEADLINE else 15) if (failed or err) else (30 if thorough else 6))
            except conc.CannotRun as e:
                r['note'] = 'not replayed: %s' % e
        if r['fail']:
            r['status'] = FAILED
        elif k.trusted:
            r['status'] = TRUSTED
        elif failed:
            r['status'] = FAILED
        elif err:
            r['status'], r['note'] = BOUNDED, ('' if r['samples'] else 'NOT DECIDED (no sample run either) ') + (r['note'] + ' ' + err).strip()
        else:
            r['status'] = PROVED
    except Exception as e:
        r['note'] = 'internal: ' + traceback.format_exc()[-600:]
        r['status'] = FAILED if failed else BOUNDED if err else (TRUSTED if k.trusted else PROVED)
    r['time'] = time.time() - t0
    return r


def constants(k, cfg):
    """numeric constants of the function, to steer the sampling"""
    import re
    out = set()
    try:
        mod = frontend.module(cfg, k.file)
        fn = mod.funcs[k.func]
        for b in fn.order:
            for ins in fn.blocks[b].ins:
                for m in re.finditer(r"\('(?:fp|int)', '?(-?[\d.eE+-]+)'?\)", repr(ins.args) + repr(getattr(ins, 'x', ''))):
                    try:
                        v = float(m.group(1))
                        if abs(v) < 1e6:
                            out |= {v, v + 1, v - 1}
                    except ValueError:
                        pass
    except Exception:
        pass
    return out


CALLEES = set()


def with_callees(ks):
    """the contracts of everything the functions of ks call, directly or through functions without a contract"""
    import re
    ks = list(ks)
    have = {id(k) for k in ks}
    for cfg in sorted({c for k in ks for c in k.cfgs}):
        try:
            idx = C.func_index(cfg)
        except frontend.FrontendError:
            continue
        bodies = {}

        def calls(f, file):
            if file not in bodies:
                d = bodies[file] = {}
                try:
                    t = open(frontend.ir_path(cfg, file)).read()
                except frontend.FrontendError:
                    t = ''
                for m in re.finditer(r'^define[^\n]*@([\w.]+)\(.*?^}', t, re.S | re.M):
                    d[m.group(1)] = set(re.findall(r'\bcall\b[^\n]*?@([\w.]+)\(', m.group(0)))
            return bodies[file].get(f)
        # a function that a contract models as an external of its own is not followed from there
        work = [(k.func, k.file, frozenset(k.opts.get('externals', ()))) for k in ks if cfg in k.cfgs and not k.trusted and k.file]
        seen = set(work)
        while work:
            f, file, skip = work.pop()
            cs = calls(f, file)
            if cs is None:
                file = idx.get(f)
                cs = (calls(f, file) if file else None) or set()
            for g in sorted(cs - skip):
                hs = [k for k in C.REG.get(g, ()) if cfg in k.cfgs]
                for k in hs:
                    if id(k) not in have:
                        have.add(id(k))
                        ks.append(k)
                g2 = (g, file if g in bodies.get(file, {}) else idx.get(g), frozenset(x for k in hs for x in k.opts.get('externals', ())) if hs else skip)
                if g2[1] and g2 not in seen and not any(k.trusted for k in hs):
                    seen.add(g2)
                    work.append(g2)
    return ks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    load()
    ks = [k for l in C.REG.values() for k in l if pid in k.props]
    only = os.environ.get('VC_ONLY')
    if only:
        ks = [k for k in ks if k.func in only.split(',')]
    if not only:
        direct = {k.func for k in ks}
        ks = with_callees(ks)
        CALLEES.update({k.func for k in ks} - direct)
    lems = [l for l in lemma.LEMMAS if pid in l.props and not only]
    if not ks and not lems:
        print('nothing to check for %s' % pid)
        return 2
    cfgs = sorted({c for k in ks for c in k.cfgs} | {c for l in lems for c in l.cfgs})
    try:
        for cfg in cfgs:
            C.func_index(cfg)
            for k in ks:
                if cfg in k.cfgs and k.file:
                    frontend.module(cfg, k.file)
    except frontend.FrontendError as e:
        print('cannot translate the sources: %s' % str(e)[-1500:])
        return 2
    for cfg in cfgs:
        for f in sorted({k.file for k in ks if cfg in k.cfgs and k.file and cfg != 'mpi' and k.samples}):
            try:
                conc.prebuild(cfg, f)
            except Exception as e:
                pass
    jobs = [(k, cfg, v, tier, seed) for k in ks for cfg in k.cfgs for v in k.variants]
    jobs.sort(key=lambda j: -j[0].opts.get('cost', 1))
    global JOBS, LEMS
    JOBS = jobs
    LEMS = lems
    results = []
    lres = []
    n = min(8, max(1, len(jobs)))
    ctx = mp.get_context('fork')
    limit = float(os.environ.get('VC_LIMIT', 780 if tier == 'quick' else 6 * 3600))
    global DEADLINE
    DEADLINE = t0 + limit * 0.6
    with ctx.Pool(n, maxtasksperchild=6) as pool:
        hs = [(i, pool.apply_async(run_i, (i,))) for i in range(len(jobs))]
        ls = [(i, pool.apply_async(run_l, (i,))) for i in range(len(lems))]
        for i, h in hs:
            k, cfg, v, _, _ = jobs[i]
            try:
                results.append(h.get(max(1, limit - (time.time() - t0))))
            except mp.TimeoutError:
                results.append(dict(func=k.func, file=k.file, cfg=cfg, variant=v, obls=[], status=BOUNDED, note='time limit', samples=0, fail=None,
                                    called=[], inlined=[], z3=0, z3n=0, time=0))
        for i, h in ls:
            try:
                lres.append(h.get(max(1, limit - (time.time() - t0))))
            except mp.TimeoutError:
                lres.append(dict(name=lems[i].name, obls=[], note='time limit'))
        pool.terminate()
    return report(pid, tier, seed, ks, results, lres, t0)


def run_i(i):
    return job(JOBS[i])


def run_l(i):
    l = LEMS[i]
    return lemma.run(l)


def label(r):
    v = ','.join('%s=%s' % kv for kv in r['variant'].items())
    return '%s[%s%s]' % (r['func'], r['cfg'], ';' + v if v else '')


def report(pid, tier, seed, ks, results, lres, t0):
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', pid + '_*')):
        os.remove(f)
    kf = known()
    viol = []
    nviol = 0
    lines = []
    seenk = set()

    def write(name, d):
        p = os.path.join(HERE, 'evidence', 'replay', '%s_%s.json' % (pid, name))
        json.dump(d, open(p, 'w'), indent=1, default=str)
        return p
    groups = {}
    for r in results:
        if r['status'] != FAILED:
            continue
        m = [x for x in kf if x.get('property') == pid and x.get('func') == r['func'] and x.get('config', r['cfg']) == r['cfg']
             and x.get('variant', '') in ('', ','.join('%s=%s' % q for q in r['variant'].items()))]
        if m:
            r['known'] = True
            t = 'KNOWN-FINDING: property=%s %s' % (pid, m[0]['text'])
            if t not in seenk:
                seenk.add(t)
                lines.append(t)
            continue
        groups.setdefault(r['func'], []).append(r)
    for f, rs in groups.items():
        rs.sort(key=lambda r: r['fail'] is None)
        r = rs[0]
        bad = [o for o in r['obls'] if not o[1]]
        p = write(f, dict(property=pid, function=f, file=r['file'], config=r['cfg'], variant=r['variant'],
                          failed_obligations=[dict(name=o[0], detail=o[2]) for o in bad], note=r['note'],
                          failing_input=r['fail'],
                          how_to_replay='VC_REPLAY: python3-vt /verif/replay.py %s' % ('<this file>'),
                          also_failing=[label(x) for x in rs[1:]]))
        nviol += 1
        lines.append('%s: %s' % (label(r), ('real code disagrees with the contract: ' + '; '.join(r['fail']['differences'][:2])) if r['fail'] else 'obligation "%s" is not discharged' % (bad[0][0] if bad else '?')))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, p, '' if r['fail'] else ' no-failing-input-found'))
    for l in lres:
        bad = [o for o in l['obls'] if not o[1]]
        if bad:
            p = write('lemma_' + l['name'], dict(property=pid, lemma=l['name'], failed_obligations=bad))
            nviol += 1
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    live = [r for r in results if not r.get('known')]
    # a contract not decided by proof counts nothing
    proved = [r for r in live if r['status'] == PROVED]
    counted = [r for r in live if r['status'] in (PROVED, FAILED)]
    obl = sum(len(r['obls']) for r in counted) + sum(len(l['obls']) for l in lres)
    dis = sum(sum(1 for o in r['obls'] if o[1]) for r in counted) + sum(sum(1 for o in l['obls'] if o[1]) for l in lres)
    mine = {k.func for k in ks}
    used = set()
    for r in live:
        used |= set(r['called'])
    ext = sorted(u for u in used if u in C.EXTERNALS)
    elsewhere = sorted(u for u in used if u not in mine and u not in C.EXTERNALS)
    trusted = sorted({r['func'] for r in live if r['status'] == TRUSTED})
    bounded = sorted({label(r) + (': ' + r['note'][:160] if r['note'] else '') for r in live if r['status'] == BOUNDED})
    skipped = sorted({label(r) + ': ' + r['note'][:120] for r in live if r['status'] == SKIP})
    assumptions = ['double arithmetic is treated as exact real arithmetic, int as unbounded integers; pointers to distinct objects are distinct',
                   'the translation C -> LLVM IR (clang 18 -O0, then sroa/instcombine/loop-simplify) is trusted']
    if ext:
        assumptions.append('assumed contracts of external or library functions: ' + ', '.join(ext))
    if trusted:
        assumptions.append('assumed (tested on samples, not proved): ' + ', '.join(trusted))
    if elsewhere:
        assumptions.append('callee contracts verified by another property\'s check: ' + ', '.join(elsewhere))
    if bounded:
        assumptions.append('bounded only (compared with the contract on samples of the real code; not counted as proved): ' + '; '.join(bounded))
    if skipped:
        assumptions.append('skipped: ' + '; '.join(skipped))
    vac = sorted({label(r) for r in live if r['status'] == PROVED and not r['obls']})
    if vac:
        assumptions.append('no obligation generated (frame only): ' + ', '.join(vac))
    cov = dict(obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
               trusted_base=['/verif/vc (verification-condition generator: IR symbolic execution, loop summaries, canonical sums)', 'z3 4.x (linear/non-linear integer side conditions)',
                             'clang-18/opt-18 front end'] + (['assumed contracts: ' + ', '.join(ext)] if ext else []),
               functions_under_contract=sorted(mine), of_which_callees=sorted(CALLEES), proved=[label(r) for r in proved],
               bounded=bounded, lemmas=[l['name'] for l in lres], inlined=sorted({x for r in live for x in r['inlined']})[:80],
               evaluations=sum(r['samples'] for r in live), back_end='polynomial/array normaliser; z3 for %d queries' % sum(r['z3n'] for r in live),
               solver_time_s=round(sum(r['z3'] for r in live), 2),
               verification_time_s=round(sum(r.get('time', 0) for r in live), 2))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    if os.environ.get('VC_VERBOSE'):
        for r in results:
            print('   %-8s %s obls=%d samples=%d %.1fs %s' % (r['status'], label(r), len(r['obls']), r['samples'], r.get('time', 0), r['note'][:200]))
    print('%s: %d functions, %d/%d obligations discharged, %d proved, %d bounded, %d trusted, %d skipped, %d samples, %.1fs' % (
        pid, len(mine), dis, obl, len(proved), len([r for r in live if r['status'] == BOUNDED]), len(trusted), len(skipped), cov['evaluations'], time.time() - t0))
    return 1 if nviol else 0


if __name__ == '__main__':
    sys.exit(main())
