#!/usr/bin/env python3
"""newseed.py SPEC.py ...: SPEC defines ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO (C source or ctl), CFG, KIND; writes /verif/seeded/ID"""
import sys, os, subprocess, json
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/%(cfg)s
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%(body)s
'''
C = '''gcc -w -O1 -g -DHAVE_CONFIG_H -I$B -I$B/src -I$R/src -I$R/src/util -I$R/src/matrices -I$R/src/matrixio -I$R/src/maxwell -I$R/utils -I/usr/include/hdf5/serial \\
  "$D/demo.c" %(objs)s -o "$T/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lfftw3 -llapack -lblas -lm || exit 2
cd "$T" && OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 120 ./demo'''
OBJS = '$B/src/maxwell/*.o $B/src/matrixio/*.o $B/src/matrices/*.o $B/src/util/[dmv]*.o'
CTL = '''cp "$D"/demo.* "$T"/; cd "$T"
export GUILE_AUTO_COMPILE=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
timeout 250 $B/mpb/%(exe)s demo.ctl > out.txt 2>&1 || { tail -5 out.txt; exit 1; }
%(post)s'''
for f in sys.argv[1:]:
    g = dict(CFG='complex', KIND='c', POST='grep -q DEMO-OK out.txt || { tail -20 out.txt; exit 1; }', OBJS=OBJS)
    exec(open(f).read(), g)
    d = '/verif/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    edits = g.get('EDITS') or [(g['FILE'], g['OLD'], g['NEW'])]
    import tempfile
    w = tempfile.mkdtemp()
    out = ''
    byf = {}
    for (fn, o, n) in edits:
        s = byf.get(fn) or open('/repo/' + fn).read()
        assert s.count(o) == 1, (fn, o, s.count(o))
        byf[fn] = s.replace(o, n)
    for fn, s in byf.items():
        open(w + '/x', 'w').write(s)
        out += subprocess.run(['diff', '-u', '--label', 'a/' + fn, '--label', 'b/' + fn, '/repo/' + fn, w + '/x'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(out)
    cfg = g['CFG']
    if g['KIND'] == 'c':
        open(d + '/demo.c', 'w').write(g['DEMO'])
        body = C % dict(objs=g['OBJS'])
    else:
        open(d + '/demo.ctl', 'w').write(g['DEMO'])
        body = CTL % dict(exe='mpbi' if cfg == 'inv' else 'mpb', post=g['POST'])
    open(d + '/demo.sh', 'w').write(SH % dict(cfg=cfg, body=body))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
