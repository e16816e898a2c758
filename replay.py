#!/opt/veriftools/pyvenv/bin/python
"""replay.py FILE: run the failing input of a replay file against the real code again"""
import os, sys, json, glob, importlib, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'vc', 'contracts')]
W = tempfile.mkdtemp(prefix='vc_work_')
os.environ['VC_WORK'] = W
M = os.getpid()
atexit.register(lambda: os.getpid() == M and shutil.rmtree(W, ignore_errors=True))
import contract as C, conc
for f in sorted(glob.glob(os.path.join(HERE, 'vc', 'contracts', '*.py'))):
    importlib.import_module(os.path.basename(f)[:-3])
d = json.load(open(sys.argv[1]))
x = d.get('failing_input')
if not x:
    print('no failing input recorded; failed obligations:')
    print(json.dumps(d.get('failed_obligations'), indent=1))
    sys.exit(2)
for k in C.REG[x['function']]:
    if x['variant'] in k.variants:
        r, c = conc.run_one(k, x['config'], x['variant'], x['seed'], x['consts'])
        print('inputs:', c.chosen)
        print('differences:', r)
        sys.exit(1 if r else 0)
