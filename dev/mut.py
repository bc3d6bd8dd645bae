#!/usr/bin/env python3
"""Development: run the checks against small changes of the code (mut.py FILE.py [NAME...] [--all]); three at a time."""
import importlib.util, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ROOT = getattr(m, 'ROOT', 'codecs/src/aper')
CRATE = getattr(m, 'CRATE', 'codecs/src')
ALL = getattr(m, 'ALL', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'])
names = [a for a in sys.argv[2:] if not a.startswith('--')]
allp = '--all' in sys.argv
N = 3
free = queue.Queue()
for i in range(N):
    b = f'/tmp/m/r{i}'
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs('/tmp/m', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', b]); shutil.rmtree(b + '/target', ignore_errors=True)
    free.put(b)
def one(e):
    name, f, old, new, want = e[:5]
    base = free.get()
    out_ = []
    try:
        for c in CRATE.split():
            shutil.rmtree(f'{base}/{c}'); shutil.copytree(f'/repo/{c}', f'{base}/{c}')
        p = f'{base}/{ROOT}/{f}'
        s = open(p).read()
        for o, n in [(old, new)] + list(e[5:]):
            if o not in s: out_.append(f'{name} NO MATCH {o[:60]}'); break
            s = s.replace(o, n, 1)
        else:
            open(p, 'w').write(s)
            out_.append(f'== {name} expected {want}')
            ps = want if want and not allp else ALL
            for q in ps:
                r = subprocess.run(['python3', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib/check.py'), q], env=dict(os.environ, VP_REPO=base), capture_output=True, text=True)
                out = r.stdout.strip().splitlines()
                v = [x for x in out if x.startswith('VIOLATION')]
                d = [x for x in out if x.startswith('  ')]
                bad = '' if (r.returncode == 1) == bool(want) else '   <<<<<<<<<<'
                out_.append(f'   {q} rc={r.returncode} {v[0][-40:] if v else ""} {out[0][-100:] if out else r.stderr[-500:]}{bad}')
                for k in ('undecided', 'failed', 'found'):
                    for x in [x for x in d if x.startswith('  ' + k)][:2]: out_.append('       ' + x[:250])
    finally:
        free.put(base)
    print('\n'.join(out_), flush=True)
with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, [e for e in m.M if not names or e[0] in names]))
