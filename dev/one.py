"""one.py MUTANTS NAME PROP: apply one mutant to /tmp/m/x and time its proof."""
import importlib.util, sys, shutil, subprocess, time, os
sys.path.insert(0, '/verif/lib')
s = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
X = '/tmp/m/x'
if not os.path.exists(X):
    subprocess.run(['cp', '-a', '/repo', X])
for c in m.CRATE.split():
    shutil.rmtree(f'{X}/{c}'); shutil.copytree(f'/repo/{c}', f'{X}/{c}')
for e in m.M:
    if e[0] == sys.argv[2]:
        p = f'{X}/{m.ROOT}/{e[1]}'; t = open(p).read()
        for o, n in [(e[2], e[3])] + list(e[5:]):
            assert o in t, o
            t = t.replace(o, n, 1)
        open(p, 'w').write(t)
import check
check.REPO = X
u = check.unit_of(sys.argv[3]); p = check.Proof(u, '/tmp/p/w')
t0 = time.time(); p.go(); print('go %.1f' % (time.time() - t0)); print(p.broken, p.external, [(a, b, c[:100]) for a, b, c, d in p.failed])
for r in p.runs: print(r)
for n, e in sorted(p.result.functions.items(), key=lambda x: -x[1]['time_us'])[:6]: print(n, e)
t0 = time.time(); v = check.Proof(u, '/tmp/p/w').vacuity(); print('vacuity %.1f' % (time.time() - t0), v['checked'], v['accepted'][:3], v.get('note'))
