"""Development: run the check of each planted bug's property against it (seedcheck.py [ID...])."""
import glob, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for g in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = g.split('/')[-2]
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    p = json.load(open(g))['property']
    b = '/tmp/sc_repo'
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {b} && cd {b} && git init -q . && git apply {H}/seeded/{i}/patch.diff', shell=True, check=True)
    r = subprocess.run(['python3', H + '/lib/check.py', p], env=dict(os.environ, VP_REPO=b), capture_output=True, text=True)
    out = r.stdout.splitlines()
    v = [x for x in out if x.startswith('VIOLATION')]
    print(i, p, r.returncode, 'no input' if v and 'no-failing' in v[0] else '', out[0][-110:] if out else r.stderr[-300:], flush=True)
shutil.rmtree('/tmp/sc_repo', ignore_errors=True)
