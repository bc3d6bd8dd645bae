"""Run Verus on a generated file and read back what it says, function by function."""
import json
import os
import subprocess
import time

VERUS = os.environ.get('VERUS', 'verus')


class Result:
    def __init__(self):
        self.ok = False            # the verifier accepted everything
        self.compiled = False      # it got as far as generating obligations
        self.verified = 0
        self.errors = 0
        self.functions = {}        # function -> dict(mode, success, time_ms)
        self.diags = []            # errors: dict(message, spans=[(line, label, primary, text)])
        self.wall = 0.0
        self.solver_ms = 0
        self.cmd = ''
        self.raw = ''


def run(path, extra=(), timeout=600, mem_kb=16 * 1024 * 1024):
    r = Result()
    args = [VERUS, os.path.basename(path), '--output-json', '--time-expanded', '--multiple-errors', '12',
            *extra, '--', '--error-format=json']
    r.cmd = ' '.join(args)
    t = time.time()
    try:
        p = subprocess.run(['bash', '-c', f'ulimit -v {mem_kb}; exec "$@"', 'x', *args], cwd=os.path.dirname(path),
                           capture_output=True, text=True, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        r.raw = f'verus did not answer within {timeout} s'
        r.wall = time.time() - t
        return r
    r.wall = time.time() - t
    raw = []
    for line in err.splitlines():
        if not line.startswith('{'):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting due to'):
            continue
        raw.append(d.get('rendered') or d['message'])
        sp = []

        def spans(x):
            for q in x.get('spans', []):
                tx = q.get('text') or []
                if len(tx) == 1:
                    g = tx[0]
                    txt = g['text'][g['highlight_start'] - 1:g['highlight_end'] - 1]
                else:
                    txt = '\n'.join(g['text'] for g in tx).strip()
                sp.append((q['line_start'], q.get('label') or '', q.get('is_primary', False), txt))
            for ch in x.get('children', []):
                spans(ch)
        spans(d)
        r.diags.append({'message': d['message'], 'spans': sp, 'code': (d.get('code') or {}).get('code')})
    r.raw = '\n'.join(raw)
    try:
        j = json.loads(out[out.index('{'):])
    except ValueError:
        r.raw += '\n' + out[:2000] + err[-2000:]
        return r
    v = j.get('verification-results', {})
    r.verified, r.errors = v.get('verified', 0), v.get('errors', 0)
    r.compiled = bool(v) and not v.get('encountered-vir-error') and 'verified' in v
    r.ok = bool(v.get('success')) and r.compiled
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            name = f['function'].split('::', 1)[1]
            e = r.functions.setdefault(name, {'mode': f.get('mode:', ''), 'success': True, 'time_us': 0})
            e['success'] = e['success'] and f['success']
            e['time_us'] += f.get('time-micros', 0)
            r.solver_ms += f.get('time-micros', 0) / 1000
    if not r.compiled and not r.diags and not r.raw:
        r.raw = err[-4000:]
    return r
