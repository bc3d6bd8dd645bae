#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

Exit 0: it held (KNOWN-FINDING lines for the listed findings); exit 1 with a VIOLATION line: it is broken."""
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import verusrun  # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
UNITS = ['codecs', 'derive', 'tokenizer', 'parser', 'resolver']
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0')


def unit_of(prop):
    for u in UNITS:
        if not os.path.exists(os.path.join(HERE, 'lib', 'units', u + '.py')):
            continue
        m = importlib.import_module('units.' + u)
        if prop in m.Unit.props:
            return m.Unit()
    raise SystemExit(f'no unit decides {prop}')


def kind_of(msg):
    if 'condition of closure' in msg:
        return 'closure'
    if 'postcondition' in msg:
        return 'postcondition'
    if 'precondition' in msg:
        return 'precondition'
    if 'overflow' in msg or 'division by zero' in msg or 'underflow' in msg:
        return 'arithmetic'
    if 'decreases' in msg or 'terminat' in msg:
        return 'termination'
    if 'invariant' in msg and 'before loop' in msg:
        return 'entry'
    if 'invariant' in msg:
        return 'invariant'
    if 'rlimit' in msg or 'Resource limit' in msg:
        return 'rlimit'
    if 'assertion' in msg:
        return 'assertion'
    return 'other'


# arithmetic the solver does not decide unprompted
HARD = {'leading_zeros', 'leading_ones', 'trailing_zeros', 'trailing_ones', 'count_ones', 'count_zeros', 'ilog2', 'ilog10', 'ilog', 'pow',
        'rotate_left', 'rotate_right', 'swap_bytes', 'reverse_bits', 'div_ceil', 'next_multiple_of', 'next_power_of_two', 'isqrt',
        'rem_euclid', 'div_euclid'}


class Proof:
    """Generation and verification, with functions the verifier cannot take set aside one by one."""

    def __init__(self, unit, work):
        self.unit, self.work = unit, work
        self.external = {}     # function -> why its body was set aside
        self.failed = []       # (function, kind, clause, message)
        self.broken = None     # nothing could be verified at all
        self.runs = []
        self.result = None
        self.ex = None

    def once(self, tag, mark=None, extra=(), timeout=420):
        ex, pre, text = self.unit.generate(REPO, external=tuple(self.external), mark=mark)
        os.makedirs(self.work, exist_ok=True)
        f = os.path.join(self.work, f'{tag}.rs')
        open(f, 'w').write(text)
        r = verusrun.run(f, extra, timeout=timeout)
        self.rename(ex, r)
        return ex, pre, f, r

    @staticmethod
    def rename(ex, r):
        """The verifier names a method by where its type is defined; here it goes by where the method is."""
        names = {p for p, _, _, _ in ex.functions}
        tail = {}
        for n in r.functions:
            if n not in names:
                tail.setdefault(n.split('::')[-2:][0] + '::' + n.split('::')[-1], []).append(n)
        for p in sorted(names - set(r.functions)):
            c = tail.get('::'.join(p.split('::')[-2:]), [])
            if len(c) == 1 and c[0] in r.functions:
                r.functions[p] = r.functions.pop(c[0])

    def where(self, ex, pre, line):
        for p, a, b in ex.fn_lines(pre.count('\n')):
            if a <= line < b:
                return p
        return None

    def go(self):
        extra = []
        retried = False
        t0 = time.time()
        for n in range(24):
            if time.time() - t0 > 300:
                self.broken = 'out of time'
                return
            try:
                ex, pre, f, r = self.once(f'main{n}', extra=extra)
            except Exception as e:                                     # the extractor met what it cannot read
                self.broken = f'extraction: {e!r}\n{traceback.format_exc(limit=3)}'
                return
            self.ex, self.result, self.file, self.pre = ex, r, f, pre
            self.runs.append((r.cmd, r.wall, r.verified, r.errors))
            if r.ok:
                self.failed = []
                return
            fails, compile_ = [], not r.compiled
            for d in r.diags:
                k = kind_of(d['message'])
                loc = None
                for line, label, prim, txt in d['spans']:
                    if prim or 'at the end of the function' in label or 'return' in label:
                        loc = self.where(ex, pre, line) or loc
                if k == 'postcondition':
                    clause = [t for _, lb, p, t in d['spans'] if 'failed this postcondition' in lb] or [d['spans'][0][3]]
                    # the clause lies in the contract, which is spliced inside the function
                    for line, lb, p, t in d['spans']:
                        loc = self.where(ex, pre, line) or loc
                else:
                    clause = [t for _, lb, p, t in d['spans'] if p] or ['']
                fails.append((loc, k, clause[0].strip(), d['message']))
            if not compile_ and any(k == 'other' for _, k, _, _ in fails):
                compile_ = True
            if not compile_ and not fails:
                self.broken = 'the verifier gave no answer: ' + r.raw[-1500:]
                return
            if compile_:
                new = [(p, c, m) for p, k, c, m in fails if k == 'other' and p and p not in self.external]
                if not new:
                    self.broken = 'the generated file is refused: ' + r.raw[:3000]
                    return
                for p, c, m in new:
                    self.external[p] = f'outside the verifier: {m} ({c[:120]})'
                continue
            if not retried:      # once more, with another budget and other queries
                retried = True
                extra = list(getattr(self.unit, 'again', ('--rlimit', '60', '-V', 'spinoff-all')))
                continue
            self.failed = fails
            rl = {p for p, k, c, m in fails if k == 'rlimit' and p and p not in self.external}
            if rl:
                for p in rl:
                    self.external[p] = 'the solver ran out of resources'
                continue
            return
        self.broken = 'no stable set of verifiable functions'

    def vacuity(self):
        """assert(false) first in every contracted body: everything must be refused."""
        ex, pre, f, r = self.once('vacuity', mark='proof { assert(false); }')
        names = {p for p, _, _, c in ex.functions if c and p in ex.bodies and p not in ex.trusted and p not in self.external}
        if not r.compiled or not r.functions:
            return {'checked': 0, 'accepted': [], 'note': 'not run: ' + r.raw[:300]}
        bad = sorted(n for n in names if r.functions.get(n, {'success': True})['success'])
        return {'checked': len(names), 'accepted': bad}

    # ------------------------------------------------------------------ reading the outcome
    def cone(self, roots):
        """Functions reachable from `roots` by name."""
        by = {}
        for p in self.ex.bodies:
            by.setdefault(p.split('::')[-1], []).append(p)
        seen, todo = set(), [p for p in roots]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for s in set(self.ex.bodies.get(p, ())):
                todo += [q for q in by.get(s, ()) if q not in seen]
        return seen

    def murky(self, path):
        """Why a failure in `path` is not by itself evidence of a defect, or None."""
        ex = self.ex
        if path is None:
            return 'the failure is in the supporting lemmas'
        if path in self.external:
            return self.external[path]
        if path in ex.new_loops:
            return f'{path} has a loop without invariant'
        heads = getattr(self.unit, 'heads', {}).get(path)
        if heads is not None and heads != ex.heads.get(path):
            return f'{path} has a loop that goes through something else than the one its invariant was written for'
        if ex.unannotated.get(path):
            return f'{path} has a closure without contract'
        lost = [x for x in ex.lost if path in x]
        if lost:
            return lost[0]
        spec = {p for p, _, _, c in ex.functions if c}
        known = {p.split('::')[-1] for p in spec}
        body = ex.bodies.get(path, ())
        old = getattr(self.unit, 'plain', ())        # without contract when the contracts of their callers were written
        for p, _, _, c in ex.functions:
            n = p.split('::')[-1]
            if not c and n not in known and n in body and p not in ex.contracts and p not in old:
                return f'{path} uses {p}, which has no contract'
        for p in self.external:
            if p.split('::')[-1] in body and p not in ex.trusted:
                return f'{path} uses {p}, which could not be verified'
        for s in HARD & set(body):
            if s not in getattr(self.unit, 'covered', {}).get(path, ()):
                return f'{path} uses `{s}`, for which its proof has no lemma'
        for i, s in enumerate(body):
            if s in ('&', '|', '^', '<<', '>>', '&=', '|=', '^=', '<<=', '>>='):
                for n in body[i - 1:i + 2:2]:
                    if n[:1].isdigit() and literal(n) not in self.literals():
                        return f'{path} has the bit operation `{" ".join(body[i - 1:i + 2])}`, for which there is no lemma'
        return None

    def literals(self):
        if not hasattr(self, '_lit'):
            text = self.pre + ''.join(c.begin + c.spec + ''.join(c.loops.values()) for c in self.ex.contracts.values())
            self._lit = {literal(x) for x in re.findall(r'\b\d\w*', text)}
        return self._lit


def literal(s):
    s = re.sub(r'(_?[iu](8|16|32|64|128|size))$', '', s.replace('_', '') if not s.startswith('0x') else s)
    try:
        return int(s.replace('_', ''), 0)
    except ValueError:
        return s


def build_harness(unit):
    d = os.path.join(HERE, 'harness', unit.harness)
    tgt = os.path.join(HERE, 'target', unit.binary)
    env = dict(ENV, CARGO_TARGET_DIR=tgt)
    if REPO != '/repo':       # development only: the same crate against another checkout
        alt = os.path.join(HERE, 'target', 'alt', os.path.basename(REPO), unit.harness)
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(d, alt)
        for root, _, files in os.walk(alt):
            for x in files:
                if x == 'Cargo.toml':
                    p = os.path.join(root, x)
                    s = open(p).read().replace('/repo/', REPO + '/')
                    open(p, 'w').write(s)
        d = alt
        env['CARGO_TARGET_DIR'] = tgt + '-alt-' + os.path.basename(REPO)
        tgt = env['CARGO_TARGET_DIR']
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr
    return os.path.join(tgt, 'debug', unit.binary), ''


def run_bin(args, timeout, env=None):
    env = dict(env or {}, H_REPO=REPO)
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'x', *args], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=timeout, env=dict(ENV, **(env or {})), errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


class Concrete:
    def __init__(self):
        self.cases = self.ok = 0
        self.samples = []
        self.found = None      # (case, why)
        self.note = ''

    def search(self, binary, prop, seed, secs, work):
        rc, out = run_bin([binary, 'search', prop, str(seed), str(secs)], secs + 120)
        self.read(out)
        if rc not in (0, 1, 3):
            # it died: run again, recording each case
            tr = os.path.join(work, 'trace')
            rc2, out2 = run_bin([binary, 'search', prop, str(seed), str(secs * 4)], secs * 4 + 120, {'H_TRACE': tr})
            self.read(out2)
            if rc2 not in (0, 1, 3) and os.path.exists(tr):
                t = dict(x.split(': ', 1) for x in open(tr).read().splitlines() if ': ' in x)
                if prop in t.get('props', '').split():
                    self.found = (t['case'], f'the process died ({"timeout" if rc2 is None else rc2})')
                else:
                    self.note = f'the search died on {t.get("case")}'
            else:
                self.note = f'the search ended with {rc}'
        elif rc == 3:
            self.note = next((x for x in out.splitlines() if x.startswith('HANG')), 'hang')

    def read(self, out):
        case = why = None
        for x in out.splitlines():
            if x.startswith('SAMPLE ') and len(self.samples) < 5:
                self.samples.append(x[7:])
            elif x.startswith('CASES '):
                a = x.split()
                self.cases += int(a[1])
                self.ok += int(a[2])
            elif x.startswith('FOUND '):
                case = x[6:]
            elif x.startswith('WHY '):
                why = x[4:]
        if case is not None:
            self.found = (case, why or '')


def known_findings(prop):
    r = []
    f = os.path.join(HERE, 'known-findings.txt')
    for line in open(f) if os.path.exists(f) else ():
        m = re.match(r'finding: property=(\S+) case=(.*?) \| (.*)', line.strip())
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3)))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    unit = unit_of(prop)
    work = os.path.join(HERE, 'target', 'work', f'{prop}.{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay_dir = os.path.join(HERE, 'evidence' if REPO == '/repo' else 'target/evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, prop + '.txt')
    if os.path.exists(replay):
        os.remove(replay)

    proof = Proof(unit, work)
    deps = [Proof(importlib.import_module('units.' + d).Unit(), os.path.join(work, d)) for d in getattr(unit, 'deps', ())]
    conc = Concrete()
    shim_line = ''
    vac = {'checked': 0, 'accepted': []}
    with cf.ThreadPoolExecutor(6) as pool:
        runs = [(p, pool.submit(p.go)) for p in [proof] + deps]
        fv = pool.submit(Proof(unit, work).vacuity)
        fb = pool.submit(build_harness, unit)
        binary, berr = fb.result()
        if binary:
            if getattr(unit, 'shim', False):
                _, out = run_bin([binary, 'shim', str(seed)], 120)
                shim_line = out.strip().splitlines()[-1] if out.strip() else 'no answer'
            conc.search(binary, prop, seed, 5 if tier == 'quick' else 240, work)
        else:
            conc.note = 'the harness does not build: ' + berr[-1500:]
            refused = getattr(unit, 'refused', None)
            if refused:
                conc.found = refused(prop, REPO, berr)
        for p, f in runs:
            try:
                f.result()
            except Exception:
                p.broken = traceback.format_exc(limit=5)
        try:
            vac = fv.result()
        except Exception as e:
            vac = {'checked': 0, 'accepted': [], 'note': repr(e)}

    own, theorems = unit.own(prop)
    ob, ok, us = [], [], 0
    undecided, blamed = [], []
    under, without = set(), set()
    cone = set()
    for pr in [proof] + deps:
        if pr.ex is None or pr.result is None or pr.broken:
            undecided.append(pr.broken or 'no proof attempt')
            continue
        main_ = pr is proof
        names = {p for p, _, _, c in pr.ex.functions}
        contracted = {p for p, _, _, c in pr.ex.functions if c}
        roots = own if main_ else sorted(x for x in cone if x in names)
        here = pr.cone(roots)
        if main_:
            cone = here
        taken = getattr(unit, 'elsewhere', lambda n: False)     # contracts another unit discharges
        for n, e in pr.result.functions.items():
            if n in here or n not in names and (e['mode'] == 'proof' or e['mode'] == 'spec'):
                if main_ and taken(n):
                    continue
                if not n.split('::')[-1].startswith('theorem_') or n.split('::')[-1] in theorems:
                    ob.append(n)
                    us += e['time_us']
                    if e['success']:
                        ok.append(n)
        if main_:
            for p in own:
                if p not in names:
                    undecided.append(f'{p}: not in the tree')
        for p in sorted(here & contracted):
            if not (main_ and taken(p)):
                under.add(p)
            if p in pr.external:
                undecided.append(f'{p}: {pr.external[p]}')
        without |= {p for p in here & names if p not in contracted}
        for (p, k, c, m) in pr.failed:
            if p is None:
                undecided.append(f'supporting proof: {m}: {c[:160]}')
                continue
            if p not in contracted:
                if p in here:
                    undecided.append(f'{p}: no contract; {m}')
                continue
            why = pr.murky(p) or ('the contract of a closure in it does not fit the code' if any(a == p and b == 'closure' for a, b, _, _ in pr.failed) else None)
            if why is None and prop in unit.blame(p, k, c):
                blamed.append((p, k, c, m))
            elif p in here:
                undecided.append(f'{p}: {m}: {c[:160]}' + (f' (not counted against the code: {why})' if why else ''))

    if (blamed or undecided) and binary and not conc.found:
        conc.search(binary, prop, seed + 1000, 45 if tier == 'quick' else 400, work)
    findings = known_findings(prop)
    status, lines = 0, []
    if conc.found and not any(conc.found[0] == c for c, _ in findings):
        case, why = conc.found
        open(replay, 'w').write(
            f'property: {prop}\ncase: {case}\nwhy: {why}\nreplay with: {binary} replay {replay}\n'
            + ''.join(f'failed obligation: {p}: {m}: {c}\n' for p, k, c, m in blamed))
        lines.append(f'VIOLATION property={prop} replay={replay}')
        status = 1
    elif blamed:
        open(replay, 'w').write(
            f'property: {prop}\n' + ''.join(f'failed obligation: {p}: {m}: {c}\n' for p, k, c, m in blamed)
            + f'no failing input found in {conc.cases} cases\n\n' + ''.join(f'verifier: {p.result.cmd}\n{p.result.raw}\n' for p in [proof] + deps if p.result))
        lines.append(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
        status = 1
    for c, what in findings:
        lines.append(f'KNOWN-FINDING: property={prop} {what}')

    ex = proof.ex
    clean = not undecided and not blamed
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(ob), 'discharged': len(ok),
            'checker_cmd': proof.result.cmd if proof.result else '',
            'trusted_base': ['Verus ' + version(), 'Z3 as shipped with Verus', 'the extractor lib/vx.py, lib/rustlex.py',
                             *getattr(unit, 'trusted_base', ())],
            'decided_by': 'proof' if clean else 'bounded concrete search (see undecided)',
            'functions_under_contract': sorted(under),
            'functions_without_contract_in_cone': sorted(without),
            'whole_unit': {p.unit.name: {'verified': p.result.verified, 'errors': p.result.errors} for p in [proof] + deps if p.result},
            'solver_ms': round(us / 1000), 'verifier_runs': [{'unit': p.unit.name, 'cmd': a, 'wall_s': round(b, 1), 'verified': v, 'errors': e} for p in [proof] + deps for a, b, v, e in p.runs],
            'failed_obligations': [f'{p}: {m}: {c[:200]}' for p, k, c, m in blamed],
            'undecided': undecided,
            'external_bodies': sorted(x for p in [proof] + deps if p.ex for x in set(p.ex.trusted) | set(p.external)
                                      if not (p is proof and getattr(unit, 'elsewhere', lambda n: False)(x) and x not in p.external)),
            'extraction': {'dropped': ex.dropped, 'rewrites': ex.rewrites, 'lost_anchors': ex.lost} if ex else {},
            'vacuity': vac, 'assumed_contracts_compared': shim_line,
            'concrete': {'cases': conc.cases, 'accepting_cases': conc.ok, 'samples': conc.samples, 'note': conc.note},
        },
        'assumptions': list(unit.assumptions),
        'wall_s': round(time.time() - t0, 1), 'violations': status,
    }
    extra = getattr(unit, 'evidence', None)
    if extra:
        ev['coverage'].update(extra(prop))
    json.dump(ev, open(os.path.join(os.path.dirname(replay_dir), prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print(f'{prop}: {len(ok)}/{len(ob)} obligations discharged, {conc.cases} concrete cases, vacuity {vac["checked"]} checked '
          f'{len(vac["accepted"])} accepted, {shim_line or "no shim"}, {time.time() - t0:.0f} s')
    for u in undecided[:20]:
        print('  undecided:', u[:300])
    for p, k, c, m in blamed[:20]:
        print('  failed:', p, m, c[:200])
    if conc.found:
        print('  found:', conc.found[0][:300], '|', (conc.found[1] or '')[:300])
    for x in lines:
        print(x)
    sys.exit(status)


def version():
    try:
        return subprocess.run([verusrun.VERUS, '--version'], capture_output=True, text=True).stdout.split('Version:')[1].split()[0]
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
