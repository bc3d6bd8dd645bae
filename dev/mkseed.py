#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from dev/seeds_*.py: the patch against /repo's HEAD, the demonstration and meta.json."""
import importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with cwd /repo.  Exit 0 when the property holds on this input, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'chmod -R u+w "$tmp"; /bin/rm -r "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$here/input.asn" ] && cp "$here/input.asn" "$tmp/"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null || cp "$here/Cargo.lock.in" "$tmp/Cargo.lock"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> "$tmp/build.log"
rc=$?
if [ $rc -ne 0 ]; then tail -40 "$tmp/build.log"; @BUILDFAIL@; fi
timeout 120 "$tmp/target/debug/demo" 2> "$tmp/err.log"
rc=$?
[ $rc -eq 0 ] || { tail -5 "$tmp/err.log"; exit 1; }
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[profile.dev]
debug = 0
'''
DEPS = {'codecs': 'asn1-codecs = { path = "@REPO@/codecs" }', 'derive': 'asn1_codecs_derive = { path = "@REPO@/codecs_derive" }',
        'compiler': 'asn1-compiler = { path = "@REPO@/asn-compiler" }', 'bitvec': 'bitvec = "1.0"', 'log': 'log = "0.4"'}
def main():
    W = '/tmp/seedwork'
    for f in sys.argv[1:]:
        if not f.endswith('.py'): continue
        sp = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
            d = os.path.join(H, 'seeded', s['id'])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
            subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
            subprocess.run(f'git -C /repo archive HEAD | tar -x -C {W}', shell=True, check=True)
            subprocess.run('git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', shell=True, check=True, cwd=W)
            for (p, o, n) in s['edits']:
                t = open(f'{W}/{p}').read()
                assert t.count(o) == 1, (s['id'], p, t.count(o), o)
                open(f'{W}/{p}', 'w').write(t.replace(o, n))
            open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True, check=True).stdout)
            demo = DEMO.replace('@BUILDFAIL@', 'exit 1')
            open(f'{d}/demo.sh', 'w').write(demo); os.chmod(f'{d}/demo.sh', 0o755)
            open(f'{d}/main.rs', 'w').write(s['main'])
            if 'asn' in s: open(f'{d}/input.asn', 'w').write(s['asn'])
            open(f'{d}/Cargo.toml.in', 'w').write(TOML % '\n'.join(DEPS[x] for x in s['deps']))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
            shutil.rmtree(W)
            print(s['id'])
main()
