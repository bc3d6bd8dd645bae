"""The code /repo/codecs_derive generates: the macro runs on the declarations of samples.py, and every
decode and encode it emits is verified, together with the codec functions it calls."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import rustlex
import samples
import vx
from units import codecs

HERE = codecs.HERE
DIR = os.path.join(HERE, 'contracts', 'derive')
PRELUDE = ['typespec.rs', 'typelemmas.rs']
BY = {s['name']: s for s in samples.SAMPLES + samples.MORE}
PARTS = 8       # modules the declarations are spread over, verified side by side
MOD = {s['name']: f'samples{i % PARTS}' for i, s in enumerate(samples.ordered())}
KIND = {'D01': {'INTEGER', 'ENUMERATED', 'BOOLEAN', 'NULL', 'BITSTRING', 'OCTET-STRING', 'PrintableString', 'VisibleString', 'UTF8String', 'OBJECT-IDENTIFIER'},
        'D02': {'SEQUENCE', 'SEQUENCE-OF'}, 'D03': {'CHOICE', 'OPEN'}}
VALUE = {'INTEGER': 'D01', 'CHOICE': 'D03', 'OPEN': 'D03', 'SEQUENCE': 'D02', 'SEQUENCE-OF': 'D02'}

_dump = {}


class Emitted(Exception):
    """The macro refuses a declaration."""


def dump(repo):
    """{declaration: the tokens the macro of `repo` emits for it}"""
    if repo in _dump:
        return _dump[repo]
    d = os.path.join(HERE, 'target', 'derive-dump' if repo == '/repo' else 'derive-dump-' + os.path.basename(repo))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if repo in _dump:
            return _dump[repo]
        m, s = os.path.join(d, 'macro'), os.path.join(d, 'samples')
        for x in (m, s):
            shutil.rmtree(x, ignore_errors=True)
        shutil.copytree(os.path.join(repo, 'codecs_derive', 'src'), os.path.join(m, 'src'))
        toml = open(os.path.join(repo, 'codecs_derive', 'Cargo.toml')).read()
        toml = toml.split('[dev-dependencies]')[0]
        toml = re.sub(r'(?m)^(asn1-codecs|bitvec)\s*=.*$', '', toml)
        toml = re.sub(r'(?m)^(license-file|readme|include)\s*=.*$', '', toml)
        open(os.path.join(m, 'Cargo.toml'), 'w').write(toml)
        lib = open(os.path.join(m, 'src', 'lib.rs')).read()
        e = re.search(r'#\[proc_macro_derive\(\s*AperCodec\b[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub\s+fn\s+(\w+)', lib)
        if not e:
            raise RuntimeError('no derive macro AperCodec')
        lib = re.sub(r'#\[proc_macro_derive\(\s*AperCodec\b[^\]]*\]', '', lib, count=1)
        lib = re.sub(r'\bpub\s+fn\s+%s\b' % e.group(1), 'fn ' + e.group(1), lib, count=1)
        lib += '''
#[proc_macro_derive(AperCodec, attributes(asn))]
pub fn vx_dump(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let name = input.to_string();
    let out = %s(input);
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("VX_DUMP").unwrap()).unwrap();
    write!(f, "@@INPUT {}\\n@@OUTPUT {}\\n@@END\\n", name, out).unwrap();
    proc_macro::TokenStream::new()
}
''' % e.group(1)
        open(os.path.join(m, 'src', 'lib.rs'), 'w').write(lib)
        os.makedirs(os.path.join(s, 'src'))
        open(os.path.join(s, 'src', 'lib.rs'), 'w').write(
            '#![allow(dead_code)]\npub struct BitVec<A, B>(A, B);\npub struct Msb0;\n' + samples.rust(samples.SAMPLES, 'asn1_codecs_derive::AperCodec'))
        open(os.path.join(s, 'Cargo.toml'), 'w').write(
            '[package]\nname = "vx-samples"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nasn1_codecs_derive = { path = "../macro" }\n[workspace]\n')
        out = os.path.join(d, 'out.txt')
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run(['cargo', 'check', '--offline'], cwd=s, capture_output=True, text=True,
                           env=dict(os.environ, CARGO_NET_OFFLINE='true', VX_DUMP=out, CARGO_TARGET_DIR=os.path.join(d, 'target')))
        # a dump must be of this run: the macro runs only when the crate is compiled
        if p.returncode == 0 and not os.path.exists(out):
            for x in glob.glob(os.path.join(d, 'target', '*', '.fingerprint', 'vx-samples-*')):
                shutil.rmtree(x)
            p = subprocess.run(['cargo', 'check', '--offline'], cwd=s, capture_output=True, text=True,
                               env=dict(os.environ, CARGO_NET_OFFLINE='true', VX_DUMP=out, CARGO_TARGET_DIR=os.path.join(d, 'target')))
        if p.returncode != 0:
            raise RuntimeError('the macro does not run on the declarations: ' + p.stderr[-2000:])
        r = {}
        for a, b in re.findall(r'@@INPUT (.*?)\n@@OUTPUT (.*?)\n@@END\n', open(out).read(), re.S):
            r[re.search(r'\b(?:struct|enum)\s+(\w+)', a).group(1)] = b
        _dump[repo] = r
        return r


# ---------------------------------------------------------------- ghost terms
OPAQUE = ('dec_len dec_len_small dec_index dec_integer dec_seq_header dec_sized dec_chars enc_len enc_integer enc_bitstring enc_octetstring '
          'enc_charstring enc_len_general appends writes').split()


def assumed(text):
    """The codec contracts' vocabulary: its lemmas are proved by the unit codecs, and its functions are names here."""
    text = re.sub(r'(?m)^(\s*)((?:pub )?(?:broadcast )?proof fn )', r'\1#[verifier::external_body] \2', text)
    return re.sub(r'(?m)^(\s*)(pub open spec fn (?:%s)\b)' % '|'.join(OPAQUE), r'\1#[verifier::opaque] \2', text)


def opt(x):
    return 'None' if x is None else f'Some({x}int)'


def b2(x):
    return 'true' if x else 'false'


def ty_term(s):
    k = s['kind']
    if k in ('BOOLEAN', 'NULL', 'OBJECT-IDENTIFIER'):
        return {'BOOLEAN': 'Ty::Bool', 'NULL': 'Ty::Null', 'OBJECT-IDENTIFIER': 'Ty::Oid'}[k]
    if k in ('INTEGER', 'ENUMERATED'):
        lo, hi = samples.RANGE[s['rust']]
        return f'Ty::{"Int" if k == "INTEGER" else "Enum"}({opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])}, {lo}int, {hi}int)'
    if k in ('BITSTRING', 'OCTET-STRING'):
        return f'Ty::{"Bits" if k == "BITSTRING" else "Octets"}({opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])})'
    if k == 'UTF8String':
        return 'Ty::Chars(None, None, false)'
    if k in samples.STR:
        return f'Ty::Chars({opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])})'
    if k == 'SEQUENCE-OF':
        return f'Ty::Of(Box::new(ty_{s["item"]}()), {opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])})'
    if k == 'SEQUENCE':
        t = 'Fields::Nil'
        for f in reversed(s['fields']):
            t = f'Fields::Cons(Box::new(ty_{f["ty"]}()), {opt(f["opt"])}, {b2(f["key"])}, Box::new({t}))'
        return f'Ty::Seq({b2(s["ext"])}, {s["nopt"]}int, {t})'
    t = 'Alts::Nil'
    for a in reversed(s['alts']):
        t = f'Alts::Cons(Box::new(ty_{a["ty"]}()), {a["key"]}int, {b2(a["extended"])}, Box::new({t}))'
    return f'Ty::Open({t})' if k == 'OPEN' else f'Ty::Choice({s["lb"]}int, {s["ub"]}int, {b2(s["ext"])}, {t})'


def val_term(s):
    k, n = s['kind'], s['name']
    if k in ('INTEGER', 'ENUMERATED'):
        return 'Val::Int(x.0 as int)'
    if k == 'BOOLEAN':
        return 'Val::Bool(x.0)'
    if k in ('NULL', 'OBJECT-IDENTIFIER'):
        return 'Val::Null'
    if k == 'BITSTRING':
        return 'Val::Bits(x.0@)'
    if k == 'OCTET-STRING':
        return 'Val::Octets(x.0@)'
    if k in samples.STR:
        return 'Val::Octets(str_bytes(x.0@))'
    if k == 'SEQUENCE-OF':
        return f'Val::List(vals_{n}(x.0@))'
    if k == 'SEQUENCE':
        t = 'Seq::<Val>::empty()'
        for f in s['fields']:
            e = f'val_{f["ty"]}(x.{f["name"]})' if f['opt'] is None else \
                f'(match x.{f["name"]} {{ Some(y) => val_{f["ty"]}(y), None => Val::Absent }})'
            t += f'.push({e})'
        return f'Val::Fields({t})'
    arms = ' '.join(f'{n}::{a["name"]}(y) => Val::Alt({i}int, Box::new(val_{a["ty"]}(y))),' for i, a in enumerate(s['alts']))
    return f'match x {{ {arms} }}'


def flat_dec(s):
    """What dec(ty_X, b, o, key) comes to, one level deep."""
    k, n = s['kind'], s['name']
    if k == 'SEQUENCE':
        fs = s['fields']
        acc = 'Seq::<Val>::empty()' + ''.join(f'.push(v{i})' for i in range(len(fs)))
        last = f'k{len(fs) - 1}' if fs else 'key'
        q = f'q{len(fs) - 1}' if fs else 'q'
        if fs and fs[-1]['key']:
            last = f'Some(v{len(fs) - 1}->Int_0)'
        t = f'Some((Val::Fields({acc}), {q}, {last}))'
        if s['ext']:
            t = f'dec_end(h.1, b, {t})'
        own = [None]
        for f in fs:
            own.append(f if f['key'] else own[-1])
        for i in reversed(range(len(fs))):
            f = fs[i]
            before = 'key' if i == 0 else (f'Some(v{i - 1}->Int_0)' if fs[i - 1]['key'] else f'k{i - 1}')
            o = own[i]
            now = f'Some(v{fs.index(o)}->Int_0)' if o and not f['key'] else before
            pres = 'true' if f['opt'] is None else f'h.0[{f["opt"]}]'
            t = f'match dec_opt(ty_{f["ty"]}(), {pres}, b, {"q" if i == 0 else f"q{i - 1}"}, {before}, {now}) {{ Some((v{i}, q{i}, k{i})) => {t}, None => None }}'
        return f'match dec_seq_header(b, o, {b2(s["ext"])}, {s["nopt"]}) {{ Some((h, q)) => {t}, None => None }}'
    if k in ('CHOICE', 'OPEN'):
        key = 'v.0' if k == 'CHOICE' else 'k'
        at = 'b, q, key' if k == 'CHOICE' else 's, 0, key'
        t = 'None'
        for i, a in reversed(list(enumerate(s['alts']))):
            t = f'if {key} == {a["key"]} {{ as_alt({i}, dec(ty_{a["ty"]}(), {at})) }} else {{ {t} }}'
        if k == 'CHOICE':
            return f'match dec_index(b, o, Some({s["lb"]}int), Some({s["ub"]}int), {b2(s["ext"])}) {{ Some((v, q)) => if v.1 {{ None }} else {{ {t} }}, None => None }}'
        return f'match dec_sized(b, o, None, None, false, 8) {{ Some((s, q)) => match key {{ Some(k) => as_open(q, key, {t}), None => None }}, None => None }}'
    if k == 'NULL':
        return 'Some((Val::Null, o, key))'
    if k == 'BOOLEAN':
        return 'match dec_bit(b, o) { Some((v, q)) => Some((Val::Bool(v), q, key)), None => None }'
    if k == 'OBJECT-IDENTIFIER':
        return 'None'
    at = f'b, o, {opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])}'
    if k in ('INTEGER', 'ENUMERATED'):
        lo, hi = samples.RANGE[s['rust']]
        f, root = ('integer', '') if k == 'INTEGER' else ('index', '!v.1 && ')
        return f'match dec_{f}({at}) {{ Some((v, q)) => if {root}{lo} <= v.0 <= {hi} {{ Some((Val::Int(v.0), q, key)) }} else {{ None }}, None => None }}'
    if k == 'BITSTRING':
        return f'match dec_sized({at}, 1) {{ Some((s, q)) => Some((Val::Bits(s), q, key)), None => None }}'
    if k == 'OCTET-STRING':
        return f'match dec_sized({at}, 8) {{ Some((s, q)) => Some((Val::Octets(bits_bytes(s)), q, key)), None => None }}'
    if k in samples.STR:
        at = 'b, o, None, None, false' if k == 'UTF8String' else at
        return f'match dec_chars({at}) {{ Some((s, q)) => if vstd::utf8::valid_utf8(bits_bytes(s)) {{ Some((Val::Octets(bits_bytes(s)), q, key)) }} else {{ None }}, None => None }}'
    assert k == 'SEQUENCE-OF'
    return f'match dec_of_len({at}) {{ Some((n, q)) => dec_items(ty_{s["item"]}(), b, q, key, n, Seq::empty()), None => None }}'


def flat_put(s):
    k, n = s['kind'], s['name']
    if k == 'SEQUENCE':
        fs = s['fields']
        opts = sorted((f for f in fs if f['opt'] is not None), key=lambda f: f['opt'])
        assert [f['opt'] for f in opts] == list(range(len(opts)))
        bm = 'Seq::<bool>::empty()' + ''.join(f'.push(x.{f["name"]} is Some)' for f in opts)
        t = f'Some(s{len(fs)})'
        for i in reversed(range(len(fs))):
            f = fs[i]
            pres, v = ('true', f'val_{f["ty"]}(x.{f["name"]})') if f['opt'] is None else (f'x.{f["name"]} is Some', f'(match x.{f["name"]} {{ Some(y) => val_{f["ty"]}(y), None => Val::Absent }})')
            t = f'match put_opt(ty_{f["ty"]}(), {pres}, s{i}, {v}) {{ Some(s{i + 1}) => {t}, None => None }}'
        return f'let s0 = s + (ebit({b2(s["ext"])}) + {bm}); {t}'
    if k in ('CHOICE', 'OPEN'):
        arms = ''
        for i, a in enumerate(s['alts']):
            if k == 'CHOICE':
                e = (f'match append(s, enc_integer(s.len() as int, Some({s["lb"]}int), Some({s["ub"]}int), {b2(s["ext"])}, {a["key"]}, {b2(a["extended"])})) '
                     f'{{ Some(t) => put(ty_{a["ty"]}(), t, val_{a["ty"]}(y)), None => None }}')
            else:
                e = f'put_open(s, put(ty_{a["ty"]}(), Seq::empty(), val_{a["ty"]}(y)))'
            arms += f'{n}::{a["name"]}(y) => {e}, '
        return f'match x {{ {arms} }}'
    if k == 'NULL':
        return 'Some(s)'
    if k == 'BOOLEAN':
        return 'Some(s + seq![x.0])'
    if k == 'OBJECT-IDENTIFIER':
        return 'None'
    at = f's.len() as int, {opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])}'
    if k in ('INTEGER', 'ENUMERATED'):
        return f'append(s, enc_integer({at}, x.0 as int, false))'
    if k == 'BITSTRING':
        return f'append(s, enc_bitstring({at}, x.0@, false))'
    if k == 'OCTET-STRING':
        return f'append(s, enc_octetstring({at}, x.0@, false))'
    if k in samples.STR:
        at = 's.len() as int, None, None, false' if k == 'UTF8String' else at
        return f'append(s, enc_charstring({at}, str_bytes(x.0@), false))'
    at = at.replace('s.len() as int', 's')
    return f'match put_of_len({at}, x.0@.len()) {{ Some(t) => put_items(ty_{s["item"]}(), t, vals_{n}(x.0@)), None => None }}'


def ghosts(part):
    out, bits = [], {s['nopt'] for s in samples.SAMPLES if s.get('nopt') is not None}
    for s in samples.ordered():
        if MOD[s['name']] != part:
            continue
        n = s['name']
        out.append(f'#[verifier::opaque]\npub open spec fn ty_{n}() -> Ty {{ {ty_term(s)} }}\n')
        if s['kind'] == 'SEQUENCE-OF':
            out.append(f'pub open spec fn vals_{n}(x: Seq<{s["item"]}>) -> Seq<Val> {{ Seq::new(x.len(), |i: int| val_{s["item"]}(x[i])) }}\n')
            out.append(f'pub broadcast proof fn lemma_vals_{n}(x: Seq<{s["item"]}>, v: {s["item"]})\n    ensures #[trigger] vals_{n}(x.push(v)) == vals_{n}(x).push(val_{s["item"]}(v)),\n'
                       f'{{ assert(vals_{n}(x.push(v)) =~= vals_{n}(x).push(val_{s["item"]}(v))); }}\n')
            out.append(f'pub broadcast proof fn lemma_vals0_{n}(x: Seq<{s["item"]}>)\n    requires x.len() == 0,\n    ensures #[trigger] vals_{n}(x) == Seq::<Val>::empty(),\n'
                       f'{{ assert(vals_{n}(x) =~= Seq::empty()); }}\n')
        out.append(f'#[verifier::opaque]\npub open spec fn val_{n}(x: {n}) -> Val {{ {val_term(s)} }}\n')
        uses = {f['ty'] for f in s.get('fields', ())} | {a['ty'] for a in s.get('alts', ())} | ({s['item']} if 'item' in s else set())
        pre = ''.join(f'    theorem_wf_{u}();\n' for u in sorted(uses))
        k = max(len(s.get('fields', ())), len(s.get('alts', ()))) + 2
        fuel = ''
        if 'fields' in s:
            fuel += f'    reveal_with_fuel(wf_fields, {k});\n'
        if 'alts' in s:
            fuel += f'    reveal_with_fuel(wf_alts, {k}); reveal_with_fuel(distinct, {k}); reveal_with_fuel(root_key, {k}); reveal_with_fuel(no_additions, {k});\n'
        keyed = sorted({f['ty'] for f in s.get('fields', ()) if f['key']})
        fuel += ''.join(f'    reveal(ty_{u});\n' for u in keyed)
        out.append(f'pub proof fn theorem_wf_{n}()\n    ensures wf_ty(ty_{n}()),\n{{\n    reveal(ty_{n});\n    lemma_wf(ty_{n}());\n{pre}{fuel}}}\n')
        d = flat_dec(s)
        out.append(f'pub open spec fn flat_dec_{n}(b: Seq<bool>, o: int, key: Option<int>) -> Read {{ {d} }}\n')
        out.append(f'pub open spec fn flat_put_{n}(s: Seq<bool>, x: {n}) -> Option<Seq<bool>> {{ {flat_put(s)} }}\n')
        one = 'seq' if 'fields' in s else 'alts' if 'alts' in s else 'prim'
        fuel = f'reveal_with_fuel(dec_fields, {k}); ' if 'fields' in s else f'reveal_with_fuel(dec_alt, {k}); ' if 'alts' in s else ''
        out.append(f'pub proof fn lemma_dec_{n}(b: Seq<bool>, o: int, key: Option<int>)\n    ensures dec(ty_{n}(), b, o, key) == flat_dec_{n}(b, o, key),\n'
                   f'{{\n    broadcast use lemma_seq_header;\n    reveal(ty_{n}); lemma_dec_{one}(ty_{n}(), b, o, key); {fuel}\n}}\n')
        fuel = ''
        if 'alts' in s:
            fuel = f'reveal_with_fuel(put_alt, {k}); reveal_with_fuel(alt_key, {k}); reveal_with_fuel(alt_extended, {k}); '
        if 'fields' in s:
            opts = sorted((f for f in s['fields'] if f['opt'] is not None), key=lambda f: f['opt'])
            bm = 'Seq::<bool>::empty()' + ''.join(f'.push(x.{f["name"]} is Some)' for f in opts)
            fuel = ''.join(f'if x.{f["name"]} is Some {{ lemma_present_{f["ty"]}(x.{f["name"]}->0); }} ' for f in opts)
            fuel += f'reveal_with_fuel(put_fields, {k}); '
            # the presence bitmap, field by field
            fs, z, w = s['fields'], f'x_zeros({s["nopt"]})', ''
            rest = [f'ty_{n}()->Seq_2']
            for f in fs:
                rest.append(f'*({rest[-1]})->Cons_3')
            for i, f in enumerate(fs):
                if f['opt'] is not None:
                    fuel += f'assert(!(val_{n}(x)->Fields_0[{i}] is Absent) == x.{f["name"]} is Some); '
            at = []
            for i, f in enumerate(fs):
                at.append((rest[i], i, z + w))
                if f['opt'] is not None:
                    w += f'.update({f["opt"]}, x.{f["name"]} is Some)'
            at.append((rest[len(fs)], len(fs), z + w))
            steps = ''
            for j, (a, i, bm_) in enumerate(at):
                nxt = at[j + 1] if j + 1 < len(at) else None
                v = f'val_{n}(x)->Fields_0'
                if nxt:
                    f = fs[i]
                    if f['opt'] is not None:
                        old = bm_
                        steps += f'assert(if x.{f["name"]} is Some {{ ({old}).update({f["opt"]}, true) }} else {{ {old} }} =~= {nxt[2]}); '
                    steps += f'assert(presence({a}, {i}, {v}, {bm_}) == presence({nxt[0]}, {nxt[1]}, {v}, {nxt[2]})); '
                else:
                    steps += f'assert(presence({a}, {i}, {v}, {bm_}) == {bm_}); '
            fuel += 'assert(presence(%s, 0, %s, %s) =~= %s) by { reveal(presence); %s }; ' % (rest[0], f'val_{n}(x)->Fields_0', z, bm, steps)
        out.append(f'pub proof fn lemma_put_{n}(s: Seq<bool>, x: {n})\n    ensures put(ty_{n}(), s, val_{n}(x)) == flat_put_{n}(s, x),\n'
                   f'{{\n    reveal(ty_{n}); reveal(val_{n}); lemma_put_{one}(ty_{n}(), s, val_{n}(x)); {fuel}\n}}\n')
    for n in sorted(bits) if part == 'samples0' else ():
        out.append(f'pub broadcast proof fn lemma_header_{n}(ext: bool, o: Seq<bool>)\n    requires o.len() == {n},\n    ensures #[trigger] enc_seq_header(ext, o, false) '
                   f'== Some(ebit(ext) + Seq::<bool>::empty(){"".join(f".push(o[{i}])" for i in range(n))}),\n{{ assert(o =~= Seq::<bool>::empty(){"".join(f".push(o[{i}])" for i in range(n))}); }}\n')
    for n in sorted({f['ty'] for s in samples.SAMPLES for f in s.get('fields', ()) if f['opt'] is not None}):
        if MOD[n] != part:
            continue
        out.append(f'pub proof fn lemma_present_{n}(x: {n}) ensures !(val_{n}(x) is Absent) {{ reveal(val_{n}); }}\n')
    return ''.join(out)





def contract(s, fn, param, text=''):
    n, k = s['name'], s['kind']
    c = vx.Contract(f'{MOD[n]}::{n}::{fn}')
    c.origin = f'derive:{n}'
    keys = sorted({f['ty'] for f in s.get('fields', ()) if f['key']})
    group = {'SEQUENCE-OF': f'{{group_derive, group_items, lemma_vals_{n}, lemma_vals0_{n}}}', 'OPEN': '{group_derive, lemma_put_open}',
             'SEQUENCE': f'{{group_derive, lemma_header_{s.get("nopt")}}}'}.get(k, 'group_derive')
    rev = f'    reveal(val_{n});\n' + ''.join(f'    reveal(val_{u});\n' for u in keys)
    st = f'old({param}).bits@, old({param}).decode_offset as int, oint(old({param}).key)'
    rev += f'    lemma_dec_{n}({st});\n' if fn == 'decode' else f'    lemma_put_{n}(old({param}).bits@, *self);\n'
    if fn == 'decode':
        c.spec = f'''    requires old({param}).wf(),
    ensures
        reads_keyed(*old({param}), *final({param})),
        match dec(ty_{n}(), {st}) {{
            Some((v, q, k)) => r is Ok && val_{n}(r->Ok_0) == v && final({param}).decode_offset == q && oint(final({param}).key) == k,
            None => r is Err,
        }},
'''
        c.begin = f'    broadcast use {group};\n    proof {{\n' + rev + '    }\n'
        if k == 'SEQUENCE-OF':
            it = s['item']
            c.attr = '#[verifier::loop_isolation(false)]\n'
            body = text[text.index('fn decode'):] if 'fn decode' in text else text
            w = re.search(r'\bwhile\s+(\w+)\s*<\s*(\w+)', body)
            f = re.search(r'\bfor\s+(\w+)\s+in\s+0(?:usize)?\s*\.\.\s*(\w+)', body)
            v = re.search(r'\blet\s+mut\s+(\w+)\s*(?::[^=]*)?=\s*Vec\b', body)
            items = v.group(1) if v else 'items'
            if f and not w:
                c.iters[0] = 'vx_it'
                count, length, dec = 'vx_it.index()', f.group(2), ''
            else:
                count, length = w.groups() if w else ('count', 'length')
                dec = f'        decreases {length} - {count},\n'
            now = f'ty_{it}(), {param}.bits@, {param}.decode_offset as int, oint({param}.key), ({length} - {count}) as nat, vals_{n}({items}@)'
            c.loops[0] = f'''        invariant
            reads_keyed(*old({param}), *{param}),
            {param}.wf(), {count} <= {length}, {items}@.len() == {count},
            dec(ty_{n}(), {st}) == dec_items({now}),
{dec}'''
            c.loop_begin[0] = f'        proof {{ lemma_items_next({now}); }}\n'
    else:
        c.spec = f'''    ensures
        appends(*old({param}), *final({param})),
        sound(r is Ok, put(ty_{n}(), old({param}).bits@, val_{n}(*self))),
        puts(*final({param}), r is Ok, put(ty_{n}(), old({param}).bits@, val_{n}(*self))),
'''
        c.begin = f'    broadcast use {group};\n    proof {{\n' + rev + '    }\n'
        if k == 'SEQUENCE-OF':
            it = s['item']
            c.attr = '#[verifier::loop_isolation(false)]\n'
            c.iters[0] = 'vx_it'
            t = f'put_of_len(old({param}).bits@, {opt(s["lb"])}, {opt(s["ub"])}, {b2(s["ext"])}, self.0@.len())'
            c.loops[0] = f'''        invariant
            appends(*old({param}), *{param}),
            vals_{n}(self.0@).len() == self.0@.len(),
            {t} is Some,
            put_items(ty_{it}(), {t}->0, vals_{n}(self.0@).take(vx_it.index())) is Some,
            {param}.bits@ =~= put_items(ty_{it}(), {t}->0, vals_{n}(self.0@).take(vx_it.index()))->0,
'''
            c.loop_begin[0] = f'        proof {{ lemma_put_items_next(ty_{it}(), {t}->0, vals_{n}(self.0@), vx_it.index()); }}\n'
    c.spec = vx.expand(c.spec)
    return c


class X(codecs.X):
    pass


class Unit:
    name = 'derive'
    props = ['D01', 'D02', 'D03', 'D04', 'D05']
    harness = 'derive'
    binary = 'hderive'
    shim = False
    deps = ['codecs']
    again = ['--rlimit', '40']
    sources = 'codecs_derive/src'
    covered = codecs.Unit.covered

    def contracts(self, repo):
        c, m = vx.read_contracts(os.path.join(codecs.DIR, 'codecs.vc'))
        return c, m

    def generate(self, repo, external=(), mark=None, dropped=(), only=None):
        c, m = self.contracts(repo)
        d = dump(repo)
        for k in c.values():        # proved by the unit codecs, which every check of this one runs as well
            k.attr, k.begin, k.loops, k.loop_begin, k.closures = '#[verifier::external_body]\n', {}, {}, {}, {}
            k.begin = ''
        pre = '#![feature(print_internals)]\n#![allow(unused)]\nuse vstd::prelude::*;\n'
        for f in codecs.PRELUDE:
            pre += assumed(open(os.path.join(codecs.DIR, f)).read())
        for f in PRELUDE:
            pre += open(os.path.join(DIR, f)).read()
        pre += 'pub mod asn1_codecs { pub use crate::aper; }\n'
        body = {}
        for s in samples.ordered():
            if only and s['name'] not in only:
                continue
            t = d.get(s['name'])
            if t is None or 'compile_error' in t:
                raise Emitted(f'{s["name"]}: the macro emits {t and t[:300]}')
            t = re.sub(r'impl\s+asn1_codecs\s*::\s*aper\s*::\s*AperCodec\s+for\s+(\w+)\s*\{\s*type\s+Output\s*=\s*Self\s*;', r'impl \1 {', t)
            t = re.sub(r'\bSelf\s*::\s*Output\b', 'Self', t)
            body[s['name']] = t
            for fn in ('decode', 'encode'):
                q = re.search(r'fn\s+%s\s*\(\s*(?:&\s*self\s*,\s*)?(?:mut\s+)?(\w+)\s*:' % fn, t)
                k = contract(s, fn, q.group(1) if q else 'data', t)
                c[k.path] = k
        for f in external:
            k = c.setdefault(f, vx.Contract(f))
            if 'external_body' not in k.attr:
                k.attr = '#[verifier::external_body]\n'
            k.begin, k.loops, k.loop_begin, k.closures, k.stub = '', {}, {}, {}, True
        for f in dropped:
            c.setdefault(f, vx.Contract(f)).drop = True
        ex = X(c, m)
        ex.mark = mark
        ex.emit('verus! {\n')
        ex.emit_mod_file('aper', ['aper'], os.path.join(repo, 'codecs/src'))
        for part in sorted(set(MOD.values())):
            ex.emit('\npub mod ' + part + ' {\n    use vstd::prelude::*;\nuse crate::{asn1_codecs, bitvec, log};\nuse crate::bits::*;\nuse crate::aperspec::*;\n'
                    'use crate::vspec::*;\nuse crate::typespec::*;\nuse crate::typelemmas::*;\nuse crate::bitvec::{BitVec, Msb0};\nuse crate::stdx::*;\n'
                    + ''.join(f'use crate::{m}::*;\n' for m in sorted(set(MOD.values())) if m != part), ('contract', 'prelude'))
            decl = samples.rust([s for s in samples.ordered() if s['name'] in body and MOD[s['name']] == part], 'X')
            decl = re.sub(r'(?m)^\s*#\[.*\]\n', '', decl)
            ex.emit(decl, ('contract', 'declarations'))
            ex.emit(ghosts(part) if not only else '', ('contract', 'ghosts'))
            for n, t in body.items():
                if MOD[n] == part:
                    toks, items = rustlex.parse_file(t, [part])
                    ex.emit_items(t, toks, items, f'derive({n})', [part], '')
            ex.emit('\n}\n')
        ex.emit('\n} // verus!\n')
        ex.finish()
        return ex, pre, pre + ex.text() + '\nfn main(){}\n'

    def own(self, prop):
        fs = [f'{MOD[s["name"]]}::{s["name"]}::{f}' for s in samples.SAMPLES for f in ('decode', 'encode')]
        th = ['theorem_type', 'theorem_fields', 'theorem_alt', 'theorem_items']
        wf = [f'theorem_wf_{s["name"]}' for s in samples.SAMPLES]
        if prop == 'D04':
            return [f for f in fs if f.endswith('decode')], []
        if prop == 'D05':
            return [f for f in fs if f.endswith('encode')], []
        keyed = [f for f in fs if any(x['key'] for x in BY[f.split('::')[1]].get('fields', ()))] if prop == 'D03' else []
        return [f for f in fs if BY[f.split('::')[1]]['kind'] in KIND[prop]] + keyed, th + wf

    def blame(self, path, kind, clause):
        if not path.startswith('samples'):
            r = []
            for p in codecs.Unit().blame(path, kind, clause):
                r += {'C01': ['D01'], 'C02': ['D01'], 'C03': ['D01', 'D02', 'D03'], 'C04': ['D04'], 'C05': ['D05'], 'C06': ['D01'], 'C07': ['D03']}[p]
            return r
        _, n, fn = path.split('::')
        own = [p for p in KIND if BY[n]['kind'] in KIND[p]]
        if any(f['key'] for f in BY[n].get('fields', ())):
            own.append('D03')
        safety = ['D04'] if fn == 'decode' else ['D05']
        if kind == 'postcondition':
            if clause.startswith(('reads_keyed(', 'appends(')):
                return safety
            if clause.startswith('sound('):
                return safety
            return own
        if kind in ('precondition', 'arithmetic', 'termination'):
            return safety
        return own + safety

    def elsewhere(self, name):
        return name.startswith('aper::')

    def refused(self, prop, repo, err):
        """The macro compiles, but it does not take a declaration or emits what does not compile."""
        lines = open(os.path.join(HERE, 'harness', 'derive', 'src', 'samples.rs')).read().splitlines()
        for m in re.finditer(r'(?m)^error(?:\[\w+\])?: (.*(?:\n.*)?)\n\s*--> src/samples\.rs:(\d+):', err):
            for line in lines[max(int(m.group(2)) - 1, 0):]:
                d = re.match(r'pub (?:struct|enum) (\w+)', line)
                if d:
                    n = d.group(1)
                    if prop in KIND and BY[n]['kind'] in KIND[prop] and self.builds(repo):
                        return (f'declaration {n}', 'the derived code does not compile: ' + ' '.join(m.group(1).split())[:300])
                    break
        return None

    def builds(self, repo):
        d = os.path.join(HERE, 'target', 'derive-alone' if repo == '/repo' else 'derive-alone-' + os.path.basename(repo))
        p = subprocess.run(['cargo', 'check', '--offline', '-p', 'asn1_codecs_derive', '-p', 'asn1-codecs'], cwd=repo, capture_output=True, text=True,
                           env=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d))
        return p.returncode == 0

    trusted_base = ['proc-macro expansion is a function of the declaration; TokenStream::to_string prints the tokens that are compiled']
    assumptions = codecs.Unit.assumptions + [
        'the codec functions the generated code calls are called by their contracts, which the unit codecs discharges in the same check',
        'the declarations of lib/samples.py stand for the kinds of declaration the macro accepts (each kind with and without each '
        'attribute); for each of them all values, all bytes and all positions are covered; integers wider than 64 bits are not',
        'declarations are not recursive (the generated functions recurse as deeply as the declarations nest)',
        'the generated impl of the trait AperCodec is read as an inherent impl with the same bodies',
    ]
