#!/usr/bin/env python3
"""Writes harness/derive/src/samples.rs and gen.rs from lib/samples.py (run by hand; both are committed)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
import samples as S
d = os.path.join(H, 'harness', 'derive', 'src')
b = {True: 'true', False: 'false', None: 'false'}
o = lambda x: 'None' if x is None else f'Some({x})'
def ty(s):
    k = s['kind']
    if k in ('BOOLEAN', 'NULL', 'OBJECT-IDENTIFIER'):
        return {'BOOLEAN': 'Ty::Bool', 'NULL': 'Ty::Null', 'OBJECT-IDENTIFIER': 'Ty::Oid'}[k]
    if k in ('INTEGER', 'ENUMERATED'):
        lo, hi = S.RANGE[s['rust']]
        return f'Ty::{"Int" if k == "INTEGER" else "Enum"}({o(s["lb"])}, {o(s["ub"])}, {b[s["ext"]]}, {lo}, {hi})'
    if k in ('BITSTRING', 'OCTET-STRING'):
        return f'Ty::{"Bits" if k == "BITSTRING" else "Octets"}({o(s["lb"])}, {o(s["ub"])}, {b[s["ext"]]})'
    if k == 'UTF8String':
        return 'Ty::Chars(None, None, false)'
    if k in S.STR:
        return f'Ty::Chars({o(s["lb"])}, {o(s["ub"])}, {b[s["ext"]]})'
    if k == 'SEQUENCE-OF':
        return f'Ty::Of(Box::new({s["item"]}::ty()), {o(s["lb"])}, {o(s["ub"])}, {b[s["ext"]]})'
    if k == 'SEQUENCE':
        fs = ', '.join(f'Field {{ ty: {f["ty"]}::ty(), opt: {o(f["opt"])}, key: {b[f["key"]]} }}' for f in s['fields'])
        return f'Ty::Seq({b[s["ext"]]}, {s["nopt"]}, vec![{fs}])'
    al = ', '.join(f'Alt {{ ty: {a["ty"]}::ty(), key: {a["key"]}, extended: {b[a["extended"]]} }}' for a in s['alts'])
    return f'Ty::Open(vec![{al}])' if k == 'OPEN' else f'Ty::Choice({s["lb"]}, {s["ub"]}, {b[s["ext"]]}, vec![{al}])'
out = ['// Written by dev/gen_derive.py from lib/samples.py.\nuse crate::samples::*;\nuse crate::types::*;\n']
for s in S.SAMPLES + S.MORE:
    n, k = s['name'], s['kind']
    if k in ('INTEGER', 'ENUMERATED'):
        v, f = 'Val::Int(self.0 as i128)', f'Val::Int(i) => {n}({s["rust"]}::try_from(*i).ok()?)'
    elif k == 'BOOLEAN':
        v, f = 'Val::Bool(self.0)', f'Val::Bool(x) => {n}(*x)'
    elif k in ('NULL', 'OBJECT-IDENTIFIER'):
        v, f = 'Val::Null', f'Val::Null => {n}'
    elif k == 'BITSTRING':
        v, f = 'Val::Bits(self.0.iter().map(|x| *x).collect())', f'Val::Bits(x) => {n}(x.iter().collect())'
    elif k == 'OCTET-STRING':
        v, f = 'Val::Octets(self.0.clone())', f'Val::Octets(x) => {n}(x.clone())'
    elif k in S.STR:
        v, f = 'Val::Octets(self.0.as_bytes().to_vec())', f'Val::Octets(x) => {n}(String::from_utf8(x.clone()).ok()?)'
    elif k == 'SEQUENCE-OF':
        v, f = 'Val::List(self.0.iter().map(|x| x.val()).collect())', f'Val::List(x) => {n}(x.iter().map({s["item"]}::of_val).collect::<Option<Vec<_>>>()?)'
    elif k == 'SEQUENCE':
        g = ', '.join(f'self.{x["name"]}.val()' if x['opt'] is None else f'self.{x["name"]}.as_ref().map_or(Val::Absent, |x| x.val())' for x in s['fields'])
        v = f'Val::Fields(vec![{g}])'
        g = ', '.join(f'{x["name"]}: ' + (f'{x["ty"]}::of_val(&x[{i}])?' if x['opt'] is None else
            f'if let Val::Absent = x[{i}] {{ None }} else {{ Some({x["ty"]}::of_val(&x[{i}])?) }}') for i, x in enumerate(s['fields']))
        f = f'Val::Fields(x) if x.len() == {len(s["fields"])} => {n} {{ {g} }}'
    else:
        arms = ', '.join(f'{n}::{a["name"]}(y) => Val::Alt({i}, Box::new(y.val()))' for i, a in enumerate(s['alts']))
        v = f'match self {{ {arms} }}'
        arms = ', '.join(f'{i} => {n}::{a["name"]}({a["ty"]}::of_val(y)?)' for i, a in enumerate(s['alts']))
        f = f'Val::Alt(i, y) => match i {{ {arms}, _ => return None }}'
    out.append(f'impl Conv for {n} {{\n    fn ty() -> Ty {{ {ty(s)} }}\n    fn val(&self) -> Val {{ {v} }}\n    #[allow(unreachable_patterns)]\n    fn of_val(v: &Val) -> Option<Self> {{ Some(match v {{ {f}, _ => return None }}) }}\n}}\n')
out.append('pub fn all() -> Vec<Entry> {\n    vec![\n' + ''.join(f'        entry::<{s["name"]}>("{s["name"]}"),\n' for s in S.SAMPLES + S.MORE) + '    ]\n}\n')
open(os.path.join(d, 'gen.rs'), 'w').write(''.join(out))
open(os.path.join(d, 'samples.rs'), 'w').write('// Written by dev/gen_derive.py from lib/samples.py.\nuse asn1_codecs::aper::AperCodec;\nuse bitvec::prelude::*;\n'.replace('use asn1_codecs::aper::AperCodec;\n', '')
    + S.rust(S.SAMPLES + S.MORE, 'asn1_codecs_derive::AperCodec'))
