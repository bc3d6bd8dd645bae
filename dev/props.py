#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (dev/props.py; run by hand, both files are committed)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'codecs/src/aper/'
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or [], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], hook_needed=None))
props = [
P('C01', 'INTEGER encoding conforms to aligned PER and decodes back',
  'For every combination of bounds and extensibility and every value they allow, encoding an INTEGER appends exactly the bits X.691 (aligned PER, clauses 10.3 to 10.8 and 12) prescribes at that bit position, and decoding those bits, whatever surrounds them, returns the same value and stops right behind them. Values that would need more than 128 bits are errors.',
  ['inputs', 'configurations'], 'all lower/upper bounds (present or absent, with a range below 2^127), extensible or not, all i128 values, all bit positions and surrounding bits',
  'The tests sample a dozen ranges and values at bit position 0; the width, alignment and length rules change at range 256, 257, 65536, 65537 and at every octet boundary of value and range, at all eight bit positions.',
  [A + 'encode/mod.rs', A + 'encode/encode_internal.rs', A + 'decode/mod.rs', A + 'decode/decode_internal.rs', A + 'mod.rs'],
  [('encode_integer and the whole-number encoders', A + 'encode/encode_internal.rs'), ('decode_integer and the whole-number decoders', A + 'decode/decode_internal.rs'), ('decode_bits_as_integer', A + 'mod.rs')],
  ['encode_integer', 'decode_integer']),
P('C02', 'BIT, OCTET and character strings conform to aligned PER and decode back',
  'For every size constraint and every string whose size it allows and that needs no fragmentation, encoding appends exactly the length, alignment and content bits X.691 (15, 16, 27 and 10.9) prescribes, and decoding returns the same string and stops right behind it. Decoding joins the fragments of a fragmented BIT or OCTET STRING, and yields character strings only from valid UTF-8.',
  ['inputs', 'configurations'], 'all size bounds (absent, fixed, variable, at and above 64K), extensible or not, all contents below 16K items (decoding: any number of fragments), all bit positions',
  'Tests use a few short strings at bit position 0; alignment depends on position, on the bounds and on the length (16 bits, 2 octets, fixed or variable size), and fragmentation needs inputs above 16K items.',
  [A + 'encode/mod.rs', A + 'decode/mod.rs', A + 'decode/decode_charstrings.rs', A + 'mod.rs'],
  [('string encoders', A + 'encode/mod.rs'), ('string decoders and their fragment loops', A + 'decode/mod.rs'), ('get_bitvec, get_bytes', A + 'mod.rs')],
  ['encode_bitstring', 'decode_bitstring', 'encode_octetstring', 'decode_octetstring', 'encode_visible_string', 'decode_utf8_string']),
P('C03', 'BOOLEAN, ENUMERATED, CHOICE index, SEQUENCE header, lengths conform',
  'For every constraint and every value it allows, a BOOLEAN, an enumeration index, a choice index, a SEQUENCE preamble (extension bit and optional bitmap) and a length determinant are encoded as exactly the bits X.691 (10.6, 10.9, 11, 13, 18, 22) prescribes, and decoding those bits returns the same value and stops right behind them.',
  ['inputs', 'configurations'], 'all bounds and extensibility, all values and lengths, all bitmap sizes, all bit positions',
  'Tests cover single points of each form; the general, constrained and normally-small forms switch at 64, 127/128, 16383/16384, 65535/65536 and depend on the bit position.',
  [A + 'encode/mod.rs', A + 'encode/encode_internal.rs', A + 'decode/mod.rs', A + 'decode/decode_internal.rs'],
  [('encode_*/decode_* of these types', A + 'encode/mod.rs'), ('length determinants', A + 'decode/decode_internal.rs')],
  ['encode_choice_idx', 'decode_choice_idx', 'encode_sequence_header', 'decode_sequence_header', 'encode_length_determinent', 'decode_length_determinent']),
P('C04', 'Decoding arbitrary bytes is total, in bounds and read-only',
  'Decoding any type from any byte sequence, well-formed or hostile, always returns: it neither panics, overflows nor loops, and it accepts only what is an encoding (a truncated one is an error). It never changes the data or the key, and the read position only moves forward and never beyond the end.',
  ['inputs', 'configurations'], 'all byte sequences, all read positions, all constraints with a representable range',
  'Tests decode a handful of valid messages; panics hide behind lengths, padding and truncation points that only hostile input produces.',
  [A + 'mod.rs', A + 'decode/mod.rs', A + 'decode/decode_internal.rs', A + 'decode/decode_charstrings.rs'],
  [('bounds checks before every slice of the buffer', A + 'mod.rs'), ('decode_length_determinent', A + 'decode/decode_internal.rs')],
  ['every public decode_* function'], [('decode_offset', 'read position', A + 'mod.rs')]),
P('C05', 'Encoding refuses what it cannot represent and only appends',
  'Encoding a value that violates its constraint or that the implementation cannot represent returns an error; it is never encoded as something else and never panics. Whether it succeeds or fails, an encoder leaves everything encoded before untouched.',
  ['inputs', 'configurations'], 'all values inside and outside all constraints, all prior buffer contents',
  'Tests check one value on each side of a few constraints and never what was in the buffer before.',
  [A + 'encode/mod.rs', A + 'encode/encode_internal.rs', A + 'mod.rs'],
  [('range checks of the whole-number and length encoders', A + 'encode/encode_internal.rs'), ('append_bits, align', A + 'mod.rs')],
  ['every public encode_* function']),
P('C06', 'Decoded values satisfy their constraint',
  'A value decoded as not extended lies within the bounds it was decoded with: an INTEGER, enumeration or choice index between its lower and upper bound, a string or length (with an upper bound below 65536) within its size bounds.',
  ['inputs', 'configurations'], 'all byte sequences, all bounds',
  'The bit field of a constrained value is usually wider than the range; tests never feed the unused code points.',
  [A + 'decode/decode_internal.rs', A + 'decode/mod.rs'],
  [('upper bound check of decode_constrained_whole_number', A + 'decode/decode_internal.rs')], ['decode_integer', 'decode_choice_idx', 'decode_octetstring']),
P('C07', 'Codec buffer operations keep bits and octets in correspondence',
  'Building a buffer from octets, aligning, appending one buffer to another octet-aligned, measuring its length and turning it back into octets preserve every bit in order: octets in and out agree bit for bit, alignment adds only the zero bits up to the next octet boundary, and skipping padding while decoding accepts exactly zero padding that is present.',
  ['inputs', 'histories'], 'all buffer contents and lengths, all positions',
  'Tests check lengths of a few buffers; correctness depends on the length modulo 8 of both buffers and on the position.',
  [A + 'mod.rs'], [('from_slice, into_bytes, get_inner, align, append_aligned, length_in_bytes, decode_align, set_bit, seek', A + 'mod.rs')],
  ['AperCodecData'], [('bits', 'the encoded bits', A + 'mod.rs'), ('decode_offset', 'read position', A + 'mod.rs')]),
]
TECH = 'contracts on the functions of the crate, discharged by Verus (Z3) from the sources extracted on every run'
NOTE = {
 'codecs': 'Unbounded proof of every function in the property\'s call graph, from /repo\'s source, against a spec of X.691 written in contracts/codecs/aperspec.rs. Assumes the contracts of bitvec, log and uncovered std functions (contracts/codecs/shim.rs; compared with the crates on random operands each run) and 64-bit usize. Where a changed function leaves the verifier\'s reach, a concrete search against an executable copy of the spec decides, labelled bounded in the evidence.',
}
claims = {p: 'codecs' for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')}
na = []
exec(open(os.path.join(H, 'dev', 'props_more.py')).read()) if os.path.exists(os.path.join(H, 'dev', 'props_more.py')) else None
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 lib/setup.py',
  checks=[dict(property=p['id'], quick_cmd=f'python3 lib/check.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3 lib/check.py {p["id"]}',
     technique=TECHS.get(claims[p['id']], TECH) if 'TECHS' in globals() else TECH, level='proof', level_note=NOTE[claims[p['id']]],
     **({'theorems': THEOREMS[p['id']]} if 'THEOREMS' in globals() and p['id'] in THEOREMS else {})) for p in props if p['id'] in claims],
  not_applicable=na)
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
