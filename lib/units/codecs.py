"""/repo/codecs: the APER codec functions, all of them, under contract."""
import os
import re
import vx

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DIR = os.path.join(HERE, 'contracts', 'codecs')
PRELUDE = ['shim.rs', 'bits.rs', 'aperspec.rs', 'hints.rs', 'lemmas.rs']

A, D, E = 'aper::AperCodecData::', 'aper::decode::', 'aper::encode::'
DI, EI, DC = D + 'decode_internal::', E + 'encode_internal::', D + 'decode_charstrings::'

# property -> (its own functions, its theorems)
OWN = {
    'C01': ([D + 'decode_integer', E + 'encode_integer', A + 'decode_bits_as_integer', 'aper::bytes_needed_for_range',
             DI + 'decode_unconstrained_whole_number', DI + 'decode_semi_constrained_whole_number',
             DI + 'decode_constrained_whole_number', EI + 'encode_unconstrained_whole_number',
             EI + 'encode_semi_constrained_whole_number', EI + 'encode_constrained_whole_number'],
            ['theorem_cwn', 'theorem_semi', 'theorem_uwn', 'theorem_int_root', 'theorem_integer']),
    'C02': ([D + 'decode_bitstring', D + 'decode_octetstring', E + 'encode_bitstring', E + 'encode_octetstring',
             DC + 'decode_string', DC + 'decode_visible_string', DC + 'decode_printable_string', DC + 'decode_utf8_string',
             E + 'encode_string', E + 'encode_visible_string', E + 'encode_printable_string', E + 'encode_utf8_string',
             A + 'get_bitvec', A + 'get_bytes'],
            ['theorem_bitstring', 'theorem_octetstring', 'theorem_charstring']),
    'C03': ([D + 'decode_bool', E + 'encode_bool', D + 'decode_enumerated', E + 'encode_enumerated', D + 'decode_choice_idx',
             E + 'encode_choice_idx', D + 'decode_sequence_header', D + 'decode_sequence_additions', E + 'encode_sequence_header',
             E + 'encode_length_determinent', DI + 'decode_length_determinent', DI + 'decode_normally_small_length_determinent',
             DI + 'decode_normally_small_non_negative_whole_number', DI + 'decode_constrained_length_determinent',
             DI + 'decode_indefinite_length_determinent', EI + 'encode_indefinite_length_determinent',
             EI + 'encode_normally_small_length_determinent', A + 'decode_bool', A + 'encode_bool'],
            ['theorem_len_general', 'theorem_len', 'theorem_len_small', 'theorem_seq_header', 'theorem_integer']),
    'C07': ([A + x for x in ('new', 'from_slice', 'into_bytes', 'decode_align', 'advance_maybe_err', 'get_bit', 'get_inner',
                             'get_key', 'set_key', 'seek', 'set_bit', 'append_bits', 'align', 'length_in_bytes',
                             'append_aligned')], []),
}
DECODERS = [f for f in sum((v[0] for v in OWN.values()), []) if re.search(r'decode|::get_bit|get_bytes|advance|seek', f)]
ENCODERS = [f for f in sum((v[0] for v in OWN.values()), []) if re.search(r'encode|append|::align|set_bit', f)] + ['aper::bytes_needed_for_range']
OWN['C04'] = (DECODERS, [])
OWN['C05'] = (ENCODERS, [])
OWN['C06'] = ([D + x for x in ('decode_integer', 'decode_enumerated', 'decode_choice_idx', 'decode_bitstring', 'decode_octetstring')]
              + [DI + x for x in ('decode_length_determinent', 'decode_constrained_length_determinent', 'decode_constrained_whole_number')]
              + [DC + 'decode_visible_string', DC + 'decode_printable_string', DC + 'decode_string'],
              ['theorem_range_integer', 'theorem_range_index', 'theorem_range_sized', 'theorem_range_chars'])


class X(vx.Extract):
    drop_headers = (r'impl .*Display for Error', r'impl .*std::error::Error for Error')


class Unit:
    name = 'codecs'
    props = sorted(OWN)
    harness = 'codecs'
    binary = 'hcodecs'
    shim = True
    sources = 'codecs/src'
    covered = {EI + 'encode_unconstrained_whole_number': {'leading_zeros', 'leading_ones'}, 'aper::bytes_needed_for_range': {'leading_zeros'}}

    def generate(self, repo, external=(), mark=None, dropped=()):
        c, m = vx.read_contracts(os.path.join(DIR, 'codecs.vc'))
        for f in external:
            k = c.setdefault(f, vx.Contract(f))
            if 'external_body' not in k.attr:
                k.attr = '#[verifier::external_body]\n'
            k.begin, k.loops, k.loop_begin, k.closures, k.stub = '', {}, {}, {}, True
        for f in dropped:
            c.setdefault(f, vx.Contract(f)).drop = True
        ex = X(c, m)
        ex.mark = mark
        pre = '#![feature(print_internals)]\n#![allow(unused)]\nuse vstd::prelude::*;\n'
        for f in PRELUDE:
            pre += open(os.path.join(DIR, f)).read()
        ex.emit('verus! {\n')
        ex.emit_mod_file('aper', ['aper'], os.path.join(repo, 'codecs/src'))
        ex.emit('\n} // verus!\n')
        ex.finish()
        return ex, pre, pre + ex.text() + '\nfn main(){}\n'

    def own(self, prop):
        return OWN[prop]

    def value_props(self, path):
        return [p for p in ('C01', 'C02', 'C03', 'C07') if path in OWN[p][0]]

    def blame(self, path, kind, clause):
        """The properties a failed obligation of `path` breaks."""
        dec = path in DECODERS
        safety = ['C04'] if dec else ['C05']
        if kind == 'postcondition':
            if clause.startswith('reads('):
                return ['C04']
            if clause.startswith('appends('):
                return ['C05']
            if clause.startswith('sound('):
                return safety
            if re.search(r'r->Ok_0 <= (ub|65536)', clause):
                return ['C06']
            return self.value_props(path)
        if kind == 'precondition' or kind == 'arithmetic' or kind == 'termination':
            return safety + (['C07'] if path in OWN['C07'][0] else [])
        return self.value_props(path)

    assumptions = [
        'usize and isize are 64 bits wide',
        'the contracts of bitvec 1.0 (BitVec, BitSlice, BitField, chunks), log and the std functions without a vstd contract '
        '(contracts/codecs/shim.rs) are assumed; each run compares the executable ones with the crates on random operands',
        'memory is not exhausted; encode!/decode! recursion depth is that of the call graph (no recursion besides the '
        'determinant of a constrained length, whose termination is proved)',
        'AperCodecData::reserve and ::swap_bits, Display/Error of the error type, and the AperCodec trait itself are outside the '
        'verified text',
    ]
