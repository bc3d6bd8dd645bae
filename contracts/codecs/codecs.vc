//# Contracts of /repo/codecs, spliced onto the functions of the same path on every run.

@module *
use vstd::prelude::*;
use crate::{bitvec, log};
use crate::stdx::*;
use crate::bits::*;
use crate::aperspec::*;
use crate::hints::*;
use crate::vspec::*;

//# ------------------------------------------------------------------ error.rs
@fn aper::error::Error::new
@attr
#[verifier::external_body]
@spec

@fn aper::error::Error::push_context
@attr
#[verifier::external_body]
@spec

//# ------------------------------------------------------------------ AperCodecData
@module impl aper::AperCodecData
    /// Representation invariant.
    pub open spec fn wf(&self) -> bool { self.decode_offset <= self.bits@.len() }

@module default aper::AperCodecData
        ensures r.bits@ == Seq::<bool>::empty(), r.decode_offset == 0, r.key is None, r.bits.head0(),

@fn aper::AperCodecData::new
    ensures r.bits@ == Seq::<bool>::empty(), r.decode_offset == 0, r.key is None, r.bits.head0(),

@fn aper::AperCodecData::from_slice
    ensures r.bits@ == bytes_bits(bytes@), r.decode_offset == 0, r.key is None, r.bits.head0(),

@fn aper::AperCodecData::into_bytes
    ensures
        self.bits.head0() ==> r@.len() == (self.bits@.len() + 7) / 8
            && bytes_bits(r@).subrange(0, self.bits@.len() as int) == self.bits@,

@fn aper::AperCodecData::decode_align
    requires old(self).wf(),
    ensures
        reads(*old(self), *final(self)),
        match dec_align(old(self).bits@, old(self).decode_offset as int) {
            Some(q) => r is Ok && final(self).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::AperCodecData::decode_bool
    requires old(self).wf(),
    ensures
        reads(*old(self), *final(self)),
        match dec_bit(old(self).bits@, old(self).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::AperCodecData::decode_bits_as_integer
    requires old(self).wf(),
    ensures
        reads(*old(self), *final(self)),
        match if signed { dec_sint(old(self).bits@, old(self).decode_offset as int, bits as nat) }
              else { dec_uint(old(self).bits@, old(self).decode_offset as int, bits as nat) } {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;
    proof {
        lemma_pow2_table();
        lemma_sign_hints();
    }

@fn aper::AperCodecData::advance_maybe_err
    requires old(self).wf(), old(self).decode_offset + bits <= usize::MAX,
    ensures
        reads(*old(self), *final(self)),
        old(self).decode_offset + bits <= old(self).bits@.len()
            ==> r is Ok && final(self).decode_offset == old(self).decode_offset + bits,
        old(self).decode_offset + bits > old(self).bits@.len()
            ==> (if ignore { r is Ok && final(self).decode_offset == old(self).bits@.len() } else { r is Err }),
@begin
    broadcast use group_dec;

@fn aper::AperCodecData::get_bit
    requires self.wf(),
    ensures
        r is Ok == (self.decode_offset < self.bits@.len()),
        r is Ok ==> r->Ok_0 == self.bits@[self.decode_offset as int],
@begin
    broadcast use group_dec;

@fn aper::AperCodecData::get_bitvec
    requires old(self).wf(), length <= 0x1_0000_0000_0000,
    ensures
        reads(*old(self), *final(self)),
        match dec_bits(old(self).bits@, old(self).decode_offset as int, length as nat) {
            Some((v, q)) => r is Ok && r->Ok_0@ == v && final(self).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::AperCodecData::get_bytes
    requires old(self).wf(), length <= 0x1_0000_0000_0000,
    ensures
        reads(*old(self), *final(self)),
        match dec_bits(old(self).bits@, old(self).decode_offset as int, 8 * length as nat) {
            Some((v, q)) => r is Ok && bytes_bits(r->Ok_0@) == v && r->Ok_0@.len() == length
                && final(self).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_str;

@fn aper::AperCodecData::get_inner
    ensures
        r is Ok,
        self.bits.head0() ==> (r->Ok_0)@.len() == (self.bits@.len() + 7) / 8
            && bytes_bits((r->Ok_0)@).subrange(0, self.bits@.len() as int) == self.bits@,

@fn aper::AperCodecData::get_key
    ensures r == self.key,

@fn aper::AperCodecData::set_key
    ensures
        final(self).key == Some(key), final(self).bits == old(self).bits,
        final(self).decode_offset == old(self).decode_offset,

@fn aper::AperCodecData::dump
@spec

@fn aper::AperCodecData::dump_encode
@spec

@fn aper::AperCodecData::reserve
@drop

@fn aper::AperCodecData::seek
    requires offset <= old(self).bits@.len(),
    ensures
        final(self).decode_offset == offset, final(self).bits == old(self).bits,
        final(self).key == old(self).key,

@fn aper::AperCodecData::swap_bits
@drop

@fn aper::AperCodecData::set_bit
    requires index < old(self).bits@.len(),
    ensures
        final(self).bits@ == old(self).bits@.update(index as int, value),
        final(self).bits.head0() == old(self).bits.head0(),
        final(self).decode_offset == old(self).decode_offset, final(self).key == old(self).key,

@fn aper::AperCodecData::encode_bool
    ensures
        writes(*old(self), *final(self), seq![value]),
@begin
    broadcast use group_enc;

@fn aper::AperCodecData::append_bits
    ensures
        writes(*old(self), *final(self), bits@),

@fn aper::AperCodecData::align
    ensures
        writes(*old(self), *final(self), x_zeros(x_pad(old(self).bits@.len() as int))),
@begin
    broadcast use group_len;

@fn aper::AperCodecData::length_in_bytes
    ensures r == (self.bits@.len() + 7) / 8,
@begin
    broadcast use group_len;

@fn aper::AperCodecData::append_aligned
    ensures
        writes(*old(self), *final(self), x_zeros(x_pad(old(self).bits@.len() as int))
            + old(other).bits@ + x_zeros(x_pad(old(other).bits@.len() as int))),
@begin
    broadcast use group_len;

@fn aper::AperCodec::encode
@attr
#[verifier::external_body]
@spec

@fn aper::bytes_needed_for_range
    requires range > 1,
    ensures r == x_octets((range - 1) as nat), 1 <= r <= 16,
@begin
    broadcast use group_enc;
    proof {
        lemma_bitlen((range - 1) as nat, 127);
        lemma_bitlen((range - 1) as nat, 0);
        lemma_pow2_table();
    }

//# ------------------------------------------------------------------ decode_internal.rs
@fn aper::decode::decode_internal::decode_normally_small_non_negative_whole_number
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_small(old(data).bits@, old(data).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

@fn aper::decode::decode_internal::decode_normally_small_length_determinent
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_len_small(old(data).bits@, old(data).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

@fn aper::decode::decode_internal::decode_length_determinent
    requires old(data).wf(), normally_small || sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        match if normally_small { dec_len_small(old(data).bits@, old(data).decode_offset as int) }
              else { dec_len(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub)) } {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
        r is Ok ==> r->Ok_0 <= 65536,
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

@fn aper::decode::decode_internal::decode_constrained_length_determinent
    requires old(data).wf(), lb <= ub < 65536,
    ensures
        reads(*old(data), *final(data)),
        match dec_cwn(old(data).bits@, old(data).decode_offset as int, lb as int, ub as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
        r is Ok ==> lb <= r->Ok_0 <= ub,
    decreases ub - lb, 1int,
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

@fn aper::decode::decode_internal::decode_indefinite_length_determinent
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_len_general(old(data).bits@, old(data).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
        r is Ok ==> r->Ok_0 <= 65536,
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

@fn aper::decode::decode_internal::decode_unconstrained_whole_number
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_uwn(old(data).bits@, old(data).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_internal::decode_semi_constrained_whole_number
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_semi(old(data).bits@, old(data).decode_offset as int, lb as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_internal::decode_constrained_whole_number
    requires old(data).wf(), range_ok(lb as int, ub as int),
    ensures
        reads(*old(data), *final(data)),
        match dec_cwn(old(data).bits@, old(data).decode_offset as int, lb as int, ub as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
        r is Ok ==> lb <= r->Ok_0 <= ub,
    decreases if ub < lb { 0int } else { ub - lb }, 0int,
@begin
    broadcast use group_dec;
    proof { lemma_pow2_table(); }

//# ------------------------------------------------------------------ decode/mod.rs
@fn aper::decode::decode_choice_idx
    requires old(data).wf(), range_ok(lb as int, ub as int),
    ensures
        reads(*old(data), *final(data)),
        match dec_index(old(data).bits@, old(data).decode_offset as int, Some(lb as int), Some(ub as int), is_extensible) {
            Some((v, q)) => r is Ok && r->Ok_0.0 == v.0 && r->Ok_0.1 == v.1 && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_sequence_header
    requires old(data).wf(), optional_count <= 0x1_0000_0000_0000,
    ensures
        reads(*old(data), *final(data)),
        match dec_seq_header(old(data).bits@, old(data).decode_offset as int, is_extensible, optional_count as nat) {
            Some((v, q)) => r is Ok && r->Ok_0.0@ =~= v.0 && r->Ok_0.1 == v.1 && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_sequence_additions
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_additions(old(data).bits@, old(data).decode_offset as int) {
            Some(q) => r is Ok && final(data).decode_offset == q,
            None => r is Err,
        },
@attr
#[verifier::loop_isolation(false)]
@begin
    hide(dec_len_small);
    hide(dec_sized);
    hide(skip_open);
    broadcast use group_additions;
@loop 0
        invariant
            reads(*old(data), *data), data.wf(), 0 <= index <= count, bitmap@.len() == count,
            dec_additions(old(data).bits@, old(data).decode_offset as int)
                == skip_open(data.bits@, data.decode_offset as int, bitmap@.subrange(index as int, count as int)),
        decreases count - index,
@loopbegin 0
        proof { lemma_skip_next(data.bits@, data.decode_offset as int, bitmap@, index as int); }

@fn aper::decode::decode_integer
    requires old(data).wf(), bounds_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        match dec_integer(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible) {
            Some((v, q)) => r is Ok && r->Ok_0.0 == v.0 && r->Ok_0.1 == v.1 && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_bool
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        match dec_bit(old(data).bits@, old(data).decode_offset as int) {
            Some((v, q)) => r is Ok && r->Ok_0 == v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_enumerated
    requires old(data).wf(), bounds_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        match dec_index(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible) {
            Some((v, q)) => r is Ok && r->Ok_0.0 == v.0 && r->Ok_0.1 == v.1 && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    broadcast use group_dec;

@fn aper::decode::decode_bitstring
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@spec
    requires old(data).wf(), sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        match dec_sized(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible, 1) {
            Some((v, q)) => r is Ok && r->Ok_0@ =~= v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    hide(dec_len);
    hide(dec_align);
    broadcast use group_rstr;
@loop 0
        invariant_except_break
            reads(*old(data), *data),
            ({
                let b = old(data).bits@;
                let x = dec_ebit(b, old(data).decode_offset as int, is_extensible);
                let l = if (x->0).0 { None } else { oint(lb) };
                let u = if (x->0).0 { None } else { oint(ub) };
                x is Some && dec_string(b, (x->0).1, l, u, 1, Seq::empty())
                    == dec_string(b, data.decode_offset as int, l, u, 1, bv@)
            }),
        ensures
            reads(*old(data), *data),
            dec_sized(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible, 1)
                == Some((bv@, data.decode_offset as int)),
        decreases data.bits@.len() - data.decode_offset,
@loopbegin 0
        broadcast use group_rstr;

@fn aper::decode::decode_octetstring
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@spec
    requires old(data).wf(), sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        match dec_sized(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible, 8) {
            Some((v, q)) => r is Ok && bytes_bits(r->Ok_0@) =~= v && final(data).decode_offset == q,
            None => r is Err,
        },
@begin
    hide(dec_len);
    hide(dec_align);
    broadcast use group_rstr;
@loop 0
        invariant_except_break
            reads(*old(data), *data),
            ({
                let b = old(data).bits@;
                let x = dec_ebit(b, old(data).decode_offset as int, is_extensible);
                let l = if (x->0).0 { None } else { oint(lb) };
                let u = if (x->0).0 { None } else { oint(ub) };
                x is Some && dec_string(b, (x->0).1, l, u, 8, Seq::empty())
                    == dec_string(b, data.decode_offset as int, l, u, 8, bytes_bits(octets@))
            }),
        ensures
            reads(*old(data), *data),
            dec_sized(old(data).bits@, old(data).decode_offset as int, oint(lb), oint(ub), is_extensible, 8)
                == Some((bytes_bits(octets@), data.decode_offset as int)),
        decreases data.bits@.len() - data.decode_offset,
@loopbegin 0
        broadcast use group_rstr;

//# ------------------------------------------------------------------ decode_charstrings.rs
@fn aper::decode::decode_charstrings::decode_visible_string
    requires old(data).wf(), sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        decodes_chars(old(data).bits@, old(data).decode_offset as int, lb, ub, is_extensible, r, final(data).decode_offset as int),

@fn aper::decode::decode_charstrings::decode_printable_string
    requires old(data).wf(), sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        decodes_chars(old(data).bits@, old(data).decode_offset as int, lb, ub, is_extensible, r, final(data).decode_offset as int),

@fn aper::decode::decode_charstrings::decode_utf8_string
    requires old(data).wf(),
    ensures
        reads(*old(data), *final(data)),
        decodes_chars(old(data).bits@, old(data).decode_offset as int, None, None, false, r, final(data).decode_offset as int),

@fn aper::decode::decode_charstrings::decode_string
    requires old(data).wf(), sizes_ok(lb, ub),
    ensures
        reads(*old(data), *final(data)),
        decodes_chars(old(data).bits@, old(data).decode_offset as int, lb, ub, is_extensible, r, final(data).decode_offset as int),
@begin
    hide(dec_len);
    hide(dec_align);
    broadcast use group_chars;
@closure 1
-> (vr: u8) requires $1@.len() == 8 ensures vr == bits_val($1@)
@closure 2
-> (vr: String) ensures vr@ == $1@

//# ------------------------------------------------------------------ encode_internal.rs
@fn aper::encode::encode_internal::encode_unconstrained_whole_number
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_uwn(old(data).bits@.len() as int, value as int)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_internal::encode_semi_constrained_whole_number
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_semi(old(data).bits@.len() as int, lb as int, value as int)),
@begin
    broadcast use {group_enc, group_octets};

@fn aper::encode::encode_internal::encode_constrained_whole_number
    requires range_ok(lb as int, ub as int),
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_cwn(old(data).bits@.len() as int, lb as int, ub as int, value as int)),
    decreases if ub < lb { 0int } else { ub - lb },
@begin
    broadcast use {group_enc, group_octets};

@fn aper::encode::encode_internal::encode_indefinite_length_determinent
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_len_general(old(data).bits@.len() as int, value as nat)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_internal::encode_normally_small_length_determinent
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_len_small(old(data).bits@.len() as int, value as nat)),
@begin
    broadcast use group_enc;

//# ------------------------------------------------------------------ encode/mod.rs
@fn aper::encode::encode_choice_idx
    requires range_ok(lb as int, ub as int),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_integer(old(data).bits@.len() as int, Some(lb as int), Some(ub as int), is_extensible, idx as int, extended)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_sequence_header
    ensures
        encodes(*old(data), *final(data), r is Ok, enc_seq_header(is_extensible, optionals@, extended)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_integer
    requires bounds_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_integer(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, value as int, extended)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_bool
    ensures
        r is Ok, writes(*old(data), *final(data), seq![value]),

@fn aper::encode::encode_enumerated
    requires bounds_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_integer(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, value as int, extended)),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_bitstring
    requires sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_bitstring(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, bit_string@, extended)),
@begin
    hide(enc_len);
    broadcast use group_wstr;

@fn aper::encode::encode_octetstring
    requires sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_octetstring(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, octet_string@, extended)),
@begin
    hide(enc_len);
    broadcast use group_wstr;

@fn aper::encode::encode_length_determinent
    requires normally_small || sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            if normally_small { enc_len_small(old(data).bits@.len() as int, value as nat) }
            else { enc_len(old(data).bits@.len() as int, oint(lb), oint(ub), value as nat) }),
@begin
    broadcast use group_enc;

@fn aper::encode::encode_string
    requires sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_charstring(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, str_bytes(value@), extended)),
@begin
    hide(enc_len);
    broadcast use group_wstr;

@fn aper::encode::encode_visible_string
    requires sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_charstring(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, str_bytes(value@), extended)),

@fn aper::encode::encode_printable_string
    requires sizes_ok(lb, ub),
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_charstring(old(data).bits@.len() as int, oint(lb), oint(ub), is_extensible, str_bytes(value@), extended)),

@fn aper::encode::encode_utf8_string
    ensures
        encodes(*old(data), *final(data), r is Ok,
            enc_charstring(old(data).bits@.len() as int, None, None, false, str_bytes(value@), extended)),
