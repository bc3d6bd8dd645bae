// ---- X.691 (Aligned PER) as mathematics: what each encoder must append and each decoder read ----
// Positions matter only modulo 8 (alignment).  `None` means "must be an error".
verus! {
pub mod aperspec {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;
    use crate::bits::*;

    pub open spec fn x_pad(p: int) -> nat { ((8 - p % 8) % 8) as nat }

    /// Octets of a non-negative whole number, at least one (10.3.6).
    pub open spec fn x_octets(v: nat) -> nat { if v == 0 { 1 } else { (bitlen(v) + 7) / 8 } }

    /// Octets of a two's complement whole number (10.4.6).
    pub open spec fn x_soctets(v: int) -> nat {
        if v >= 0 { bitlen(v as nat) / 8 + 1 } else { bitlen((-(v + 1)) as nat) / 8 + 1 }
    }

    pub open spec fn ebit(ext: bool) -> Seq<bool> { if ext { seq![false] } else { Seq::empty() } }

    pub open spec fn oint(x: Option<i128>) -> Option<int> {
        match x { Some(v) => Some(v as int), None => None }
    }

    // ---------------------------------------------------------------- encoders

    /// 10.5: constrained whole number
    pub open spec fn enc_cwn(p: int, lb: int, ub: int, v: int) -> Option<Seq<bool>> {
        if v < lb || v > ub { None } else {
            let span = (ub - lb) as nat;
            let o = (v - lb) as nat;
            if span < 255 { Some(be_bits(o, bitlen(span))) }
            else if span == 255 { Some(x_zeros(x_pad(p)) + be_bits(o, 8)) }
            else if span < 65536 { Some(x_zeros(x_pad(p)) + be_bits(o, 16)) }
            else {
                let w = bitlen((x_octets(span) - 1) as nat);
                let n = x_octets(o);
                Some(be_bits((n - 1) as nat, w) + x_zeros(x_pad(p + w)) + be_bits(o, 8 * n))
            }
        }
    }

    /// 10.9.3.6, 10.9.3.7: general length determinant (fragments are not produced)
    pub open spec fn enc_len_general(p: int, n: nat) -> Option<Seq<bool>> {
        if n < 128 { Some(x_zeros(x_pad(p)) + be_bits(n, 8)) }
        else if n < 16384 { Some(x_zeros(x_pad(p)) + be_bits(0x8000 + n, 16)) }
        else { None }
    }

    /// 10.9: length determinant
    pub open spec fn enc_len(p: int, lb: Option<int>, ub: Option<int>, n: nat) -> Option<Seq<bool>> {
        match ub {
            Some(u) if u < 65536 => enc_cwn(p, if lb is Some { lb->0 } else { 0 }, u, n as int),
            _ => if (ub is Some && n > ub->0) || (lb is Some && n < lb->0) { None }
                 else { enc_len_general(p, n) },
        }
    }

    /// 10.9.3.4: normally small length
    pub open spec fn enc_len_small(p: int, n: nat) -> Option<Seq<bool>> {
        if n == 0 { None }
        else if n <= 64 { Some(seq![false] + be_bits((n - 1) as nat, 6)) }
        else { match enc_len_general(p + 1, n) { Some(e) => Some(seq![true] + e), None => None } }
    }

    /// 10.7: semi-constrained whole number
    pub open spec fn enc_semi(p: int, lb: int, v: int) -> Option<Seq<bool>> {
        if v < lb || v - lb > i128::MAX { None } else {
            let n = x_octets((v - lb) as nat);
            match enc_len_general(p, n) {
                Some(e) => Some(e + be_bits((v - lb) as nat, 8 * n)),
                None => None,
            }
        }
    }

    /// 10.8: unconstrained whole number
    pub open spec fn enc_uwn(p: int, v: int) -> Option<Seq<bool>> {
        let n = x_soctets(v);
        match enc_len_general(p, n) {
            Some(e) => Some(e + be_bits(twos(v, 8 * n), 8 * n)),
            None => None,
        }
    }

    pub open spec fn enc_int_root(p: int, lb: Option<int>, ub: Option<int>, v: int) -> Option<Seq<bool>> {
        match (lb, ub) {
            (None, _) => enc_uwn(p, v),
            (Some(l), None) => enc_semi(p, l, v),
            (Some(l), Some(u)) => enc_cwn(p, l, u, v),
        }
    }

    pub open spec fn opt_cat(a: Seq<bool>, b: Option<Seq<bool>>) -> Option<Seq<bool>> {
        match b { Some(x) => Some(a + x), None => None }
    }

    /// 12: INTEGER, also CHOICE indices (22) and ENUMERATED (13) within the root
    pub open spec fn enc_integer(p: int, lb: Option<int>, ub: Option<int>, ext: bool, v: int, extended: bool)
        -> Option<Seq<bool>>
    {
        if extended { None } else { opt_cat(ebit(ext), enc_int_root(p + ebit(ext).len(), lb, ub, v)) }
    }

    /// 18: SEQUENCE preamble
    pub open spec fn enc_seq_header(ext: bool, optionals: Seq<bool>, extended: bool) -> Option<Seq<bool>> {
        if extended { None } else { Some(ebit(ext) + optionals) }
    }

    pub open spec fn is_fixed(lb: Option<int>, ub: Option<int>) -> bool { lb is Some && lb == ub }

    /// Padding before string contents of `bits` bits: none for a fixed size of at most 16 bits,
    /// none when empty (10.9.3.3 NOTE).
    pub open spec fn str_pad(p: int, lb: Option<int>, ub: Option<int>, bits: nat) -> nat {
        if bits == 0 || (is_fixed(lb, ub) && bits <= 16) { 0 } else { x_pad(p) }
    }

    /// Character strings (27.5.6, 27.5.7): additionally none for variable size of at most one octet.
    pub open spec fn char_pad(p: int, lb: Option<int>, ub: Option<int>, bits: nat) -> nat {
        if ub == Some(1int) { 0 } else { str_pad(p, lb, ub, bits) }
    }

    /// 15: BIT STRING
    pub open spec fn enc_bitstring(p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<bool>, extended: bool)
        -> Option<Seq<bool>>
    {
        if extended || s.len() >= 16384 { None } else {
            let q = p + ebit(ext).len();
            match enc_len(q, lb, ub, s.len()) {
                Some(l) => Some(ebit(ext) + l + x_zeros(str_pad(q + l.len(), lb, ub, s.len())) + s),
                None => None,
            }
        }
    }

    /// 16: OCTET STRING
    pub open spec fn enc_octetstring(p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<u8>, extended: bool)
        -> Option<Seq<bool>>
    {
        if extended || s.len() >= 16384 { None } else {
            let q = p + ebit(ext).len();
            match enc_len(q, lb, ub, s.len()) {
                Some(l) => Some(ebit(ext) + l + x_zeros(str_pad(q + l.len(), lb, ub, 8 * s.len())) + bytes_bits(s)),
                None => None,
            }
        }
    }

    /// 27: character strings of 8 bits a character
    pub open spec fn enc_charstring(p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<u8>, extended: bool)
        -> Option<Seq<bool>>
    {
        if extended { None } else {
            let q = p + ebit(ext).len();
            match enc_len(q, lb, ub, s.len()) {
                Some(l) => Some(ebit(ext) + l + x_zeros(char_pad(q + l.len(), lb, ub, 8 * s.len())) + bytes_bits(s)),
                None => None,
            }
        }
    }

    // ---------------------------------------------------------------- decoders
    // A decoder reads b from offset o; Some((value, new offset)) or None (error).

    pub open spec fn dec_bit(b: Seq<bool>, o: int) -> Option<(bool, int)> {
        if o < b.len() { Some((b[o], o + 1)) } else { None }
    }

    pub open spec fn dec_ebit(b: Seq<bool>, o: int, ext: bool) -> Option<(bool, int)> {
        if ext { dec_bit(b, o) } else { Some((false, o)) }
    }

    pub open spec fn dec_bits(b: Seq<bool>, o: int, n: nat) -> Option<(Seq<bool>, int)> {
        if o + n <= b.len() { Some((b.subrange(o, o + n), o + n)) } else { None }
    }

    /// Unsigned field of n bits; values above i128::MAX are not representable.
    pub open spec fn dec_uint(b: Seq<bool>, o: int, n: nat) -> Option<(int, int)> {
        if o + n <= b.len() && n <= 128 && bits_val(b.subrange(o, o + n)) <= i128::MAX {
            Some((bits_val(b.subrange(o, o + n)) as int, o + n))
        } else { None }
    }

    /// Two's complement field.
    pub open spec fn dec_sint(b: Seq<bool>, o: int, n: nat) -> Option<(int, int)> {
        if o + n <= b.len() && 8 <= n <= 128 && n % 8 == 0 {
            Some((sbits_val(b.subrange(o, o + n)), o + n))
        } else { None }
    }

    pub open spec fn dec_align(b: Seq<bool>, o: int) -> Option<int> {
        let q = o + x_pad(o);
        if q <= b.len() && all_zero(b.subrange(o, q)) { Some(q) } else { None }
    }

    pub open spec fn dec_aligned_uint(b: Seq<bool>, o: int, n: nat) -> Option<(int, int)> {
        match dec_align(b, o) { Some(q) => dec_uint(b, q, n), None => None }
    }

    pub open spec fn dec_offset_field(b: Seq<bool>, o: int, span: nat) -> Option<(int, int)> {
        if span < 255 { dec_uint(b, o, bitlen(span)) }
        else if span == 255 { dec_aligned_uint(b, o, 8) }
        else if span < 65536 { dec_aligned_uint(b, o, 16) }
        else {
            let m = x_octets(span);
            match dec_uint(b, o, bitlen((m - 1) as nat)) {
                Some((l, q)) => if l + 1 > m { None } else { dec_aligned_uint(b, q, (8 * (l + 1)) as nat) },
                None => None,
            }
        }
    }

    pub open spec fn dec_cwn(b: Seq<bool>, o: int, lb: int, ub: int) -> Option<(int, int)> {
        if ub < lb { None } else {
            match dec_offset_field(b, o, (ub - lb) as nat) {
                Some((v, q)) => if v > ub - lb { None } else { Some((v + lb, q)) },
                None => None,
            }
        }
    }

    pub open spec fn dec_len_general(b: Seq<bool>, o: int) -> Option<(nat, int)> {
        match dec_align(b, o) {
            Some(q) => match dec_bit(b, q) {
                Some((false, q1)) => match dec_uint(b, q1, 7) { Some((v, q2)) => Some((v as nat, q2)), None => None },
                Some((true, q1)) => match dec_bit(b, q1) {
                    Some((false, q2)) => match dec_uint(b, q2, 14) { Some((v, q3)) => Some((v as nat, q3)), None => None },
                    Some((true, q2)) => match dec_uint(b, q2, 6) {
                        Some((v, q3)) => if 1 <= v <= 4 { Some(((v * 16384) as nat, q3)) } else { None },
                        None => None,
                    },
                    None => None,
                },
                None => None,
            },
            None => None,
        }
    }

    pub open spec fn len_is_general(ub: Option<int>) -> bool { ub is None || ub->0 >= 65536 }

    pub open spec fn dec_len(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>) -> Option<(nat, int)> {
        if len_is_general(ub) { dec_len_general(b, o) }
        else {
            match dec_cwn(b, o, if lb is Some { lb->0 } else { 0 }, ub->0) {
                Some((v, q)) => Some((v as nat, q)),
                None => None,
            }
        }
    }

    pub open spec fn dec_len_small(b: Seq<bool>, o: int) -> Option<(nat, int)> {
        match dec_bit(b, o) {
            Some((false, q)) => match dec_uint(b, q, 6) { Some((v, q2)) => Some(((v + 1) as nat, q2)), None => None },
            Some((true, q)) => dec_len_general(b, q),
            None => None,
        }
    }

    pub open spec fn dec_semi(b: Seq<bool>, o: int, lb: int) -> Option<(int, int)> {
        match dec_len_general(b, o) {
            Some((n, q)) => match dec_uint(b, q, 8 * n) {
                Some((v, q2)) => if v + lb > i128::MAX { None } else { Some((v + lb, q2)) },
                None => None,
            },
            None => None,
        }
    }

    pub open spec fn dec_uwn(b: Seq<bool>, o: int) -> Option<(int, int)> {
        match dec_len_general(b, o) { Some((n, q)) => dec_sint(b, q, 8 * n), None => None }
    }

    /// 10.6: normally small non-negative whole number
    pub open spec fn dec_small(b: Seq<bool>, o: int) -> Option<(int, int)> {
        match dec_bit(b, o) {
            Some((false, q)) => dec_uint(b, q, 6),
            Some((true, q)) => dec_semi(b, q, 0),
            None => None,
        }
    }

    pub open spec fn dec_int_root(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>) -> Option<(int, int)> {
        match (lb, ub) {
            (None, _) => dec_uwn(b, o),
            (Some(l), None) => dec_semi(b, o, l),
            (Some(l), Some(u)) => dec_cwn(b, o, l, u),
        }
    }

    pub open spec fn dec_integer(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool)
        -> Option<((int, bool), int)>
    {
        match dec_ebit(b, o, ext) {
            Some((x, q)) => match if x { dec_uwn(b, q) } else { dec_int_root(b, q, lb, ub) } {
                Some((v, q2)) => Some(((v, x), q2)),
                None => None,
            },
            None => None,
        }
    }

    /// ENUMERATED (13.3) and CHOICE index (22.5, 22.8)
    pub open spec fn dec_index(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool)
        -> Option<((int, bool), int)>
    {
        match dec_ebit(b, o, ext) {
            Some((x, q)) => match if x { dec_small(b, q) } else { dec_int_root(b, q, lb, ub) } {
                Some((v, q2)) => Some(((v, x), q2)),
                None => None,
            },
            None => None,
        }
    }

    pub open spec fn dec_seq_header(b: Seq<bool>, o: int, ext: bool, n: nat) -> Option<((Seq<bool>, bool), int)> {
        match dec_ebit(b, o, ext) {
            Some((x, q)) => match dec_bits(b, q, n) { Some((s, q2)) => Some(((s, x), q2)), None => None },
            None => None,
        }
    }

    /// Contents of `n` items of `unit` bits after their length, with its padding.
    pub open spec fn dec_contents(b: Seq<bool>, o: int, padded: bool, n: nat) -> Option<(Seq<bool>, int)> {
        if n == 0 { Some((Seq::empty(), o)) }
        else if padded { match dec_align(b, o) { Some(q) => dec_bits(b, q, n), None => None } }
        else { dec_bits(b, o, n) }
    }

    /// One length-prefixed chunk: its bits, the offset after it, and whether another follows
    /// (10.9.3.8).
    pub open spec fn dec_chunk(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, unit: nat)
        -> Option<(Seq<bool>, int, bool)>
    {
        match dec_len(b, o, lb, ub) {
            Some((n, q)) => match dec_contents(b, q, !(is_fixed(lb, ub) && n * unit <= 16), n * unit) {
                Some((s, q2)) => Some((s, q2, len_is_general(ub) && n >= 16384)),
                None => None,
            },
            None => None,
        }
    }

    /// Length-prefixed bits after `acc`, reassembling fragments.
    pub open spec fn dec_string(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, unit: nat, acc: Seq<bool>)
        -> Option<(Seq<bool>, int)>
        decreases b.len() - o
    {
        match dec_chunk(b, o, lb, ub, unit) {
            Some((s, q, more)) =>
                if !more { Some((acc + s, q)) }
                else if o < q <= b.len() { dec_string(b, q, lb, ub, unit, acc + s) }
                else { None },
            None => None,
        }
    }

    pub open spec fn dec_sized(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool, unit: nat)
        -> Option<(Seq<bool>, int)>
    {
        match dec_ebit(b, o, ext) {
            Some((x, q)) => if x { dec_string(b, q, None, None, unit, Seq::empty()) } else { dec_string(b, q, lb, ub, unit, Seq::empty()) },
            None => None,
        }
    }

    /// Character strings: as dec_sized with 8-bit units, but fragments are refused and the padding
    /// rule is that of 27.5.7.
    pub open spec fn dec_chars(b: Seq<bool>, o: int, lb0: Option<int>, ub0: Option<int>, ext: bool)
        -> Option<(Seq<bool>, int)>
    {
        match dec_ebit(b, o, ext) {
            Some((x, q0)) => {
                let lb = if x { None } else { lb0 };
                let ub = if x { None } else { ub0 };
                match dec_len(b, q0, lb, ub) {
                    Some((n, q)) => if len_is_general(ub) && n >= 16384 { None } else {
                        dec_contents(b, q, !(is_fixed(lb, ub) && 8 * n <= 16) && ub != Some(1int), 8 * n)
                    },
                    None => None,
                }
            },
            None => None,
        }
    }

    /// 19.7 to 19.9 (18.7 to 18.9 in the older edition): the extension additions of a SEQUENCE, none of which is known, are skipped.
    pub open spec fn dec_additions(b: Seq<bool>, o: int) -> Option<int> {
        match dec_len_small(b, o) {
            Some((n, q)) => if n >= 16384 { None } else {
                match dec_bits(b, q, n) { Some((bm, q2)) => skip_open(b, q2, bm), None => None }
            },
            None => None,
        }
    }
    pub open spec fn skip_open(b: Seq<bool>, o: int, bm: Seq<bool>) -> Option<int>
        decreases bm.len()
    {
        if bm.len() == 0 { Some(o) }
        else if !bm[0] { skip_open(b, o, bm.drop_first()) }
        else {
            match dec_sized(b, o, None, None, false, 8) {
                Some((_, q)) => skip_open(b, q, bm.drop_first()),
                None => None,
            }
        }
    }
}
} // verus!
