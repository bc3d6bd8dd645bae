// ---- Theorems over the specifications: decoding what was encoded, and the range of what is decoded ----
verus! {
pub mod theorems {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;
    use crate::bits::*;
    use crate::aperspec::*;
    use crate::hints::*;
    use crate::vspec::*;

    /// `s` stands in `b` at position `o`.
    pub open spec fn at(b: Seq<bool>, o: int, s: Seq<bool>) -> bool {
        0 <= o && o + s.len() <= b.len() && b.subrange(o, o + s.len()) == s
    }

    pub proof fn lemma_at_concat(pre: Seq<bool>, s: Seq<bool>, suf: Seq<bool>)
        ensures at(pre + s + suf, pre.len() as int, s)
    {
        assert((pre + s + suf).subrange(pre.len() as int, (pre.len() + s.len()) as int) =~= s);
    }

    pub broadcast proof fn lemma_at_split(b: Seq<bool>, o: int, x: Seq<bool>, y: Seq<bool>)
        requires #[trigger] at(b, o, x + y)
        ensures at(b, o, x), at(b, o + x.len(), y)
    {
        let s = x + y;
        assert(b.subrange(o, o + x.len()) =~= s.subrange(0, x.len() as int));
        assert(s.subrange(0, x.len() as int) =~= x);
        assert(b.subrange(o + x.len(), o + x.len() + y.len()) =~= s.subrange(x.len() as int, s.len() as int));
        assert(s.subrange(x.len() as int, s.len() as int) =~= y);
    }

    pub proof fn lemma_at_uint(b: Seq<bool>, o: int, v: nat, n: nat)
        requires at(b, o, be_bits(v, n)), v < pow2(n), v <= i128::MAX, n <= 128,
        ensures dec_uint(b, o, n) == Some((v as int, o + n)),
    {
        lemma_be_bits_len(v, n);
        lemma_bits_val_be_bits(v, n);
    }

    pub proof fn lemma_at_bit(b: Seq<bool>, o: int, x: bool)
        requires at(b, o, seq![x])
        ensures dec_bit(b, o) == Some((x, o + 1))
    {
        assert(b.subrange(o, o + 1)[0] == b[o]);
    }

    pub proof fn lemma_at_pad(b: Seq<bool>, o: int)
        requires at(b, o, x_zeros(x_pad(o)))
        ensures dec_align(b, o) == Some(o + x_pad(o))
    {
        let z = x_zeros(x_pad(o));
        assert(z.len() == x_pad(o));
        assert(b.subrange(o, o + x_pad(o)) == z);
    }

    pub proof fn lemma_octets_fit(o: nat)
        requires o <= i128::MAX
        ensures o < pow2(8 * x_octets(o)), 1 <= x_octets(o) <= 16
    {
        lemma_bitlen(o, 127);
        lemma_pow2_table();
        lemma_bitlen(o, 8 * x_octets(o));
    }

    /// 10.5
    pub proof fn theorem_cwn(b: Seq<bool>, p: int, lb: int, ub: int, v: int)
        requires enc_cwn(p, lb, ub, v) is Some, at(b, p, enc_cwn(p, lb, ub, v)->0), range_ok(lb, ub), 0 <= p,
        ensures dec_cwn(b, p, lb, ub) == Some((v, p + (enc_cwn(p, lb, ub, v)->0).len())),
    {
        broadcast use lemma_be_bits_len;
        let span = (ub - lb) as nat;
        let o = (v - lb) as nat;
        lemma_pow2_table();
        lemma_bitlen(span, bitlen(span));
        if span < 255 {
            lemma_bitlen_small(span);
            lemma_at_uint(b, p, o, bitlen(span));
        } else if span < 65536 {
            let w: nat = if span == 255 { 8 } else { 16 };
            lemma_at_split(b, p, x_zeros(x_pad(p)), be_bits(o, w));
            lemma_at_pad(b, p);
            lemma_at_uint(b, p + x_pad(p), o, w);
        } else {
            let m = x_octets(span);
            let w = bitlen((m - 1) as nat);
            let n = x_octets(o);
            lemma_octets_fit(span);
            lemma_octets_fit(o);
            lemma_octets_mono(o, span);
            lemma_bitlen_small((m - 1) as nat);
            lemma_bitlen((m - 1) as nat, w);
            lemma_pow2_table();
            let l = be_bits((n - 1) as nat, w);
            let z = x_zeros(x_pad(p + w));
            let c = be_bits(o, 8 * n);
            lemma_at_split(b, p, l + z, c);
            lemma_at_split(b, p, l, z);
            lemma_at_uint(b, p, (n - 1) as nat, w);
            lemma_at_pad(b, p + w);
            lemma_at_uint(b, p + w + z.len(), o, 8 * n);
        }
    }

    proof fn lemma_two_bits(n: nat)
        ensures
            n < 128 ==> be_bits(n, 8) =~= seq![false] + be_bits(n, 7),
            n < 16384 ==> be_bits(0x8000 + n, 16) =~= seq![true] + seq![false] + be_bits(n, 14),
    {
        lemma_pow2_table();
        assert(be_bits(0, 1) =~= seq![false]) by (compute);
        assert(be_bits(2, 2) =~= seq![true, false]) by (compute);
        assert(seq![true] + seq![false] =~= seq![true, false]);
        if n < 128 { lemma_be_bits_shift(0, n, 1, 7); }
        if n < 16384 { lemma_be_bits_shift(2, n, 2, 14); }
    }

    /// 10.9.3.6, 10.9.3.7
    pub proof fn theorem_len_general(b: Seq<bool>, p: int, n: nat)
        requires enc_len_general(p, n) is Some, at(b, p, enc_len_general(p, n)->0), 0 <= p,
        ensures dec_len_general(b, p) == Some((n, p + (enc_len_general(p, n)->0).len())),
    {
        broadcast use lemma_be_bits_len;
        lemma_pow2_table();
        lemma_two_bits(n);
        let z = x_zeros(x_pad(p));
        let q = p + z.len();
        if n < 128 {
            lemma_at_split(b, p, z, be_bits(n, 8));
            lemma_at_split(b, q, seq![false], be_bits(n, 7));
            lemma_at_bit(b, q, false);
            lemma_at_uint(b, q + 1, n, 7);
        } else {
            lemma_at_split(b, p, z, be_bits(0x8000 + n, 16));
            lemma_at_split(b, q, seq![true] + seq![false], be_bits(n, 14));
            lemma_at_split(b, q, seq![true], seq![false]);
            lemma_at_bit(b, q, true);
            lemma_at_bit(b, q + 1, false);
            lemma_at_uint(b, q + 2, n, 14);
        }
        lemma_at_pad(b, p);
    }

    pub open spec fn isizes_ok(lb: Option<int>, ub: Option<int>) -> bool {
        &&& lb is Some ==> 0 <= lb->0 <= usize::MAX
        &&& ub is Some ==> 0 <= ub->0 <= usize::MAX
        &&& lb is Some && ub is Some ==> lb->0 <= ub->0
    }

    /// 10.9
    pub proof fn theorem_len(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, n: nat)
        requires enc_len(p, lb, ub, n) is Some, at(b, p, enc_len(p, lb, ub, n)->0), 0 <= p, isizes_ok(lb, ub),
        ensures dec_len(b, p, lb, ub) == Some((n, p + (enc_len(p, lb, ub, n)->0).len())),
    {
        if len_is_general(ub) { theorem_len_general(b, p, n); }
        else { theorem_cwn(b, p, if lb is Some { lb->0 } else { 0 }, ub->0, n as int); }
    }

    /// 10.9.3.4
    pub proof fn theorem_len_small(b: Seq<bool>, p: int, n: nat)
        requires enc_len_small(p, n) is Some, at(b, p, enc_len_small(p, n)->0), 0 <= p,
        ensures dec_len_small(b, p) == Some((n, p + (enc_len_small(p, n)->0).len())),
    {
        broadcast use lemma_be_bits_len;
        lemma_pow2_table();
        if n <= 64 {
            lemma_at_split(b, p, seq![false], be_bits((n - 1) as nat, 6));
            lemma_at_bit(b, p, false);
            lemma_at_uint(b, p + 1, (n - 1) as nat, 6);
        } else {
            let e = enc_len_general(p + 1, n)->0;
            lemma_at_split(b, p, seq![true], e);
            lemma_at_bit(b, p, true);
            theorem_len_general(b, p + 1, n);
        }
    }

    /// 10.7
    pub proof fn theorem_semi(b: Seq<bool>, p: int, lb: int, v: int)
        requires
            enc_semi(p, lb, v) is Some, at(b, p, enc_semi(p, lb, v)->0), 0 <= p, v <= i128::MAX,
        ensures dec_semi(b, p, lb) == Some((v, p + (enc_semi(p, lb, v)->0).len())),
    {
        broadcast use lemma_be_bits_len;
        let o = (v - lb) as nat;
        let n = x_octets(o);
        lemma_octets_fit(o);
        let e = enc_len_general(p, n)->0;
        lemma_at_split(b, p, e, be_bits(o, 8 * n));
        theorem_len_general(b, p, n);
        lemma_at_uint(b, p + e.len(), o, 8 * n);
    }

    proof fn lemma_sval(v: int, n: nat)
        requires i128::MIN <= v <= i128::MAX, n == x_soctets(v),
        ensures 1 <= n <= 16, sbits_val(be_bits(twos(v, 8 * n), 8 * n)) == v,
    {
        lemma_pow2_table();
        let m: nat = if v >= 0 { v as nat } else { (-(v + 1)) as nat };
        lemma_bitlen(m, 127);
        let w = 8 * n;
        lemma_bitlen(m, (w - 1) as nat);
        lemma_pow2_unfold(w);
        let t = twos(v, w);
        lemma_bits_val_be_bits(t, w);
        lemma_be_bits_len(t, w);
        lemma_top_bit(be_bits(t, w));
    }

    /// 10.8
    pub proof fn theorem_uwn(b: Seq<bool>, p: int, v: int)
        requires enc_uwn(p, v) is Some, at(b, p, enc_uwn(p, v)->0), 0 <= p, i128::MIN <= v <= i128::MAX,
        ensures dec_uwn(b, p) == Some((v, p + (enc_uwn(p, v)->0).len())),
    {
        broadcast use lemma_be_bits_len;
        let n = x_soctets(v);
        lemma_sval(v, n);
        let e = enc_len_general(p, n)->0;
        lemma_at_split(b, p, e, be_bits(twos(v, 8 * n), 8 * n));
        theorem_len_general(b, p, n);
    }

    pub open spec fn ibounds_ok(lb: Option<int>, ub: Option<int>) -> bool {
        lb is Some && ub is Some ==> range_ok(lb->0, ub->0)
    }

    pub proof fn theorem_int_root(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, v: int)
        requires
            enc_int_root(p, lb, ub, v) is Some, at(b, p, enc_int_root(p, lb, ub, v)->0), 0 <= p,
            ibounds_ok(lb, ub), i128::MIN <= v <= i128::MAX,
        ensures dec_int_root(b, p, lb, ub) == Some((v, p + (enc_int_root(p, lb, ub, v)->0).len())),
    {
        match (lb, ub) {
            (None, _) => theorem_uwn(b, p, v),
            (Some(l), None) => theorem_semi(b, p, l, v),
            (Some(l), Some(u)) => theorem_cwn(b, p, l, u, v),
        }
    }

    proof fn lemma_at_ebit(b: Seq<bool>, p: int, ext: bool, x: Seq<bool>)
        requires at(b, p, ebit(ext) + x)
        ensures
            dec_ebit(b, p, ext) == Some((false, p + ebit(ext).len())),
            at(b, p + ebit(ext).len(), x),
    {
        lemma_at_split(b, p, ebit(ext), x);
        if ext { lemma_at_bit(b, p, false); }
    }

    /// 12
    pub proof fn theorem_integer(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, ext: bool, v: int, extended: bool)
        requires
            enc_integer(p, lb, ub, ext, v, extended) is Some, at(b, p, enc_integer(p, lb, ub, ext, v, extended)->0),
            0 <= p, ibounds_ok(lb, ub), i128::MIN <= v <= i128::MAX,
        ensures
            dec_integer(b, p, lb, ub, ext) == Some(((v, false), p + (enc_integer(p, lb, ub, ext, v, extended)->0).len())),
            dec_index(b, p, lb, ub, ext) == Some(((v, false), p + (enc_integer(p, lb, ub, ext, v, extended)->0).len())),
    {
        let q = p + ebit(ext).len();
        lemma_at_ebit(b, p, ext, enc_int_root(q, lb, ub, v)->0);
        theorem_int_root(b, q, lb, ub, v);
    }

    /// 18
    pub proof fn theorem_seq_header(b: Seq<bool>, p: int, ext: bool, optionals: Seq<bool>, extended: bool)
        requires
            enc_seq_header(ext, optionals, extended) is Some, at(b, p, enc_seq_header(ext, optionals, extended)->0), 0 <= p,
        ensures
            dec_seq_header(b, p, ext, optionals.len())
                == Some(((optionals, false), p + (enc_seq_header(ext, optionals, extended)->0).len())),
    {
        lemma_at_ebit(b, p, ext, optionals);
    }

    /// A string: extension bit, length, padding, contents.
    proof fn lemma_string_parts(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, ext: bool, n: nat, padded: bool, s: Seq<bool>)
        requires
            0 <= p, isizes_ok(lb, ub),
            enc_len(p + ebit(ext).len(), lb, ub, n) is Some,
            ({
                let q = p + ebit(ext).len();
                let l = enc_len(q, lb, ub, n)->0;
                at(b, p, ebit(ext) + l + x_zeros(if padded && s.len() > 0 { x_pad(q + l.len()) } else { 0 }) + s)
            }),
        ensures
            ({
                let q = p + ebit(ext).len();
                let l = enc_len(q, lb, ub, n)->0;
                let z = x_zeros(if padded && s.len() > 0 { x_pad(q + l.len()) } else { 0 });
                &&& dec_ebit(b, p, ext) == Some((false, q))
                &&& dec_len(b, q, lb, ub) == Some((n, q + l.len()))
                &&& dec_contents(b, q + l.len(), padded, s.len()) == Some((s, q + l.len() + z.len() + s.len()))
            }),
    {
        let q = p + ebit(ext).len();
        let l = enc_len(q, lb, ub, n)->0;
        let z = x_zeros(if padded && s.len() > 0 { x_pad(q + l.len()) } else { 0 });
        lemma_at_split(b, p, ebit(ext) + l + z, s);
        lemma_at_split(b, p, ebit(ext) + l, z);
        lemma_at_ebit(b, p, ext, l);
        theorem_len(b, q, lb, ub, n);
        if padded && s.len() > 0 { lemma_at_pad(b, q + l.len()); }
        if s.len() == 0 { assert(s =~= Seq::<bool>::empty()); }
    }

    proof fn lemma_len_below_frag(p: int, lb: Option<int>, ub: Option<int>, n: nat)
        requires enc_len(p, lb, ub, n) is Some, len_is_general(ub),
        ensures n < 16384,
    {}

    proof fn lemma_one_chunk(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, unit: nat, n: nat, q: int, s: Seq<bool>, q2: int)
        requires
            n < 16384, s.len() == n * unit,
            dec_len(b, o, lb, ub) == Some((n, q)),
            dec_contents(b, q, !(is_fixed(lb, ub) && n * unit <= 16), s.len()) == Some((s, q2)),
        ensures dec_string(b, o, lb, ub, unit, Seq::empty()) == Some((s, q2)),
    {
        hide(dec_len); hide(dec_contents);
        assert(Seq::<bool>::empty() + s =~= s);
    }

    /// 15
    pub proof fn theorem_bitstring(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<bool>, extended: bool)
        requires
            enc_bitstring(p, lb, ub, ext, s, extended) is Some, at(b, p, enc_bitstring(p, lb, ub, ext, s, extended)->0),
            0 <= p, isizes_ok(lb, ub),
        ensures
            dec_sized(b, p, lb, ub, ext, 1) == Some((s, p + (enc_bitstring(p, lb, ub, ext, s, extended)->0).len())),
    {
        hide(dec_len); hide(dec_contents); hide(dec_ebit); hide(enc_len); hide(dec_string); hide(dec_chunk);
        broadcast use lemma_bytes_bits_len;
        let q = p + ebit(ext).len();
        let l = enc_len(q, lb, ub, s.len())->0;
        let padded = !(is_fixed(lb, ub) && s.len() <= 16);
        let z = x_zeros(str_pad(q + l.len(), lb, ub, s.len()));
        assert(z == x_zeros(if padded && s.len() > 0 { x_pad(q + l.len()) } else { 0 }));
        lemma_string_parts(b, p, lb, ub, ext, s.len(), padded, s);
        lemma_one_chunk(b, q, lb, ub, 1, s.len(), q + l.len(), s, q + l.len() + z.len() + s.len());
        assert((ebit(ext) + l + z + s).len() == ebit(ext).len() + l.len() + z.len() + s.len());
    }

    /// 16
    pub proof fn theorem_octetstring(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<u8>, extended: bool)
        requires
            enc_octetstring(p, lb, ub, ext, s, extended) is Some, at(b, p, enc_octetstring(p, lb, ub, ext, s, extended)->0),
            0 <= p, isizes_ok(lb, ub),
        ensures
            dec_sized(b, p, lb, ub, ext, 8)
                == Some((bytes_bits(s), p + (enc_octetstring(p, lb, ub, ext, s, extended)->0).len())),
    {
        hide(dec_len); hide(dec_contents); hide(dec_ebit); hide(enc_len); hide(dec_string); hide(dec_chunk);
        broadcast use lemma_bytes_bits_len;
        let q = p + ebit(ext).len();
        let l = enc_len(q, lb, ub, s.len())->0;
        let padded = !(is_fixed(lb, ub) && 8 * s.len() <= 16);
        let z = x_zeros(str_pad(q + l.len(), lb, ub, 8 * s.len()));
        assert(z == x_zeros(if padded && bytes_bits(s).len() > 0 { x_pad(q + l.len()) } else { 0 }));
        lemma_string_parts(b, p, lb, ub, ext, s.len(), padded, bytes_bits(s));
        lemma_one_chunk(b, q, lb, ub, 8, s.len(), q + l.len(), bytes_bits(s), q + l.len() + z.len() + bytes_bits(s).len());
        assert((ebit(ext) + l + z + bytes_bits(s)).len() == ebit(ext).len() + l.len() + z.len() + bytes_bits(s).len());
    }

    /// 27: of the octets of a character string
    pub proof fn theorem_charstring(b: Seq<bool>, p: int, lb: Option<int>, ub: Option<int>, ext: bool, s: Seq<u8>, extended: bool)
        requires
            enc_charstring(p, lb, ub, ext, s, extended) is Some, at(b, p, enc_charstring(p, lb, ub, ext, s, extended)->0),
            0 <= p, isizes_ok(lb, ub),
        ensures
            dec_chars(b, p, lb, ub, ext)
                == Some((bytes_bits(s), p + (enc_charstring(p, lb, ub, ext, s, extended)->0).len())),
            bits_bytes(bytes_bits(s)) == s,
    {
        hide(dec_len); hide(dec_contents); hide(dec_ebit); hide(enc_len);
        broadcast use lemma_bytes_bits_len;
        lemma_bytes_bits_inverse(s);
        let q = p + ebit(ext).len();
        let l = enc_len(q, lb, ub, s.len())->0;
        let padded = !(is_fixed(lb, ub) && 8 * s.len() <= 16) && ub != Some(1int);
        let z = x_zeros(char_pad(q + l.len(), lb, ub, 8 * s.len()));
        assert(z == x_zeros(if padded && bytes_bits(s).len() > 0 { x_pad(q + l.len()) } else { 0 }));
        lemma_string_parts(b, p, lb, ub, ext, s.len(), padded, bytes_bits(s));
        if len_is_general(ub) { lemma_len_below_frag(q, lb, ub, s.len()); }
        assert((ebit(ext) + l + z + bytes_bits(s)).len() == ebit(ext).len() + l.len() + z.len() + bytes_bits(s).len());
    }

    // ------------------------------------------------------------ range of decoded values

    pub proof fn theorem_range_integer(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool)
        requires 0 <= o <= b.len(), dec_integer(b, o, lb, ub, ext) is Some, !((dec_integer(b, o, lb, ub, ext)->0).0).1,
        ensures ({
            let v = ((dec_integer(b, o, lb, ub, ext)->0).0).0;
            &&& lb is Some ==> lb->0 <= v
            &&& lb is Some && ub is Some ==> v <= ub->0
        }),
    {
    }

    pub proof fn theorem_range_index(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool)
        requires 0 <= o <= b.len(), dec_index(b, o, lb, ub, ext) is Some, !((dec_index(b, o, lb, ub, ext)->0).0).1,
        ensures ({
            let v = ((dec_index(b, o, lb, ub, ext)->0).0).0;
            &&& lb is Some ==> lb->0 <= v
            &&& lb is Some && ub is Some ==> v <= ub->0
        }),
    {
    }

    pub proof fn theorem_range_sized(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, unit: nat)
        requires
            0 <= o <= b.len(), isizes_ok(lb, ub), !len_is_general(ub), unit == 1 || unit == 8,
            dec_string(b, o, lb, ub, unit, Seq::empty()) is Some,
        ensures ({
            let s = (dec_string(b, o, lb, ub, unit, Seq::empty())->0).0;
            &&& s.len() % unit == 0
            &&& s.len() <= unit * ub->0
            &&& lb is Some ==> unit * lb->0 <= s.len()
        }),
    {
        lemma_dec_len(b, o, lb, ub);
        let (n, q) = dec_len(b, o, lb, ub)->0;
        assert(n * unit == unit * n) by (nonlinear_arith);
        assert(unit * n <= unit * ub->0) by (nonlinear_arith) requires n <= ub->0;
        if lb is Some { assert(unit * lb->0 <= unit * n) by (nonlinear_arith) requires lb->0 <= n; }
        lemma_dec_align(b, q);
    }

    pub proof fn theorem_range_chars(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>)
        requires
            0 <= o <= b.len(), isizes_ok(lb, ub), !len_is_general(ub), dec_chars(b, o, lb, ub, false) is Some,
        ensures ({
            let s = bits_bytes((dec_chars(b, o, lb, ub, false)->0).0);
            &&& s.len() <= ub->0
            &&& lb is Some ==> lb->0 <= s.len()
        }),
    {
        lemma_dec_len(b, o, lb, ub);
        let (n, q) = dec_len(b, o, lb, ub)->0;
        lemma_dec_align(b, q);
    }
}
} // verus!
