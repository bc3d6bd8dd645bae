// ---- Proved facts used as solver hints (bit-vector facts about Rust's casts and masks) ----
verus! {
pub mod hints {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;
    use crate::bits::*;
    use crate::aperspec::*;
    use crate::bitvec::*;

    /// TYPE INVARIANT of bitvec (assumed): a BitVec never holds more than MAX_BITS bits; growing
    /// past that panics with a capacity overflow.
    #[verifier::external_body]
    pub broadcast proof fn axiom_bitvec_len<T, O>(v: BitVec<T, O>)
        ensures #[trigger] v@.len() <= MAX_BITS {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_bitslice_len<T, O>(v: BitSlice<T, O>)
        ensures #[trigger] v@.len() <= MAX_BITS {}

    pub broadcast proof fn lemma_and7(x: usize)
        ensures #[trigger] (x & 7usize) == x % 8
    { assert(x & 7usize == x % 8) by (bit_vector); }

    pub broadcast proof fn lemma_cast_i128_u8(v: i128)
        requires v >= 0
        ensures #[trigger] (v as u8) == v % 256
    { assert(v >= 0 ==> (v as u8) == v % 256) by (bit_vector); }

    pub broadcast proof fn lemma_cast_i128_u16(v: i128)
        requires v >= 0
        ensures #[trigger] (v as u16) == v % 65536
    { assert(v >= 0 ==> (v as u16) == v % 65536) by (bit_vector); }

    pub broadcast proof fn lemma_cast_usize_u8(v: usize)
        ensures #[trigger] (v as u8) == v % 256
    { assert((v as u8) == v % 256) by (bit_vector); }

    pub broadcast proof fn lemma_cast_usize_u16(v: usize)
        ensures #[trigger] (v as u16) == v % 65536
    { assert((v as u16) == v % 65536) by (bit_vector); }

    pub broadcast proof fn lemma_or_8000(v: u16)
        requires v < 0x8000
        ensures #[trigger] (v | 0x8000u16) == v + 0x8000
    { assert(v < 0x8000 ==> (v | 0x8000u16) == v + 0x8000) by (bit_vector); }

    pub broadcast proof fn lemma_cast_u128_i128(v: u128)
        requires v <= i128::MAX
        ensures #[trigger] (v as i128) == v
    {}

    pub proof fn lemma_pow2_table()
        ensures
            pow2(0) == 1, pow2(1) == 2, pow2(7) == 0x80, pow2(8) == 0x100, pow2(16) == 0x1_0000, pow2(24) == 0x100_0000,
            pow2(32) == 0x1_0000_0000, pow2(40) == 0x100_0000_0000, pow2(48) == 0x1_0000_0000_0000,
            pow2(56) == 0x100_0000_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000,
            pow2(72) == 0x100_0000_0000_0000_0000, pow2(80) == 0x1_0000_0000_0000_0000_0000,
            pow2(88) == 0x100_0000_0000_0000_0000_0000, pow2(96) == 0x1_0000_0000_0000_0000_0000_0000,
            pow2(104) == 0x100_0000_0000_0000_0000_0000_0000,
            pow2(112) == 0x1_0000_0000_0000_0000_0000_0000_0000,
            pow2(120) == 0x100_0000_0000_0000_0000_0000_0000_0000,
            pow2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000,
            pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
            pow2(15) == 0x8000, pow2(23) == 0x80_0000, pow2(31) == 0x8000_0000,
            pow2(39) == 0x80_0000_0000, pow2(47) == 0x8000_0000_0000,
            pow2(55) == 0x80_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000,
            pow2(71) == 0x80_0000_0000_0000_0000, pow2(79) == 0x8000_0000_0000_0000_0000,
            pow2(87) == 0x80_0000_0000_0000_0000_0000, pow2(95) == 0x8000_0000_0000_0000_0000_0000,
            pow2(103) == 0x80_0000_0000_0000_0000_0000_0000,
            pow2(111) == 0x8000_0000_0000_0000_0000_0000_0000,
            pow2(119) == 0x80_0000_0000_0000_0000_0000_0000_0000,
            pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, pow2(5) == 32, pow2(6) == 64, pow2(14) == 16384,
    {
        lemma2_to64();
        lemma2_to64_rest();
        lemma_pow2_adds(64, 7); lemma_pow2_adds(64, 8); lemma_pow2_adds(64, 15); lemma_pow2_adds(64, 16);
        lemma_pow2_adds(64, 23); lemma_pow2_adds(64, 24); lemma_pow2_adds(64, 31); lemma_pow2_adds(64, 32);
        lemma_pow2_adds(64, 39); lemma_pow2_adds(64, 40); lemma_pow2_adds(64, 47); lemma_pow2_adds(64, 48);
        lemma_pow2_adds(64, 55); lemma_pow2_adds(64, 56); lemma_pow2_adds(64, 63); lemma_pow2_adds(64, 64);
    }

    pub open spec fn sx(x: int, w: nat) -> int { if x < pow2((w - 1) as nat) { x } else { x - pow2(w) } }

    pub broadcast proof fn lemma_top_bit(s: Seq<bool>)
        requires s.len() > 0
        ensures
            #![trigger bits_val(s)]
            s[0] == (bits_val(s) >= pow2((s.len() - 1) as nat)),
        decreases s.len()
    {
        lemma2_to64();
        if s.len() == 1 {
            assert(s.drop_last() =~= Seq::<bool>::empty());
            assert(bits_val(s.drop_last()) == 0);
        } else {
            lemma_top_bit(s.drop_last());
            lemma_pow2_unfold((s.len() - 1) as nat);
        }
    }

    pub broadcast proof fn lemma_bits_val_127(s: Seq<bool>)
        requires s.len() <= 127
        ensures #[trigger] bits_val(s) <= i128::MAX
    {
        lemma_pow2_table();
        lemma_bits_val_bound(s);
        if s.len() < 127 { lemma_pow2_strictly_increases(s.len(), 127); }
    }

    pub broadcast proof fn lemma_bits_val_128(s: Seq<bool>)
        requires s.len() == 128
        ensures (#[trigger] bits_val(s) <= i128::MAX) == !s[0]
    {
        lemma_pow2_table();
        lemma_top_bit(s);
    }

    pub open spec fn octets_of(v: nat, s: Seq<&u8>) -> bool {
        s.len() == 16 && forall|i: int| 0 <= i < 16 ==> *(#[trigger] s[i]) == be_bytes(v, 16)[i]
    }
    pub open spec fn octets_zero(s: Seq<&u8>, k: int) -> bool {
        forall|i: int| 0 <= i < k ==> *(#[trigger] s[i]) == 0
    }

    /// Octets of a whole number from the position of its first non-zero octet.
    pub broadcast proof fn lemma_first_octet_at(v: nat, s: Seq<&u8>, k: int)
        requires
            v <= i128::MAX, 0 <= k < 16, octets_of(v, s), octets_zero(s, k), k == 15 || *s[k] != 0,
        ensures #![trigger s[k], be_bytes(v, 16)] x_octets(v) == 16 - k,
    {
        lemma_pow2_table();
        let n = (16 - k) as nat;
        assert forall|i: int| 0 <= i < k implies be_bytes(v, 16)[i] == 0 by { assert(*s[i] == 0); }
        lemma_be_bytes_zeros(v, 16, k as nat);
        lemma_bitlen(v, 8 * n);
        assert(*s[k] == be_bytes(v, 16)[k]);
        if v == 0 {
            if k < 15 { lemma_be_bytes_nonzero(v, 16, k as nat); lemma_pow2_pos((8 * (16 - 1 - k)) as nat); }
        } else if be_bytes(v, 16)[k] != 0 {
            lemma_be_bytes_nonzero(v, 16, k as nat);
            lemma_bitlen(v, (8 * (n - 1)) as nat);
        } else {
            lemma_be_bytes_zeros(v, 16, 16);
        }
    }

    pub broadcast proof fn lemma_first_octet_none(v: nat, s: Seq<&u8>)
        requires v <= i128::MAX, octets_of(v, s), octets_zero(s, 16),
        ensures #![trigger s.len(), be_bytes(v, 16)] x_octets(v) == 1,
    {
        lemma_first_octet_at(v, s, 15);
    }

    pub broadcast proof fn lemma_octets_mono(a: nat, b: nat)
        requires a <= b
        ensures #![trigger x_octets(a), x_octets(b)] x_octets(a) <= x_octets(b)
    {
        lemma_bitlen(b, bitlen(b));
        lemma_bitlen(a, bitlen(b));
        if b > 0 { lemma_bitlen(b, 0); lemma2_to64(); }
    }

    pub broadcast proof fn lemma_bitlen_i128(v: nat)
        ensures
            v <= i128::MAX ==> #[trigger] bitlen(v) <= 127,
            v < 65536 ==> bitlen(v) <= 16,
            v >= 65536 ==> bitlen(v) > 16,
    {
        lemma_pow2_table();
        lemma_bitlen(v, 127);
        lemma_bitlen(v, 16);
    }

    /// Everything the sign-extension arms rely on.
    pub proof fn lemma_sign_hints()
        ensures
            forall|x: u128| x < 0x100 ==> #[trigger] (x as i8) == if x < 0x80 { x as int } else { x - 0x100 },
            forall|x: u128| x < 0x1_0000 ==> #[trigger] (x as i16) == if x < 0x8000 { x as int } else { x - 0x1_0000 },
            forall|x: u128| x < 0x1_0000_0000 ==> #[trigger] (x as i32) == if x < 0x8000_0000 { x as int } else { x - 0x1_0000_0000 },
            forall|x: u128| x < 0x1_0000_0000_0000_0000 ==> #[trigger] (x as i64)
                == if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 },
            forall|x: u128| #[trigger] (x as i128)
                == if x < 0x8000_0000_0000_0000_0000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000_0000_0000_0000_0000 },
            forall|x: u32| #[trigger] (x as i32) == if x < 0x8000_0000 { x as int } else { x - 0x1_0000_0000 },
            forall|x: u64| #[trigger] (x as i64) == if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 },
            forall|x: u32| x < 0x100_0000 ==> #[trigger] (x | 0xFF000000u32) == x + 0xFF000000,
            forall|x: u32| x < 0x100_0000 ==> #[trigger] (x & 0x00FFFFFFu32) == x,
            forall|x: u64| x < 0x100_0000_0000 ==> #[trigger] (x | 0xFFFFFF0000000000u64) == x + 0xFFFFFF0000000000,
            forall|x: u64| x < 0x100_0000_0000 ==> #[trigger] (x & 0x000000FFFFFFFFFFu64) == x,
            forall|x: u64| x < 0x1_0000_0000_0000 ==> #[trigger] (x | 0xFFFF000000000000u64) == x + 0xFFFF000000000000,
            forall|x: u64| x < 0x1_0000_0000_0000 ==> #[trigger] (x & 0x0000FFFFFFFFFFFFu64) == x,
            forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x | 0xFF00000000000000u64) == x + 0xFF00000000000000,
            forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x & 0x00FFFFFFFFFFFFFFu64) == x,
            forall|x: u128, b: usize| (b == 72 || b == 80 || b == 88 || b == 96 || b == 104 || b == 112 || b == 120)
                && x < pow2(b as nat)
                ==> #[trigger] (x | (u128::MAX << b)) == x + (0x1_0000_0000_0000_0000_0000_0000_0000_0000 - pow2(b as nat)),
    {
        lemma_pow2_table();
        assert(forall|x: u128| x < 0x100 ==> #[trigger] (x as i8) == if x < 0x80 { x as int } else { x - 0x100 }) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000 ==> #[trigger] (x as i16) == if x < 0x8000 { x as int } else { x - 0x1_0000 }) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000_0000 ==> #[trigger] (x as i32) == if x < 0x8000_0000 { x as int } else { x - 0x1_0000_0000 }) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000_0000_0000_0000 ==> #[trigger] (x as i64)
                == if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 }) by (bit_vector);
        assert forall|x: u128| #[trigger] (x as i128)
                == if x < 0x8000_0000_0000_0000_0000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000_0000_0000_0000_0000 } by {
            let y: u128 = x & 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff;
            assert(x >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 ==> y == x - 0x8000_0000_0000_0000_0000_0000_0000_0000u128
                && (x as i128) == (y as i128) + i128::MIN) by (bit_vector)
                requires y == x & 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128;
        }
        assert(forall|x: u32| #[trigger] (x as i32) == if x < 0x8000_0000 { x as int } else { x - 0x1_0000_0000 }) by (bit_vector);
        assert(forall|x: u64| #[trigger] (x as i64) == if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 }) by (bit_vector);
        assert(forall|x: u32| x < 0x100_0000 ==> #[trigger] (x | 0xFF000000u32) == x + 0xFF000000) by (bit_vector);
        assert(forall|x: u32| x < 0x100_0000 ==> #[trigger] (x & 0x00FFFFFFu32) == x) by (bit_vector);
        assert(forall|x: u64| x < 0x100_0000_0000 ==> #[trigger] (x | 0xFFFFFF0000000000u64) == x + 0xFFFFFF0000000000) by (bit_vector);
        assert(forall|x: u64| x < 0x100_0000_0000 ==> #[trigger] (x & 0x000000FFFFFFFFFFu64) == x) by (bit_vector);
        assert(forall|x: u64| x < 0x1_0000_0000_0000 ==> #[trigger] (x | 0xFFFF000000000000u64) == x + 0xFFFF000000000000) by (bit_vector);
        assert(forall|x: u64| x < 0x1_0000_0000_0000 ==> #[trigger] (x & 0x0000FFFFFFFFFFFFu64) == x) by (bit_vector);
        assert(forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x | 0xFF00000000000000u64) == x + 0xFF00000000000000) by (bit_vector);
        assert(forall|x: u64| x < 0x100_0000_0000_0000 ==> #[trigger] (x & 0x00FFFFFFFFFFFFFFu64) == x) by (bit_vector);
        assert(forall|x: u128| x < 0x100_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 72usize)) == x + (u128::MAX - 0xff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 80usize)) == x + (u128::MAX - 0xffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x100_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 88usize)) == x + (u128::MAX - 0xff_ffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 96usize)) == x + (u128::MAX - 0xffff_ffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x100_0000_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 104usize)) == x + (u128::MAX - 0xff_ffff_ffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x1_0000_0000_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 112usize)) == x + (u128::MAX - 0xffff_ffff_ffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
        assert(forall|x: u128| x < 0x100_0000_0000_0000_0000_0000_0000_0000u128 ==> #[trigger] (x | (u128::MAX << 120usize)) == x + (u128::MAX - 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128)) by (bit_vector);
    }

    /// What a length determinant guarantees to what follows it.
    pub broadcast proof fn lemma_enc_len(p: int, lb: Option<int>, ub: Option<int>, n: nat)
        requires
            (#[trigger] enc_len(p, lb, ub, n)) is Some, 0 <= p,
            lb is Some ==> lb->0 >= 0,
        ensures
            lb is Some ==> lb->0 <= n,
            ub is Some ==> n <= ub->0,
            ub is None || ub->0 >= 65536 ==> (p + (enc_len(p, lb, ub, n)->0).len()) % 8 == 0,
    {
        broadcast use lemma_be_bits_len;
    }

    pub broadcast proof fn lemma_dec_align(b: Seq<bool>, o: int)
        requires 0 <= o <= b.len(),
        ensures
            (#[trigger] dec_align(b, o)) is Some ==> dec_align(b, o)->0 == o + x_pad(o) && dec_align(b, o)->0 <= b.len(),
            o % 8 == 0 ==> dec_align(b, o) == Some(o),
    {}

    pub proof fn lemma_dec_len_general(b: Seq<bool>, o: int)
        requires 0 <= o <= b.len(), dec_len_general(b, o) is Some,
        ensures ({
            let (n, q) = dec_len_general(b, o)->0;
            &&& o < q <= b.len()
            &&& 0 <= n <= 65536
            &&& q % 8 == 0
        }),
    {
        broadcast use {lemma_dec_align, lemma_bits_val_bound};
        lemma_pow2_table();
    }

    pub proof fn lemma_dec_cwn(b: Seq<bool>, o: int, lb: int, ub: int)
        requires 0 <= o <= b.len(), dec_cwn(b, o, lb, ub) is Some,
        ensures
            lb <= (dec_cwn(b, o, lb, ub)->0).0 <= ub,
            o <= (dec_cwn(b, o, lb, ub)->0).1 <= b.len(),
    {
        broadcast use lemma_dec_align;
    }

    /// What a length determinant guarantees to what follows it.
    pub broadcast proof fn lemma_dec_len(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>)
        requires
            (#[trigger] dec_len(b, o, lb, ub)) is Some, 0 <= o <= b.len(),
            lb is Some ==> lb->0 >= 0,
        ensures ({
            let (n, q) = dec_len(b, o, lb, ub)->0;
            &&& o <= q <= b.len()
            &&& 0 <= n <= 65536
            &&& len_is_general(ub) ==> q % 8 == 0
            &&& !len_is_general(ub) ==> n <= ub->0 && (lb is Some ==> lb->0 <= n)
        }),
    {
        if len_is_general(ub) { lemma_dec_len_general(b, o); }
        else { lemma_dec_cwn(b, o, if lb is Some { lb->0 } else { 0 }, ub->0); }
    }

    /// Reading.
    pub broadcast group group_dec {
        axiom_bitvec_len, axiom_bitslice_len, lemma_and7, lemma_cast_u128_i128, lemma_top_bit,
        lemma_bits_val_bound, lemma_bits_val_127, lemma_bits_val_128, lemma_zero_val, lemma_bitlen_small,
    }
    pub broadcast group group_octets { lemma_first_octet_at, lemma_first_octet_none }
    /// Writing.
    pub broadcast group group_enc {
        axiom_bitvec_len, axiom_bitslice_len, lemma_and7, lemma_cast_i128_u8, lemma_cast_i128_u16,
        lemma_cast_usize_u8, lemma_cast_usize_u16, lemma_or_8000, lemma_bitlen_small, lemma_bitlen_i128, lemma_octets_mono,
        lemma_be_bits_len, lemma_be_bytes_len, lemma_bytes_bits_len,
        lemma_be_bits_suffix_auto, lemma_be_bytes_suffix_auto, lemma_bytes_bits_be_bytes, lemma_twos_low,
        crate::stdx::group_be_bytes,
    }
    pub broadcast group group_str { axiom_bitvec_len, axiom_bitslice_len, lemma_bytes_bits_len }
    pub broadcast group group_wstr { axiom_bitvec_len, axiom_bitslice_len, lemma_bytes_bits_len, lemma_enc_len }
    pub broadcast group group_rstr { axiom_bitvec_len, axiom_bitslice_len, lemma_bytes_bits_len, lemma_bytes_bits_add, lemma_dec_len, lemma_dec_align }
    pub broadcast group group_chars { axiom_bitvec_len, lemma_bits_bytes_ext, lemma_dec_len, lemma_dec_align, crate::bitvec::BitChunks::lemma_chunk8 }
    pub broadcast group group_len { axiom_bitvec_len, axiom_bitslice_len, lemma_and7 }
    pub broadcast group group_additions { axiom_bitvec_len, axiom_bitslice_len, lemma_skip_end, lemma_full }

    pub broadcast proof fn lemma_skip_end(b: Seq<bool>, o: int, bm: Seq<bool>)
        requires bm.len() == 0,
        ensures #[trigger] skip_open(b, o, bm) == Some(o),
    {}
    pub broadcast proof fn lemma_full(s: Seq<bool>, n: int)
        requires n == s.len(),
        ensures #[trigger] s.subrange(0, n) == s,
    { assert(s.subrange(0, n) =~= s); }

    pub proof fn lemma_skip_next(b: Seq<bool>, o: int, bm: Seq<bool>, i: int)
        requires 0 <= i < bm.len(),
        ensures
            skip_open(b, o, bm.subrange(i, bm.len() as int)) == (
                if !bm[i] { skip_open(b, o, bm.subrange(i + 1, bm.len() as int)) }
                else {
                    match dec_sized(b, o, None, None, false, 8) {
                        Some((_, q)) => skip_open(b, q, bm.subrange(i + 1, bm.len() as int)),
                        None => None,
                    }
                }),
    {
        assert(bm.subrange(i, bm.len() as int).drop_first() =~= bm.subrange(i + 1, bm.len() as int));
        assert(bm.subrange(i, bm.len() as int)[0] == bm[i]);
    }
}

pub mod vspec {
    use vstd::prelude::*;
    use crate::bits::*;
    use crate::aperspec::*;
    use crate::aper::AperCodecData;

    /// Bounds of a value: their difference fits an i128 (and so does the number of values).
    pub open spec fn range_ok(lb: int, ub: int) -> bool { i128::MIN < ub - lb < i128::MAX }
    pub open spec fn bounds_ok(lb: Option<i128>, ub: Option<i128>) -> bool {
        lb is Some && ub is Some ==> range_ok(lb->0 as int, ub->0 as int)
    }
    /// Bounds of a size: non-negative, ordered.
    pub open spec fn sizes_ok(lb: Option<i128>, ub: Option<i128>) -> bool {
        &&& lb is Some ==> 0 <= lb->0 <= usize::MAX
        &&& ub is Some ==> 0 <= ub->0 <= usize::MAX
        &&& lb is Some && ub is Some ==> lb->0 <= ub->0
    }

    /// A decoder: reads only, and moves the cursor forward within the data.
    pub open spec fn reads(a: AperCodecData, b: AperCodecData) -> bool {
        &&& b.bits == a.bits
        &&& b.key == a.key
        &&& a.decode_offset <= b.decode_offset <= b.bits@.len()
    }

    /// An encoder: appends exactly `e`.
    pub open spec fn writes(a: AperCodecData, b: AperCodecData, e: Seq<bool>) -> bool {
        &&& b.bits@ =~= a.bits@ + e
        &&& b.bits.head0() == a.bits.head0()
        &&& b.key == a.key
        &&& b.decode_offset == a.decode_offset
    }

    /// A character string decoder: the octets of the string are the bits read, which must be UTF-8.
    pub open spec fn decodes_chars(b: Seq<bool>, o: int, lb: Option<i128>, ub: Option<i128>, ext: bool,
        r: Result<String, crate::aper::AperCodecError>, o2: int) -> bool
    {
        match dec_chars(b, o, oint(lb), oint(ub), ext) {
            Some((v, q)) => {
                &&& r is Ok ==> str_bytes(r->Ok_0@) == bits_bytes(v) && o2 == q
                &&& r is Ok == vstd::utf8::valid_utf8(bits_bytes(v))
            },
            None => r is Err,
        }
    }

    /// An encoder never touches what was already there, whether or not it succeeds.
    pub open spec fn appends(a: AperCodecData, b: AperCodecData) -> bool {
        &&& b.key == a.key
        &&& b.decode_offset == a.decode_offset
        &&& b.bits.head0() == a.bits.head0()
        &&& a.bits@.is_prefix_of(b.bits@)
    }

    /// It succeeds only on what has an encoding (an encoder), on what is an encoding (a decoder).
    pub open spec fn sound<T>(ok: bool, e: Option<T>) -> bool { ok ==> e is Some }

    /// On what has an encoding, it appends exactly that.
    pub open spec fn encodes(a: AperCodecData, b: AperCodecData, ok: bool, e: Option<Seq<bool>>) -> bool {
        e is Some ==> ok && b.bits@ =~= a.bits@ + e->0
    }
}
} // verus!
