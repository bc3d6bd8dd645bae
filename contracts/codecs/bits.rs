// ---- Mathematics of bit fields: spec functions and proved lemmas (nothing assumed) ----
verus! {
pub mod bits {
    use vstd::prelude::*;
    use vstd::arithmetic::power2::*;

    pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }

    /// Value of a big-endian bit string.
    pub open spec fn bits_val(s: Seq<bool>) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { 2 * bits_val(s.drop_last()) + b2n(s.last()) }
    }

    /// The low `n` bits of `v`, most significant first.
    pub open spec fn be_bits(v: nat, n: nat) -> Seq<bool>
        decreases n
    {
        if n == 0 { Seq::empty() } else { be_bits(v / 2, (n - 1) as nat).push(v % 2 == 1) }
    }

    /// The low `n` octets of `v`, most significant first.
    pub open spec fn be_bytes(v: nat, n: nat) -> Seq<u8>
        decreases n
    {
        if n == 0 { Seq::empty() } else { be_bytes(v / 256, (n - 1) as nat).push((v % 256) as u8) }
    }

    /// The bits of a string of octets.
    pub open spec fn bytes_bits(s: Seq<u8>) -> Seq<bool>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { bytes_bits(s.drop_last()) + be_bits(s.last() as nat, 8) }
    }

    /// The octets of a string of bits (a whole number of octets).
    pub open spec fn bits_bytes(s: Seq<bool>) -> Seq<u8> {
        Seq::new(s.len() / 8, |i: int| bits_val(s.subrange(8 * i, 8 * i + 8)) as u8)
    }

    /// Bits needed for `v` in binary (0 for 0).
    pub open spec fn bitlen(v: nat) -> nat
        decreases v
    {
        if v == 0 { 0 } else { 1 + bitlen(v / 2) }
    }

    /// Two's complement of `v` in `n` bits.
    pub open spec fn twos(v: int, n: nat) -> nat {
        if v >= 0 { v as nat } else { (v + pow2(n)) as nat }
    }

    /// Value of a two's complement bit string.
    pub open spec fn sbits_val(s: Seq<bool>) -> int {
        if s.len() > 0 && s[0] { bits_val(s) - pow2(s.len()) } else { bits_val(s) as int }
    }

    /// The octets of a Rust string.
    pub open spec fn str_bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }

    pub open spec fn x_zeros(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }

    pub open spec fn all_zero(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] }

    pub broadcast proof fn lemma_zero_val(s: Seq<bool>)
        ensures (#[trigger] bits_val(s) == 0) == all_zero(s)
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_zero_val(s.drop_last());
            assert forall|i: int| 0 <= i < s.len() && all_zero(s.drop_last()) && !s.last() implies !#[trigger] s[i] by {
                if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
            }
            if all_zero(s) {
                assert(!s[s.len() - 1]);
                assert forall|i: int| 0 <= i < s.drop_last().len() implies !#[trigger] s.drop_last()[i] by {
                    assert(s.drop_last()[i] == s[i]);
                }
            }
        }
    }

    pub broadcast proof fn lemma_be_bits_len(v: nat, n: nat)
        ensures #[trigger] be_bits(v, n).len() == n
        decreases n
    {
        if n > 0 { lemma_be_bits_len(v / 2, (n - 1) as nat); }
    }

    pub broadcast proof fn lemma_be_bytes_len(v: nat, n: nat)
        ensures #[trigger] be_bytes(v, n).len() == n
        decreases n
    {
        if n > 0 { lemma_be_bytes_len(v / 256, (n - 1) as nat); }
    }

    pub broadcast proof fn lemma_bytes_bits_len(s: Seq<u8>)
        ensures #[trigger] bytes_bits(s).len() == 8 * s.len()
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_bytes_bits_len(s.drop_last());
            lemma_be_bits_len(s.last() as nat, 8);
        }
    }

    pub broadcast proof fn lemma_bits_val_bound(s: Seq<bool>)
        ensures #[trigger] bits_val(s) < pow2(s.len())
        decreases s.len()
    {
        lemma2_to64();
        if s.len() > 0 {
            lemma_bits_val_bound(s.drop_last());
            lemma_pow2_unfold(s.len());
        }
    }

    pub proof fn lemma_bits_val_be_bits(v: nat, n: nat)
        requires v < pow2(n)
        ensures bits_val(be_bits(v, n)) == v
        decreases n
    {
        lemma2_to64();
        if n > 0 {
            lemma_pow2_unfold(n);
            lemma_bits_val_be_bits(v / 2, (n - 1) as nat);
            assert(be_bits(v, n).drop_last() =~= be_bits(v / 2, (n - 1) as nat));
        }
    }

    pub broadcast proof fn lemma_be_bits_inverse(v: nat, n: nat)
        requires v < pow2(n)
        ensures #[trigger] bits_val(be_bits(v, n)) == v
    {
        lemma_bits_val_be_bits(v, n);
    }

    pub proof fn lemma_be_bits_bits_val(s: Seq<bool>)
        ensures be_bits(bits_val(s), s.len()) =~= s
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_be_bits_bits_val(s.drop_last());
            let v = bits_val(s);
            assert(v / 2 == bits_val(s.drop_last()));
            assert((v % 2 == 1) == s.last());
            assert(s =~= s.drop_last().push(s.last()));
        }
    }

    /// The last `k` of the low `n` bits are the low `k` bits.
    pub proof fn lemma_be_bits_suffix(v: nat, n: nat, k: nat)
        requires k <= n
        ensures be_bits(v, n).subrange(n - k, n as int) =~= be_bits(v, k)
        decreases k
    {
        lemma_be_bits_len(v, n);
        lemma_be_bits_len(v, k);
        if k > 0 {
            lemma_be_bits_suffix(v / 2, (n - 1) as nat, (k - 1) as nat);
            lemma_be_bits_len(v / 2, (n - 1) as nat);
            lemma_be_bits_len(v / 2, (k - 1) as nat);
            let a = be_bits(v, n).subrange(n - k, n as int);
            let b = be_bits(v, k);
            let a1 = be_bits(v / 2, (n - 1) as nat).subrange(n - k, n - 1);
            assert(a =~= a1.push(v % 2 == 1));
        }
    }

    pub broadcast proof fn lemma_be_bits_suffix_auto(v: nat, n: nat, i: int, j: int)
        requires 0 <= i <= n, j == n
        ensures #[trigger] be_bits(v, n).subrange(i, j) == be_bits(v, (n - i) as nat)
    {
        lemma_be_bits_suffix(v, n, (n - i) as nat);
    }

    pub proof fn lemma_be_bytes_suffix(v: nat, n: nat, k: nat)
        requires k <= n
        ensures be_bytes(v, n).subrange(n - k, n as int) =~= be_bytes(v, k)
        decreases k
    {
        lemma_be_bytes_len(v, n);
        lemma_be_bytes_len(v, k);
        if k > 0 {
            lemma_be_bytes_suffix(v / 256, (n - 1) as nat, (k - 1) as nat);
            lemma_be_bytes_len(v / 256, (n - 1) as nat);
            lemma_be_bytes_len(v / 256, (k - 1) as nat);
            let a = be_bytes(v, n).subrange(n - k, n as int);
            let a1 = be_bytes(v / 256, (n - 1) as nat).subrange(n - k, n - 1);
            assert(a =~= a1.push((v % 256) as u8));
        }
    }

    pub broadcast proof fn lemma_be_bytes_suffix_auto(v: nat, n: nat, i: int, j: int)
        requires 0 <= i <= n, j == n
        ensures #[trigger] be_bytes(v, n).subrange(i, j) == be_bytes(v, (n - i) as nat)
    {
        lemma_be_bytes_suffix(v, n, (n - i) as nat);
    }

    proof fn lemma_be_bits_split8(v: nat, n: nat)
        ensures be_bits(v, n + 8) =~= be_bits(v / 256, n) + be_bits(v % 256, 8)
    {
        let r = v % 256;
        let q = v / 256;
        lemma2_to64();
        lemma_be_bits_shift(q, r, n, 8);
        assert(v == q * 256 + r);
    }

    pub proof fn lemma_be_bits_shift(q: nat, r: nat, n: nat, k: nat)
        requires r < pow2(k)
        ensures be_bits(q * pow2(k) + r, n + k) =~= be_bits(q, n) + be_bits(r, k)
        decreases k
    {
        lemma2_to64();
        if k == 0 {
            assert(q * pow2(k) == q) by (nonlinear_arith) requires pow2(k) == 1;
            assert(be_bits(r, 0) =~= Seq::<bool>::empty());
            assert(be_bits(q, n) + be_bits(r, k) =~= be_bits(q, n));
        } else {
            lemma_pow2_unfold(k);
            let k1 = (k - 1) as nat;
            let v = q * pow2(k) + r;
            assert(v == 2 * (q * pow2(k1)) + r) by (nonlinear_arith)
                requires v == q * pow2(k) + r, pow2(k) == 2 * pow2(k1);
            assert(v / 2 == q * pow2(k1) + r / 2);
            assert(v % 2 == r % 2);
            lemma_be_bits_shift(q, r / 2, n, k1);
            assert((n + k - 1) as nat == n + k1);
            lemma_be_bits_len(q, n);
            lemma_be_bits_len(r / 2, k1);
            assert((be_bits(q, n) + be_bits(r / 2, k1)).push(r % 2 == 1)
                =~= be_bits(q, n) + be_bits(r / 2, k1).push(r % 2 == 1));
        }
    }

    pub broadcast proof fn lemma_bytes_bits_be_bytes(v: nat, n: nat)
        ensures #[trigger] bytes_bits(be_bytes(v, n)) == be_bits(v, 8 * n)
        decreases n
    {
        if n > 0 {
            let n1 = (n - 1) as nat;
            lemma_bytes_bits_be_bytes(v / 256, n1);
            lemma_be_bits_split8(v, 8 * n1);
            assert(8 * n1 + 8 == 8 * n);
            assert(be_bytes(v, n).drop_last() =~= be_bytes(v / 256, n1));
            assert(be_bytes(v, n).last() == (v % 256) as u8);
        }
    }

    pub proof fn lemma_bytes_bits_concat(a: Seq<u8>, b: Seq<u8>)
        ensures bytes_bits(a + b) =~= bytes_bits(a) + bytes_bits(b)
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a);
        } else {
            lemma_bytes_bits_concat(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
        }
    }

    /// Octets and their bits are inverse.
    pub broadcast proof fn lemma_bits_bytes_inverse(v: Seq<bool>)
        requires v.len() % 8 == 0
        ensures bytes_bits(#[trigger] bits_bytes(v)) == v
        decreases v.len()
    {
        let bb = bits_bytes(v);
        lemma_bytes_bits_len(bb);
        if v.len() > 0 {
            let n = v.len() / 8;
            let w = v.subrange(0, v.len() - 8);
            let last = v.subrange(v.len() - 8, v.len() as int);
            lemma_bits_bytes_inverse(w);
            assert forall|i: int| 0 <= i < n - 1 implies bb.drop_last()[i] == bits_bytes(w)[i] by {
                assert(w.subrange(8 * i, 8 * i + 8) =~= v.subrange(8 * i, 8 * i + 8));
            }
            assert(bb.drop_last() =~= bits_bytes(w));
            lemma_bits_val_bound(last);
            lemma2_to64();
            lemma_be_bits_bits_val(last);
            assert(v.subrange(8 * (n - 1), 8 * (n - 1) + 8) =~= last);
            assert(bb.last() == bits_val(last));
            assert(v =~= w + last);
        } else {
            assert(bb =~= Seq::<u8>::empty());
            assert(bytes_bits(bb) =~= v);
        }
    }

    pub broadcast proof fn lemma_bytes_bits_inverse(s: Seq<u8>)
        ensures #[trigger] bits_bytes(bytes_bits(s)) == s
    {
        lemma_bytes_bits_len(s);
        lemma2_to64();
        assert forall|i: int| 0 <= i < s.len() implies bits_bytes(bytes_bits(s))[i] == s[i] by {
            lemma_bytes_bits_at(s, i);
            lemma_bits_val_be_bits(s[i] as nat, 8);
        }
        assert(bits_bytes(bytes_bits(s)) =~= s);
    }

    pub broadcast proof fn lemma_bits_bytes_ext(s: Seq<u8>, v: Seq<bool>)
        requires s.len() == v.len() / 8, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == bits_val(v.subrange(8 * i, 8 * i + 8))
        ensures #![trigger vstd::utf8::valid_utf8(s), bits_bytes(v)] s == bits_bytes(v)
    {
        assert(s =~= bits_bytes(v));
    }

    pub broadcast proof fn lemma_bytes_bits_add(a: Seq<u8>, b: Seq<u8>)
        ensures #[trigger] bytes_bits(a + b) == bytes_bits(a) + bytes_bits(b)
    { lemma_bytes_bits_concat(a, b); }

    pub broadcast proof fn lemma_bytes_bits_subrange(s: Seq<u8>, i: int, j: int)
        requires 0 <= i <= j <= s.len()
        ensures bytes_bits(#[trigger] s.subrange(i, j)) == bytes_bits(s).subrange(8 * i, 8 * j)
    {
        let a = s.subrange(0, i);
        let b = s.subrange(i, j);
        let c = s.subrange(j, s.len() as int);
        lemma_bytes_bits_concat(a, b);
        lemma_bytes_bits_concat(a + b, c);
        lemma_bytes_bits_len(a);
        lemma_bytes_bits_len(b);
        lemma_bytes_bits_len(c);
        assert(a + b + c =~= s);
        assert(bytes_bits(s).subrange(8 * i, 8 * j) =~= bytes_bits(b));
    }

    pub proof fn lemma_bytes_bits_at(s: Seq<u8>, i: int)
        requires 0 <= i < s.len()
        ensures bytes_bits(s).subrange(8 * i, 8 * i + 8) =~= be_bits(s[i] as nat, 8)
    {
        lemma_bytes_bits_subrange(s, i, i + 1);
        let o = s.subrange(i, i + 1);
        assert(o.drop_last() =~= Seq::<u8>::empty());
        assert(o.last() == s[i]);
        assert(bytes_bits(o.drop_last()) =~= Seq::<bool>::empty());
        assert(bytes_bits(o) =~= be_bits(s[i] as nat, 8));
    }

    /// Octet strings are determined by their bits.
    pub proof fn lemma_bytes_bits_injective(a: Seq<u8>, b: Seq<u8>)
        requires bytes_bits(a) == bytes_bits(b)
        ensures a =~= b
    {
        lemma_bytes_bits_len(a);
        lemma_bytes_bits_len(b);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            lemma_bytes_bits_at(a, i);
            lemma_bytes_bits_at(b, i);
            lemma2_to64();
            lemma_bits_val_be_bits(a[i] as nat, 8);
            lemma_bits_val_be_bits(b[i] as nat, 8);
        }
    }

    pub proof fn lemma_bitlen(v: nat, k: nat)
        ensures (bitlen(v) <= k) == (v < pow2(k))
        decreases v
    {
        lemma2_to64();
        if v == 0 {
            lemma_pow2_pos(k);
        } else if k > 0 {
            lemma_pow2_unfold(k);
            lemma_bitlen(v / 2, (k - 1) as nat);
        }
    }

    pub broadcast proof fn lemma_bitlen_small(v: nat)
        requires v < 256
        ensures
            #[trigger] bitlen(v) == if v == 0 { 0nat } else if v < 2 { 1 } else if v < 4 { 2 } else if v < 8 { 3 }
                else if v < 16 { 4 } else if v < 32 { 5 } else if v < 64 { 6 } else if v < 128 { 7 } else { 8 },
    {
        lemma2_to64();
        lemma_bitlen(v, 0); lemma_bitlen(v, 1); lemma_bitlen(v, 2); lemma_bitlen(v, 3); lemma_bitlen(v, 4);
        lemma_bitlen(v, 5); lemma_bitlen(v, 6); lemma_bitlen(v, 7); lemma_bitlen(v, 8);
    }

    /// The low bits of a two's complement number are the two's complement in fewer bits.
    pub broadcast proof fn lemma_twos_low(v: int, w: nat, k: nat)
        requires v < 0, k <= w, bitlen((-(v + 1)) as nat) <= k
        ensures #[trigger] be_bits(twos(v, w), k) == be_bits(twos(v, k), k)
    {
        lemma_bitlen((-(v + 1)) as nat, k);
        lemma_pow2_adds(k, (w - k) as nat);
        lemma_pow2_pos((w - k) as nat);
        if k < w { lemma_pow2_strictly_increases(k, w); }
        let q = (pow2((w - k) as nat) - 1) as nat;
        let r = (v + pow2(k)) as nat;
        assert(twos(v, w) == q * pow2(k) + r) by (nonlinear_arith)
            requires twos(v, w) == v + pow2(w), pow2(w) == pow2(k) * pow2((w - k) as nat),
                q == pow2((w - k) as nat) - 1, r == v + pow2(k), v >= -pow2(k);
        lemma_be_bits_shift(q, r, 0, k);
        assert(be_bits(q, 0) =~= Seq::<bool>::empty());
        lemma_be_bits_len(r, k);
        assert(be_bits(q, 0) + be_bits(r, k) =~= be_bits(r, k));
    }

    /// Position of the first non-zero octet against magnitude.
    pub proof fn lemma_be_bytes_zeros(v: nat, n: nat, k: nat)
        requires
            k <= n, v < pow2(8 * n),
            forall|i: int| 0 <= i < k ==> be_bytes(v, n)[i] == 0,
        ensures v < pow2((8 * (n - k)) as nat)
        decreases n
    {
        lemma_be_bytes_len(v, n);
        lemma2_to64();
        if k > 0 {
            if k == n {
                // all zero: v == 0
                lemma_be_bytes_all_zero(v, n);
            } else {
                let n1 = (n - 1) as nat;
                lemma_be_bytes_len(v / 256, n1);
                assert forall|i: int| 0 <= i < k implies #[trigger] be_bytes(v / 256, n1)[i] == 0 by {
                    assert(be_bytes(v, n)[i] == be_bytes(v / 256, n1)[i]);
                }
                lemma_pow2_adds((8 * n1) as nat, 8);
                assert(v / 256 < pow2(8 * n1));
                lemma_be_bytes_zeros(v / 256, n1, k);
                lemma_pow2_adds((8 * (n1 - k)) as nat, 8);
                assert((8 * (n1 - k)) as nat + 8 == (8 * (n - k)) as nat);
            }
        }
    }

    proof fn lemma_be_bytes_all_zero(v: nat, n: nat)
        requires v < pow2(8 * n), forall|i: int| 0 <= i < n ==> be_bytes(v, n)[i] == 0
        ensures v == 0
        decreases n
    {
        lemma2_to64();
        if n > 0 {
            let n1 = (n - 1) as nat;
            lemma_be_bytes_len(v, n);
            lemma_be_bytes_len(v / 256, n1);
            lemma_pow2_adds((8 * n1) as nat, 8);
            assert(be_bytes(v, n)[n - 1] == (v % 256) as u8);
            assert forall|i: int| 0 <= i < n1 implies #[trigger] be_bytes(v / 256, n1)[i] == 0 by {
                assert(be_bytes(v, n)[i] == be_bytes(v / 256, n1)[i]);
            }
            lemma_be_bytes_all_zero(v / 256, n1);
        }
    }

    /// A non-zero octet at position k means v is at least 256^(n-1-k).
    pub proof fn lemma_be_bytes_nonzero(v: nat, n: nat, k: nat)
        requires k < n, be_bytes(v, n)[k as int] != 0
        ensures v >= pow2((8 * (n - 1 - k)) as nat)
        decreases n
    {
        lemma2_to64();
        lemma_be_bytes_len(v, n);
        let n1 = (n - 1) as nat;
        lemma_be_bytes_len(v / 256, n1);
        if k == n - 1 {
            assert(be_bytes(v, n)[k as int] == (v % 256) as u8);
        } else {
            assert(be_bytes(v, n)[k as int] == be_bytes(v / 256, n1)[k as int]);
            lemma_be_bytes_nonzero(v / 256, n1, k);
            lemma_pow2_adds((8 * (n1 - 1 - k)) as nat, 8);
            assert((8 * (n1 - 1 - k)) as nat + 8 == (8 * (n - 1 - k)) as nat);
        }
    }

    pub broadcast group group_bits {
        lemma_be_bits_len, lemma_be_bytes_len, lemma_bytes_bits_len, lemma_bits_val_bound,
        lemma_be_bits_suffix_auto, lemma_be_bytes_suffix_auto, lemma_bytes_bits_be_bytes,
        lemma_bytes_bits_subrange, lemma_be_bits_inverse, lemma_zero_val, lemma_bitlen_small,
        lemma_twos_low,
    }
}
} // verus!
