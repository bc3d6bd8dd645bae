// ---- Theorems over all declarations ----
verus! {
pub mod typelemmas {
    use vstd::prelude::*;
    use crate::bits::*;
    use crate::aperspec::*;
    use crate::hints::*;
    use crate::vspec::*;
    use crate::theorems::*;
    use crate::typespec::*;
    use crate::aper::AperCodecData;

    pub broadcast group group_derive { axiom_bitvec_len, axiom_bitslice_len, lemma_bytes_bits_inverse, lemma_seq_header, lemma_put_opt, lemma_appends, lemma_appends_none, lemma_writes }
    pub broadcast group group_items { lemma_items_end, lemma_put_items_end, lemma_take_all, lemma_take_none }

    pub broadcast proof fn lemma_items_end(ty: Ty, b: Seq<bool>, o: int, key: Option<int>, acc: Seq<Val>)
        ensures #[trigger] dec_items(ty, b, o, key, 0, acc) == Some((Val::List(acc), o, key))
    { reveal(dec_items); reveal(dec); }
    pub broadcast proof fn lemma_put_items_end(ty: Ty, s: Seq<bool>, vs: Seq<Val>)
        requires vs.len() == 0
        ensures #[trigger] put_items(ty, s, vs) == Some(s)
    { reveal(put_items); reveal(put); }
    pub broadcast proof fn lemma_take_all(vs: Seq<Val>, n: int)
        requires n == vs.len()
        ensures #[trigger] vs.take(n) == vs
    { assert(vs.take(n) =~= vs); }
    pub broadcast proof fn lemma_take_none(vs: Seq<Val>)
        ensures (#[trigger] vs.take(0)).len() == 0
    {}
    pub broadcast proof fn lemma_put_opt(ty: Ty, present: bool, s: Seq<bool>, v: Val)
        ensures #[trigger] put_opt(ty, present, s, v) == (if present { put(ty, s, v) } else { Some(s) })
    { reveal(put_opt); reveal(put); }
    pub broadcast proof fn lemma_appends(a: AperCodecData, b: AperCodecData, c: AperCodecData)
        requires #[trigger] appends(a, b), #[trigger] appends(b, c)
        ensures appends(a, c)
    {
        reveal(appends);
        let (x, y, z) = (a.bits@, b.bits@, c.bits@);
        assert(x =~= z.subrange(0, x.len() as int)) by {
            assert forall|i: int| 0 <= i < x.len() implies x[i] == z.subrange(0, x.len() as int)[i] by {
                assert(x[i] == y.subrange(0, x.len() as int)[i]);
                assert(y[i] == z.subrange(0, y.len() as int)[i]);
            }
        }
    }
    pub broadcast proof fn lemma_appends_none(a: AperCodecData)
        ensures #[trigger] appends(a, a)
    { reveal(appends); assert(a.bits@ =~= a.bits@.subrange(0, a.bits@.len() as int)); }
    pub broadcast proof fn lemma_writes(a: AperCodecData, b: AperCodecData, e: Seq<bool>)
        requires #[trigger] writes(a, b, e)
        ensures appends(a, b), b.bits@ == a.bits@ + e
    { reveal(appends); reveal(writes); assert(a.bits@ =~= b.bits@.subrange(0, a.bits@.len() as int)); }
    /// Where the length of an open type ends is an octet boundary.
    pub broadcast proof fn lemma_enc_len_aligned(p: int, n: nat)
        requires p >= 0,
        ensures
            #[trigger] enc_len(p, None, None, n) == enc_len_general(p, n),
            match enc_len_general(p, n) { Some(e) => x_pad(p + e.len()) == 0, None => true },
    { reveal(enc_len); reveal(enc_len_general); broadcast use lemma_be_bits_len; }
    /// The same in the order the generated code goes.
    pub broadcast proof fn lemma_put_open(s: Seq<bool>, e: Option<Seq<bool>>)
        ensures #[trigger] put_open(s, e) == (match e {
            Some(x) => {
                let f = if x.len() == 0 { x + seq![false] } else { x };
                match enc_len(s.len() as int, None, None, ((f.len() + 7) / 8) as nat) {
                    Some(l) => Some((s + l) + (x_zeros(x_pad((s + l).len() as int)) + f + x_zeros(x_pad(f.len() as int)))),
                    None => None,
                }
            },
            None => None,
        })
    {
        reveal(put_open);
        if e is Some {
            let x = e->0;
            let f = if x.len() == 0 { x + seq![false] } else { x };
            let f2 = if x.len() == 0 { seq![false] } else { x };
            assert(f =~= f2);
            let c = open_contents(x);
            assert(c == f + x_zeros(x_pad(f.len() as int)));
            assert(c.len() / 8 == (f.len() + 7) / 8);
            lemma_enc_len_aligned(s.len() as int, ((f.len() + 7) / 8) as nat);
            if let Some(l) = enc_len(s.len() as int, None, None, ((f.len() + 7) / 8) as nat) {
                assert(x_zeros(x_pad((s + l).len() as int)) =~= Seq::empty());
                assert(x_zeros(x_pad((s + l).len() as int)) + f + x_zeros(x_pad(f.len() as int)) =~= c);
            }
        }
    }

    pub broadcast proof fn lemma_seq_header(b: Seq<bool>, o: int, ext: bool, n: nat)
        ensures match #[trigger] dec_seq_header(b, o, ext, n) { Some((h, q)) => (0 <= o ==> h.0.len() == n) && (h.1 ==> ext), None => true }
    { reveal(dec_seq_header); }

    // ------------------------------------------------------------ declarations the theorems are about
    pub open spec fn ibounds(lb: Option<int>, ub: Option<int>) -> bool {
        &&& lb is Some ==> i128::MIN <= lb->0 <= i128::MAX
        &&& ub is Some ==> i128::MIN <= ub->0 <= i128::MAX
        &&& lb is Some && ub is Some ==> range_ok(lb->0, ub->0)
    }
    pub open spec fn isizes(lb: Option<int>, ub: Option<int>) -> bool {
        &&& lb is Some ==> 0 <= lb->0 <= usize::MAX
        &&& ub is Some ==> 0 <= ub->0 <= usize::MAX
        &&& lb is Some && ub is Some ==> lb->0 <= ub->0
    }

    #[verifier::opaque]

    pub open spec fn wf_ty(ty: Ty) -> bool
        decreases ty
    {
        match ty {
            Ty::Int(lb, ub, _, min, max) => ibounds(lb, ub) && i128::MIN <= min <= max <= i128::MAX,
            Ty::Enum(lb, ub, _, min, max) => ibounds(lb, ub) && i128::MIN <= min <= max <= i128::MAX,
            Ty::Bits(lb, ub, _) => isizes(lb, ub),
            Ty::Octets(lb, ub, _) => isizes(lb, ub),
            Ty::Chars(lb, ub, _) => isizes(lb, ub),
            Ty::Of(item, lb, ub, _) => isizes(lb, ub) && wf_ty(*item),
            Ty::Seq(_, n, fs) => 0 <= n && wf_fields(fs, n, Set::empty()),
            Ty::Choice(lb, ub, _, alts) => ibounds(Some(lb), Some(ub)) && wf_alts(alts) && distinct(alts),
            Ty::Open(alts) => wf_alts(alts) && distinct(alts) && no_additions(alts),
            _ => true,
        }
    }
    /// Optional fields have bits of their own; keys are mandatory and numbers.
    #[verifier::opaque]
    pub open spec fn wf_fields(fs: Fields, n: int, used: Set<int>) -> bool
        decreases fs
    {
        match fs {
            Fields::Nil => true,
            Fields::Cons(ty, opt, is_key, rest) => {
                &&& wf_ty(*ty)
                &&& opt is Some ==> 0 <= opt->0 < n && !used.contains(opt->0)
                &&& is_key ==> opt is None && (*ty is Int || *ty is Enum)
                &&& wf_fields(*rest, n, if opt is Some { used.insert(opt->0) } else { used })
            }
        }
    }
    #[verifier::opaque]
    pub open spec fn wf_alts(alts: Alts) -> bool
        decreases alts
    {
        match alts { Alts::Nil => true, Alts::Cons(ty, _, _, rest) => wf_ty(*ty) && wf_alts(*rest) }
    }
    #[verifier::opaque]
    pub open spec fn no_additions(alts: Alts) -> bool
        decreases alts
    {
        match alts { Alts::Nil => true, Alts::Cons(_, _, x, rest) => !x && no_additions(*rest) }
    }
    /// Root alternatives are told apart by their keys (an addition may reuse one: its index is another).
    #[verifier::opaque]
    pub open spec fn distinct(alts: Alts) -> bool
        decreases alts
    {
        match alts { Alts::Nil => true, Alts::Cons(_, k, _, rest) => !root_key(*rest, k) && distinct(*rest) }
    }
    #[verifier::opaque]
    pub open spec fn root_key(alts: Alts, k: int) -> bool
        decreases alts
    {
        match alts { Alts::Nil => false, Alts::Cons(_, k2, x, rest) => (k2 == k && !x) || root_key(*rest, k) }
    }

    pub proof fn lemma_wf(ty: Ty)
        ensures wf_ty(ty) == (match ty {
            Ty::Int(lb, ub, _, min, max) => ibounds(lb, ub) && i128::MIN <= min <= max <= i128::MAX,
            Ty::Enum(lb, ub, _, min, max) => ibounds(lb, ub) && i128::MIN <= min <= max <= i128::MAX,
            Ty::Bits(lb, ub, _) => isizes(lb, ub),
            Ty::Octets(lb, ub, _) => isizes(lb, ub),
            Ty::Chars(lb, ub, _) => isizes(lb, ub),
            Ty::Of(item, lb, ub, _) => isizes(lb, ub) && wf_ty(*item),
            Ty::Seq(_, n, fs) => 0 <= n && wf_fields(fs, n, Set::empty()),
            Ty::Choice(lb, ub, _, alts) => ibounds(Some(lb), Some(ub)) && wf_alts(alts) && distinct(alts),
            Ty::Open(alts) => wf_alts(alts) && distinct(alts) && no_additions(alts),
            _ => true,
        })
    { reveal(wf_ty); reveal(wf_fields); reveal(wf_alts); }

    // ------------------------------------------------------------ values of a declaration
    /// Integers fit the Rust type that holds them, strings are strings; and where an open type stands,
    /// its alternative is the one its key says.  The result is the key that holds afterwards.
    #[verifier::opaque]
    pub open spec fn flow(ty: Ty, v: Val, key: Option<int>) -> Option<Option<int>>
        decreases ty, 0nat
    {
        match ty {
            Ty::Int(_, _, _, min, max) => if v is Int && within(v->Int_0, min, max) { Some(key) } else { None },
            Ty::Enum(_, _, _, min, max) => if v is Int && within(v->Int_0, min, max) { Some(key) } else { None },
            Ty::Chars(_, _, _) => if v is Octets && vstd::utf8::valid_utf8(v->Octets_0) { Some(key) } else { None },
            Ty::Of(item, _, _, _) => if v is List { flow_items(*item, v->List_0, key) } else { None },
            Ty::Seq(_, _, fs) => if v is Fields && v->Fields_0.len() == count(fs) { flow_fields(fs, 0, v->Fields_0, key, None) } else { None },
            Ty::Choice(_, _, _, alts) => if v is Alt { flow_alt(alts, v->Alt_0, *v->Alt_1, key) } else { None },
            Ty::Open(alts) => if v is Alt && key == Some(alt_key(alts, v->Alt_0)) && flow_alt(alts, v->Alt_0, *v->Alt_1, key) is Some { Some(key) } else { None },
            _ => Some(key),
        }
    }
    pub open spec fn count(fs: Fields) -> nat
        decreases fs
    {
        match fs { Fields::Nil => 0, Fields::Cons(_, _, _, rest) => 1 + count(*rest) }
    }
    #[verifier::opaque]
    pub open spec fn flow_items(ty: Ty, vs: Seq<Val>, key: Option<int>) -> Option<Option<int>>
        decreases ty, vs.len() + 1
    {
        if vs.len() == 0 { Some(key) }
        else {
            match flow_items(ty, vs.drop_last(), key) { Some(k) => flow(ty, vs.last(), k), None => None }
        }
    }
    #[verifier::opaque]
    pub open spec fn flow_fields(fs: Fields, i: int, vs: Seq<Val>, key: Option<int>, own: Option<int>) -> Option<Option<int>>
        decreases fs, 0nat
    {
        match fs {
            Fields::Nil => Some(key),
            Fields::Cons(ty, opt, is_key, rest) =>
                if vs[i] is Absent { if opt is Some { flow_fields(*rest, i + 1, vs, key, own) } else { None } }
                else {
                    match flow(*ty, vs[i], if own is Some && !is_key { own } else { key }) {
                        Some(k) => if is_key { flow_fields(*rest, i + 1, vs, Some(vs[i]->Int_0), Some(vs[i]->Int_0)) }
                            else { flow_fields(*rest, i + 1, vs, k, own) },
                        None => None,
                    }
                },
        }
    }
    #[verifier::opaque]
    pub open spec fn flow_alt(alts: Alts, n: int, v: Val, key: Option<int>) -> Option<Option<int>>
        decreases alts, 0nat
    {
        match alts { Alts::Nil => None, Alts::Cons(ty, _, _, rest) => if n == 0 { flow(*ty, v, key) } else { flow_alt(*rest, n - 1, v, key) } }
    }

    // ------------------------------------------------------------ loops of SEQUENCE OF
    pub proof fn lemma_put_items_next(ty: Ty, s: Seq<bool>, vs: Seq<Val>, i: int)
        requires 0 <= i < vs.len(),
        ensures
            put_items(ty, s, vs.take(i + 1)) == (match put_items(ty, s, vs.take(i)) {
                Some(t) => put(ty, t, vs[i]),
                None => None,
            }),
            put_items(ty, s, vs.take(i + 1)) is None ==> put_items(ty, s, vs) is None,
        decreases vs.len() - i,
    {
        reveal(put_items); reveal(put);
        assert(vs.take(i + 1).drop_last() =~= vs.take(i));
        assert(vs.take(i + 1).last() == vs[i]);
        if i + 1 < vs.len() { lemma_put_items_next(ty, s, vs, i + 1); }
        else { assert(vs.take(i + 1) =~= vs); }
    }

    pub proof fn lemma_items_next(ty: Ty, b: Seq<bool>, o: int, key: Option<int>, n: nat, acc: Seq<Val>)
        requires n > 0,
        ensures dec_items(ty, b, o, key, n, acc) == (match dec(ty, b, o, key) {
            Some((v, q, k)) => dec_items(ty, b, q, k, (n - 1) as nat, acc.push(v)),
            None => None,
        }),
    { reveal(dec_items); reveal(dec); }

    // ------------------------------------------------------------ one level of dec and put
    pub open spec fn prim(ty: Ty) -> bool { !(ty is Seq) && !(ty is Choice) && !(ty is Open) }

    pub open spec fn dec_prim(ty: Ty, b: Seq<bool>, o: int, key: Option<int>) -> Read {
        match ty {
            Ty::Null => Some((Val::Null, o, key)),
            Ty::Bool => match dec_bit(b, o) { Some((v, q)) => Some((Val::Bool(v), q, key)), None => None },
            Ty::Int(lb, ub, ext, min, max) => match dec_integer(b, o, lb, ub, ext) {
                Some((v, q)) => if within(v.0, min, max) { Some((Val::Int(v.0), q, key)) } else { None },
                None => None,
            },
            Ty::Enum(lb, ub, ext, min, max) => match dec_index(b, o, lb, ub, ext) {
                Some((v, q)) => if !v.1 && within(v.0, min, max) { Some((Val::Int(v.0), q, key)) } else { None },
                None => None,
            },
            Ty::Bits(lb, ub, ext) => match dec_sized(b, o, lb, ub, ext, 1) { Some((s, q)) => Some((Val::Bits(s), q, key)), None => None },
            Ty::Octets(lb, ub, ext) => match dec_sized(b, o, lb, ub, ext, 8) { Some((s, q)) => Some((Val::Octets(bits_bytes(s)), q, key)), None => None },
            Ty::Chars(lb, ub, ext) => match dec_chars(b, o, lb, ub, ext) {
                Some((s, q)) => if vstd::utf8::valid_utf8(bits_bytes(s)) { Some((Val::Octets(bits_bytes(s)), q, key)) } else { None },
                None => None,
            },
            Ty::Of(item, lb, ub, ext) => match dec_of_len(b, o, lb, ub, ext) {
                Some((n, q)) => dec_items(*item, b, q, key, n, Seq::empty()),
                None => None,
            },
            _ => None,
        }
    }
    pub proof fn lemma_dec_prim(ty: Ty, b: Seq<bool>, o: int, key: Option<int>)
        requires prim(ty)
        ensures dec(ty, b, o, key) == dec_prim(ty, b, o, key)
    { reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt); }
    pub open spec fn put_prim(ty: Ty, s: Seq<bool>, v: Val) -> Option<Seq<bool>> {
        let p = s.len() as int;
        match ty {
            Ty::Null => if v is Null { Some(s) } else { None },
            Ty::Bool => if v is Bool { Some(s + seq![v->Bool_0]) } else { None },
            Ty::Int(lb, ub, ext, _, _) => if v is Int { append(s, enc_integer(p, lb, ub, ext, v->Int_0, false)) } else { None },
            Ty::Enum(lb, ub, ext, _, _) => if v is Int { append(s, enc_integer(p, lb, ub, ext, v->Int_0, false)) } else { None },
            Ty::Bits(lb, ub, ext) => if v is Bits { append(s, enc_bitstring(p, lb, ub, ext, v->Bits_0, false)) } else { None },
            Ty::Octets(lb, ub, ext) => if v is Octets { append(s, enc_octetstring(p, lb, ub, ext, v->Octets_0, false)) } else { None },
            Ty::Chars(lb, ub, ext) => if v is Octets { append(s, enc_charstring(p, lb, ub, ext, v->Octets_0, false)) } else { None },
            Ty::Of(item, lb, ub, ext) => if v is List {
                match put_of_len(s, lb, ub, ext, v->List_0.len()) { Some(t) => put_items(*item, t, v->List_0), None => None }
            } else { None },
            _ => None,
        }
    }
    pub proof fn lemma_put_prim(ty: Ty, s: Seq<bool>, v: Val)
        requires prim(ty)
        ensures put(ty, s, v) == put_prim(ty, s, v)
    { reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open); }
    pub proof fn lemma_dec_seq(ty: Ty, b: Seq<bool>, o: int, key: Option<int>)
        ensures ty is Seq ==> dec(ty, b, o, key) == match dec_seq_header(b, o, ty->Seq_0, ty->Seq_1 as nat) {
            Some((h, q)) => dec_end(h.1, b, dec_fields(ty->Seq_2, b, q, h.0, key, None, Seq::empty())),
            None => None,
        }
    { reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt); }
    pub proof fn lemma_dec_alts(ty: Ty, b: Seq<bool>, o: int, key: Option<int>)
        ensures
            ty is Choice ==> dec(ty, b, o, key) == match dec_index(b, o, Some(ty->Choice_0), Some(ty->Choice_1), ty->Choice_2) {
                Some((v, q)) => if v.1 { None } else { dec_alt(ty->Choice_3, 0, v.0, b, q, key) },
                None => None,
            },
            ty is Open ==> dec(ty, b, o, key) == match dec_sized(b, o, None, None, false, 8) {
                Some((s, q)) => match key {
                    Some(k) => as_open(q, key, dec_alt(ty->Open_0, 0, k, s, 0, key)),
                    None => None,
                },
                None => None,
            },
    { reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt); }
    pub proof fn lemma_put_seq(ty: Ty, s: Seq<bool>, v: Val)
        ensures ty is Seq && v is Fields ==> put(ty, s, v)
            == put_fields(ty->Seq_2, 0, s + (ebit(ty->Seq_0) + presence(ty->Seq_2, 0, v->Fields_0, x_zeros(ty->Seq_1 as nat))), v->Fields_0)
    { reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open); }
    pub proof fn lemma_put_alts(ty: Ty, s: Seq<bool>, v: Val)
        ensures
            ty is Choice && v is Alt ==> put(ty, s, v) == (match append(s, enc_integer(s.len() as int, Some(ty->Choice_0), Some(ty->Choice_1), ty->Choice_2,
                    alt_key(ty->Choice_3, v->Alt_0), alt_extended(ty->Choice_3, v->Alt_0))) {
                Some(t) => put_alt(ty->Choice_3, v->Alt_0, t, *v->Alt_1),
                None => None,
            }),
            ty is Open && v is Alt ==> put(ty, s, v) == put_open(s, put_alt(ty->Open_0, v->Alt_0, Seq::empty(), *v->Alt_1)),
    { reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open); }

    // ------------------------------------------------------------ an encoder only appends
    pub proof fn lemma_pre(a: Seq<bool>, x: Seq<bool>)
        ensures a.is_prefix_of(a + x)
    { assert(a =~= (a + x).subrange(0, a.len() as int)); }
    pub proof fn lemma_pre_trans(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>)
        requires a.is_prefix_of(b), b.is_prefix_of(c)
        ensures a.is_prefix_of(c)
    {
        assert(a =~= c.subrange(0, a.len() as int)) by {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == c.subrange(0, a.len() as int)[i] by {
                assert(a[i] == b.subrange(0, a.len() as int)[i]);
                assert(b[i] == c.subrange(0, b.len() as int)[i]);
            }
        }
    }
    pub proof fn lemma_at(b: Seq<bool>, s: Seq<bool>, e: Seq<bool>)
        requires (s + e).is_prefix_of(b)
        ensures at(b, s.len() as int, e), s.is_prefix_of(b), (s + e).len() == s.len() + e.len(),
    {
        lemma_pre(s, e);
        lemma_pre_trans(s, s + e, b);
        assert((s + e) =~= b.subrange(0, (s + e).len() as int));
        assert(b.subrange(s.len() as int, (s.len() + e.len()) as int) =~= e) by {
            assert forall|i: int| 0 <= i < e.len() implies b.subrange(s.len() as int, (s.len() + e.len()) as int)[i] == e[i] by {
                assert((s + e)[s.len() + i] == b.subrange(0, (s + e).len() as int)[s.len() + i]);
            }
        }
    }

    pub open spec fn grown(s: Seq<bool>, t: Option<Seq<bool>>) -> bool { t is Some ==> s.is_prefix_of(t->0) }

    pub proof fn lemma_grow_append(s: Seq<bool>, e: Option<Seq<bool>>)
        ensures grown(s, append(s, e))
    { if e is Some { lemma_pre(s, e->0); } }

    pub proof fn lemma_grow(ty: Ty, s: Seq<bool>, v: Val)
        ensures grown(s, put(ty, s, v))
        decreases ty, 0nat
    {
        lemma_put_prim_or(ty, s, v);
        lemma_put_seq(ty, s, v);
        lemma_put_alts(ty, s, v);
        lemma_pre(s, Seq::empty());
        assert(s + Seq::<bool>::empty() =~= s);
        match ty {
            Ty::Null => {},
            Ty::Bool => if v is Bool { lemma_pre(s, seq![v->Bool_0]); },
            Ty::Oid => {},
            Ty::Int(lb, ub, ext, _, _) => if v is Int { lemma_grow_append(s, enc_integer(s.len() as int, lb, ub, ext, v->Int_0, false)); },
            Ty::Enum(lb, ub, ext, _, _) => if v is Int { lemma_grow_append(s, enc_integer(s.len() as int, lb, ub, ext, v->Int_0, false)); },
            Ty::Bits(lb, ub, ext) => if v is Bits { lemma_grow_append(s, enc_bitstring(s.len() as int, lb, ub, ext, v->Bits_0, false)); },
            Ty::Octets(lb, ub, ext) => if v is Octets { lemma_grow_append(s, enc_octetstring(s.len() as int, lb, ub, ext, v->Octets_0, false)); },
            Ty::Chars(lb, ub, ext) => if v is Octets { lemma_grow_append(s, enc_charstring(s.len() as int, lb, ub, ext, v->Octets_0, false)); },
            Ty::Of(item, lb, ub, ext) => if v is List {
                lemma_pre(s, ebit(ext));
                let h = s + ebit(ext);
                lemma_grow_append(h, enc_len(h.len() as int, lb, ub, v->List_0.len()));
                if let Some(t) = put_of_len(s, lb, ub, ext, v->List_0.len()) {
                    lemma_pre_trans(s, h, t);
                    lemma_grow_items(*item, t, v->List_0);
                    if let Some(u) = put_items(*item, t, v->List_0) { lemma_pre_trans(s, t, u); }
                }
            },
            Ty::Seq(ext, n, fs) => if v is Fields {
                let h = ebit(ext) + presence(fs, 0, v->Fields_0, x_zeros(n as nat));
                lemma_pre(s, h);
                lemma_grow_fields(fs, 0, s + h, v->Fields_0);
                if let Some(t) = put_fields(fs, 0, s + h, v->Fields_0) { lemma_pre_trans(s, s + h, t); }
            } else { lemma_put_shape(ty, s, v); },
            Ty::Choice(lb, ub, ext, alts) => if v is Alt {
                let e = enc_integer(s.len() as int, Some(lb), Some(ub), ext, alt_key(alts, v->Alt_0), alt_extended(alts, v->Alt_0));
                lemma_grow_append(s, e);
                if let Some(t) = append(s, e) {
                    lemma_grow_alt(alts, v->Alt_0, t, *v->Alt_1);
                    if let Some(u) = put_alt(alts, v->Alt_0, t, *v->Alt_1) { lemma_pre_trans(s, t, u); }
                }
            } else { lemma_put_shape(ty, s, v); },
            Ty::Open(alts) => if v is Alt {
                let e = put_alt(alts, v->Alt_0, Seq::empty(), *v->Alt_1);
                reveal(put_open);
                if e is Some {
                    let c = open_contents(e->0);
                    let l = enc_len_general(s.len() as int, c.len() / 8);
                    lemma_grow_append(s, l);
                    if let Some(t) = append(s, l) { lemma_pre(t, c); lemma_pre_trans(s, t, t + c); }
                }
            } else { lemma_put_shape(ty, s, v); },
        }
    }
    pub proof fn lemma_put_prim_or(ty: Ty, s: Seq<bool>, v: Val)
        ensures prim(ty) ==> put(ty, s, v) == put_prim(ty, s, v)
    { if prim(ty) { lemma_put_prim(ty, s, v); } }
    pub proof fn lemma_put_shape(ty: Ty, s: Seq<bool>, v: Val)
        ensures
            ty is Seq && !(v is Fields) ==> put(ty, s, v) is None,
            (ty is Choice || ty is Open) && !(v is Alt) ==> put(ty, s, v) is None,
    { reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open); }
    pub proof fn lemma_put_items_last(ty: Ty, s: Seq<bool>, vs: Seq<Val>)
        ensures put_items(ty, s, vs) == (if vs.len() == 0 { Some(s) }
            else { match put_items(ty, s, vs.drop_last()) { Some(t) => put(ty, t, vs.last()), None => None } })
    { reveal(put_items); reveal(put); }
    pub proof fn lemma_put_fields_next(fs: Fields, i: int, s: Seq<bool>, vs: Seq<Val>)
        ensures put_fields(fs, i, s, vs) == (match fs {
            Fields::Nil => Some(s),
            Fields::Cons(ty, opt, _, rest) => match (if !(opt is Some && vs[i] is Absent) { put(*ty, s, vs[i]) } else { Some(s) }) {
                Some(t) => put_fields(*rest, i + 1, t, vs),
                None => None,
            },
        })
    {
        reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open);
        if let Fields::Cons(ty, opt, _, _) = fs { lemma_put_opt(*ty, !(opt is Some && vs[i] is Absent), s, vs[i]); }
    }
    pub proof fn lemma_put_alt_next(alts: Alts, n: int, s: Seq<bool>, v: Val)
        ensures put_alt(alts, n, s, v) == (match alts {
            Alts::Nil => None,
            Alts::Cons(ty, _, _, rest) => if n == 0 { put(*ty, s, v) } else { put_alt(*rest, n - 1, s, v) },
        })
    { reveal(put); reveal(put_items); reveal(put_fields); reveal(put_opt); reveal(put_alt); reveal(put_open); }

    pub proof fn lemma_grow_items(ty: Ty, s: Seq<bool>, vs: Seq<Val>)
        ensures grown(s, put_items(ty, s, vs))
        decreases ty, vs.len() + 1
    {
        lemma_put_items_last(ty, s, vs);
        if vs.len() == 0 { lemma_pre(s, Seq::empty()); assert(s + Seq::<bool>::empty() =~= s); }
        else {
            lemma_grow_items(ty, s, vs.drop_last());
            if let Some(t) = put_items(ty, s, vs.drop_last()) {
                lemma_grow(ty, t, vs.last());
                if let Some(u) = put(ty, t, vs.last()) { lemma_pre_trans(s, t, u); }
            }
        }
    }
    pub proof fn lemma_grow_fields(fs: Fields, i: int, s: Seq<bool>, vs: Seq<Val>)
        ensures grown(s, put_fields(fs, i, s, vs))
        decreases fs, 0nat
    {
        lemma_put_fields_next(fs, i, s, vs);
        lemma_pre(s, Seq::empty()); assert(s + Seq::<bool>::empty() =~= s);
        if let Fields::Cons(ty, opt, _, rest) = fs {
            lemma_grow(*ty, s, vs[i]);
            if let Some(t) = (if !(opt is Some && vs[i] is Absent) { put(*ty, s, vs[i]) } else { Some(s) }) {
                lemma_grow_fields(*rest, i + 1, t, vs);
                if let Some(u) = put_fields(*rest, i + 1, t, vs) { lemma_pre_trans(s, t, u); }
            }
        }
    }
    pub proof fn lemma_grow_alt(alts: Alts, n: int, s: Seq<bool>, v: Val)
        ensures grown(s, put_alt(alts, n, s, v))
        decreases alts, 0nat
    {
        lemma_put_alt_next(alts, n, s, v);
        if let Alts::Cons(ty, _, _, rest) = alts {
            if n == 0 { lemma_grow(*ty, s, v); } else { lemma_grow_alt(*rest, n - 1, s, v); }
        }
    }

    // ------------------------------------------------------------ what was encoded is decoded
    pub open spec fn agree(fs: Fields, i: int, vs: Seq<Val>, bm: Seq<bool>) -> bool
        decreases fs
    {
        match fs {
            Fields::Nil => true,
            Fields::Cons(_, opt, _, rest) => (opt is Some ==> bm[opt->0] == !(vs[i] is Absent)) && agree(*rest, i + 1, vs, bm),
        }
    }
    pub proof fn lemma_wf_fields(fs: Fields, n: int, used: Set<int>)
        ensures wf_fields(fs, n, used) == (match fs {
            Fields::Nil => true,
            Fields::Cons(ty, opt, is_key, rest) => {
                &&& wf_ty(*ty)
                &&& opt is Some ==> 0 <= opt->0 < n && !used.contains(opt->0)
                &&& is_key ==> opt is None && (*ty is Int || *ty is Enum)
                &&& wf_fields(*rest, n, if opt is Some { used.insert(opt->0) } else { used })
            }
        })
    { reveal(wf_ty); reveal(wf_fields); reveal(wf_alts); }
    pub proof fn lemma_wf_alts(alts: Alts)
        ensures wf_alts(alts) == (match alts { Alts::Nil => true, Alts::Cons(ty, _, _, rest) => wf_ty(*ty) && wf_alts(*rest) })
    { reveal(wf_ty); reveal(wf_fields); reveal(wf_alts); }

    pub proof fn lemma_presence(fs: Fields, i: int, vs: Seq<Val>, bm: Seq<bool>, n: int, used: Set<int>)
        requires
            wf_fields(fs, n, used), bm.len() == n,
            forall|x: int| 0 <= x < n && !used.contains(x) ==> !#[trigger] bm[x],
        ensures
            presence(fs, i, vs, bm).len() == n,
            agree(fs, i, vs, presence(fs, i, vs, bm)),
            forall|x: int| 0 <= x < n && used.contains(x) ==> #[trigger] presence(fs, i, vs, bm)[x] == bm[x],
        decreases fs
    {
        reveal(presence);
        lemma_wf_fields(fs, n, used);
        if let Fields::Cons(ty, opt, _, rest) = fs {
            let bm2 = if opt is Some && !(vs[i] is Absent) { bm.update(opt->0, true) } else { bm };
            let used2 = if opt is Some { used.insert(opt->0) } else { used };
            lemma_presence(*rest, i + 1, vs, bm2, n, used2);
            assert(presence(fs, i, vs, bm) == presence(*rest, i + 1, vs, bm2));
        }
    }

    /// What decoding a value encoded to t from behind s must give.
    pub open spec fn back(r: Read, v: Val, t: Seq<bool>, k: Option<Option<int>>) -> bool {
        k is Some && r == Some((v, t.len() as int, k->0))
    }

    pub proof fn lemma_flow(ty: Ty, v: Val, key: Option<int>)
        ensures flow(ty, v, key) == (match ty {
            Ty::Int(_, _, _, min, max) => if v is Int && within(v->Int_0, min, max) { Some(key) } else { None },
            Ty::Enum(_, _, _, min, max) => if v is Int && within(v->Int_0, min, max) { Some(key) } else { None },
            Ty::Chars(_, _, _) => if v is Octets && vstd::utf8::valid_utf8(v->Octets_0) { Some(key) } else { None },
            Ty::Of(item, _, _, _) => if v is List { flow_items(*item, v->List_0, key) } else { None },
            Ty::Seq(_, _, fs) => if v is Fields && v->Fields_0.len() == count(fs) { flow_fields(fs, 0, v->Fields_0, key, None) } else { None },
            Ty::Choice(_, _, _, alts) => if v is Alt { flow_alt(alts, v->Alt_0, *v->Alt_1, key) } else { None },
            Ty::Open(alts) => if v is Alt && key == Some(alt_key(alts, v->Alt_0)) && flow_alt(alts, v->Alt_0, *v->Alt_1, key) is Some { Some(key) } else { None },
            _ => Some(key),
        })
    { reveal(flow); reveal(flow_items); reveal(flow_fields); reveal(flow_alt); }
    pub proof fn lemma_flow_items(ty: Ty, vs: Seq<Val>, key: Option<int>)
        ensures flow_items(ty, vs, key) == (if vs.len() == 0 { Some(key) }
            else { match flow_items(ty, vs.drop_last(), key) { Some(k) => flow(ty, vs.last(), k), None => None } })
    { reveal(flow); reveal(flow_items); reveal(flow_fields); reveal(flow_alt); }
    pub proof fn lemma_flow_fields(fs: Fields, i: int, vs: Seq<Val>, key: Option<int>, own: Option<int>)
        ensures flow_fields(fs, i, vs, key, own) == (match fs {
            Fields::Nil => Some(key),
            Fields::Cons(ty, opt, is_key, rest) =>
                if vs[i] is Absent { if opt is Some { flow_fields(*rest, i + 1, vs, key, own) } else { None } }
                else {
                    match flow(*ty, vs[i], if own is Some && !is_key { own } else { key }) {
                        Some(k) => if is_key { flow_fields(*rest, i + 1, vs, Some(vs[i]->Int_0), Some(vs[i]->Int_0)) }
                            else { flow_fields(*rest, i + 1, vs, k, own) },
                        None => None,
                    }
                },
        })
    { reveal(flow); reveal(flow_items); reveal(flow_fields); reveal(flow_alt); }
    pub proof fn lemma_flow_alt(alts: Alts, n: int, v: Val, key: Option<int>)
        ensures flow_alt(alts, n, v, key) == (match alts {
            Alts::Nil => None,
            Alts::Cons(ty, _, _, rest) => if n == 0 { flow(*ty, v, key) } else { flow_alt(*rest, n - 1, v, key) },
        })
    { reveal(flow); reveal(flow_items); reveal(flow_fields); reveal(flow_alt); }
    pub proof fn lemma_dec_fields_next(fs: Fields, b: Seq<bool>, o: int, bm: Seq<bool>, key: Option<int>, own: Option<int>, acc: Seq<Val>)
        ensures dec_fields(fs, b, o, bm, key, own, acc) == (match fs {
            Fields::Nil => Some((Val::Fields(acc), o, key)),
            Fields::Cons(ty, opt, is_key, rest) =>
                match (if opt is None || bm[opt->0] { dec(*ty, b, o, if own is Some && !is_key { own } else { key }) } else { Some((Val::Absent, o, key)) }) {
                    Some((v, q, k)) =>
                        if is_key { dec_fields(*rest, b, q, bm, Some(v->Int_0), Some(v->Int_0), acc.push(v)) }
                        else { dec_fields(*rest, b, q, bm, k, own, acc.push(v)) },
                    None => None,
                },
        })
    {
        reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt);
        if let Fields::Cons(ty, opt, is_key, _) = fs {
            lemma_dec_opt(*ty, opt is None || bm[opt->0], b, o, key, if own is Some && !is_key { own } else { key });
        }
    }
    pub proof fn lemma_dec_opt(ty: Ty, present: bool, b: Seq<bool>, o: int, key: Option<int>, now: Option<int>)
        ensures dec_opt(ty, present, b, o, key, now) == (if present { dec(ty, b, o, now) } else { Some((Val::Absent, o, key)) })
    { reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt); }
    pub proof fn lemma_dec_alt_next(alts: Alts, i: int, k: int, b: Seq<bool>, o: int, key: Option<int>)
        ensures dec_alt(alts, i, k, b, o, key) == (match alts {
            Alts::Nil => None,
            Alts::Cons(ty, x, _, rest) => if x == k { as_alt(i, dec(*ty, b, o, key)) } else { dec_alt(*rest, i + 1, k, b, o, key) },
        })
    { reveal(dec); reveal(dec_items); reveal(dec_fields); reveal(dec_alt); }

    /// Any declaration: a value that has an encoding is decoded back from it, wherever it stands.
    pub proof fn theorem_type(ty: Ty, b: Seq<bool>, s: Seq<bool>, v: Val, key: Option<int>)
        requires wf_ty(ty), flow(ty, v, key) is Some, put(ty, s, v) is Some, (put(ty, s, v)->0).is_prefix_of(b),
        ensures back(dec(ty, b, s.len() as int, key), v, put(ty, s, v)->0, flow(ty, v, key)),
        decreases ty, 0nat
    {
        let t = put(ty, s, v)->0;
        let p = s.len() as int;
        lemma_wf(ty);
        lemma_flow(ty, v, key);
        lemma_put_prim_or(ty, s, v);
        if prim(ty) { lemma_dec_prim(ty, b, p, key); }
        match ty {
            Ty::Null => {},
            Ty::Bool => { lemma_at(b, s, seq![v->Bool_0]); assert(b.subrange(p, p + 1)[0] == v->Bool_0); },
            Ty::Oid => {},
            Ty::Int(lb, ub, ext, _, _) => {
                lemma_at(b, s, enc_integer(p, lb, ub, ext, v->Int_0, false)->0);
                theorem_integer(b, p, lb, ub, ext, v->Int_0, false);
            },
            Ty::Enum(lb, ub, ext, _, _) => {
                lemma_at(b, s, enc_integer(p, lb, ub, ext, v->Int_0, false)->0);
                theorem_integer(b, p, lb, ub, ext, v->Int_0, false);
            },
            Ty::Bits(lb, ub, ext) => {
                lemma_at(b, s, enc_bitstring(p, lb, ub, ext, v->Bits_0, false)->0);
                theorem_bitstring(b, p, lb, ub, ext, v->Bits_0, false);
            },
            Ty::Octets(lb, ub, ext) => {
                lemma_at(b, s, enc_octetstring(p, lb, ub, ext, v->Octets_0, false)->0);
                theorem_octetstring(b, p, lb, ub, ext, v->Octets_0, false);
                lemma_bytes_bits_inverse(v->Octets_0);
            },
            Ty::Chars(lb, ub, ext) => {
                lemma_at(b, s, enc_charstring(p, lb, ub, ext, v->Octets_0, false)->0);
                theorem_charstring(b, p, lb, ub, ext, v->Octets_0, false);
            },
            Ty::Of(item, lb, ub, ext) => {
                let vs = v->List_0;
                let u = put_of_len(s, lb, ub, ext, vs.len())->0;
                lemma_grow_items(*item, u, vs);
                lemma_pre_trans(u, t, b);
                lemma_of_len(b, s, lb, ub, ext, vs.len());
                theorem_items(*item, b, u, vs, key, 0, Seq::empty());
                assert(Seq::<Val>::empty() + vs =~= vs);
                lemma_items_end(*item, b, t.len() as int, flow_items(*item, vs, key)->0, vs);
            },
            Ty::Seq(ext, n, fs) => {
                lemma_put_shape(ty, s, v);
                lemma_put_seq(ty, s, v);
                lemma_dec_seq(ty, b, p, key);
                let vs = v->Fields_0;
                let z = x_zeros(n as nat);
                let bm = presence(fs, 0, vs, z);
                lemma_presence(fs, 0, vs, z, n, Set::empty());
                let h = ebit(ext) + bm;
                lemma_grow_fields(fs, 0, s + h, vs);
                lemma_pre_trans(s + h, t, b);
                lemma_at(b, s, h);
                theorem_seq_header(b, p, ext, bm, false);
                assert(vs.take(0) =~= Seq::empty());
                theorem_fields(fs, 0, b, s + h, vs, bm, key, None, n, Set::empty());
            },
            Ty::Choice(lb, ub, ext, alts) => {
                lemma_put_shape(ty, s, v);
                lemma_put_alts(ty, s, v);
                lemma_dec_alts(ty, b, p, key);
                let k = alt_key(alts, v->Alt_0);
                let x = alt_extended(alts, v->Alt_0);
                let e = enc_integer(p, Some(lb), Some(ub), ext, k, x)->0;
                lemma_grow_alt(alts, v->Alt_0, s + e, *v->Alt_1);
                lemma_pre_trans(s + e, t, b);
                lemma_at(b, s, e);
                assert(!x && lb <= k <= ub) by { reveal(enc_integer); }
                theorem_integer(b, p, Some(lb), Some(ub), ext, k, x);
                theorem_alt(alts, v->Alt_0, 0, b, s + e, *v->Alt_1, key);
            },
            Ty::Open(alts) => {
                lemma_put_shape(ty, s, v);
                lemma_put_alts(ty, s, v);
                lemma_dec_alts(ty, b, p, key);
                let x = put_alt(alts, v->Alt_0, Seq::empty(), *v->Alt_1)->0;
                reveal(put_open);
                let c = open_contents(x);
                lemma_open(b, s, x);
                lemma_flow_some(alts, v->Alt_0, *v->Alt_1, key);
                lemma_all_root(alts, v->Alt_0);
                if x.len() == 0 { assert(x =~= c.subrange(0, 0)); } else { lemma_pre(x, x_zeros(x_pad(x.len() as int))); }
                theorem_alt(alts, v->Alt_0, 0, c, Seq::empty(), *v->Alt_1, key);
            },
        }
    }

    pub proof fn lemma_all_root(alts: Alts, n: int)
        requires no_additions(alts), flow_some_alt(alts, n)
        ensures !alt_extended(alts, n)
        decreases alts
    {
        reveal(no_additions); reveal(alt_extended);
        if let Alts::Cons(_, _, _, rest) = alts { if n != 0 { lemma_all_root(*rest, n - 1); } }
    }
    pub proof fn lemma_flow_some(alts: Alts, n: int, v: Val, key: Option<int>)
        requires flow_alt(alts, n, v, key) is Some
        ensures flow_some_alt(alts, n)
        decreases alts
    {
        lemma_flow_alt(alts, n, v, key);
        if let Alts::Cons(_, _, _, rest) = alts { if n != 0 { lemma_flow_some(*rest, n - 1, v, key); } }
    }
    pub open spec fn flow_some_alt(alts: Alts, n: int) -> bool
        decreases alts
    {
        match alts { Alts::Nil => false, Alts::Cons(_, _, _, rest) => n == 0 || flow_some_alt(*rest, n - 1) }
    }

    pub proof fn lemma_of_len(b: Seq<bool>, s: Seq<bool>, lb: Option<int>, ub: Option<int>, ext: bool, n: nat)
        requires put_of_len(s, lb, ub, ext, n) is Some, (put_of_len(s, lb, ub, ext, n)->0).is_prefix_of(b), isizes(lb, ub),
        ensures dec_of_len(b, s.len() as int, lb, ub, ext) == Some((n, (put_of_len(s, lb, ub, ext, n)->0).len() as int)),
    {
        let h = s + ebit(ext);
        let e = enc_len(h.len() as int, lb, ub, n)->0;
        lemma_at(b, h, e);
        lemma_at(b, s, ebit(ext));
        if ext { assert(b.subrange(s.len() as int, s.len() as int + 1)[0] == false); }
        theorem_len(b, h.len() as int, lb, ub, n);
        if len_is_general(ub) { assert(n < 16384) by { reveal(enc_len); reveal(enc_len_general); } }
    }

    pub proof fn lemma_open(b: Seq<bool>, s: Seq<bool>, x: Seq<bool>)
        requires put_open(s, Some(x)) is Some, (put_open(s, Some(x))->0).is_prefix_of(b),
        ensures dec_sized(b, s.len() as int, None, None, false, 8) == Some((open_contents(x), (put_open(s, Some(x))->0).len() as int)),
    {
        reveal(put_open);
        let p = s.len() as int;
        let c = open_contents(x);
        let n = c.len() / 8;
        let l = enc_len_general(p, n)->0;
        let y = bits_bytes(c);
        lemma_bits_bytes_inverse(c);
        lemma_bytes_bits_len(y);
        lemma_enc_len_aligned(p, n);
        assert(n < 16384) by { reveal(enc_len_general); }
        assert(enc_octetstring(p, None, None, false, y, false) == Some(l + c)) by {
            reveal(enc_octetstring);
            let q = p + ebit(false).len();
            assert(x_zeros(str_pad(q + l.len(), None, None, 8 * y.len())) =~= Seq::empty());
            assert(ebit(false) + l + x_zeros(str_pad(q + l.len(), None, None, 8 * y.len())) + bytes_bits(y) =~= l + c);
        }
        assert((s + l) + c =~= s + (l + c));
        lemma_at(b, s, l + c);
        theorem_octetstring(b, p, None, None, false, y, false);
    }

    pub proof fn theorem_items(ty: Ty, b: Seq<bool>, s: Seq<bool>, vs: Seq<Val>, key: Option<int>, m: nat, acc: Seq<Val>)
        requires wf_ty(ty), flow_items(ty, vs, key) is Some, put_items(ty, s, vs) is Some, (put_items(ty, s, vs)->0).is_prefix_of(b),
        ensures dec_items(ty, b, s.len() as int, key, vs.len() + m, acc)
            == dec_items(ty, b, (put_items(ty, s, vs)->0).len() as int, flow_items(ty, vs, key)->0, m, acc + vs),
        decreases ty, vs.len() + 1
    {
        lemma_put_items_last(ty, s, vs);
        lemma_flow_items(ty, vs, key);
        if vs.len() == 0 { assert(acc + vs =~= acc); }
        else {
            let ws = vs.drop_last();
            let t = put_items(ty, s, ws)->0;
            let k = flow_items(ty, ws, key)->0;
            lemma_grow(ty, t, vs.last());
            lemma_pre_trans(t, put(ty, t, vs.last())->0, b);
            theorem_items(ty, b, s, ws, key, m + 1, acc);
            theorem_type(ty, b, t, vs.last(), k);
            lemma_items_next(ty, b, t.len() as int, k, m + 1, acc + ws);
            assert((acc + ws).push(vs.last()) =~= acc + vs);
        }
    }

    pub proof fn theorem_fields(fs: Fields, i: int, b: Seq<bool>, s: Seq<bool>, vs: Seq<Val>, bm: Seq<bool>, key: Option<int>, own: Option<int>, n: int, used: Set<int>)
        requires
            wf_fields(fs, n, used), 0 <= i, vs.len() == i + count(fs), agree(fs, i, vs, bm), flow_fields(fs, i, vs, key, own) is Some,
            put_fields(fs, i, s, vs) is Some, (put_fields(fs, i, s, vs)->0).is_prefix_of(b),
        ensures back(dec_fields(fs, b, s.len() as int, bm, key, own, vs.take(i)), Val::Fields(vs), put_fields(fs, i, s, vs)->0, flow_fields(fs, i, vs, key, own)),
        decreases fs, 0nat
    {
        lemma_wf_fields(fs, n, used);
        lemma_put_fields_next(fs, i, s, vs);
        lemma_flow_fields(fs, i, vs, key, own);
        lemma_dec_fields_next(fs, b, s.len() as int, bm, key, own, vs.take(i));
        match fs {
            Fields::Nil => { assert(vs.take(i) =~= vs); },
            Fields::Cons(ty, opt, is_key, rest) => {
                let used2 = if opt is Some { used.insert(opt->0) } else { used };
                assert(vs.take(i).push(vs[i]) =~= vs.take(i + 1));
                if vs[i] is Absent {
                    theorem_fields(*rest, i + 1, b, s, vs, bm, key, own, n, used2);
                } else {
                    let now = if own is Some && !is_key { own } else { key };
                    let t = put(*ty, s, vs[i])->0;
                    lemma_grow_fields(*rest, i + 1, t, vs);
                    lemma_pre_trans(t, put_fields(*rest, i + 1, t, vs)->0, b);
                    theorem_type(*ty, b, s, vs[i], now);
                    if is_key { theorem_fields(*rest, i + 1, b, t, vs, bm, Some(vs[i]->Int_0), Some(vs[i]->Int_0), n, used2); }
                    else { theorem_fields(*rest, i + 1, b, t, vs, bm, flow(*ty, vs[i], now)->0, own, n, used2); }
                }
            },
        }
    }

    pub proof fn theorem_alt(alts: Alts, n: int, i: int, b: Seq<bool>, s: Seq<bool>, v: Val, key: Option<int>)
        requires
            wf_alts(alts), distinct(alts), !alt_extended(alts, n), flow_alt(alts, n, v, key) is Some,
            put_alt(alts, n, s, v) is Some, (put_alt(alts, n, s, v)->0).is_prefix_of(b),
        ensures back(dec_alt(alts, i, alt_key(alts, n), b, s.len() as int, key), Val::Alt(n + i, Box::new(v)), put_alt(alts, n, s, v)->0, flow_alt(alts, n, v, key)),
        decreases alts, 0nat
    {
        lemma_wf_alts(alts);
        lemma_put_alt_next(alts, n, s, v);
        lemma_flow_alt(alts, n, v, key);
        lemma_dec_alt_next(alts, i, alt_key(alts, n), b, s.len() as int, key);
        reveal(alt_key); reveal(alt_extended); reveal(distinct);
        match alts {
            Alts::Nil => {},
            Alts::Cons(ty, k, _, rest) => {
                if n == 0 { theorem_type(*ty, b, s, v, key); }
                else {
                    lemma_flow_some(*rest, n - 1, v, key);
                    lemma_root_key(*rest, n - 1);
                    theorem_alt(*rest, n - 1, i + 1, b, s, v, key);
                }
            },
        }
    }
    pub proof fn lemma_root_key(alts: Alts, n: int)
        requires flow_some_alt(alts, n), !alt_extended(alts, n)
        ensures root_key(alts, alt_key(alts, n))
        decreases alts
    {
        reveal(root_key); reveal(alt_key); reveal(alt_extended);
        if let Alts::Cons(_, _, _, rest) = alts { if n != 0 { lemma_root_key(*rest, n - 1); } }
    }
}
} // verus!
