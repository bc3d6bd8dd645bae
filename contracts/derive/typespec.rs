// ---- What the code the macro generates must do, for any declaration ----
// A declaration is a term of Ty; enc and dec give its encoding and decoding under aligned PER, built from
// those of aperspec.  The generated code is verified against them declaration by declaration; the
// theorems about them (typelemmas.rs) hold for all declarations.
verus! {
pub mod typespec {
    use vstd::prelude::*;
    use crate::bits::*;
    use crate::aperspec::*;
    use crate::aper::AperCodecData;

    pub ghost enum Ty {
        Null,
        Bool,
        Oid,
        /// lower bound, upper bound, extensible, range of the Rust integer that holds it
        Int(Option<int>, Option<int>, bool, int, int),
        Enum(Option<int>, Option<int>, bool, int, int),
        Bits(Option<int>, Option<int>, bool),
        Octets(Option<int>, Option<int>, bool),
        Chars(Option<int>, Option<int>, bool),
        /// item, bounds of the size, extensible
        Of(Box<Ty>, Option<int>, Option<int>, bool),
        /// extensible, number of optional fields
        Seq(bool, int, Fields),
        /// bounds of the index, extensible
        Choice(int, int, bool, Alts),
        Open(Alts),
    }
    pub ghost enum Fields {
        Nil,
        /// type, index in the presence bitmap if optional, whether it is a key, further fields
        Cons(Box<Ty>, Option<int>, bool, Box<Fields>),
    }
    pub ghost enum Alts {
        Nil,
        /// type, key, whether an extension addition, further alternatives
        Cons(Box<Ty>, int, bool, Box<Alts>),
    }
    pub ghost enum Val {
        Null,
        Bool(bool),
        Int(int),
        Bits(Seq<bool>),
        Octets(Seq<u8>),
        List(Seq<Val>),
        Fields(Seq<Val>),
        Absent,
        Alt(int, Box<Val>),
    }
    /// A decoded value, the position behind it, and the key an open type that follows goes by.
    pub type Read = Option<(Val, int, Option<int>)>;

    // ------------------------------------------------------------ encoding
    // put(ty, s, v): the buffer s after v has been encoded behind it; None if v has no encoding there.
    pub open spec fn append(s: Seq<bool>, e: Option<Seq<bool>>) -> Option<Seq<bool>> {
        match e { Some(x) => Some(s + x), None => None }
    }

    #[verifier::opaque]

    pub open spec fn put(ty: Ty, s: Seq<bool>, v: Val) -> Option<Seq<bool>>
        decreases ty, 0nat
    {
        let p = s.len() as int;
        match ty {
            Ty::Null => if v is Null { Some(s) } else { None },
            Ty::Bool => if v is Bool { Some(s + seq![v->Bool_0]) } else { None },
            Ty::Oid => None,
            Ty::Int(lb, ub, ext, _, _) => if v is Int { append(s, enc_integer(p, lb, ub, ext, v->Int_0, false)) } else { None },
            Ty::Enum(lb, ub, ext, _, _) => if v is Int { append(s, enc_integer(p, lb, ub, ext, v->Int_0, false)) } else { None },
            Ty::Bits(lb, ub, ext) => if v is Bits { append(s, enc_bitstring(p, lb, ub, ext, v->Bits_0, false)) } else { None },
            Ty::Octets(lb, ub, ext) => if v is Octets { append(s, enc_octetstring(p, lb, ub, ext, v->Octets_0, false)) } else { None },
            Ty::Chars(lb, ub, ext) => if v is Octets { append(s, enc_charstring(p, lb, ub, ext, v->Octets_0, false)) } else { None },
            Ty::Of(item, lb, ub, ext) => if v is List {
                match put_of_len(s, lb, ub, ext, v->List_0.len()) { Some(t) => put_items(*item, t, v->List_0), None => None }
            } else { None },
            Ty::Seq(ext, n, fs) => if v is Fields {
                put_fields(fs, 0, s + (ebit(ext) + presence(fs, 0, v->Fields_0, x_zeros(n as nat))), v->Fields_0)
            } else { None },
            Ty::Choice(lb, ub, ext, alts) => if v is Alt {
                match append(s, enc_integer(p, Some(lb), Some(ub), ext, alt_key(alts, v->Alt_0), alt_extended(alts, v->Alt_0))) {
                    Some(t) => put_alt(alts, v->Alt_0, t, *v->Alt_1),
                    None => None,
                }
            } else { None },
            Ty::Open(alts) => if v is Alt { put_open(s, put_alt(alts, v->Alt_0, Seq::empty(), *v->Alt_1)) } else { None },
        }
    }

    pub open spec fn put_of_len(s: Seq<bool>, lb: Option<int>, ub: Option<int>, ext: bool, n: nat) -> Option<Seq<bool>> {
        let t = s + ebit(ext);
        append(t, enc_len(t.len() as int, lb, ub, n))
    }

    /// 11.1, 11.2: an open type is the octets of the complete encoding of its value, at least one.
    pub open spec fn open_contents(e: Seq<bool>) -> Seq<bool> {
        let f = if e.len() == 0 { seq![false] } else { e };
        f + x_zeros(x_pad(f.len() as int))
    }
    #[verifier::opaque]
    pub open spec fn put_open(s: Seq<bool>, e: Option<Seq<bool>>) -> Option<Seq<bool>> {
        match e {
            Some(x) => {
                let c = open_contents(x);
                match append(s, enc_len_general(s.len() as int, c.len() / 8)) { Some(t) => Some(t + c), None => None }
            },
            None => None,
        }
    }

    #[verifier::opaque]

    pub open spec fn put_items(ty: Ty, s: Seq<bool>, vs: Seq<Val>) -> Option<Seq<bool>>
        decreases ty, vs.len() + 1
    {
        if vs.len() == 0 { Some(s) }
        else { match put_items(ty, s, vs.drop_last()) { Some(t) => put(ty, t, vs.last()), None => None } }
    }

    /// 18.2: one bit for each optional field.
    #[verifier::opaque]
    pub open spec fn presence(fs: Fields, i: int, vs: Seq<Val>, bm: Seq<bool>) -> Seq<bool>
        decreases fs
    {
        match fs {
            Fields::Nil => bm,
            Fields::Cons(_, opt, _, rest) =>
                presence(*rest, i + 1, vs, if opt is Some && !(vs[i] is Absent) { bm.update(opt->0, true) } else { bm }),
        }
    }

    #[verifier::opaque]
    pub open spec fn put_opt(ty: Ty, present: bool, s: Seq<bool>, v: Val) -> Option<Seq<bool>>
        decreases ty, 1nat
    {
        if present { put(ty, s, v) } else { Some(s) }
    }

    #[verifier::opaque]

    pub open spec fn put_fields(fs: Fields, i: int, s: Seq<bool>, vs: Seq<Val>) -> Option<Seq<bool>>
        decreases fs, 0nat
    {
        match fs {
            Fields::Nil => Some(s),
            Fields::Cons(ty, opt, _, rest) => match put_opt(*ty, !(opt is Some && vs[i] is Absent), s, vs[i]) {
                Some(t) => put_fields(*rest, i + 1, t, vs),
                None => None,
            },
        }
    }

    #[verifier::opaque]

    pub open spec fn put_alt(alts: Alts, n: int, s: Seq<bool>, v: Val) -> Option<Seq<bool>>
        decreases alts, 0nat
    {
        match alts {
            Alts::Nil => None,
            Alts::Cons(ty, _, _, rest) => if n == 0 { put(*ty, s, v) } else { put_alt(*rest, n - 1, s, v) },
        }
    }
    #[verifier::opaque]
    pub open spec fn alt_key(alts: Alts, n: int) -> int
        decreases alts
    {
        match alts { Alts::Nil => -1, Alts::Cons(_, key, _, rest) => if n == 0 { key } else { alt_key(*rest, n - 1) } }
    }
    #[verifier::opaque]
    pub open spec fn alt_extended(alts: Alts, n: int) -> bool
        decreases alts
    {
        match alts { Alts::Nil => true, Alts::Cons(_, _, x, rest) => if n == 0 { x } else { alt_extended(*rest, n - 1) } }
    }

    // ------------------------------------------------------------ decoding
    pub open spec fn within(v: int, min: int, max: int) -> bool { min <= v <= max }

    #[verifier::opaque]

    pub open spec fn dec(ty: Ty, b: Seq<bool>, o: int, key: Option<int>) -> Read
        decreases ty, 0nat
    {
        match ty {
            Ty::Null => Some((Val::Null, o, key)),
            Ty::Bool => match dec_bit(b, o) { Some((v, q)) => Some((Val::Bool(v), q, key)), None => None },
            Ty::Oid => None,
            Ty::Int(lb, ub, ext, min, max) => match dec_integer(b, o, lb, ub, ext) {
                Some((v, q)) => if within(v.0, min, max) { Some((Val::Int(v.0), q, key)) } else { None },
                None => None,
            },
            Ty::Enum(lb, ub, ext, min, max) => match dec_index(b, o, lb, ub, ext) {
                Some((v, q)) => if !v.1 && within(v.0, min, max) { Some((Val::Int(v.0), q, key)) } else { None },
                None => None,
            },
            Ty::Bits(lb, ub, ext) => match dec_sized(b, o, lb, ub, ext, 1) {
                Some((s, q)) => Some((Val::Bits(s), q, key)),
                None => None,
            },
            Ty::Octets(lb, ub, ext) => match dec_sized(b, o, lb, ub, ext, 8) {
                Some((s, q)) => Some((Val::Octets(bits_bytes(s)), q, key)),
                None => None,
            },
            Ty::Chars(lb, ub, ext) => match dec_chars(b, o, lb, ub, ext) {
                Some((s, q)) => if vstd::utf8::valid_utf8(bits_bytes(s)) { Some((Val::Octets(bits_bytes(s)), q, key)) } else { None },
                None => None,
            },
            Ty::Of(item, lb, ub, ext) => match dec_of_len(b, o, lb, ub, ext) {
                Some((n, q)) => dec_items(*item, b, q, key, n, Seq::empty()),
                None => None,
            },
            Ty::Seq(ext, n, fs) => match dec_seq_header(b, o, ext, n as nat) {
                Some((h, q)) => dec_end(h.1, b, dec_fields(fs, b, q, h.0, key, None, Seq::empty())),
                None => None,
            },
            Ty::Choice(lb, ub, ext, alts) => match dec_index(b, o, Some(lb), Some(ub), ext) {
                Some((v, q)) => if v.1 { None } else { dec_alt(alts, 0, v.0, b, q, key) },
                None => None,
            },
            Ty::Open(alts) => match dec_sized(b, o, None, None, false, 8) {
                Some((s, q)) => match key {
                    Some(k) => as_open(q, key, dec_alt(alts, 0, k, s, 0, key)),
                    None => None,
                },
                None => None,
            },
        }
    }

    /// 19.5: the number of items; fragments are refused.
    pub open spec fn dec_of_len(b: Seq<bool>, o: int, lb: Option<int>, ub: Option<int>, ext: bool) -> Option<(nat, int)> {
        match dec_ebit(b, o, ext) {
            Some((x, q)) => match if x { dec_len(b, q, None, None) } else { dec_len(b, q, lb, ub) } {
                Some((n, q2)) => if n >= 16384 && (x || len_is_general(ub)) { None } else { Some((n, q2)) },
                None => None,
            },
            None => None,
        }
    }

    #[verifier::opaque]

    pub open spec fn dec_items(ty: Ty, b: Seq<bool>, o: int, key: Option<int>, n: nat, acc: Seq<Val>) -> Read
        decreases ty, n + 1
    {
        if n == 0 { Some((Val::List(acc), o, key)) }
        else {
            match dec(ty, b, o, key) {
                Some((v, q, k)) => dec_items(ty, b, q, k, (n - 1) as nat, acc.push(v)),
                None => None,
            }
        }
    }

    /// The fields in order; an open type goes by the last key of its own SEQUENCE, if it has one by then.
    #[verifier::opaque]
    pub open spec fn dec_fields(fs: Fields, b: Seq<bool>, o: int, bm: Seq<bool>, key: Option<int>, own: Option<int>, acc: Seq<Val>) -> Read
        decreases fs, 0nat
    {
        match fs {
            Fields::Nil => Some((Val::Fields(acc), o, key)),
            Fields::Cons(ty, opt, is_key, rest) =>
                match dec_opt(*ty, opt is None || bm[opt->0], b, o, key, if own is Some && !is_key { own } else { key }) {
                    Some((v, q, k)) =>
                        if is_key { dec_fields(*rest, b, q, bm, Some(v->Int_0), Some(v->Int_0), acc.push(v)) }
                        else { dec_fields(*rest, b, q, bm, k, own, acc.push(v)) },
                    None => None,
                },
        }
    }
    /// `key` is the key before the field, `now` the one its own open types go by.
    pub open spec fn dec_opt(ty: Ty, present: bool, b: Seq<bool>, o: int, key: Option<int>, now: Option<int>) -> Read
        decreases ty, 1nat
    {
        if present { dec(ty, b, o, now) } else { Some((Val::Absent, o, key)) }
    }
    pub open spec fn dec_end(more: bool, b: Seq<bool>, r: Read) -> Read {
        match r {
            Some((v, q, k)) => if !more { r } else { match dec_additions(b, q) { Some(q2) => Some((v, q2, k)), None => None } },
            None => None,
        }
    }

    pub open spec fn as_alt(i: int, r: Read) -> Read {
        match r { Some((v, q, k)) => Some((Val::Alt(i, Box::new(v)), q, k)), None => None }
    }
    /// An open type is decoded from its own octets.
    pub open spec fn as_open(q: int, key: Option<int>, r: Read) -> Read {
        match r { Some((v, _, _)) => Some((v, q, key)), None => None }
    }

    /// The first alternative that has the key.
    #[verifier::opaque]
    pub open spec fn dec_alt(alts: Alts, i: int, k: int, b: Seq<bool>, o: int, key: Option<int>) -> Read
        decreases alts, 0nat
    {
        match alts {
            Alts::Nil => None,
            Alts::Cons(ty, x, _, rest) =>
                if x == k {
                    as_alt(i, dec(*ty, b, o, key))
                } else { dec_alt(*rest, i + 1, k, b, o, key) },
        }
    }

    // ------------------------------------------------------------ contracts of the generated functions
    /// Reads only, moving forward within the data; the key may change.
    pub open spec fn reads_keyed(a: AperCodecData, b: AperCodecData) -> bool {
        &&& b.bits == a.bits
        &&& a.decode_offset <= b.decode_offset <= b.bits@.len()
    }
    /// On what has an encoding, it appends exactly that.
    pub open spec fn puts(b: AperCodecData, ok: bool, e: Option<Seq<bool>>) -> bool {
        e is Some ==> ok && b.bits@ =~= e->0
    }
}
} // verus!
