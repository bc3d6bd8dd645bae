// ---- What the parser's contracts are written in; assumed contracts of std as the parser uses it ----

macro_rules! vx_format { ($f:literal $(, $a:expr)* $(,)?) => { { $( crate::stdx2::vx_any(&$a); )* crate::stdx2::vx_text() } } }

verus! {

pub mod stdx2 {
    use vstd::prelude::*;
    use crate::stdx::*;
    use crate::lexref::*;
    use crate::tokenizer::Token;
    use crate::error::Error;
    use crate::checker::TokenChecker;

    /// What the parser may rely on: tokens as the tokenizer makes them, fewer than 2^31 of them.
    #[verifier::opaque]
    pub open spec fn parsable(s: Seq<Token>) -> bool { all_wf(s) && s.len() <= 0x7fff_ffff }

    pub broadcast proof fn lemma_parsable_sub(s: Seq<Token>, a: int, b: int)
        requires parsable(s), 0 <= a <= b <= s.len()
        ensures #[trigger] parsable(s.subrange(a, b))
    {
        reveal(parsable);
        assert forall|i: int| 0 <= i < b - a implies tok_wf(#[trigger] s.subrange(a, b)[i]) by { assert(tok_wf(s[a + i])); }
    }
    pub broadcast proof fn lemma_parsable_at(s: Seq<Token>, i: int)
        requires #[trigger] parsable(s), 0 <= i < s.len()
        ensures tok_wf(#[trigger] s[i])
    {
        reveal(parsable);
    }
    pub broadcast proof fn lemma_parsable_len(s: Seq<Token>)
        requires #[trigger] parsable(s)
        ensures s.len() <= 0x7fff_ffff
    {
        reveal(parsable);
    }
    /// The elements of `b` are elements of `a`.
    pub open spec fn drawn(a: Seq<Token>, b: Seq<Token>) -> bool {
        b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    }
    pub broadcast proof fn lemma_parsable_filter(a: Seq<Token>, b: Seq<Token>)
        requires parsable(a), #[trigger] drawn(a, b)
        ensures parsable(b)
    {
        reveal(parsable);
        assert forall|i: int| 0 <= i < b.len() implies tok_wf(#[trigger] b[i]) by {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
            assert(tok_wf(a[j]));
        }
    }
    pub broadcast group group_parse { lemma_parsable_sub, lemma_parsable_at, lemma_parsable_len }

    /// Refused, or made of the first tokens: at least one, at most all.
    pub open spec fn taken<T>(r: Result<(T, usize), Error>, s: Seq<Token>) -> bool {
        match r { Ok((_, n)) => 0 < n <= s.len(), Err(_) => true }
    }
    /// The same of something that may be absent.
    pub open spec fn taken0<T>(r: Result<(T, usize), Error>, s: Seq<Token>) -> bool {
        match r { Ok((_, n)) => n <= s.len(), Err(_) => true }
    }

    pub open spec fn one_of(c: Seq<TokenChecker>, t: Token) -> bool {
        exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).holds(t)
    }

    /// `format!`: some text.
    #[verifier::external_body]
    pub fn vx_any<T: ?Sized>(t: &T) { }
    #[verifier::external_body]
    pub fn vx_text() -> String { String::new() }

    pub trait VxZip<T> {
        spec fn vx_zseq(&self) -> Seq<T>;
        /// `S.iter().zip(O.iter()).all(P)`
        fn vx_zip_all<U, F: Fn((&T, &U)) -> bool>(&self, o: &[U], f: F) -> (r: bool)
            requires forall|i: int| 0 <= i < self.vx_zseq().len() && i < o@.len() ==> f.requires(((&#[trigger] self.vx_zseq()[i], &o@[i]),))
            ensures
                r ==> forall|i: int| 0 <= i < self.vx_zseq().len() && i < o@.len() ==> f.ensures(((&#[trigger] self.vx_zseq()[i], &o@[i]),), true),
                !r ==> exists|i: int| 0 <= i < self.vx_zseq().len() && i < o@.len() && f.ensures(((&#[trigger] self.vx_zseq()[i], &o@[i]),), false);
        /// `S.iter().map(F).collect::<Vec<_>>()`
        fn vx_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> (r: Vec<U>) where T: 'a
            requires forall|x: &'a T| f.requires((x,))
            ensures
                r@.len() == self.vx_zseq().len(),
                forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.vx_zseq()[i],), #[trigger] r@[i]);
    }
    impl<T> VxZip<T> for [T] {
        open spec fn vx_zseq(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_zip_all<U, F: Fn((&T, &U)) -> bool>(&self, o: &[U], f: F) -> bool { self.iter().zip(o.iter()).all(f) }
        #[verifier::external_body]
        fn vx_iter_map<'a, U, F: Fn(&'a T) -> U>(&'a self, f: F) -> Vec<U> where T: 'a { self.iter().map(f).collect() }
    }

    pub trait VxJoin { fn vx_join(&self, s: &str) -> String; }
    impl VxJoin for Vec<&str> {
        #[verifier::external_body]
        fn vx_join(&self, s: &str) -> String { self.join(s) }
    }
    impl VxJoin for Vec<String> {
        #[verifier::external_body]
        fn vx_join(&self, s: &str) -> String { self.join(s) }
    }

    pub trait VxSplit {
        spec fn vx_toks(&self) -> Seq<Token>;
        /// `S.split(P).next()`: what comes before the first that has P.
        fn vx_split_first<F: Fn(&Token) -> bool>(&self, f: F) -> (r: Option<&[Token]>)
            requires ready(self.vx_toks(), f)
            ensures
                r is Some,
                r->0@.len() <= self.vx_toks().len(),
                r->0@ == self.vx_toks().subrange(0, r->0@.len() as int);
    }
    impl VxSplit for [Token] {
        open spec fn vx_toks(&self) -> Seq<Token> { self@ }
        #[verifier::external_body]
        fn vx_split_first<F: Fn(&Token) -> bool>(&self, f: F) -> Option<&[Token]> { self.split(f).next() }
    }

    pub trait VxRetain {
        spec fn vx_all(&self) -> Seq<Token>;
        /// `V.retain(P)`: some of the elements, in their order.
        fn vx_retain<F: Fn(&Token) -> bool>(&mut self, f: F)
            requires ready(old(self).vx_all(), f)
            ensures
                drawn(old(self).vx_all(), final(self).vx_all()),
                every(final(self).vx_all(), final(self).vx_all().len() as int, f, true);
    }
    impl VxRetain for Vec<Token> {
        open spec fn vx_all(&self) -> Seq<Token> { self@ }
        #[verifier::external_body]
        fn vx_retain<F: Fn(&Token) -> bool>(&mut self, f: F) { self.retain(f) }
    }

    pub trait VxParse { fn vx_parse_u32(&self) -> Result<u32, std::num::ParseIntError>; }
    impl VxParse for str {
        #[verifier::external_body]
        fn vx_parse_u32(&self) -> Result<u32, std::num::ParseIntError> { self.parse::<u32>() }
    }

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseIntError(std::num::ParseIntError);

    /// The constructors of `SubtypeElements` that are used as values.
    pub enum VxSubtype { SizeConstraint, PermittedAlphabet }
    impl VxSubtype {
        pub fn vx_call(self, e: crate::parser::asn::structs::types::constraints::ElementSet) -> (r: crate::parser::asn::structs::types::constraints::SubtypeElements)
            ensures
                self is SizeConstraint ==> r == crate::parser::asn::structs::types::constraints::SubtypeElements::SizeConstraint(e),
                self is PermittedAlphabet ==> r == crate::parser::asn::structs::types::constraints::SubtypeElements::PermittedAlphabet(e),
        {
            match self {
                VxSubtype::SizeConstraint => crate::parser::asn::structs::types::constraints::SubtypeElements::SizeConstraint(e),
                VxSubtype::PermittedAlphabet => crate::parser::asn::structs::types::constraints::SubtypeElements::PermittedAlphabet(e),
            }
        }
    }

    #[verifier::external_body]
    pub fn vx_oid_name(s: &str) -> Option<&'static u32> { unimplemented!() }

    pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
        where T: std::clone::Clone
        ensures r@.len() == s@.len();

    pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (x: T)
        where E: std::marker::Destruct, T: std::marker::Destruct
        ensures x == (match r { Ok(v) => v, Err(_) => d });
    pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [core::result::Result::<T, E>::or_else] (r: Result<T, E>, op: O) -> (x: Result<T, F>)
        requires r is Err ==> op.requires((r->Err_0,))
        ensures match r { Ok(v) => x == Ok::<T, F>(v), Err(e) => op.ensures((e,), x) };
    pub assume_specification<T, E, U, O: FnOnce(T) -> Result<U, E>> [core::result::Result::<T, E>::and_then] (r: Result<T, E>, op: O) -> (x: Result<U, E>)
        requires r is Ok ==> op.requires((r->Ok_0,))
        ensures match r { Ok(v) => op.ensures((v,), x), Err(e) => x == Err::<U, E>(e) };

    pub assume_specification<'a, K, V, S, A, Q> [std::collections::HashMap::<K, V, S, A>::get_mut]
        (_0: &'a mut std::collections::HashMap<K, V, S, A>, _1: &Q) -> std::option::Option<&'a mut V>
        where A: std::alloc::Allocator, K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
              Q: std::marker::MetaSized + std::hash::Hash + std::cmp::Eq + ?Sized, S: std::hash::BuildHasher;
}

} // verus!
