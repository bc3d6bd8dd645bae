// ---- Assumed contracts: the external crates the codec is built on (bitvec, log) and std ----
// Every `external_body` and `assume_specification` below is an ASSUMPTION.  The concrete check
// (harness `shimcheck`) compares each of them with the real crate.

pub mod log {
    // The arguments are evaluated (so their own obligations count); formatting them is not modelled.
    macro_rules! vx_log {
        ($f:expr $(, $a:expr)* $(,)?) => { { $( let _vx = &$a; )* } };
    }
    pub(crate) use vx_log as trace;
    pub(crate) use vx_log as debug;
    pub(crate) use vx_log as info;
    pub(crate) use vx_log as warn;
    pub(crate) use vx_log as error;
}

mod bitvec_macro {
    macro_rules! vx_bitvec {
        ($t:ty, $o:ty; 0; $n:expr) => { crate::bitvec::BitVec::<$t, $o>::repeat(false, $n) };
        ($t:ty, $o:ty; 1; $n:expr) => { crate::bitvec::BitVec::<$t, $o>::repeat(true, $n) };
    }
    pub(crate) use vx_bitvec;
}

verus! {

// 64-bit targets only (usize arithmetic is otherwise checked exactly).
global size_of usize == 8;

pub mod stdx {
    use vstd::prelude::*;
    use crate::bits::*;
    use vstd::std_specs::iter::IteratorSpec;

    pub assume_specification [i128::leading_zeros] (v: i128) -> (r: u32)
        ensures r == if v >= 0 { (128 - bitlen(v as nat)) as int } else { 0 };
    pub assume_specification [i128::leading_ones] (v: i128) -> (r: u32)
        ensures r == if v < 0 { (128 - bitlen((-(v + 1)) as nat)) as int } else { 0 };

    pub trait VxBeBytes: Sized {
        type Arr;
        spec fn spec_be_bytes(&self) -> Self::Arr;
        fn vx_to_be_bytes(self) -> (r: Self::Arr)
            ensures r == self.spec_be_bytes();
    }

    macro_rules! vx_be_bytes {
        ($($t:ident $n:literal;)*) => { verus! { $(
            impl VxBeBytes for $t {
                type Arr = [u8; $n];
                uninterp spec fn spec_be_bytes(&self) -> [u8; $n];
                #[verifier::external_body]
                fn vx_to_be_bytes(self) -> (r: [u8; $n]) {
                    self.to_be_bytes()
                }
            }
        )* } };
    }
    vx_be_bytes! { u8 1; u16 2; u32 4; u64 8; u128 16; i8 1; i16 2; i32 4; i64 8; i128 16; usize 8; }

    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_u8(v: u8)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(v as nat, 1) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_u16(v: u16)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(v as nat, 2) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_u32(v: u32)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(v as nat, 4) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_u64(v: u64)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(v as nat, 8) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_u128(v: u128)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(v as nat, 16) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_be_bytes_i128(v: i128)
        ensures (#[trigger] v.spec_be_bytes())@ == be_bytes(twos(v as int, 128), 16) {}

    pub broadcast group group_be_bytes {
        axiom_be_bytes_u8, axiom_be_bytes_u16, axiom_be_bytes_u32, axiom_be_bytes_u64,
        axiom_be_bytes_u128, axiom_be_bytes_i128,
    }

    pub assume_specification<'a, T, P> [<std::slice::Iter<'a, T> as std::iter::Iterator>::position]
        (it: &mut std::slice::Iter<'a, T>, p: P) -> (r: std::option::Option<usize>)
        where
            P: std::ops::FnMut(<std::slice::Iter<'a, T> as std::iter::Iterator>::Item,) -> bool,
            std::slice::Iter<'a, T>: std::marker::Sized,
        requires
            forall|i: int| 0 <= i < old(it).remaining().len() ==> p.requires((#[trigger] old(it).remaining()[i],)),
        ensures
            match r {
                Some(k) => k < old(it).remaining().len()
                    && p.ensures((old(it).remaining()[k as int],), true)
                    && forall|i: int| 0 <= i < k ==> p.ensures((#[trigger] old(it).remaining()[i],), false),
                None => forall|i: int| 0 <= i < old(it).remaining().len()
                    ==> p.ensures((#[trigger] old(it).remaining()[i],), false),
            };

    pub assume_specification<T> [std::option::Option::<T>::as_deref] (o: &std::option::Option<T>)
        -> (r: std::option::Option<&<T as std::ops::Deref>::Target>)
        where T: std::ops::Deref,
        ensures
            r is Some == o is Some,
            r is Some ==> call_ensures(T::deref, (&o->0,), r->0);

    pub assume_specification [std::io::_eprint] (a: std::fmt::Arguments<'_>);
    pub assume_specification [std::io::_print] (a: std::fmt::Arguments<'_>);

    pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
        where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct,
        requires o is Some ==> f.requires((o->0,)),
        ensures
            o is None ==> r == d,
            o is Some ==> f.ensures((o->0,), r);

    pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, v: T)
        -> (r: std::option::Option<T>)
        ensures r == *old(o), *final(o) == Some(v);

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(std::str::Utf8Error);

    pub assume_specification [std::str::from_utf8] (v: &[u8]) -> (r: std::result::Result<&str, std::str::Utf8Error>)
        ensures
            r is Ok == vstd::utf8::valid_utf8(v@),
            r is Ok ==> str_bytes(r->Ok_0@) == v@;

    pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
        ensures r == str_bytes(s@).len();

    /// `Extend` of a vector by a vector.
    pub trait VxExtend<S> {
        spec fn vx_extended(&self, o: &Self, s: S) -> bool;
        fn vx_extend(&mut self, s: S)
            ensures final(self).vx_extended(old(self), s);
    }
    impl<T> VxExtend<Vec<T>> for Vec<T> {
        open spec fn vx_extended(&self, o: &Self, s: Vec<T>) -> bool { self@ == o@ + s@ }
        #[verifier::external_body]
        fn vx_extend(&mut self, s: Vec<T>) { self.extend(s) }
    }
}

pub mod bitvec {
    use vstd::prelude::*;
    use crate::bits::*;
    use crate::stdx::VxExtend;
    use core::ops::{Index, Range, RangeFrom, RangeTo, RangeFull, Deref};
    use vstd::std_specs::core::IndexSpecImpl;

    pub(crate) use crate::bitvec_macro::vx_bitvec as bitvec;

    pub mod prelude {
        pub use super::{BitVec, BitSlice, Msb0, BitView, AsBits, BitField, BitRef};
    }
    pub mod field { pub use super::BitField; }
    pub mod view { pub use super::{BitView, AsBits}; }
    pub mod vec { pub use super::BitVec; }
    pub mod slice { pub use super::BitSlice; }
    pub mod order { pub use super::Msb0; }

    /// Largest number of bits a BitVec can hold (bitvec: usize::MAX / 8).
    pub open spec const MAX_BITS: int = 0x1fff_ffff_ffff_ffff;

    #[derive(Debug)]
    pub struct Msb0;

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    #[verifier::accept_recursive_types(O)]
    #[derive(Debug)]
    pub struct BitSlice<T, O> { t: T, o: O }

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    #[verifier::accept_recursive_types(O)]
    #[derive(Debug)]
    pub struct BitVec<T, O> { t: T, o: O }

    impl<T, O> View for BitVec<T, O> { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
    impl<T, O> View for BitSlice<T, O> { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }

    #[verifier::external_body]
    pub struct BitRef { x: bool }
    impl View for BitRef { type V = bool; uninterp spec fn view(&self) -> bool; }
    impl Deref for BitRef {
        type Target = bool;
        #[verifier::external_body]
        fn deref(&self) -> (r: &bool) ensures *r == self@ { &self.x }
    }

    impl<T, O> Deref for BitVec<T, O> {
        type Target = BitSlice<T, O>;
        #[verifier::external_body]
        fn deref(&self) -> (r: &BitSlice<T, O>) ensures r@ == self@, r.shead0() == self.head0() { unimplemented!() }
    }

    impl<T, O> Default for BitVec<T, O> {
        #[verifier::external_body]
        fn default() -> (r: Self) ensures r@ == Seq::<bool>::empty(), r.head0() { unimplemented!() }
    }

    // The bit position inside its byte at which a value's storage begins is not modelled, so
    // conversions that expose raw storage are specified only for values known to start at bit 0.
    impl<T, O> BitVec<T, O> {
        pub uninterp spec fn head0(&self) -> bool;

        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<bool>::empty(), r.head0() { unimplemented!() }

        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<bool>::empty(), r.head0() { unimplemented!() }

        #[verifier::external_body]
        pub fn repeat(b: bool, n: usize) -> (r: Self)
            ensures r@ == Seq::new(n as nat, |i: int| b), r.head0()
        { unimplemented!() }

        #[verifier::external_body]
        pub fn from_bitslice(s: &BitSlice<T, O>) -> (r: Self) ensures r@ == s@ { unimplemented!() }

        #[verifier::external_body]
        pub fn push(&mut self, b: bool)
            ensures final(self)@ == old(self)@.push(b), final(self).head0() == old(self).head0()
        { unimplemented!() }

        #[verifier::external_body]
        pub fn extend_from_bitslice(&mut self, s: &BitSlice<T, O>)
            ensures final(self)@ == old(self)@ + s@, final(self).head0() == old(self).head0()
        { unimplemented!() }


        #[verifier::external_body]
        pub fn resize(&mut self, n: usize, b: bool)
            ensures
                final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) }
                    else { old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| b) },
                final(self).head0() == old(self).head0(),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn truncate(&mut self, n: usize)
            ensures
                final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ },
                final(self).head0() == old(self).head0(),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn reserve(&mut self, n: usize)
            ensures final(self)@ == old(self)@, final(self).head0() == old(self).head0()
        { unimplemented!() }

        #[verifier::external_body]
        pub fn set(&mut self, i: usize, b: bool)
            requires i < old(self)@.len(),
            ensures final(self)@ == old(self)@.update(i as int, b), final(self).head0() == old(self).head0()
        { unimplemented!() }

        #[verifier::external_body]
        pub fn clear(&mut self)
            ensures final(self)@ == Seq::<bool>::empty(), final(self).head0() == old(self).head0()
        { unimplemented!() }

        #[verifier::external_body]
        pub fn force_align(&mut self)
            ensures final(self)@ == old(self)@, final(self).head0()
        { unimplemented!() }

        // Unspecified bits appear beyond the end of the last byte, as in the real crate.
        #[verifier::external_body]
        pub fn into_vec(self) -> (r: Vec<u8>)
            ensures
                self.head0() ==> r@.len() == (self@.len() + 7) / 8
                    && bytes_bits(r@).subrange(0, self@.len() as int) == self@,
        { unimplemented!() }
    }

    impl<T, O> VxExtend<BitVec<T, O>> for BitVec<T, O> {
        open spec fn vx_extended(&self, o: &Self, s: BitVec<T, O>) -> bool { self@ == o@ + s@ && self.head0() == o.head0() }
        #[verifier::external_body]
        fn vx_extend(&mut self, s: BitVec<T, O>) { unimplemented!() }
    }
    impl<'a, T, O> VxExtend<&'a BitSlice<T, O>> for BitVec<T, O> {
        open spec fn vx_extended(&self, o: &Self, s: &'a BitSlice<T, O>) -> bool { self@ == o@ + s@ && self.head0() == o.head0() }
        #[verifier::external_body]
        fn vx_extend(&mut self, s: &'a BitSlice<T, O>) { unimplemented!() }
    }

    impl<T, O> From<BitVec<T, O>> for Vec<u8> {
        #[verifier::external_body]
        fn from(v: BitVec<T, O>) -> (r: Vec<u8>)
            ensures
                v.head0() ==> r@.len() == (v@.len() + 7) / 8
                    && bytes_bits(r@).subrange(0, v@.len() as int) == v@,
        { unimplemented!() }
    }

    impl<T, O> BitSlice<T, O> {
        #[verifier::external_body]
        pub fn from_slice(s: &[u8]) -> (r: &BitSlice<T, O>) ensures r@ == bytes_bits(s@), r.shead0() { unimplemented!() }

        pub uninterp spec fn shead0(&self) -> bool;

        #[verifier::external_body]
        pub fn to_bitvec(&self) -> (r: BitVec<T, O>) ensures r@ == self@, self.shead0() ==> r.head0() { unimplemented!() }

        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= MAX_BITS { unimplemented!() }

        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }

        #[verifier::external_body]
        pub fn get(&self, i: usize) -> (r: Option<BitRef>)
            ensures r is Some == (i < self@.len()), r is Some ==> r->0@ == self@[i as int]
        { unimplemented!() }

        #[verifier::external_body]
        pub fn any(&self) -> (r: bool) ensures r == exists|i: int| 0 <= i < self@.len() && self@[i] { unimplemented!() }

        #[verifier::external_body]
        pub fn all(&self) -> (r: bool) ensures r == forall|i: int| 0 <= i < self@.len() ==> self@[i] { unimplemented!() }

        #[verifier::external_body]
        pub fn not_any(&self) -> (r: bool) ensures r == forall|i: int| 0 <= i < self@.len() ==> !self@[i] { unimplemented!() }

        #[verifier::external_body]
        pub fn iter(&self) -> (r: BitIter) ensures r@ == self@ { unimplemented!() }

        #[verifier::external_body]
        pub fn chunks_exact(&self, n: usize) -> (r: BitChunks<T, O>)
            requires n > 0,
            ensures r.bits() == self@, r.size() == n
        { unimplemented!() }

        #[verifier::external_body]
        pub fn chunks(&self, n: usize) -> (r: BitChunks<T, O>)
            requires n > 0, self@.len() % (n as nat) == 0,
            ensures r.bits() == self@, r.size() == n
        { unimplemented!() }
    }

    // Iterator over bits: only the adaptor forms the codec uses.
    #[verifier::external_body]
    pub struct BitIter { x: bool }
    impl View for BitIter { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
    impl BitIter {
        #[verifier::external_body]
        pub fn all<F: FnMut(bool) -> bool>(&mut self, f: F) -> (r: bool)
            requires forall|b: bool| #[trigger] f.requires((b,)),
            ensures
                r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true),
                !r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn any<F: FnMut(bool) -> bool>(&mut self, f: F) -> (r: bool)
            requires forall|b: bool| #[trigger] f.requires((b,)),
            ensures
                r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), true),
                !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
        { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    #[verifier::accept_recursive_types(O)]
    pub struct BitChunks<T, O> { t: T, o: O }
    impl<T, O> BitChunks<T, O> {
        pub uninterp spec fn bits(&self) -> Seq<bool>;
        pub uninterp spec fn size(&self) -> nat;
        pub open spec fn count(&self) -> nat { self.bits().len() / self.size() }
        #[verifier::opaque]
        pub open spec fn chunk(&self, i: int) -> Seq<bool> {
            self.bits().subrange(i * self.size(), (i + 1) * self.size())
        }
        pub broadcast proof fn lemma_chunk8(&self, i: int)
            requires self.size() == 8
            ensures (#[trigger] self.chunk(i)) == self.bits().subrange(8 * i, 8 * i + 8)
        { reveal(BitChunks::chunk); }

        #[verifier::external_body]
        pub fn map<U, F: FnMut(&BitSlice<T, O>) -> U>(self, f: F) -> (r: BitMap<U>)
            requires
                forall|c: &BitSlice<T, O>| c@.len() == self.size() ==> #[trigger] f.requires((c,)),
            ensures
                r.items().len() == self.count(),
                forall|i: int| #![trigger r.items()[i]] 0 <= i < self.count() ==>
                    exists|c: &BitSlice<T, O>| #[trigger] f.ensures((c,), r.items()[i]) && c@ == self.chunk(i),
        { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::accept_recursive_types(U)]
    pub struct BitMap<U> { u: U }
    impl<U> BitMap<U> {
        pub uninterp spec fn items(&self) -> Seq<U>;
        #[verifier::external_body]
        pub fn collect<C: FromBitMap<U>>(self) -> (r: C) ensures r.collected() == self.items() { unimplemented!() }
    }
    pub trait FromBitMap<U>: Sized { spec fn collected(&self) -> Seq<U>; }
    impl<U> FromBitMap<U> for Vec<U> { open spec fn collected(&self) -> Seq<U> { self@ } }

    // Indexing
    impl<T, O> IndexSpecImpl<Range<usize>> for BitSlice<T, O> {
        open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    }
    impl<T, O> Index<Range<usize>> for BitSlice<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: Range<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(r.start as int, r.end as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<RangeFrom<usize>> for BitSlice<T, O> {
        open spec fn index_req(&self, r: &RangeFrom<usize>) -> bool { r.start <= self@.len() }
    }
    impl<T, O> Index<RangeFrom<usize>> for BitSlice<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: RangeFrom<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(r.start as int, self@.len() as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<RangeTo<usize>> for BitSlice<T, O> {
        open spec fn index_req(&self, r: &RangeTo<usize>) -> bool { r.end <= self@.len() }
    }
    impl<T, O> Index<RangeTo<usize>> for BitSlice<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: RangeTo<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(0, r.end as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<RangeFull> for BitSlice<T, O> {
        open spec fn index_req(&self, r: &RangeFull) -> bool { true }
    }
    impl<T, O> Index<RangeFull> for BitSlice<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: RangeFull) -> (o: &BitSlice<T, O>) ensures o@ == self@ { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<usize> for BitSlice<T, O> {
        open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
    }
    impl<T, O> Index<usize> for BitSlice<T, O> {
        type Output = bool;
        #[verifier::external_body]
        fn index(&self, i: usize) -> (o: &bool) ensures *o == self@[i as int] { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<Range<usize>> for BitVec<T, O> {
        open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    }
    impl<T, O> Index<Range<usize>> for BitVec<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: Range<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(r.start as int, r.end as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<RangeFrom<usize>> for BitVec<T, O> {
        open spec fn index_req(&self, r: &RangeFrom<usize>) -> bool { r.start <= self@.len() }
    }
    impl<T, O> Index<RangeFrom<usize>> for BitVec<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: RangeFrom<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(r.start as int, self@.len() as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<RangeTo<usize>> for BitVec<T, O> {
        open spec fn index_req(&self, r: &RangeTo<usize>) -> bool { r.end <= self@.len() }
    }
    impl<T, O> Index<RangeTo<usize>> for BitVec<T, O> {
        type Output = BitSlice<T, O>;
        #[verifier::external_body]
        fn index(&self, r: RangeTo<usize>) -> (o: &BitSlice<T, O>)
            ensures o@ == self@.subrange(0, r.end as int)
        { unimplemented!() }
    }
    impl<T, O> IndexSpecImpl<usize> for BitVec<T, O> {
        open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
    }
    impl<T, O> Index<usize> for BitVec<T, O> {
        type Output = bool;
        #[verifier::external_body]
        fn index(&self, i: usize) -> (o: &bool) ensures *o == self@[i as int] { unimplemented!() }
    }

    // Loading integers
    pub trait Integral: Sized {
        spec fn width() -> nat;
        spec fn is_load(&self, bits: Seq<bool>) -> bool;
    }
    impl Integral for u8 { open spec fn width() -> nat { 8 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }
    impl Integral for u16 { open spec fn width() -> nat { 16 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }
    impl Integral for u32 { open spec fn width() -> nat { 32 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }
    impl Integral for u64 { open spec fn width() -> nat { 64 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }
    impl Integral for usize { open spec fn width() -> nat { 64 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }
    impl Integral for u128 { open spec fn width() -> nat { 128 } open spec fn is_load(&self, b: Seq<bool>) -> bool { *self == bits_val(b) } }

    pub trait BitField {
        spec fn field_bits(&self) -> Seq<bool>;
        fn load_be<I: Integral>(&self) -> (r: I)
            requires 1 <= self.field_bits().len() <= I::width(),
            ensures r.is_load(self.field_bits());
        // load / load_le on Msb0 data agree with load_be only when the bits lie within one byte;
        // where they start is not modelled, so their result is unspecified.
        fn load<I: Integral>(&self) -> (r: I)
            requires 1 <= self.field_bits().len() <= I::width();
        fn load_le<I: Integral>(&self) -> (r: I)
            requires 1 <= self.field_bits().len() <= I::width();
    }
    impl<T, O> BitField for BitSlice<T, O> {
        open spec fn field_bits(&self) -> Seq<bool> { self@ }
        #[verifier::external_body]
        fn load_be<I: Integral>(&self) -> (r: I) { unimplemented!() }
        #[verifier::external_body]
        fn load<I: Integral>(&self) -> (r: I) { unimplemented!() }
        #[verifier::external_body]
        fn load_le<I: Integral>(&self) -> (r: I) { unimplemented!() }
    }

    // Viewing integers and byte arrays as bits
    pub trait BitView {
        spec fn viewed(&self) -> Seq<bool>;
        fn view_bits<O>(&self) -> (r: &BitSlice<u8, O>) ensures r@ == self.viewed();
    }
    impl BitView for u8 {
        open spec fn viewed(&self) -> Seq<bool> { be_bits(*self as nat, 8) }
        #[verifier::external_body]
        fn view_bits<O>(&self) -> (r: &BitSlice<u8, O>) { unimplemented!() }
    }
    impl BitView for [u8] {
        open spec fn viewed(&self) -> Seq<bool> { bytes_bits(self@) }
        #[verifier::external_body]
        fn view_bits<O>(&self) -> (r: &BitSlice<u8, O>) { unimplemented!() }
    }
    impl<const N: usize> BitView for [u8; N] {
        open spec fn viewed(&self) -> Seq<bool> { bytes_bits(self@) }
        #[verifier::external_body]
        fn view_bits<O>(&self) -> (r: &BitSlice<u8, O>) { unimplemented!() }
    }

    pub trait AsBits {
        spec fn asbits(&self) -> Seq<bool>;
        fn as_bits<O>(&self) -> (r: &BitSlice<u8, O>) ensures r@ == self.asbits();
    }
    impl AsBits for String {
        open spec fn asbits(&self) -> Seq<bool> { bytes_bits(str_bytes(self@)) }
        #[verifier::external_body]
        fn as_bits<O>(&self) -> (r: &BitSlice<u8, O>) { unimplemented!() }
    }
    impl AsBits for Vec<u8> {
        open spec fn asbits(&self) -> Seq<bool> { bytes_bits(self@) }
        #[verifier::external_body]
        fn as_bits<O>(&self) -> (r: &BitSlice<u8, O>) { unimplemented!() }
    }
}

} // verus!
