// ---- Assumed contracts: std as the resolver uses it ----
// Every `external_body`, `assume_specification` and external type below is an ASSUMPTION; each run compares the
// executable ones with std (harness `shim`).

macro_rules! vx_format { ($f:literal $(, $a:expr)* $(,)?) => { { $( crate::stdr::vx_any(&$a); )* crate::stdr::vx_text() } } }

macro_rules! vx_show {
    ("{}", $a:expr) => { $a.vx_show() };
    ("{}{}", $a:expr, $b:expr) => { crate::stdr::vx_join($a.vx_show(), $b.vx_show()) };
    ($($t:tt)*) => { vx_format!($($t)*) };
}

verus! {

global size_of usize == 8;

pub mod stdr {
    use vstd::prelude::*;
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    use std::ops::Range;
    use crate::intr::*;

    /// `format!`: some text.
    #[verifier::external_body]
    pub fn vx_any<T: ?Sized>(t: &T) { }
    #[verifier::external_body]
    pub fn vx_text() -> String { String::new() }

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseIntError(std::num::ParseIntError);

    pub trait VxParse {
        spec fn vx_chars(&self) -> Seq<char>;
        fn vx_parse_i128(&self) -> (r: Result<i128, std::num::ParseIntError>)
            ensures match r {
                Ok(v) => int_text(self.vx_chars()) == Some(v as int),
                Err(_) => int_text(self.vx_chars()) is None || !(i128::MIN <= int_text(self.vx_chars())->0 <= i128::MAX),
            };
        fn vx_parse_u8(&self) -> (r: Result<u8, std::num::ParseIntError>)
            ensures match r {
                Ok(v) => int_text(self.vx_chars()) == Some(v as int),
                Err(_) => !nat_text(self.vx_chars()) || !(0 <= int_text(self.vx_chars())->0 <= u8::MAX),
            };
    }
    impl VxParse for str {
        open spec fn vx_chars(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_parse_i128(&self) -> Result<i128, std::num::ParseIntError> { self.parse::<i128>() }
        #[verifier::external_body]
        fn vx_parse_u8(&self) -> Result<u8, std::num::ParseIntError> { self.parse::<u8>() }
    }

    pub trait VxText {
        spec fn vx_text_of(&self) -> Seq<char>;
        fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_text_of();
    }
    impl VxText for str {
        open spec fn vx_text_of(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_to_string(&self) -> String { self.to_string() }
    }

    /// `s.trim_matches(braces).trim()`
    pub uninterp spec fn bare(s: Seq<char>) -> Seq<char>;
    /// `s.trim_matches(@ and dots)`
    pub uninterp spec fn undotted(s: Seq<char>) -> Seq<char>;
    pub trait VxTrim {
        spec fn vx_trimmed(&self) -> Seq<char>;
        fn vx_bare(&self) -> (r: String) ensures r@ == bare(self.vx_trimmed());
        fn vx_undotted(&self) -> (r: String) ensures r@ == undotted(self.vx_trimmed());
    }
    impl VxTrim for str {
        open spec fn vx_trimmed(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_bare(&self) -> String { self.trim_matches(|c| matches!(c, '{' | '}')).trim().to_string() }
        #[verifier::external_body]
        fn vx_undotted(&self) -> String { self.trim_matches(|c| matches!(c, '@' | '.')).to_string() }
    }

    /// `s.trim().to_string()`
    pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
    pub trait VxTrimmed {
        spec fn vx_trimmed_of(&self) -> Seq<char>;
        fn vx_trimmed_string(&self) -> (r: String) ensures r@ == trimmed(self.vx_trimmed_of());
    }
    impl VxTrimmed for str {
        open spec fn vx_trimmed_of(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_trimmed_string(&self) -> String { self.trim().to_string() }
    }

    // ---- `format!("{}{}", A, B)`, `format!("{}", A)`
    pub uninterp spec fn shown(v: int) -> Seq<char>;
    pub trait VxShow {
        spec fn vx_shown(&self) -> Seq<char>;
        fn vx_show(&self) -> (r: String) ensures r@ == self.vx_shown();
    }
    impl VxShow for usize {
        open spec fn vx_shown(&self) -> Seq<char> { shown(*self as int) }
        #[verifier::external_body]
        fn vx_show(&self) -> String { format!("{}", self) }
    }
    impl VxShow for i128 {
        open spec fn vx_shown(&self) -> Seq<char> { shown(*self as int) }
        #[verifier::external_body]
        fn vx_show(&self) -> String { format!("{}", self) }
    }
    impl VxShow for str {
        open spec fn vx_shown(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_show(&self) -> String { format!("{}", self) }
    }
    #[verifier::external_body]
    pub fn vx_join(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }

    // ---- maps from names
    /// The map with the texts of the keys in their place.
    pub uninterp spec fn by_name<V>(m: Map<String, V>) -> Map<Seq<char>, V>;
    pub open spec fn tree_map<V>(m: &BTreeMap<String, V>) -> Map<Seq<char>, V> { by_name(m@) }
    pub open spec fn hash_map<V>(m: &HashMap<String, V>) -> Map<Seq<char>, V> { by_name(m@) }
    /// `M.get(K)`
    pub trait VxMap<V> {
        spec fn vx_map(&self) -> Map<Seq<char>, V>;
        fn vx_get(&self, k: &str) -> (r: Option<&V>)
            ensures match r {
                Some(v) => self.vx_map().dom().contains(k@) && *v == self.vx_map()[k@],
                None => !self.vx_map().dom().contains(k@),
            };
    }
    /// `M.insert(K, V)`
    pub trait VxInsert<K, V> {
        spec fn vx_inserted(a: Self, k: K, v: V, r: Self) -> bool where Self: Sized;
        fn vx_insert(&mut self, k: K, v: V) where Self: Sized
            ensures Self::vx_inserted(*old(self), k, v, *final(self));
    }
    impl<V> VxMap<V> for BTreeMap<String, V> {
        open spec fn vx_map(&self) -> Map<Seq<char>, V> { tree_map(self) }
        #[verifier::external_body]
        fn vx_get(&self, k: &str) -> Option<&V> { self.get(k) }
    }
    impl<V> VxInsert<String, V> for BTreeMap<String, V> {
        open spec fn vx_inserted(a: Self, k: String, v: V, r: Self) -> bool { tree_map(&r) == tree_map(&a).insert(k@, v) }
        #[verifier::external_body]
        fn vx_insert(&mut self, k: String, v: V) { self.insert(k, v); }
    }
    impl<V> VxInsert<(String, String), V> for BTreeMap<(String, String), V> {
        open spec fn vx_inserted(a: Self, k: (String, String), v: V, r: Self) -> bool { tree_pairs(&r) == tree_pairs(&a).insert((k.0@, k.1@), v) }
        #[verifier::external_body]
        fn vx_insert(&mut self, k: (String, String), v: V) { self.insert(k, v); }
    }
    impl<V> VxMap<V> for HashMap<String, V> {
        open spec fn vx_map(&self) -> Map<Seq<char>, V> { hash_map(self) }
        #[verifier::external_body]
        fn vx_get(&self, k: &str) -> Option<&V> { self.get(k) }
    }
    impl<V> VxInsert<String, V> for HashMap<String, V> {
        open spec fn vx_inserted(a: Self, k: String, v: V, r: Self) -> bool { hash_map(&r) == hash_map(&a).insert(k@, v) }
        #[verifier::external_body]
        fn vx_insert(&mut self, k: String, v: V) { self.insert(k, v); }
    }
    /// `M.get_mut(K)`
    pub trait VxMapMut<V> {
        /// `v` is what `k` has, and `w` what it gets.
        spec fn vx_reached(a: Self, k: Seq<char>, v: V, w: V, r: Self) -> bool where Self: Sized;
        spec fn vx_missed(a: Self, k: Seq<char>, r: Self) -> bool where Self: Sized;
        fn vx_get_mut(&mut self, k: &str) -> (r: Option<&mut V>) where Self: Sized
            ensures match r {
                Some(v) => Self::vx_reached(*old(self), k@, *v, *final(v), *final(self)),
                None => Self::vx_missed(*old(self), k@, *final(self)),
            };
    }
    impl<V> VxMapMut<V> for HashMap<String, V> {
        open spec fn vx_reached(a: Self, k: Seq<char>, v: V, w: V, r: Self) -> bool {
            hash_map(&a).dom().contains(k) && v == hash_map(&a)[k] && hash_map(&r) == hash_map(&a).insert(k, w)
        }
        open spec fn vx_missed(a: Self, k: Seq<char>, r: Self) -> bool { !hash_map(&a).dom().contains(k) && r == a }
        #[verifier::external_body]
        fn vx_get_mut(&mut self, k: &str) -> Option<&mut V> { self.get_mut(k) }
    }
    impl<V> VxInsert<(String, String), V> for HashMap<(String, String), V> {
        open spec fn vx_inserted(a: Self, k: (String, String), v: V, r: Self) -> bool { hash_pairs(&r) == hash_pairs(&a).insert((k.0@, k.1@), v) }
        #[verifier::external_body]
        fn vx_insert(&mut self, k: (String, String), v: V) { self.insert(k, v); }
    }
    // ---- maps from pairs of names
    pub type Pairs<V> = Map<(Seq<char>, Seq<char>), V>;
    pub uninterp spec fn by_pair<V>(m: Map<(String, String), V>) -> Pairs<V>;
    pub open spec fn tree_pairs<V>(m: &BTreeMap<(String, String), V>) -> Pairs<V> { by_pair(m@) }
    pub open spec fn hash_pairs<V>(m: &HashMap<(String, String), V>) -> Pairs<V> { by_pair(m@) }
    /// The order in which a map yields its keys.
    pub uninterp spec fn order<K, V>(m: &HashMap<K, V>) -> Seq<K>;
    /// `for (K, V) in M`
    pub trait VxEach<'a, K, V>: Sized {
        spec fn vx_each_of(self, r: Seq<(&'a K, &'a V)>) -> bool;
        fn vx_each(self) -> (r: Vec<(&'a K, &'a V)>)
            ensures self.vx_each_of(r@);
    }
    impl<'a, V> VxEach<'a, String, V> for &'a HashMap<String, V> {
        open spec fn vx_each_of(self, r: Seq<(&'a String, &'a V)>) -> bool {
            r.len() == order(self).len()
            && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]).0 == order(self)[i] && hash_map(self).dom().contains(r[i].0@) && *r[i].1 == hash_map(self)[r[i].0@])
            && (forall|i: int| 0 <= i < r.len() ==> hash_map(self).dom().contains((#[trigger] order(self)[i])@))
            && (forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] order(self)[i])@ != (#[trigger] order(self)[j])@)
            && (forall|k: Seq<char>| #[trigger] hash_map(self).dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] order(self)[i])@ == k)
        }
        #[verifier::external_body]
        fn vx_each(self) -> Vec<(&'a String, &'a V)> { self.into_iter().collect() }
    }
    impl<'a, V> VxEach<'a, (String, String), V> for &'a HashMap<(String, String), V> {
        open spec fn vx_each_of(self, r: Seq<(&'a (String, String), &'a V)>) -> bool {
            r.len() == order(self).len()
            && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]).0 == order(self)[i] && hash_pairs(self).dom().contains(pair(*r[i].0)) && *r[i].1 == hash_pairs(self)[pair(*r[i].0)])
            && (forall|i: int| 0 <= i < r.len() ==> hash_pairs(self).dom().contains(pair(#[trigger] order(self)[i])))
            && (forall|i: int, j: int| 0 <= i < j < r.len() ==> pair(#[trigger] order(self)[i]) != pair(#[trigger] order(self)[j]))
            && (forall|k: (Seq<char>, Seq<char>)| #[trigger] hash_pairs(self).dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && pair(#[trigger] order(self)[i]) == k)
        }
        #[verifier::external_body]
        fn vx_each(self) -> Vec<(&'a (String, String), &'a V)> { self.into_iter().collect() }
    }
    pub open spec fn order_values<V>(m: &HashMap<String, V>) -> Seq<V> { Seq::new(order(m).len(), |i: int| hash_map(m)[order(m)[i]@]) }
    /// `M.values()`
    pub trait VxValues<V> {
        spec fn vx_values_of(&self, r: Seq<&V>) -> bool;
        fn vx_values(&self) -> (r: Vec<&V>) ensures self.vx_values_of(r@);
    }
    impl<V> VxValues<V> for HashMap<String, V> {
        open spec fn vx_values_of(&self, r: Seq<&V>) -> bool {
            r.len() == order(self).len()
            && (forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == order_values(self)[i])
            && (forall|k: Seq<char>| #[trigger] hash_map(self).dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] order(self)[i])@ == k && order_values(self)[i] == hash_map(self)[k])
        }
        #[verifier::external_body]
        fn vx_values(&self) -> Vec<&V> { self.values().collect() }
    }
    /// `M.clone()`: an equal map
    pub trait VxClone: Sized {
        spec fn vx_cloned(a: Self, r: Self) -> bool;
        fn vx_clone(&self) -> (r: Self) ensures Self::vx_cloned(*self, r);
    }
    impl<K: Clone, V: Clone> VxClone for HashMap<K, V> {
        open spec fn vx_cloned(a: Self, r: Self) -> bool { r@ == a@ }
        #[verifier::external_body]
        fn vx_clone(&self) -> Self { self.clone() }
    }
    pub open spec fn pair(k: (String, String)) -> (Seq<char>, Seq<char>) { (k.0@, k.1@) }

    #[verifier::external_body]
    pub broadcast proof fn axiom_pairs_new<V>()
        ensures #[trigger] by_pair(Map::<(String, String), V>::empty()) == Map::<(Seq<char>, Seq<char>), V>::empty() {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_hash_new<V>()
        ensures #[trigger] by_name(Map::<String, V>::empty()) == Map::<Seq<char>, V>::empty() {}

    /// `M.extend(N)`, `V.extend(W)`
    pub trait VxExtend<O> {
        spec fn vx_extended(a: Self, b: O, r: Self) -> bool where Self: Sized;
        fn vx_extend(&mut self, o: O) where Self: Sized
            ensures Self::vx_extended(*old(self), o, *final(self));
    }
    impl<T> VxExtend<Vec<T>> for Vec<T> {
        open spec fn vx_extended(a: Self, b: Vec<T>, r: Self) -> bool { r@ == a@ + b@ }
        #[verifier::external_body]
        fn vx_extend(&mut self, o: Vec<T>) { self.extend(o); }
    }
    impl<V> VxExtend<HashMap<String, V>> for HashMap<String, V> {
        open spec fn vx_extended(a: Self, b: HashMap<String, V>, r: Self) -> bool { hash_map(&r) == hash_map(&a).union_prefer_right(hash_map(&b)) }
        #[verifier::external_body]
        fn vx_extend(&mut self, o: HashMap<String, V>) { self.extend(o); }
    }

    impl<V> VxExtend<HashMap<(String, String), V>> for HashMap<(String, String), V> {
        open spec fn vx_extended(a: Self, b: HashMap<(String, String), V>, r: Self) -> bool { hash_pairs(&r) == hash_pairs(&a).union_prefer_right(hash_pairs(&b)) }
        #[verifier::external_body]
        fn vx_extend(&mut self, o: HashMap<(String, String), V>) { self.extend(o); }
    }

    pub uninterp spec fn tree_set(m: &BTreeSet<i128>) -> Set<i128>;
    pub trait VxSet {
        fn vx_insert(&mut self, v: i128);
    }
    impl VxSet for BTreeSet<i128> {
        #[verifier::external_body]
        fn vx_insert(&mut self, v: i128) { self.insert(v); }
    }

    // ---- numbers in sequences
    pub open spec fn least(r: Option<i128>, s: Seq<i128>) -> bool {
        match r { None => s.len() == 0, Some(m) => s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m <= #[trigger] s[i] }
    }
    pub open spec fn greatest(r: Option<i128>, s: Seq<i128>) -> bool {
        match r { None => s.len() == 0, Some(m) => s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m >= #[trigger] s[i] }
    }
    pub open spec fn opt_deref<'a>(r: Option<&'a i128>) -> Option<i128> { match r { Some(x) => Some(*x), None => None } }
    pub trait VxNums {
        spec fn vx_nums(&self) -> Seq<i128>;
        /// `S.iter().min()`, `S.iter().max()`, `S.contains(&x)`
        fn vx_iter_min(&self) -> (r: Option<&i128>) ensures least(opt_deref(r), self.vx_nums());
        fn vx_iter_max(&self) -> (r: Option<&i128>) ensures greatest(opt_deref(r), self.vx_nums());
        fn vx_contains(&self, x: &i128) -> (r: bool) ensures r == self.vx_nums().contains(*x);
    }
    impl VxNums for [i128] {
        open spec fn vx_nums(&self) -> Seq<i128> { self@ }
        #[verifier::external_body]
        fn vx_iter_min(&self) -> Option<&i128> { self.iter().min() }
        #[verifier::external_body]
        fn vx_iter_max(&self) -> Option<&i128> { self.iter().max() }
        #[verifier::external_body]
        fn vx_contains(&self, x: &i128) -> bool { self.contains(x) }
    }
    /// `S.iter().map(F)`: the sequence of the results
    pub struct VxMapped<B> { pub v: Vec<B> }
    impl VxMapped<i128> {
        #[verifier::external_body]
        pub fn min(self) -> (r: Option<i128>) ensures least(r, self.v@) { self.v.into_iter().min() }
        #[verifier::external_body]
        pub fn max(self) -> (r: Option<i128>) ensures greatest(r, self.v@) { self.v.into_iter().max() }
    }
    impl<B> VxMapped<B> {
        pub fn collect<C: VxFrom<B>>(self) -> (r: C) ensures C::vx_from_of(self.v, r) { C::vx_from(self.v) }
    }
    pub trait VxFrom<B>: Sized {
        spec fn vx_from_of(v: Vec<B>, r: Self) -> bool;
        fn vx_from(v: Vec<B>) -> (r: Self) ensures Self::vx_from_of(v, r);
    }
    impl<B> VxFrom<B> for Vec<B> {
        open spec fn vx_from_of(v: Vec<B>, r: Self) -> bool { v == r }
        fn vx_from(v: Vec<B>) -> Self { v }
    }
    impl<T> VxMapped<Vec<T>> {
        #[verifier::external_body]
        pub fn flatten(self) -> (r: VxMapped<T>) ensures r.v@ == flat(self.v@, self.v@.len() as int) { VxMapped { v: self.v.into_iter().flatten().collect() } }
    }
    pub open spec fn flat<T>(v: Seq<Vec<T>>, n: int) -> Seq<T>
        decreases n
    {
        if n <= 0 { Seq::empty() } else { flat(v, n - 1) + v[n - 1]@ }
    }
    pub trait VxRanges<T> {
        spec fn vx_items(&self) -> Seq<T>;
        fn vx_iter_map<B, F: Fn(&T) -> B>(&self, f: F) -> (r: VxMapped<B>)
            requires forall|i: int| 0 <= i < self.vx_items().len() ==> f.requires((&#[trigger] self.vx_items()[i],))
            ensures
                r.v@.len() == self.vx_items().len(),
                forall|i: int| #![trigger self.vx_items()[i]] #![trigger r.v@[i]] 0 <= i < r.v@.len() ==> f.ensures((&self.vx_items()[i],), r.v@[i]);
    }
    /// `S.iter().enumerate()`
    pub trait VxEnum<T> {
        spec fn vx_elems(&self) -> Seq<T>;
        fn vx_enumerate(&self) -> (r: Vec<(usize, &T)>)
            ensures
                r@.len() == self.vx_elems().len(),
                forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self.vx_elems()[i];
    }
    impl<T> VxEnum<T> for [T] {
        open spec fn vx_elems(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_enumerate(&self) -> Vec<(usize, &T)> { self.iter().enumerate().collect() }
    }
    impl<T> VxRanges<T> for [T] {
        open spec fn vx_items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter_map<B, F: Fn(&T) -> B>(&self, f: F) -> VxMapped<B> { VxMapped { v: self.iter().map(f).collect() } }
    }

    pub assume_specification<Idx: Clone> [<Range<Idx> as Clone>::clone] (r: &Range<Idx>) -> (x: Range<Idx>)
        ensures cloned(r.start, x.start), cloned(r.end, x.end);
    #[verifier::external_body]
    pub fn vx_min(a: i128, b: i128) -> (r: i128) ensures r == if a <= b { a } else { b } { std::cmp::min(a, b) }
    #[verifier::external_body]
    pub fn vx_max(a: i128, b: i128) -> (r: i128) ensures r == if a >= b { a } else { b } { std::cmp::max(a, b) }
    pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
        ensures *final(o) == Some(v), r == *old(o);

    pub broadcast group group_std { axiom_hash_new, axiom_pairs_new }
}

/// Numbers as text.
pub mod intr {
    use vstd::prelude::*;
    pub open spec fn digits(s: Seq<char>) -> bool {
        s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9'
    }
    pub open spec fn digits_value(s: Seq<char>) -> int
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() as int - '0' as int) }
    }
    pub open spec fn nat_text(s: Seq<char>) -> bool { digits(s) || (s.len() > 0 && s[0] == '+' && digits(s.skip(1))) }
    /// The integer a text denotes: digits after a sign or none.
    pub open spec fn int_text(s: Seq<char>) -> Option<int> {
        if digits(s) { Some(digits_value(s)) }
        else if s.len() > 0 && s[0] == '-' && digits(s.skip(1)) { Some(-digits_value(s.skip(1))) }
        else if s.len() > 0 && s[0] == '+' && digits(s.skip(1)) { Some(digits_value(s.skip(1))) }
        else { None }
    }
    pub proof fn lemma_digits_value(s: Seq<char>)
        requires forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9'
        ensures digits_value(s) >= 0
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_digits_value(s.drop_last());
            assert('0' <= s[s.len() - 1] <= '9');
        }
    }
    pub broadcast proof fn lemma_nat(s: Seq<char>)
        requires #[trigger] nat_text(s)
        ensures int_text(s) is Some, int_text(s)->0 >= 0
    {
        if digits(s) { lemma_digits_value(s); } else { lemma_digits_value(s.skip(1)); }
    }
}

pub mod topo {
    use vstd::prelude::*;
    // ---- topological_sort::TopologicalSort
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct TopologicalSort<T> { t: std::marker::PhantomData<T> }
    /// What is left in it, of what has to come first, and whether anything was taken out.
    pub uninterp spec fn left(t: &TopologicalSort<String>, x: Seq<char>) -> bool;
    pub uninterp spec fn before(t: &TopologicalSort<String>, p: Seq<char>, x: Seq<char>) -> bool;
    pub uninterp spec fn untouched(t: &TopologicalSort<String>) -> bool;
    pub trait VxName { spec fn vx_name(self) -> Seq<char> where Self: Sized; }
    impl VxName for String { open spec fn vx_name(self) -> Seq<char> { self@ } }
    impl<'a> VxName for &'a String { open spec fn vx_name(self) -> Seq<char> { self@ } }
    impl TopologicalSort<String> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures untouched(&r), forall|x: Seq<char>| !#[trigger] left(&r, x), forall|p: Seq<char>, x: Seq<char>| !#[trigger] before(&r, p, x) { unimplemented!() }
        #[verifier::external_body]
        pub fn add_dependency<A: VxName, B: VxName>(&mut self, a: A, b: B)
            requires untouched(old(self))
            ensures
                untouched(final(self)),
                forall|x: Seq<char>| #[trigger] left(final(self), x) == (left(old(self), x) || x == a.vx_name() || x == b.vx_name()),
                forall|p: Seq<char>, x: Seq<char>| #[trigger] before(final(self), p, x) == (before(old(self), p, x) || (p == a.vx_name() && x == b.vx_name())),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_insert<A: VxName>(&mut self, a: A) -> bool
            requires untouched(old(self))
            ensures
                untouched(final(self)),
                forall|x: Seq<char>| #[trigger] left(final(self), x) == (left(old(self), x) || x == a.vx_name()),
                forall|p: Seq<char>, x: Seq<char>| #[trigger] before(final(self), p, x) == before(old(self), p, x),
        { unimplemented!() }
        /// All those that nothing left has to come before.
        #[verifier::external_body]
        pub fn pop_all(&mut self) -> (r: Vec<String>)
            ensures
                forall|i: int| 0 <= i < r@.len() ==> left(old(self), (#[trigger] r@[i])@),
                forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@,
                forall|i: int, p: Seq<char>| 0 <= i < r@.len() && #[trigger] before(old(self), p, r@[i]@) ==> !left(old(self), p),
                forall|x: Seq<char>| #[trigger] left(final(self), x) == (left(old(self), x) && !(has(r@, x))),
                forall|p: Seq<char>, x: Seq<char>| #[trigger] before(final(self), p, x) == before(old(self), p, x),
        { unimplemented!() }
    }
    pub open spec fn has(v: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s }
}

} // verus!
