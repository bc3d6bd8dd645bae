// ---- Assumed contracts: std as the tokenizer uses it ----
// Every `external_body`, `assume_specification` and external type or trait below is an ASSUMPTION; each run
// compares the executable ones with std (harness `shim`).

verus! {

global size_of usize == 8;

pub mod stdx {
    use vstd::prelude::*;
    use vstd::std_specs::iter::IteratorSpec;
    use vstd::std_specs::cmp::PartialEqSpec;

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExIoError(std::io::Error);

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);

    /// What a reader yields from here to its end, when reading does not fail.
    pub uninterp spec fn stream_of<T: ?Sized>(t: &T) -> Seq<u8>;
    /// Whether reading it to its end fails.
    pub uninterp spec fn unreadable<T: ?Sized>(t: &T) -> bool;

    #[verifier::external_trait_specification]
    pub trait ExRead {
        type ExternalTraitSpecificationFor: std::io::Read;
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, std::io::Error>)
            ensures
                r is Err == unreadable(old(self)),
                r is Ok ==> final(buf)@ == old(buf)@ + stream_of(old(self));
    }

    /// The characters a byte sequence encodes, when it is UTF-8.
    pub uninterp spec fn utf8_chars(b: Seq<u8>) -> Seq<char>;

    pub assume_specification [std::string::String::from_utf8] (v: std::vec::Vec<u8>)
        -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
        ensures
            r is Ok == vstd::utf8::valid_utf8(v@),
            r is Ok ==> r->Ok_0@ == utf8_chars(v@);

    pub open spec fn every<T, F: Fn(&T) -> bool>(s: Seq<T>, n: int, f: F, b: bool) -> bool {
        forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] s[i],), b)
    }
    pub open spec fn some<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, b: bool) -> bool {
        exists|i: int| 0 <= i < s.len() && f.ensures((&#[trigger] s[i],), b)
    }
    pub open spec fn ready<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F) -> bool {
        forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],))
    }
    /// `S.iter().any(P)`, `S.iter().all(P)`, `S.iter().position(P)`
    pub trait VxSlice<T> {
        spec fn vx_seq(&self) -> Seq<T>;
        fn vx_iter_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
            requires ready(self.vx_seq(), f)
            ensures
                r ==> some(self.vx_seq(), f, true),
                !r ==> every(self.vx_seq(), self.vx_seq().len() as int, f, false);
        fn vx_iter_all<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
            requires ready(self.vx_seq(), f)
            ensures
                r ==> every(self.vx_seq(), self.vx_seq().len() as int, f, true),
                !r ==> some(self.vx_seq(), f, false);
        fn vx_iter_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>)
            requires ready(self.vx_seq(), f)
            ensures
                match r {
                    Some(k) => k < self.vx_seq().len() && f.ensures((&self.vx_seq()[k as int],), true)
                        && every(self.vx_seq(), k as int, f, false),
                    None => every(self.vx_seq(), self.vx_seq().len() as int, f, false),
                };
    }
    impl<T> VxSlice<T> for [T] {
        open spec fn vx_seq(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn vx_iter_any<F: Fn(&T) -> bool>(&self, f: F) -> bool { self.iter().any(f) }
        #[verifier::external_body]
        fn vx_iter_all<F: Fn(&T) -> bool>(&self, f: F) -> bool { self.iter().all(f) }
        #[verifier::external_body]
        fn vx_iter_position<F: Fn(&T) -> bool>(&self, f: F) -> Option<usize> { self.iter().position(f) }
    }

    pub broadcast proof fn lemma_views_index(s: Seq<&str>, i: int)
        ensures 0 <= i < s.len() ==> views(s)[i] == (#[trigger] s[i]@)
    {
    }

    /// A `Vec<char>` fills at most isize::MAX bytes.
    #[verifier::external_body]
    pub broadcast proof fn axiom_vec_char_len(v: &Vec<char>)
        ensures (#[trigger] v@).len() <= 0x1fff_ffff_ffff_ffff {}

    // ---- comparison of strings, conversion to strings
    #[verifier::external_body]
    pub broadcast proof fn axiom_string_str(a: &String, b: &str)
        ensures
            <String as PartialEqSpec<str>>::obeys_eq_spec(),
            <String as PartialEqSpec<str>>::eq_spec(a, b) == ((#[trigger] a@) == (#[trigger] b@)) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_string_ref_str<'a>(a: &String, b: &&'a str)
        ensures
            <String as PartialEqSpec<&'a str>>::obeys_eq_spec(),
            <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == ((#[trigger] a@) == (#[trigger] b@)) {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_str_ext(a: &str, b: &str)
        ensures (#[trigger] a@) == (#[trigger] b@) ==> a == b {}
    #[verifier::external_body]
    pub broadcast proof fn axiom_char_to_string(c: &char, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(c, s) == (s@ == seq![*c]) {}

    pub broadcast group group_strings { axiom_string_str, axiom_string_ref_str, axiom_char_to_string, axiom_vec_char_len, lemma_views_index, }

    // ---- text
    /// The lines of a text, as `str::lines` gives them.
    pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
    /// A text without its leading and trailing white space, as `str::trim` gives it.
    pub uninterp spec fn trim_of(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn is_space(c: char) -> bool;
    pub uninterp spec fn lower_of(c: char) -> Seq<char>;

    pub open spec fn newlines(s: Seq<char>) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { newlines(s.drop_last()) + if s.last() == '\n' { 1nat } else { 0 } }
    }

    pub open spec fn joined(l: Seq<Seq<char>>) -> Seq<char>
        decreases l.len()
    {
        if l.len() == 0 { Seq::empty() } else { joined(l.drop_last()) + l.last() }
    }

    /// The lines of a text that ends in something else than a line feed.
    #[verifier::external_body]
    pub broadcast proof fn axiom_lines(s: Seq<char>)
        ensures
            s.len() > 0 && s.last() != '\n' ==> (#[trigger] lines_of(s)).len() == newlines(s) + 1
                && vstd::utf8::encode_utf8(lines_of(s).last()).len() <= 4 * s.len() {}

    #[verifier::external_body]
    pub broadcast proof fn axiom_lower(c: char)
        ensures
            (#[trigger] lower_of(c) == "h"@) == (c == 'h' || c == 'H'),
            (lower_of(c) == "b"@) == (c == 'b' || c == 'B') {}

    /// `C.iter().collect::<String>()`
    pub trait VxChars {
        spec fn vx_cs(&self) -> Seq<char>;
        fn vx_iter_string(&self) -> (r: String)
            ensures r@ == self.vx_cs();
    }
    impl VxChars for [char] {
        open spec fn vx_cs(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_iter_string(&self) -> String { self.iter().collect::<String>() }
    }

    /// `C.to_lowercase().to_string()`
    pub trait VxLower1 {
        spec fn vx_c(&self) -> char;
        fn vx_lowercase(&self) -> (r: String)
            ensures r@ == lower_of(self.vx_c());
    }
    impl VxLower1 for char {
        open spec fn vx_c(&self) -> char { *self }
        #[verifier::external_body]
        fn vx_lowercase(&self) -> String { self.to_lowercase().to_string() }
    }

    /// `S.windows(2).enumerate()`
    pub trait VxWindows {
        spec fn vx_ws(&self) -> Seq<char>;
        fn vx_windows_enum(&self, n: usize) -> (r: Vec<(usize, &[char])>)
            requires n == 2
            ensures
                r@.len() == if self.vx_ws().len() < 2 { 0 } else { self.vx_ws().len() - 1 },
                forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1@ == self.vx_ws().subrange(i, i + 2);
    }
    impl VxWindows for [char] {
        open spec fn vx_ws(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_windows_enum(&self, n: usize) -> Vec<(usize, &[char])> { self.windows(n).enumerate().collect() }
    }

    // ---- character classes
    pub uninterp spec fn is_lower(c: char) -> bool;
    pub uninterp spec fn is_upper(c: char) -> bool;
    pub assume_specification [str::trim] (s: &str) -> (r: &str)
        ensures r@ == trim_of(s@);
    pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
        ensures r == ('0' <= *c && *c <= '9');
    pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool)
        ensures r == (('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F'));
    pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
        ensures r == (('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));

    /// `char::is_lowercase`, `char::is_uppercase` as patterns
    pub struct VxIsLower;
    pub struct VxIsUpper;
    pub trait VxClass {
        spec fn vx_in(&self, c: char) -> bool;
        fn vx_first(&self, s: &str) -> (r: bool)
            ensures r == (s@.len() > 0 && self.vx_in(s@[0]));
    }
    impl VxClass for VxIsLower {
        open spec fn vx_in(&self, c: char) -> bool { is_lower(c) }
        #[verifier::external_body]
        fn vx_first(&self, s: &str) -> bool { s.starts_with(char::is_lowercase) }
    }
    impl VxClass for VxIsUpper {
        open spec fn vx_in(&self, c: char) -> bool { is_upper(c) }
        #[verifier::external_body]
        fn vx_first(&self, s: &str) -> bool { s.starts_with(char::is_uppercase) }
    }

    /// `S.lines()`
    pub struct VxLines<'a> {
        pub v: Vec<&'a str>,
    }
    pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> {
        Seq::new(s.len(), |i: int| s[i]@)
    }
    impl<'a> VxLines<'a> {
        #[verifier::external_body]
        pub fn count(self) -> (r: usize)
            ensures r == self.v@.len()
        {
            self.v.len()
        }
        #[verifier::external_body]
        pub fn last(self) -> (r: Option<&'a str>)
            ensures r is Some == (self.v@.len() > 0), r is Some ==> r->0@ == self.v@.last()@
        {
            self.v.last().copied()
        }
        #[verifier::external_body]
        pub fn map<F: Fn(&'a str) -> &'a str>(self, f: F) -> (r: VxLines<'a>)
            requires forall|x: &'a str| f.requires((x,))
            ensures
                r.v@.len() == self.v@.len(),
                forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((self.v@[i],), #[trigger] r.v@[i])
        {
            VxLines { v: self.v.into_iter().map(f).collect() }
        }
        #[verifier::external_body]
        pub fn collect<T>(self) -> (r: VxLines<'a>)
            ensures r == self
        {
            self
        }
        #[verifier::external_body]
        pub fn join(self, s: &str) -> (r: String)
            ensures s@.len() == 0 ==> r@ == joined(views(self.v@))
        {
            self.v.join(s)
        }
    }

    pub open spec fn squeezed(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !is_space(c)) }

    /// What `replace` looks for.
    pub trait VxPattern {
        /// a text without the characters of the pattern
        spec fn vx_without(&self, s: Seq<char>) -> Seq<char>;
        fn vx_replaced(&self, s: &str, by: &str) -> (r: String)
            ensures by@.len() == 0 ==> r@ == self.vx_without(s@);
    }
    /// `char::is_whitespace` as a pattern
    pub struct VxWhitespace;
    impl VxPattern for VxWhitespace {
        open spec fn vx_without(&self, s: Seq<char>) -> Seq<char> { squeezed(s) }
        #[verifier::external_body]
        fn vx_replaced(&self, s: &str, by: &str) -> String { s.replace(char::is_whitespace, by) }
    }
    impl<const N: usize> VxPattern for &[char; N] {
        open spec fn vx_without(&self, s: Seq<char>) -> Seq<char> { s.filter(|c: char| !self@.contains(c)) }
        #[verifier::external_body]
        fn vx_replaced(&self, s: &str, by: &str) -> String { s.replace(&self[..], by) }
    }

    pub open spec fn every_char<F: Fn(char) -> bool>(s: Seq<char>, f: F, b: bool) -> bool {
        forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] s[i],), b)
    }
    pub open spec fn some_char<F: Fn(char) -> bool>(s: Seq<char>, f: F, b: bool) -> bool {
        exists|i: int| 0 <= i < s.len() && f.ensures((#[trigger] s[i],), b)
    }
    pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool {
        exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p
    }
    pub trait VxStr {
        spec fn vx_text(&self) -> Seq<char>;
        fn vx_lines(&self) -> (r: VxLines<'_>)
            ensures views(r.v@) =~= lines_of(self.vx_text());
        fn vx_replace<P: VxPattern>(&self, p: P, by: &str) -> (r: String)
            ensures by@.len() == 0 ==> r@ == p.vx_without(self.vx_text());
        fn vx_contains(&self, p: &str) -> (r: bool)
            ensures r == occurs(self.vx_text(), p@);
        fn vx_is_empty(&self) -> (r: bool)
            ensures r == (self.vx_text().len() == 0);
        fn vx_chars_all<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
            requires forall|c: char| f.requires((c,))
            ensures
                r ==> every_char(self.vx_text(), f, true),
                !r ==> some_char(self.vx_text(), f, false);
        fn vx_starts_with<P: VxClass>(&self, p: P) -> (r: bool)
            ensures r == (self.vx_text().len() > 0 && p.vx_in(self.vx_text()[0]));
        /// `S[1..]`
        fn vx_tail(&self) -> (r: &str)
            requires self.vx_text().len() > 0, self.vx_text()[0] == '&'
            ensures r@ == self.vx_text().skip(1);
    }
    macro_rules! vx_str {
        ($($t:ty;)*) => { verus! { $(
            impl VxStr for $t {
                open spec fn vx_text(&self) -> Seq<char> { self@ }
                #[verifier::external_body]
                fn vx_lines(&self) -> VxLines<'_> { VxLines { v: self.lines().collect() } }
                #[verifier::external_body]
                fn vx_replace<P: VxPattern>(&self, p: P, by: &str) -> String { p.vx_replaced(self, by) }
                #[verifier::external_body]
                fn vx_contains(&self, p: &str) -> bool { self.contains(p) }
                #[verifier::external_body]
                fn vx_is_empty(&self) -> bool { self.is_empty() }
                #[verifier::external_body]
                fn vx_chars_all<F: Fn(char) -> bool>(&self, f: F) -> bool { self.chars().all(f) }
                #[verifier::external_body]
                fn vx_starts_with<P: VxClass>(&self, p: P) -> bool { p.vx_first(self) }
                #[verifier::external_body]
                fn vx_tail(&self) -> &str { &self[1..] }
            }
        )* } };
    }
    vx_str! { str; String; }
}

} // verus!
