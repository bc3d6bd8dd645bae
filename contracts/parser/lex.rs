// ---- The lexical rules of ASN.1 (X.680 clause 12) as the compiler's input language has them ----

verus! {

pub mod lex {
    use vstd::prelude::*;
    use crate::stdx::*;
    use crate::words::*;
    use crate::tokenizer::types::TokenType;
    use crate::tokenizer::Token;

    pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
    pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
    pub open spec fn hexdigit(c: char) -> bool { digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    pub open spec fn ident_char(c: char) -> bool { letter(c) || digit(c) || c == '-' }
    pub open spec fn at_char(c: char) -> bool { letter(c) || digit(c) || c == '-' || c == '.' }
    pub open spec fn blank(c: char) -> bool {
        c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0b' || c == '\x0c' || c == '\u{feff}'
    }

    /// The first index from `i` whose character does not have `p`.
    pub open spec fn run(s: Seq<char>, i: int, p: spec_fn(char) -> bool) -> int
        decreases s.len() - i
    {
        if i >= s.len() || i < 0 { s.len() as int } else if !p(s[i]) { i } else { run(s, i + 1, p) }
    }

    pub open spec fn number_len(s: Seq<char>) -> Option<int> {
        let neg = if s[0] == '-' { 1int } else { 0int };
        let n = run(s, neg, |c: char| digit(c));
        if n > neg { Some(n) } else { None }
    }

    pub open spec fn double_hyphen(s: Seq<char>) -> bool {
        exists|i: int| 0 <= i <= s.len() - 2 && #[trigger] s[i] == '-' && s[i + 1] == '-'
    }

    /// A name, without `&`: a letter or digit first is the caller's concern; no hyphen last, no two in a row.
    pub open spec fn name_len(s: Seq<char>, from: int) -> Option<int> {
        let n = run(s, from, |c: char| ident_char(c));
        if n <= from || s[n - 1] == '-' || double_hyphen(s.take(n)) { None } else { Some(n) }
    }

    pub open spec fn comment_len(s: Seq<char>, j: int) -> int
        decreases s.len() - j
    {
        if j < 0 || j + 1 >= s.len() { s.len() as int }
        else if s[j] == '\n' { j }
        else if s[j] == '-' && s[j + 1] == '-' { j + 2 }
        else { comment_len(s, j + 1) }
    }

    /// The closing quote of a character string: `""` inside stands for one quote.
    pub open spec fn string_end(s: Seq<char>, i: int) -> Option<int>
        decreases s.len() - i
    {
        if i < 0 || i >= s.len() { None }
        else if s[i] != '"' { string_end(s, i + 1) }
        else if i + 1 < s.len() && s[i + 1] == '"' { string_end(s, i + 2) }
        else { Some(i) }
    }

    pub open spec fn quoted(s: Seq<char>) -> Option<(TokenType, int)> {
        let j = run(s, 1, |c: char| c != '\'');
        if j + 1 >= s.len() { None }
        else {
            let text = squeezed(s.take(j + 1));
            if s[j + 1] == 'h' || s[j + 1] == 'H' {
                if forall|i: int| 0 <= i < text.len() ==> hexdigit(#[trigger] text[i]) || text[i] == '\'' { Some((TokenType::HexString, j + 2)) } else { None }
            } else if s[j + 1] == 'b' || s[j + 1] == 'B' {
                if forall|i: int| 0 <= i < text.len() ==> #[trigger] text[i] == '0' || text[i] == '1' || text[i] == '\'' { Some((TokenType::BitString, j + 2)) } else { None }
            } else { None }
        }
    }

    pub open spec fn single(c: char) -> Option<TokenType> {
        if c == '{' { Some(TokenType::CurlyBegin) }
        else if c == '}' { Some(TokenType::CurlyEnd) }
        else if c == '(' { Some(TokenType::RoundBegin) }
        else if c == ')' { Some(TokenType::RoundEnd) }
        else if c == '!' { Some(TokenType::ExceptionMarker) }
        else if c == ';' { Some(TokenType::SemiColon) }
        else if c == ',' { Some(TokenType::Comma) }
        else if c == '|' { Some(TokenType::SetUnionToken) }
        else if c == '^' { Some(TokenType::SetIntersectionToken) }
        else if c == '<' { Some(TokenType::LessThan) }
        else { None }
    }

    pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { i < s.len() && s[i] == c }

    /// The token (or blank) a text begins with, and its length; `None`: the text is refused.
    pub open spec fn lex1(s: Seq<char>) -> Option<(Option<TokenType>, int)> {
        let c = s[0];
        if blank(c) { Some((None, 1)) }
        else if c == '-' && at(s, 1, '-') { Some((Some(TokenType::Comment), comment_len(s, 2))) }
        else if c == '-' || digit(c) {
            match number_len(s) { Some(n) => Some((Some(TokenType::NumberInt), n)), None => None }
        }
        else if single(c) is Some { Some((single(c), 1)) }
        else if c == '[' { if at(s, 1, '[') { Some((Some(TokenType::AdditionGroupsBegin), 2)) } else { Some((Some(TokenType::SquareBegin), 1)) } }
        else if c == ']' { if at(s, 1, ']') { Some((Some(TokenType::AdditionGroupsEnd), 2)) } else { Some((Some(TokenType::SquareEnd), 1)) } }
        else if c == ':' {
            if !at(s, 1, ':') { Some((Some(TokenType::Colon), 1)) }
            else if at(s, 2, '=') { Some((Some(TokenType::Assignment), 3)) }
            else { None }
        }
        else if c == '.' {
            if !at(s, 1, '.') { Some((Some(TokenType::Dot), 1)) }
            else if at(s, 2, '.') { Some((Some(TokenType::Extension), 3)) }
            else { Some((Some(TokenType::RangeSeparator), 2)) }
        }
        else if letter(c) {
            match name_len(s, 0) {
                Some(n) => Some((Some(if keywords().contains(s.take(n)) { TokenType::Keyword } else { TokenType::Identifier }), n)),
                None => None,
            }
        }
        else if c == '&' {
            match name_len(s, 1) { Some(n) => Some((Some(TokenType::AndIdentifier), n)), None => None }
        }
        else if c == '@' {
            let n = run(s, 1, |c: char| at_char(c));
            if s.len() == 1 || s[n - 1] == '.' || s[n - 1] == '-' { None } else { Some((Some(TokenType::AtComponentIdList), n)) }
        }
        else if c == '\'' {
            match quoted(s) { Some((k, n)) => Some((Some(k), n)), None => None }
        }
        else if c == '"' {
            match string_end(s, 1) { Some(n) => Some((Some(TokenType::TString), n + 1)), None => None }
        }
        else { None }
    }

    /// What the token of the characters `s` says.
    pub open spec fn text_of(k: TokenType, s: Seq<char>) -> Seq<char> {
        if k == TokenType::TString { joined(lines_of(s).map_values(|l: Seq<char>| trim_of(l))) }
        else if k == TokenType::BitString || k == TokenType::HexString { squeezed(s.drop_last()) }
        else { s }
    }

    pub struct Tok {
        pub kind: TokenType,
        pub text: Seq<char>,
        pub line: nat,
    }

    pub open spec fn tok(t: Token) -> Tok {
        Tok { kind: t.r#type, text: t.text@, line: t.span.start.line as nat }
    }
    pub open spec fn toks(v: Seq<Token>) -> Seq<Tok> {
        Seq::new(v.len(), |i: int| tok(v[i]))
    }

    /// The token at the head of `s`, on line `line`.
    pub open spec fn head(s: Seq<char>, line: nat) -> Tok {
        let (k, n) = lex1(s)->0;
        Tok { kind: k->0, text: text_of(k->0, s.take(n)), line }
    }

    /// The tokens of `s` from index `i`; `None`: refused.
    pub open spec fn lex(s: Seq<char>, i: int) -> Option<Seq<Tok>>
        decreases s.len() - i
    {
        if i < 0 || i >= s.len() { Some(Seq::empty()) }
        else {
            match lex1(s.skip(i)) {
                None => None,
                Some((k, n)) => if n <= 0 || i + n > s.len() { None } else {
                    match lex(s, i + n) {
                        None => None,
                        Some(rest) => Some(if k is Some { seq![head(s.skip(i), 1 + newlines(s.take(i)))] + rest } else { rest }),
                    }
                },
            }
        }
    }

    /// A token function's outcome `r` on the text `s`, standing on `line`.
    pub open spec fn takes(s: Seq<char>, line: usize, t: Token, n: usize) -> bool {
        &&& lex1(s) == Some((Some(t.r#type), n as int))
        &&& 0 < n <= s.len()
        &&& tok(t) == head(s, line as nat)
    }

    /// What token functions may rely on: positions fit the machine's words.
    pub open spec fn fits(s: Seq<char>, line: usize, begin: usize) -> bool {
        &&& 0 < s.len() <= 0x1fff_ffff_ffff_ffff
        &&& line + s.len() <= 0x2fff_ffff_ffff_ffff
        &&& begin + 4 * s.len() <= 0xbfff_ffff_ffff_ffff
    }

    // ---------------------------------------------------------------- lemmas
    pub proof fn lemma_run(s: Seq<char>, i: int, n: int, p: spec_fn(char) -> bool)
        requires
            0 <= i <= n <= s.len(),
            forall|j: int| i <= j < n ==> p(#[trigger] s[j]),
            n < s.len() ==> !p(s[n]),
        ensures run(s, i, p) == n
        decreases n - i
    {
        if i < n { assert(p(s[i])); lemma_run(s, i + 1, n, p); }
    }

    pub proof fn lemma_run_bounds(s: Seq<char>, i: int, p: spec_fn(char) -> bool)
        requires 0 <= i <= s.len()
        ensures
            i <= run(s, i, p) <= s.len(),
            forall|j: int| i <= j < run(s, i, p) ==> p(#[trigger] s[j]),
            run(s, i, p) < s.len() ==> !p(s[run(s, i, p)]),
        decreases s.len() - i
    {
        if i < s.len() && p(s[i]) { lemma_run_bounds(s, i + 1, p); }
    }

    pub proof fn lemma_comment(s: Seq<char>, j: int)
        requires 2 <= j <= s.len()
        ensures 2 <= comment_len(s, j) <= s.len()
        decreases s.len() - j
    {
        if j + 1 < s.len() && s[j] != '\n' && !(s[j] == '-' && s[j + 1] == '-') { lemma_comment(s, j + 1); }
    }

    pub proof fn lemma_string_end(s: Seq<char>, i: int)
        requires 0 <= i
        ensures string_end(s, i) is Some ==> i <= string_end(s, i)->0 < s.len() && s[string_end(s, i)->0] == '"'
        decreases s.len() - i
    {
        if i < s.len() {
            if s[i] != '"' { lemma_string_end(s, i + 1); }
            else if i + 1 < s.len() && s[i + 1] == '"' { lemma_string_end(s, i + 2); }
        }
    }

    pub proof fn lemma_newlines_add(a: Seq<char>, b: Seq<char>)
        ensures newlines(a + b) == newlines(a) + newlines(b)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); }
        else {
            lemma_newlines_add(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
        }
    }

    pub proof fn lemma_newlines_none(a: Seq<char>)
        requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '\n'
        ensures newlines(a) == 0
        decreases a.len()
    {
        if a.len() > 0 { lemma_newlines_none(a.drop_last()); }
    }

    pub broadcast proof fn lemma_newlines_le(a: Seq<char>)
        ensures #[trigger] newlines(a) <= a.len()
        decreases a.len()
    {
        if a.len() > 0 { lemma_newlines_le(a.drop_last()); }
    }

    pub broadcast proof fn lemma_filter_empty(s: Seq<char>, p: spec_fn(char) -> bool)
        ensures ((#[trigger] s.filter(p)).len() == 0) == (forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]))
        decreases s.len()
    {
        reveal(Seq::filter);
        if s.len() > 0 {
            lemma_filter_empty(s.drop_last(), p);
            assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] == #[trigger] s.drop_last()[i] by {}
            if s.filter(p).len() == 0 {
                assert(!p(s.last()));
                assert forall|i: int| 0 <= i < s.len() implies !p(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } }
            } else if !p(s.last()) {
                let i = choose|i: int| 0 <= i < s.len() - 1 && p(#[trigger] s.drop_last()[i]);
                assert(p(s[i]));
            } else { assert(p(s[s.len() - 1])); }
        }
    }

    pub broadcast proof fn lemma_occurs(s: Seq<char>, p: Seq<char>)
        ensures p.len() == 2 && p[0] == '-' && p[1] == '-' ==> (#[trigger] occurs(s, p)) == double_hyphen(s)
    {
        if p.len() == 2 && p[0] == '-' && p[1] == '-' {
            if double_hyphen(s) {
                let i = choose|i: int| 0 <= i <= s.len() - 2 && #[trigger] s[i] == '-' && s[i + 1] == '-';
                assert(s.subrange(i, i + p.len()) =~= p);
            }
            if occurs(s, p) {
                let i = choose|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p;
                assert(s[i] == s.subrange(i, i + p.len())[0] && s[i + 1] == s.subrange(i, i + p.len())[1]);
            }
        }
    }

    pub broadcast proof fn lemma_joined(l: Seq<&str>, t: Seq<Seq<char>>)
        ensures (l.len() == t.len() && forall|i: int| 0 <= i < l.len() ==> l[i]@ == #[trigger] t[i]) ==> #[trigger] joined(views(l)) == #[trigger] joined(t)
    {
        if l.len() == t.len() && forall|i: int| 0 <= i < l.len() ==> l[i]@ == #[trigger] t[i] { assert(views(l) =~= t); }
    }

    pub open spec fn spliced(a: Seq<Tok>, r: Option<Seq<Tok>>) -> Option<Seq<Tok>> {
        match r { None => None, Some(x) => Some(a + x) }
    }

    /// A token is at least one character long, and only quoted ones span lines.
    pub proof fn lemma_lex1(s: Seq<char>)
        requires s.len() > 0
        ensures
            match lex1(s) {
                None => true,
                Some((k, n)) => 0 < n <= s.len()
                    && (k is Some && k->0 != TokenType::TString && k->0 != TokenType::BitString && k->0 != TokenType::HexString
                            && k->0 != TokenType::Comment ==> newlines(s.take(n)) == 0)
                    && (k is None ==> n == 1 && newlines(s.take(n)) == if s[0] == '\n' { 1nat } else { 0 }),
            },
    {
        let neg = if s[0] == '-' { 1int } else { 0int };
        lemma_run_bounds(s, neg, |c: char| digit(c));
        lemma_run_bounds(s, 0, |c: char| ident_char(c));
        lemma_run_bounds(s, 1, |c: char| ident_char(c));
        lemma_run_bounds(s, 1, |c: char| at_char(c));
        lemma_run_bounds(s, 1, |c: char| c != '\'');
        if s.len() >= 2 { lemma_comment(s, 2); }
        lemma_string_end(s, 1);
        lemma_newlines_one(s[0]);
        assert(s.take(1) =~= seq![s[0]]);
        if lex1(s) is Some {
            let (k, n) = lex1(s)->0;
            if k is Some && k->0 != TokenType::Comment && k->0 != TokenType::TString && k->0 != TokenType::BitString && k->0 != TokenType::HexString {
                lemma_newlines_none(s.take(n));
            }
        }
    }

    /// A comment holds no line feed, unless that is the last character of all.
    pub proof fn lemma_comment_lines(s: Seq<char>, j: int)
        requires 2 <= j <= s.len()
        ensures forall|i: int| j <= i < comment_len(s, j) && i + 1 < s.len() ==> #[trigger] s[i] != '\n'
        decreases s.len() - j
    {
        if j + 1 < s.len() && s[j] != '\n' && !(s[j] == '-' && s[j + 1] == '-') { lemma_comment_lines(s, j + 1); }
    }

    pub proof fn lemma_step(s: Seq<char>, p: int, a: Seq<Tok>)
        requires 0 <= p < s.len()
        ensures
            match lex1(s.skip(p)) {
                None => lex(s, p) is None && spliced(a, lex(s, p)) is None,
                Some((k, n)) => {
                    &&& 0 < n <= s.len() - p
                    &&& newlines(s.take(p + n)) == newlines(s.take(p)) + newlines(s.skip(p).take(n))
                    &&& k is None ==> spliced(a, lex(s, p)) == spliced(a, lex(s, p + n))
                    &&& k is None ==> n == 1 && newlines(s.skip(p).take(n)) == if s[p] == '\n' { 1nat } else { 0 }
                    &&& k is Some ==> spliced(a, lex(s, p)) == spliced(a.push(head(s.skip(p), 1 + newlines(s.take(p)))), lex(s, p + n))
                    &&& k is Some && k->0 != TokenType::TString && k->0 != TokenType::BitString && k->0 != TokenType::HexString
                            && (k->0 == TokenType::Comment ==> p + n < s.len())
                            ==> newlines(s.skip(p).take(n)) == 0
                },
            },
    {
        let t = s.skip(p);
        assert(t[0] == s[p]);
        lemma_lex1(t);
        if lex1(t) is Some {
            let (k, n) = lex1(t)->0;
            assert(s.take(p + n) =~= s.take(p) + t.take(n));
            lemma_newlines_add(s.take(p), t.take(n));
            if k == Some(TokenType::Comment) && p + n < s.len() {
                lemma_comment_lines(t, 2);
                assert forall|i: int| 0 <= i < n implies #[trigger] t.take(n)[i] != '\n' by { assert(t.take(n)[i] == t[i]); }
                lemma_newlines_none(t.take(n));
            }
            if lex(s, p + n) is Some && k is Some {
                let h = head(t, 1 + newlines(s.take(p)));
                assert(a + (seq![h] + lex(s, p + n)->0) =~= a.push(h) + lex(s, p + n)->0);
            }
        }
    }

    /// What the first character says.
    pub proof fn lemma_dispatch(t: Seq<char>)
        requires t.len() > 0
        ensures
            blank(t[0]) ==> lex1(t) == Some((None::<TokenType>, 1int)),
            single(t[0]) is Some ==> lex1(t) == Some((single(t[0]), 1int))
                && forall|l: nat| #[trigger] head(t, l) == (Tok { kind: single(t[0])->0, text: seq![t[0]], line: l }),
            !blank(t[0]) && !letter(t[0]) && !digit(t[0]) && single(t[0]) is None && t[0] != '-' && t[0] != '[' && t[0] != ']' && t[0] != ':'
                && t[0] != '.' && t[0] != '&' && t[0] != '@' && t[0] != '\'' && t[0] != '"' ==> lex1(t) is None,
            lex1(t) is Some && (lex1(t)->0).0 is Some && t[0] != '\'' && t[0] != '"' ==> ({
                let k = (lex1(t)->0).0->0;
                k != TokenType::TString && k != TokenType::BitString && k != TokenType::HexString && (k == TokenType::Comment ==> t[0] == '-')
            }),
    {
        assert(t.take(1) =~= seq![t[0]]);
    }

    /// How far the tokenizer got: `v` are the tokens of `s` before index `p`, where line `line` goes on.
    #[verifier::opaque]
    pub open spec fn upto(s: Seq<char>, p: int, line: int, v: Seq<Token>) -> bool {
        &&& 0 <= p <= s.len()
        &&& p < s.len() ==> line == 1 + newlines(s.take(p))
        &&& spliced(toks(v), lex(s, p)) == lex(s, 0)
        &&& crate::lexref::all_wf(v)
    }

    pub broadcast proof fn lemma_upto_start(s: Seq<char>, v: Seq<Token>)
        ensures v.len() == 0 ==> #[trigger] upto(s, 0, 1, v)
    {
        reveal(upto);
        assert(s.take(0) =~= Seq::empty());
        assert(newlines(s.take(0)) == 0);
        if v.len() == 0 && lex(s, 0) is Some { assert(toks(v) + lex(s, 0)->0 =~= lex(s, 0)->0); }
    }

    pub broadcast proof fn lemma_upto_end(s: Seq<char>, p: int, line: int, v: Seq<Token>)
        requires #[trigger] upto(s, p, line, v)
        ensures p == s.len() ==> lex(s, 0) == Some(toks(v)) && crate::lexref::all_wf(v)
    {
        reveal(upto);
        if p == s.len() { assert(toks(v) + Seq::empty() =~= toks(v)); }
    }

    /// Nothing starts a token here: the text is refused.
    pub broadcast proof fn lemma_upto_none(s: Seq<char>, p: int, line: int, v: Seq<Token>, u: Seq<char>)
        requires #[trigger] upto(s, p, line, v), p < s.len(), u == s.skip(p), (#[trigger] lex1(u)) is None
        ensures lex(s, 0) is None
    {
        reveal(upto);
        lemma_step(s, p, toks(v));
    }

    pub broadcast proof fn lemma_upto_blank(s: Seq<char>, p: int, line: int, v: Seq<Token>, u: Seq<char>)
        requires #[trigger] upto(s, p, line, v), p < s.len(), u == s.skip(p), (#[trigger] lex1(u)) == Some((None::<TokenType>, 1int))
        ensures upto(s, p + 1, if s[p] == '\n' { line + 1 } else { line }, v)
    {
        reveal(upto);
        lemma_step(s, p, toks(v));
    }

    pub broadcast proof fn lemma_upto_takes(s: Seq<char>, p: int, line: usize, v: Seq<Token>, u: Seq<char>, t: Token, n: usize)
        requires #[trigger] upto(s, p, line as int, v), p < s.len(), u == s.skip(p), #[trigger] takes(u, line, t, n)
        ensures
            0 < n <= s.len() - p,
            upto(s, p + n, line + newlines(u.take(n as int)), v.push(t)),
            u[0] != '\'' && u[0] != '"' ==> upto(s, p + n, line as int, v.push(t)),
    {
        reveal(upto);
        lemma_step(s, p, toks(v));
        lemma_dispatch(u);
        lemma_takes_wf(u, line, t, n);
        lemma_toks_push(v, t);
    }

    /// A token of one character.
    pub open spec fn takes1(c: char, line: usize, t: Token) -> bool {
        single(c) == Some(t.r#type) && t.text@ == seq![c] && t.span.start.line == line
    }

    pub broadcast proof fn lemma_upto_takes1(s: Seq<char>, p: int, line: usize, v: Seq<Token>, c: char, t: Token)
        requires #[trigger] upto(s, p, line as int, v), p < s.len(), c == s[p], #[trigger] takes1(c, line, t)
        ensures upto(s, p + 1, line as int, v.push(t))
    {
        reveal(upto);
        let u = s.skip(p);
        assert(u[0] == c);
        lemma_dispatch(u);
        assert(u.take(1) =~= seq![c]);
        assert(takes(u, line, t, 1));
        lemma_upto_takes(s, p, line, v, u, t, 1);
    }

    pub proof fn lemma_takes_wf(s: Seq<char>, line: usize, t: Token, n: usize)
        requires takes(s, line, t, n)
        ensures crate::lexref::tok_wf(t)
    {
        lemma_run_bounds(s, 1, |c: char| ident_char(c));
    }

    pub broadcast group group_upto {
        lemma_upto_start, lemma_upto_end, lemma_upto_none, lemma_upto_blank, lemma_upto_takes, lemma_upto_takes1, lemma_newlines_le,
    }

    pub broadcast proof fn lemma_toks_push(v: Seq<Token>, t: Token)
        ensures #[trigger] toks(v.push(t)) == toks(v).push(tok(t))
    {
        assert(toks(v.push(t)) =~= toks(v).push(tok(t)));
    }

    pub proof fn lemma_newlines_one(c: char)
        ensures newlines(seq![c]) == if c == '\n' { 1nat } else { 0 }
    {
        assert(seq![c].drop_last() =~= Seq::empty());
        assert(newlines(Seq::empty()) == 0);
    }
}

} // verus!

verus! {

pub mod lexref {
    use vstd::prelude::*;
    use crate::stdx::*;
    use crate::tokenizer::types::TokenType;
    use crate::tokenizer::Token;

    pub open spec fn class_char(c: char) -> bool { ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' }
    pub open spec fn is_valueref(t: Token) -> bool { t.r#type == TokenType::Identifier && t.text@.len() > 0 && is_lower(t.text@[0]) }
    pub open spec fn is_typeref(t: Token) -> bool { t.r#type == TokenType::Identifier && t.text@.len() > 0 && is_upper(t.text@[0]) }
    pub open spec fn is_classref(t: Token) -> bool { is_typeref(t) && forall|i: int| 0 <= i < t.text@.len() ==> class_char(#[trigger] t.text@[i]) }
    pub open spec fn is_typefield(t: Token) -> bool { t.r#type == TokenType::AndIdentifier && t.text@.len() > 1 && is_upper(t.text@[1]) }
    pub open spec fn is_valuefield(t: Token) -> bool { t.r#type == TokenType::AndIdentifier && t.text@.len() > 1 && is_lower(t.text@[1]) }
    pub open spec fn is_kw(t: Token, k: Seq<char>) -> bool { t.r#type == TokenType::Keyword && t.text@ == k }
    /// What the tokenizer guarantees of every token.
    pub open spec fn tok_wf(t: Token) -> bool {
        t.r#type == TokenType::AndIdentifier ==> t.text@.len() > 1 && t.text@[0] == '&'
    }
    pub open spec fn all_wf(v: Seq<Token>) -> bool { forall|i: int| 0 <= i < v.len() ==> tok_wf(#[trigger] v[i]) }
}

} // verus!
