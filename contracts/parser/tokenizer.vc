//# Contracts of the tokenizer, spliced onto the functions of the same path on every run.

@module *
use vstd::prelude::*;
use crate::stdx::*;
use crate::words::*;
use crate::lex::*;
use crate::lexref::*;

@module tokenizer
broadcast use crate::stdx::group_strings;

@module tokenizer::types
//# derive(PartialEq) of an enum without fields
use vstd::std_specs::cmp::PartialEqSpecImpl;
impl PartialEqSpecImpl for TokenType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TokenType) -> bool { *self == *other }
}

@fn tokenizer::LineColumn::new
    ensures r.line == line, r.column == column,

@fn tokenizer::Span::new
    ensures r.start == start, r.end == end,

@fn tokenizer::Span::start
    ensures r == self.start,

@fn tokenizer::Token::is_curly_begin
    ensures r == (self.r#type == TokenType::CurlyBegin),

@fn tokenizer::Token::is_curly_end
    ensures r == (self.r#type == TokenType::CurlyEnd),

@fn tokenizer::Token::is_round_begin
    ensures r == (self.r#type == TokenType::RoundBegin),

@fn tokenizer::Token::is_round_end
    ensures r == (self.r#type == TokenType::RoundEnd),

@fn tokenizer::Token::is_exception_marker
    ensures r == (self.r#type == TokenType::ExceptionMarker),

@fn tokenizer::Token::is_square_begin
    ensures r == (self.r#type == TokenType::SquareBegin),

@fn tokenizer::Token::is_square_end
    ensures r == (self.r#type == TokenType::SquareEnd),

@fn tokenizer::Token::is_addition_groups_begin
    ensures r == (self.r#type == TokenType::AdditionGroupsBegin),

@fn tokenizer::Token::is_addition_groups_end
    ensures r == (self.r#type == TokenType::AdditionGroupsEnd),

@fn tokenizer::Token::is_extension
    ensures r == (self.r#type == TokenType::Extension),

@fn tokenizer::Token::is_range_separator
    ensures r == (self.r#type == TokenType::RangeSeparator),

@fn tokenizer::Token::is_assignment
    ensures r == (self.r#type == TokenType::Assignment),

@fn tokenizer::Token::is_colon
    ensures r == (self.r#type == TokenType::Colon),

@fn tokenizer::Token::is_semicolon
    ensures r == (self.r#type == TokenType::SemiColon),

@fn tokenizer::Token::is_identifier
    ensures r == (self.r#type == TokenType::Identifier),

@fn tokenizer::Token::is_keyword
    ensures r == (self.r#type == TokenType::Keyword),

@fn tokenizer::Token::is_comment
    ensures r == (self.r#type == TokenType::Comment),

@fn tokenizer::Token::is_and_identifier
    ensures r == (self.r#type == TokenType::AndIdentifier),

@fn tokenizer::Token::is_numeric
    ensures r == (self.r#type == TokenType::NumberInt),

@fn tokenizer::Token::is_bitstring
    ensures r == (self.r#type == TokenType::BitString),

@fn tokenizer::Token::is_hexstring
    ensures r == (self.r#type == TokenType::HexString),

@fn tokenizer::Token::is_tstring
    ensures r == (self.r#type == TokenType::TString),

@fn tokenizer::Token::is_dot
    ensures r == (self.r#type == TokenType::Dot),

@fn tokenizer::Token::is_comma
    ensures r == (self.r#type == TokenType::Comma),

@fn tokenizer::Token::is_set_union_token
    ensures r == (self.r#type == TokenType::SetUnionToken),

@fn tokenizer::Token::is_set_intersection_token
    ensures r == (self.r#type == TokenType::SetIntersectionToken),

@fn tokenizer::Token::is_at_component_list
    ensures r == (self.r#type == TokenType::AtComponentIdList),

@fn tokenizer::Token::is_less_than
    ensures r == (self.r#type == TokenType::LessThan),


@fn tokenizer::Token::is_value_reference
    ensures r == is_valueref(*self),

@fn tokenizer::Token::is_type_reference
    ensures r == is_typeref(*self),

@fn tokenizer::Token::is_module_reference
    ensures r == is_typeref(*self),

@fn tokenizer::Token::is_object_class_reference
    ensures r == is_classref(*self),
@closure 0
-> (vr: bool) ensures vr == class_char($1)

@fn tokenizer::Token::is_object_reference
    ensures r == is_valueref(*self),

@fn tokenizer::Token::is_object_set_reference
    ensures r == is_typeref(*self),

@fn tokenizer::Token::is_type_field_reference
    requires tok_wf(*self),
    ensures r == is_typefield(*self),

@fn tokenizer::Token::is_value_field_reference
    requires tok_wf(*self),
    ensures r == is_valuefield(*self),

@fn tokenizer::Token::is_value_set_field_reference
    requires tok_wf(*self),
    ensures r == is_typefield(*self),

@fn tokenizer::Token::is_object_field_reference
    requires tok_wf(*self),
    ensures r == is_valuefield(*self),

@fn tokenizer::Token::is_object_set_field_reference
    requires tok_wf(*self),
    ensures r == is_typefield(*self),

@fn tokenizer::Token::is_given_keyword
    ensures r == is_kw(*self, keyword@),

@fn tokenizer::Token::is_asn_builtin_type
    ensures r == (base_types().contains(self.text@) || constructed_types().contains(self.text@)),
@closure 0
-> (vr: bool) ensures vr == ((*$1)@ == self.text@)
@closure 1
-> (vr: bool) ensures vr == ((*$1)@ == self.text@)

@fn tokenizer::Token::is_with_syntax_reserved_word
    ensures r == syntax_words().contains(self.text@),
@closure 0
-> (vr: bool) ensures vr == ((*$1)@ == self.text@)

@fn tokenizer::Token::span
@attr
#[verifier::external_body]
@spec
    ensures r == self.span,

@fn tokenizer::Token::concat
@attr
#[verifier::external_body]
@spec

@fn tokenizer::Token::is_set_intersection
    ensures r == (self.r#type == TokenType::SetIntersectionToken || is_kw(*self, "INTERSECTION"@)),

@fn tokenizer::Token::is_set_union
    ensures r == (self.r#type == TokenType::SetUnionToken || is_kw(*self, "UNION"@)),

@fn tokenizer::get_string_token
    requires fits(chars@, line, begin), chars[0] == '"',
    ensures
        match r {
            Ok((t, n, l, c)) => takes(chars@, line, t, n) && l == newlines(chars@.take(n as int)) && c <= begin + 4 * n,
            Err(_) => lex1(chars@) is None,
        },
@begin
    broadcast use axiom_lines, lemma_newlines_le, lemma_joined;
    proof { reveal_strlit(""); }
    proof { lemma_string_end(chars@, 1); }
@loop 0
    invariant_except_break
        last is None,
        string_end(chars@, i as int) == string_end(chars@, 1),
    invariant
        chars.len() <= 0x1fff_ffff_ffff_ffff,
        chars[0] == '"',
        chars.len() >= 2,
        1 <= i <= chars.len(),
    ensures
        match last { Some(k) => string_end(chars@, 1) == Some(k as int), None => string_end(chars@, 1) is None },
    decreases chars.len() - i,
@loopbegin 0
    reveal_with_fuel(string_end, 3);
@closure 0
-> (vr: &str) ensures vr@ == trim_of($1@)

@fn tokenizer::get_bit_or_hex_string_token
    requires fits(chars@, line, begin), chars[0] == '\'',
    ensures
        match r {
            Ok((t, n, l, c)) => takes(chars@, line, t, n) && l == newlines(chars@.take(n as int)) && c <= begin + 4 * n,
            Err(_) => lex1(chars@) is None,
        },
@begin
    proof {
        let f = 1int;
        let g = |c: char| c != '\'';
        lemma_run_bounds(chars@, f, g);
        let m = run(chars@, f, g);
        if m < chars@.len() { assert(chars@.subrange(f, chars@.len() as int)[m - f] == chars@[m]); }
        assert forall|i: int| f <= i < chars@.len() implies #[trigger] chars@[i] == chars@.subrange(f, chars@.len() as int)[i - f] by {}
    }
    proof {
        let m = run(chars@, 1, |c: char| c != '\'');
        if m + 2 <= chars@.len() { assert(chars@.take(m + 2).drop_last() =~= chars@.take(m + 1)); }
    }
    broadcast use axiom_lines, axiom_lower, axiom_str_ext, lemma_newlines_le, lemma_filter_empty;
    proof { reveal_strlit(""); }
@closure 0
-> (vr: bool) ensures vr == (*$1 == '\'')
@closure 1
-> (vr: bool) ensures vr == (hexdigit($1) || $1 == '\'')

@fn tokenizer::get_at_component_id_list
    requires fits(chars@, line, begin), chars[0] == '@',
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },
@begin
    proof { lemma_run_bounds(chars@, 1, |c: char| at_char(c)); }
    proof {
        let f = 1int;
        let g = |c: char| at_char(c);
        lemma_run_bounds(chars@, f, g);
        let m = run(chars@, f, g);
        if m < chars@.len() { assert(chars@.subrange(f, chars@.len() as int)[m - f] == chars@[m]); }
        assert forall|i: int| f <= i < chars@.len() implies #[trigger] chars@[i] == chars@.subrange(f, chars@.len() as int)[i - f] by {}
    }
@closure 0
-> (vr: bool) ensures vr == !at_char(*$1)
@closure 1
-> (vr: bool) ensures vr == (*$1 == chars[consumed - 1])

@fn tokenizer::get_number_token
    requires fits(chars@, line, begin), digit(chars[0]) || (chars[0] == '-' && !at(chars@, 1, '-')),
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },
@begin
    proof {
        let f = if chars@[0] == '-' { 1int } else { 0int };
        let g = |c: char| digit(c);
        lemma_run_bounds(chars@, f, g);
        let m = run(chars@, f, g);
        if m < chars@.len() { assert(chars@.subrange(f, chars@.len() as int)[m - f] == chars@[m]); }
        assert forall|i: int| f <= i < chars@.len() implies #[trigger] chars@[i] == chars@.subrange(f, chars@.len() as int)[i - f] by {}
    }
@closure 0
-> (vr: bool) ensures vr == !digit(*$1)

@fn tokenizer::get_identifier_or_keyword_token
    requires fits(chars@, line, begin), chars[0] == '&' || letter(chars[0]),
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },
@begin
    broadcast use lemma_occurs;
    proof { reveal_strlit("--"); }
    proof {
        let f = if chars@[0] == '&' { 1int } else { 0int };
        let g = |c: char| ident_char(c);
        lemma_run_bounds(chars@, f, g);
        let m = run(chars@, f, g);
        if m < chars@.len() { assert(chars@.subrange(f, chars@.len() as int)[m - f] == chars@[m]); }
        assert forall|i: int| f <= i < chars@.len() implies #[trigger] chars@[i] == chars@.subrange(f, chars@.len() as int)[i - f] by {}
    }
@closure 0
-> (vr: bool) ensures vr == !ident_char(*$1)
@closure 1
-> (vr: bool) ensures vr == (text@ == (*$1)@)

@fn tokenizer::get_range_or_extension_token
    requires fits(chars@, line, begin), chars[0] == '.',
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },

@fn tokenizer::get_assignment_or_colon_token
    requires fits(chars@, line, begin), chars[0] == ':',
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },

@fn tokenizer::get_seq_extension_or_square_brackets_token
    requires fits(chars@, line, begin), chars[0] == '[' || chars[0] == ']',
    ensures
        match r {
            Ok((t, n)) => takes(chars@, line, t, n),
            Err(_) => lex1(chars@) is None,
        },

@fn tokenizer::get_single_char_token
    requires begin < usize::MAX,
    ensures
        match r {
            Ok(t) => takes1(token, line, t),
            Err(_) => single(token) is None,
        },

@fn tokenizer::get_maybe_comment_token
    requires fits(chars@, line, begin), chars[0] == '-',
    ensures
        match r {
            Ok((Some(t), n)) => takes(chars@, line, t, n),
            Ok((None, n)) => !at(chars@, 1, '-'),
            Err(_) => false,
        },
@begin
    proof { if chars@.len() >= 2 { lemma_comment(chars@, 2); } }
@loop 0 vx_it
    invariant_except_break
        last_idx is None,
        consumed == 2,
        comment_len(chars@, 2) == comment_len(chars@, 2 + vx_it.index@),
    invariant
        2 <= chars@.len() <= 0x1fff_ffff_ffff_ffff,
        vx_it.seq().len() == if chars@.len() < 4 { 0 } else { chars@.len() - 3 },
        forall|i: int| 0 <= i < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[i]).0 == i && vx_it.seq()[i].1@ == chars@.subrange(2, chars@.len() as int).subrange(i, i + 2),
    ensures
        match last_idx {
            Some(_) => consumed == comment_len(chars@, 2),
            None => comment_len(chars@, 2) == chars@.len(),
        },

@fn tokenizer::tokenize
@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@spec
    ensures
        match r {
            Ok(v) => !unreadable(&input) && vstd::utf8::valid_utf8(stream_of(&input))
                && lex(utf8_chars(stream_of(&input)), 0) == Some(toks(v@)) && all_wf(v@),
            Err(_) => unreadable(&input) || !vstd::utf8::valid_utf8(stream_of(&input))
                || lex(utf8_chars(stream_of(&input)), 0) is None,
        },
@begin
    hide(lex1); hide(lex); hide(head); hide(newlines); hide(takes); hide(takes1);
    broadcast use group_upto;
@loop 0
    invariant
        total_read == chars@.len(),
        chars@.len() <= 0x1fff_ffff_ffff_ffff,
        processed <= total_read,
        column <= 4 * processed,
        1 <= line <= 1 + processed,
        upto(chars@, processed as int, line as int, tokens@),
    decreases total_read - processed,
@loopbegin 0
    proof {
        assert(chars@.skip(processed as int)[0] == chars@[processed as int]);
        assert(chars@.skip(processed as int) =~= chars@.subrange(processed as int, chars@.len() as int));
        lemma_dispatch(chars@.skip(processed as int));
    }
