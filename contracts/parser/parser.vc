//# Contracts of the parser. A function without one here gets: parsable(tokens), at least one token taken or refused,
//# decreases the number of tokens (see lib/units/parser.py).

@module parser::*
use crate::checker::*;
use crate::stdx2::*;
broadcast use crate::stdx2::group_parse;

@fn parser::int::parse
    requires parsable(old(tokens)@),
@begin
    broadcast use lemma_parsable_filter;
@loop 0
    invariant parsable(tokens@), total <= tokens@.len(),
    decreases tokens@.len() - total,
@closure 0
-> (vr: bool) ensures vr == (($1).r#type != crate::tokenizer::types::TokenType::Comment)

@fn parser::utils::expect_keyword
    ensures
        match r { Ok(b) => tokens@.len() > 0 && b == is_kw(tokens@[0], keyword@), Err(_) => tokens@.len() == 0 },

@fn parser::utils::expect_keywords
    ensures
        match r {
            Ok(b) => tokens@.len() >= keywords@.len()
                && (b ==> forall|i: int| 0 <= i < keywords@.len() ==> is_kw(tokens@[i], #[trigger] keywords@[i]@)),
            Err(_) => tokens@.len() < keywords@.len(),
        },
@closure 0
-> (vr: bool) ensures vr == is_kw(*$1.1, (*$1.0)@)

@fn parser::utils::expect_one_of_keywords
    ensures
        match r {
            Ok(b) => tokens@.len() > 0 && b == exists|i: int| 0 <= i < keywords@.len() && is_kw(tokens@[0], #[trigger] keywords@[i]@),
            Err(_) => tokens@.len() == 0,
        },
@closure 0
-> (vr: bool) ensures vr == is_kw(tokens@[0], (*$1)@)

@fn parser::utils::expect_token
    requires parsable(tokens@),
    ensures
        match r { Ok(b) => tokens@.len() > 0 && b == checker.holds(tokens@[0]), Err(_) => tokens@.len() == 0 },

@fn parser::utils::expect_one_of_tokens
    requires parsable(tokens@),
    ensures
        match r {
            Ok(b) => tokens@.len() > 0 && b == one_of(checkers@, tokens@[0]),
            Err(_) => tokens@.len() == 0,
        },
@closure 0
-> (vr: bool) ensures vr == (*$1).holds(tokens@[0])

@fn parser::utils::expect_tokens
    requires parsable(tokens@),
    ensures
        match r {
            Ok(b) => tokens@.len() >= checkers@.len()
                && (b ==> forall|i: int| 0 <= i < checkers@.len() ==> one_of((#[trigger] checkers@[i])@, tokens@[i])),
            Err(_) => tokens@.len() < checkers@.len(),
        },
@closure 0
-> (vr: bool) requires tok_wf(*$1.1) ensures vr == one_of((*$1.0)@, *$1.1)
@closure 1
-> (vr: bool) requires tok_wf(*t) ensures vr == (*$1).holds(*t)

@fn parser::utils::parse_set_ish_value
@loop 0
    invariant
        parsable(tokens@),
        consumed <= tokens@.len(),
        tokens@.len() > 0,
        begin_token.holds(tokens@[0]),
        0 <= level <= consumed,
        consumed > 0 ==> level > 0,
    decreases tokens@.len() - consumed,

//# ---- modules
@fn parser::asn::module::maybe_parse_object_identifer
    requires parsable(tokens@)
    ensures taken0(r, tokens@),

@fn parser::asn::module::maybe_parse_header_tags
    requires parsable(tokens@)
    ensures taken0(r, tokens@),

@fn parser::asn::module::parse_module_imports
    requires parsable(tokens@)
    ensures taken0(r, tokens@),

@fn parser::asn::defs::parse_valueish_definition
    requires parsable(tokens@), tokens@.len() > 0
    ensures taken(r, tokens@),

@fn parser::asn::defs::parse_typeish_definition
    requires parsable(tokens@), tokens@.len() > 0
    ensures taken(r, tokens@),

//# ---- types; the numbers order the functions that call each other on the same tokens
@fn parser::asn::types::constraints::parse_constraints
    requires parsable(tokens@)
    ensures taken0(r, tokens@),
    decreases tokens@.len(), 12int

@fn parser::asn::types::constraints::parse_constraint
//rank 11

@fn parser::asn::types::constraints::parse_subtype_constraint
//rank 10

@fn parser::asn::types::constraints::parse_union_set
    requires parsable(tokens@)
    ensures taken0(r, tokens@),
    decreases tokens@.len(), 9int

@fn parser::asn::types::constraints::parse_intersection_set
//rank 8

@fn parser::asn::types::constraints::parse_element_set
//rank 7

@fn parser::asn::types::int::parse_type
//rank 6

@fn parser::asn::types::constructed::seq::parse_seq_or_seq_of_type
//rank 5

@fn parser::asn::types::constructed::seq::parse_sequence_type
    requires parsable(tokens@), tokens@.len() > 0
    ensures taken(r, tokens@),
    decreases tokens@.len(), 4int
@loop 0
    invariant parsable(tokens@), 0 < consumed <= tokens@.len(), ext_marker_found <= consumed,
    decreases tokens@.len() - consumed,

@fn parser::asn::types::constructed::seq::parse_sequence_of_type
    requires parsable(tokens@), tokens@.len() > 0
    ensures taken(r, tokens@),
    decreases tokens@.len(), 4int

@fn parser::asn::types::constructed::choice::parse_choice_type
//rank 4
@loop 0
    invariant parsable(tokens@), 0 < consumed <= tokens@.len(), extension_markers <= 1,
    decreases tokens@.len() - consumed,

@fn parser::asn::types::constructed::seq::parse_seq_addition_group
//rank 3

@fn parser::asn::types::constructed::choice::parse_choice_addition_group
//rank 3

@fn parser::asn::types::constructed::seq::parse_seq_component
    requires parsable(tokens@)
    ensures
        taken0(r, tokens@),
        match r { Ok((Some(_), n)) => n > 0, _ => true },
    decreases tokens@.len(), 2int

@fn parser::asn::types::constructed::utils::parse_component
//rank 1

@fn parser::asn::types::base::enumerated::parse_enum_values
    requires parsable(tokens@)
    ensures
        taken(r, tokens@),
        match r { Ok((v, n)) => v@.len() <= n, _ => true },
@loop 0
    invariant parsable(tokens@), consumed <= tokens@.len(), values@.len() <= consumed,
    ensures consumed > 0,
    decreases tokens@.len() - consumed,

@fn parser::asn::types::ioc::parse_with_syntax_for_fields
    requires parsable(tokens@)
    ensures r is Ok ==> r->Ok_0 <= tokens@.len(),
@loop 0
    invariant parsable(tokens@), consumed <= tokens@.len(),
    decreases tokens@.len() - consumed,
@closure 0
-> (vr: &str)

@fn parser::asn::types::ioc::parse_object_set
@loop 0
    invariant parsable(tokens@), 0 < consumed <= tokens@.len(), 0 <= extension_token_count <= 1,
    decreases tokens@.len() - consumed,

@fn parser::asn::types::int::parse_referenced_type
    requires parsable(tokens@), tokens@.len() > 0
    ensures taken(r, tokens@),

@fn parser::asn::oid::parse_named_oid_component
@closure 0
-> (vr: Error)

@fn parser::asn::oid::parse_oid_component
@closure 0
-> (vr: Error)

@fn parser::asn::types::constraints::is_min_max_keyword
    requires tok_wf(*token)
    ensures r == (is_kw(*token, "MIN"@) || is_kw(*token, "MAX"@)),
@closure 0
-> (vr: bool) ensures vr == is_kw(*token, (*$1)@)
