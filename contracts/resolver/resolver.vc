//# Contracts of the resolver, in the terms of spec.rs.

@module *
use vstd::prelude::*;
use crate::stdr::*;
use crate::intr::*;
broadcast use crate::stdr::group_std;

@module resolver::*
use crate::meaning::*;
use crate::refs::*;
use crate::whole::*;

@fn resolver::asn::structs::types::constraints::ConstraintValues::new
    ensures r.ranges@.len() == 0, r.values@.len() == 0, values_wf(r), forall|v: int| !#[trigger] holds(r, v),

@fn resolver::asn::structs::types::constraints::ConstraintValues::append
    ensures
        values_wf(*old(self)) && values_wf(*other) ==> values_wf(*final(self)),
        forall|v: int| #![trigger holds(*final(self), v)] #![trigger holds(*old(self), v)] #![trigger holds(*other, v)]
            holds(*final(self), v) <==> holds(*old(self), v) || holds(*other, v),
@begin
    proof { lemma_append(*self, *other); }

@fn resolver::asn::structs::types::constraints::ConstraintValues::contains
    ensures r == holds(*self, value as int),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        forall|k: int| 0 <= k < it.index() ==> !in_range(#[trigger] self.ranges@[k], value as int),

@fn resolver::asn::structs::types::constraints::ConstraintValues::intersection
    ensures values_wf(r), forall|v: int| #[trigger] holds(r, v) <==> holds(*self, v) && holds(*other, v),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        result.ranges@.len() == 0,
        forall|v: int| #[trigger] holds(result, v) <==> first_values(self.values@, it.index() as int, v) && holds(*other, v),
@loopbegin 0
    proof { lemma_push(result, *value); lemma_first_values(self.values@, it.index() as int); }
@loop 1 it
    invariant
        result.ranges@.len() == 0,
        forall|v: int| #[trigger] holds(result, v) <==> (first_values(self.values@, self.values@.len() as int, v) && holds(*other, v))
            || (first_values(other.values@, it.index() as int, v) && holds(*self, v)),
@loopbegin 1
    proof { lemma_push(result, *value); lemma_first_values(other.values@, it.index() as int); }
@loop 2 it
    invariant
        values_wf(result),
        forall|v: int| #[trigger] holds(result, v) <==> (first_values(self.values@, self.values@.len() as int, v) && holds(*other, v))
            || (first_values(other.values@, other.values@.len() as int, v) && holds(*self, v))
            || (first_ranges(self.ranges@, it.index() as int, v) && first_ranges(other.ranges@, other.ranges@.len() as int, v)),
@loopbegin 2
    proof { lemma_first_ranges(self.ranges@, it.index() as int); }
@loop 3 jt
    invariant
        values_wf(result),
        forall|v: int| #[trigger] holds(result, v) <==> (first_values(self.values@, self.values@.len() as int, v) && holds(*other, v))
            || (first_values(other.values@, other.values@.len() as int, v) && holds(*self, v))
            || (first_ranges(self.ranges@, it.index() as int, v) && first_ranges(other.ranges@, other.ranges@.len() as int, v))
            || (in_range(*range, v) && first_ranges(other.ranges@, jt.index() as int, v)),
@loopbegin 3
    proof { lemma_push_range(result); lemma_first_ranges(other.ranges@, jt.index() as int); }

@fn resolver::asn::structs::types::constraints::ConstraintValues::min
    requires values_wf(*self),
    ensures least_of(r, *self),
@closure 0
-> (vr: i128) ensures vr == $1.start

@fn resolver::asn::structs::types::constraints::ConstraintValues::max
    requires values_wf(*self),
    ensures greatest_of(r, *self),
@closure 0
-> (vr: i128) requires $1.start < $1.end ensures vr == $1.end - 1

@fn resolver::asn::structs::types::constraints::Asn1ConstraintValueSet::has_extension
    ensures r == (self.additional_values is Some),

@fn resolver::asn::structs::types::constraints::Asn1ConstraintValueSet::within
    ensures
        set_wf(r),
        r.additional_values is Some <==> self.additional_values is Some,
        forall|v: int| #[trigger] holds(r.root_values, v) <==> holds(self.root_values, v) && holds(*parent, v),
        forall|v: int| #[trigger] holds_added(r, v) <==> holds_added(*self, v) && holds(*parent, v),

@fn resolver::asn::types::constraints::SubtypeElements::parse_or_resolve_value
    ensures
        match r {
            Ok(v) => value_of(value@, tree_map(&resolver.resolved_defs)) == Some(v as int),
            Err(_) => value_of(value@, tree_map(&resolver.resolved_defs)) is None,
        },
@loop 0 it
    invariant
        value_of(value@, tree_map(&resolver.resolved_defs)) == named_through(name@, tree_map(&resolver.resolved_defs), MAX_DEPTH - it.index()),

@fn resolver::asn::types::constraints::SubtypeElements::get_integer_valueset
    ensures
        subtype_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> subtype_read(*self, tree_map(&resolver.resolved_defs), false) && values_wf(r->Ok_0),
        r is Ok ==> forall|v: int| #![trigger holds(r->Ok_0, v)] #![trigger subtype_allows(*self, v, tree_map(&resolver.resolved_defs))] holds(r->Ok_0, v) <==> subtype_allows(*self, v, tree_map(&resolver.resolved_defs)),
    decreases *self,
@begin
    broadcast use lemma_one_value;
    broadcast use lemma_one_range;
    proof {
        let d = tree_map(&resolver.resolved_defs);
        if self is SizeConstraint {
            assert(forall|v: int| #[trigger] subtype_allows(*self, v, d) <==> set_allows(self->SizeConstraint_0, v, d) || set_adds(self->SizeConstraint_0, v, d));
        }
    }

@fn resolver::asn::types::constraints::Elements::get_integer_valueset
    ensures
        element_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> element_read(*self, tree_map(&resolver.resolved_defs), false) && values_wf(r->Ok_0),
        r is Ok ==> forall|v: int| #![trigger holds(r->Ok_0, v)] #![trigger element_allows(*self, v, tree_map(&resolver.resolved_defs))] holds(r->Ok_0, v) <==> element_allows(*self, v, tree_map(&resolver.resolved_defs)),
    decreases *self,

@fn resolver::asn::types::constraints::IntersectionSet::get_integer_valueset
    ensures
        all_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> all_read(*self, tree_map(&resolver.resolved_defs), false) && values_wf(r->Ok_0),
        r is Ok ==> forall|v: int| #![trigger holds(r->Ok_0, v)] #![trigger all_allow(*self, v, tree_map(&resolver.resolved_defs))] holds(r->Ok_0, v) <==> all_allow(*self, v, tree_map(&resolver.resolved_defs)),
    decreases *self,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        first == (it.index() == 0),
        values_wf(value_set),
        forall|k: int| 0 <= k < it.index() ==> element_read(#[trigger] self.elements@[k], tree_map(&resolver.resolved_defs), false),
        forall|v: int| #[trigger] holds(value_set, v) <==> it.index() > 0
            && !exists|k: int| 0 <= k < it.index() && !element_allows(#[trigger] self.elements@[k], v, tree_map(&resolver.resolved_defs)),

@fn resolver::asn::types::constraints::ElementSet::get_inner_elements
    ensures *r == self.root_elements.elements,

@fn resolver::asn::types::constraints::ElementSet::get_integer_valueset
    ensures
        set_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> set_read(*self, tree_map(&resolver.resolved_defs), false) && set_wf(r->Ok_0)
            && (r->Ok_0.additional_values is Some <==> self.additional_elements is Some),
        r is Ok ==> forall|v: int| #![trigger holds(r->Ok_0.root_values, v)] #![trigger set_allows(*self, v, tree_map(&resolver.resolved_defs))] holds(r->Ok_0.root_values, v) <==> set_allows(*self, v, tree_map(&resolver.resolved_defs)),
        r is Ok ==> forall|v: int| #![trigger holds_added(r->Ok_0, v)] #![trigger set_adds(*self, v, tree_map(&resolver.resolved_defs))] holds_added(r->Ok_0, v) <==> set_adds(*self, v, tree_map(&resolver.resolved_defs)),
    decreases *self,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        values_wf(root_values),
        forall|k: int| 0 <= k < it.index() ==> all_read(#[trigger] self.root_elements.elements@[k], tree_map(&resolver.resolved_defs), false),
        forall|v: int| #[trigger] holds(root_values, v) <==> exists|k: int| 0 <= k < it.index()
            && all_allow(#[trigger] self.root_elements.elements@[k], v, tree_map(&resolver.resolved_defs)),
@loop 1 it
    invariant
        values_wf(additional_values),
        forall|k: int| 0 <= k < it.index() ==> all_read(#[trigger] additional_elements.elements@[k], tree_map(&resolver.resolved_defs), false),
        forall|v: int| #[trigger] holds(additional_values, v) <==> exists|k: int| 0 <= k < it.index()
            && all_allow(#[trigger] additional_elements.elements@[k], v, tree_map(&resolver.resolved_defs)),

@fn resolver::asn::types::constraints::Asn1Constraint::get_integer_valueset
    ensures
        constraint_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> self is Subtype && constraint_read(*self, tree_map(&resolver.resolved_defs), false) && set_wf(r->Ok_0)
            && (r->Ok_0.additional_values is Some <==> marked(*self)),
        r is Ok ==> forall|v: int| #![trigger holds(r->Ok_0.root_values, v)] #![trigger constraint_allows(*self, v, tree_map(&resolver.resolved_defs))] holds(r->Ok_0.root_values, v) <==> constraint_allows(*self, v, tree_map(&resolver.resolved_defs)),
        r is Ok ==> forall|v: int| #![trigger holds_added(r->Ok_0, v)] #![trigger set_adds(self->Subtype_0, v, tree_map(&resolver.resolved_defs))] holds_added(r->Ok_0, v) <==> set_adds(self->Subtype_0, v, tree_map(&resolver.resolved_defs)),
    decreases *self,

@fn resolver::asn::types::int::Asn1Type::get_integer_valueset_from_constraint
    ensures
        type_read(*self, tree_map(&resolver.resolved_defs), true) ==> r is Ok,
        r is Ok ==> constrained(*self) && type_read(*self, tree_map(&resolver.resolved_defs), false)
            && value_set_of(r->Ok_0, *self, tree_map(&resolver.resolved_defs)),
    decreases *self,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        result is Some <==> it.index() > 0,
        result is Some ==> set_wf(result->0),
        forall|k: int| 0 <= k < it.index() ==> constraint_read(#[trigger] constraints@[k], tree_map(&resolver.resolved_defs), false),
        result is Some ==> forall|v: int| #[trigger] holds(result->0.root_values, v)
            <==> first_allow(constraints@, it.index() as int, v, tree_map(&resolver.resolved_defs)),
        result is Some ==> (result->0.additional_values is Some <==> marked(constraints@[it.index() - 1])),
        result is Some ==> forall|v: int| #[trigger] holds_added(result->0, v)
            <==> first_allow(constraints@, it.index() - 1, v, tree_map(&resolver.resolved_defs))
                && constraints@[it.index() - 1] is Subtype && set_adds(constraints@[it.index() - 1]->Subtype_0, v, tree_map(&resolver.resolved_defs)),

@fn resolver::asn::types::base::integer::Asn1ResolvedInteger::resolve_integer
    ensures
        *final(resolver) == *old(resolver),
        integer_known(*ty, tree_map(&old(resolver).resolved_defs)) ==> r is Ok,
        r is Ok ==> integer_ok(*ty, r->Ok_0, tree_map(&old(resolver).resolved_defs)),
        r is Ok ==> width_ok(r->Ok_0.bits)
            && forall|v: int| #[trigger] may_be(*ty, v, tree_map(&old(resolver).resolved_defs)) ==> in_width(r->Ok_0.bits, r->Ok_0.signed, v),

@fn resolver::asn::structs::values::Asn1ResolvedValue::get_base_integer_value
    ensures match r { Some(v) => number_in(*self) == Some(v as int), None => number_in(*self) is None },
    decreases *self,

@module default resolver::asn::structs::types::base::Asn1ResolvedBitString
        ensures r.size is None, hash_map(&r.named_values) == Map::<Seq<char>, u8>::empty(),

@module default resolver::asn::structs::types::base::Asn1ResolvedOctetString
        ensures r.size is None,

@module default resolver::asn::structs::types::base::Asn1ResolvedCharacterString
        ensures r.size is None,

@fn resolver::asn::structs::types::base::Asn1ResolvedEnumerated::default
    ensures r.named_root_values@.len() == 0, r.named_ext_values@.len() == 0,

@fn resolver::asn::structs::types::base::Asn1ResolvedInteger::default
    ensures r.bits == 64, r.signed, r.named_values is None, r.resolved_constraints is None,

@fn resolver::asn::types::constraints::Asn1Constraint::is_size_constraint
    ensures r == sized(*self),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant forall|k: int| 0 <= k < it.index() ==> !has_size(#[trigger] e.root_elements.elements@[k]),
@loop 1 jt
    invariant forall|k: int| 0 <= k < jt.index() ==> !is_size(#[trigger] iset.elements@[k]),

@fn resolver::asn::types::constraints::IntersectionSet::get_size_valueset
    ensures
        plain_size(*self, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> has_size(*self) && set_wf(r->Ok_0) && (r->Ok_0.additional_values is Some <==> inner_mark(*self, self.elements@.len() as int)),
        r is Ok ==> forall|v: int| #[trigger] holds(r->Ok_0.root_values, v) <==> sizes(*self, v, tree_map(&resolver.resolved_defs)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        result is Some <==> exists|k: int| 0 <= k < it.index() && is_size(#[trigger] self.elements@[k]),
        result is Some ==> set_wf(result->0) && (result->0.additional_values is Some <==> inner_mark(*self, it.index() as int)),
        result is Some ==> forall|v: int| #[trigger] holds(result->0.root_values, v) <==> first_sizes(*self, it.index() as int, v, tree_map(&resolver.resolved_defs)),
@loopbegin 0
    proof { lemma_first_sizes(*self, it.index() as int, tree_map(&resolver.resolved_defs)); }

@fn resolver::asn::types::constraints::ElementSet::get_size_valueset
    ensures
        size_read(Asn1Constraint::Subtype(*self), tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> size_set(r->Ok_0, Asn1Constraint::Subtype(*self), tree_map(&resolver.resolved_defs)),
@begin
    proof {
        let (d, u, c) = (tree_map(&resolver.resolved_defs), self.root_elements, Asn1Constraint::Subtype(*self));
        assert(forall|v: int| #![trigger size_allows(c, v, d)] #![trigger some_sizes(u, u.elements@.len() as int, v, d)]
            size_allows(c, v, d) <==> some_sizes(u, u.elements@.len() as int, v, d));
        assert(size_marked(c) <==> self.additional_elements is Some || some_mark(u, u.elements@.len() as int));
    }
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        values_wf(root_values), values_wf(additional_values),
        extensible <==> self.additional_elements is Some || some_mark(self.root_elements, it.index() as int),
        forall|v: int| #![trigger holds(root_values, v)] #![trigger some_sizes(self.root_elements, it.index() as int, v, tree_map(&resolver.resolved_defs))] holds(root_values, v) <==> some_sizes(self.root_elements, it.index() as int, v, tree_map(&resolver.resolved_defs)),
@loopbegin 0
    proof { lemma_some_sizes(self.root_elements, it.index() as int, tree_map(&resolver.resolved_defs)); }

@fn resolver::asn::types::constraints::Asn1Constraint::get_size_valueset
    ensures
        size_read(*self, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> size_set(r->Ok_0, *self, tree_map(&resolver.resolved_defs)),

@fn resolver::asn::types::int::Asn1Type::get_size_valueset_from_constraints
    ensures
        type_size_read(*self, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> sizes_of(r->Ok_0, *self, tree_map(&resolver.resolved_defs)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        result is Some <==> some_sized(constraints@, it.index() as int),
        result is Some ==> set_wf(result->0) && (result->0.additional_values is Some <==> last_marked(constraints@, it.index() as int)),
        result is Some ==> forall|v: int| #![trigger holds(result->0.root_values, v)] #![trigger first_size_allow(constraints@, it.index() as int, v, tree_map(&resolver.resolved_defs))] holds(result->0.root_values, v) <==> first_size_allow(constraints@, it.index() as int, v, tree_map(&resolver.resolved_defs)),
        result is Some ==> forall|v: int| #[trigger] holds(result->0.root_values, v) ==> v >= 0,
@loopbegin 0
    proof { lemma_size_allow(constraints@, it.index() as int, tree_map(&resolver.resolved_defs)); }

@fn resolver::asn::types::base::octetstring::Asn1ResolvedOctetString::resolve_octet_string
    ensures
        type_size_read(*ty, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> sizes_of(r->Ok_0.size, *ty, tree_map(&resolver.resolved_defs)),

@fn resolver::asn::types::base::bitstring::Asn1ResolvedBitString::resolve_bit_string
    ensures
        bits_known(*ty, *b, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> bits_ok(*ty, *b, r->Ok_0, tree_map(&resolver.resolved_defs)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant bits_of(hash_map(&named_values), b.named_bits->0@, it.index() as int),
@loopbegin 0
    broadcast use lemma_nat;

@fn resolver::asn::types::base::charstring::Asn1ResolvedCharacterString::resolve_character_string
    ensures
        chars_known(*ty, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> sizes_of(r->Ok_0.size, *ty, tree_map(&resolver.resolved_defs)),
        r is Ok && ty.kind is Builtin && ty.kind->Builtin_0 is CharacterString ==> r->Ok_0.str_type@ == ty.kind->Builtin_0->str_type@,

@fn resolver::asn::types::base::enumerated::Asn1ResolvedEnumerated::resolve_enumerated
    ensures
        enumerated_known(*e, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> enumerated_ok(*e, r->Ok_0, tree_map(&resolver.resolved_defs)),
        r is Ok && e.root_values@.len() <= 65536 ==> (r->Ok_0.bits == 8 || r->Ok_0.bits == 16)
            && forall|i: int| 0 <= i < e.root_values@.len() ==> in_width(r->Ok_0.bits, false, (#[trigger] r->Ok_0.named_root_values@[i]).1 as int),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        ranked(e.root_values@, base.named_root_values@, it.index() as int, numbers@),
        forall|i: int| 0 <= i < it.index() ==> 0 <= (#[trigger] base.named_root_values@[i]).1 < numbers@.len(),
@loopbegin 0
    proof { lemma_ranks(numbers@); }
@loop 1 jt
    invariant index == count_less(numbers@, jt.index() as int, numbers@[i as int] as int), 0 <= index <= jt.index(),
@loop 2 it
    invariant counted(e.ext_values@, base.named_ext_values@, it.index() as int),

@fn resolver::asn::types::base::enumerated::Asn1ResolvedEnumerated::item_numbers
    ensures
        enum_read(items@, tree_map(&resolver.resolved_defs)) ==> r is Ok,
        r is Ok ==> numbering(items@, r->Ok_0@, tree_map(&resolver.resolved_defs)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        given@.len() == givens(items@, it.index() as int, tree_map(&resolver.resolved_defs)).len(),
        forall|k: int| #![trigger given@[k]] #![trigger givens(items@, it.index() as int, tree_map(&resolver.resolved_defs))[k]] 0 <= k < given@.len() ==> given@[k] == givens(items@, it.index() as int, tree_map(&resolver.resolved_defs))[k],
        forall|i: int, j: int| 0 <= i < j < given@.len() ==> #[trigger] given@[i] != #[trigger] given@[j],
        forall|i: int| 0 <= i < it.index() && (#[trigger] items@[i]).value is Some ==> number_of(items@[i], tree_map(&resolver.resolved_defs)) is Some,
@loopbegin 0
    proof { lemma_givens(items@, it.index() as int, items@.len() as int, tree_map(&resolver.resolved_defs)); }
@loop 1 it
    invariant
        numbers@.len() == it.index(), 0 <= next,
        next_given == givens(items@, it.index() as int, tree_map(&resolver.resolved_defs)).len(),
        forall|i: int| 0 <= i < it.index() && (#[trigger] items@[i]).value is Some ==> number_of(items@[i], tree_map(&resolver.resolved_defs)) == Some(nth(numbers@, i)),
        forall|i: int| 0 <= i < it.index() && (#[trigger] items@[i]).value is None ==> 0 <= nth(numbers@, i) < next && !givens(items@, items@.len() as int, tree_map(&resolver.resolved_defs)).contains(nth(numbers@, i)),
        forall|i: int, j: int| 0 <= i < j < it.index() && (#[trigger] items@[i]).value is None && (#[trigger] items@[j]).value is None ==> nth(numbers@, i) < nth(numbers@, j),
        forall|m: int| 0 <= m < next ==> #[trigger] taken(items@, numbers@, givens(items@, items@.len() as int, tree_map(&resolver.resolved_defs)), it.index() as int, m),
@loopbegin 1
    proof {
        let g = givens(items@, items@.len() as int, tree_map(&resolver.resolved_defs));
        lemma_givens(items@, it.index() as int, items@.len() as int, tree_map(&resolver.resolved_defs));
        lemma_same(given@, g);
        lemma_taken(items@, numbers@, g, it.index() as int);
        assert(items.len() == items@.len());
        if forall|m: int| 0 <= m < i128::MAX ==> #[trigger] taken(items@, numbers@, g, it.index() as int, m) {
            lemma_some_left(items@, numbers@, g, it.index() as int);
        }
    }
@loop 2
    invariant
        0 <= next,
        forall|i: int| 0 <= i < it.index() && (#[trigger] items@[i]).value is None ==> 0 <= nth(numbers@, i) < next,
        forall|m: int| 0 <= m < next ==> #[trigger] taken(items@, numbers@, givens(items@, items@.len() as int, tree_map(&resolver.resolved_defs)), it.index() as int, m),
    decreases i128::MAX - next,

@fn resolver::asn::defs::resolve_definition
    requires
        old(resolver).depth <= crate::resolver::MAX_DEPTH,
        only_classes(classes_of(*old(resolver))),
    ensures
        *final(resolver) == *old(resolver),
        definition.kind is Type && known(definition.kind->Type_0.typeref, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> definition_mirrors(definition.kind, r->Ok_0, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::defs::resolve_type_definition
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        known(def.typeref, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> r->Ok_0 is Type && mirrors(def.typeref, r->Ok_0->Type_0, known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::defs::resolve_value_definition
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        r is Ok ==> r->Ok_0 is Value && exists|t: crate::resolver::asn::structs::types::Asn1ResolvedType| #[trigger] mirrors(value.typeref, t, known_of(*old(resolver)), old(resolver).depth as int) && value_mirrors(value.value@, t, r->Ok_0->Value_0, tree_map(&old(resolver).resolved_defs)),
        known(value.typeref, known_of(*old(resolver)), old(resolver).depth as int) && (forall|t: crate::resolver::asn::structs::types::Asn1ResolvedType| #[trigger] mirrors(value.typeref, t, known_of(*old(resolver)), old(resolver).depth as int) ==> exists|n: nat| value_known(value.value@, t, tree_map(&old(resolver).resolved_defs), n)) ==> r is Ok,

@fn resolver::asn::defs::resolve_object_set_definition
    requires
        old(resolver).depth <= crate::resolver::MAX_DEPTH,
        only_classes(classes_of(*old(resolver))),
    ensures
        *final(resolver) == *old(resolver),
        object_set_known(objectset.set, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> r->Ok_0 is ObjectSet && object_set_mirrors(objectset.set, objectset.id@, r->Ok_0->ObjectSet_0.objects, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::defs::resolve_object_definition
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        object_known(object.object.value, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> r->Ok_0 is Object && r->Ok_0->Object_0.name@ == object.id@ && object_mirrors(object.object.value, hash_map(&r->Ok_0->Object_0.fields), known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::types::int::resolve_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        known(*ty, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> mirrors(*ty, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *ty, 1int,

@fn resolver::asn::types::int::resolve_reference_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        ty.kind is Reference && known(*ty, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> ty.kind is Reference && mirrors(*ty, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *ty, 0int,

@fn resolver::asn::types::base::resolve_base_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        ty.kind is Builtin && base_known(*ty, ty.kind->Builtin_0, tree_map(&old(resolver).resolved_defs)) ==> r is Ok,
        r is Ok ==> ty.kind is Builtin && base_ok(*ty, ty.kind->Builtin_0, r->Ok_0, tree_map(&old(resolver).resolved_defs)),

@fn resolver::asn::types::constructed::resolve_constructed_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        ty.kind is Constructed && known(*ty, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> ty.kind is Constructed && mirrors(*ty, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *ty, 0int,

@fn resolver::asn::types::constructed::resolve_choice_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        choice_known(*choice, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> choice_mirrors(*choice, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *choice, 0int,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        *resolver == *old(resolver),
        root_components@.len() == it.index(),
        forall|k: int| 0 <= k < it.index() ==> component_mirrors(#[trigger] choice.root_components@[k], root_components@[k], known_of(*old(resolver)), old(resolver).depth as int),
@loop 1 it
    invariant
        *resolver == *old(resolver),
        components@.len() == before(choice.additions->0@, it.index() as int),
        forall|i: int| 0 <= i < it.index() ==> group_mirrors(#[trigger] choice.additions->0@[i], components@, before(choice.additions->0@, i), known_of(*old(resolver)), old(resolver).depth as int),
        forall|i: int| 0 <= i <= it.index() ==> 0 <= #[trigger] before(choice.additions->0@, i) <= before(choice.additions->0@, it.index() as int),
        forall|i: int| 0 <= i < it.index() ==> before(choice.additions->0@, i) + (#[trigger] choice.additions->0@[i]).components@.len() <= before(choice.additions->0@, it.index() as int),
@loop 2 jt
    invariant
        *resolver == *old(resolver),
        components@.len() == before(choice.additions->0@, it.index() as int) + jt.index(),
        forall|i: int| 0 <= i < it.index() ==> group_mirrors(#[trigger] choice.additions->0@[i], components@, before(choice.additions->0@, i), known_of(*old(resolver)), old(resolver).depth as int),
        forall|k: int| 0 <= k < jt.index() ==> component_mirrors(#[trigger] addition.components@[k], components@[before(choice.additions->0@, it.index() as int) + k], known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::types::constructed::resolve_sequence_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        sequence_known(*sequence, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> sequence_mirrors(*sequence, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *sequence, 0int,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        *resolver == *old(resolver),
        components@.len() == it.index(),
        forall|k: int| 0 <= k < it.index() ==> seq_component_mirrors(#[trigger] sequence.root_components@[k], components@[k], known_of(*old(resolver)), old(resolver).depth as int),

@fn resolver::asn::types::constructed::resolve_sequence_of_type
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        sequence_of_known(*sequence_of, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> sequence_of_mirrors(*sequence_of, r->Ok_0, known_of(*old(resolver)), old(resolver).depth as int),
    decreases crate::resolver::MAX_DEPTH - old(resolver).depth, *sequence_of, 0int,

@fn resolver::asn::values::resolve_value
    ensures
        *final(resolver) == *old(resolver),
        forall|n: nat| #[trigger] value_known(value@, *typeref, tree_map(&old(resolver).resolved_defs), n) ==> r is Ok,
        r is Ok ==> value_mirrors(value@, *typeref, r->Ok_0, tree_map(&old(resolver).resolved_defs)),
@begin
    proof {
        let d = tree_map(&resolver.resolved_defs);
        assert forall|n: nat| #[trigger] value_known(value@, *typeref, d, n) && typeref is Reference && !d.dom().contains(value@)
            implies n > 0 && value_known(value@, d[typeref->Reference_0@]->Type_0, d, (n - 1) as nat) by {}
    }
@attr
#[verifier::exec_allows_no_decreases_clause]

//# ---- trusted

@fn resolver::asn::types::ioc::resolve_object_set
    requires
        old(resolver).depth <= crate::resolver::MAX_DEPTH,
        only_classes(classes_of(*old(resolver))),
    ensures
        *final(resolver) == *old(resolver),
        object_set_known(*objectset, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> object_set_mirrors(*objectset, name@, r->Ok_0.objects, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int),
@begin
    proof { reveal_strlit(""); }
@attr
#[verifier::rlimit(40)]
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        *resolver == *old(resolver),
        input_elements@ =~= all_objects(*objectset),
        unique_of(class, unique_field@),
        classes_of(*old(resolver)).dom().contains(objectset.class@), class == class_in(classes_of(*old(resolver)), objectset.class@),
        placed(input_elements@, it.index() as int, name@, elements@, known_of(*old(resolver)), old(resolver).depth as int),
        hash_pairs(&lookup_table) == table(input_elements@, it.index() as int, elements@, unique_field@, tree_map(&old(resolver).resolved_defs)),
@loopbegin 0
    proof {
        assert(*object == input_elements@[i as int]);
        lemma_next(input_elements@, i as int, name@, elements@, unique_field@, known_of(*old(resolver)), old(resolver).depth as int);
        assert(object_set_known(*objectset, classes_of(*old(resolver)), known_of(*old(resolver)), old(resolver).depth as int) ==> element_known(all_objects(*objectset)[i as int], unique_field@, known_of(*old(resolver)), old(resolver).depth as int));
    }

@fn resolver::asn::types::ioc::get_unique_value
    ensures
        r is Ok <==> key_ok(*element, unique_field@, tree_map(&resolver.resolved_defs)),
        r is Ok ==> key_of(*element, unique_field@, tree_map(&resolver.resolved_defs)) == given_key(r->Ok_0),

@begin
    proof { reveal(key_in); reveal(key_fits); }

@fn resolver::asn::types::ioc::resolve_object
    requires old(resolver).depth <= crate::resolver::MAX_DEPTH,
    ensures
        *final(resolver) == *old(resolver),
        object_known(*object_value, known_of(*old(resolver)), old(resolver).depth as int) ==> r is Ok,
        r is Ok ==> r->Ok_0.name@ == object_name@ && object_mirrors(*object_value, hash_map(&r->Ok_0.fields), known_of(*old(resolver)), old(resolver).depth as int),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        *resolver == *old(resolver),
        forall|k: Seq<char>| #[trigger] hash_map(&resolved_fields).dom().contains(k) <==> exists|i: int| 0 <= i < it.index() && (#[trigger] order(fields)[i])@ == k,
        forall|i: int| 0 <= i < it.index() ==> field_mirrors(hash_map(fields)[(#[trigger] order(fields)[i])@], hash_map(&resolved_fields)[order(fields)[i]@], known_of(*old(resolver)), old(resolver).depth as int),

@fn parser::asn::structs::defs::Asn1Definition::get_inner_class
    ensures self.kind is Class ==> r == Some(self.kind->Class_0), !(self.kind is Class) ==> r is None,

@fn parser::asn::structs::types::ioc::Asn1ObjectClass::get_first_unique_field_id
    ensures
        r is Some ==> crate::stdr::hash_map(&self.fields).dom().contains(r->0@) && crate::meaning::is_unique(crate::stdr::hash_map(&self.fields)[r->0@]),
        r is None ==> forall|k: Seq<char>| #[trigger] crate::stdr::hash_map(&self.fields).dom().contains(k) ==> !crate::meaning::is_unique(crate::stdr::hash_map(&self.fields)[k]),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        forall|i: int| 0 <= i < it.index() ==> !crate::meaning::is_unique(crate::stdr::hash_map(&self.fields)[(#[trigger] crate::stdr::order(&self.fields)[i])@]),

@fn resolver::asn::types::constraints::Asn1Constraint::get_single_string_value
    ensures
        r is Ok ==> value_text(*self) == Some(r->Ok_0@),
        r is Err ==> value_text(*self) is None,

@fn resolver::asn::types::constraints::Asn1Constraint::is_subtype
    ensures r,

@fn resolver::asn::types::constraints::Asn1Constraint::is_single_value
    ensures r,

@fn resolver::asn::types::constraints::Asn1Constraint::is_simple_table_constraint
    ensures r,

@fn resolver::asn::types::constraints::TableConstraint::get_single_string_value
    ensures
        r is Ok ==> self is Simple && self->Simple_0->DefinedObjectSet_0@ == r->Ok_0@,
        r is Err ==> !(self is Simple),

@fn resolver::asn::types::constraints::ElementSet::get_single_string_value
    ensures
        r is Ok ==> value_text(Asn1Constraint::Subtype(*self)) == Some(r->Ok_0@),
        r is Err ==> value_text(Asn1Constraint::Subtype(*self)) is None,

@fn resolver::asn::types::constraints::Asn1Constraint::get_set_reference
    ensures
        r is Ok ==> names_set(*self, r->Ok_0@),
        r is Err ==> forall|s: Seq<char>| !names_set(*self, s),

@fn resolver::asn::types::constraints::Asn1Constraint::get_comp_reference
    ensures r is Some <==> self is Table && self->Table_0 is ComponentRelation,

@fn resolver::asn::types::constructed::first_constraint
    ensures
        r is Ok <==> constrained(component.ty),
        r is Ok ==> *r->Ok_0 == component.ty.constraints->0@[0],

@fn resolver::asn::types::constructed::get_seq_component_for_object_set
    ensures r is Ok && types_tabled(r->Ok_0, fieldref@, hash_pairs(&objects.lookup_table)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        first_types(types, fieldref@, hash_pairs(&objects.lookup_table), order(&objects.lookup_table), it.index() as int),

@fn resolver::asn::types::constraints::IntersectionSet::get_single_string_value
    ensures
        r is Ok ==> self.elements@.len() == 1 && self.elements@[0] is Subtype && self.elements@[0]->Subtype_0 is SingleValue
            && self.elements@[0]->Subtype_0->SingleValue_value@ == r->Ok_0@,
        r is Err ==> !(self.elements@.len() == 1 && self.elements@[0] is Subtype && self.elements@[0]->Subtype_0 is SingleValue),

@fn resolver::asn::types::constructed::resolve_seq_components_for_objects
    ensures
        r is Ok ==> forall|c: Seq<crate::parser::asn::structs::types::constructed::SeqComponent>| bare_components(c, input_components@) ==> #[trigger] components_tabled(c, *objects, set_reference@, r->Ok_0@),
        r is Ok ==> forall|k: int| 0 <= k < input_components@.len() ==> of_class(#[trigger] input_components@[k]),
        (forall|k: int| 0 <= k < input_components@.len() ==> of_class(#[trigger] input_components@[k]) && constrained(input_components@[k].ty)) ==> r is Ok,
@begin
    reveal(components_tabled);
@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@loop 0 it
    invariant
        forall|k: int| 0 <= k < it.index() ==> of_class(#[trigger] input_components@[k]),
@loop 1 it
    invariant
        forall|k: int| 0 <= k < input_components@.len() ==> of_class(#[trigger] input_components@[k]),
        forall|c: Seq<crate::parser::asn::structs::types::constructed::SeqComponent>| #[trigger] bare_components(c, input_components@) ==> (if objects.elements@[0] is Object { first_tabled(c, it.index() as int, *objects, set_reference@, result@) } else { result@.len() == 0 }),

@fn resolver::asn::types::constructed::resolve_sequence_classfield_components
    ensures
        *final(resolver) == *old(resolver),
        r is Ok ==> r->Ok_0 is Constructed && r->Ok_0->Constructed_0 is Sequence
            && r->Ok_0->Constructed_0->Sequence_extensible == seq.extensible
            && tabled(*seq, r->Ok_0->Constructed_0->Sequence_components@, tree_map(&old(resolver).resolved_defs)),
        tables_known(*seq, tree_map(&old(resolver).resolved_defs)) ==> r is Ok,
@begin
    proof {
        reveal(components_tabled);
        assert forall|v: Seq<Vec<SeqComponent>>| v.len() == seq.additions@.len() && (forall|k: int| #![trigger v[k]] #![trigger seq.additions@[k]] 0 <= k < v.len() ==> v[k]@ == seq.additions@[k].components@)
            implies #[trigger] flat(v, v.len() as int) == added_components(seq.additions@, seq.additions@.len() as int) by { lemma_flat(v, seq.additions@, v.len() as int); }
    }
@closure 0
-> (vr: Vec<SeqComponent>) ensures vr@ =~= $1.components@
@closure 1
-> (vr: Component) ensures vr == $1.component

@fn parser::asn::defs::Asn1Definition::apply_params
@attr
#[verifier::external_body]
@spec
    ensures match r { Ok(t) => crate::meaning::expansion(*self, actual_params@) == Some(t), Err(_) => crate::meaning::expansion(*self, actual_params@) is None },
