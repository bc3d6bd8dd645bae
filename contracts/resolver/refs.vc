//# What the definitions are ordered by: every name that resolving them looks up (refs.rs).

@module parser::*
use crate::refs::*;

@fn parser::asn::structs::types::Asn1Type::dependent_references
@attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] type_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_type_names, crate::refs::open_kind_names};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] constraint_names(self.constraints->0@[k], s) && plain(s) ==> has(constraint_references@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs, crate::refs::open_type_names, crate::refs::open_kind_names};

@fn parser::asn::structs::types::ActualParam::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] param_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::Asn1TypeReference::dependent_references
@attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] ref_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};
@loop 0 it
    invariant
        has(dependent_references@, self->Parameterized_typeref@),
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] param_names(self->Parameterized_params@[k], s) && plain(s) ==> has(dependent_references@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::Asn1ConstructedType::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] constructed_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_constructed_names};

@fn parser::asn::structs::types::base::Asn1TypeEnumerated::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] enum_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] item_names(self.root_values@[k], s) ==> has(references@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs};
@loop 1 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < self.root_values@.len() && #[trigger] item_names(self.root_values@[k], s) && plain(s) ==> has(references@, s),
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] item_names(self.ext_values@[k], s) && plain(s) ==> has(references@, s),
@loopbegin 1
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::constructed::Component::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] component_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_component_names};

@fn parser::asn::structs::types::constructed::SeqComponent::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] seq_component_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_seq_component_names};

@fn parser::asn::structs::types::constructed::SeqAdditionGroup::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] seq_group_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_seq_group_names};
@closure 0
-> (vr: Vec<String>) ensures forall|s: Seq<char>| #[trigger] seq_component_names(*$1, s) && plain(s) ==> has(vr@, s)

@fn parser::asn::structs::types::constructed::ChoiceAdditionGroup::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] choice_group_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_choice_group_names};
@closure 0
-> (vr: Vec<String>) ensures forall|s: Seq<char>| #[trigger] component_names(*$1, s) && plain(s) ==> has(vr@, s)

@fn parser::asn::structs::types::constructed::Asn1TypeSequence::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] sequence_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_sequence_names};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] seq_component_names(self.root_components@[k], s) && plain(s) ==> has(dependencies@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs, crate::refs::open_sequence_names};
@loop 1 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < self.root_components@.len() && #[trigger] seq_component_names(self.root_components@[k], s) && plain(s) ==> has(dependencies@, s),
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] seq_group_names(self.additions@[k], s) && plain(s) ==> has(dependencies@, s),
@loopbegin 1
    broadcast use {crate::refs::group_refs, crate::refs::open_sequence_names};

@fn parser::asn::structs::types::constructed::Asn1TypeChoice::dependent_references
@attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] choice_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_choice_names};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] component_names(self.root_components@[k], s) && plain(s) ==> has(dependencies@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs, crate::refs::open_choice_names};
@loop 1 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < self.root_components@.len() && #[trigger] component_names(self.root_components@[k], s) && plain(s) ==> has(dependencies@, s),
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] choice_group_names(self.additions->0@[k], s) && plain(s) ==> has(dependencies@, s),
@loopbegin 1
    broadcast use {crate::refs::group_refs, crate::refs::open_choice_names};

@fn parser::asn::structs::types::constructed::Asn1TypeSequenceOf::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] list_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_list_names};

@fn parser::asn::structs::types::ioc::Asn1ObjectClass::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] class_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] class_field_names(order_values(&self.fields)[k], s) && plain(s) ==> has(output@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::Asn1ObjectSet::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] object_set_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::Asn1ObjectFieldSpec::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] field_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::Asn1ObjectValue::dependent_references
@attr
    #[verifier::loop_isolation(false)]
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] object_value_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] field_names(order_values(&self->Asn1ObjectFromClass_fields)[k], s) && plain(s) ==> has(output@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::Asn1Object::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] object_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::ObjectSet::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] objects_name(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] set_element_names(self.root_elements@[k], s) && plain(s) ==> has(output@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs};
@loop 1 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < self.root_elements@.len() && #[trigger] set_element_names(self.root_elements@[k], s) && plain(s) ==> has(output@, s),
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] set_element_names(self.additional_elements@[k], s) && plain(s) ==> has(output@, s),
@loopbegin 1
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::types::ioc::ObjectSetElement::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] set_element_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::defs::Asn1ObjectClassAssignment::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] class_names(self.classref, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::defs::Asn1ObjectSetAssignment::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] object_set_names(self.set, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::defs::Asn1ValueAssignment::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] value_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::defs::Asn1AssignmentKind::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] assignment_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn parser::asn::structs::defs::Asn1Definition::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] assignment_names(self.kind, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs};

@fn resolver::asn::types::constraints::Asn1Constraint::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] constraint_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_constraint_names};
    proof {
        if let Asn1Constraint::Table(TableConstraint::Simple(crate::parser::asn::structs::types::constraints::ObjectSet::DefinedObjectSet(t))) = self { assert(names_set(*self, bare(t@))); }
        if let Asn1Constraint::Table(TableConstraint::ComponentRelation { table, component: _ }) = self { assert(names_set(*self, bare(table@))); }
    }

@fn resolver::asn::types::constraints::ElementSet::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] set_names(self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_set_names};

@fn resolver::asn::types::constraints::IntersectionSet::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] all_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_all_names};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] element_names(self.elements@[k], s) && plain(s) ==> has(output@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs, crate::refs::open_all_names};

@fn resolver::asn::types::constraints::UnionSet::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] union_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_union_names};
@loop 0 it
    invariant
        forall|k: int, s: Seq<char>| 0 <= k < it.index() && #[trigger] all_names(self.elements@[k], s) && plain(s) ==> has(output@, s),
@loopbegin 0
    broadcast use {crate::refs::group_refs, crate::refs::open_union_names};

@fn resolver::asn::types::constraints::Elements::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] element_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_element_names};

@fn resolver::asn::types::constraints::SubtypeElements::dependent_references
@attr
    #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures forall|s: Seq<char>| #[trigger] subtype_names(*self, s) && plain(s) ==> has(r@, s),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::open_subtype_names};

@fn parser::asn::structs::module::Asn1Module::definitions_sorted
@attr
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
@spec
    ensures
        *final(self) == *old(self),
        forall|j: int, s: Seq<char>| 0 <= j < r@.len() && #[trigger] needs(hash_map(&old(self).definitions), hash_map(&old(self).imports), r@[j]@, s) ==> earlier(r@, j, s),
        crate::whole::distinct(r@),
@begin
    broadcast use {crate::refs::group_refs, crate::refs::lemma_earlier_add};
@loop 0 it
    invariant
        crate::topo::untouched(&ts),
        forall|i: int, s: Seq<char>| 0 <= i < it.index() && #[trigger] needs(hash_map(&self.definitions), hash_map(&self.imports), order(&self.definitions)[i]@, s) ==> crate::topo::before(&ts, s, order(&self.definitions)[i]@),
        forall|p: Seq<char>, x: Seq<char>| #[trigger] crate::topo::before(&ts, p, x) ==> crate::topo::left(&ts, p),
@loop 1 jt
    invariant
        crate::topo::untouched(&ts),
        forall|i: int, s: Seq<char>| 0 <= i < it.index() && #[trigger] needs(hash_map(&self.definitions), hash_map(&self.imports), order(&self.definitions)[i]@, s) ==> crate::topo::before(&ts, s, order(&self.definitions)[i]@),
        forall|p: Seq<char>, x: Seq<char>| #[trigger] crate::topo::before(&ts, p, x) ==> crate::topo::left(&ts, p),
        forall|s: Seq<char>| assignment_names(v.kind, s) && plain(s) ==> has(jt.seq(), s),
        forall|i: int| 0 <= i < jt.index() && !hash_map(&self.imports).dom().contains((#[trigger] jt.seq()[i])@) ==> crate::topo::before(&ts, jt.seq()[i]@, k@),
@loop 2
    invariant
        forall|k: Seq<char>, s: Seq<char>| #[trigger] needs(hash_map(&self.definitions), hash_map(&self.imports), k, s) ==> crate::topo::before(&ts, s, k),
        forall|p: Seq<char>, x: Seq<char>| #[trigger] crate::topo::before(&ts, p, x) ==> crate::topo::left(&ts, p) || has(out_vec@, p),
        forall|j: int, p: Seq<char>| 0 <= j < out_vec@.len() && #[trigger] crate::topo::before(&ts, p, out_vec@[j]@) ==> earlier(out_vec@, j, p),
        crate::whole::distinct(out_vec@),
        forall|j: int| 0 <= j < out_vec@.len() ==> !(crate::topo::left(&ts, (#[trigger] out_vec@[j])@)),
