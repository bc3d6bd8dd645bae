// The names that resolving a definition looks up, and the order that follows from them.

verus! {

pub mod refs {
    use vstd::prelude::*;
    use crate::intr::*;
    use crate::stdr::*;
    pub use crate::topo::has;
    use crate::parser::asn::structs::types::*;
    use crate::parser::asn::structs::types::base::*;
    use crate::parser::asn::structs::types::constraints::*;
    use crate::parser::asn::structs::types::constructed::*;
    use crate::parser::asn::structs::defs::*;
    use crate::parser::asn::structs::module::*;
    use crate::parser::asn::structs::types::ioc as parsed;
    use crate::meaning::{fits, names_set};

    /// A text without blanks or braces around it, as all names are.
    pub open spec fn plain(s: Seq<char>) -> bool { bare(s) == s && trimmed(s) == s }
    pub broadcast proof fn lemma_has_add(a: Seq<String>, b: Seq<String>, s: Seq<char>)
        ensures #[trigger] has(a + b, s) == (has(a, s) || has(b, s))
    {
        if has(a, s) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s;
            assert((a + b)[i]@ == s);
        }
        if has(b, s) {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == s;
            assert((a + b)[a.len() + i]@ == s);
        }
    }
    pub broadcast proof fn lemma_has_push(a: Seq<String>, x: String, s: Seq<char>)
        ensures #[trigger] has(a.push(x), s) == (has(a, s) || x@ == s)
    {
        let b = a.push(x);
        if has(a, s) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s;
            assert(b[i]@ == s);
        }
        if x@ == s { assert(b[a.len() as int]@ == s); }
    }
    pub broadcast proof fn lemma_has_one(v: Seq<String>, s: Seq<char>)
        requires v.len() == 1
        ensures #[trigger] has(v, s) == (v[0]@ == s)
    {
        if v[0]@ == s { assert(v[0]@ == s); }
    }
    pub broadcast proof fn lemma_has_flat(v: Seq<Vec<String>>, n: int, s: Seq<char>)
        requires 0 <= n <= v.len()
        ensures #[trigger] has(flat(v, n), s) == (exists|k: int| 0 <= k < n && has((#[trigger] v[k])@, s))
        decreases n
    {
        if n > 0 {
            lemma_has_flat(v, n - 1, s);
            lemma_has_add(flat(v, n - 1), v[n - 1]@, s);
            if has(v[n - 1]@, s) { assert(has(v[n - 1]@, s)); }
        }
    }
    /// Before its j-th.
    pub open spec fn earlier(v: Seq<String>, j: int, s: Seq<char>) -> bool { exists|i: int| 0 <= i < j && (#[trigger] v[i])@ == s }
    pub broadcast proof fn lemma_earlier_add(a: Seq<String>, b: Seq<String>, j: int, s: Seq<char>)
        requires 0 <= j < a.len() + b.len()
        ensures (if j < a.len() { earlier(a, j, s) } else { has(a, s) }) ==> #[trigger] earlier(a + b, j, s)
    {
        if j < a.len() && earlier(a, j, s) {
            let i = choose|i: int| 0 <= i < j && (#[trigger] a[i])@ == s;
            assert((a + b)[i]@ == s);
        }
        if j >= a.len() && has(a, s) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == s;
            assert((a + b)[i]@ == s);
        }
    }
    pub broadcast group group_refs { lemma_has_add, lemma_has_push, lemma_has_one, lemma_has_flat }

    /// A text that may be a name: it is no number.
    pub open spec fn names(text: Seq<char>, s: Seq<char>) -> bool { !fits(int_text(text)) && s == text }

    // ---- types
    pub open spec fn type_names(t: Asn1Type, s: Seq<char>) -> bool
        decreases t
    {
        kind_names(t.kind, s)
        || match t.constraints { Some(c) => exists|k: int| 0 <= k < c@.len() && constraint_names(#[trigger] c@[k], s), None => false }
    }
    pub open spec fn kind_names(k: Asn1TypeKind, s: Seq<char>) -> bool
        decreases k
    {
        match k {
            Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(e)) => enum_names(e, s),
            Asn1TypeKind::Builtin(_) => false,
            Asn1TypeKind::Reference(r) => ref_names(r, s),
            Asn1TypeKind::Constructed(c) => constructed_names(c, s),
        }
    }
    /// The values that the numbers of the items refer to.
    pub open spec fn item_names(i: EnumValue, s: Seq<char>) -> bool {
        match i.value { Some(NamedValue::ValueRef(r)) => s == r@, _ => false }
    }
    pub open spec fn items_name(v: Seq<EnumValue>, n: int, s: Seq<char>) -> bool { exists|k: int| 0 <= k < n && item_names(#[trigger] v[k], s) }
    pub open spec fn enum_names(e: Asn1TypeEnumerated, s: Seq<char>) -> bool {
        items_name(e.root_values@, e.root_values@.len() as int, s) || items_name(e.ext_values@, e.ext_values@.len() as int, s)
    }
    pub open spec fn param_names(p: ActualParam, s: Seq<char>) -> bool {
        match p { ActualParam::Set(x) => s == x@, ActualParam::Single(x) => s == x@ }
    }
    pub open spec fn ref_names(r: Asn1TypeReference, s: Seq<char>) -> bool {
        match r {
            Asn1TypeReference::Reference(x) => s == x@,
            Asn1TypeReference::ClassField { classref, fieldref: _ } => s == classref@,
            Asn1TypeReference::Parameterized { typeref, params } => s == typeref@ || exists|k: int| 0 <= k < params@.len() && param_names(#[trigger] params@[k], s),
        }
    }
    pub open spec fn constructed_names(c: Asn1ConstructedType, s: Seq<char>) -> bool
        decreases c
    {
        match c {
            Asn1ConstructedType::Choice(x) => choice_names(x, s),
            Asn1ConstructedType::Sequence(x) => sequence_names(x, s),
            Asn1ConstructedType::SequenceOf(x) => list_names(x, s),
            _ => false,
        }
    }
    pub open spec fn component_names(c: Component, s: Seq<char>) -> bool
        decreases c
    {
        type_names(c.ty, s)
    }
    pub open spec fn seq_component_names(c: SeqComponent, s: Seq<char>) -> bool
        decreases c
    {
        component_names(c.component, s)
    }
    pub open spec fn seq_group_names(g: SeqAdditionGroup, s: Seq<char>) -> bool
        decreases g
    {
        exists|k: int| 0 <= k < g.components@.len() && seq_component_names(#[trigger] g.components@[k], s)
    }
    pub open spec fn choice_group_names(g: ChoiceAdditionGroup, s: Seq<char>) -> bool
        decreases g
    {
        exists|k: int| 0 <= k < g.components@.len() && component_names(#[trigger] g.components@[k], s)
    }
    pub open spec fn sequence_names(c: Asn1TypeSequence, s: Seq<char>) -> bool
        decreases c
    {
        (exists|k: int| 0 <= k < c.root_components@.len() && seq_component_names(#[trigger] c.root_components@[k], s))
        || (exists|k: int| 0 <= k < c.additions@.len() && seq_group_names(#[trigger] c.additions@[k], s))
    }
    pub open spec fn choice_names(c: Asn1TypeChoice, s: Seq<char>) -> bool
        decreases c
    {
        (exists|k: int| 0 <= k < c.root_components@.len() && component_names(#[trigger] c.root_components@[k], s))
        || match c.additions { Some(a) => exists|k: int| 0 <= k < a@.len() && choice_group_names(#[trigger] a@[k], s), None => false }
    }
    pub open spec fn list_names(c: Asn1TypeSequenceOf, s: Seq<char>) -> bool
        decreases c
    {
        type_names(*c.ty, s) || match c.size { Some(x) => constraint_names(x, s), None => false }
    }

    // ---- constraints
    /// The values in it; the set of objects of a table constraint.
    pub open spec fn constraint_names(c: Asn1Constraint, s: Seq<char>) -> bool
        decreases c
    {
        match c {
            Asn1Constraint::Subtype(e) => set_names(e, s),
            Asn1Constraint::Table(_) => names_set(c, s),
            Asn1Constraint::Contents { .. } => false,
        }
    }
    pub open spec fn set_names(e: ElementSet, s: Seq<char>) -> bool
        decreases e
    {
        union_names(e.root_elements, s) || match e.additional_elements { Some(u) => union_names(u, s), None => false }
    }
    pub open spec fn union_names(u: UnionSet, s: Seq<char>) -> bool
        decreases u
    {
        exists|k: int| 0 <= k < u.elements@.len() && all_names(#[trigger] u.elements@[k], s)
    }
    pub open spec fn all_names(i: IntersectionSet, s: Seq<char>) -> bool
        decreases i
    {
        exists|k: int| 0 <= k < i.elements@.len() && element_names(#[trigger] i.elements@[k], s)
    }
    pub open spec fn element_names(e: Elements, s: Seq<char>) -> bool
        decreases e
    {
        match e { Elements::Subtype(x) => subtype_names(x, s), Elements::Set(x) => set_names(x, s) }
    }
    pub open spec fn subtype_names(e: SubtypeElements, s: Seq<char>) -> bool
        decreases e
    {
        match e {
            SubtypeElements::SingleValue { value } => !fits(int_text(value@)) && (s == value@ || s == bare(value@)),
            SubtypeElements::ConstrainedSubtype(t) => type_names(t, s),
            SubtypeElements::ValueRange { lower, lower_inclusive: _, upper, upper_inclusive: _ } => names(lower@, s) || names(upper@, s),
            SubtypeElements::SizeConstraint(x) => set_names(x, s),
            SubtypeElements::PermittedAlphabet(_) => false,
        }
    }

    // ---- each of the recursive definitions, unfolded once
    pub broadcast proof fn open_type_names(t: Asn1Type, s: Seq<char>)
        ensures #[trigger] type_names(t, s) == ({
            kind_names(t.kind, s)
            || match t.constraints { Some(c) => exists|k: int| 0 <= k < c@.len() && constraint_names(#[trigger] c@[k], s), None => false }
        })
    {}
    pub broadcast proof fn open_kind_names(k: Asn1TypeKind, s: Seq<char>)
        ensures #[trigger] kind_names(k, s) == ({
            match k {
                Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(e)) => enum_names(e, s),
                Asn1TypeKind::Builtin(_) => false,
                Asn1TypeKind::Reference(r) => ref_names(r, s),
                Asn1TypeKind::Constructed(c) => constructed_names(c, s),
            }
        })
    {}
    pub broadcast proof fn open_constructed_names(c: Asn1ConstructedType, s: Seq<char>)
        ensures #[trigger] constructed_names(c, s) == ({
            match c {
                Asn1ConstructedType::Choice(x) => choice_names(x, s),
                Asn1ConstructedType::Sequence(x) => sequence_names(x, s),
                Asn1ConstructedType::SequenceOf(x) => list_names(x, s),
                _ => false,
            }
        })
    {}
    pub broadcast proof fn open_component_names(c: Component, s: Seq<char>)
        ensures #[trigger] component_names(c, s) == ({
            type_names(c.ty, s)
        })
    {}
    pub broadcast proof fn open_seq_component_names(c: SeqComponent, s: Seq<char>)
        ensures #[trigger] seq_component_names(c, s) == ({
            component_names(c.component, s)
        })
    {}
    pub broadcast proof fn open_seq_group_names(g: SeqAdditionGroup, s: Seq<char>)
        ensures #[trigger] seq_group_names(g, s) == ({
            exists|k: int| 0 <= k < g.components@.len() && seq_component_names(#[trigger] g.components@[k], s)
        })
    {}
    pub broadcast proof fn open_choice_group_names(g: ChoiceAdditionGroup, s: Seq<char>)
        ensures #[trigger] choice_group_names(g, s) == ({
            exists|k: int| 0 <= k < g.components@.len() && component_names(#[trigger] g.components@[k], s)
        })
    {}
    pub broadcast proof fn open_sequence_names(c: Asn1TypeSequence, s: Seq<char>)
        ensures #[trigger] sequence_names(c, s) == ({
            (exists|k: int| 0 <= k < c.root_components@.len() && seq_component_names(#[trigger] c.root_components@[k], s))
            || (exists|k: int| 0 <= k < c.additions@.len() && seq_group_names(#[trigger] c.additions@[k], s))
        })
    {}
    pub broadcast proof fn open_choice_names(c: Asn1TypeChoice, s: Seq<char>)
        ensures #[trigger] choice_names(c, s) == ({
            (exists|k: int| 0 <= k < c.root_components@.len() && component_names(#[trigger] c.root_components@[k], s))
            || match c.additions { Some(a) => exists|k: int| 0 <= k < a@.len() && choice_group_names(#[trigger] a@[k], s), None => false }
        })
    {}
    pub broadcast proof fn open_list_names(c: Asn1TypeSequenceOf, s: Seq<char>)
        ensures #[trigger] list_names(c, s) == ({
            type_names(*c.ty, s) || match c.size { Some(x) => constraint_names(x, s), None => false }
        })
    {}
    pub broadcast proof fn open_constraint_names(c: Asn1Constraint, s: Seq<char>)
        ensures #[trigger] constraint_names(c, s) == ({
            match c {
                Asn1Constraint::Subtype(e) => set_names(e, s),
                Asn1Constraint::Table(_) => names_set(c, s),
                Asn1Constraint::Contents { .. } => false,
            }
        })
    {}
    pub broadcast proof fn open_set_names(e: ElementSet, s: Seq<char>)
        ensures #[trigger] set_names(e, s) == ({
            union_names(e.root_elements, s) || match e.additional_elements { Some(u) => union_names(u, s), None => false }
        })
    {}
    pub broadcast proof fn open_union_names(u: UnionSet, s: Seq<char>)
        ensures #[trigger] union_names(u, s) == ({
            exists|k: int| 0 <= k < u.elements@.len() && all_names(#[trigger] u.elements@[k], s)
        })
    {}
    pub broadcast proof fn open_all_names(i: IntersectionSet, s: Seq<char>)
        ensures #[trigger] all_names(i, s) == ({
            exists|k: int| 0 <= k < i.elements@.len() && element_names(#[trigger] i.elements@[k], s)
        })
    {}
    pub broadcast proof fn open_element_names(e: Elements, s: Seq<char>)
        ensures #[trigger] element_names(e, s) == ({
            match e { Elements::Subtype(x) => subtype_names(x, s), Elements::Set(x) => set_names(x, s) }
        })
    {}
    pub broadcast proof fn open_subtype_names(e: SubtypeElements, s: Seq<char>)
        ensures #[trigger] subtype_names(e, s) == ({
            match e {
                SubtypeElements::SingleValue { value } => !fits(int_text(value@)) && (s == value@ || s == bare(value@)),
                SubtypeElements::ConstrainedSubtype(t) => type_names(t, s),
                SubtypeElements::ValueRange { lower, lower_inclusive: _, upper, upper_inclusive: _ } => names(lower@, s) || names(upper@, s),
                SubtypeElements::SizeConstraint(x) => set_names(x, s),
                SubtypeElements::PermittedAlphabet(_) => false,
            }
        })
    {}

    // ---- classes, objects, sets
    pub open spec fn class_field_names(f: parsed::ObjectClassFieldSpec, s: Seq<char>) -> bool {
        match f { parsed::ObjectClassFieldSpec::FixedTypeValue { field_type, .. } => type_names(field_type, s), _ => false }
    }
    pub open spec fn class_names(c: parsed::Asn1ObjectClass, s: Seq<char>) -> bool {
        exists|k: Seq<char>| #[trigger] hash_map(&c.fields).dom().contains(k) && class_field_names(hash_map(&c.fields)[k], s)
    }
    pub open spec fn field_names(f: parsed::Asn1ObjectFieldSpec, s: Seq<char>) -> bool {
        match f {
            parsed::Asn1ObjectFieldSpec::Type { ty } => match ty { Some(t) => type_names(t, s), None => false },
            parsed::Asn1ObjectFieldSpec::FixedTypeValue { typeref, value } => type_names(typeref, s) || match value { Some(v) => names(v@, s), None => false },
        }
    }
    pub open spec fn object_value_names(v: parsed::Asn1ObjectValue, s: Seq<char>) -> bool {
        match v {
            parsed::Asn1ObjectValue::Asn1ObjectFromClass { fields } => exists|k: Seq<char>| #[trigger] hash_map(&fields).dom().contains(k) && field_names(hash_map(&fields)[k], s),
            _ => false,
        }
    }
    pub open spec fn object_names(o: parsed::Asn1Object, s: Seq<char>) -> bool { s == o.class@ || object_value_names(o.value, s) }
    pub open spec fn set_element_names(e: parsed::ObjectSetElement, s: Seq<char>) -> bool {
        match e {
            parsed::ObjectSetElement::ObjectSetReference(r) => s == r@,
            parsed::ObjectSetElement::ObjectReference(r) => s == r@,
            parsed::ObjectSetElement::Object(v) => object_value_names(v, s),
        }
    }
    pub open spec fn elements_name(v: Seq<parsed::ObjectSetElement>, n: int, s: Seq<char>) -> bool { exists|k: int| 0 <= k < n && set_element_names(#[trigger] v[k], s) }
    pub open spec fn objects_name(o: parsed::ObjectSet, s: Seq<char>) -> bool {
        elements_name(o.root_elements@, o.root_elements@.len() as int, s) || elements_name(o.additional_elements@, o.additional_elements@.len() as int, s)
    }
    pub open spec fn object_set_names(o: parsed::Asn1ObjectSet, s: Seq<char>) -> bool { s == o.class@ || objects_name(o.objects, s) }

    // ---- definitions
    pub open spec fn value_names(v: Asn1ValueAssignment, s: Seq<char>) -> bool { type_names(v.typeref, s) || names(v.value@, s) }
    pub open spec fn assignment_names(a: Asn1AssignmentKind, s: Seq<char>) -> bool {
        match a {
            Asn1AssignmentKind::Value(v) => value_names(v, s),
            Asn1AssignmentKind::Type(t) => type_names(t.typeref, s),
            Asn1AssignmentKind::Class(c) => class_names(c.classref, s),
            Asn1AssignmentKind::ObjectSet(o) => object_set_names(o.set, s),
            Asn1AssignmentKind::Object(o) => object_names(o.object, s),
        }
    }

    // ---- modules
    /// Resolving the definition k looks up s, and s is not from another module.
    pub open spec fn needs(d: Map<Seq<char>, Asn1Definition>, imports: Map<Seq<char>, Asn1ModuleName>, k: Seq<char>, s: Seq<char>) -> bool {
        d.dom().contains(k) && assignment_names(d[k].kind, s) && plain(s) && !imports.dom().contains(s)
    }
}

} // verus!
