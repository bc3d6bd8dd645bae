// What constraints mean, as X.680 has it; the resolver's contracts are written in these terms.

verus! {

/// Constraints. A value set is given by which integers it allows.
pub mod meaning {
    use vstd::prelude::*;
    use crate::intr::*;
    use crate::stdr::*;
    use crate::parser::asn::structs::types::*;
    use crate::parser::asn::structs::types::base::*;
    use crate::parser::asn::structs::types::constraints::*;
    use crate::parser::asn::structs::types::constructed::*;
    use crate::parser::asn::structs::defs::*;
    use crate::parser::asn::structs::types::ioc as parsed;
    use crate::resolver::asn::structs::types::ioc::*;
    use crate::resolver::{Resolver, MAX_DEPTH};
    use crate::resolver::asn::structs::defs::Asn1ResolvedDefinition;
    use crate::resolver::asn::structs::types::*;
    use crate::resolver::asn::structs::types::base::*;
    use crate::resolver::asn::structs::types::constructed::*;
    use crate::resolver::asn::structs::values::*;
    use crate::resolver::asn::structs::types::constraints::*;

    pub type Defs = Map<Seq<char>, Asn1ResolvedDefinition>;

    /// The number of a value, if it is one.
    pub open spec fn number_in(v: Asn1ResolvedValue) -> Option<int>
        decreases v
    {
        match v {
            Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(i)) => Some(i.value as int),
            Asn1ResolvedValue::ReferencedType { typeref: _, value } => number_in(*value),
            _ => None,
        }
    }
    /// The integer a name stands for, through less than `n` other names.
    pub open spec fn named_through(s: Seq<char>, d: Defs, n: int) -> Option<int>
        decreases n
    {
        if n <= 0 || !d.dom().contains(s) { None } else {
            match d[s] {
                Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Reference(r)) => named_through(r@, d, n - 1),
                Asn1ResolvedDefinition::Value(v) => number_in(v),
                _ => None,
            }
        }
    }
    pub open spec fn named_int(s: Seq<char>, d: Defs) -> Option<int> { named_through(s, d, MAX_DEPTH as int) }
    pub open spec fn fits(v: Option<int>) -> bool { v is Some && i128::MIN <= v->0 <= i128::MAX }
    /// The integer a value in a constraint stands for: a number, or the name of one.
    pub open spec fn value_of(s: Seq<char>, d: Defs) -> Option<int> {
        if fits(int_text(s)) { int_text(s) } else { named_int(s, d) }
    }

    pub open spec fn above(l: Option<int>, inclusive: bool, v: int) -> bool { l is Some && (if inclusive { l->0 <= v } else { l->0 < v }) }
    pub open spec fn below(u: Option<int>, inclusive: bool, v: int) -> bool { u is Some && (if inclusive { v <= u->0 } else { v < u->0 }) }

    // ---- which integers a constraint allows
    pub open spec fn subtype_allows(e: SubtypeElements, v: int, d: Defs) -> bool
        decreases e
    {
        match e {
            SubtypeElements::SingleValue { value } => value_of(value@, d) == Some(v),
            SubtypeElements::ConstrainedSubtype(ty) => type_allows(ty, v, d),
            SubtypeElements::ValueRange { lower, lower_inclusive, upper, upper_inclusive } =>
                above(value_of(lower@, d), lower_inclusive, v) && below(value_of(upper@, d), upper_inclusive, v),
            SubtypeElements::SizeConstraint(s) => set_allows(s, v, d) || set_adds(s, v, d),
            SubtypeElements::PermittedAlphabet(_) => false,
        }
    }
    pub open spec fn element_allows(e: Elements, v: int, d: Defs) -> bool
        decreases e
    {
        match e {
            Elements::Subtype(s) => subtype_allows(s, v, d),
            Elements::Set(s) => set_allows(s, v, d),
        }
    }
    /// All of an intersection.
    pub open spec fn all_allow(i: IntersectionSet, v: int, d: Defs) -> bool
        decreases i
    {
        i.elements@.len() > 0 && !exists|k: int| 0 <= k < i.elements@.len() && !element_allows(#[trigger] i.elements@[k], v, d)
    }
    /// Some of a union.
    pub open spec fn some_allow(u: UnionSet, v: int, d: Defs) -> bool
        decreases u
    {
        exists|k: int| 0 <= k < u.elements@.len() && all_allow(#[trigger] u.elements@[k], v, d)
    }
    /// The root of a set of elements.
    pub open spec fn set_allows(s: ElementSet, v: int, d: Defs) -> bool
        decreases s
    {
        some_allow(s.root_elements, v, d)
    }
    /// What stands after the extension marker.
    pub open spec fn set_adds(s: ElementSet, v: int, d: Defs) -> bool
        decreases s
    {
        match s.additional_elements { Some(u) => some_allow(u, v, d), None => false }
    }
    pub open spec fn constraint_allows(c: Asn1Constraint, v: int, d: Defs) -> bool
        decreases c
    {
        match c { Asn1Constraint::Subtype(s) => set_allows(s, v, d), _ => false }
    }
    /// The values of a constrained INTEGER: those that all its constraints allow.
    pub open spec fn type_allows(ty: Asn1Type, v: int, d: Defs) -> bool
        decreases ty
    {
        match ty.constraints {
            Some(c) => c@.len() > 0 && !exists|k: int| 0 <= k < c@.len() && !constraint_allows(#[trigger] c@[k], v, d),
            None => false,
        }
    }
    pub open spec fn first_allow(c: Seq<Asn1Constraint>, n: int, v: int, d: Defs) -> bool {
        forall|k: int| 0 <= k < n ==> constraint_allows(#[trigger] c[k], v, d)
    }
    /// An extension marker counts only in the last constraint; its additions lie within the constraints before.
    pub open spec fn type_adds(ty: Asn1Type, v: int, d: Defs) -> bool {
        match ty.constraints {
            Some(c) => c@.len() > 0 && first_allow(c@, c@.len() - 1, v, d)
                && (match c@.last() { Asn1Constraint::Subtype(s) => set_adds(s, v, d), _ => false }),
            None => false,
        }
    }
    pub open spec fn marked(c: Asn1Constraint) -> bool {
        match c { Asn1Constraint::Subtype(s) => s.additional_elements is Some, _ => false }
    }

    // ---- which constraints are read: `strict`, certainly; otherwise, at most
    pub open spec fn subtype_read(e: SubtypeElements, d: Defs, strict: bool) -> bool
        decreases e
    {
        match e {
            SubtypeElements::SingleValue { value } => value_of(value@, d) is Some,
            SubtypeElements::ConstrainedSubtype(ty) => type_read(ty, d, strict),
            SubtypeElements::ValueRange { lower, lower_inclusive, upper, upper_inclusive } => {
                let (l, u) = (value_of(lower@, d), value_of(upper@, d));
                l is Some && u is Some && (strict ==> l->0 < i128::MAX && u->0 < i128::MAX
                    && exists|v: int| #[trigger] above(l, lower_inclusive, v) && below(u, upper_inclusive, v))
            },
            SubtypeElements::SizeConstraint(s) => set_read(s, d, strict),
            SubtypeElements::PermittedAlphabet(_) => !strict,
        }
    }
    pub open spec fn element_read(e: Elements, d: Defs, strict: bool) -> bool
        decreases e
    {
        match e {
            Elements::Subtype(s) => subtype_read(s, d, strict),
            Elements::Set(s) => !strict && set_read(s, d, strict),
        }
    }
    pub open spec fn all_read(i: IntersectionSet, d: Defs, strict: bool) -> bool
        decreases i
    {
        !exists|k: int| 0 <= k < i.elements@.len() && !element_read(#[trigger] i.elements@[k], d, strict)
    }
    pub open spec fn union_read(u: UnionSet, d: Defs, strict: bool) -> bool
        decreases u
    {
        !exists|k: int| 0 <= k < u.elements@.len() && !all_read(#[trigger] u.elements@[k], d, strict)
    }
    pub open spec fn set_read(s: ElementSet, d: Defs, strict: bool) -> bool
        decreases s
    {
        union_read(s.root_elements, d, strict) && (match s.additional_elements { Some(u) => union_read(u, d, strict), None => true })
    }
    pub open spec fn constraint_read(c: Asn1Constraint, d: Defs, strict: bool) -> bool
        decreases c
    {
        match c { Asn1Constraint::Subtype(s) => set_read(s, d, strict), _ => !strict }
    }
    pub open spec fn type_read(ty: Asn1Type, d: Defs, strict: bool) -> bool
        decreases ty
    {
        (strict ==> ty.kind is Builtin && ty.kind->Builtin_0 is Integer && ty.constraints is Some && ty.constraints->0@.len() > 0)
        && (match ty.constraints {
            Some(c) => !exists|k: int| 0 <= k < c@.len() && !constraint_read(#[trigger] c@[k], d, strict),
            None => true,
        })
    }

    // ---- resolved values
    pub open spec fn in_range(r: std::ops::Range<i128>, v: int) -> bool { r.start <= v < r.end }
    pub open spec fn holds(c: ConstraintValues, v: int) -> bool {
        (exists|k: int| 0 <= k < c.values@.len() && #[trigger] c.values@[k] == v)
        || (exists|k: int| 0 <= k < c.ranges@.len() && in_range(#[trigger] c.ranges@[k], v))
    }
    /// No range is empty.
    pub open spec fn values_wf(c: ConstraintValues) -> bool {
        forall|k: int| 0 <= k < c.ranges@.len() ==> (#[trigger] c.ranges@[k]).start < c.ranges@[k].end
    }
    pub open spec fn set_wf(s: Asn1ConstraintValueSet) -> bool {
        values_wf(s.root_values) && (s.additional_values is Some ==> values_wf(s.additional_values->0))
    }
    pub open spec fn holds_added(s: Asn1ConstraintValueSet, v: int) -> bool {
        s.additional_values is Some && holds(s.additional_values->0, v)
    }
    pub open spec fn least_of(r: Option<i128>, c: ConstraintValues) -> bool {
        match r {
            None => forall|v: int| !#[trigger] holds(c, v),
            Some(m) => holds(c, m as int) && forall|v: int| #[trigger] holds(c, v) ==> m <= v,
        }
    }
    pub open spec fn greatest_of(r: Option<i128>, c: ConstraintValues) -> bool {
        match r {
            None => forall|v: int| !#[trigger] holds(c, v),
            Some(m) => holds(c, m as int) && forall|v: int| #[trigger] holds(c, v) ==> v <= m,
        }
    }

    pub open spec fn first_values(s: Seq<i128>, n: int, v: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == v }
    pub open spec fn first_ranges(s: Seq<std::ops::Range<i128>>, n: int, v: int) -> bool { exists|k: int| 0 <= k < n && in_range(#[trigger] s[k], v) }
    pub proof fn lemma_first_values(s: Seq<i128>, n: int)
        requires 0 <= n < s.len()
        ensures forall|v: int| #[trigger] first_values(s, n + 1, v) <==> first_values(s, n, v) || s[n] == v
    {
        assert forall|v: int| #[trigger] first_values(s, n + 1, v) <==> first_values(s, n, v) || s[n] == v by {
            if s[n] == v { assert(s[n] == v); }
            if first_values(s, n, v) { let k = choose|k: int| 0 <= k < n && #[trigger] s[k] == v; assert(s[k] == v); }
        }
    }
    pub proof fn lemma_first_ranges(s: Seq<std::ops::Range<i128>>, n: int)
        requires 0 <= n < s.len()
        ensures forall|v: int| #[trigger] first_ranges(s, n + 1, v) <==> first_ranges(s, n, v) || in_range(s[n], v)
    {
        assert forall|v: int| #[trigger] first_ranges(s, n + 1, v) <==> first_ranges(s, n, v) || in_range(s[n], v) by {
            if in_range(s[n], v) { assert(in_range(s[n], v)); }
            if first_ranges(s, n, v) { let k = choose|k: int| 0 <= k < n && in_range(#[trigger] s[k], v); assert(in_range(s[k], v)); }
        }
    }
    /// One more value.
    pub proof fn lemma_push(a: ConstraintValues, x: i128)
        ensures forall|b: ConstraintValues, v: int| b.values@ == a.values@.push(x) && b.ranges == a.ranges ==> (#[trigger] holds(b, v) <==> holds(a, v) || v == x)
    {
        assert forall|b: ConstraintValues, v: int| b.values@ == a.values@.push(x) && b.ranges == a.ranges implies (#[trigger] holds(b, v) <==> holds(a, v) || v == x) by {
            let n = a.values@.len();
            assert(b.values@[n as int] == x);
            assert forall|k: int| 0 <= k < n implies b.values@[k] == #[trigger] a.values@[k] by {}
            if holds(a, v) && exists|k: int| 0 <= k < n && #[trigger] a.values@[k] == v {
                let k = choose|k: int| 0 <= k < n && #[trigger] a.values@[k] == v;
                assert(b.values@[k] == v);
            }
        }
    }
    /// One more range.
    pub proof fn lemma_push_range(a: ConstraintValues)
        ensures forall|b: ConstraintValues, v: int| b.values == a.values && b.ranges@.len() > 0 && b.ranges@ =~= a.ranges@.push(b.ranges@.last())
            ==> (#[trigger] holds(b, v) <==> holds(a, v) || in_range(b.ranges@.last(), v))
    {
        assert forall|b: ConstraintValues, v: int| b.values == a.values && b.ranges@.len() > 0 && b.ranges@ =~= a.ranges@.push(b.ranges@.last())
            implies (#[trigger] holds(b, v) <==> holds(a, v) || in_range(b.ranges@.last(), v)) by {
            let n = a.ranges@.len();
            assert forall|k: int| 0 <= k < n implies b.ranges@[k] == #[trigger] a.ranges@[k] by { assert(a.ranges@.push(b.ranges@.last())[k] == a.ranges@[k]); }
            assert forall|k: int| 0 <= k < n implies a.ranges@[k] == #[trigger] b.ranges@[k] by { assert(a.ranges@.push(b.ranges@.last())[k] == a.ranges@[k]); }
            if exists|k: int| 0 <= k < n && in_range(#[trigger] a.ranges@[k], v) {
                let k = choose|k: int| 0 <= k < n && in_range(#[trigger] a.ranges@[k], v);
                assert(in_range(b.ranges@[k], v));
            }
            if in_range(b.ranges@.last(), v) { assert(in_range(b.ranges@[n as int], v)); }
        }
    }
    pub proof fn lemma_append(a: ConstraintValues, o: ConstraintValues)
        ensures forall|b: ConstraintValues, v: int| b.values@ =~= a.values@ + o.values@ && joined(a.ranges@, o.ranges@, b.ranges@)
            ==> (#[trigger] holds(b, v) <==> holds(a, v) || holds(o, v))
    {
        assert forall|b: ConstraintValues, v: int| b.values@ =~= a.values@ + o.values@ && joined(a.ranges@, o.ranges@, b.ranges@)
            implies (#[trigger] holds(b, v) <==> holds(a, v) || holds(o, v)) by { lemma_append1(a, o, b, v); }
    }
    pub proof fn lemma_append1(a: ConstraintValues, o: ConstraintValues, b: ConstraintValues, v: int)
        requires b.values@ == a.values@ + o.values@, joined(a.ranges@, o.ranges@, b.ranges@)
        ensures holds(b, v) <==> holds(a, v) || holds(o, v)
    {
        let (n, m) = (a.values@.len() as int, a.ranges@.len() as int);
        if exists|k: int| 0 <= k < n && #[trigger] a.values@[k] == v {
            let k = choose|k: int| 0 <= k < n && #[trigger] a.values@[k] == v;
            assert(b.values@[k] == v);
        }
        if exists|k: int| 0 <= k < o.values@.len() && #[trigger] o.values@[k] == v {
            let k = choose|k: int| 0 <= k < o.values@.len() && #[trigger] o.values@[k] == v;
            assert(b.values@[n + k] == v);
        }
        if exists|k: int| 0 <= k < m && in_range(#[trigger] a.ranges@[k], v) {
            let k = choose|k: int| 0 <= k < m && in_range(#[trigger] a.ranges@[k], v);
            assert(in_range(b.ranges@[k], v));
        }
        if exists|k: int| 0 <= k < o.ranges@.len() && in_range(#[trigger] o.ranges@[k], v) {
            let k = choose|k: int| 0 <= k < o.ranges@.len() && in_range(#[trigger] o.ranges@[k], v);
            assert(in_range(b.ranges@[m + k], v));
        }
    }
    pub open spec fn joined(a: Seq<std::ops::Range<i128>>, o: Seq<std::ops::Range<i128>>, b: Seq<std::ops::Range<i128>>) -> bool {
        b.len() == a.len() + o.len()
        && (forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k])
        && (forall|k: int| a.len() <= k < b.len() ==> #[trigger] b[k] == o[k - a.len()])
    }
    pub broadcast proof fn lemma_one_value(b: ConstraintValues, v: int)
        requires b.values@.len() == 1, b.ranges@.len() == 0
        ensures #[trigger] holds(b, v) <==> v == b.values@[0]
    {
        if v == b.values@[0] { assert(b.values@[0] == v); }
    }
    pub broadcast proof fn lemma_one_range(b: ConstraintValues, v: int)
        requires b.values@.len() == 0, b.ranges@.len() == 1
        ensures #[trigger] holds(b, v) <==> in_range(b.ranges@[0], v)
    {
        if in_range(b.ranges@[0], v) { assert(in_range(b.ranges@[0], v)); }
    }

    // ---- sizes
    pub open spec fn is_size(e: Elements) -> bool { e is Subtype && e->Subtype_0 is SizeConstraint }
    pub open spec fn size_of(e: Elements) -> ElementSet { e->Subtype_0->SizeConstraint_0 }
    pub open spec fn has_size(i: IntersectionSet) -> bool { exists|k: int| 0 <= k < i.elements@.len() && is_size(#[trigger] i.elements@[k]) }
    pub open spec fn sized(c: Asn1Constraint) -> bool {
        match c {
            Asn1Constraint::Subtype(s) => exists|k: int| 0 <= k < s.root_elements.elements@.len() && has_size(#[trigger] s.root_elements.elements@[k]),
            _ => false,
        }
    }
    /// The sizes in the root that the first n elements of an intersection allow.
    pub open spec fn first_sizes(i: IntersectionSet, n: int, v: int, d: Defs) -> bool {
        forall|k: int| 0 <= k < n && is_size(#[trigger] i.elements@[k]) ==> set_allows(size_of(i.elements@[k]), v, d)
    }
    pub open spec fn sizes(i: IntersectionSet, v: int, d: Defs) -> bool { has_size(i) && first_sizes(i, i.elements@.len() as int, v, d) }
    pub open spec fn inner_mark(i: IntersectionSet, n: int) -> bool {
        exists|k: int| 0 <= k < n && is_size(#[trigger] i.elements@[k]) && size_of(i.elements@[k]).additional_elements is Some
    }
    pub open spec fn size_allows(c: Asn1Constraint, v: int, d: Defs) -> bool {
        c is Subtype && some_sizes(c->Subtype_0.root_elements, c->Subtype_0.root_elements.elements@.len() as int, v, d)
    }
    /// The extension marker stands inside or outside of `SIZE ( .. )`.
    pub open spec fn size_marked(c: Asn1Constraint) -> bool {
        c is Subtype && (c->Subtype_0.additional_elements is Some
            || some_mark(c->Subtype_0.root_elements, c->Subtype_0.root_elements.elements@.len() as int))
    }
    pub open spec fn first_size_allow(c: Seq<Asn1Constraint>, n: int, v: int, d: Defs) -> bool {
        forall|k: int| 0 <= k < n && sized(#[trigger] c[k]) ==> size_allows(c[k], v, d)
    }
    pub open spec fn some_sized(c: Seq<Asn1Constraint>, n: int) -> bool { exists|k: int| 0 <= k < n && sized(#[trigger] c[k]) }
    /// The last size constraint among the first n has an extension marker.
    pub open spec fn last_marked(c: Seq<Asn1Constraint>, n: int) -> bool
        decreases n
    {
        if n <= 0 { false } else if sized(c[n - 1]) { size_marked(c[n - 1]) } else { last_marked(c, n - 1) }
    }
    /// The sizes of a type: those that all its size constraints allow.
    pub open spec fn sizes_of(r: Option<Asn1ConstraintValueSet>, ty: Asn1Type, d: Defs) -> bool {
        let c = if ty.constraints is Some { ty.constraints->0@ } else { Seq::empty() };
        let n = c.len() as int;
        match r {
            None => !some_sized(c, n),
            Some(s) => some_sized(c, n) && set_wf(s)
                && (forall|v: int| #![trigger holds(s.root_values, v)] #![trigger first_size_allow(c, n, v, d)] holds(s.root_values, v) <==> first_size_allow(c, n, v, d))
                && (exists|v: int| #[trigger] holds(s.root_values, v))
                && (forall|v: int| #[trigger] holds(s.root_values, v) ==> v >= 0)
                && (s.additional_values is Some <==> last_marked(c, n)),
        }
    }
    /// The sizes of one constraint.
    pub open spec fn size_set(s: Asn1ConstraintValueSet, c: Asn1Constraint, d: Defs) -> bool {
        set_wf(s)
        && (forall|v: int| #![trigger holds(s.root_values, v)] #![trigger size_allows(c, v, d)] holds(s.root_values, v) <==> size_allows(c, v, d))
        && (exists|v: int| #[trigger] holds(s.root_values, v))
        && (forall|v: int| #[trigger] holds(s.root_values, v) ==> v >= 0)
        && (s.additional_values is Some <==> size_marked(c))
    }

    // ---- which sizes are read
    pub open spec fn plain_size(i: IntersectionSet, d: Defs) -> bool {
        has_size(i) && forall|k: int| 0 <= k < i.elements@.len() ==>
            (is_size(#[trigger] i.elements@[k]) && set_read(size_of(i.elements@[k]), d, true))
            || (i.elements@[k] is Subtype && i.elements@[k]->Subtype_0 is PermittedAlphabet)
    }
    pub open spec fn size_read(c: Asn1Constraint, d: Defs) -> bool {
        c is Subtype
        && (forall|k: int| 0 <= k < c->Subtype_0.root_elements.elements@.len() ==> plain_size(#[trigger] c->Subtype_0.root_elements.elements@[k], d))
        && (exists|v: int| #[trigger] size_allows(c, v, d))
        && (forall|v: int| #[trigger] size_allows(c, v, d) ==> v >= 0)
    }
    pub open spec fn type_size_read(ty: Asn1Type, d: Defs) -> bool {
        ty.constraints is Some ==> {
            let c = ty.constraints->0@;
            (forall|k: int| 0 <= k < c.len() && sized(#[trigger] c[k]) ==> size_read(c[k], d))
            && (exists|v: int| #[trigger] first_size_allow(c, c.len() as int, v, d))
        }
    }

    pub proof fn lemma_first_sizes(i: IntersectionSet, n: int, d: Defs)
        requires 0 <= n < i.elements@.len()
        ensures
            forall|v: int| #[trigger] first_sizes(i, n + 1, v, d) <==> first_sizes(i, n, v, d) && (is_size(i.elements@[n]) ==> set_allows(size_of(i.elements@[n]), v, d)),
            inner_mark(i, n + 1) <==> inner_mark(i, n) || (is_size(i.elements@[n]) && size_of(i.elements@[n]).additional_elements is Some),
    {
        if inner_mark(i, n) {
            let k = choose|k: int| 0 <= k < n && is_size(#[trigger] i.elements@[k]) && size_of(i.elements@[k]).additional_elements is Some;
            assert(is_size(i.elements@[k]));
        }
    }
    pub open spec fn some_sizes(u: UnionSet, n: int, v: int, d: Defs) -> bool { exists|k: int| 0 <= k < n && sizes(#[trigger] u.elements@[k], v, d) }
    pub open spec fn some_mark(u: UnionSet, n: int) -> bool {
        exists|k: int| 0 <= k < n && inner_mark(#[trigger] u.elements@[k], u.elements@[k].elements@.len() as int)
    }
    pub proof fn lemma_some_sizes(u: UnionSet, n: int, d: Defs)
        requires 0 <= n < u.elements@.len()
        ensures
            forall|v: int| #[trigger] some_sizes(u, n + 1, v, d) <==> some_sizes(u, n, v, d) || sizes(u.elements@[n], v, d),
            some_mark(u, n + 1) <==> some_mark(u, n) || inner_mark(u.elements@[n], u.elements@[n].elements@.len() as int),
    {
        assert forall|v: int| #[trigger] some_sizes(u, n + 1, v, d) <==> some_sizes(u, n, v, d) || sizes(u.elements@[n], v, d) by {
            if some_sizes(u, n, v, d) {
                let k = choose|k: int| 0 <= k < n && sizes(#[trigger] u.elements@[k], v, d);
                assert(sizes(u.elements@[k], v, d));
            }
        }
        if some_mark(u, n) {
            let k = choose|k: int| 0 <= k < n && inner_mark(#[trigger] u.elements@[k], u.elements@[k].elements@.len() as int);
            assert(inner_mark(u.elements@[k], u.elements@[k].elements@.len() as int));
        }
    }
    pub proof fn lemma_size_allow(c: Seq<Asn1Constraint>, n: int, d: Defs)
        requires 0 <= n < c.len()
        ensures
            forall|v: int| #[trigger] first_size_allow(c, n + 1, v, d) <==> first_size_allow(c, n, v, d) && (sized(c[n]) ==> size_allows(c[n], v, d)),
            some_sized(c, n + 1) <==> some_sized(c, n) || sized(c[n]),
    {
        if some_sized(c, n) {
            let k = choose|k: int| 0 <= k < n && sized(#[trigger] c[k]);
            assert(sized(c[k]));
        }
    }

    // ---- ENUMERATED
    pub open spec fn text_of(n: NamedValue) -> Seq<char> { match n { NamedValue::Number(s) => s@, NamedValue::ValueRef(s) => s@ } }
    pub open spec fn number_of(i: EnumValue, d: Defs) -> Option<int> {
        match i.value { Some(v) => value_of(text_of(v), d), None => None }
    }
    /// The numbers that the first n items are given.
    pub open spec fn givens(s: Seq<EnumValue>, n: int, d: Defs) -> Seq<int>
        decreases n
    {
        if n <= 0 { Seq::empty() }
        else if number_of(s[n - 1], d) is Some { givens(s, n - 1, d).push(number_of(s[n - 1], d)->0) }
        else { givens(s, n - 1, d) }
    }
    pub proof fn lemma_givens(s: Seq<EnumValue>, n: int, m: int, d: Defs)
        requires 0 <= n <= m
        ensures
            givens(s, n, d).len() <= givens(s, m, d).len(), givens(s, m, d).len() <= m,
            forall|k: int| #![trigger givens(s, m, d)[k]] #![trigger givens(s, n, d)[k]] 0 <= k < givens(s, n, d).len() ==> givens(s, m, d)[k] == givens(s, n, d)[k],
            n < m && number_of(s[n], d) is Some ==> givens(s, n, d).len() < givens(s, m, d).len() && givens(s, m, d)[givens(s, n, d).len() as int] == number_of(s[n], d)->0,
        decreases m
    {
        if n < m { lemma_givens(s, n, m - 1, d); }
        else if n > 0 { lemma_givens(s, n - 1, n - 1, d); }
    }
    pub proof fn lemma_same(a: Seq<i128>, g: Seq<int>)
        requires a.len() == g.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == g[k]
        ensures forall|x: i128| #![trigger a.contains(x)] #![trigger g.contains(x as int)] a.contains(x) <==> g.contains(x as int)
    {
        assert forall|x: i128| #![trigger a.contains(x)] #![trigger g.contains(x as int)] a.contains(x) <==> g.contains(x as int) by {
            if g.contains(x as int) { let k = choose|k: int| 0 <= k < g.len() && g[k] == x as int; assert(a[k] == x); }
            if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(g[k] == x as int); }
        }
    }
    pub proof fn lemma_taken(s: Seq<EnumValue>, r: Seq<i128>, g: Seq<int>, n: int)
        requires r.len() == n
        ensures
            forall|x: i128, m: int| taken(s, r, g, n, m) ==> #[trigger] taken(s, r.push(x), g, n + 1, m),
            s[n].value is None ==> forall|x: i128, m: int| x == m ==> #[trigger] taken(s, r.push(x), g, n + 1, m),
    {
        assert forall|x: i128, m: int| taken(s, r, g, n, m) implies #[trigger] taken(s, r.push(x), g, n + 1, m) by {
            if !g.contains(m) {
                let j = choose|j: int| 0 <= j < n && #[trigger] r[j] == m && s[j].value is None;
                assert(r.push(x)[j] == m);
            }
        }
        assert forall|x: i128, m: int| x == m && s[n].value is None implies #[trigger] taken(s, r.push(x), g, n + 1, m) by {
            assert(r.push(x)[n] == m);
        }
    }
    /// There are more numbers than items.
    pub proof fn lemma_some_left(s: Seq<EnumValue>, r: Seq<i128>, g: Seq<int>, n: int)
        requires
            r.len() == n, n <= usize::MAX, g.len() <= usize::MAX,
            forall|m: int| 0 <= m < i128::MAX ==> #[trigger] taken(s, r, g, n, m),
        ensures false
    {
        let t = r.map_values(|x: i128| x as int);
        let (a, b) = (g.to_set(), t.to_set());
        let all = vstd::set_lib::set_int_range(0, i128::MAX as int);
        vstd::set_lib::lemma_int_range(0, i128::MAX as int);
        g.lemma_cardinality_of_set();
        t.lemma_cardinality_of_set();
        vstd::set_lib::lemma_len_union(a, b);
        assert forall|m: int| all.contains(m) implies a.union(b).contains(m) by {
            assert(taken(s, r, g, n, m));
            if g.contains(m) { assert(a.contains(m)); }
            else {
                let j = choose|j: int| 0 <= j < n && #[trigger] r[j] == m && s[j].value is None;
                assert(t[j] == m);
                assert(b.contains(m));
            }
        }
        vstd::set_lib::lemma_len_subset(all, a.union(b));
    }
    /// Which numbers the items have: those given; for the others, in order, the smallest that are left.
    pub open spec fn numbering(s: Seq<EnumValue>, r: Seq<i128>, d: Defs) -> bool {
        let g = givens(s, s.len() as int, d);
        r.len() == s.len()
        && (forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).value is Some ==> number_of(s[i], d) == Some(r[i] as int))
        && (forall|i: int, j: int| 0 <= i < j < g.len() ==> #[trigger] g[i] != #[trigger] g[j])
        && (forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).value is None ==> 0 <= r[i] && !g.contains(r[i] as int))
        && (forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).value is None && (#[trigger] s[j]).value is None ==> r[i] < r[j])
        && (forall|i: int, m: int| 0 <= i < s.len() && (#[trigger] s[i]).value is None && 0 <= m < r[i] ==> #[trigger] taken(s, r, g, s.len() as int, m))
    }
    pub open spec fn taken(s: Seq<EnumValue>, r: Seq<i128>, g: Seq<int>, n: int, m: int) -> bool {
        g.contains(m) || exists|j: int| 0 <= j < n && #[trigger] r[j] == m && s[j].value is None
    }
    pub open spec fn nth(r: Seq<i128>, i: int) -> int { r[i] as int }
    pub open spec fn count_less(r: Seq<i128>, n: int, x: int) -> int
        decreases n
    {
        if n <= 0 { 0 } else { count_less(r, n - 1, x) + if r[n - 1] < x { 1int } else { 0 } }
    }
    pub proof fn lemma_count_less(r: Seq<i128>, n: int, i: int)
        requires 0 <= n <= r.len(), 0 <= i < r.len()
        ensures 0 <= count_less(r, n, r[i] as int) <= n, i < n ==> count_less(r, n, r[i] as int) < n
        decreases n
    {
        if n > 0 { lemma_count_less(r, n - 1, i); }
    }
    pub proof fn lemma_ranks(r: Seq<i128>)
        ensures forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] count_less(r, r.len() as int, r[i] as int) < r.len()
    {
        assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] count_less(r, r.len() as int, r[i] as int) < r.len() by { lemma_count_less(r, r.len() as int, i); }
    }
    /// Names with the ranks of their numbers.
    pub open spec fn ranked(s: Seq<EnumValue>, names: Seq<(String, i128)>, n: int, r: Seq<i128>) -> bool {
        names.len() == n
        && forall|i: int| 0 <= i < n ==> (#[trigger] names[i]).0@ == s[i].name@ && names[i].1 == count_less(r, r.len() as int, r[i] as int)
    }
    pub open spec fn counted(s: Seq<EnumValue>, names: Seq<(String, i128)>, n: int) -> bool {
        names.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] names[i]).0@ == s[i].name@ && names[i].1 == i
    }
    pub open spec fn enum_read(s: Seq<EnumValue>, d: Defs) -> bool {
        let g = givens(s, s.len() as int, d);
        (forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).value is Some ==> number_of(s[i], d) is Some)
        && (forall|i: int, j: int| 0 <= i < j < g.len() ==> #[trigger] g[i] != #[trigger] g[j])
    }

    // ---- BIT STRING
    /// The named bits are the numbers they are given.
    pub open spec fn bits_of(m: Map<Seq<char>, u8>, b: Seq<(String, NamedValue)>, n: int) -> bool {
        (forall|i: int| 0 <= i < n && (#[trigger] b[i]).1 is Number ==> m.dom().contains(b[i].0@))
        && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> bit_from(b, n, k, m[k]))
    }
    pub open spec fn bit_from(b: Seq<(String, NamedValue)>, n: int, k: Seq<char>, x: u8) -> bool {
        exists|i: int| 0 <= i < n && (#[trigger] b[i]).1 is Number && b[i].0@ == k && int_text(b[i].1->Number_0@) == Some(x as int)
    }
    pub open spec fn bits_read(b: Seq<(String, NamedValue)>) -> bool {
        forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 is Number ==> nat_text(b[i].1->Number_0@) && int_text(b[i].1->Number_0@)->0 <= u8::MAX
    }

    // ---- INTEGER
    pub open spec fn width_lo(bits: u8, signed: bool) -> int {
        if !signed { 0 } else if bits == 8 { -0x80 } else if bits == 16 { -0x8000 } else if bits == 32 { -0x8000_0000 } else { -0x8000_0000_0000_0000 }
    }
    pub open spec fn width_hi(bits: u8, signed: bool) -> int {
        if signed {
            if bits == 8 { 0x7f } else if bits == 16 { 0x7fff } else if bits == 32 { 0x7fff_ffff } else { 0x7fff_ffff_ffff_ffff }
        } else {
            if bits == 8 { 0xff } else if bits == 16 { 0xffff } else if bits == 32 { 0xffff_ffff } else { 0xffff_ffff_ffff_ffff }
        }
    }
    pub open spec fn width_ok(bits: u8) -> bool { bits == 8 || bits == 16 || bits == 32 || bits == 64 }
    pub open spec fn in_width(bits: u8, signed: bool, v: int) -> bool { width_lo(bits, signed) <= v <= width_hi(bits, signed) }
    pub open spec fn constrained(ty: Asn1Type) -> bool { ty.constraints is Some && ty.constraints->0@.len() > 0 }
    /// A value that an INTEGER type may have.
    pub open spec fn may_be(ty: Asn1Type, v: int, d: Defs) -> bool { type_allows(ty, v, d) || type_adds(ty, v, d) }
    pub open spec fn value_set_of(s: Asn1ConstraintValueSet, ty: Asn1Type, d: Defs) -> bool {
        set_wf(s)
        && (forall|v: int| #![trigger holds(s.root_values, v)] #![trigger type_allows(ty, v, d)] holds(s.root_values, v) <==> type_allows(ty, v, d))
        && (s.additional_values is Some <==> marked(ty.constraints->0@.last()))
        && (forall|v: int| #![trigger holds_added(s, v)] #![trigger holds(s.additional_values->0, v)] #![trigger type_adds(ty, v, d)] holds_added(s, v) <==> type_adds(ty, v, d))
    }

    // ---- what a resolved type has to be
    pub open spec fn integer_ok(ty: Asn1Type, r: Asn1ResolvedInteger, d: Defs) -> bool {
        if constrained(ty) {
            r.resolved_constraints is Some && value_set_of(r.resolved_constraints->0, ty, d)
        } else {
            r.bits == 64 && r.signed && r.resolved_constraints is None
        }
    }
    pub open spec fn all_within(ty: Asn1Type, a: int, b: int, d: Defs) -> bool {
        forall|v: int| #![trigger type_allows(ty, v, d)] #![trigger type_adds(ty, v, d)] type_allows(ty, v, d) || type_adds(ty, v, d) ==> a <= v <= b
    }
    pub open spec fn integer_known(ty: Asn1Type, d: Defs) -> bool {
        constrained(ty) ==> type_read(ty, d, true) && (exists|v: int| #[trigger] type_allows(ty, v, d))
            && (all_within(ty, 0, u64::MAX as int, d) || all_within(ty, i64::MIN as int, i64::MAX as int, d))
    }
    pub open spec fn enumerated_ok(e: Asn1TypeEnumerated, r: Asn1ResolvedEnumerated, d: Defs) -> bool {
        r.extensible == (e.ext_marker_index is Some) && !r.signed
        && (exists|n: Seq<i128>| #[trigger] numbering(e.root_values@, n, d) && ranked(e.root_values@, r.named_root_values@, e.root_values@.len() as int, n))
        && counted(e.ext_values@, r.named_ext_values@, e.ext_values@.len() as int)
    }
    pub open spec fn enumerated_known(e: Asn1TypeEnumerated, d: Defs) -> bool { enum_read(e.root_values@, d) && enum_read(e.ext_values@, d) }
    pub open spec fn bits_ok(ty: Asn1Type, b: Asn1TypeBitString, r: Asn1ResolvedBitString, d: Defs) -> bool {
        sizes_of(r.size, ty, d)
        && (match b.named_bits { Some(n) => bits_of(hash_map(&r.named_values), n@, n@.len() as int), None => hash_map(&r.named_values) =~= Map::empty() })
    }
    pub open spec fn bits_known(ty: Asn1Type, b: Asn1TypeBitString, d: Defs) -> bool {
        type_size_read(ty, d) && (b.named_bits is Some ==> bits_read(b.named_bits->0@))
    }
    pub open spec fn chars_known(ty: Asn1Type, d: Defs) -> bool { type_size_read(ty, d) && (constrained(ty) ==> sized(ty.constraints->0@[0])) }

    pub open spec fn base_ok(ty: Asn1Type, k: Asn1BuiltinType, r: ResolvedBaseType, d: Defs) -> bool {
        match (k, r) {
            (Asn1BuiltinType::Integer(_), ResolvedBaseType::Integer(x)) => integer_ok(ty, x, d),
            (Asn1BuiltinType::Enumerated(e), ResolvedBaseType::Enum(x)) => enumerated_ok(e, x, d),
            (Asn1BuiltinType::BitString(b), ResolvedBaseType::BitString(x)) => bits_ok(ty, b, x, d),
            (Asn1BuiltinType::OctetString, ResolvedBaseType::OctetString(x)) => sizes_of(x.size, ty, d),
            (Asn1BuiltinType::CharacterString { str_type }, ResolvedBaseType::CharacterString(x)) => x.str_type@ == str_type@ && sizes_of(x.size, ty, d),
            (Asn1BuiltinType::Boolean, ResolvedBaseType::Boolean(_)) => true,
            (Asn1BuiltinType::ObjectIdentifier, ResolvedBaseType::ObjectIdentifier(_)) => true,
            (Asn1BuiltinType::Null, ResolvedBaseType::Null(_)) => true,
            _ => false,
        }
    }
    pub open spec fn base_known(ty: Asn1Type, k: Asn1BuiltinType, d: Defs) -> bool {
        match k {
            Asn1BuiltinType::Integer(_) => integer_known(ty, d),
            Asn1BuiltinType::Enumerated(e) => enumerated_known(e, d),
            Asn1BuiltinType::BitString(b) => bits_known(ty, b, d),
            Asn1BuiltinType::OctetString => type_size_read(ty, d),
            Asn1BuiltinType::CharacterString { .. } => chars_known(ty, d),
            Asn1BuiltinType::Boolean => true,
            Asn1BuiltinType::ObjectIdentifier => true,
            Asn1BuiltinType::Null => true,
            Asn1BuiltinType::RelativeOid => false,
        }
    }

    /// What the resolver knows: definitions resolved before, parameterized ones.
    pub struct Known { pub d: Defs, pub p: Map<Seq<char>, Asn1Definition> }
    pub open spec fn known_of(r: Resolver) -> Known { Known { d: tree_map(&r.resolved_defs), p: hash_map(&r.parameterized_defs) } }
    /// The type that a parameterized definition with actual parameters stands for, if it can be told.
    pub uninterp spec fn expansion(def: Asn1Definition, params: Seq<ActualParam>) -> Option<Asn1Type>;
    pub open spec fn expanded(typeref: Seq<char>, params: Seq<ActualParam>, w: Known) -> Option<Asn1Type> {
        if w.p.dom().contains(typeref) { expansion(w.p[typeref], params) } else { None }
    }
    pub open spec fn is_type(d: Defs, s: Seq<char>) -> bool { d.dom().contains(s) && d[s] is Type }
    pub open spec fn deeper(depth: int) -> bool { depth < MAX_DEPTH as int }

    /// `r` is what type `ty` has to resolve to. `depth`: inside of how many parameterized definitions.
    pub open spec fn mirrors(ty: Asn1Type, r: Asn1ResolvedType, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, ty
    {
        match ty.kind {
            Asn1TypeKind::Builtin(k) => r is Base && base_ok(ty, k, r->Base_0, w.d),
            Asn1TypeKind::Constructed(Asn1ConstructedType::Choice(c)) => choice_mirrors(c, r, w, depth),
            Asn1TypeKind::Constructed(Asn1ConstructedType::Sequence(c)) => sequence_mirrors(c, r, w, depth),
            Asn1TypeKind::Constructed(Asn1ConstructedType::SequenceOf(c)) => sequence_of_mirrors(c, r, w, depth),
            Asn1TypeKind::Constructed(_) => false,
            Asn1TypeKind::Reference(Asn1TypeReference::Reference(s)) => is_type(w.d, s@) && r is Reference && r->Reference_0@ == s@,
            Asn1TypeKind::Reference(Asn1TypeReference::Parameterized { typeref, params }) => deeper(depth)
                && (match expanded(typeref@, params@, w) { Some(t) => mirrors(t, r, w, depth + 1), None => false }),
            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) => false,
        }
    }
    pub open spec fn component_mirrors(c: Component, r: ResolvedComponent, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        r.id@ == c.id@ && mirrors(c.ty, r.ty, w, depth)
    }
    pub open spec fn choice_mirrors(c: Asn1TypeChoice, r: Asn1ResolvedType, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        match r {
            Asn1ResolvedType::Constructed(ResolvedConstructedType::Choice { name: _, root_components, additions }) =>
                root_components@.len() == c.root_components@.len()
                && !(exists|k: int| 0 <= k < c.root_components@.len() && !component_mirrors(#[trigger] c.root_components@[k], root_components@[k], w, depth))
                && (match c.additions {
                    Some(g) => additions is Some && additions->0@.len() == before(g@, g@.len() as int)
                        && !(exists|i: int| 0 <= i < g@.len() && !group_mirrors(#[trigger] g@[i], additions->0@, before(g@, i), w, depth)),
                    None => additions is None,
                }),
            _ => false,
        }
    }
    /// The alternatives in the groups before the i-th.
    pub open spec fn before(g: Seq<ChoiceAdditionGroup>, i: int) -> int
        decreases i
    {
        if i <= 0 { 0 } else { before(g, i - 1) + g[i - 1].components@.len() }
    }
    /// The alternatives of a group stand at position `at` of `r`.
    pub open spec fn group_mirrors(g: ChoiceAdditionGroup, r: Seq<ResolvedComponent>, at: int, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, g
    {
        !(exists|k: int| 0 <= k < g.components@.len() && !component_mirrors(#[trigger] g.components@[k], r[at + k], w, depth))
    }
    pub open spec fn seq_component_mirrors(c: SeqComponent, r: ResolvedSeqComponent, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        component_mirrors(c.component, r.component, w, depth) && r.optional == (c.optional || c._default is Some)
        && r.class_field_type is None && !r.key_field
    }
    pub open spec fn sequence_mirrors(c: Asn1TypeSequence, r: Asn1ResolvedType, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        match r {
            Asn1ResolvedType::Constructed(ResolvedConstructedType::Sequence { name: _, extensible, components }) =>
                extensible == c.extensible
                && ((tabled(c, components@, w.d) && (exists|k: int| 0 <= k < c.root_components@.len() && !seq_component_known(#[trigger] c.root_components@[k], w, depth)))
                || (components@.len() == c.root_components@.len()
                    && !(exists|k: int| 0 <= k < c.root_components@.len() && !seq_component_mirrors(#[trigger] c.root_components@[k], components@[k], w, depth)))),
            _ => false,
        }
    }
    pub open spec fn sequence_of_mirrors(c: Asn1TypeSequenceOf, r: Asn1ResolvedType, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        match r {
            Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf { name: _, ty, size_values }) =>
                mirrors(*c.ty, *ty, w, depth)
                && (match c.size { Some(s) => size_values is Some && size_set(size_values->0, s, w.d), None => size_values is None }),
            _ => false,
        }
    }
    /// The first component has a constraint that names a set of information objects: the components are what those say.
    pub open spec fn tabled(c: Asn1TypeSequence, r: Seq<ResolvedSeqComponent>, d: Defs) -> bool {
        all_components(c).len() > 0 && constrained(all_components(c)[0].component.ty)
        && (forall|k: int| 0 <= k < all_components(c).len() ==> class_field(#[trigger] all_components(c)[k]))
        && exists|s: Seq<char>| #[trigger] d.dom().contains(s) && d[s] is ObjectSet && names_set(all_components(c)[0].component.ty.constraints->0@[0], s)
            && components_tabled(all_components(c), d[s]->ObjectSet_0.objects, s, r)
    }
    pub open spec fn all_components(c: Asn1TypeSequence) -> Seq<SeqComponent> { c.root_components@ + added_components(c.additions@, c.additions@.len() as int) }
    pub open spec fn added_components(a: Seq<SeqAdditionGroup>, n: int) -> Seq<SeqComponent>
        decreases n
    {
        if n <= 0 { Seq::empty() } else { added_components(a, n - 1) + a[n - 1].components@ }
    }
    /// The text of the one value in a constraint.
    pub open spec fn value_text(c: Asn1Constraint) -> Option<Seq<char>> {
        match c {
            Asn1Constraint::Table(TableConstraint::Simple(ObjectSet::DefinedObjectSet(t))) => Some(t@),
            Asn1Constraint::Subtype(e) => {
                let u = e.root_elements.elements@;
                if u.len() == 1 && u[0].elements@.len() == 1 && u[0].elements@[0] is Subtype && u[0].elements@[0]->Subtype_0 is SingleValue {
                    Some(u[0].elements@[0]->Subtype_0->SingleValue_value@)
                } else { None }
            },
            _ => None,
        }
    }
    pub open spec fn names_set(c: Asn1Constraint, s: Seq<char>) -> bool {
        match c {
            Asn1Constraint::Table(TableConstraint::ComponentRelation { table, .. }) => s == bare(table@),
            _ => value_text(c) is Some && s == bare(value_text(c)->0),
        }
    }

    /// A type that certainly resolves.
    pub open spec fn known(ty: Asn1Type, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, ty
    {
        match ty.kind {
            Asn1TypeKind::Builtin(k) => base_known(ty, k, w.d),
            Asn1TypeKind::Constructed(Asn1ConstructedType::Choice(c)) => choice_known(c, w, depth),
            Asn1TypeKind::Constructed(Asn1ConstructedType::Sequence(c)) => sequence_known(c, w, depth),
            Asn1TypeKind::Constructed(Asn1ConstructedType::SequenceOf(c)) => sequence_of_known(c, w, depth),
            Asn1TypeKind::Constructed(_) => false,
            Asn1TypeKind::Reference(Asn1TypeReference::Reference(s)) => is_type(w.d, s@),
            Asn1TypeKind::Reference(Asn1TypeReference::Parameterized { typeref, params }) => deeper(depth)
                && (match expanded(typeref@, params@, w) { Some(t) => known(t, w, depth + 1), None => false }),
            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) => false,
        }
    }
    pub open spec fn component_known(c: Component, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        known(c.ty, w, depth)
    }
    pub open spec fn group_known(g: ChoiceAdditionGroup, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, g
    {
        !(exists|k: int| 0 <= k < g.components@.len() && !component_known(#[trigger] g.components@[k], w, depth))
    }
    pub open spec fn choice_known(c: Asn1TypeChoice, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        !(exists|k: int| 0 <= k < c.root_components@.len() && !component_known(#[trigger] c.root_components@[k], w, depth))
        && (match c.additions {
            Some(g) => !(exists|i: int| 0 <= i < g@.len() && !group_known(#[trigger] g@[i], w, depth)),
            None => true,
        })
    }
    pub open spec fn seq_component_known(c: SeqComponent, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        component_known(c.component, w, depth)
    }
    pub open spec fn sequence_known(c: Asn1TypeSequence, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        !(exists|k: int| 0 <= k < c.root_components@.len() && !seq_component_known(#[trigger] c.root_components@[k], w, depth))
    }
    pub open spec fn sequence_of_known(c: Asn1TypeSequenceOf, w: Known, depth: int) -> bool
        decreases MAX_DEPTH as int - depth, c
    {
        known(*c.ty, w, depth) && (match c.size { Some(s) => size_read(s, w.d), None => true })
    }

    // ---- values
    /// `r` is what the value written `s` of type `t` has to resolve to. (Which number stands for an item of an ENUMERATED is left open.)
    pub open spec fn value_mirrors(s: Seq<char>, t: Asn1ResolvedType, r: Asn1ResolvedValue, d: Defs) -> bool
        decreases r
    {
        if d.dom().contains(s) {
            d[s] is Value && r is Reference && r->Reference_0@ == s
        } else {
            match t {
                Asn1ResolvedType::Base(ResolvedBaseType::Integer(_)) => r is Base && r->Base_0 is Integer
                    && int_text(s) == Some(r->Base_0->Integer_0.value as int) && r->Base_0->Integer_0.typeref == t,
                Asn1ResolvedType::Base(ResolvedBaseType::Enum(_)) => r is Base && r->Base_0 is Enum && r->Base_0->Enum_0.typeref == t,
                Asn1ResolvedType::Reference(n) => is_type(d, n@)
                    && (match r { Asn1ResolvedValue::ReferencedType { typeref, value } => typeref@ == n@ && value_mirrors(s, d[n@]->Type_0, *value, d), _ => false }),
                _ => false,
            }
        }
    }
    /// A value that certainly resolves, through `n` type references.
    pub open spec fn value_known(s: Seq<char>, t: Asn1ResolvedType, d: Defs, n: nat) -> bool
        decreases n
    {
        if d.dom().contains(s) { d[s] is Value } else {
            match t {
                Asn1ResolvedType::Base(ResolvedBaseType::Integer(_)) => fits(int_text(s)),
                Asn1ResolvedType::Reference(r) => n > 0 && is_type(d, r@) && value_known(s, d[r@]->Type_0, d, (n - 1) as nat),
                _ => false,
            }
        }
    }
    // ---- information objects
    pub type Fields = Map<Seq<char>, ResolvedFieldSpec>;
    pub open spec fn field_mirrors(f: parsed::Asn1ObjectFieldSpec, r: ResolvedFieldSpec, w: Known, depth: int) -> bool {
        match (f, r) {
            (parsed::Asn1ObjectFieldSpec::Type { ty: a }, ResolvedFieldSpec::Type { ty: b }) =>
                (a is Some <==> b is Some) && (a is Some ==> mirrors(a->0, b->0, w, depth)),
            (parsed::Asn1ObjectFieldSpec::FixedTypeValue { typeref: a, value: v }, ResolvedFieldSpec::FixedTypeValue { typeref: b, value: x }) =>
                mirrors(a, b, w, depth) && (v is Some <==> x is Some) && (v is Some ==> value_mirrors(v->0@, b, x->0, w.d)),
            _ => false,
        }
    }
    pub open spec fn object_mirrors(o: parsed::Asn1ObjectValue, r: Fields, w: Known, depth: int) -> bool {
        match o {
            parsed::Asn1ObjectValue::Asn1ObjectFromClass { fields } => r.dom() =~= hash_map(&fields).dom()
                && forall|k: Seq<char>| #[trigger] hash_map(&fields).dom().contains(k) ==> field_mirrors(hash_map(&fields)[k], r[k], w, depth),
            _ => false,
        }
    }
    pub open spec fn field_known(f: parsed::Asn1ObjectFieldSpec, w: Known, depth: int) -> bool {
        match f {
            parsed::Asn1ObjectFieldSpec::Type { ty } => ty is Some ==> known(ty->0, w, depth),
            parsed::Asn1ObjectFieldSpec::FixedTypeValue { typeref, value } => known(typeref, w, depth)
                && (value is Some ==> forall|t: Asn1ResolvedType| #[trigger] mirrors(typeref, t, w, depth) ==> exists|n: nat| value_known(value->0@, t, w.d, n)),
        }
    }
    pub open spec fn object_known(o: parsed::Asn1ObjectValue, w: Known, depth: int) -> bool {
        match o {
            parsed::Asn1ObjectValue::Asn1ObjectFromClass { fields } =>
                forall|k: Seq<char>| #[trigger] hash_map(&fields).dom().contains(k) ==> field_known(hash_map(&fields)[k], w, depth),
            _ => false,
        }
    }

    // ---- the unique field
    pub type Classes = Map<Seq<char>, Asn1Definition>;
    pub open spec fn classes_of(r: Resolver) -> Classes { hash_map(&r.classes) }
    pub open spec fn only_classes(c: Classes) -> bool { forall|k: Seq<char>| #[trigger] c.dom().contains(k) ==> c[k].kind is Class }
    pub open spec fn is_unique(f: parsed::ObjectClassFieldSpec) -> bool {
        match f { parsed::ObjectClassFieldSpec::FixedTypeValue { unique, .. } => unique, _ => false }
    }
    /// `u`: the name of a unique field of the class, or empty if it has none.
    pub open spec fn unique_of(c: parsed::Asn1ObjectClass, u: Seq<char>) -> bool {
        (hash_map(&c.fields).dom().contains(u) && is_unique(hash_map(&c.fields)[u]))
        || (u.len() == 0 && forall|k: Seq<char>| #[trigger] hash_map(&c.fields).dom().contains(k) ==> !is_unique(hash_map(&c.fields)[k]))
    }
    pub open spec fn fields_in(e: ResolvedObjectSetElement) -> Fields { hash_map(&e->Object_0.fields) }
    /// The name of the value that a field has.
    pub open spec fn key_name(f: Fields, u: Seq<char>, d: Defs) -> Option<Seq<char>> {
        if f.dom().contains(u) {
            match f[u] {
                ResolvedFieldSpec::FixedTypeValue { typeref: _, value: Some(Asn1ResolvedValue::Reference(s)) } =>
                    if d.dom().contains(s@) && d[s@] is Value { Some(s@) } else { None },
                _ => None,
            }
        } else { None }
    }
    /// Value and name of the value that the unique field has.
    #[verifier::opaque]
    pub open spec fn key_in(f: Fields, u: Seq<char>, d: Defs) -> Option<(Seq<char>, Seq<char>)> {
        match key_name(f, u, d) {
            Some(s) => match value_of(s, d) { Some(v) => Some((shown(v), s)), None => None },
            None => None,
        }
    }
    /// The unique field has a value, an INTEGER if it is named.
    #[verifier::opaque]
    pub open spec fn key_fits(f: Fields, u: Seq<char>, d: Defs) -> bool {
        f.dom().contains(u)
        && (f[u] is FixedTypeValue ==> f[u]->value is Some)
        && (key_name(f, u, d) is Some ==> value_of(key_name(f, u, d)->0, d) is Some)
    }
    pub open spec fn key_of(e: ResolvedObjectSetElement, u: Seq<char>, d: Defs) -> Option<(Seq<char>, Seq<char>)> {
        if e is Object { key_in(fields_in(e), u, d) } else { None }
    }
    pub open spec fn key_ok(e: ResolvedObjectSetElement, u: Seq<char>, d: Defs) -> bool { e is Object ==> key_fits(fields_in(e), u, d) }
    pub open spec fn given_key(r: Option<(Asn1ResolvedType, Option<(String, String)>)>) -> Option<(Seq<char>, Seq<char>)> {
        match r { Some((_, Some(k))) => Some(pair(k)), _ => None }
    }

    // ---- sets of objects
    pub open spec fn set_in(r: Seq<char>, d: Defs) -> ResolvedObjectSet { d[r]->ObjectSet_0.objects }
    /// How many objects an element of a set stands for.
    pub open spec fn many(e: parsed::ObjectSetElement, d: Defs) -> int {
        match e { parsed::ObjectSetElement::ObjectSetReference(r) => set_in(r@, d).elements@.len() as int, _ => 1 }
    }
    /// The position of the objects of the n-th element.
    pub open spec fn at(e: Seq<parsed::ObjectSetElement>, n: int, d: Defs) -> int
        decreases n
    {
        if n <= 0 { 0 } else { at(e, n - 1, d) + many(e[n - 1], d) }
    }
    pub open spec fn element_stands(e: parsed::ObjectSetElement, i: int, name: Seq<char>, r: Seq<ResolvedObjectSetElement>, p: int, w: Known, depth: int) -> bool {
        p + many(e, w.d) <= r.len() && (match e {
            parsed::ObjectSetElement::ObjectSetReference(s) => w.d.dom().contains(s@) && w.d[s@] is ObjectSet
                && forall|j: int| 0 <= j < many(e, w.d) ==> r[p + j] == #[trigger] set_in(s@, w.d).elements@[j],
            parsed::ObjectSetElement::ObjectReference(s) => w.d.dom().contains(s@) && w.d[s@] is Object
                && r[p] is Object && r[p]->Object_0.name@ == s@ && fields_in(r[p]) == hash_map(&w.d[s@]->Object_0.fields),
            parsed::ObjectSetElement::Object(v) => r[p] is Object && object_mirrors(v, fields_in(r[p]), w, depth),
        })
    }
    pub open spec fn table(e: Seq<parsed::ObjectSetElement>, n: int, r: Seq<ResolvedObjectSetElement>, u: Seq<char>, d: Defs) -> Pairs<ResolvedObjectSetElement>
        decreases n
    {
        if n <= 0 { Map::empty() } else {
            table_next(e[n - 1], table(e, n - 1, r, u, d), r[at(e, n - 1, d)], u, d)
        }
    }
    pub open spec fn table_next(e: parsed::ObjectSetElement, t: Pairs<ResolvedObjectSetElement>, x: ResolvedObjectSetElement, u: Seq<char>, d: Defs) -> Pairs<ResolvedObjectSetElement> {
        match e {
            parsed::ObjectSetElement::ObjectSetReference(s) => t.union_prefer_right(hash_pairs(&set_in(s@, d).lookup_table)),
            _ => if u.len() > 0 && key_of(x, u, d) is Some { t.insert(key_of(x, u, d)->0, x) } else { t },
        }
    }
    pub open spec fn class_in(c: Classes, s: Seq<char>) -> parsed::Asn1ObjectClass { c[s].kind->Class_0.classref }
    pub open spec fn all_objects(o: parsed::Asn1ObjectSet) -> Seq<parsed::ObjectSetElement> { o.objects.root_elements@ + o.objects.additional_elements@ }
    /// The objects of a set in order, those of sets it refers to in their place; the table has those whose unique field is a named value.
    pub open spec fn object_set_mirrors(o: parsed::Asn1ObjectSet, name: Seq<char>, r: ResolvedObjectSet, c: Classes, w: Known, depth: int) -> bool {
        let e = all_objects(o);
        c.dom().contains(o.class@)
        && placed(e, e.len() as int, name, r.elements@, w, depth)
        && (exists|u: Seq<char>| #[trigger] unique_of(class_in(c, o.class@), u) && hash_pairs(&r.lookup_table) == table(e, e.len() as int, r.elements@, u, w.d))
    }
    pub open spec fn element_known(e: parsed::ObjectSetElement, u: Seq<char>, w: Known, depth: int) -> bool {
        match e {
            parsed::ObjectSetElement::ObjectSetReference(s) => w.d.dom().contains(s@) && w.d[s@] is ObjectSet,
            parsed::ObjectSetElement::ObjectReference(s) => w.d.dom().contains(s@) && w.d[s@] is Object
                && (u.len() > 0 ==> key_fits(hash_map(&w.d[s@]->Object_0.fields), u, w.d)),
            parsed::ObjectSetElement::Object(v) => object_known(v, w, depth)
                && (u.len() > 0 ==> forall|x: Fields| #[trigger] object_mirrors(v, x, w, depth) ==> key_fits(x, u, w.d)),
        }
    }
    pub open spec fn object_set_known(o: parsed::Asn1ObjectSet, c: Classes, w: Known, depth: int) -> bool {
        c.dom().contains(o.class@)
        && forall|u: Seq<char>, i: int| 0 <= i < all_objects(o).len() && #[trigger] unique_of(class_in(c, o.class@), u)
            ==> element_known(#[trigger] all_objects(o)[i], u, w, depth)
    }
    pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
    pub open spec fn placed(e: Seq<parsed::ObjectSetElement>, n: int, name: Seq<char>, r: Seq<ResolvedObjectSetElement>, w: Known, depth: int) -> bool {
        r.len() == at(e, n, w.d)
        && (forall|i: int| 0 <= i < n ==> element_stands(#[trigger] e[i], i, name, r, at(e, i, w.d), w, depth))
    }
    pub proof fn lemma_at(e: Seq<parsed::ObjectSetElement>, n: int, m: int, d: Defs)
        requires n <= m
        ensures 0 <= at(e, n, d) <= at(e, m, d)
        decreases m
    {
        if m > 0 { lemma_at(e, if n <= m - 1 { n } else { m - 1 }, m - 1, d); }
    }
    pub proof fn lemma_table(e: Seq<parsed::ObjectSetElement>, n: int, a: Seq<ResolvedObjectSetElement>, b: Seq<ResolvedObjectSetElement>, u: Seq<char>, d: Defs)
        requires 0 <= n <= e.len(), at(e, n, d) <= a.len(), prefix(a, b)
        ensures table(e, n, a, u, d) == table(e, n, b, u, d)
        decreases n
    {
        if n > 0 {
            lemma_at(e, n - 1, n, d);
            lemma_table(e, n - 1, a, b, u, d);
        }
    }
    pub proof fn lemma_stands(e: parsed::ObjectSetElement, i: int, name: Seq<char>, a: Seq<ResolvedObjectSetElement>, b: Seq<ResolvedObjectSetElement>, p: int, w: Known, depth: int)
        requires element_stands(e, i, name, a, p, w, depth), prefix(a, b), 0 <= p
        ensures element_stands(e, i, name, b, p, w, depth)
    {
        match e {
            parsed::ObjectSetElement::ObjectSetReference(s) => {
                assert forall|j: int| 0 <= j < many(e, w.d) implies b[p + j] == #[trigger] set_in(s@, w.d).elements@[j] by { assert(b[p + j] == a[p + j]); }
            },
            _ => { assert(b[p] == a[p]); },
        }
    }
    /// The n-th element is dealt with.
    pub proof fn lemma_next(e: Seq<parsed::ObjectSetElement>, n: int, name: Seq<char>, a: Seq<ResolvedObjectSetElement>, u: Seq<char>, w: Known, depth: int)
        requires 0 <= n < e.len(), placed(e, n, name, a, w, depth)
        ensures
            forall|b: Seq<ResolvedObjectSetElement>, m: int| m == n + 1 && prefix(a, b) && b.len() == a.len() + many(e[n], w.d) && element_stands(e[n], n, name, b, a.len() as int, w, depth)
                ==> #[trigger] placed(e, m, name, b, w, depth),
            forall|b: Seq<ResolvedObjectSetElement>, m: int| m == n + 1 && prefix(a, b)
                ==> #[trigger] table(e, m, b, u, w.d) == table_next(e[n], table(e, n, a, u, w.d), b[a.len() as int], u, w.d),
    {
        assert forall|b: Seq<ResolvedObjectSetElement>, m: int| m == n + 1 && prefix(a, b) && b.len() == a.len() + many(e[n], w.d) && element_stands(e[n], n, name, b, a.len() as int, w, depth)
            implies #[trigger] placed(e, m, name, b, w, depth) by {
            assert forall|i: int| 0 <= i < m implies element_stands(#[trigger] e[i], i, name, b, at(e, i, w.d), w, depth) by {
                if i < n {
                    lemma_at(e, i, n, w.d);
                    lemma_stands(e[i], i, name, a, b, at(e, i, w.d), w, depth);
                }
            }
        }
        assert forall|b: Seq<ResolvedObjectSetElement>, m: int| m == n + 1 && prefix(a, b)
            implies #[trigger] table(e, m, b, u, w.d) == table_next(e[n], table(e, n, a, u, w.d), b[a.len() as int], u, w.d) by {
            lemma_table(e, n, a, b, u, w.d);
        }
    }

    // ---- components that depend on a set of objects
    pub open spec fn of_class(c: Component) -> bool { c.ty.kind is Reference && c.ty.kind->Reference_0 is ClassField }
    pub open spec fn class_field(c: SeqComponent) -> bool { of_class(c.component) }
    pub open spec fn field_named(c: SeqComponent) -> Seq<char> { c.component.ty.kind->Reference_0->fieldref@ }
    pub open spec fn class_fields(c: Seq<SeqComponent>, n: int) -> int
        decreases n
    {
        if n <= 0 { 0 } else { class_fields(c, n - 1) + (if class_field(c[n - 1]) { 1int } else { 0 }) }
    }
    pub open spec fn bare_components(c: Seq<SeqComponent>, b: Seq<Component>) -> bool {
        c.len() == b.len() && forall|k: int| #![trigger c[k]] #![trigger b[k]] 0 <= k < c.len() ==> c[k].component == b[k]
    }
    pub proof fn lemma_flat(v: Seq<Vec<SeqComponent>>, a: Seq<SeqAdditionGroup>, n: int)
        requires 0 <= n <= v.len() == a.len(), forall|k: int| #![trigger v[k]] #![trigger a[k]] 0 <= k < n ==> v[k]@ == a[k].components@
        ensures flat(v, n) == added_components(a, n)
        decreases n
    {
        if n > 0 { lemma_flat(v, a, n - 1); }
    }
    /// A SEQUENCE whose components have constraints, the first one's naming a known set of objects.
    pub open spec fn tables_known(c: Asn1TypeSequence, d: Defs) -> bool {
        let a = all_components(c);
        a.len() > 0 && (forall|k: int| 0 <= k < a.len() ==> class_field(#[trigger] a[k]) && constrained(a[k].component.ty))
        && exists|s: Seq<char>| #[trigger] d.dom().contains(s) && d[s] is ObjectSet && names_set(a[0].component.ty.constraints->0@[0], s)
    }
    /// The type that an object has for a field, if that is a reference to one.
    pub open spec fn type_given(e: ResolvedObjectSetElement, field: Seq<char>) -> Option<Asn1ResolvedType> {
        if e is Object && fields_in(e).dom().contains(field) && fields_in(e)[field] is Type && fields_in(e)[field]->ty is Some
            && fields_in(e)[field]->ty->0 is Reference { fields_in(e)[field]->ty } else { None }
    }
    /// By name and value, exactly the types that the objects have for a field.
    pub open spec fn types_tabled(types: ResolvedSetTypeMap, field: Seq<char>, t: Pairs<ResolvedObjectSetElement>) -> bool {
        types_sound(types, field, t)
        && (forall|k: (Seq<char>, Seq<char>)| #[trigger] t.dom().contains(k) && type_given(t[k], field) is Some ==> tree_pairs(&types).dom().contains((k.1, k.0)))
    }
    pub open spec fn types_sound(types: ResolvedSetTypeMap, field: Seq<char>, t: Pairs<ResolvedObjectSetElement>) -> bool {
        let m = tree_pairs(&types);
        forall|k: (Seq<char>, Seq<char>)| #[trigger] m.dom().contains(k) ==> t.dom().contains((k.1, k.0)) && type_given(t[(k.1, k.0)], field) == Some(m[k].1) && m[k].0@ == k.1
    }
    pub open spec fn first_types(types: ResolvedSetTypeMap, field: Seq<char>, t: Pairs<ResolvedObjectSetElement>, o: Seq<(String, String)>, n: int) -> bool {
        types_sound(types, field, t)
        && (forall|i: int| 0 <= i < n && type_given(t[pair(#[trigger] o[i])], field) is Some ==> tree_pairs(&types).dom().contains((o[i].1@, o[i].0@)))
    }
    pub open spec fn component_tabled(c: SeqComponent, set: ResolvedObjectSet, s: Seq<char>, r: ResolvedSeqComponent) -> bool {
        let f = fields_in(set.elements@[0]);
        r.component.id@ == c.component.id@
        && (r.optional ==> c.optional || c._default is Some)
        && if f.dom().contains(field_named(c)) && f[field_named(c)] is FixedTypeValue {
            r.component.ty == f[field_named(c)]->typeref && constrained(c.component.ty)
            && r.class_field_type == Some(ClassFieldComponentType::FixedTypeValue)
            && r.key_field == !(c.component.ty.constraints->0@[0] is Table && c.component.ty.constraints->0@[0]->Table_0 is ComponentRelation)
        } else {
            r.component.ty is Set && r.component.ty->Set_0.setref@ == s && types_tabled(r.component.ty->Set_0.types, field_named(c), hash_pairs(&set.lookup_table))
            && r.class_field_type == Some(ClassFieldComponentType::Type) && !r.key_field
        }
    }
    /// Class fields only, in order; of a set without objects, none.
    #[verifier::opaque]
    pub open spec fn components_tabled(c: Seq<SeqComponent>, set: ResolvedObjectSet, s: Seq<char>, r: Seq<ResolvedSeqComponent>) -> bool {
        if set.elements@.len() == 0 || !(set.elements@[0] is Object) { r.len() == 0 } else { first_tabled(c, c.len() as int, set, s, r) }
    }
    pub open spec fn first_tabled(c: Seq<SeqComponent>, n: int, set: ResolvedObjectSet, s: Seq<char>, r: Seq<ResolvedSeqComponent>) -> bool {
        r.len() == class_fields(c, n)
        && forall|k: int| 0 <= k < n && class_field(#[trigger] c[k]) ==> 0 <= class_fields(c, k) < r.len() && component_tabled(c[k], set, s, r[class_fields(c, k)])
    }
}

} // verus!
