// All the definitions of a module, one after the other.

verus! {

pub mod whole {
    use vstd::prelude::*;
    use crate::stdr::*;
    use crate::meaning::{Classes, Known, classes_of, known_of, mirrors, value_mirrors, object_mirrors, object_set_mirrors};
    use crate::refs::{needs, earlier};
    use crate::parser::asn::structs::defs::*;
    use crate::parser::asn::structs::module::*;
    use crate::resolver::Resolver;
    use crate::resolver::asn::structs::defs::Asn1ResolvedDefinition;
    use crate::resolver::asn::structs::types::Asn1ResolvedType;

    pub type Parsed = Map<Seq<char>, Asn1Definition>;
    pub type Imports = Map<Seq<char>, Asn1ModuleName>;

    /// `r` is what a definition that is not a class or parameterized has to resolve to.
    pub open spec fn definition_mirrors(a: Asn1AssignmentKind, r: Asn1ResolvedDefinition, c: Classes, w: Known, depth: int) -> bool {
        match a {
            Asn1AssignmentKind::Type(t) => r is Type && mirrors(t.typeref, r->Type_0, w, depth),
            Asn1AssignmentKind::Value(v) => r is Value
                && exists|t: Asn1ResolvedType| #[trigger] mirrors(v.typeref, t, w, depth) && value_mirrors(v.value@, t, r->Value_0, w.d),
            Asn1AssignmentKind::ObjectSet(o) => r is ObjectSet && object_set_mirrors(o.set, o.id@, r->ObjectSet_0.objects, c, w, depth),
            Asn1AssignmentKind::Object(o) => r is Object && r->Object_0.name@ == o.id@ && object_mirrors(o.object.value, hash_map(&r->Object_0.fields), w, depth),
            Asn1AssignmentKind::Class(_) => false,
        }
    }
    /// The same but for the mark of being resolved.
    pub open spec fn same(a: Asn1Definition, b: Asn1Definition) -> bool { a.kind == b.kind && a.params == b.params }
    pub open spec fn all_same(a: Parsed, b: Parsed) -> bool {
        forall|k: Seq<char>| #![trigger a.dom().contains(k)] #![trigger b.dom().contains(k)] a.dom().contains(k) == b.dom().contains(k) && (a.dom().contains(k) ==> same(a[k], b[k]))
    }
    pub open spec fn agree<V>(a: Map<Seq<char>, V>, b: Map<Seq<char>, V>, s: Seq<char>) -> bool {
        a.dom().contains(s) == b.dom().contains(s) && (a.dom().contains(s) ==> a[s] == b[s])
    }
    /// What the resolver knew at some time, and knows still of all the names that definition k needs.
    pub open spec fn still(d: Parsed, i: Imports, k: Seq<char>, c: Classes, w: Known, now: Resolver) -> bool {
        forall|s: Seq<char>| #[trigger] needs(d, i, k, s) ==> agree(w.d, known_of(now).d, s) && agree(w.p, known_of(now).p, s) && agree(c, classes_of(now), s)
    }
    /// Definition k is done: kept if it is parameterized or a class, else resolved from what it needs.
    #[verifier::opaque]
    pub open spec fn done(d: Parsed, i: Imports, k: Seq<char>, now: Resolver) -> bool {
        if d[k].params is Some { known_of(now).p.dom().contains(k) && same(known_of(now).p[k], d[k]) }
        else if d[k].kind is Class { classes_of(now).dom().contains(k) && same(classes_of(now)[k], d[k]) }
        else { known_of(now).d.dom().contains(k) && exists|c: Classes, w: Known| #[trigger] still(d, i, k, c, w, now) && definition_mirrors(d[k].kind, known_of(now).d[k], c, w, now.depth as int) }
    }
    /// Nothing but definition k became known.
    pub open spec fn next(a: Resolver, b: Resolver, k: Seq<char>) -> bool {
        a.depth == b.depth
        && (forall|s: Seq<char>| s != k ==> #[trigger] agree(known_of(a).d, known_of(b).d, s))
        && (forall|s: Seq<char>| s != k ==> #[trigger] agree(known_of(a).p, known_of(b).p, s))
        && (forall|s: Seq<char>| s != k ==> #[trigger] agree(classes_of(a), classes_of(b), s))
    }
    /// What was known of other modules still is.
    pub open spec fn kept(d: Parsed, a: Resolver, b: Resolver) -> bool {
        (forall|s: Seq<char>| !(d.dom().contains(s)) ==> #[trigger] agree(known_of(a).d, known_of(b).d, s))
        && (forall|s: Seq<char>| !(d.dom().contains(s)) ==> #[trigger] agree(known_of(a).p, known_of(b).p, s))
    }
    pub open spec fn distinct(v: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
    pub open spec fn sorted(d: Parsed, i: Imports, v: Seq<String>) -> bool {
        distinct(v) && forall|j: int, s: Seq<char>| 0 <= j < v.len() && #[trigger] needs(d, i, v[j]@, s) ==> earlier(v, j, s)
    }
    pub open spec fn first_done(d: Parsed, i: Imports, v: Seq<String>, n: int, now: Resolver) -> bool {
        forall|j: int| 0 <= j < n && d.dom().contains((#[trigger] v[j])@) ==> done(d, i, v[j]@, now)
    }
    /// Definition k was done, from what was known before.
    pub open spec fn step(d: Parsed, k: Seq<char>, a: Resolver, b: Resolver) -> bool {
        d.dom().contains(k) ==> if d[k].params is Some { known_of(b).p.dom().contains(k) && same(known_of(b).p[k], d[k]) }
        else if d[k].kind is Class { classes_of(b).dom().contains(k) && same(classes_of(b)[k], d[k]) }
        else { known_of(b).d.dom().contains(k) && definition_mirrors(d[k].kind, known_of(b).d[k], classes_of(a), known_of(a), a.depth as int) }
    }
    /// Only the first n are marked, and what is marked is done.
    pub open spec fn ticked(d: Parsed, v: Seq<String>, n: int) -> bool { forall|k: Seq<char>| #[trigger] d.dom().contains(k) && d[k].resolved ==> earlier(v, n, k) }
    pub open spec fn ticked_done(d: Parsed, i: Imports, now: Resolver) -> bool { forall|k: Seq<char>| #[trigger] d.dom().contains(k) && d[k].resolved ==> done(d, i, k, now) }
    pub proof fn lemma_ticked_done(d: Parsed, i: Imports, v: Seq<String>, n: int, now: Resolver)
        requires first_done(d, i, v, n, now), ticked(d, v, n)
        ensures ticked_done(d, i, now)
    {
        assert forall|k: Seq<char>| #[trigger] d.dom().contains(k) && d[k].resolved implies done(d, i, k, now) by {
            assert(earlier(v, n, k));
            let j = choose|j: int| 0 <= j < n && (#[trigger] v[j])@ == k;
            assert(d.dom().contains(v[j]@));
        }
    }
    pub proof fn lemma_sorted(d: Parsed, i: Imports, v: Seq<String>)
        requires sorted(d, i, v)
        ensures forall|e: Parsed| all_same(d, e) ==> #[trigger] sorted(e, i, v)
    {
        assert forall|e: Parsed| all_same(d, e) implies #[trigger] sorted(e, i, v) by {
            assert forall|j: int, s: Seq<char>| 0 <= j < v.len() && #[trigger] needs(e, i, v[j]@, s) implies earlier(v, j, s) by {
                assert(d.dom().contains(v[j]@));
                assert(needs(d, i, v[j]@, s));
            }
        }
    }
    /// Once the n-th is done, so are the first n + 1.
    pub proof fn lemma_step_to(d: Parsed, i: Imports, v: Seq<String>, n: int, a: Resolver, e: Parsed, b: Resolver)
        requires sorted(d, i, v), 0 <= n < v.len(), first_done(d, i, v, n, a), all_same(d, e), next(a, b, v[n]@), step(e, v[n]@, a, b)
        ensures first_done(e, i, v, n + 1, b), ticked(e, v, n + 1) ==> ticked_done(e, i, b)
    {
        assert forall|j: int| 0 <= j < n + 1 && e.dom().contains((#[trigger] v[j])@) implies done(e, i, v[j]@, b) by {
            reveal(done);
            let k = v[j]@;
            assert(d.dom().contains(k) && same(d[k], e[k]));
            if j < n { assert(k != v[n]@); assert(done(d, i, k, a)); }
            if e[k].params is None && !(e[k].kind is Class) {
                let (c, w) = if j < n {
                    choose|c: Classes, w: Known| #[trigger] still(d, i, k, c, w, a) && definition_mirrors(d[k].kind, known_of(a).d[k], c, w, a.depth as int)
                } else { (classes_of(a), known_of(a)) };
                assert(still(e, i, k, c, w, b)) by {
                    assert forall|s: Seq<char>| #[trigger] needs(e, i, k, s) implies agree(w.d, known_of(b).d, s) && agree(w.p, known_of(b).p, s) && agree(c, classes_of(b), s) by {
                        assert(needs(d, i, v[j]@, s));
                        assert(earlier(v, j, s));
                        assert(s != v[n]@);
                        if j < n { assert(needs(d, i, k, s)); }
                        lemma_agree(a, b, v[n]@, s);
                    }
                }
            }
            if j < n { lemma_agree(a, b, v[n]@, k); }
        }
        if ticked(e, v, n + 1) { lemma_ticked_done(e, i, v, n + 1, b); }
    }
    pub proof fn lemma_step(d: Parsed, i: Imports, v: Seq<String>, n: int, a: Resolver)
        requires sorted(d, i, v), 0 <= n < v.len(), first_done(d, i, v, n, a)
        ensures
            forall|e: Parsed, m: int, b: Resolver| m == n + 1 && all_same(d, e) && next(a, b, v[n]@) && step(e, v[n]@, a, b) ==> #[trigger] first_done(e, i, v, m, b),
            forall|e: Parsed, b: Resolver| all_same(d, e) && next(a, b, v[n]@) && step(e, v[n]@, a, b) && ticked(e, v, n + 1) ==> #[trigger] ticked_done(e, i, b),
    {
        assert forall|e: Parsed, m: int, b: Resolver| m == n + 1 && all_same(d, e) && next(a, b, v[n]@) && step(e, v[n]@, a, b) implies #[trigger] first_done(e, i, v, m, b) by {
            lemma_step_to(d, i, v, n, a, e, b);
        }
        assert forall|e: Parsed, b: Resolver| all_same(d, e) && next(a, b, v[n]@) && step(e, v[n]@, a, b) && ticked(e, v, n + 1) implies #[trigger] ticked_done(e, i, b) by {
            lemma_step_to(d, i, v, n, a, e, b);
        }
    }
    pub proof fn lemma_kept(d: Parsed, k: Seq<char>, o: Resolver, a: Resolver)
        requires kept(d, o, a)
        ensures forall|e: Parsed, b: Resolver| all_same(d, e) && next(a, b, k) && (d.dom().contains(k) || a == b) ==> #[trigger] kept(e, o, b)
    {
        assert forall|e: Parsed, b: Resolver| all_same(d, e) && next(a, b, k) && (d.dom().contains(k) || a == b) implies #[trigger] kept(e, o, b) by {
            assert forall|s: Seq<char>| !(e.dom().contains(s)) implies agree(known_of(o).d, known_of(b).d, s) && agree(known_of(o).p, known_of(b).p, s) by {
                assert(!(d.dom().contains(s)));
                assert(agree(known_of(o).d, known_of(a).d, s) && agree(known_of(o).p, known_of(a).p, s));
                if a != b { lemma_agree(a, b, k, s); }
            }
        }
    }
    pub proof fn lemma_agree(a: Resolver, b: Resolver, k: Seq<char>, s: Seq<char>)
        requires next(a, b, k), s != k
        ensures agree(known_of(a).d, known_of(b).d, s), agree(known_of(a).p, known_of(b).p, s), agree(classes_of(a), classes_of(b), s)
    {
    }
}

} // verus!
