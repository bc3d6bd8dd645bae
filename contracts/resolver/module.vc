//# A module: the definitions are resolved in order, each from what it refers to.

@fn parser::asn::structs::module::Asn1Module::get_definitions
    ensures r == &self.definitions,

@fn parser::asn::structs::module::Asn1Module::get_definition_mut
    ensures
        match r {
            Some(d) => hash_map(&old(self).definitions).dom().contains(key@) && *d == hash_map(&old(self).definitions)[key@]
                && hash_map(&final(self).definitions) == hash_map(&old(self).definitions).insert(key@, *final(d)),
            None => !hash_map(&old(self).definitions).dom().contains(key@) && *final(self) == *old(self),
        },
        final(self).imports == old(self).imports,

@fn parser::asn::module::Asn1Module::resolve_object_classes
@attr
    #[verifier::external_body]
@spec
    ensures
        final(self).imports == old(self).imports,
        r is Ok ==> hash_map(&final(self).definitions).dom() == hash_map(&old(self).definitions).dom(),
        forall|k: Seq<char>| r is Ok && #[trigger] hash_map(&final(self).definitions).dom().contains(k) ==> hash_map(&final(self).definitions)[k].resolved == hash_map(&old(self).definitions)[k].resolved,

@fn parser::asn::structs::defs::Asn1Definition::is_class_assignment
    ensures r == (self.kind is Class),

@fn resolver::int::Resolver::resolve_classes_in_current_module
    requires only_classes(classes_of(*old(self))),
    ensures
        only_classes(classes_of(*final(self))),
        final(self).resolved_defs == old(self).resolved_defs,
        final(self).parameterized_defs == old(self).parameterized_defs,
        final(self).depth == old(self).depth,
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        only_classes(classes_of(*self)),
        self.resolved_defs == old(self).resolved_defs,
        self.parameterized_defs == old(self).parameterized_defs,
        self.depth == old(self).depth,

@fn resolver::int::Resolver::resolve_definitions
    requires
        old(self).depth <= crate::resolver::MAX_DEPTH,
        only_classes(classes_of(*old(self))),
        forall|k: Seq<char>| #[trigger] hash_map(&old(module).definitions).dom().contains(k) ==> !hash_map(&old(module).definitions)[k].resolved,
    ensures
        final(self).depth == old(self).depth,
        only_classes(classes_of(*final(self))),
        r is Ok ==> kept(hash_map(&final(module).definitions), *old(self), *final(self)),
        r is Ok ==> forall|k: Seq<char>| #[trigger] hash_map(&final(module).definitions).dom().contains(k) ==> done(hash_map(&final(module).definitions), hash_map(&final(module).imports), k, *final(self)),
@attr
#[verifier::loop_isolation(false)]
@loop 0 it
    invariant
        self.depth == old(self).depth,
        only_classes(classes_of(*self)),
        kept(hash_map(&module.definitions), *old(self), *self),
        sorted(hash_map(&module.definitions), hash_map(&module.imports), it.seq()),
        first_done(hash_map(&module.definitions), hash_map(&module.imports), it.seq(), it.index() as int, *self),
        ticked(hash_map(&module.definitions), it.seq(), it.index() as int),
        ticked_done(hash_map(&module.definitions), hash_map(&module.imports), *self),
@loopbegin 0
    proof {
        lemma_sorted(hash_map(&module.definitions), hash_map(&module.imports), it.seq());
        lemma_step(hash_map(&module.definitions), hash_map(&module.imports), it.seq(), it.index() as int, *self);
        lemma_kept(hash_map(&module.definitions), it.seq()[it.index() as int]@, *old(self), *self);
    }
@loop 1 jt
    invariant
        forall|j: int| 0 <= j < jt.index() ==> hash_map(&module.definitions)[(#[trigger] order(&module.definitions)[j])@].resolved,

@fn parser::asn::structs::module::Asn1Module::get_module_name
    ensures r@ == self.name.name@,

@fn resolver::int::Resolver::new
    ensures r.depth == 0, only_classes(classes_of(r)), known_of(r).d == Map::<Seq<char>, crate::resolver::asn::structs::defs::Asn1ResolvedDefinition>::empty(),
