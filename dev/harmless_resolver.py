"""Edits that keep the behaviour: the checks have to stay quiet (mut.py)."""
ROOT = 'asn-compiler/src/resolver/asn'
CRATE = 'asn-compiler/src'
ALL = ['R01', 'R02', 'R03', 'R05']
O = 'types/ioc.rs'
C = 'types/constraints.rs'
SC = 'structs/types/constraints.rs'
I = 'types/base/integer.rs'
E = 'types/base/enumerated.rs'
K = 'types/constructed.rs'
T = 'types/int.rs'
HELPER = '''fn resolve_component(c: &Component, resolver: &mut Resolver) -> Result<ResolvedComponent, Error> {
    let ty = resolve_type(&c.ty, resolver)?;
    Ok(ResolvedComponent { id: c.id.clone(), ty })
}

fn resolve_choice_type('''
LOOP = '''    for c in &choice.root_components {
        let ty = resolve_type(&c.ty, resolver)?;
        let component = ResolvedComponent {
            id: c.id.clone(),
            ty,
        };
        root_components.push(component);
    }
'''
INNER = '''                let ty = resolve_type(&c.ty, resolver)?;
                let component = ResolvedComponent {
                    id: c.id.clone(),
                    ty,
                };
                components.push(component);
'''
M = [
 ('choice_helper', K, 'fn resolve_choice_type(', HELPER, [], (LOOP, '    for c in &choice.root_components {\n        root_components.push(resolve_component(c, resolver)?);\n    }\n'), (INNER, '                components.push(resolve_component(c, resolver)?);\n')),
 ('choice_indexed', K, LOOP, LOOP.replace('for c in &choice.root_components {', 'for i in 0..choice.root_components.len() {\n        let c = &choice.root_components[i];'), []),
 ('choice_collect', K, 'let mut root_components = vec![];\n' + LOOP, '''let root_components = choice
        .root_components
        .iter()
        .map(|c| {
            Ok(ResolvedComponent {
                id: c.id.clone(),
                ty: resolve_type(&c.ty, resolver)?,
            })
        })
        .collect::<Result<Vec<_>, Error>>()?;
''', []),
 ('choice_match', K, 'let additions = if choice.additions.is_some() {\n        let mut components = vec![];\n        for addition in choice.additions.as_ref().unwrap() {', 'let additions = if let Some(ref groups) = choice.additions {\n        let mut components = vec![];\n        for addition in groups {', []),
 ('seq_noop', K, 'let mut components = vec![];\n    // FIXME', 'let _nothing = 0;\n    let mut components = vec![];\n    // FIXME', []),
 ('seq_inline', K, '''        let component = ResolvedComponent {
            id: c.component.id.clone(),
            ty,
        };
        let seq_component = ResolvedSeqComponent {
            component,''', '''        let seq_component = ResolvedSeqComponent {
            component: ResolvedComponent {
                id: c.component.id.clone(),
                ty,
            },''', []),
 ('seqof_match', K, '''    let size_values = if sequence_of.size.is_some() {
        let size = sequence_of.size.as_ref().unwrap();
        Some(size.get_size_valueset(resolver)?)
    } else {
        None
    };''', '''    let size_values = match sequence_of.size {
        Some(ref size) => Some(size.get_size_valueset(resolver)?),
        None => None,
    };''', []),
 ('width_helper', I, 'impl Asn1ResolvedInteger {', '''fn signed_bits(min: i128, max: i128) -> u8 {
    if min >= i8::MIN as i128 && max <= i8::MAX as i128 {
        8
    } else if min >= i16::MIN as i128 && max <= i16::MAX as i128 {
        16
    } else if min >= i32::MIN as i128 && max <= i32::MAX as i128 {
        32
    } else if min >= i64::MIN as i128 && max <= i64::MAX as i128 {
        64
    } else {
        128
    }
}

impl Asn1ResolvedInteger {''', [], ('''base.bits = if base.signed {
            if min >= i8::MIN as i128 && max <= i8::MAX as i128 {
                8
            } else if min >= i16::MIN as i128 && max <= i16::MAX as i128 {
                16
            } else if min >= i32::MIN as i128 && max <= i32::MAX as i128 {
                32
            } else if min >= i64::MIN as i128 && max <= i64::MAX as i128 {
                64
            } else {
                128
            }
        }''', 'base.bits = if base.signed {\n            signed_bits(min, max)\n        }')),
 ('width_wider', I, '8\n            } else if min >= i16::MIN', '16\n            } else if min >= i16::MIN', []),
 ('int_early', I, '''        if ty.constraints.is_none() {
            return Ok(base);
        } else {
            let constraints = ty.constraints.as_ref().unwrap();
            if constraints.is_empty() {
                return Ok(base);
            }
        }
''', '''        match ty.constraints {
            None => return Ok(base),
            Some(ref constraints) if constraints.is_empty() => return Ok(base),
            _ => {}
        }
''', []),
 ('contains_any', SC, '''        for range in &self.ranges {
            if range.start <= value && value < range.end {
                return true;
            }
        }
        false''', '''        self.ranges
            .iter()
            .any(|range| range.start <= value && value < range.end)''', []),
 ('contains_method', SC, 'range.start <= value && value < range.end', 'range.contains(&value)', []),
 ('inter_order', SC, '''                let start = std::cmp::max(range.start, other_range.start);
                let end = std::cmp::min(range.end, other_range.end);
''', '''                let end = std::cmp::min(other_range.end, range.end);
                let start = range.start.max(other_range.start);
''', []),
 ('min_match', SC, '''        match values_min {
            None => ranges_min,
            Some(vals_min) => match ranges_min {
                None => Some(*vals_min),
                Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),
            },
        }''', '''        match (values_min, ranges_min) {
            (None, r) => r,
            (Some(v), None) => Some(*v),
            (Some(v), Some(r)) => Some(std::cmp::min(r, *v)),
        }''', []),
 ('within_map', SC, '''match self.additional_values {
                Some(ref values) => Some(values.intersection(parent)),
                None => None,
            },''', 'self.additional_values.as_ref().map(|v| v.intersection(parent)),', []),
 ('serial_helper', T, '''        if let Some(ref value_set) = result {
            if value_set.root_values.min().is_none() {
                return Err(constraint_error!(
                    "No size satisfies the constraints of '{:#?}'",
                    self
                ));
            }
        }
        Ok(result)''', '''        match result {
            Some(ref value_set) if value_set.root_values.min().is_none() => {
                Err(constraint_error!(
                    "No size satisfies the constraints of '{:#?}'",
                    self
                ))
            }
            _ => Ok(result),
        }''', []),
 ('ref_flat', T, '''                match resolved {
                    Some(res) => match res {
                        Asn1ResolvedDefinition::Type(..) => {
                            Ok(Asn1ResolvedType::Reference(r.to_string()))
                        }
                        _ => Err(resolve_error!(
                            "Expected a Resolved Type, found {:#?}",
                            resolved
                        )),
                    },''', '''                match resolved {
                    Some(Asn1ResolvedDefinition::Type(..)) => {
                        Ok(Asn1ResolvedType::Reference(r.clone()))
                    }
                    Some(res) => Err(resolve_error!("Expected a Resolved Type, found {:#?}", res)),''', []),
 ('enum_count', E, '''            let mut index = 0_i128;
            for number in &numbers {
                if *number < numbers[i] {
                    index += 1;
                }
            }
''', '''            let index = numbers.iter().filter(|n| **n < numbers[i]).count() as i128;
''', []),
 ('enum_zip', E, '''        for (i, v) in e.ext_values.iter().enumerate() {
            base.named_ext_values.push((v.name.clone(), i as i128));
            ext_values.insert(numbers[i]);
        }''', '''        let mut i = 0;
        for v in &e.ext_values {
            base.named_ext_values.push((v.name.clone(), i as i128));
            ext_values.insert(numbers[i]);
            i += 1;
        }''', []),
 ('enum_helper', E, '''        let mut numbers = vec![];
        let mut next_given = 0;''', '''        let mut next_given = 0;
        let mut numbers = Vec::with_capacity(items.len());''', []),
 ('chars_flat', 'types/base/charstring.rs', '''        if ty.constraints.is_some() {
            let constraints = ty.constraints.as_ref().unwrap();
            if !constraints.is_empty() {
                let constraint = &constraints[0];
''', '''        if let Some(ref constraints) = ty.constraints {
            if let Some(constraint) = constraints.first() {
''', []),
 ('bits_match', 'types/base/bitstring.rs', '''let parsed = match v.parse::<u8>() {
                        Ok(parsed) => parsed,
                        Err(_) => {
                            return Err(resolve_error!("Named bit '{}' does not fit in u8", v))
                        }
                    };''', '''let parsed = v
                        .parse::<u8>()
                        .map_err(|_| resolve_error!("Named bit '{}' does not fit in u8", v))?;''', []),
 ('size_any', C, '''            for iset in e.get_inner_elements() {
                for element in &iset.elements {
                    if let Elements::Subtype(SubtypeElements::SizeConstraint(..)) = element {
                        return true;
                    }
                }
            }
        }
        false''', '''            return e.get_inner_elements().iter().any(|iset| {
                iset.elements
                    .iter()
                    .any(|x| matches!(x, Elements::Subtype(SubtypeElements::SizeConstraint(..))))
            });
        }
        false''', []),

 ('set_helper', O, '''pub(crate) fn resolve_object_set(''', '''fn unique_field_of(class: &crate::parser::asn::structs::types::ioc::Asn1ObjectClass) -> String {
    class.get_first_unique_field_id().unwrap_or_default()
}

pub(crate) fn resolve_object_set(''', []),
 ('set_unique_match', O, '''            let unique_field = if let Some(u) = unique_field {
                u
            } else {
                "".to_string()
            };''', '''            let unique_field = match unique_field {
                Some(u) => u,
                None => "".to_string(),
            };''', []),
 ('set_order', O, '''                                    decoder_ty = o.objects.decoder_ty.clone();
                                    elements.extend(o.objects.elements.clone());
                                    lookup_table.extend(o.objects.lookup_table.clone());''', '''                                    lookup_table.extend(o.objects.lookup_table.clone());
                                    elements.extend(o.objects.elements.clone());
                                    decoder_ty = o.objects.decoder_ty.clone();''', []),
 ('set_none_first', O, '''                        let resolved = resolver.resolved_defs.get(r);
                        match resolved {
                            None => {
                                return Err(resolve_error!(
                            "Unable to find the Referencing '{}' Object Set while resolving {:#?}",
                            r,
                            objectset
                        ));
                            }
                            Some(res) => {
                                if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
                                    decoder_ty = o.objects.decoder_ty.clone();
                                    elements.extend(o.objects.elements.clone());
                                    lookup_table.extend(o.objects.lookup_table.clone());
                                } else {
                                    return Err(resolve_error!(
                                        "Resolved '{}' is not an Object Set!",
                                        r,
                                    ));
                                }
                            }
                        }''', '''                        match resolver.resolved_defs.get(r) {
                            Some(Asn1ResolvedDefinition::ObjectSet(ref o)) => {
                                decoder_ty = o.objects.decoder_ty.clone();
                                elements.extend(o.objects.elements.clone());
                                lookup_table.extend(o.objects.lookup_table.clone());
                            }
                            Some(_) => {
                                return Err(resolve_error!(
                                    "Resolved '{}' is not an Object Set!",
                                    r,
                                ));
                            }
                            None => {
                                return Err(resolve_error!(
                            "Unable to find the Referencing '{}' Object Set while resolving {:#?}",
                            r,
                            objectset
                        ));
                            }
                        }''', []),
 ('set_loop', O, 'let mut input_elements = objectset.objects.root_elements.clone();\n            input_elements.extend(objectset.objects.additional_elements.clone());', 'let mut input_elements = vec![];\n            input_elements.extend(objectset.objects.root_elements.clone());\n            input_elements.extend(objectset.objects.additional_elements.clone());', []),
 ('set_chain', O, 'let mut input_elements = objectset.objects.root_elements.clone();\n            input_elements.extend(objectset.objects.additional_elements.clone());', 'let input_elements = objectset\n                .objects\n                .root_elements\n                .iter()\n                .chain(objectset.objects.additional_elements.iter())\n                .cloned()\n                .collect::<Vec<_>>();', []),
 ('object_match', O, '''                    let resolved = if ty.is_some() {
                        Some(resolve_type(&ty.as_ref().unwrap(), resolver)?)
                    } else {
                        None
                    };''', '''                    let resolved = match ty {
                        Some(ref ty) => Some(resolve_type(ty, resolver)?),
                        None => None,
                    };''', []),
 ('object_return', O, '''            resolved_fields.insert(k.clone(), resolved);
        }
        Ok(Asn1ResolvedObject {
            name: object_name.to_string(),
            fields: resolved_fields,
        })''', '''            resolved_fields.insert(k.clone(), resolved);
        }
        let object = Asn1ResolvedObject {
            name: object_name.to_string(),
            fields: resolved_fields,
        };
        Ok(object)''', []),
 ('tabled_chain', K, '''    let mut all_components = vec![];
    all_components.extend(seq.root_components.clone());
    all_components.extend(
        seq.additions
            .clone()
            .iter()
            .map(|a| a.components.clone())
            .flatten()
            .collect::<Vec<SeqComponent>>(),
    );
    let all_components = all_components
        .iter()
        .map(|c| c.component.clone())
        .collect::<Vec<Component>>();
''', '''    let mut all_components = vec![];
    for c in &seq.root_components {
        all_components.push(c.component.clone());
    }
    for a in &seq.additions {
        for c in &a.components {
            all_components.push(c.component.clone());
        }
    }
''', []),
 ('tabled_let', K, '''                    let component = ResolvedComponent {
                        id: component.id.clone(),
                        ty: typeref.clone(),
                    };
                    let seq_component = ResolvedSeqComponent {
                        component,
                        optional: false, // FIXME:
                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
                        key_field: comp_spec.is_none(),
                    };
                    result.push(seq_component);''', '''                    let key_field = comp_spec.is_none();
                    result.push(ResolvedSeqComponent {
                        component: ResolvedComponent {
                            id: component.id.clone(),
                            ty: typeref.clone(),
                        },
                        optional: false, // FIXME:
                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
                        key_field,
                    });''', []),
 ('tabled_let_else', K, '''    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
        let objects = &set.objects;
        let components =
            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
        Ok(Asn1ResolvedType::Constructed(
            ResolvedConstructedType::Sequence {
                name: None,
                extensible: seq.extensible,
                components,
            },
        ))
    } else {
        return Err(resolve_error!(
            "Object Set '{}' not resolved yet!",
            set_reference
        ));
    }''', '''    let objects = match objects {
        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => &set.objects,
        _ => {
            return Err(resolve_error!(
                "Object Set '{}' not resolved yet!",
                set_reference
            ));
        }
    };
    let components = resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
    Ok(Asn1ResolvedType::Constructed(
        ResolvedConstructedType::Sequence {
            name: None,
            extensible: seq.extensible,
            components,
        },
    ))''', []),
 ('types_flat', K, '''            let field_ob = o.fields.get(fieldref);
            if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
                    types.insert(
                        (key.1.clone(), key.0.clone()),
                        (key.0.clone(), ty.as_ref().unwrap().clone()),
                    );
                }
            }''', '''            if let Some(ResolvedFieldSpec::Type {
                ty: Some(Asn1ResolvedType::Reference(ref tyid)),
            }) = o.fields.get(fieldref)
            {
                let (number, name) = key.clone();
                types.insert(
                    (name, number.clone()),
                    (number, Asn1ResolvedType::Reference(tyid.clone())),
                );
            }''', []),
 ('types_iter', K, 'for (key, object) in &objects.lookup_table {', 'for (key, object) in objects.lookup_table.iter() {', []),
 ('setref_match', C, '''                if let Self::Table(TableConstraint::ComponentRelation { table, .. }) = self {
                    Ok(table
                        .trim_matches(|c| matches!(c, '{' | '}'))
                        .trim()
                        .to_string())
                } else {
                    Err(resolve_error!(
                        "Constraint is not a component Relation Constraint! '{:#?}'",
                        self
                    ))
                }''', '''                match self {
                    Self::Table(TableConstraint::ComponentRelation { table, .. }) => Ok(table
                        .trim_matches(|c| matches!(c, '{' | '}'))
                        .trim()
                        .to_string()),
                    _ => Err(resolve_error!(
                        "Constraint is not a component Relation Constraint! '{:#?}'",
                        self
                    )),
                }''', []),
]
