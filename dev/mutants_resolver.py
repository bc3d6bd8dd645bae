ROOT = 'asn-compiler/src/resolver/asn'
CRATE = 'asn-compiler/src'
ALL = ['R01', 'R02', 'R03', 'R04', 'R05']
O = 'types/ioc.rs'
V = 'values/mod.rs'
C = 'types/constraints.rs'
SC = 'structs/types/constraints.rs'
I = 'types/base/integer.rs'
E = 'types/base/enumerated.rs'
K = 'types/constructed.rs'
T = 'types/int.rs'
P = '../../parser/asn/structs/'
M = [
 ('lower_inclusive', C, 'if !lower_inclusive {\n                    lower_value += 1;\n                }\n', '', ['R01']),
 ('upper_exclusive', C, 'if *upper_inclusive {\n                    end_value += 1;\n                }\n', 'end_value += 1;\n', ['R01']),
 ('union_first_two', C, 'for element in self.get_inner_elements() {\n            let element_values', 'for element in self.get_inner_elements().iter().take(5) {\n            let element_values', ['R01']),
 ('ext_as_root', C, 'additional_values.append(&element_values);', 'root_values.append(&element_values);', ['R01']),
 ('inter_as_union', C, 'value_set = value_set.intersection(&element_set);', 'value_set.append(&element_set);', ['R01']),
 ('not_integer_is_zero', C, '''                                None => Err(constraint_error!(
                                    "Resolved Value {:#?} of different type!",
                                    res
                                )),''', '                                None => Ok(0),', ['R01', 'R05']),
 ('value_ref_once', C, 'for _ in 0..MAX_DEPTH {', 'for _ in 0..1 {', ['R01', 'R05']),
 ('value_ref_zero', C, '                Err(constraint_error!(\n                    "Unable To Resolve \'{}\'. Too many references!",\n                    value\n                ))', '                Ok(0)', ['R01']),
 ('contains_end', SC, 'range.start <= value && value < range.end', 'range.start <= value && value <= range.end', ['R01']),
 ('inter_start', SC, 'std::cmp::max(range.start, other_range.start)', 'range.start', ['R01']),
 ('inter_single', SC, 'if start < end {', 'if start + 1 < end {', ['R01']),
 ('append_ranges', SC, 'self.ranges.extend(other.ranges.clone());', 'if self.values.is_empty() { self.ranges.extend(other.ranges.clone()); }', ['R01']),
 ('min_values', SC, 'Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),', 'Some(_) => Some(*vals_min),', ['R02']),
 ('max_end', SC, 'self.ranges.iter().map(|r| r.end - 1).max()', 'self.ranges.iter().map(|r| r.end).max()', ['R03']),
 ('max_start', SC, 'self.ranges.iter().map(|r| r.end - 1).max()', 'self.ranges.iter().map(|r| r.start).max()', ['R02']),
 ('within_ext', SC, 'Some(ref values) => Some(values.intersection(parent)),', 'Some(ref values) => Some(values.clone()),', ['R01']),
 ('no_ext_width', I, 'if let Some(ref additional) = value_set.additional_values {\n            values.append(additional);\n        }\n', '', ['R02']),
 ('u8_256', I, '} else if max <= u8::MAX as i128 {', '} else if max <= u8::MAX as i128 + 1 {', ['R02']),
 ('i16_min', I, 'if min >= i16::MIN as i128 && max', 'if min >= -(u16::MAX as i128) && max', ['R02']),
 ('i32_max', I, 'max <= i32::MAX as i128 {', 'max <= u32::MAX as i128 {', ['R02']),
 ('signed_max', I, 'base.signed = min < 0;', 'base.signed = max < 0;', ['R02']),
 ('last_constraint', T, 'Some(ref parent) => value_set.within(&parent.root_values),\n                            None', 'Some(_) => value_set,\n                            None', ['R01']),
 ('first_size', T, 'for constraint in constraints {\n                if constraint.is_size_constraint() {', 'for constraint in constraints {\n                if constraint.is_size_constraint() && result.is_none() {', ['R01']),
 ('size_mark', C, 'let mut extensible = self.additional_elements.is_some();', 'let mut extensible = false;', ['R01']),
 ('size_inner_mark', C, 'additional_values.append(values);\n                extensible = true;', 'additional_values.append(values);', ['R01']),
 ('octet_size', 'types/base/octetstring.rs', 'base.size = ty.get_size_valueset_from_constraints(resolver)?;', 'base.size = ty.get_size_valueset_from_constraints(resolver).unwrap_or(None);', ['R01']),
 ('seqof_size', K, 'Some(size.get_size_valueset(resolver)?)', 'size.get_size_valueset(resolver).ok()', ['R01', 'R03']),
 ('enum_order', E, 'if *number < numbers[i] {', 'if *number <= numbers[i] {', ['R03']),
 ('enum_bits', E, 'if e.root_values.len() <= 256 { 8 }', 'if e.root_values.len() <= 257 { 8 }', ['R02']),
 ('enum_dup', E, 'if given.contains(&number) {', 'if given.last() == Some(&number) {', ['R03']),
 ('enum_ext', E, 'extensible: e.ext_marker_index.is_some(),', 'extensible: !e.ext_values.is_empty(),', ['R03']),
 ('enum_next', E, 'while next < i128::MAX && given.contains(&next) {\n                    next += 1;\n                }', 'if given.contains(&next) {\n                    next += 1;\n                }', ['R03']),
 ('bits_u8', 'types/base/bitstring.rs', 'if let NamedValue::Number(ref v) = nb.1 {', 'if let NamedValue::ValueRef(ref v) = nb.1 {', ['R03']),
 ('choice_adds', K, 'for c in &addition.components {', 'for c in addition.components.iter().take(2) {', ['R03']),
 ('choice_root', K, '                components.push(component);', '                root_components.push(component);', ['R03']),
 ('choice_none', K, 'Some(components)\n    } else {', 'if components.is_empty() { None } else { Some(components) }\n    } else {', ['R03']),
 ('seq_default', K, 'optional: c.optional || c._default.is_some(),', 'optional: c.optional,', ['R03']),
 ('seq_ext', K, 'extensible: sequence.extensible,', 'extensible: sequence.extensible && !sequence.root_components.is_empty(),', ['R03']),
 ('seq_swallow', K, 'return resolve_sequence_classfield_components(sequence, resolver);', 'if let Ok(r) = resolve_sequence_classfield_components(sequence, resolver) { return Ok(r); }\n                continue;', ['R03']),
 ('ref_any', T, '                        _ => Err(resolve_error!(\n                            "Expected a Resolved Type, found {:#?}",\n                            resolved\n                        )),', '                        _ => Ok(Asn1ResolvedType::Reference(r.to_string())),', ['R03']),
 ('depth_leak', T, 'resolver.depth -= 1;\n', '', ['R03']),
 ('depth_small', 'types/int.rs', 'if resolver.depth >= MAX_DEPTH {', 'if resolver.depth + 1 >= MAX_DEPTH {', ['R03']),
 ('set_nested', O, 'lookup_table.extend(o.objects.lookup_table.clone());', '', ['R05']),
 ('set_nested_elements', O, 'elements.extend(o.objects.elements.clone());', '', ['R05']),
 ('set_no_adds', O, 'input_elements.extend(objectset.objects.additional_elements.clone());', '', ['R05']),
 ('set_swap_key', O, 'Some((format!("{}", v), s.clone()))', 'Some((s.clone(), format!("{}", v)))', ['R05']),
 ('set_inline', O, '                                if let Some(key) = key {\n                                    lookup_table.insert(key, element);\n                                }\n', '', ['R05']),
 ('set_inline_name', O, 'let object_name = format!("{}{}", name, i);', 'let object_name = name.to_string();', []),
 ('set_no_unique', O, '        _ => Err(resolve_error!(\n            "Object \'{}\' has no value for the unique field \'{}\'",\n            object.name,\n            unique_field\n        )),', '        _ => Ok(None),', ['R05']),
 ('object_field_lost', O, '                    ResolvedFieldSpec::Type { ty: resolved }', '                    if resolved.is_none() { break; }\n                    ResolvedFieldSpec::Type { ty: resolved }', ['R05']),
 ('object_value_lost', O, 'let resolved_value = if value.is_some() {', 'let resolved_value = if value.is_some() && k.len() > 2 {', ['R05']),
 ('tabled_ext', K, 'extensible: seq.extensible,', 'extensible: seq.extensible && !seq.additions.is_empty(),', ['R05']),
 ('tabled_key', K, 'key_field: comp_spec.is_none(),', 'key_field: true,', ['R05']),
 ('tabled_set', K, 'setref: set_reference.to_string(),', 'setref: fieldref.to_string(),', ['R05']),
 ('tabled_types', K, 'let types = get_seq_component_for_object_set(fieldref, objects)?;', 'let types = get_seq_component_for_object_set("&Type", objects)?;', ['R05']),
 ('tabled_mixed', K, 'Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) => {}', 'Asn1TypeKind::Reference(..) => {}', ['R05']),
 ('types_swap', K, '(key.1.clone(), key.0.clone()),', '(key.0.clone(), key.1.clone()),', ['R05']),
 ('types_key', K, '(key.0.clone(), ty.as_ref()', '(key.1.clone(), ty.as_ref()', ['R05']),
 ('set_ref_space', C, ".trim_matches(|c| matches!(c, '{' | '}'))\n                        .trim()\n                        .to_string())\n                } else", ".trim_matches(|c| matches!(c, '{' | '}'))\n                        .to_string())\n                } else", ['R05']),
 ('comp_ref_none', C, 'if let Self::Table(TableConstraint::ComponentRelation { component, .. }) = self {\n            Some(', 'if let Self::Table(TableConstraint::ComponentRelation { component, .. }) = self {\n            if component.is_empty() { return None; }\n            Some(', []),

 ('r_seq_root', P + 'types/constructed.rs', 'for c in &self.root_components {\n            dependencies', 'for c in self.root_components.iter().skip(1) {\n            dependencies', ['R04']),
 ('r_choice_adds', P + 'types/constructed.rs', 'if self.additions.is_some() {\n            for a in self', 'if self.additions.is_some() && dependencies.is_empty() {\n            for a in self', ['R04']),
 ('r_listof_size', P + 'types/constructed.rs', '            dependencies.extend(size.dependent_references());', '            let _ = size;', ['R04']),
 ('r_enum_ext', P + 'types/base.rs', 'for item in &self.ext_values {', 'for item in self.ext_values.iter().skip(1) {', ['R04']),
 ('r_type_constraints', P + 'types/mod.rs', 'constraint_references.extend(constraint_dependent);', 'constraint_references = constraint_dependent;', ['R04']),
 ('r_params', P + 'types/mod.rs', 'for param in params {', 'for param in params.iter().take(1) {', ['R04']),
 ('r_value', P + 'defs.rs', 'references.push(self.value.clone());', '', ['R04']),
 ('r_set_adds', P + 'types/ioc.rs', 'for e in &self.additional_elements {\n            output.extend(e.dependent', 'for e in self.additional_elements.iter().skip(1) {\n            output.extend(e.dependent', ['R04']),
 ('r_set_class', P + 'types/ioc.rs', 'Self::Object(ref o) => o.dependent_references(),', 'Self::Object(ref _o) => vec![],', ['R04']),
 ('r_field_value', P + 'types/ioc.rs', 'output.push(value.clone());', '', ['R04']),
 ('r_nested_set', C, 'Self::Set(ref e) => e.clone().dependent_references(),', 'Self::Set(ref _e) => vec![],', ['R04']),
 ('r_size', C, 'Self::SizeConstraint(ref s) => s.clone().dependent_references(),', 'Self::SizeConstraint(ref _s) => vec![],', ['R04']),
 ('r_i8', C, 'match lower.parse::<i128>() {\n                    Ok(_) => {}', 'match lower.parse::<i128>() {\n                    _ if lower.len() == 1 => {}\n                    Ok(_) => {}', ['R04']),
 ('r_sorted_one', P + 'module.rs', 'for r in v.dependent_references() {', 'for r in v.dependent_references().into_iter().skip(1) {', ['R04']),
 ('r_sorted_imports', P + 'module.rs', 'if self.imports.get(&r).is_none() {', 'if self.definitions.get(&r).map_or(false, |d| d.params.is_none()) {', ['R04']),
 ('r_sorted_swap', P + 'module.rs', 'if self.imports.get(&r).is_none() {', 'if self.imports.get(k).is_none() && r.len() != 5 {', ['R04']),
]
