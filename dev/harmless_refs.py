"""Edits of the collection of references and of the order that keep the behaviour: the checks have to stay quiet (mut.py)."""
ROOT = 'asn-compiler/src'
CRATE = 'asn-compiler/src'
ALL = ['R01', 'R02', 'R03', 'R04', 'R05']
K = 'parser/asn/structs/types/constructed.rs'
I = 'parser/asn/structs/types/ioc.rs'
T = 'parser/asn/structs/types/mod.rs'
B = 'parser/asn/structs/types/base.rs'
D = 'parser/asn/structs/module.rs'
A = 'parser/asn/structs/defs.rs'
C = 'resolver/asn/types/constraints.rs'
M = [
 ('choice_match', K, '''        if self.additions.is_some() {
            for a in self.additions.as_ref().unwrap() {
                dependencies.extend(a.dependent_references());
            }
        }''', '''        if let Some(ref additions) = self.additions {
            for a in additions {
                dependencies.extend(a.dependent_references());
            }
        }''', []),
 ('seq_order', K, '''        for c in &self.root_components {
            dependencies.extend(c.dependent_references());
        }
        for a in &self.additions {
            dependencies.extend(a.dependent_references());
        }
        dependencies''', '''        for a in self.additions.iter() {
            let mut references = a.dependent_references();
            dependencies.append(&mut references);
        }
        for c in self.root_components.iter() {
            dependencies.extend(c.dependent_references());
        }
        dependencies''', []),
 ('seq_chain', K, '''        let mut dependencies = vec![];
        for c in &self.root_components {
            dependencies.extend(c.dependent_references());
        }
        for a in &self.additions {
            dependencies.extend(a.dependent_references());
        }
        dependencies''', '''        self.root_components
            .iter()
            .flat_map(|c| c.dependent_references())
            .chain(self.additions.iter().flat_map(|a| a.dependent_references()))
            .collect()''', []),
 ('group_flat', K, '''            .map(|c| c.dependent_references())
            .flatten()
            .collect()''', '''            .flat_map(|c| c.dependent_references())
            .collect()''', []),
 ('group_loop', K, '''        self.components
            .iter()
            .map(|c| c.dependent_references())
            .flatten()
            .collect()''', '''        let mut references = vec![];
        for c in &self.components {
            references.extend(c.dependent_references());
        }
        references''', []),
 ('type_direct', T, '''        let mut constraint_references = vec![];
        if self.constraints.is_some() {
            for constraint in self.constraints.as_ref().unwrap() {
                let constraint_dependent = constraint.dependent_references();
                constraint_references.extend(constraint_dependent);
            }
        }

        kind_references.extend(constraint_references);
        kind_references''', '''        if let Some(constraints) = &self.constraints {
            for constraint in constraints {
                kind_references.extend(constraint.dependent_references());
            }
        }
        kind_references''', []),
 ('param_push', T, '''                let mut dependent_references = vec![typeref.clone()];
                for param in params {
                    dependent_references.extend(param.dependent_references());
                }
                dependent_references''', '''                let mut dependent_references = vec![];
                for param in params {
                    dependent_references.extend(param.dependent_references());
                }
                dependent_references.push(typeref.clone());
                dependent_references''', []),
 ('param_or', T, '''            Self::Set(ref s) => vec![s.clone()],
            Self::Single(ref s) => vec![s.clone()],''', '''            Self::Set(ref s) | Self::Single(ref s) => vec![s.clone()],''', []),
 ('set_extend', I, '''        output.append(&mut self.objects.dependent_references());
        output''', '''        output.extend(self.objects.dependent_references());
        output''', []),
 ('field_match', I, '''                if ty.is_some() {
                    ty.as_ref().unwrap().dependent_references()
                } else {
                    vec![]
                }''', '''                match ty {
                    Some(ty) => ty.dependent_references(),
                    None => vec![],
                }''', []),
 ('class_extend', I, '''                let mut field_references = field_type.dependent_references();
                output.append(&mut field_references);''', '''                output.extend(field_type.dependent_references());''', []),
 ('class_match', I, '''            if let ObjectClassFieldSpec::FixedTypeValue { field_type, .. } = field {
                let mut field_references = field_type.dependent_references();
                output.append(&mut field_references);
            }
        }
        output''', '''            match field {
                ObjectClassFieldSpec::FixedTypeValue { field_type, .. } => {
                    output.append(&mut field_type.dependent_references());
                }
                ObjectClassFieldSpec::Type { .. } => {}
            }
        }
        output''', []),
 ('objset_chain', I, '''        for e in &self.root_elements {
            output.extend(e.dependent_references());
        }
        for e in &self.additional_elements {
            output.extend(e.dependent_references());
        }
        output''', '''        for e in self.root_elements.iter().chain(self.additional_elements.iter()) {
            output.extend(e.dependent_references());
        }
        output''', []),
 ('elem_match', C, '''        if self.additional_elements.is_some() {
            output.extend(
                self.additional_elements
                    .as_ref()
                    .unwrap()
                    .dependent_references(),
            );
        }
        output''', '''        if let Some(ref additional) = self.additional_elements {
            output.extend(additional.dependent_references());
        }
        output''', []),
 ('enum_chain', B, '''        for item in &self.root_values {
            if let Some(NamedValue::ValueRef(ref r)) = item.value {
                references.push(r.clone());
            }
        }
        for item in &self.ext_values {''', '''        for item in self.root_values.iter().chain(&self.ext_values) {''', []),
 ('sort_while', D, '''        loop {
            let popped = ts.pop_all();
            if popped.is_empty() {
                break;
            } else {
                out_vec.extend(popped);
            }
        }
        out_vec''', '''        let mut popped = ts.pop_all();
        while !popped.is_empty() {
            out_vec.extend(popped);
            popped = ts.pop_all();
        }
        out_vec''', []),
 ('sort_insert_first', D, '''            for r in v.dependent_references() {
                if self.imports.get(&r).is_none() {
                    ts.add_dependency(r.clone(), k.clone());
                }
            }
            ts.insert(k);''', '''            ts.insert(k.clone());
            for r in v.dependent_references() {
                if !self.imports.contains_key(&r) {
                    ts.add_dependency(r, k.clone());
                }
            }''', []),
 ('sort_noop', D, '''        let mut out_vec = vec![];
        loop {''', '''        let mut out_vec = vec![];
        let _count = self.definitions.len();
        loop {''', []),
 ('value_let', A, '''        if self.value.parse::<i128>().is_err() {
            references.push(self.value.clone());
        }
        references''', '''        let is_number = self.value.parse::<i128>().is_ok();
        if !is_number {
            references.push(self.value.clone());
        }
        references''', []),
]
