"""Changes of the way through a module's definitions (mut.py)."""
ROOT = 'asn-compiler/src'
CRATE = 'asn-compiler/src'
ALL = ['R04', 'R05']
N = 'resolver/int.rs'
D = 'parser/asn/structs/module.rs'
W = ['R03', 'R04', 'R05']
M = [
 ('m_reverse', N, 'for k in definitions_sorted {', 'for k in definitions_sorted.into_iter().rev() {', ['R04']),
 ('m_cycle_ok', N, 'if !parsed_def.resolved {', 'if !parsed_def.resolved && parsed_def.params.is_some() {', ['R04']),
 ('m_key', N, '                self.resolved_defs.insert(k.clone(), resolved_def);', '                self.resolved_defs.insert(parsed_def.id().trim_end_matches(\'0\').to_string(), resolved_def);', W),
 ('m_resolved_early', N, '            let parsed_def = parsed_def.unwrap();\n', '            let parsed_def = parsed_def.unwrap();\n            if parsed_def.resolved {\n                break;\n            }\n', []),
 ('m_skip_err', N, 'let resolved_def = resolve_definition(parsed_def, self)?;\n                self.resolved_defs.insert(k.clone(), resolved_def);', 'if let Ok(resolved_def) = resolve_definition(parsed_def, self) {\n                    self.resolved_defs.insert(k.clone(), resolved_def);\n                }', W),
 # the same behaviour
 ('m_ok_else', N, '''            if parsed_def.is_none() {
                eprintln!(
                    "Definition '{}' Not found! It's Okay for certain Dummy References",
                    k
                );
                continue;
            }
            let parsed_def = parsed_def.unwrap();''', '''            let parsed_def = match parsed_def {
                Some(def) => def,
                None => {
                    eprintln!("Definition '{}' Not found!", k);
                    continue;
                }
            };''', []),
 ('m_ok_iter', N, 'for k in definitions_sorted {\n            let parsed_def', 'for k in definitions_sorted.iter() {\n            let k = k.clone();\n            let parsed_def', []),
 ('m_ok_match', N, '            if parsed_def.params.is_some() {\n', '            let parameterized = parsed_def.params.is_some();\n            if parameterized {\n', []),
 ('m_ok_resolved_once', N, '''                self.parameterized_defs
                    .insert(k.to_string(), parsed_def.clone());
                parsed_def.resolved = true;''', '''                self.parameterized_defs
                    .insert(k.to_string(), parsed_def.clone());''', []),
]
