S = 'asn-compiler/src/resolver/asn/'
D = ['compiler']
RUN = r'''
fn resolved(defs: &str) -> Result<String, ()> {
    let text = format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} END", defs);
    let mut tokens = asn1_compiler::tokenizer::tokenize(text.as_bytes()).unwrap();
    let mut c = asn1_compiler::Asn1Compiler::new();
    for m in asn1_compiler::parser::parse(&mut tokens).unwrap() { c.add_module(m); }
    match c.resolve_modules() {
        Ok(()) => { let s = format!("{:?}", c); let at = s.rfind("resolved_defs: ").unwrap(); Ok(s[at..].to_string()) }
        Err(_) => Err(()),
    }
}
'''
def main(body): return RUN + 'fn main() {\n' + body + '}\n'
OBJECTS = r'''
fn objects(set: &str, components: &str) -> String {
    format!("K ::= CLASS {{ &id INTEGER UNIQUE, &crit INTEGER, &T }} WITH SYNTAX {{ ID &id CRIT &crit TYPE &T }}
        va INTEGER ::= 7 vb INTEGER ::= 8 vc INTEGER ::= 9 A ::= NULL
        a K ::= {{ ID va CRIT 1 TYPE A }} b K ::= {{ ID vb CRIT 1 TYPE A }} c K ::= {{ ID vc CRIT 1 TYPE A }}
        N K ::= {{ c }} S K ::= {} Q ::= SEQUENCE {{ {} }}", set, components)
}
'''
ALWAYS = r'''
fn always(defs: &str) -> bool { (0..80).all(|_| resolved(defs).is_ok()) }
'''
P = 'asn-compiler/src/parser/asn/structs/types/'
SEEDS = [
 dict(id='min-of-ranges', property='R02', needs='a union of a range and a negative single value below it', deps=D,
  breaks='the INTEGER is unsigned although it may be negative', edits=[(S + 'structs/types/constraints.rs', 'Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),', 'Some(rnges_min) => Some(rnges_min),')],
  main=main(r'''
    assert!(resolved("A ::= INTEGER (-5..-1 | 10)").unwrap().contains("signed: true"));
    assert!(resolved("A ::= INTEGER (0..10 | 20)").unwrap().contains("signed: false"));
    assert!(resolved("A ::= INTEGER (-5 | 0..10)").unwrap().contains("signed: true"));
    assert!(resolved("A ::= INTEGER (0..10, ..., -1)").unwrap().contains("signed: true"));
''')),
 dict(id='additions-last-only', property='R01', needs='two elements behind the extension marker of a constraint', deps=D,
  breaks='only the last of the additional elements counts', edits=[(S + 'types/constraints.rs', 'additional_values.append(&element_values);', 'additional_values = element_values;')],
  main=main(r'''
    let additional = |d: &str| { let s = resolved(d).unwrap(); let at = s.find("additional_values: Some").unwrap(); s[at..].to_string() };
    assert!(additional("A ::= INTEGER (0..3, ..., 17..18)").contains("17..19"));
    let two = additional("A ::= INTEGER (0..3, ..., 17..18 | 30..33)");
    assert!(two.contains("17..19") && two.contains("30..34"));
''')),
 dict(id='bounds-as-i64', property='R01', needs='a bound above the greatest i64', deps=D,
  breaks='a constraint with such a bound is refused', edits=[(S + 'types/constraints.rs', '        let parsed = value.parse::<i128>();\n', '        let parsed = value.parse::<i64>().map(i128::from);\n')],
  main=main(r'''
    assert!(resolved("A ::= INTEGER (0..9223372036854775807)").is_ok());
    assert!(resolved("A ::= INTEGER (0..18446744073709551615)").unwrap().contains("bits: 64, signed: false"));
''')),
 dict(id='choice-marker-lost', property='R03', needs='a CHOICE that ends in an extension marker with nothing behind it', deps=D,
  breaks='the CHOICE is no longer extensible', edits=[(S + 'types/constructed.rs', '        Some(components)\n    } else {', '        (!components.is_empty()).then(|| components)\n    } else {')],
  main=main(r'''
    assert!(resolved("A ::= CHOICE { a NULL }").unwrap().contains("additions: None"));
    assert!(resolved("A ::= CHOICE { a NULL, ..., b NULL }").unwrap().contains("additions: Some"));
    assert!(resolved("A ::= CHOICE { a NULL, ... }").unwrap().contains("additions: Some"));
''')),
 dict(id='list-size-dropped', property='R01', needs='the size of a SEQUENCE OF refers to a value that is not defined', deps=D,
  breaks='the list has no size constraint instead of being refused', edits=[(S + 'types/constructed.rs', '        Some(size.get_size_valueset(resolver)?)', '        size.get_size_valueset(resolver).ok()')],
  main=main(r'''
    assert!(resolved("n INTEGER ::= 3 A ::= SEQUENCE (SIZE (1..n)) OF NULL").is_ok());
    assert!(resolved("A ::= SEQUENCE (SIZE (1..n)) OF NULL").is_err());
''')),
 dict(id='enum-marker-lost', property='R03', needs='an ENUMERATED that ends in an extension marker with nothing behind it', deps=D,
  breaks='the ENUMERATED is no longer extensible', edits=[(S + 'types/base/enumerated.rs', 'extensible: e.ext_marker_index.is_some(),', 'extensible: !e.ext_values.is_empty(),')],
  main=main(r'''
    assert!(resolved("A ::= ENUMERATED { a, b }").unwrap().contains("extensible: false"));
    assert!(resolved("A ::= ENUMERATED { a, b, ..., c }").unwrap().contains("extensible: true"));
    assert!(resolved("A ::= ENUMERATED { a, b, ... }").unwrap().contains("extensible: true"));
''')),
 dict(id='sequence-empty-marker', property='R03', needs='a SEQUENCE of nothing but an extension marker', deps=D,
  breaks='the SEQUENCE is not extensible', edits=[(S + 'types/constructed.rs', '''            components,
            extensible: sequence.extensible,
            name: None,''', '''            extensible: sequence.extensible && !components.is_empty(),
            components,
            name: None,''')],
  main=main(r'''
    assert!(resolved("A ::= SEQUENCE { a NULL }").unwrap().contains("extensible: false"));
    assert!(resolved("A ::= SEQUENCE { a NULL, ... }").unwrap().contains("extensible: true"));
    assert!(resolved("A ::= SEQUENCE { ... }").unwrap().contains("extensible: true"));
''')),

 dict(id='object-set-nested-last', property='R05', needs='an object set that names an object first and another object set behind it', deps=D,
  breaks='the objects named before the other set have no alternative in the open types of the set', edits=[(S + 'types/ioc.rs', 'lookup_table.extend(o.objects.lookup_table.clone());', 'lookup_table = o.objects.lookup_table.clone();')],
  main=main(OBJECTS + r'''
    let t = |set: &str| { let s = resolved(&objects(set, "id K.&id ({S}), val K.&T ({S}{@id})")).unwrap(); let at = s.find("\"Q\": ").unwrap(); let s = &s[at..]; s[..s.find("class_field_type: Some(Type)").unwrap()].to_string() };
    assert!(t("{ a | b }").contains("\"7\"") && t("{ a | b }").contains("\"8\""));
    assert!(t("{ N }").contains("\"9\""));
    let s = t("{ N | a | b }");
    assert!(s.contains("\"7\"") && s.contains("\"8\"") && s.contains("\"9\""));
    let s = t("{ a, ..., N }");
    assert!(s.contains("\"7\"") && s.contains("\"9\""));
''')),
 dict(id='object-set-only-additions', property='R05', needs='an object set with nothing before its extension marker and objects behind it', deps=D,
  breaks='such a set is empty', edits=[(S + 'types/ioc.rs', 'input_elements.extend(objectset.objects.additional_elements.clone());', '''if !input_elements.is_empty() {
                input_elements.extend(objectset.objects.additional_elements.clone());
            }''')],
  main=main(OBJECTS + r'''
    let q = |set: &str| { let s = resolved(&objects(set, "id K.&id ({S}), val K.&T ({S}{@id})")).unwrap(); let at = s.find("\"Q\": ").unwrap(); s[at..].to_string() };
    assert!(q("{ a, ... }").contains("\"7\""));
    assert!(q("{ a, ..., b }").contains("\"8\""));
    assert!(q("{ ..., b }").contains("\"8\""));
''')),
 dict(id='key-field-not-first', property='R05', needs='a SEQUENCE of class fields whose key is not its first component', deps=D,
  breaks='the SEQUENCE has no key by which to decode its open types', edits=[(S + 'types/constructed.rs', 'key_field: comp_spec.is_none(),', 'key_field: comp_spec.is_none() && result.is_empty(),')],
  main=main(OBJECTS + r'''
    assert!(resolved(&objects("{ a | b }", "id K.&id ({S}), val K.&T ({S}{@id})")).unwrap().contains("key_field: true"));
    assert!(resolved(&objects("{ a | b }", "crit K.&crit ({S}{@id}), id K.&id ({S}), val K.&T ({S}{@id})")).unwrap().contains("key_field: true"));
''')),

 dict(id='refs-choice-additions', property='R04', needs='a CHOICE that names types both before and behind its extension marker, and a hash map that yields the CHOICE before the latter', deps=D,
  breaks='the CHOICE is resolved before the type of an addition in some runs, which fail', edits=[(P + 'constructed.rs', '        if self.additions.is_some() {\n            for a in self.additions', '        if dependencies.is_empty() && self.additions.is_some() {\n            for a in self.additions')],
  main=main(ALWAYS + r"""
    assert!(always("A ::= CHOICE { a NULL, ..., b B } B ::= NULL"));
    assert!(always("A ::= CHOICE { b B, ... } B ::= NULL"));
    assert!(always("A ::= CHOICE { b B, ..., c C } B ::= NULL C ::= D D ::= NULL"));
    assert!(resolved("A ::= CHOICE { b B, ..., c C } B ::= NULL").is_err());
""")),
 dict(id='refs-upper-bound', property='R04', needs='a range with values named at both ends, the upper one of a type with a name of its own', deps=D,
  breaks='only the value at the lower end is resolved first for certain', edits=[(S + 'types/constraints.rs', '                    Err(_) => output.extend(vec![upper.trim().to_string()]),', '                    Err(_) if output.is_empty() => output.extend(vec![upper.trim().to_string()]),\n                    Err(_) => {}')],
  main=main(ALWAYS + r"""
    assert!(always("A ::= INTEGER (0..n) n INTEGER ::= 4"));
    assert!(always("A ::= INTEGER (m..4) m INTEGER ::= 1"));
    assert!(always("A ::= INTEGER (m..n) m INTEGER ::= 1 n N ::= 4 N ::= INTEGER"));
    assert!(resolved("A ::= INTEGER (m..n) m INTEGER ::= 1").is_err());
""")),
 dict(id='refs-additional-values', property='R04', needs='a constraint with a named value both before and behind its extension marker', deps=D,
  breaks='the values behind the marker are not resolved first for certain', edits=[(S + 'types/constraints.rs', '        if self.additional_elements.is_some() {\n            output.extend(', '        if output.is_empty() && self.additional_elements.is_some() {\n            output.extend(')],
  main=main(ALWAYS + r"""
    assert!(always("A ::= INTEGER (1, ..., n) n INTEGER ::= 4"));
    assert!(always("A ::= INTEGER (m, ...) m INTEGER ::= 4"));
    assert!(always("A ::= INTEGER (m, ..., n) n N ::= 4 N ::= INTEGER m INTEGER ::= 1"));
""")),
]
