ROOT = 'asn-compiler/src'
CRATE = 'asn-compiler/src'
ALL = ['P02']
A = 'parser/asn/'
B = ['P02']
M = [
 ('oid_unwrap', A + 'oid.rs', '.parse::<u32>()\n                    .map_err(|_| invalid_token!(number_token))?;', '.parse::<u32>()\n                    .unwrap();', B),
 ('oid_name', A + 'oid.rs', '                if number.is_none() {\n                    return Err(unknown_oid_name!(name_token));\n                }\n', '', B),
 ('imports_progress', A + 'module.rs', '''                    imported_defs.push(definition);
                }
                consumed += 1;
''', '''                    imported_defs.push(definition);
                    consumed += 1;
                }
''', B),
 ('tokens_short', 'parser/utils.rs', 'if tokens.len() < checkers.len() {', 'if tokens.is_empty() {', B),
 ('keywords_short', 'parser/utils.rs', 'if tokens.len() < keywords.len() {', 'if tokens.is_empty() {', B),
 ('set_index', 'parser/utils.rs', 'consumed += 1;\n                return Ok((Token::concat(&tokens[0..consumed], " "), consumed));', 'consumed += 1;\n                return Ok((Token::concat(&tokens[0..consumed + 1], " "), consumed));', B),
 ('set_peek', 'parser/utils.rs', '''        consumed += 1;
        if expect_token(&tokens[consumed..], end_token)? {''', '''        consumed += 1;
        if end_token(&tokens[consumed]) {''', B),
 ('range_text', A + 'types/constraints.rs', '''        Err(_) => {
            if expect_token(&tokens[consumed..], is_min_max_keyword)? {
                (tokens[consumed].text.clone(), 1)''', '''        Err(_) => {
            if is_min_max_keyword(&tokens[consumed]) {
                (tokens[consumed].text.clone(), 1)''', B),
 ('elemset_consume', A + 'types/constraints.rs', '''        if expect_token(&tokens[consumed..], Token::is_comma)? {
            consumed += 1;
        }

        if let Ok(result) = parse_union_set''', '''        if tokens[consumed].is_comma() {
            consumed += 1;
        }

        if let Ok(result) = parse_union_set''', B),
 ('params_loop', A + 'defs.rs', '''        let param = DefinitionParam {
            _governer,
            dummyref,
        };''', '''        if !tokens[consumed].is_comma() && !tokens[consumed].is_curly_end() {
            return Err(parse_error!("Expected ',' or '}}'"));
        }
        let param = DefinitionParam {
            _governer,
            dummyref,
        };''', B),
 ('class_optional', A + 'types/ioc.rs', '''    let mut optional = false;
    let mut default = None;
    if expect_one_of_keywords(&tokens[consumed..], &["OPTIONAL", "DEFAULT"])? {
        if expect_keyword(&tokens[consumed..], "OPTIONAL")? {''', '''    let mut optional = false;
    let mut default = None;
    if ["OPTIONAL", "DEFAULT"].contains(&tokens[consumed].text.as_str()) {
        if expect_keyword(&tokens[consumed..], "OPTIONAL")? {''', B),
 ('enum_lenient', A + 'types/base/enumerated.rs', '''        if expect_token(&tokens[consumed..], Token::is_comma)? {
            consumed += 1;
        }

        if expect_one_of_tokens(
            &tokens[consumed..],
            &[Token::is_extension, Token::is_curly_end],
        )? {
            break;
        }
    }
    Ok((values''', '''        if tokens[consumed].is_comma() {
            consumed += 1;
        }

        if expect_one_of_tokens(
            &tokens[consumed..],
            &[Token::is_extension, Token::is_curly_end],
        )? {
            break;
        }
    }
    Ok((values''', B),
 ('seqgroup_endless', A + 'types/constructed/seq.rs', '''        if component.is_none() {
            break;
        }
        components.push(component.unwrap());
        consumed += component_consumed;

        if expect_token(&tokens[consumed..], Token::is_comma)? {
            consumed += 1;
        }
    }
''', '''        if let Some(component) = component {
            components.push(component);
        }
        consumed += component_consumed;

        if expect_token(&tokens[consumed..], Token::is_comma)? {
            consumed += 1;
        }
        if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
            break;
        }
    }
''', B),
 ('seqof_type', A + 'types/constructed/seq.rs', 'if !expect_keyword(&tokens[consumed..], "OF")? {', 'if !tokens[consumed].is_given_keyword("OF") {', B),
 ('union_break', A + 'types/constraints.rs', '''        if !expect_token(&tokens[consumed..], Token::is_set_union)? {
            break; // Break UnionSet loop.
        } else {
            consumed += 1;
        }''', '''        if expect_token(&tokens[consumed..], Token::is_round_end)? {
            break; // Break UnionSet loop.
        } else if expect_token(&tokens[consumed..], Token::is_set_union)? {
            consumed += 1;
        } else if expect_token(&tokens[consumed..], Token::is_comma)? {
            break;
        }''', B),
 ('choice_version', A + 'types/constructed/choice.rs', '''        consumed += 1;
        if !expect_token(&tokens[consumed..], Token::is_colon)? {
            return Err(unexpected_token!("':'", tokens[consumed]));
        }
        consumed += 1;''', '''        if !expect_token(&tokens[consumed + 1..], Token::is_colon)? {
            return Err(unexpected_token!("':'", tokens[consumed + 2]));
        }
        consumed += 2;''', B),
 ('comments', 'parser/int.rs', 'while total < tokens.len() {', 'while total <= tokens.len() {', B) if False else
 ('hdr_tags', A + 'module.rs', '            if expect_keyword(&tokens[consumed..], "TAGS")? {\n                consumed += 1\n            } else {', '            if tokens[consumed].is_given_keyword("TAGS") {\n                consumed += 1\n            } else {', B),
 # behaviour kept
 ('r_seq_while', A + 'types/constructed/seq.rs', '''        if expect_token(&tokens[consumed..], Token::is_extension)? {
            ext_marker_found += 1;
            consumed += 1;
            if expect_token(&tokens[consumed..], Token::is_comma)? {
                consumed += 1;
            }
        }
''', '''        consumed += skip_marker(&tokens[consumed..], &mut ext_marker_found)?;
''', [], ('fn parse_sequence_of_type(', '''fn skip_marker(tokens: &[Token], found: &mut i32) -> Result<usize, Error> {
    if !expect_token(tokens, Token::is_extension)? {
        return Ok(0);
    }
    *found += 1;
    if expect_token(&tokens[1..], Token::is_comma)? {
        return Ok(2);
    }
    Ok(1)
}

fn parse_sequence_of_type(''')),
 ('r_rename', A + 'types/constructed/choice.rs', 'let mut extension_markers = 0;', 'let mut markers = 0;', [], ('if extension_markers > 0 {\n                no_ver', 'if markers > 0 {\n                no_ver'), ('if extension_markers != 1', 'if markers != 1'), ('extension_markers += 1;', 'markers += 1;'), ('if extension_markers > 1', 'if markers > 1'), ('let additions = if extension_markers > 0', 'let additions = if markers > 0')),
 ('r_helper', A + 'types/constructed/seq.rs', '''        let optional = if expect_keyword(&tokens[consumed..], "OPTIONAL")? {
            consumed += 1;
            true
        } else {
            false
        };
''', '''        let optional = is_optional(&tokens[consumed..])?;
        if optional {
            consumed += 1;
        }
''', [], ('fn parse_seq_addition_group(', '''fn is_optional(tokens: &[Token]) -> Result<bool, Error> {
    expect_keyword(tokens, "OPTIONAL")
}

fn parse_seq_addition_group(''')),
 ('r_match', A + 'types/constructed/seq.rs', '''        let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
            Ok(result) => result,
            Err(_) => (None, 0),
        };
''', '''        let (component, component_consumed) =
            parse_seq_component(&tokens[consumed..]).unwrap_or((None, 0));
''', []),
 ('r_value', A + 'values.rs', '''            _ => parse_set_ish_value(tokens),
''', '''            TokenType::CurlyBegin | TokenType::RoundBegin => parse_set_ish_value(tokens),
            _ => Err(unexpected_token!("'VALUE'", tokens[0])),
''', []),
 ('r_union', A + 'types/constraints.rs', '''            if !expect_token(&tokens[consumed..], Token::is_set_intersection)? {
                break; // Break intersection Set loop.
            } else {
                expecting_iset = true;
                consumed += 1;
            }
''', '''            if expect_token(&tokens[consumed..], Token::is_set_intersection)? {
                expecting_iset = true;
                consumed += 1;
                continue;
            }
            break; // Break intersection Set loop.
''', []),
 ('r_oid', A + 'oid.rs', '''    while !expect_token(&tokens[consumed..], Token::is_curly_end)? {
        let (component, component_consumed) = parse_oid_component(&tokens[consumed..])?;
        components.push(component);
        consumed += component_consumed;
    }
''', '''    loop {
        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
            break;
        }
        let (component, component_consumed) = parse_oid_component(&tokens[consumed..])?;
        consumed += component_consumed;
        components.push(component);
    }
''', []),
 ('r_named', A + 'types/base/utils.rs', '''        if named_value.is_none() {
            return Err(parse_error!("Name(Value) expected, Value missing!"));
        }
        let named_value = named_value.unwrap();
''', '''        let named_value = match named_value {
            Some(named_value) => named_value,
            None => return Err(parse_error!("Name(Value) expected, Value missing!")),
        };
''', []),
 ('r_imports', A + 'module.rs', '''            for d in imported_defs {
                if imports.contains_key(&d) {
                    return Err(parse_error!("Definition '{}' is imported twice", d));
                }
                let _ = imports.insert(d, module_name.clone());
            }
''', '''            for d in imported_defs {
                if imports.insert(d.clone(), module_name.clone()).is_some() {
                    return Err(parse_error!("Definition '{}' is imported twice", d));
                }
            }
''', []),
 ('r_constraint', A + 'types/constraints.rs', '''    if let Ok(subtype) = parse_subtype_constraint(tokens) {
        Ok(subtype)
    } else if let Ok(table) = parse_table_constraint(tokens) {
        Ok(table)
    } else if let Ok(containing) = parse_contents_constraint(tokens) {
        Ok(containing)
    } else {
        Err(parse_error!(
            "Parsing of this constraint not yet supported!"
        ))
    }
''', '''    parse_subtype_constraint(tokens)
        .or_else(|_| parse_table_constraint(tokens))
        .or_else(|_| parse_contents_constraint(tokens))
        .map_err(|_| parse_error!("Parsing of this constraint not yet supported!"))
''', []),
]
