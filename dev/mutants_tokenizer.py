ROOT = 'asn-compiler/src'
CRATE = 'asn-compiler/src'
ALL = ['P01']
T = 'tokenizer/mod.rs'
M = [
 ('hyphen_end', T, "    if chars[consumed - 1] == '-' {\n        return Err(Error::TokenizeError(16, line, begin));\n    }\n", '', ['P01']),
 ('kw_missing', T, '    "PDV",\n', '', ['P01']),
 ('kw_extra', T, '    "PDV",\n', '    "PDV",\n    "PER",\n', ['P01']),
 ('kw_case', T, 'KEYWORDS.iter().any(|&kw| text == kw)', 'KEYWORDS.iter().any(|&kw| text.eq_ignore_ascii_case(kw))', ['P01']),
 ('string_lines', T, '                line += l;\n            }\n            // Zero', '                line += l.min(3);\n            }\n            // Zero', ['P01']),
 ('bom_line', T, "            '\\u{feff}' => {\n                processed += 1;", "            '\\u{feff}' => {\n                processed += 1;\n                line = 1;", ['P01']),
 ('comment_end', T, 'consumed += idx + 2; // --123', 'consumed += idx + 1; // --123', ['P01']),
 ('at_dot', T, "if ['.', '-'].iter()", "if ['-'].iter()", ['P01']),
 ('bits2', T, "&['0', '1', '\\''][..]", "&['0', '1', '2', '\\''][..]", ['P01']),
 ('hexws', T, 'text = text.replace(char::is_whitespace, "");', 'text = text.replace(\' \', "");', ['P01']),
 ('range3', T, "} else if chars.len() == 2 {\n        if chars[1] == '.' {", "} else if chars.len() <= 3 {\n        if chars[1] == '.' {", ['P01']),
 ('str_trim', T, '.map(|line| line.trim())', '.map(|line| line.trim_end())', ['P01']),
 ('str_esc', T, "                i += 2;", "                i += 1 + (chars.len() < 70) as usize;", ['P01']),
 ('num_alnum', T, 'position(|&x| !x.is_ascii_digit());', "position(|&x| !(x.is_ascii_digit() || x == '_'));", ['P01']),
 ('feff_in', T, "            // Zero width ....\n            '\\u{feff}' => {\n                processed += 1;\n            }\n", '', ['P01']),
 # behaviour kept
 ('r_while', T, '''    loop {
        // " " " " .''', '''    while last.is_none() {
        // " " " " .''', []),
 ('r_helper', T, '''    Ok((
        Token {
            r#type: token_type,
            span: Span::new(
                LineColumn::new(line, begin),
                LineColumn::new(line, begin + consumed),
            ),
            text: chars[..consumed].iter().collect::<String>(),
        },
        consumed,
    ))
}

// Parse either''', '''    Ok((make_token(token_type, chars, line, begin, consumed), consumed))
}

fn make_token(token_type: TokenType, chars: &[char], line: usize, begin: usize, consumed: usize) -> Token {
        Token {
            r#type: token_type,
            span: Span::new(
                LineColumn::new(line, begin),
                LineColumn::new(line, begin + consumed),
            ),
            text: chars[..consumed].iter().collect::<String>(),
        }
}

// Parse either''', []),
 ('r_match', T, '''    let (token_type, consumed) = if chars.len() == 1 {
        (TokenType::Dot, 1)
    } else if chars.len() == 2 {
        if chars[1] == '.' {
            (TokenType::RangeSeparator, 2)
        } else {
            (TokenType::Dot, 1)
        }
    } else if chars[1] == '.' {
        if chars[2] == '.' {
            (TokenType::Extension, 3)
        } else {
            (TokenType::RangeSeparator, 2)
        }
    } else {
        (TokenType::Dot, 1)
    };''', '''    let (token_type, consumed) = match (chars.get(1), chars.get(2)) {
        (Some('.'), Some('.')) => (TokenType::Extension, 3),
        (Some('.'), _) => (TokenType::RangeSeparator, 2),
        _ => (TokenType::Dot, 1),
    };''', []),
 ('r_loop', T, '''    let last = chars[and..]
        .iter()
        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-'));

    if let Some(lst) = last {
        consumed += lst;
    } else {
        consumed += chars[and..].len();
    }
''', '''    while consumed < chars.len() && (chars[consumed].is_ascii_alphanumeric() || chars[consumed] == '-') {
        consumed += 1;
    }
''', []),
 ('r_unwrap_or', T, '''    if let Some(lst) = last {
        consumed += lst;
    } else {
        consumed += chars[neg..].len();
    }
''', '''    consumed += last.unwrap_or(chars.len() - neg);
''', []),
 ('r_contains', T, 'KEYWORDS.iter().any(|&kw| text == kw)', 'KEYWORDS.contains(&text.as_str())', []),
 ('r_windows', T, '''    for (idx, window) in chars[2..].windows(2).enumerate() {
        if window[0] == '\\n' {
            last_idx = Some(idx);
            consumed += idx;
            break;
        }
        if window[0] == '-' && window[1] == '-' {
            last_idx = Some(idx);
            consumed += idx + 2; // --123-- : idx: 3 consumed: 7
            break;
        }
    }
''', '''    let mut idx = 0;
    while idx + 3 < chars.len() {
        let (first, second) = (chars[idx + 2], chars[idx + 3]);
        if first == '\\n' || (first == '-' && second == '-') {
            last_idx = Some(idx);
            consumed += if first == '\\n' { idx } else { idx + 2 };
            break;
        }
        idx += 1;
    }
''', []),
 ('r_single', T, '''    let token_type: TokenType;
    match token {
        '{' => token_type = TokenType::CurlyBegin,
        '}' => token_type = TokenType::CurlyEnd,
        '(' => token_type = TokenType::RoundBegin,
        ')' => token_type = TokenType::RoundEnd,
        '!' => token_type = TokenType::ExceptionMarker,
        ';' => token_type = TokenType::SemiColon,
        ',' => token_type = TokenType::Comma,
        '|' => token_type = TokenType::SetUnionToken,
        '^' => token_type = TokenType::SetIntersectionToken,
        '<' => token_type = TokenType::LessThan,
        _ => return Err(Error::TokenizeError(21, line, begin)),
    }
''', '''    let token_type = match token {
        '{' => TokenType::CurlyBegin,
        '}' => TokenType::CurlyEnd,
        '(' => TokenType::RoundBegin,
        ')' => TokenType::RoundEnd,
        '!' => TokenType::ExceptionMarker,
        ';' => TokenType::SemiColon,
        ',' => TokenType::Comma,
        '|' => TokenType::SetUnionToken,
        '^' => TokenType::SetIntersectionToken,
        '<' => TokenType::LessThan,
        _ => return Err(Error::TokenizeError(21, line, begin)),
    };
''', []),
 ('r_iflet', T, '''    if last.is_none() {
        // No matching '\\'' found till the end of the string. Clearly an error.
        return Err(Error::TokenizeError(7, line, begin));
    }
    let mut consumed = last.unwrap() + 1 + 1;''', '''    let mut consumed = match last {
        Some(l) => l + 2,
        None => return Err(Error::TokenizeError(7, line, begin)),
    };''', []),
 ('r_whitespace', T, "            ' ' | '\\t' | '\\r' | '\\x0b' | '\\x0c' => {\n                processed += 1;\n                column += 1;\n            }\n", "            c if c == ' ' || c == '\\t' || c == '\\r' || c == '\\x0b' || c == '\\x0c' => {\n                column += 1;\n                processed += 1;\n            }\n", []),
 ('r_columns', T, "                column += 1;\n                processed += 1;\n            }\n            '[' | ']'", "                processed += 1;\n                column += 1;\n                let _ = column;\n            }\n            '[' | ']'", []),
]
