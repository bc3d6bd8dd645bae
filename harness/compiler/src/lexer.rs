//! The lexical rules, written once more: what the text of a module must become.

pub const KEYWORDS: &[&str] = &[
    "ABSENT", "ABSTRACT-SYNTAX", "ALL", "APPLICATION", "AUTOMATIC", "BEGIN", "BIT", "BMPString", "BOOLEAN", "BY",
    "CHARACTER", "CHOICE", "CLASS", "COMPONENT", "COMPONENTS", "CONSTRAINED", "CONTAINING", "DEFAULT", "DEFINITIONS",
    "EMBEDDED", "ENCODED", "END", "ENUMERATED", "EXCEPT", "EXPLICIT", "EXPORTS", "EXTENSIBILITY", "EXTERNAL", "FALSE",
    "FROM", "GeneralizedTime", "GeneralString", "GraphicString", "IA5String", "IDENTIFIER", "IMPLIED", "IMPLICIT",
    "IMPORTS", "INCLUDES", "INSTANCE", "INTEGER", "INTERSECTION", "ISO646String", "MAX", "MIN", "MINUS-INFINITY", "NULL",
    "NumericString", "OBJECT", "ObjectDescriptor", "OCTET", "OF", "OPTIONAL", "PATTERN", "PDV", "PLUS-INFINITY",
    "PRESENT", "PrintableString", "PRIVATE", "REAL", "RELATIVE-OID", "SEQUENCE", "SET", "SIZE", "STRING", "SYNTAX",
    "T61String", "TAGS", "TeletexString", "TRUE", "TYPE-IDENTIFIER", "UNION", "UNIQUE", "UNIVERSAL", "UniversalString",
    "UTCTime", "UTF8String", "VideotexString", "VisibleString", "WITH",
];

#[derive(Debug, PartialEq, Clone)]
pub struct Tok { pub kind: &'static str, pub text: String, pub line: usize }

fn name(c: char) -> bool { c.is_ascii_alphanumeric() || c == '-' }

/// The tokens of a text; `None`: it is no ASN.1 text.
pub fn lex(bytes: &[u8]) -> Option<Vec<Tok>> {
    let text = std::str::from_utf8(bytes).ok()?;
    let s: Vec<char> = text.chars().collect();
    let (mut i, mut line) = (0, 1);
    let mut out = vec![];
    while i < s.len() {
        let at = |k: usize| s.get(i + k).copied();
        let while_ = |from: usize, p: &dyn Fn(char) -> bool| (i + from..s.len()).find(|&j| !p(s[j])).unwrap_or(s.len()) - i;
        let (kind, n): (&'static str, usize) = match s[i] {
            '\n' => { line += 1; i += 1; continue; }
            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' | '\u{feff}' => { i += 1; continue; }
            '-' if at(1) == Some('-') => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= s.len() { break ("Comment", s.len() - i); }
                    if s[j] == '\n' { break ("Comment", j - i); }
                    if s[j] == '-' && s[j + 1] == '-' { break ("Comment", j + 2 - i); }
                    j += 1;
                }
            }
            '-' | '0'..='9' => {
                let neg = (s[i] == '-') as usize;
                let n = while_(neg, &|c| c.is_ascii_digit());
                if n == neg { return None; }
                ("NumberInt", n)
            }
            '{' => ("CurlyBegin", 1), '}' => ("CurlyEnd", 1), '(' => ("RoundBegin", 1), ')' => ("RoundEnd", 1),
            '!' => ("ExceptionMarker", 1), ';' => ("SemiColon", 1), ',' => ("Comma", 1), '|' => ("SetUnionToken", 1),
            '^' => ("SetIntersectionToken", 1), '<' => ("LessThan", 1),
            '[' => if at(1) == Some('[') { ("AdditionGroupsBegin", 2) } else { ("SquareBegin", 1) },
            ']' => if at(1) == Some(']') { ("AdditionGroupsEnd", 2) } else { ("SquareEnd", 1) },
            ':' => match (at(1), at(2)) { (Some(':'), Some('=')) => ("Assignment", 3), (Some(':'), _) => return None, _ => ("Colon", 1) },
            '.' => match (at(1), at(2)) { (Some('.'), Some('.')) => ("Extension", 3), (Some('.'), _) => ("RangeSeparator", 2), _ => ("Dot", 1) },
            'a'..='z' | 'A'..='Z' | '&' => {
                let and = (s[i] == '&') as usize;
                let n = while_(and, &name);
                let t: String = s[i..i + n].iter().collect();
                if n == and || t.ends_with('-') || t.contains("--") { return None; }
                (if and == 1 { "AndIdentifier" } else if KEYWORDS.contains(&t.as_str()) { "Keyword" } else { "Identifier" }, n)
            }
            '@' => {
                let n = while_(1, &|c| name(c) || c == '.');
                if i + 1 == s.len() || s[i + n - 1] == '.' || s[i + n - 1] == '-' { return None; }
                ("AtComponentIdList", n)
            }
            '\'' => {
                let j = (i + 1..s.len()).find(|&j| s[j] == '\'')?;
                let inside: String = s[i..=j].iter().filter(|c| !c.is_whitespace()).collect();
                let kind = match s.get(j + 1)? {
                    'h' | 'H' if inside.chars().all(|c| c == '\'' || c.is_ascii_hexdigit()) => "HexString",
                    'b' | 'B' if inside.chars().all(|c| matches!(c, '0' | '1' | '\'')) => "BitString",
                    _ => return None,
                };
                out.push(Tok { kind, text: inside, line });
                line += s[i..=j].iter().filter(|c| **c == '\n').count();
                i = j + 2;
                continue;
            }
            '"' => {
                let mut j = i + 1;
                while *s.get(j)? != '"' || s.get(j + 1) == Some(&'"') { j += if s[j] == '"' { 2 } else { 1 }; }
                let t: String = s[i..=j].iter().collect();
                out.push(Tok { kind: "TString", text: t.lines().map(|l| l.trim()).collect(), line });
                line += s[i..=j].iter().filter(|c| **c == '\n').count();
                i = j + 1;
                continue;
            }
            _ => return None,
        };
        out.push(Tok { kind, text: s[i..i + n].iter().collect(), line });
        i += n;
    }
    Some(out)
}

/// A token as `{:?}` shows it.
pub fn shown(d: &str) -> Option<(String, usize, String)> {
    let kind = d.split("type: ").nth(1)?.split(|c: char| !c.is_alphanumeric()).next()?.to_string();
    let line = d.split("line: ").nth(1)?.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()?;
    let text = d[d.find("text: ")? + 6..].trim_end().trim_end_matches('}').trim_end().trim_end_matches(',').to_string();
    Some((kind, line, text))
}
