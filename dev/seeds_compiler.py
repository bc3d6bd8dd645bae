import importlib.util, os
spec = importlib.util.spec_from_file_location('mp', os.path.join(os.path.dirname(__file__), 'mutants_parser.py')); mp = importlib.util.module_from_spec(spec); spec.loader.exec_module(mp)
MUT = {m[0]: m for m in mp.M}
S = 'asn-compiler/src/'
D = ['compiler']
def of(name): m = MUT[name]; return [(S + m[1], m[2], m[3])]
RUN = '''
fn parses(text: &str) -> Option<bool> {
    let (tx, rx) = std::sync::mpsc::channel();
    let text = text.to_string();
    std::thread::spawn(move || {
        let mut tokens = asn1_compiler::tokenizer::tokenize(text.as_bytes()).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| asn1_compiler::parser::parse(&mut tokens).is_ok()));
        let _ = tx.send(r.ok());
    });
    rx.recv_timeout(std::time::Duration::from_secs(30)).ok().flatten()
}
'''
def texts(ok, err):
    return RUN + 'fn main() {\n' + ''.join(f'    assert_eq!(parses({x!r}), Some(true));\n'.replace("'", '"') if "'" not in x else '' for x in ok) \
        + ''.join(f'    assert_eq!(parses({x!r}), Some(false));\n'.replace("'", '"') for x in err) + '}\n'
SEEDS = [
 dict(id='name-unicode', property='P01', needs='a letter outside ASCII within a name', deps=D,
  breaks='the letter becomes part of the name, a text that is no module is accepted',
  edits=[(S + 'tokenizer/mod.rs', ".position(|&x| !(x.is_ascii_alphanumeric() || x == '-'));\n\n    if let Some(lst) = last {\n        consumed += lst;", ".position(|&x| !(x.is_alphanumeric() || x == '-'));\n\n    if let Some(lst) = last {\n        consumed += lst;")],
  main=r'''
fn main() {
    assert_eq!(asn1_compiler::tokenizer::tokenize("Cafe ::= NULL".as_bytes()).unwrap().len(), 3);
    assert!(asn1_compiler::tokenizer::tokenize("Caf\u{e9} ::= NULL".as_bytes()).is_err());
    assert!(asn1_compiler::tokenizer::tokenize("a\u{661} ::= NULL".as_bytes()).is_err());
}
'''),
 dict(id='string-line-count', property='P01', needs='a character string over three or more lines, and a token behind it', deps=D,
  breaks='the tokens behind the string carry the wrong line',
  edits=[(S + 'tokenizer/mod.rs', """                let (token, consumed, l, c) = get_string_token(&chars[processed..], line, column)?;
                tokens.push(token);
                processed += consumed;
                if l > 0 {
                    column = c;
                } else {
                    column += consumed;
                }
                line += l;
""", """                let (token, consumed, l, c) = get_string_token(&chars[processed..], line, column)?;
                tokens.push(token);
                processed += consumed;
                if l > 0 {
                    column = c;
                    line += 1;
                } else {
                    column += consumed;
                }
""")],
  main=r'''
fn line(n: usize) -> String {
    let text = format!("\"a{}b\" tail", "\n x".repeat(n));
    let t = asn1_compiler::tokenizer::tokenize(text.as_bytes()).unwrap();
    assert_eq!(t.len(), 2);
    let shown = format!("{:?}", t[1]);
    let at = shown.find("line: ").unwrap() + 6;
    shown[at..].chars().take_while(|c| c.is_ascii_digit()).collect()
}
fn main() {
    let first: usize = line(0).parse().unwrap();
    for n in 0..5 { assert_eq!(line(n), (first + n).to_string()); }
}
'''),
 dict(id='import-list-endless', property='P02', needs='an IMPORTS list with something in it that is no name', deps=D,
  breaks='parse never returns', edits=of('imports_progress'),
  main=texts(['Mod DEFINITIONS ::= BEGIN IMPORTS A, b FROM Other ; END'], ['Mod DEFINITIONS ::= BEGIN IMPORTS A, 5 } END'])),
 dict(id='addition-version-end', property='P02', needs='a module that ends behind the version number of an addition group', deps=D,
  breaks='the error report indexes a token that is not there', edits=of('choice_version'),
  main=texts(['Mod DEFINITIONS ::= BEGIN A ::= CHOICE { a INTEGER, ..., [[ 2 : b INTEGER ]] } END'], ['Mod DEFINITIONS ::= BEGIN A ::= CHOICE { a INTEGER, ..., [[ 2 ]'.replace(']', '}')])),
]
