//! Concrete side of the checks of /repo/asn-compiler: the real tokenizer and parser on texts, against
//! the lexical rules written a second time (lexer.rs).
mod lexer;
mod resolve;
mod text;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use text::Rng;

const PROPS: &[&str] = &["P01", "P02", "R01", "R02", "R03", "R04", "R05"];
const PATIENCE: f64 = 8.0;

#[derive(Clone, Debug, PartialEq)]
struct Case { op: &'static str, data: Vec<u8> }
impl Case {
    fn text(&self) -> String { format!("{} {}", self.op, self.data.iter().map(|b| format!("{b:02x}")).collect::<String>()) }
    fn parse(s: &str) -> Case {
        let mut w = s.split_whitespace();
        let op = w.next().unwrap();
        let h = w.next().unwrap_or("");
        Case { op: OPS.iter().find(|x| **x == op).unwrap(), data: (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
    }
    fn props(&self) -> Vec<&'static str> { if self.op == "resolve" { vec!["R01", "R02", "R03", "R04", "R05"] } else if self.op == "lex" || self.op == "fail" { vec!["P01"] } else { vec!["P02"] } }
}
const OPS: &[&str] = &["lex", "fail", "parse", "resolve"];
type Fail = (Vec<&'static str>, String);

/// A reader that hands out its bytes in pieces, then fails or ends.
struct Pieces<'a> { data: &'a [u8], at: usize, fails: bool }
impl<'a> std::io::Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at == self.data.len() && self.fails { return Err(std::io::Error::new(std::io::ErrorKind::Other, "unreadable")); }
        let n = (self.data.len() - self.at).min(buf.len()).min(1 + self.at % 7);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn why(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

fn run1(c: &Case) -> Result<bool, Fail> {
    let p = c.props();
    let shown = String::from_utf8_lossy(&c.data).to_string();
    if c.op == "resolve" {
        return catch_unwind(|| resolve::check(&shown)).unwrap_or_else(|e| Err((p, format!("resolving {shown:?} panicked: {}", why(e)))));
    }
    let got = catch_unwind(AssertUnwindSafe(|| asn1_compiler::tokenizer::tokenize(Pieces { data: &c.data, at: 0, fails: c.op == "fail" })));
    if c.op != "parse" {
        let got = match got { Ok(x) => x, Err(e) => return Err((p, format!("tokenize({shown:?}) panicked: {}", why(e)))) };
        let want = if c.op == "fail" { None } else { lexer::lex(&c.data) };
        return match (got, want) {
            (Err(_), None) => Ok(false),
            (Err(e), Some(w)) => Err((p, format!("tokenize({shown:?}) refuses ({e:?}) a text of {} tokens", w.len()))),
            (Ok(v), None) => Err((p, format!("tokenize({shown:?}) gives {} tokens for a text that has to be refused", v.len()))),
            (Ok(v), Some(w)) => {
                for (i, x) in w.iter().enumerate() {
                    let Some(g) = v.get(i) else { return Err((p, format!("tokenize({shown:?}) has no token {i}: {x:?}"))); };
                    let d = format!("{g:?}");
                    let want = (x.kind.to_string(), x.line, format!("{:?}", x.text));
                    if lexer::shown(&d).as_ref() != Some(&want) { return Err((p, format!("tokenize({shown:?}), token {i}: {d} instead of {x:?}"))); }
                }
                if v.len() > w.len() { return Err((p, format!("tokenize({shown:?}): {} tokens instead of {}", v.len(), w.len()))); }
                Ok(true)
            }
        };
    }
    let Ok(Ok(mut v)) = got else { return Ok(false) };
    match catch_unwind(AssertUnwindSafe(|| asn1_compiler::parser::parse(&mut v).is_ok())) {
        Ok(x) => Ok(x),
        Err(e) => Err((p, format!("parse({shown:?}) panicked: {}", why(e)))),
    }
}

static CURRENT: Mutex<Option<(Case, Instant)>> = Mutex::new(None);
fn watchdog(prop: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((c, t)) = c {
            if t.elapsed().as_secs_f64() > PATIENCE {
                if c.props().contains(&prop) { println!("FOUND {}\nWHY no answer within {PATIENCE} s on {:?}", c.text(), String::from_utf8_lossy(&c.data)); std::process::exit(1); }
                println!("HANG {}", c.text());
                std::process::exit(3);
            }
        }
    });
}
fn run(c: &Case) -> Result<bool, Fail> {
    *CURRENT.lock().unwrap() = Some((c.clone(), Instant::now()));
    if let Ok(f) = std::env::var("H_TRACE") { std::fs::write(f, format!("case: {}\nprops: {}\n", c.text(), c.props().join(" "))).unwrap(); }
    let r = run1(c);
    *CURRENT.lock().unwrap() = None;
    r
}

/// Words the tokenizer's source mentions.
fn words() -> Vec<String> {
    let mut out = vec![];
    let repo = std::env::var("H_REPO").unwrap_or("/repo".into());
    for f in ["mod.rs", "types.rs"] {
        let s = std::fs::read_to_string(format!("{repo}/asn-compiler/src/tokenizer/{f}")).unwrap_or_default();
        for l in s.lines().take(2000) {
            for w in l.split('"').skip(1).step_by(2) {
                if !w.is_empty() && w.len() < 40 && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !out.contains(&w.to_string()) { out.push(w.to_string()); }
            }
        }
    }
    out
}

fn systematic(prop: &str, f: &mut dyn FnMut(Case) -> bool) {
    if prop.starts_with('R') { return resolve::systematic(&mut |s| f(Case { op: "resolve", data: s.as_bytes().to_vec() })); }
    let mut lex = |s: &str| f(Case { op: if prop == "P01" { "lex" } else { "parse" }, data: s.as_bytes().to_vec() });
    if prop == "P01" {
        let chars: Vec<String> = (0u32..=0x180).chain([0x2003, 0x2028, 0x3000, 0xfeff, 0x212a, 0x1e9e, 0x1f600]).filter_map(char::from_u32).map(|c| c.to_string()).collect();
        for c in &chars { if !lex(c) || !lex(&format!("a{c}")) || !lex(&format!("{c}1 b")) || !lex(&format!("'{c}'H")) || !lex(&format!("'1{c}1'B")) || !lex(&format!("'1'{c}")) || !lex(&format!("\"{c}\"")) || !lex(&format!("@a{c}b")) || !lex(&format!("&{c}")) || !lex(&format!("--{c}\nx")) { return; } }
        let some = ["-", "'", "\"", ":", ".", "=", "[", "]", "&", "@", "a", "Z", "0", "9", "B", "h", " ", "\n", "|", "<", "{", "é", "\r"];
        for a in some { for b in some { for c in some { for d in some { if !lex(&format!("{a}{b}{c}{d}")) { return; } } } } }
        for k in lexer::KEYWORDS.iter().chain(["LOWER", "UPPER", "NOT", "ENUM", "STRINGS", "INFINITY", "UTF16String", "REALS", "Seq", "DATE"].iter()) {
            for t in [k.to_string(), k.to_lowercase(), format!("{k}s"), format!("{k}-A"), format!("X{k}"), format!("&{k}"), format!("{k}1"), format!("{}", &k[..k.len() - 1]), format!("{k}\n\n{k} --{k}"), format!("{k}-")] { if !lex(&t) { return; } }
        }
        for w in words() { if !lex(&w) { return; } }
        for n in [0, 1, 9, 10, 65535] { for s in ["", "-", "--", "- "] { for e in ["", "-", "a", ".", "..", " 1"] { if !lex(&format!("{s}{n}{e}")) { return; } } } }
    } else {
        let heads = ["Mod DEFINITIONS ::= BEGIN", "Mod { iso 1 } DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS Foo FROM Bar ;"];
        let mut all: Vec<&str> = vec!["{", "}", "(", ")", "!", "[", "]", "[[", "]]", "...", "..", ".", "::=", ":", ";", ",", "|", "^", "<", "a", "Foo", "FOO", "&id", "&Id", "5", "-5", "'01'B", "'AF'H", "\"t\"", "@a.b", "-- c --"];
        all.extend(lexer::KEYWORDS);
        let starts = ["", "Foo ::=", "foo INTEGER ::=", "foo FOO ::=", "Foo FOO ::=", "FOO ::= CLASS {", "FOO ::= CLASS { &id INTEGER } WITH SYNTAX {", "Foo ::= SEQUENCE {", "Foo ::= SEQUENCE { a", "Foo ::= SEQUENCE { a INTEGER", "Foo ::= SEQUENCE { ...", "Foo ::= SEQUENCE { ... , [[",
            "Foo ::= CHOICE {", "Foo ::= CHOICE { a", "Foo ::= CHOICE { a INTEGER ,", "Foo ::= CHOICE { a INTEGER , ... , [[", "Foo ::= ENUMERATED {", "Foo ::= ENUMERATED { a ,", "Foo ::= ENUMERATED { a (", "Foo ::= INTEGER {", "Foo ::= INTEGER (", "Foo ::= INTEGER ( 1", "Foo ::= INTEGER ( 1 ..", "Foo ::= INTEGER ( 1 |",
            "Foo ::= INTEGER ( 1 ,", "Foo ::= BIT STRING (", "Foo ::= BIT STRING {", "Foo ::= OCTET", "Foo ::= OCTET STRING ( CONTAINING", "Foo ::= SEQUENCE (", "Foo ::= SEQUENCE ( SIZE", "Foo ::= SEQUENCE OF", "Foo {", "Foo { FOO :", "Foo { A ,", "Foo ::= Bar {", "Foo ::= Bar { 1 ,", "Foo ::= FOO . &id (", "Foo ::= FOO . &id ( {", "Foo ::= FOO . &id ( { A } {",
            "Foo FOO ::= {", "Foo FOO ::= { { ID", "Foo FOO ::= { a |", "foo FOO ::= {", "foo FOO ::= { ID 5", "Foo ::= [", "Foo ::= [ APPLICATION", "Foo ::= SEQUENCE { a INTEGER DEFAULT"];
        let ends = ["", "}", "END", "} END", ") END", "} } END", ", END", "a END", "| END"];
        for h in heads { for s in starts { for t in &all { for e in ends { if !lex(&format!("{h} {s} {t} {e}")) { return; } } } } }
        for h in ["Mod", "Mod {", "Mod { iso", "Mod { iso (", "Mod { 1", "Mod DEFINITIONS", "Mod DEFINITIONS EXPLICIT", "Mod DEFINITIONS ::=", "Mod DEFINITIONS ::= BEGIN IMPORTS", "Mod DEFINITIONS ::= BEGIN IMPORTS A", "Mod DEFINITIONS ::= BEGIN IMPORTS A ,", "Mod DEFINITIONS ::= BEGIN IMPORTS A FROM", "Mod DEFINITIONS ::= BEGIN IMPORTS A FROM B", "Mod DEFINITIONS ::= BEGIN EXPORTS", "Mod DEFINITIONS ::= BEGIN EXPORTS A"] {
            for t in &all { for e in ["", ";", "; END", "BEGIN END", "END", "FROM", "}"] { if !lex(&format!("{h} {t} {e}")) || !lex(&format!("{h} {e}")) { return; } } } }
    }
}

fn random(prop: &str, r: &mut Rng) -> Case {
    if prop.starts_with('R') { return Case { op: "resolve", data: resolve::random(r, prop == "R05").into_bytes() }; }
    if prop == "P01" {
        let op = if r.one_in(40) { "fail" } else { "lex" };
        let data = match r.below(4) { 0 => text::module(r).into_bytes(), 1 => text::tokens(r).into_bytes(), _ => text::noise(r) };
        Case { op, data }
    } else {
        Case { op: "parse", data: if r.one_in(5) { text::tokens(r) } else { text::module(r) }.into_bytes() }
    }
}

fn shrink(mut c: Case, mut w: String, prop: &str) -> (Case, String) {
    if w.starts_with("no answer") { return (c, w); }
    let t = Instant::now();
    let sep = if c.op == "parse" || c.op == "resolve" { Some(b' ') } else { None };
    loop {
        let mut better = false;
        let cuts: Vec<(usize, usize)> = match sep {
            Some(_) => { let mut v = vec![]; let mut a = 0; for (i, b) in c.data.iter().enumerate() { if *b == b' ' { v.push((a, i + 1)); a = i + 1; } } v.push((a, c.data.len())); v }
            None => (0..c.data.len()).map(|i| (i, i + 1)).collect(),
        };
        for (a, b) in cuts.into_iter().rev() {
            let mut d = c.clone();
            d.data.drain(a..b.min(d.data.len()));
            if let Err((p, y)) = run(&d) { if p.contains(&prop) { c = d; w = y; better = true; break; } }
        }
        if !better || t.elapsed().as_secs() > 10 { return (c, w); }
    }
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("H_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    match a[1].as_str() {
        "search" => {
            let prop = *PROPS.iter().find(|p| **p == a[2]).expect("property");
            let (seed, secs): (u64, f64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let t = Instant::now();
            watchdog(prop);
            let (mut n, mut ok) = (0u64, 0u64);
            let mut found: Option<(Case, String)> = None;
            let mut one = |c: Case, found: &mut Option<(Case, String)>| -> bool {
                n += 1;
                match run(&c) {
                    Ok(x) => { ok += x as u64; true }
                    Err((ps, why)) if ps.contains(&prop) => { *found = Some((c, why)); false }
                    Err(_) => true,
                }
            };
            systematic(prop, &mut |c| one(c, &mut found));
            let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
            let mut samples = vec![];
            let mut did = 0;
            while found.is_none() && t.elapsed().as_secs_f64() < secs {
                let c = random(prop, &mut r);
                if did % 1009 == 0 && samples.len() < 5 { samples.push(format!("{:?}", String::from_utf8_lossy(&c.data))); }
                did += 1;
                one(c, &mut found);
            }
            for s in samples { println!("SAMPLE {s}"); }
            println!("CASES {n} {ok}");
            if let Some((c, why)) = found {
                let (c, why) = shrink(c, why, prop);
                println!("FOUND {}\nWHY {}", c.text(), why.replace('\n', "\\n"));
                std::process::exit(1);
            }
        }
        "replay" => {
            std::thread::spawn(|| { std::thread::sleep(Duration::from_secs_f64(PATIENCE)); println!("broken: no answer within {PATIENCE} s"); std::process::exit(1); });
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let line = s.lines().find_map(|l| l.strip_prefix("case: ")).expect("no case line");
            match run(&Case::parse(line)) {
                Ok(_) => println!("holds: {line}"),
                Err((p, why)) => { println!("broken {:?}: {line}\n{why}", p); std::process::exit(1); }
            }
        }
        "shim" => shim::run(a[2].parse().unwrap()),
        x => panic!("{x}"),
    }
    std::process::exit(0);
}

mod shim;

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
