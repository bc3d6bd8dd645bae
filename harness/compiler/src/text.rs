//! Random ASN.1 texts: tokens at random, module definitions, and modules with errors.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn of<'a>(&mut self, v: &[&'a str]) -> &'a str { v[self.below(v.len())] }
}

const PUNCT: &[&str] = &["{", "}", "(", ")", "!", "[", "]", "[[", "]]", "...", "..", ".", "::=", ":", ";", ",", "|", "^", "<", "-", "@", "&"];
const NAMES: &[&str] = &["a", "b", "c1", "id", "value", "criticality", "Foo", "Bar", "BAZ", "FOO-CLASS", "My-Type", "x-y-z", "iso", "itu-t", "one"];
const ANDS: &[&str] = &["&id", "&Type", "&Value", "&criticality", "&presence"];

/// Any one token.
pub fn token(r: &mut Rng) -> String {
    match r.below(12) {
        0..=3 => r.of(PUNCT).into(),
        4 | 5 => r.of(crate::lexer::KEYWORDS).into(),
        6 | 7 => r.of(NAMES).into(),
        8 => r.of(ANDS).into(),
        9 => number(r),
        10 => r.of(&["'0101'B", "'AF09'H", "''B", "'0 1'b", "\"text\"", "\"\"", "@id", "@.id", "@a.b-c", "-5"]).into(),
        _ => r.of(&["-- c --", "-- c\n", "----", "\"a\"\"b\""]).into(),
    }
}
pub fn number(r: &mut Rng) -> String {
    r.of(&["0", "1", "2", "3", "7", "15", "16", "63", "64", "255", "256", "-1", "-128", "-129", "65535", "65536", "4294967295", "4294967296",
        "-2147483648", "9223372036854775807", "18446744073709551615", "99999999999999999999999999999999999999999999"]).into()
}

/// Text for the tokenizer alone: pieces of tokens, odd characters, broken ends.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    for _ in 0..1 + r.below(12) {
        match r.below(14) {
            0..=4 => s.extend(token(r).bytes()),
            5 => s.extend(r.of(crate::lexer::KEYWORDS).bytes().take(4)),
            6 => { let k = r.of(crate::lexer::KEYWORDS); s.extend(k.bytes()); s.extend(r.of(&["x", "-", "-a", "1", "s", ""]).bytes()); }
            7 => s.extend(r.of(&["'", "\"", "--", "-", "@", "&", "..", "::", "[", "]", ":", "'01", "'2'B", "'G'H", "'1'x", "'1'"]).bytes()),
            8 => s.extend(r.of(&["\n", "\r\n", "\t", "\u{b}", "\u{c}", "\u{feff}", "\u{a0}", "\u{2003}", "é", "ß", "K", "日", "\0", "\u{7f}", "#", "$", "%", "*", "+", "/", ">", "?", "\\", "_", "`", "~", "="]).bytes()),
            9 => { let q = r.of(&["'", "\""]); s.extend(q.bytes()); for _ in 0..r.below(5) { s.extend(r.of(&["0", "1", " ", "\n", "A", "f", "\t", "é", "\r\n", "--", "\"\"", "\u{a0}"]).bytes()); } s.extend(q.bytes()); s.extend(r.of(&["B", "H", "b", "h", "", " B"]).bytes()); }
            10 => { s.extend(b"--"); for _ in 0..r.below(4) { s.extend(r.of(&["a", "-", " ", "é", "\"", "-- ", "'"]).bytes()); } s.extend(r.of(&["\n", "--", "-", ""]).bytes()); }
            11 => { for _ in 0..r.below(4) { s.push(32 + r.below(95) as u8); } }
            12 => if r.one_in(6) { s.push(r.below(256) as u8) },
            _ => { s.extend(r.of(&["a", "B", "9", "-", ".", "@a", "&a"]).bytes()); s.extend(r.of(&["-", "--", ".", "1", "-z", "..", ""]).bytes()); }
        }
        if !r.one_in(3) { s.extend(r.of(&[" ", "  ", "\n", "\t", " \n "]).bytes()); }
    }
    if r.one_in(3) { let k = r.below(s.len() + 1); s.truncate(k); }
    s
}

/// A module, mostly in order; `depth` bounds its types.
pub struct Grammar<'a> { pub r: &'a mut Rng, pub out: Vec<String> }
impl<'a> Grammar<'a> {
    fn p(&mut self, s: &str) { for t in s.split(' ') { if !t.is_empty() { self.out.push(t.into()); } } }
    fn lower(&mut self) -> String { self.r.of(&["a", "b", "c", "id", "value", "criticality", "item-1"]).into() }
    fn upper(&mut self) -> String { self.r.of(&["Foo", "Bar", "Baz", "My-Type", "BAZ", "X1"]).into() }
    fn class(&mut self) -> String { self.r.of(&["FOO", "BAR-CLASS", "ASN-IES"]).into() }
    pub fn module(&mut self) {
        self.p("Mod");
        match self.r.below(4) {
            0 => self.p("{ iso standard 1 }"),
            1 => { self.p("{"); for _ in 0..self.r.below(4) { match self.r.below(3) { 0 => self.p("itu-t ( 0 )"), 1 => self.p("5"), _ => self.p("iso") } } self.p("}"); }
            _ => {}
        }
        self.p("DEFINITIONS");
        match self.r.below(5) { 0 => self.p("EXPLICIT TAGS"), 1 => self.p("IMPLICIT TAGS"), 2 => {}, _ => self.p("AUTOMATIC TAGS") }
        if self.r.one_in(6) { self.p("EXTENSIBILITY IMPLIED"); }
        self.p("::= BEGIN");
        if self.r.one_in(6) { match self.r.below(3) { 0 => self.p("EXPORTS ALL ;"), 1 => self.p("EXPORTS ;"), _ => self.p("EXPORTS Foo , a ;") } }
        if self.r.one_in(5) { match self.r.below(3) { 0 => self.p("IMPORTS ;"), 1 => self.p("IMPORTS Foo , b FROM Other ;"), _ => self.p("IMPORTS Foo FROM Other { iso 1 } BAZ , FOO FROM Third ;") } }
        for _ in 0..1 + self.r.below(4) { self.assignment(); }
        self.p("END");
    }
    fn assignment(&mut self) {
        match self.r.below(10) {
            0..=4 => { let n = self.upper(); self.p(&n); if self.r.one_in(5) { self.params(); } self.p("::="); self.ty(3); }
            5 => { let n = self.lower(); self.p(&n); self.ty(1); self.p("::="); self.value(); }
            6 => { let n = self.class(); self.p(&n); self.p("::= CLASS {"); let k = 1 + self.r.below(3); for i in 0..k { if i > 0 { self.p(","); } self.field(); } self.p("}"); if self.r.flip() { self.p("WITH SYNTAX {"); self.syntax(2); self.p("}"); } }
            7 => { let n = self.lower(); let c = self.class(); self.p(&n); self.p(&c); self.p("::="); self.object(); }
            8 => { let n = self.upper(); let c = self.class(); self.p(&n); self.p(&c); self.p("::="); self.object_set(); }
            _ => { let n = self.upper(); self.p(&n); self.p("INTEGER ::="); self.p("{ 1 | 2 }"); }
        }
    }
    fn params(&mut self) {
        self.p("{");
        for i in 0..1 + self.r.below(2) { if i > 0 { self.p(","); } match self.r.below(4) { 0 => self.p("Foo"), 1 => { let c = self.class(); self.p(&c); self.p(": IOSet"); } 2 => self.p("INTEGER : max"), _ => self.p("BAZ : ext") } }
        self.p("}");
    }
    fn field(&mut self) {
        match self.r.below(4) {
            0 => self.p("&id INTEGER UNIQUE"), 1 => self.p("&Value"), 2 => self.p("&criticality Foo DEFAULT ignore"), _ => { self.p("&x"); self.ty(0); if self.r.flip() { self.p("OPTIONAL"); } }
        }
    }
    fn syntax(&mut self, d: usize) {
        for _ in 0..1 + self.r.below(3) { match self.r.below(if d == 0 { 2 } else { 3 }) { 0 => { self.p("ID &id") } 1 => self.p("TYPE &Value"), _ => { self.p("["); self.syntax(d - 1); self.p("]"); } } }
    }
    fn object(&mut self) {
        self.p("{");
        for _ in 0..1 + self.r.below(3) { match self.r.below(4) { 0 => { self.p("ID"); self.value(); } 1 => { self.p("TYPE"); self.ty(0); } 2 => { self.p("&id"); self.value(); if self.r.flip() { self.p(","); } } _ => self.p("CRITICALITY ignore") } }
        self.p("}");
    }
    fn object_set(&mut self) {
        self.p("{");
        for i in 0..1 + self.r.below(3) { if i > 0 { let s = if self.r.one_in(4) { "," } else { "|" }; self.p(s); } match self.r.below(5) { 0 => self.p("..."), 1 => self.p("Bar"), 2 => self.p("foo"), 3 => self.p("Foo . &Bar"), _ => self.object() } }
        self.p("}");
    }
    fn value(&mut self) {
        match self.r.below(8) {
            0..=2 => { let n = number(self.r); self.p(&n) } 3 => self.p("TRUE"), 4 => { let n = self.lower(); self.p(&n) } 5 => self.p("'0101'B"), 6 => self.p("\"text\""), _ => self.p("'AF'H"),
        }
    }
    pub fn ty(&mut self, d: usize) {
        if self.r.one_in(8) { match self.r.below(3) { 0 => self.p("[ 1 ]"), 1 => self.p("[ APPLICATION 2 ] IMPLICIT"), _ => self.p("[ 0 ] EXPLICIT") } }
        match self.r.below(if d == 0 { 12 } else { 20 }) {
            0 | 1 => { self.p("INTEGER"); if self.r.one_in(4) { self.p("{ one ( 1 ) , two ( -2 ) }"); } if self.r.flip() { self.constraint(2, false); } }
            2 => self.p("BOOLEAN"), 3 => self.p("NULL"),
            4 => { self.p("BIT STRING"); if self.r.one_in(4) { self.p("{ b0 ( 0 ) , b7 ( 7 ) }"); } if self.r.flip() { self.size(); } }
            5 => { self.p("OCTET STRING"); match self.r.below(3) { 0 => self.size(), 1 => { self.p("( CONTAINING"); self.ty(0); self.p(")"); } _ => {} } }
            6 => { let s = self.r.of(&["UTF8String", "IA5String", "PrintableString", "VisibleString"]); self.p(s); if self.r.flip() { self.size(); } }
            7 => self.p("OBJECT IDENTIFIER"), 8 => self.p("CHARACTER STRING"),
            9 => self.enumerated(),
            10 => { let n = self.upper(); self.p(&n); if self.r.one_in(4) { match self.r.below(3) { 0 => self.constraint(1, true), 1 => self.p("{ { Foo } }"), _ => self.p("{ Foo , 5 }") } } }
            11 => { self.p("BAZ . &id"); match self.r.below(3) { 0 => self.p("( { Foo } )"), 1 => self.p("( { Foo } { @id } )"), _ => {} } }
            12 | 13 => { let of = self.r.flip(); self.p(if of { "SEQUENCE OF" } else { "SEQUENCE" }); if !of { self.size(); self.p("OF"); } self.ty(d - 1); }
            14..=17 => { self.p("SEQUENCE {"); self.components(d); self.p("}"); }
            _ => { self.p("CHOICE {"); self.alternatives(d); self.p("}"); }
        }
    }
    fn enumerated(&mut self) {
        self.p("ENUMERATED {");
        let k = 1 + self.r.below(4);
        for i in 0..k { if i > 0 { self.p(","); } let n = self.lower(); self.p(&n); if self.r.one_in(3) { self.p("("); let v = number(self.r); self.p(&v); self.p(")"); } }
        if self.r.one_in(3) { self.p(", ..."); if self.r.flip() { self.p(", z , y ( 9 )"); } }
        self.p("}");
    }
    fn components(&mut self, d: usize) {
        let k = self.r.below(4);
        for i in 0..k { if i > 0 { self.p(","); } self.component(d); }
        if self.r.one_in(3) { if k > 0 { self.p(","); } self.p("..."); if self.r.one_in(4) { self.p("! 1"); } for _ in 0..self.r.below(3) { self.p(","); if self.r.flip() { self.p("[["); if self.r.one_in(3) { self.p("2 :"); } self.component(d); self.p("]]"); } else { self.component(d); } } if self.r.one_in(4) { self.p(", ..."); } }
    }
    fn component(&mut self, d: usize) {
        if self.r.one_in(12) { self.p("COMPONENTS OF"); self.ty(0); return; }
        let n = self.lower(); self.p(&n); self.ty(d - 1);
        match self.r.below(5) { 0 => self.p("OPTIONAL"), 1 => { self.p("DEFAULT"); self.value(); } _ => {} }
    }
    fn alternatives(&mut self, d: usize) {
        let k = 1 + self.r.below(3);
        for i in 0..k { if i > 0 { self.p(","); } let n = self.lower(); self.p(&n); self.ty(d - 1); }
        if self.r.one_in(3) { self.p(", ..."); for _ in 0..self.r.below(3) { self.p(","); if self.r.flip() { self.p("[["); let n = self.lower(); self.p(&n); self.ty(d - 1); self.p("]]"); } else { let n = self.lower(); self.p(&n); self.ty(d - 1); } } }
    }
    fn size(&mut self) { self.p("( SIZE"); self.constraint(1, false); if self.r.one_in(4) { self.p(", ..."); } self.p(")"); }
    fn constraint(&mut self, d: usize, table: bool) {
        if table && self.r.flip() { match self.r.below(3) { 0 => self.p("( { Foo } )"), 1 => self.p("( { Foo } { @id } )"), _ => self.p("( { Foo } { @.id , @a.b } )") } return; }
        self.p("(");
        for i in 0..1 + self.r.below(3) { if i > 0 { let s = self.r.of(&["|", "^", "UNION", "INTERSECTION"]); self.p(s); }
            match self.r.below(7) {
                0 if d > 0 => self.constraint(d - 1, false),
                0 | 1 => { let v = number(self.r); self.p(&v) }
                2 => { let v = self.lower(); self.p(&v) }
                _ => { let a = if self.r.one_in(4) { "MIN".into() } else { number(self.r) }; let b = if self.r.one_in(4) { "MAX".into() } else { number(self.r) };
                    self.p(&a); if self.r.one_in(8) { self.p("<"); } self.p(".."); if self.r.one_in(8) { self.p("<"); } self.p(&b); }
            } }
        if self.r.one_in(4) { self.p(", ..."); if self.r.one_in(3) { self.p(", 5 .. 6"); } }
        self.p(")");
    }
}
impl Rng { pub fn flip(&mut self) -> bool { self.below(2) == 0 } }

/// A module's tokens, some of them wrong.
pub fn module(r: &mut Rng) -> String {
    let mut g = Grammar { r, out: vec![] };
    g.module();
    let mut t = std::mem::take(&mut g.out);
    if !r.one_in(4) {
        for _ in 0..1 + r.below(3) {
            if t.is_empty() { break; }
            let i = r.below(t.len());
            match r.below(6) {
                0 => { t.remove(i); }
                1 => { let x = t[i].clone(); t.insert(i, x); }
                2 => { t[i] = token(r); }
                3 => { t.insert(i, token(r)); }
                4 => { let j = r.below(t.len()); t.swap(i, j); }
                _ => t.truncate(i),
            }
        }
    }
    t.join(" ")
}
pub fn tokens(r: &mut Rng) -> String {
    let n = 1 + r.below(25);
    let mut t: Vec<String> = (0..n).map(|_| token(r)).collect();
    if r.flip() { let mut h: Vec<String> = "Mod DEFINITIONS ::= BEGIN".split(' ').map(|x| x.into()).collect(); h.extend(t); t = h; if r.flip() { t.push("END".into()); } }
    t.join(" ")
}
