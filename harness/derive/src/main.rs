//! Concrete counterpart of the contracts of the code /repo/codecs_derive generates.
//!   hderive search PROP SEED SECONDS   look for an input on which the generated code breaks PROP
//!   hderive replay FILE                run the case stored in FILE again
mod gen;
#[allow(dead_code)]
mod oracle;
mod samples;
mod types;
use asn1_codecs::aper::{decode::decode_bool, encode::encode_bool, AperCodecData};
use oracle::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use types::*;

#[derive(Clone, Debug)]
struct Case { ty: String, pre: usize, key: Option<i128>, val: Option<Val>, data: Bits }
impl Case {
    fn text(&self) -> String {
        let k = self.key.map_or("-".into(), |k| k.to_string());
        match &self.val {
            Some(v) => format!("enc {} pre={} key={k} val={}", self.ty, self.pre, v.text()),
            None => format!("dec {} pre={} key={k} data={}", self.ty, self.pre, show_all(&self.data)),
        }
    }
    fn parse(s: &str) -> Case {
        let mut c = Case { ty: String::new(), pre: 0, key: None, val: None, data: vec![] };
        for (i, w) in s.split_whitespace().enumerate() {
            if i == 1 { c.ty = w.into(); }
            if let Some((k, v)) = w.split_once('=') {
                match k {
                    "pre" => c.pre = v.parse().unwrap(),
                    "key" => c.key = if v == "-" { None } else { Some(v.parse().unwrap()) },
                    "val" => c.val = Some(Val::parse(&mut v.as_bytes())),
                    "data" => c.data = v.chars().map(|c| c == '1').collect(),
                    _ => {}
                }
            }
        }
        c
    }
}
fn show_all(b: &[bool]) -> String { b.iter().map(|x| if *x { '1' } else { '0' }).collect() }
fn show(b: &[bool]) -> String { format!("{}{} ({} bits)", show_all(&b[..b.len().min(200)]), if b.len() > 200 { "..." } else { "" }, b.len()) }

type Fail = (Vec<&'static str>, String);
fn prefix(n: usize) -> Bits { (0..n).map(|i| i % 3 != 1).collect() }

struct H { all: Vec<Entry> }
impl H {
    fn get(&self, n: &str) -> &Entry { self.all.iter().find(|e| e.name == n).expect("declaration") }

    fn run(&self, c: &Case) -> Result<bool, Fail> {
        *CURRENT.lock().unwrap() = Some((c.clone(), std::time::Instant::now()));
        if let Ok(f) = std::env::var("H_TRACE") { std::fs::write(f, format!("case: {}\nprops: {}\n", c.text(), self.dies(c).join(" "))).unwrap(); }
        let r = if c.val.is_some() { self.run_enc(c) } else { self.run_dec(c) };
        *CURRENT.lock().unwrap() = None;
        r
    }
    /// The properties it breaks not to answer.
    fn dies(&self, c: &Case) -> Vec<&'static str> {
        let e = self.get(&c.ty);
        let works = match &c.val {
            Some(v) => put(&e.ty, &mut prefix(c.pre), v).is_some(),
            None => dec(&e.ty, &mut D { b: &c.data, o: c.pre }, c.key).is_some(),
        };
        let mut p = vec![if c.val.is_some() { "D05" } else { "D04" }];
        if works { p.push(prop(&e.ty)); }
        p
    }
    fn run_enc(&self, c: &Case) -> Result<bool, Fail> {
        let e = self.get(&c.ty);
        let v = c.val.as_ref().unwrap();
        let mut want = prefix(c.pre);
        let ok = put(&e.ty, &mut want, v).is_some();
        for sentinel in [true, false] {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut d = AperCodecData::new();
                for b in prefix(c.pre) { encode_bool(&mut d, b).unwrap(); }
                if let Some(k) = c.key { d.set_key(k); }
                let ok = (e.enc)(v, &mut d);
                encode_bool(&mut d, sentinel).unwrap();
                (ok, d.get_key(), bytes_bits(&d.into_bytes()))
            }));
            let (got, key, all) = match r { Ok(x) => x, Err(_) => return Err((self.dies(c), "the encoder panicked".into())) };
            let got = match got { Some(g) => g, None => return Ok(false) };
            if key != c.key { return Err((vec!["D05"], format!("the encoder changed the key to {key:?}"))); }
            if all.len() < c.pre || all[..c.pre] != prefix(c.pre)[..] { return Err((vec!["D05"], format!("the encoder changed what was encoded before: {}", show(&all)))); }
            if ok {
                if !got { return Err((vec![prop(&e.ty)], format!("the encoder failed; expected {}", show(&want[c.pre..])))); }
                let mut w = want.clone();
                w.push(sentinel);
                if all.len() != (w.len() + 7) / 8 * 8 || all[..w.len()] != w[..] {
                    return Err((vec![prop(&e.ty)], format!("after {} prefix bits the encoder wrote (with the marker bit {}) {}; expected {}", c.pre, sentinel as u8, show(&all[c.pre..]), show(&w[c.pre..]))));
                }
            } else if got { return Err((vec!["D05"], "the encoder accepted what has no encoding".into())); }
        }
        if ok {
            // Round trip; the key that open types outside of any SEQUENCE go by is the one of the value.
            let mut data = want.clone();
            data.resize((data.len() + 7) / 8 * 8, false);
            let key = match (&e.ty, v) { (Ty::Open(a), Val::Alt(i, _)) => Some(a[*i].key), _ => c.key };
            let k = Case { val: None, data, key, ..c.clone() };
            let expect = dec(&e.ty, &mut D { b: &k.data, o: k.pre }, k.key);
            // in range, and each open type is the alternative its key says: decoding must return the value
            match self.real_dec(&k) {
                Err(m) => return Err((vec!["D04"], format!("round trip: {m}"))),
                Ok((got, at, _)) => {
                    if expect.as_ref().map(|x| &x.0) == Some(v) && (got.as_ref() != Some(v) || at != want.len()) {
                        return Err((vec![prop(&e.ty)], format!("round trip: decoded {:?} up to bit {at}; encoded {} up to bit {}", got.map(|x| x.text()), v.text(), want.len())));
                    }
                }
            }
        }
        Ok(ok)
    }
    fn real_dec(&self, c: &Case) -> Result<(Option<Val>, usize, Option<i128>), String> {
        let e = self.get(&c.ty);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let bytes: Vec<u8> = c.data.chunks(8).map(|x| val(x) as u8).collect();
            let mut d = AperCodecData::from_slice(&bytes);
            if let Some(k) = c.key { d.set_key(k); }
            for i in 0..c.pre { if decode_bool(&mut d).ok() != Some(c.data[i]) { return Err("decode_bool of the prefix".to_string()); } }
            let v = (e.dec)(&mut d);
            let key = d.get_key();
            if d.get_inner().ok() != Some(bytes) { return Err("the decoder changed the data".into()); }
            let mut rest = vec![];
            while let Ok(b) = decode_bool(&mut d) {
                rest.push(b);
                if rest.len() > c.data.len() - c.pre { return Err("the decoder moved backwards".into()); }
            }
            let at = c.data.len() - rest.len();
            if rest != c.data[at..] { return Err("the remaining bits are not the rest of the data".into()); }
            Ok((v, at, key))
        }));
        match r { Ok(x) => x, Err(_) => Err("the decoder panicked".into()) }
    }
    fn run_dec(&self, c: &Case) -> Result<bool, Fail> {
        let e = self.get(&c.ty);
        let mut o = D { b: &c.data, o: c.pre };
        let want = dec(&e.ty, &mut o, c.key);
        let (got, at, key) = match self.real_dec(c) { Ok(x) => x, Err(m) => return Err((self.dies(c), m)) };
        match (want, got) {
            (Some((w, k)), Some(g)) => {
                if w != g { return Err((vec![prop(&e.ty)], format!("decoded {}; expected {}", g.text(), w.text()))); }
                if at != o.o { return Err((vec![prop(&e.ty)], format!("decoded {} but consumed up to bit {at}; expected {}", g.text(), o.o))); }
                if key != k { return Err((vec![prop(&e.ty)], format!("decoded {}, leaving the key {key:?}; expected {k:?}", g.text()))); }
                Ok(true)
            }
            (Some((w, _)), None) => Err((vec![prop(&e.ty)], format!("the decoder failed; expected {}", w.text()))),
            (None, Some(g)) => Err((vec![prop(&e.ty), "D04"], format!("decoded {} from data that is not an encoding of it", g.text()))),
            (None, None) => Ok(false),
        }
    }
}

static CURRENT: std::sync::Mutex<Option<(Case, std::time::Instant)>> = std::sync::Mutex::new(None);
const PATIENCE: f64 = 20.0;
fn watchdog(prop: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((c, t)) = c {
            if t.elapsed().as_secs_f64() > PATIENCE {
                if (H { all: gen::all() }).dies(&c).contains(&prop) {
                    println!("FOUND {}\nWHY no answer within {PATIENCE} s", c.text());
                    std::process::exit(1);
                }
                println!("HANG {}", c.text());
                std::process::exit(3);
            }
        }
    });
}

// ------------------------------------------------------------------ generation
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    fn of<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    fn bits(&mut self, n: usize) -> Bits { (0..n).map(|_| self.flip()).collect() }

    /// `bad`: one in that many primitive values violates its constraint (0: none)
    fn value(&mut self, ty: &Ty, depth: usize, bad: usize, passed: Option<i128>) -> Val {
        let off = bad > 0 && self.below(bad) == 0;
        match ty {
            Ty::Null | Ty::Oid => Val::Null,
            Ty::Bool => Val::Bool(self.flip()),
            Ty::Int(lb, ub, _, min, max) | Ty::Enum(lb, ub, _, min, max) => {
                let (l, u) = if off { (*min, *max) } else { (lb.unwrap_or(*min).max(*min), ub.unwrap_or(*max).min(*max)) };
                let v = match self.below(6) {
                    0 => l,
                    1 => u,
                    2 => l + self.of(&[1i128, 2, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 63]),
                    3 => self.of(&[0i128, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768]),
                    4 if off => ub.unwrap_or(*max) + 1,
                    4 => u - self.below(300) as i128,
                    _ => { let s = (u - l) as u128 + 1; l + (((self.next() as u128) << 64 | self.next() as u128) >> self.below(128)) as i128 as u128 as i128 % if s > i128::MAX as u128 { i128::MAX } else { s as i128 } }
                };
                Val::Int(v.clamp(l, u))
            }
            Ty::Bits(lb, ub, _) => { let n = self.count(*lb, *ub, off, 200); Val::Bits(self.bits(n)) }
            Ty::Octets(lb, ub, _) => { let n = self.count(*lb, *ub, off, 200); Val::Octets((0..n).map(|_| self.next() as u8).collect()) }
            Ty::Chars(lb, ub, _) => {
                let n = self.count(*lb, *ub, off, 200);
                let mut s = String::new();
                while s.len() < n {
                    s.push(if n - s.len() >= 4 && self.below(10) == 0 { self.of(&['é', '€', '😀']) } else { (32 + self.below(95)) as u8 as char });
                }
                Val::Octets(s.into_bytes())
            }
            Ty::Of(item, lb, ub, _) => {
                let simple = matches!(**item, Ty::Bool | Ty::Int(..) | Ty::Enum(..));
                let n = self.count(*lb, *ub, off, if simple { 140 } else if depth > 1 { 3 } else { 12 });
                Val::List((0..n).map(|_| self.value(item, depth + 1, bad, passed)).collect())
            }
            Ty::Seq(_, _, fs) => {
                let mut own = passed;
                Val::Fields(fs.iter().map(|f| {
                    if f.opt.is_some() && self.flip() { return Val::Absent; }
                    let v = self.keyed(&f.ty, depth + 1, bad, own);
                    if f.key { if let Val::Int(i) = v {
                        // mostly a key that means something
                        let k = if self.below(8) != 0 { self.of(&[1, 2, 300, 0, 7, 8, 65535, 5, 127, 128, 255, 256]) } else { i };
                        let k = match &f.ty { Ty::Int(Some(l), Some(u), ..) | Ty::Enum(Some(l), Some(u), ..) => k.clamp(*l, *u), _ => k };
                        own = Some(k);
                        return Val::Int(k);
                    } }
                    v
                }).collect())
            }
            Ty::Choice(..) | Ty::Open(..) => self.keyed(ty, depth, bad, passed),
        }
    }
    /// An open type mostly is the alternative its key says.
    fn keyed(&mut self, ty: &Ty, depth: usize, bad: usize, own: Option<i128>) -> Val {
        match ty {
            Ty::Choice(_, _, _, a) => { let i = self.below(a.len()); Val::Alt(i, Box::new(self.value(&a[i].ty, depth + 1, bad, own))) }
            Ty::Open(a) => {
                let i = a.iter().position(|x| Some(x.key) == own).unwrap_or(self.below(a.len()));
                Val::Alt(i, Box::new(self.value(&a[i].ty, depth + 1, bad, Some(a[i].key))))
            }
            _ => self.value(ty, depth, bad, own),
        }
    }
    fn count(&mut self, lb: Ob, ub: Ob, off: bool, cap: i128) -> usize {
        let l = lb.unwrap_or(0);
        let u = ub.unwrap_or(70000);
        let n = if off { self.of(&[l - 1, u + 1, 0, 16383, 16384, 65536]) }
        else { match self.below(5) { 0 => l, 1 => u.min(l + cap), 2 => (l + self.of(&[1, 2, 3, 16, 17])).min(u), _ => l + self.below(((u - l).min(cap) + 1) as usize) as i128 } };
        n.clamp(0, 70000).min(if off && self.below(4) != 0 { 1000 } else { 70000 }) as usize
    }
    fn enc(&mut self, e: &Entry) -> Case {
        let bad = self.of(&[0, 0, 4, 40]);
        Case { ty: e.name.into(), pre: self.below(18), key: if self.flip() { Some(self.of(&[1, 2, 7])) } else { None }, val: Some(self.value(&e.ty, 0, bad, None)), data: vec![] }
    }
    /// Encodings with what a decoder must also read, cut, extended or with bits flipped; and anything.
    fn dec(&mut self, e: &Entry) -> Case {
        let pre = self.below(18);
        let mut b = prefix(pre);
        let v = { let bad = self.of(&[0, 0, 0, 10]); self.value(&e.ty, 0, bad, None) };
        let mut key = if self.below(3) != 0 { Some(self.of(&[0, 1, 2, 7, 8, 300, 65535, -1, 5, 128, 256])) } else { None };
        if let (Ty::Open(a), Val::Alt(i, _)) = (&e.ty, &v) { if self.below(8) != 0 { key = Some(a[*i].key); } }
        let mode = self.below(10);
        let mut ok = false;
        if mode > 0 {
            let mut r = Rng(self.next());
            let mut f = |n: usize| r.below(n);
            ok = put_wild(&e.ty, &mut b, &v, &mut Some(&mut f)).is_some();
        }
        if !ok { b.truncate(pre); let n = self.below(200); let x = match self.below(4) { 0 => vec![false; n], 1 => vec![true; n], _ => self.bits(n) }; b.extend(x); }
        let n = b.len() - pre;
        match self.below(5) {
            0 => { let k = self.below(n + 1); b.truncate(pre + k); }
            1 if n > 0 => { for _ in 0..=self.below(2) { let i = pre + self.below(n.min(60)); b[i] = !b[i]; } }
            2 if n > 0 => { let i = pre + self.below(n); b[i] = !b[i]; }
            _ => {}
        }
        match self.below(3) { 0 => {} 1 => { let n = self.below(30); let x = self.bits(n); b.extend(x); } _ => { b.extend(zeros(pad(b.len()))); } }
        let n = if self.flip() { b.len() / 8 * 8 } else { (b.len() + 7) / 8 * 8 };
        b.resize(n.max((pre + 7) / 8 * 8), false);
        Case { ty: e.name.into(), pre, key, val: None, data: b }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("H_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let h = H { all: gen::all() };
    const PROPS: [&str; 5] = ["D01", "D02", "D03", "D04", "D05"];
    match a[1].as_str() {
        "search" => {
            let p: &'static str = PROPS.iter().find(|p| **p == a[2]).expect("property");
            let (seed, secs): (u64, f64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            watchdog(p);
            let own: Vec<&Entry> = h.all.iter().filter(|e| p == "D04" || p == "D05" || prop(&e.ty) == p).collect();
            let (mut n, mut ok) = (0u64, 0u64);
            let mut found = None;
            let mut samples: Vec<String> = vec![];
            let mut r = Rng(seed);
            let t = std::time::Instant::now();
            // every value of the small types, every first octets
            let mut todo: Vec<Case> = vec![];
            for e in &own {
                let small = matches!(&e.ty, Ty::Int(..) | Ty::Enum(..) | Ty::Bool | Ty::Null | Ty::Oid);
                if p != "D04" && small { for v in -600i128..1400 { for pre in [0, 5] {
                    let val = match &e.ty { Ty::Bool => Val::Bool(v % 2 == 0), Ty::Int(..) | Ty::Enum(..) => Val::Int(v), _ => Val::Null };
                    todo.push(Case { ty: e.name.into(), pre, key: None, val: Some(val), data: vec![] });
                    if !matches!(&e.ty, Ty::Int(..) | Ty::Enum(..)) && v > -599 { break; }
                } } }
                if p != "D05" { for x in 0..=255u8 { for y in [0u8, 1, 127, 128, 255] { for key in [None, Some(1), Some(7)] {
                    todo.push(Case { ty: e.name.into(), pre: 0, key, val: None, data: bytes_bits(&[x, y, x, y, 0, 1, y]) });
                } } } }
            }
            let mut it = todo.into_iter();
            while found.is_none() {
                let c = match it.next() {
                    Some(c) => c,
                    None => {
                        if t.elapsed().as_secs_f64() > secs { break; }
                        let e = own[r.below(own.len())];
                        let c = if p == "D05" || (p != "D04" && r.flip()) { r.enc(e) } else { r.dec(e) };
                        if n % 997 == 0 && samples.len() < 5 && c.text().len() < 300 { samples.push(c.text()); }
                        c
                    }
                };
                n += 1;
                match h.run(&c) {
                    Ok(x) => ok += x as u64,
                    Err((ps, why)) if ps.contains(&p) => found = Some((c, why)),
                    Err(_) => {}
                }
            }
            for s in samples { println!("SAMPLE {s}"); }
            println!("CASES {n} {ok}");
            if let Some((c, why)) = found {
                let (c, why) = shrink(&h, c, why, p);
                println!("FOUND {}\nWHY {why}", c.text());
                std::process::exit(1);
            }
        }
        "replay" => {
            std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs_f64(PATIENCE)); println!("broken: no answer within {PATIENCE} s"); std::process::exit(1); });
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let line = s.lines().find_map(|l| l.strip_prefix("case: ")).expect("no case line");
            match h.run(&Case::parse(line)) {
                Ok(_) => println!("holds: {line}"),
                Err((p, why)) => { println!("broken {p:?}: {line}\n{why}"); std::process::exit(1); }
            }
        }
        x => panic!("{x}"),
    }
}

fn shrink(h: &H, mut c: Case, mut why: String, p: &str) -> (Case, String) {
    for _ in 0..300 {
        let mut cand = vec![];
        match &c.val {
            Some(v) => {
                for q in 0..c.pre { cand.push(Case { pre: q, ..c.clone() }); }
                if c.key.is_some() { cand.push(Case { key: None, ..c.clone() }); }
                for w in smaller(v) { cand.push(Case { val: Some(w), ..c.clone() }); }
            }
            None => if c.data.len() >= 8 + c.pre { cand.push(Case { data: c.data[..c.data.len() - 8].to_vec(), ..c.clone() }); },
        }
        match cand.into_iter().find_map(|k| match h.run(&k) { Err((ps, w)) if ps.contains(&p) => Some((k, w)), _ => None }) {
            Some((k, w)) => { c = k; why = w; }
            None => break,
        }
    }
    (c, why)
}
fn smaller(v: &Val) -> Vec<Val> {
    match v {
        Val::List(l) if !l.is_empty() => {
            let mut r = vec![Val::List(l[..l.len() / 2].to_vec()), Val::List(l[1..].to_vec())];
            if l.len() < 6 { for i in 0..l.len() { for w in smaller(&l[i]) { let mut k = l.clone(); k[i] = w; r.push(Val::List(k)); } } }
            r
        }
        Val::Fields(l) => { let mut r = vec![]; for i in 0..l.len() { for w in smaller(&l[i]) { let mut k = l.clone(); k[i] = w; r.push(Val::Fields(k)); } } r }
        Val::Octets(o) if !o.is_empty() => vec![Val::Octets(o[..o.len() / 2].to_vec()), Val::Octets(o[..o.len() - 1].to_vec())],
        Val::Bits(o) if !o.is_empty() => vec![Val::Bits(o[..o.len() / 2].to_vec()), Val::Bits(o[..o.len() - 1].to_vec())],
        Val::Alt(i, w) => smaller(w).into_iter().map(|x| Val::Alt(*i, Box::new(x))).collect(),
        _ => vec![],
    }
}
