//! Concrete counterpart of the contracts of /repo/codecs.
//!   hcodecs search PROP SEED SECONDS OUT   look for an input on which the real code breaks PROP
//!   hcodecs replay FILE                    run the case stored in FILE again
//!   hcodecs shim SEED                      compare the assumed contracts of bitvec and std with the crates
mod oracle;
mod shim;
use asn1_codecs::aper::{decode::*, encode::*, AperCodecData};
use bitvec::prelude::*;
use oracle::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default)]
struct Case {
    dec: bool,
    op: String,
    pre: usize, // bits before
    lb: Ob,
    ub: Ob,
    ext: bool,
    xt: bool,
    small: bool,
    v: i128,
    n: usize,     // count (optional fields)
    data: Bits,   // contents (encoders) or buffer (decoders)
}

fn ob(x: Ob) -> String { x.map_or("-".into(), |v| v.to_string()) }
impl Case {
    fn text(&self) -> String {
        let d: String = self.data.iter().map(|b| if *b { '1' } else { '0' }).collect();
        format!("{} {} pre={} lb={} ub={} ext={} xt={} small={} v={} n={} data={}",
            if self.dec { "dec" } else { "enc" }, self.op, self.pre, ob(self.lb), ob(self.ub),
            self.ext as u8, self.xt as u8, self.small as u8, self.v, self.n, d)
    }
    fn parse(s: &str) -> Case {
        let mut c = Case::default();
        let mut it = s.split_whitespace();
        c.dec = it.next().unwrap() == "dec";
        c.op = it.next().unwrap().into();
        for kv in it {
            let (k, v) = kv.split_once('=').unwrap();
            let b = v == "1";
            let o = |v: &str| if v == "-" { None } else { Some(v.parse().unwrap()) };
            match k {
                "pre" => c.pre = v.parse().unwrap(),
                "lb" => c.lb = o(v), "ub" => c.ub = o(v),
                "ext" => c.ext = b, "xt" => c.xt = b, "small" => c.small = b,
                "v" => c.v = v.parse().unwrap(), "n" => c.n = v.parse().unwrap(),
                "data" => c.data = v.chars().map(|c| c == '1').collect(),
                _ => {}
            }
        }
        c
    }
    fn prop(&self) -> &'static str {
        match self.op.as_str() {
            "int" => "C01",
            "bits" | "octets" | "visible" | "printable" | "utf8" => "C02",
            "buf" => "C07",
            _ => "C03",
        }
    }
    fn bytes(&self) -> Vec<u8> { self.data.chunks(8).map(|c| (val(c) << (8 - c.len())) as u8).collect() }
    fn string(&self) -> String { String::from_utf8(self.bytes()).unwrap() }
}

const PROPS: [&str; 7] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"];
type Fail = (Vec<&'static str>, String);

fn prefix(n: usize) -> Bits { (0..n).map(|i| i % 3 != 1).collect() }
fn start(n: usize) -> AperCodecData {
    let mut d = AperCodecData::new();
    for b in prefix(n) { encode_bool(&mut d, b).unwrap(); }
    d.set_key(-77);
    d
}

fn expect_enc(c: &Case) -> Option<Bits> {
    match c.op.as_str() {
        "int" | "enum" | "choice" => enc_integer(c.pre, c.lb, c.ub, c.ext, c.v, c.xt),
        "hdr" => enc_hdr(c.ext, &c.data, c.xt),
        "len" => if c.small { enc_len_small(c.pre, c.n) } else { enc_len(c.pre, c.lb, c.ub, c.n) },
        "bool" => Some(vec![c.v != 0]),
        "bits" => enc_string(c.pre, c.lb, c.ub, c.ext, &c.data, 1, false, c.xt),
        "octets" => enc_string(c.pre, c.lb, c.ub, c.ext, &c.data, 8, false, c.xt),
        "utf8" => enc_string(c.pre, None, None, false, &c.data, 8, true, c.xt),
        _ => enc_string(c.pre, c.lb, c.ub, c.ext, &c.data, 8, true, c.xt),
    }
}
fn real_enc(c: &Case, d: &mut AperCodecData) -> bool {
    let bv = || c.data.iter().collect::<BitVec<u8, Msb0>>();
    match c.op.as_str() {
        "int" => encode_integer(d, c.lb, c.ub, c.ext, c.v, c.xt).is_ok(),
        "enum" => encode_enumerated(d, c.lb, c.ub, c.ext, c.v, c.xt).is_ok(),
        "choice" => encode_choice_idx(d, c.lb.unwrap(), c.ub.unwrap(), c.ext, c.v, c.xt).is_ok(),
        "hdr" => encode_sequence_header(d, c.ext, &bv(), c.xt).is_ok(),
        "len" => encode_length_determinent(d, c.lb, c.ub, c.small, c.n).is_ok(),
        "bool" => encode_bool(d, c.v != 0).is_ok(),
        "bits" => encode_bitstring(d, c.lb, c.ub, c.ext, &bv(), c.xt).is_ok(),
        "octets" => encode_octetstring(d, c.lb, c.ub, c.ext, &c.bytes(), c.xt).is_ok(),
        "visible" => encode_visible_string(d, c.lb, c.ub, c.ext, &c.string(), c.xt).is_ok(),
        "printable" => encode_printable_string(d, c.lb, c.ub, c.ext, &c.string(), c.xt).is_ok(),
        "utf8" => encode_utf8_string(d, c.lb, c.ub, c.ext, &c.string(), c.xt).is_ok(),
        o => panic!("op {o}"),
    }
}

fn show(b: &[bool]) -> String {
    let s: String = b.iter().take(200).map(|x| if *x { '1' } else { '0' }).collect();
    format!("{}{} ({} bits)", s, if b.len() > 200 { "..." } else { "" }, b.len())
}

fn run_enc(c: &Case) -> Result<bool, Fail> {
    let want = expect_enc(c);
    let pre = prefix(c.pre);
    let mut ok = true;
    for sentinel in [true, false] {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut d = start(c.pre);
            let ok = real_enc(c, &mut d);
            let key = d.get_key();
            encode_bool(&mut d, sentinel).unwrap();
            (ok, key, d.into_bytes())
        }));
        let (got, key, bytes) = match r {
            Ok(x) => x,
            Err(_) => {
                let mut p = vec!["C05"];
                if want.is_some() { p.push(c.prop()); }
                return Err((p, format!("the encoder panicked; expected {:?}", want.as_deref().map(show))));
            }
        };
        let all = bytes_bits(&bytes);
        if key != Some(-77) { return Err((vec!["C05"], "the encoder changed the key".into())); }
        if all.len() < c.pre + 1 || all[..c.pre] != pre[..] {
            return Err((vec!["C05"], format!("the encoder changed bits that were already encoded: {}", show(&all))));
        }
        match &want {
            Some(e) => {
                if !got { return Err((vec![c.prop()], format!("the encoder failed; expected {}", show(e)))); }
                let mut w = pre.clone();
                w.extend(e);
                w.push(sentinel);
                if bytes.len() != (w.len() + 7) / 8 || all[..w.len()] != w[..] {
                    return Err((vec![c.prop()],
                        format!("after {} prefix bits the encoder wrote (with the marker bit {}) {}; expected {}", c.pre, sentinel as u8,
                            show(&all[c.pre..]), show(&w[c.pre..]))));
                }
            }
            None => {
                ok = false;
                if got { return Err((vec!["C05"], "the encoder accepted what has no encoding".into())); }
            }
        }
    }
    // Round trip, on the code alone.
    if let Some(e) = &want {
        let mut d = start(c.pre);
        if real_enc(c, &mut d) {
            let mut b = pre.clone();
            b.extend(e);
            let mut k = c.clone();
            k.dec = true;
            k.n = if c.op == "hdr" { c.data.len() } else { c.n };
            k.data = bytes_bits(&d.into_bytes());
            match real_dec_at(&k) {
                Ok((Some(v), used)) => {
                    let w = match c.op.as_str() {
                        "int" | "enum" | "choice" => format!("{} false", c.v),
                        "hdr" => format!("{} false", show_all(&c.data)),
                        "len" => format!("{}", c.n),
                        "bool" => format!("{}", c.v != 0),
                        _ => show_all(&c.data),
                    };
                    if v != w || used != b.len() {
                        return Err((vec![c.prop()], format!("round trip: encoded {w}, decoded {v}; {} bits encoded, {} consumed", b.len(), used)));
                    }
                }
                Ok((None, _)) => return Err((vec![c.prop()], "round trip: what was encoded is refused by the decoder".into())),
                Err(e) => return Err((vec![c.prop(), "C04"], format!("round trip: the decoder panicked or lost its place: {e}"))),
            }
        }
    }
    Ok(ok)
}

fn show_all(b: &[bool]) -> String { b.iter().map(|x| if *x { '1' } else { '0' }).collect() }

fn expect_dec(c: &Case, d: &mut D) -> Option<String> {
    let iv = |r: Option<(i128, bool)>| r.map(|(v, x)| format!("{v} {x}"));
    match c.op.as_str() {
        "int" => iv(d.integer(c.lb, c.ub, c.ext)),
        "enum" | "choice" => iv(d.index(c.lb, c.ub, c.ext)),
        "hdr" => d.hdr(c.ext, c.n).map(|(b, x)| format!("{} {}", show_all(&b), x)),
        "len" => if c.small { d.len_small() } else { d.len(c.lb, c.ub) }.map(|n| n.to_string()),
        "bool" => d.bit().map(|b| b.to_string()),
        "bits" => d.string(c.lb, c.ub, c.ext, 1, false).map(|b| show_all(&b)),
        "octets" => d.string(c.lb, c.ub, c.ext, 8, false).map(|b| show_all(&b)),
        "utf8" => d.string(None, None, false, 8, true).map(|b| show_all(&b)),
        _ => d.string(c.lb, c.ub, c.ext, 8, true).map(|b| show_all(&b)),
    }
}
fn real_dec(c: &Case, d: &mut AperCodecData) -> Option<String> {
    let iv = |r: (i128, bool)| format!("{} {}", r.0, r.1);
    let by = |b: &[u8]| show_all(&bytes_bits(b));
    match c.op.as_str() {
        "int" => decode_integer(d, c.lb, c.ub, c.ext).ok().map(iv),
        "enum" => decode_enumerated(d, c.lb, c.ub, c.ext).ok().map(iv),
        "choice" => decode_choice_idx(d, c.lb.unwrap(), c.ub.unwrap(), c.ext).ok().map(iv),
        "hdr" => decode_sequence_header(d, c.ext, c.n).ok()
            .map(|(b, x)| format!("{} {}", show_all(&b.iter().map(|x| *x).collect::<Vec<_>>()), x)),
        "len" => decode_length_determinent(d, c.lb, c.ub, c.small).ok().map(|n| n.to_string()),
        "bool" => decode_bool(d).ok().map(|b| b.to_string()),
        "bits" => decode_bitstring(d, c.lb, c.ub, c.ext).ok().map(|b| show_all(&b.iter().map(|x| *x).collect::<Vec<_>>())),
        "octets" => decode_octetstring(d, c.lb, c.ub, c.ext).ok().map(|b| by(&b)),
        "visible" => decode_visible_string(d, c.lb, c.ub, c.ext).ok().map(|s| by(s.as_bytes())),
        "printable" => decode_printable_string(d, c.lb, c.ub, c.ext).ok().map(|s| by(s.as_bytes())),
        "utf8" => decode_utf8_string(d, c.lb, c.ub, c.ext).ok().map(|s| by(s.as_bytes())),
        o => panic!("op {o}"),
    }
}

/// Decode at bit `pre` of `data` (whole octets); the value and the position afterwards.
fn real_dec_at(c: &Case) -> Result<(Option<String>, usize), String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let bytes = c.bytes();
        let mut d = AperCodecData::from_slice(&bytes);
        d.set_key(-77);
        for i in 0..c.pre { if decode_bool(&mut d).ok() != Some(c.data[i]) { return Err("decode_bool of the prefix".to_string()); } }
        let v = real_dec(c, &mut d);
        if d.get_key() != Some(-77) { return Err("the decoder changed the key".into()); }
        if d.get_inner().ok() != Some(bytes) { return Err("the decoder changed the data".into()); }
        let total = c.data.len();
        let mut rest = vec![];
        while let Ok(b) = decode_bool(&mut d) {
            rest.push(b);
            if rest.len() > total - c.pre { return Err("the decoder moved backwards".into()); }
        }
        let at = total - rest.len();
        if rest != c.data[at..] { return Err("the remaining bits are not the rest of the data".into()); }
        Ok((v, at))
    }));
    match r { Ok(x) => x, Err(_) => Err("panic".into()) }
}

fn run_dec(c: &Case) -> Result<bool, Fail> {
    let mut o = D { b: &c.data, o: c.pre };
    let want = expect_dec(c, &mut o);
    let (got, at) = match real_dec_at(c) {
        Ok(x) => x,
        Err(e) => {
            let mut p = vec!["C04"];
            if want.is_some() { p.push(c.prop()); }
            return Err((p, format!("{e}; expected {:?}", want)));
        }
    };
    if let Some(g) = &got {
        // Within constraints, whatever the expected value.
        let unit = match c.op.as_str() { "bits" => 1, "octets" | "visible" | "printable" => 8, _ => 0 };
        let extended = c.ext && *c.data.get(c.pre).unwrap_or(&false);
        if unit > 0 && !extended {
            let n = (g.len() / unit) as i128;
            if let Some(u) = c.ub { if u < 65536 && (n > u || c.lb.map_or(false, |l| n < l)) {
                return Err((vec!["C06"], format!("decoded {n} items where {}..{} are allowed", ob(c.lb), ob(c.ub))));
            } }
        }
        if ["int", "enum", "choice"].contains(&c.op.as_str()) && g.ends_with("false") {
            let n: i128 = g.split(' ').next().unwrap().parse().unwrap();
            if c.lb.map_or(false, |l| n < l || c.ub.map_or(false, |u| n > u)) {
                return Err((vec!["C06"], format!("decoded {n} where {}..{} is allowed", ob(c.lb), ob(c.ub))));
            }
        }
        if c.op == "len" && !c.small && c.ub.map_or(false, |u| u < 65536) {
            let n: i128 = g.parse().unwrap();
            if n > c.ub.unwrap() || c.lb.map_or(false, |l| n < l) {
                return Err((vec!["C06"], format!("decoded length {n} where {}..{} is allowed", ob(c.lb), ob(c.ub))));
            }
        }
    }
    match (&want, &got) {
        (Some(w), Some(g)) => {
            if w != g { return Err((vec![c.prop()], format!("decoded {g}; expected {w}"))); }
            if at != o.o { return Err((vec![c.prop()], format!("decoded {g} but consumed up to bit {at}; expected {}", o.o))); }
            Ok(true)
        }
        (Some(w), None) => Err((vec![c.prop()], format!("the decoder failed; expected {w}"))),
        (None, Some(g)) => Err((vec![c.prop(), "C04"], format!("decoded {g} from data that is not an encoding (truncated, non-zero padding or out of range)"))),
        (None, None) => Ok(false),
    }
}

fn run_buf(c: &Case) -> Result<bool, Fail> {
    // pre bits, then append_aligned of data
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let pre = prefix(c.pre);
        let d = start(c.pre);
        if d.length_in_bytes() != (c.pre + 7) / 8 { return Err(format!("length_in_bytes {} of {} bits", d.length_in_bytes(), c.pre)); }
        let g = bytes_bits(&d.get_inner().map_err(|_| "get_inner failed")?);
        if g.len() != (c.pre + 7) / 8 * 8 || g[..c.pre] != pre[..] { return Err(format!("get_inner {}", show(&g))); }
        let g = bytes_bits(&d.into_bytes());
        if g.len() != (c.pre + 7) / 8 * 8 || g[..c.pre] != pre[..] { return Err(format!("into_bytes {}", show(&g))); }
        if g[c.pre..].iter().any(|x| *x) { return Err(format!("into_bytes does not pad with zero bits: {}", show(&g))); }
        let mut d = start(c.pre);
        let mut o = AperCodecData::new();
        for b in &c.data { encode_bool(&mut o, *b).unwrap(); }
        d.append_aligned(&mut o);
        let mut w = pre.clone();
        w.extend(zeros(pad(w.len())));
        w.extend(&c.data);
        w.extend(zeros(pad(c.data.len())));
        if d.length_in_bytes() * 8 != w.len() { return Err(format!("append_aligned: {} octets, expected {} bits", d.length_in_bytes(), w.len())); }
        encode_bool(&mut d, true).unwrap();
        let g = bytes_bits(&d.into_bytes());
        w.push(true);
        if g.len() < w.len() || g[..w.len()] != w[..] { return Err(format!("append_aligned: {}, expected {}", show(&g), show(&w))); }
        // from_slice, decode_align
        let by = c.bytes();
        let mut d = AperCodecData::from_slice(&by);
        let all = bytes_bits(&by);
        for i in 0..all.len() { if decode_bool(&mut d).ok() != Some(all[i]) { return Err(format!("from_slice: bit {i}")); } }
        if decode_bool(&mut d).is_ok() { return Err("from_slice: more bits than the slice has".into()); }
        for s in 0..all.len().min(40) {
            let mut d = AperCodecData::from_slice(&by);
            for _ in 0..s { let _ = decode_bool(&mut d); }
            let q = s + pad(s);
            let okz = all[s..q].iter().all(|b| !*b);
            let r = d.decode_align().is_ok();
            if r != okz { return Err(format!("decode_align at {s} of {}: ok {}", show(&all), r)); }
            if r {
                let next = decode_bool(&mut d).ok();
                if next != all.get(q).cloned() { return Err(format!("decode_align at {s} of {}: wrong position", show(&all))); }
            }
            let mut d = AperCodecData::from_slice(&by);
            d.seek(s);
            if decode_bool(&mut d).ok() != Some(all[s]) { return Err(format!("seek to {s}")); }
            let mut d = AperCodecData::from_slice(&by);
            d.set_bit(s, !all[s]);
            let mut w = all.clone();
            w[s] = !w[s];
            if bytes_bits(&d.get_inner().unwrap()) != w { return Err(format!("set_bit {s}")); }
        }
        Ok(())
    }));
    match r {
        Ok(Ok(())) => Ok(true),
        Ok(Err(e)) => Err((vec!["C07"], e)),
        Err(_) => Err((vec!["C07", "C04"], "panic".into())),
    }
}

/// The case being run: what a watchdog reports when it does not come back, and (H_TRACE) what was
/// running when the process died.
static CURRENT: std::sync::Mutex<Option<(Case, std::time::Instant)>> = std::sync::Mutex::new(None);
const PATIENCE: f64 = 20.0;

fn hang_props(c: &Case) -> Vec<&'static str> {
    let mut p = vec![if c.op == "buf" { "C07" } else if c.dec { "C04" } else { "C05" }];
    if if c.dec { expect_dec(c, &mut D { b: &c.data, o: c.pre }).is_some() } else { c.op != "buf" && expect_enc(c).is_some() } { p.push(c.prop()); }
    p
}
fn watchdog(prop: &'static str) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((c, t)) = c {
            if t.elapsed().as_secs_f64() > PATIENCE {
                if hang_props(&c).contains(&prop) {
                    println!("FOUND {}\nWHY no answer within {PATIENCE} s", c.text());
                    std::process::exit(1);
                }
                println!("HANG {}", c.text());
                std::process::exit(3);
            }
        }
    });
}

fn run(c: &Case) -> Result<bool, Fail> {
    *CURRENT.lock().unwrap() = Some((c.clone(), std::time::Instant::now()));
    if let Ok(f) = std::env::var("H_TRACE") { std::fs::write(f, format!("case: {}\nprops: {}\n", c.text(), hang_props(c).join(" "))).unwrap(); }
    let r = run1(c);
    *CURRENT.lock().unwrap() = None;
    r
}

fn run1(c: &Case) -> Result<bool, Fail> {
    if c.op == "buf" { run_buf(c) } else if c.dec { run_dec(c) } else { run_enc(c) }
}

// ------------------------------------------------------------------ generation
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn i128(&mut self) -> i128 {
        let x = ((self.next() as u128) << 64 | self.next() as u128) as i128;
        x >> self.below(128)
    }
    fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

fn pool() -> Vec<i128> {
    let mut v = vec![0i128, 1, 2, 3, 5, 7, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300,
        511, 512, 1000, 16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 100_000, 16_777_215, 16_777_216, 16_777_217];
    for k in [31, 32, 33, 39, 40, 47, 48, 55, 56, 63, 64, 71, 72, 79, 80, 87, 88, 95, 96, 103, 104, 111, 112, 119, 120, 126] {
        for d in [-1, 0, 1] { v.push((1i128 << k) + d); }
    }
    v.push(i128::MAX); v.push(i128::MAX - 1);
    let n: Vec<i128> = v.iter().map(|x| -x).chain([i128::MIN, i128::MIN + 1, i128::MIN / 2]).collect();
    v.extend(n);
    v
}
fn range_ok(lb: Ob, ub: Ob) -> bool {
    match (lb, ub) { (Some(l), Some(u)) => u.checked_sub(l).map_or(false, |d| d > i128::MIN && d < i128::MAX), _ => true }
}

struct Gen { r: Rng, pool: Vec<i128>, spans: Vec<i128> }
impl Gen {
    fn val(&mut self) -> i128 { if self.r.below(3) == 0 { self.r.i128() } else { *self.r.of(&self.pool) } }
    fn bounds(&mut self) -> (Ob, Ob) {
        loop {
            let r = match self.r.below(8) {
                0 => (None, None),
                1 => (Some(self.val()), None),
                2 => (None, Some(self.val())),
                3 => (Some(self.val()), Some(self.val())),
                _ => {
                    let l = if self.r.flip() { *self.r.of(&[0, 1, -1, -128, -32768, 10]) } else { self.val() };
                    let s = if self.r.below(4) == 0 { (self.r.next() % 70000) as i128 } else { *self.r.of(&self.spans) };
                    (Some(l), l.checked_add(s).or(Some(l)))
                }
            };
            if range_ok(r.0, r.1) { return r; }
        }
    }
    fn sizes(&mut self) -> (Ob, Ob) {
        let s = [0i128, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 63, 64, 100, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300, 1000, 16383,
            16384, 16385, 20000, 32768, 65534, 65535, 65536, 65537, 100000];
        match self.r.below(8) {
            0 => (None, None),
            1 => (Some(*self.r.of(&s)), None),
            2 => (None, Some(*self.r.of(&s))),
            3 | 4 => { let l = *self.r.of(&s); (Some(l), Some(l)) }
            5 => { let l = *self.r.of(&s); (Some(l), Some(l + *self.r.of(&s))) }
            _ => (Some(*self.r.of(&[0, 1, 1, 2])), Some(*self.r.of(&s) + 2)),
        }
    }
    fn within(&mut self, lb: Ob, ub: Ob) -> i128 {
        let base = match (lb, ub) {
            (Some(l), Some(u)) => match self.r.below(5) {
                0 => l, 1 => u,
                2 if u > l => l + (self.r.i128() & i128::MAX) % (u - l).max(1),
                3 => l.saturating_add(*self.r.of(&self.pool)),
                _ => l.saturating_add(self.r.below(70000) as i128),
            },
            (Some(l), None) => if self.r.flip() { l.saturating_add(*self.r.of(&self.pool)) } else { self.val() },
            (None, Some(u)) => if self.r.flip() { u.saturating_sub(*self.r.of(&self.pool)) } else { self.val() },
            _ => self.val(),
        };
        base.saturating_add(*self.r.of(&[0, 0, 0, 0, 0, 1, -1]))
    }
    fn bits(&mut self, n: usize) -> Bits { (0..n).map(|_| self.r.flip()).collect() }
    fn count(&mut self, lb: Ob, ub: Ob) -> usize {
        let v = match self.r.below(8) {
            0 => lb.unwrap_or(0),
            1 => ub.unwrap_or(16383),
            2 => lb.unwrap_or(0) - 1,
            3 => ub.unwrap_or(16383) + 1,
            4 => *self.r.of(&[0, 1, 2, 3, 127, 128, 129, 16383, 16384, 65535, 65536]),
            _ => { let l = lb.unwrap_or(0); let u = ub.unwrap_or(300).min(l + 300); l + self.r.below((u - l + 1).max(1) as usize) as i128 }
        };
        v.clamp(0, 70000) as usize
    }
    fn utf8(&mut self, n: usize) -> Bits {
        let mut s = String::new();
        while s.len() < n {
            let c = if n - s.len() >= 4 && self.r.below(10) == 0 { *self.r.of(&['é', '€', '😀', 'ß']) } else { (32 + self.r.below(95)) as u8 as char };
            s.push(c);
        }
        bytes_bits(s.as_bytes())
    }
    fn enc(&mut self, op: &str) -> Case {
        let mut c = Case { op: op.into(), pre: self.r.below(20), ext: self.r.flip(), xt: self.r.below(24) == 0, ..Case::default() };
        match op {
            "int" | "enum" => { let b = self.bounds(); c.lb = b.0; c.ub = b.1; c.v = self.within(b.0, b.1); }
            "choice" => { loop { let b = self.bounds(); if let (Some(_), Some(_)) = b { c.lb = b.0; c.ub = b.1; break; } } c.v = self.within(c.lb, c.ub); }
            "bool" => c.v = self.r.below(2) as i128,
            "hdr" => { let n = *self.r.of(&[0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 40]); c.data = self.bits(n); c.n = n; }
            "len" => {
                let b = self.sizes(); c.lb = b.0; c.ub = b.1;
                c.small = self.r.below(3) == 0;
                c.n = if c.small { if self.r.flip() { self.r.below(200) } else { self.count(None, None) } } else { self.count(b.0, b.1) };
            }
            "buf" => { c.pre = self.r.below(40); let n = self.r.below(60); c.data = self.bits(n); if self.r.flip() { for b in &mut c.data { *b = false; } } }
            _ => {
                let b = self.sizes(); c.lb = b.0; c.ub = b.1;
                let mut n = self.count(b.0, b.1);
                if n > 2000 && self.r.below(8) != 0 { n = self.r.below(300); }
                c.data = match op { "bits" => self.bits(n), "octets" => self.bits(8 * n), _ => self.utf8(n) };
            }
        }
        c
    }
    /// Buffers: an encoding (the expected one, or one the encoder cannot produce) cut, extended or with bits flipped.
    fn dec(&mut self, op: &str) -> Case {
        let mut c = self.enc(op);
        c.xt = false;
        c.dec = true;
        if op == "hdr" { c.n = c.data.len(); }
        let p = c.pre;
        let mut body: Bits = match self.r.below(12) {
            0 => { let n = self.r.below(80); self.bits(n) }
            1 => vec![false; self.r.below(80)],
            2 => vec![true; self.r.below(80)],
            _ => {
                let e = expect_enc(&c);
                match e { Some(e) => e, None => { let n = self.r.below(40); self.bits(n) } }
            }
        };
        if self.r.below(4) == 0 {
            // forms only a decoder meets
            let e = if c.ext { vec![self.r.flip()] } else { vec![] };
            let q = p + e.len();
            body = match op {
                "int" => {
                    let n = self.r.below(19);
                    let mut x = if n > 2 && self.r.below(3) == 0 { let mut z = zeros(8 * (n / 2)); z.extend(self.bits(8 * (n - n / 2))); z } else { self.bits(8 * n) };
                    if n > 0 && self.r.below(3) == 0 { x[0] = self.r.flip(); }
                    [e, enc_len_general(q, n).unwrap(), x].concat()
                }
                "enum" | "choice" if c.ext => {
                    if self.r.flip() { [vec![true, false], self.bits(6)].concat() }
                    else {
                        let n = self.r.below(18);
                        [vec![true, true], enc_len_general(q + 1, n).unwrap(), self.bits(8 * n)].concat()
                    }
                }
                "len" => {
                    let z = zeros(pad(p + c.small as usize));
                    let k = self.r.below(7);
                    [if c.small { vec![true] } else { vec![] }, z, vec![true, true], be(k as u128, 6)].concat()
                }
                "bits" | "octets" | "visible" | "printable" | "utf8" => {
                    let unit = if op == "bits" { 1 } else { 8 };
                    let mut x = e;
                    let frags = self.r.below(2) + if self.r.below(4) == 0 { 1 } else { 0 };
                    for _ in 0..frags {
                        let k = *self.r.of(&[1usize, 1, 1, 2, 3, 4, 0, 5]);
                        x.extend(zeros(pad(p + x.len())));
                        x.extend([true, true]);
                        x.extend(be(k as u128, 6));
                        if op == "bits" || op == "octets" { x.extend(self.bits(16384 * k * unit)); } else { x.extend(self.utf8(16384 * k)); }
                    }
                    let n = *self.r.of(&[0usize, 1, 3, 17, 127, 128, 130]);
                    x.extend(enc_len_general(p + x.len(), n).unwrap());
                    if op == "bits" || op == "octets" { x.extend(self.bits(n * unit)); } else { x.extend(self.utf8(n)); }
                    x
                }
                _ => body,
            };
        }
        match self.r.below(5) {
            0 => { let n = self.r.below(body.len() + 1); body.truncate(n); }
            1 if !body.is_empty() => { for _ in 0..=self.r.below(2) { let i = self.r.below(body.len().min(60)); body[i] = !body[i]; } }
            2 if !body.is_empty() => { let i = self.r.below(body.len()); body[i] = !body[i]; }
            _ => {}
        }
        let mut b = prefix(p);
        b.extend(body);
        match self.r.below(3) { 0 => {} 1 => { let n = self.r.below(30); b.extend(self.bits(n)); } _ => { b.extend(zeros(pad(b.len()))); } }
        // whole octets: cut, so that data can end anywhere in relation to the encoding
        let n = if self.r.flip() { b.len() / 8 * 8 } else { (b.len() + 7) / 8 * 8 };
        b.resize(n.max((p + 7) / 8 * 8), false);
        c.data = b;
        c
    }
}

const OPS: [&str; 12] = ["int", "enum", "choice", "hdr", "len", "bool", "bits", "octets", "visible", "printable", "utf8", "buf"];

fn ops_of(prop: &str) -> Vec<&'static str> {
    match prop {
        "C01" => vec!["int"],
        "C02" => vec!["bits", "octets", "visible", "printable", "utf8"],
        "C03" => vec!["enum", "choice", "hdr", "len", "bool"],
        "C07" => vec!["buf"],
        _ => OPS.to_vec(),
    }
}

/// Small configurations, all of them.
fn systematic(prop: &str, f: &mut dyn FnMut(Case) -> bool) {
    let ops = ops_of(prop);
    for op in ops {
        let mut spans: Vec<i128> = (0..40).chain([62, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 16777215, 16777216]).collect();
        if op == "choice" || op == "enum" || op == "int" {
            spans.push((1 << 32) - 1);
            for &s in &spans { for lb in [0i128, 1, -5, -129, 1000] { for ext in [false, true] {
                for v in [-1, 0, 1, s / 2, s - 1, s, s + 1, 127, 128, 255, 256, 257, 65535, 65536] { for pre in [0usize, 3] {
                    if v > s + 1 { continue; }
                    let c = Case { op: op.into(), pre, lb: Some(lb), ub: Some(lb + s), ext, v: lb + v, ..Case::default() };
                    if !f(c.clone()) { return; }
                    let mut d = c.clone();
                    d.dec = true;
                    let e = enc_integer(pre, d.lb, Some(lb + s + 1), ext, d.v, false).or(enc_integer(pre, d.lb, d.ub, ext, d.v, false));
                    if let Some(e) = e { d.data = [prefix(pre), e].concat(); let n = (d.data.len() + 7) / 8 * 8; d.data.resize(n, false); if !f(d.clone()) { return; }
                        for b in d.data.iter_mut().skip(pre + ext as usize) { *b = true; } if !f(d) { return; } }
                } }
            } } }
        }
        if op == "int" {
            for lb in [None, Some(0i128), Some(-3), Some(i128::MIN), Some(5)] { for ub in [None, Some(i128::MAX), Some(7)] { for &v in &pool() { for ext in [false, true] {
                if !range_ok(lb, ub) { continue; }
                if !f(Case { op: op.into(), pre: 1, lb, ub, ext, v, ..Case::default() }) { return; }
            } } } }
        }
        if ["bits", "octets", "visible", "printable", "utf8"].contains(&op) {
            for lb in [None, Some(0i128), Some(1), Some(2), Some(3), Some(16), Some(17)] {
                for ub in [None, Some(0i128), Some(1), Some(2), Some(3), Some(4), Some(16), Some(17), Some(24), Some(255), Some(256), Some(65535), Some(65536)] {
                    if let (Some(l), Some(u)) = (lb, ub) { if l > u { continue; } }
                    for n in [0usize, 1, 2, 3, 4, 15, 16, 17, 18, 24, 127, 128] { for ext in [false, true] { for pre in 0..8 {
                        let unit = if op == "bits" { 1 } else { 8 };
                        let data: Bits = if op == "bits" { (0..n * unit).map(|i| i % 5 != 2).collect() } else { bytes_bits(&(0..n).map(|i| b'A' + (i % 50) as u8).collect::<Vec<_>>()) };
                        if !f(Case { op: op.into(), pre, lb, ub, ext, data, ..Case::default() }) { return; }
                    } } }
                }
            }
        }
        if op == "len" {
            for n in (0..300).chain([16382, 16383, 16384, 16385, 65535, 65536]) { for pre in [0usize, 1, 5] { for small in [false, true] {
                for ub in [None, Some(64i128), Some(255), Some(256), Some(20000), Some(65535), Some(65536), Some(1 << 20)] {
                    if !f(Case { op: op.into(), pre, lb: Some(0), ub, n, small, ..Case::default() }) { return; }
                    if small { break; }
                }
            } } }
            for x in 0..=255u8 { for y in [0u8, 1, 127, 128, 255] { for small in [false, true] { for ub in [None, Some(5i128), Some(255), Some(300)] {
                if !f(Case { dec: true, op: op.into(), ub, small, data: bytes_bits(&[x, y, y, x]), ..Case::default() }) { return; }
            } } } }
        }
        if op == "enum" || op == "choice" {
            for x in 0..=255u8 { for y in [0u8, 1, 2, 127, 128, 255] { for ext in [false, true] { for ub in [0i128, 3, 200, 255, 300, 70000] {
                if !f(Case { dec: true, op: op.into(), lb: Some(0), ub: Some(ub), ext, data: bytes_bits(&[x, y, x, y, 7]), ..Case::default() }) { return; }
            } } } }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("H_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    match a[1].as_str() {
        "search" => {
            let prop = PROPS.iter().find(|p| **p == a[2]).expect("property");
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let t = std::time::Instant::now();
            watchdog(prop);
            let (mut n, mut ok) = (0u64, 0u64);
            let mut found: Option<(Case, String)> = None;
            let mut one = |c: Case, found: &mut Option<(Case, String)>| -> bool {
                n += 1;
                match run(&c) {
                    Ok(x) => { ok += x as u64; true }
                    Err((ps, why)) if ps.contains(prop) => { *found = Some((c, why)); false }
                    Err(_) => true,
                }
            };
            systematic(prop, &mut |c| one(c, &mut found));
            let mut g = Gen { r: Rng(seed), pool: pool(), spans: pool().into_iter().filter(|x| *x >= 0).collect() };
            let ops = ops_of(prop);
            let (mut did, max) = (0u64, 4_000_000u64);
            let mut samples = vec![];
            while found.is_none() && did < max && t.elapsed().as_secs_f64() < secs {
                let op = ops[g.r.below(ops.len())];
                let c = if op == "buf" || g.r.flip() { g.enc(op) } else { g.dec(op) };
                if did % 1009 == 0 && samples.len() < 5 && c.data.len() < 200 { samples.push(c.text()); }
                did += 1;
                one(c, &mut found);
            }
            for s in samples { println!("SAMPLE {s}"); }
            println!("CASES {n} {ok}");
            if let Some((c, why)) = found {
                let (c, why) = shrink(c, why, prop);
                println!("FOUND {}", c.text());
                println!("WHY {why}");
                std::process::exit(1);
            }
        }
        "replay" => {
            std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs_f64(PATIENCE)); println!("broken: no answer within {PATIENCE} s"); std::process::exit(1); });
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let line = s.lines().find_map(|l| l.strip_prefix("case: ")).expect("no case line");
            match run(&Case::parse(line)) {
                Ok(_) => println!("holds: {line}"),
                Err((p, why)) => { println!("broken {:?}: {line}\n{why}", p); std::process::exit(1); }
            }
        }
        "shim" => shim::run(a[2].parse().unwrap()),
        x => panic!("{x}"),
    }
}

fn shrink(mut c: Case, mut why: String, prop: &str) -> (Case, String) {
    let fails = |c: &Case| match run(c) { Err((p, w)) if p.contains(&prop) => Some(w), _ => None };
    for _ in 0..200 {
        let mut cand = vec![];
        if c.op != "buf" && !c.dec { for p in 0..c.pre { cand.push(Case { pre: p, ..c.clone() }); } }
        if c.ext && !c.dec { cand.push(Case { ext: false, ..c.clone() }); }
        if !["visible", "printable", "utf8"].contains(&c.op.as_str()) && c.data.len() > 8 && !c.dec {
            let h = c.data.len() / 2 / 8 * 8;
            cand.push(Case { data: c.data[..h].to_vec(), ..c.clone() });
            cand.push(Case { data: c.data[..(c.data.len() - 1) / 8 * 8].to_vec(), ..c.clone() });
        }
        if c.dec && c.data.len() >= 8 + c.pre { cand.push(Case { data: c.data[..(c.data.len() - 8) / 8 * 8].to_vec(), ..c.clone() }); }
        match cand.into_iter().find_map(|k| fails(&k).map(|w| (k, w))) {
            Some((k, w)) => { c = k; why = w; }
            None => break,
        }
    }
    (c, why)
}
