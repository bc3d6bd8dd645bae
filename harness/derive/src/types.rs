//! The specification of contracts/derive/typespec.rs, made executable.
use crate::oracle::*;
use asn1_codecs::aper::{AperCodec, AperCodecData};

#[derive(Clone, Debug)]
pub enum Ty {
    Null,
    Bool,
    Oid,
    Int(Ob, Ob, bool, i128, i128),
    Enum(Ob, Ob, bool, i128, i128),
    Bits(Ob, Ob, bool),
    Octets(Ob, Ob, bool),
    Chars(Ob, Ob, bool),
    Of(Box<Ty>, Ob, Ob, bool),
    Seq(bool, usize, Vec<Field>),
    Choice(i128, i128, bool, Vec<Alt>),
    Open(Vec<Alt>),
}
#[derive(Clone, Debug)]
pub struct Field { pub ty: Ty, pub opt: Option<usize>, pub key: bool }
#[derive(Clone, Debug)]
pub struct Alt { pub ty: Ty, pub key: i128, pub extended: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    Bits(Bits),
    Octets(Vec<u8>),
    List(Vec<Val>),
    Fields(Vec<Val>),
    Absent,
    Alt(usize, Box<Val>),
}

impl Val {
    pub fn text(&self) -> String {
        let all = |v: &[Val]| v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",");
        match self {
            Val::Null => "n".into(),
            Val::Bool(b) => if *b { "t".into() } else { "f".into() },
            Val::Int(i) => format!("i{i}"),
            Val::Bits(b) => format!("b{}", b.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>()),
            Val::Octets(b) => format!("x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            Val::List(v) => format!("[{}]", all(v)),
            Val::Fields(v) => format!("{{{}}}", all(v)),
            Val::Absent => "-".into(),
            Val::Alt(i, v) => format!("({i},{})", v.text()),
        }
    }
    pub fn parse(s: &mut &[u8]) -> Val {
        fn word<'a>(s: &mut &'a [u8]) -> &'a str {
            let n = s.iter().position(|c| b",]})".contains(c)).unwrap_or(s.len());
            let (a, b) = s.split_at(n);
            *s = b;
            std::str::from_utf8(a).unwrap()
        }
        fn list(s: &mut &[u8], end: u8) -> Vec<Val> {
            let mut r = vec![];
            while s[0] != end {
                if s[0] == b',' { *s = &s[1..]; }
                r.push(Val::parse(s));
            }
            *s = &s[1..];
            r
        }
        let c = s[0];
        *s = &s[1..];
        match c {
            b'n' => Val::Null,
            b't' => Val::Bool(true),
            b'f' => Val::Bool(false),
            b'-' => Val::Absent,
            b'i' => Val::Int(word(s).parse().unwrap()),
            b'b' => Val::Bits(word(s).bytes().map(|c| c == b'1').collect()),
            b'x' => { let w = word(s); Val::Octets((0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect()) }
            b'[' => Val::List(list(s, b']')),
            b'{' => Val::Fields(list(s, b'}')),
            b'(' => { let i = word(s).parse().unwrap(); *s = &s[1..]; let v = Val::parse(s); *s = &s[1..]; Val::Alt(i, Box::new(v)) }
            c => panic!("{c}"),
        }
    }
}

/// What an encoder does not emit but a decoder may meet: decided by the caller at each place.
pub type Wild<'a> = Option<&'a mut dyn FnMut(usize) -> usize>;

pub fn put(ty: &Ty, s: &mut Bits, v: &Val) -> Option<()> { put_wild(ty, s, v, &mut None) }
fn chance(w: &mut Wild, n: usize) -> bool { match w { Some(f) => f(n) == 0, None => false } }
pub fn put_wild(ty: &Ty, s: &mut Bits, v: &Val, w: &mut Wild) -> Option<()> {
    let p = s.len();
    match (ty, v) {
        (Ty::Null, Val::Null) => {}
        (Ty::Bool, Val::Bool(b)) => s.push(*b),
        (Ty::Int(_, _, true, ..), Val::Int(i)) if chance(w, 6) => { s.push(true); let e = enc_uwn(p + 1, *i)?; s.extend(e); }
        (Ty::Int(lb, ub, ext, _, _) | Ty::Enum(lb, ub, ext, _, _), Val::Int(i)) => s.extend(enc_integer(p, *lb, *ub, *ext, *i, false)?),
        (Ty::Bits(lb, ub, ext), Val::Bits(b)) => {
            if *ext && chance(w, 6) { s.push(true); s.extend(enc_string(p + 1, None, None, false, b, 1, false, false)?); }
            else { s.extend(enc_string(p, *lb, *ub, *ext, b, 1, false, false)?); }
        }
        (Ty::Octets(lb, ub, ext), Val::Octets(b)) => {
            if *ext && chance(w, 6) { s.push(true); s.extend(enc_string(p + 1, None, None, false, &bytes_bits(b), 8, false, false)?); }
            else { s.extend(enc_string(p, *lb, *ub, *ext, &bytes_bits(b), 8, false, false)?); }
        }
        (Ty::Chars(lb, ub, ext), Val::Octets(b)) => {
            if *ext && chance(w, 6) { s.push(true); s.extend(enc_string(p + 1, None, None, false, &bytes_bits(b), 8, true, false)?); }
            else { s.extend(enc_string(p, *lb, *ub, *ext, &bytes_bits(b), 8, true, false)?); }
        }
        (Ty::Of(item, lb, ub, ext), Val::List(l)) => {
            let x = *ext && chance(w, 6);
            if *ext { s.push(x); }
            let (lb, ub) = if x { (None, None) } else { (*lb, *ub) };
            if ub.map_or(true, |u| u >= 65536) && !l.is_empty() && chance(w, 40) {
                let mut e = vec![];
                put(item, &mut e, &l[0])?;
                if e.len() < 9 {      // a fragment
                    s.extend(zeros(pad(s.len())));
                    s.extend([true, true, false, false, false, false, false, true]);
                    for _ in 0..16384 { put(item, s, &l[0])?; }
                }
            }
            s.extend(enc_len(s.len(), lb, ub, l.len())?);
            for i in l { put_wild(item, s, i, w)?; }
        }
        (Ty::Seq(ext, n, fs), Val::Fields(vs)) => {
            let x = *ext && chance(w, 4);
            if *ext { s.push(x); }
            let mut bm = vec![false; *n];
            for (f, v) in fs.iter().zip(vs) { if let Some(i) = f.opt { bm[i] = *v != Val::Absent; } }
            s.extend(bm);
            for (f, v) in fs.iter().zip(vs) { if f.opt.is_none() || *v != Val::Absent { put_wild(&f.ty, s, v, w)?; } }
            if x {
                let r = |w: &mut Wild, n: usize| w.as_mut().unwrap()(n);
                let most = if r(w, 8) == 0 { 70 } else { 5 };
                let n = 1 + r(w, most);
                s.extend(enc_len_small(s.len(), n)?);
                let bm: Bits = (0..n).map(|_| r(w, 3) == 0).collect();
                s.extend(&bm);
                for b in bm {
                    if b {
                        let k = r(w, 5);
                        s.extend(enc_len_general(s.len(), k)?);
                        for _ in 0..8 * k { s.push(r(w, 2) == 0); }
                    }
                }
            }
        }
        (Ty::Choice(lb, ub, ext, alts), Val::Alt(i, v)) => {
            s.extend(enc_integer(p, Some(*lb), Some(*ub), *ext, alts[*i].key, alts[*i].extended)?);
            put_wild(&alts[*i].ty, s, v, w)?;
        }
        (Ty::Open(alts), Val::Alt(i, v)) => {
            let mut e = vec![];
            put_wild(&alts[*i].ty, &mut e, v, w)?;
            if e.is_empty() { e.push(false); }
            e.extend(zeros(pad(e.len())));
            if chance(w, 6) { for _ in 0..8 * (1 + w.as_mut().unwrap()(3)) { e.push(false); } }
            s.extend(enc_len_general(p, e.len() / 8)?);
            s.extend(e);
        }
        _ => return None,
    }
    Some(())
}

type Key = Option<i128>;
pub fn dec(ty: &Ty, d: &mut D, key: Key) -> Option<(Val, Key)> {
    let v = match ty {
        Ty::Null => Val::Null,
        Ty::Bool => Val::Bool(d.bit()?),
        Ty::Oid => return None,
        Ty::Int(lb, ub, ext, min, max) => { let v = d.integer(*lb, *ub, *ext)?; if v.0 < *min || v.0 > *max { return None; } Val::Int(v.0) }
        Ty::Enum(lb, ub, ext, min, max) => { let v = d.index(*lb, *ub, *ext)?; if v.1 || v.0 < *min || v.0 > *max { return None; } Val::Int(v.0) }
        Ty::Bits(lb, ub, ext) => Val::Bits(d.string(*lb, *ub, *ext, 1, false)?),
        Ty::Octets(lb, ub, ext) => Val::Octets(octs(&d.string(*lb, *ub, *ext, 8, false)?)),
        Ty::Chars(lb, ub, ext) => Val::Octets(octs(&d.string(*lb, *ub, *ext, 8, true)?)),
        Ty::Of(item, lb, ub, ext) => {
            let x = d.ebit(*ext)?;
            let n = if x { d.len(None, None)? } else { d.len(*lb, *ub)? };
            if n >= 16384 && (x || ub.map_or(true, |u| u >= 65536)) { return None; }
            let (mut r, mut k) = (vec![], key);
            for _ in 0..n { let (v, q) = dec(item, d, k)?; r.push(v); k = q; }
            return Some((Val::List(r), k));
        }
        Ty::Seq(ext, n, fs) => {
            let (bm, more) = d.hdr(*ext, *n)?;
            let (mut r, mut k, mut own) = (vec![], key, None);
            for f in fs {
                if f.opt.map_or(true, |i| bm[i]) {
                    let (v, q) = dec(&f.ty, d, if own.is_some() && !f.key { own } else { k })?;
                    k = q;
                    if f.key { if let Val::Int(i) = v { k = Some(i); own = k; } }
                    r.push(v);
                } else { r.push(Val::Absent); }
            }
            if more {
                let n = d.len_small()?;
                if n >= 16384 { return None; }
                for b in d.bits(n)? { if b { d.string(None, None, false, 8, false)?; } }
            }
            return Some((Val::Fields(r), k));
        }
        Ty::Choice(lb, ub, ext, alts) => {
            let (v, x) = d.index(Some(*lb), Some(*ub), *ext)?;
            if x { return None; }
            let i = alts.iter().position(|a| a.key == v)?;
            let (v, k) = dec(&alts[i].ty, d, key)?;
            return Some((Val::Alt(i, Box::new(v)), k));
        }
        Ty::Open(alts) => {
            let s = d.string(None, None, false, 8, false)?;
            let i = alts.iter().position(|a| Some(a.key) == key)?;
            let (v, _) = dec(&alts[i].ty, &mut D { b: &s, o: 0 }, key)?;
            Val::Alt(i, Box::new(v))
        }
    };
    Some((v, key))
}
fn octs(b: &[bool]) -> Vec<u8> { b.chunks(8).map(|c| val(c) as u8).collect() }

/// The property a declaration belongs to.
pub fn prop(ty: &Ty) -> &'static str {
    match ty { Ty::Seq(..) | Ty::Of(..) => "D02", Ty::Choice(..) | Ty::Open(..) => "D03", _ => "D01" }
}

pub trait Conv: Sized {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    fn of_val(v: &Val) -> Option<Self>;
}
pub struct Entry {
    pub name: &'static str,
    pub ty: Ty,
    /// None: not a value of the Rust type
    pub enc: fn(&Val, &mut AperCodecData) -> Option<bool>,
    pub dec: fn(&mut AperCodecData) -> Option<Val>,
}
pub fn entry<T: Conv + AperCodec<Output = T>>(name: &'static str) -> Entry {
    Entry {
        name,
        ty: T::ty(),
        enc: |v, d| { let x = T::of_val(v)?; assert!(x.val() == *v); Some(x.encode(d).is_ok()) },
        dec: |d| T::decode(d).ok().map(|x| x.val()),
    }
}
