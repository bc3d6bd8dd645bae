//! Every assumed contract of contracts/codecs/shim.rs, executed on the real bitvec and std.
use crate::oracle::{be, bytes_bits, val, Bits};
use bitvec::prelude::*;
type BV = BitVec<u8, Msb0>;
type BS = BitSlice<u8, Msb0>;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn bits(&mut self, n: usize) -> Bits { (0..n).map(|_| self.next() & 16 == 0).collect() }
}
fn view(s: &BS) -> Bits { s.iter().map(|b| *b).collect() }
/// A vector whose storage starts at bit 0 (head0), by pushes.
fn vec_of(b: &[bool]) -> BV { let mut v = BV::new(); for x in b { v.push(*x); } v }

macro_rules! same { ($n:ident, $what:expr, $a:expr, $b:expr) => { { let (a, b) = ($a, $b); $n += 1;
    if a != b { println!("SHIM-MISMATCH {}: {:?} against {:?}", $what, a, b); std::process::exit(1); } } } }

pub fn run(seed: u64) {
    let mut r = Rng(seed | 1);
    let mut n = 0u64;
    same!(n, "default", view(&BV::default()), Bits::new());
    same!(n, "new", view(&BV::new()), Bits::new());
    same!(n, "with_capacity", view(&BV::with_capacity(77)), Bits::new());
    for round in 0..4000 {
        let len = r.below(if round % 50 == 0 { 3000 } else { 140 });
        let a = r.bits(len);
        let len = r.below(70);
        let b = r.bits(len);
        let v = vec_of(&a);
        same!(n, "push", view(&v), a.clone());
        same!(n, "deref/len", v.as_bitslice().len(), a.len());
        same!(n, "is_empty", v.is_empty(), a.is_empty());
        let i = r.below(a.len() + 1);
        let j = i + r.below(a.len() + 1 - i);
        same!(n, "get", v.get(i).map(|x| *x), a.get(i).cloned());
        same!(n, "index range", view(&v[i..j]), a[i..j].to_vec());
        same!(n, "index from", view(&v[i..]), a[i..].to_vec());
        same!(n, "index to", view(&v[..j]), a[..j].to_vec());
        same!(n, "index full", view(&v[..]), a.clone());
        if i < a.len() { same!(n, "index", v[i], a[i]); }
        let s: &BS = &v[i..j];
        let t = &a[i..j];
        same!(n, "slice of slice", view(&s[(j - i) / 2..]), t[(j - i) / 2..].to_vec());
        same!(n, "to_bitvec", view(&s.to_bitvec()), t.to_vec());
        same!(n, "from_bitslice", view(&BV::from_bitslice(s)), t.to_vec());
        same!(n, "any", s.any(), t.iter().any(|x| *x));
        same!(n, "all", s.all(), t.iter().all(|x| *x));
        same!(n, "not_any", s.not_any(), !t.iter().any(|x| *x));
        same!(n, "iter all", s.iter().all(|b| b == true), t.iter().all(|x| *x));
        same!(n, "iter any", s.iter().any(|b| b == true), t.iter().any(|x| *x));
        let mut w = v.clone();
        w.extend_from_bitslice(s);
        same!(n, "extend_from_bitslice", view(&w), [&a[..], t].concat());
        let mut w = v.clone();
        w.extend(vec_of(&b));
        same!(n, "extend", view(&w), [&a[..], &b[..]].concat());
        for (k, f) in [(r.below(200), true), (r.below(200), false)] {
            let mut w = v.clone();
            w.resize(k, f);
            let mut e = a.clone();
            e.resize(k, f);
            same!(n, "resize", view(&w), e.clone());
            same!(n, "repeat", view(&BV::repeat(f, k)), vec![f; k]);
            let mut w = v.clone();
            w.truncate(k);
            let mut e = a.clone();
            e.truncate(k);
            same!(n, "truncate", view(&w), e);
        }
        let mut w = v.clone();
        w.reserve(50);
        same!(n, "reserve", view(&w), a.clone());
        if i < a.len() { w.set(i, !a[i]); let mut e = a.clone(); e[i] = !e[i]; same!(n, "set", view(&w), e); }
        w.clear();
        same!(n, "clear", view(&w), Bits::new());
        // storage: head0 after pushes, appends, resizes, force_align
        let into = |x: BV, e: &[bool], what: &str| {
            let y = BitVec::into_vec(x.clone());
            let z: Vec<u8> = x.into();
            if [&y, &z].iter().any(|y| y.len() != (e.len() + 7) / 8 || bytes_bits(y)[..e.len()] != *e) {
                println!("SHIM-MISMATCH into_vec {what}: {y:?} {z:?} against {e:?}");
                std::process::exit(1);
            }
        };
        into(v.clone(), &a, "pushed");
        let mut w = v.clone();
        w.extend_from_bitslice(s);
        into(w, &[&a[..], t].concat(), "extended");
        let mut w = v.clone();
        w.resize(a.len() + 9, false);
        into(w, &[&a[..], &[false; 9]].concat(), "resized");
        let mut w = s.to_bitvec();
        w.force_align();
        into(w, t, "aligned");
        n += 4;
        // octets
        let by: Vec<u8> = (0..r.below(40)).map(|_| r.next() as u8).collect();
        let x = BS::from_slice(&by);
        same!(n, "from_slice", view(x), bytes_bits(&by));
        into(x.to_bitvec(), &bytes_bits(&by), "from_slice to_bitvec");
        same!(n, "as_bits", view(by.as_bits::<Msb0>()), bytes_bits(&by));
        same!(n, "view_bits", view(by[..].view_bits::<Msb0>()), bytes_bits(&by));
        same!(n, "u8 view_bits", view((round as u8).view_bits::<Msb0>()), be(round as u8 as u128, 8));
        let st: String = by.iter().map(|b| *b as char).collect();
        same!(n, "str as_bits", view(st.as_bits::<Msb0>()), bytes_bits(st.as_bytes()));
        same!(n, "String len", st.len(), st.as_bytes().len());
        same!(n, "from_utf8", std::str::from_utf8(&by).ok().map(|s| s.as_bytes().to_vec()), String::from_utf8(by.clone()).ok().map(|s| s.into_bytes()));
        // chunks
        for k in [1usize, 7, 8, 16] {
            let c: Vec<Bits> = s.chunks_exact(k).map(view).collect();
            let e: Vec<Bits> = t.chunks_exact(k).map(|x| x.to_vec()).collect();
            same!(n, "chunks_exact", c, e);
        }
        // loads
        if j > i {
            let l = &s[..(j - i).min(128)];
            let e = val(&t[..(j - i).min(128)]);
            same!(n, "load_be u128", l.load_be::<u128>(), e);
            let m = l.len();
            if m <= 64 { same!(n, "load_be u64", l.load_be::<u64>() as u128, e); same!(n, "load_be usize", l.load_be::<usize>() as u128, e); }
            if m <= 32 { same!(n, "load_be u32", l.load_be::<u32>() as u128, e); }
            if m <= 16 { same!(n, "load_be u16", l.load_be::<u16>() as u128, e); }
            if m <= 8 { same!(n, "load_be u8", l.load_be::<u8>() as u128, e); }
        }
        // std
        let x = ((r.next() as u128) << 64 | r.next() as u128) as i128 >> r.below(128);
        let bl = |v: u128| (0..=128).find(|k| *k == 128 || v >> k == 0).unwrap() as u32;
        same!(n, "leading_zeros", x.leading_zeros(), if x >= 0 { 128 - bl(x as u128) } else { 0 });
        same!(n, "leading_ones", x.leading_ones(), if x < 0 { 128 - bl(!x as u128) } else { 0 });
        same!(n, "i128 to_be_bytes", bytes_bits(&x.to_be_bytes()), be(x as u128, 128));
        same!(n, "u128 to_be_bytes", bytes_bits(&(x as u128).to_be_bytes()), be(x as u128, 128));
        same!(n, "u64 to_be_bytes", bytes_bits(&(x as u64).to_be_bytes()), be(x as u64 as u128, 64));
        same!(n, "u32 to_be_bytes", bytes_bits(&(x as u32).to_be_bytes()), be(x as u32 as u128, 32));
        same!(n, "u16 to_be_bytes", bytes_bits(&(x as u16).to_be_bytes()), be(x as u16 as u128, 16));
        same!(n, "u8 to_be_bytes", bytes_bits(&(x as u8).to_be_bytes()), be(x as u8 as u128, 8));
        let bb = x.to_be_bytes();
        same!(n, "position", bb.iter().position(|b| *b != 0), (0..16).find(|k| bb[*k] != 0));
        let mut o = if x & 1 == 0 { None } else { Some(x) };
        let o2 = o;
        same!(n, "map_or", o.map_or(7, |v| v ^ 5), match o2 { None => 7, Some(v) => v ^ 5 });
        same!(n, "replace", (o.replace(9), o), (o2, Some(9)));
    }
    println!("SHIM {n} comparisons agree");
}
