//! The specification of contracts/codecs/aperspec.rs, made executable.
//! It decides whether a failed obligation is witnessed by a concrete input of the real code.
#![allow(dead_code)]
pub type Bits = Vec<bool>;
pub type Ob = Option<i128>;

pub fn bitlen(v: u128) -> usize { (128 - v.leading_zeros()) as usize }
pub fn be(v: u128, n: usize) -> Bits {
    (0..n).rev().map(|i| i < 128 && (v >> i) & 1 == 1).collect()
}
pub fn pad(p: usize) -> usize { (8 - p % 8) % 8 }
pub fn zeros(n: usize) -> Bits { vec![false; n] }
pub fn octets(v: u128) -> usize { if v == 0 { 1 } else { (bitlen(v) + 7) / 8 } }
pub fn soctets(v: i128) -> usize { bitlen(if v >= 0 { v as u128 } else { !(v as u128) }) / 8 + 1 }
pub fn bytes_bits(b: &[u8]) -> Bits { b.iter().flat_map(|x| be(*x as u128, 8)).collect() }
fn cat(parts: &[Bits]) -> Bits { parts.concat() }
fn ebit(ext: bool) -> Bits { if ext { vec![false] } else { vec![] } }

pub fn enc_cwn(p: usize, lb: i128, ub: i128, v: i128) -> Option<Bits> {
    if v < lb || v > ub { return None; }
    let span = (ub - lb) as u128;
    let o = (v - lb) as u128;
    Some(if span < 255 { be(o, bitlen(span)) }
    else if span == 255 { cat(&[zeros(pad(p)), be(o, 8)]) }
    else if span < 65536 { cat(&[zeros(pad(p)), be(o, 16)]) }
    else {
        let w = bitlen(octets(span) as u128 - 1);
        let n = octets(o);
        cat(&[be(n as u128 - 1, w), zeros(pad(p + w)), be(o, 8 * n)])
    })
}
pub fn enc_len_general(p: usize, n: usize) -> Option<Bits> {
    if n < 128 { Some(cat(&[zeros(pad(p)), be(n as u128, 8)])) }
    else if n < 16384 { Some(cat(&[zeros(pad(p)), be(0x8000 + n as u128, 16)])) }
    else { None }
}
pub fn enc_len(p: usize, lb: Ob, ub: Ob, n: usize) -> Option<Bits> {
    let v = n as i128;
    match ub {
        Some(u) if u < 65536 => enc_cwn(p, lb.unwrap_or(0), u, v),
        _ => if ub.map_or(false, |u| v > u) || lb.map_or(false, |l| v < l) { None } else { enc_len_general(p, n) },
    }
}
pub fn enc_len_small(p: usize, n: usize) -> Option<Bits> {
    if n == 0 { None }
    else if n <= 64 { Some(cat(&[vec![false], be(n as u128 - 1, 6)])) }
    else { Some(cat(&[vec![true], enc_len_general(p + 1, n)?])) }
}
pub fn enc_semi(p: usize, lb: i128, v: i128) -> Option<Bits> {
    if v < lb { return None; }
    let o = v.checked_sub(lb)? as u128;
    let n = octets(o);
    Some(cat(&[enc_len_general(p, n)?, be(o, 8 * n)]))
}
pub fn enc_uwn(p: usize, v: i128) -> Option<Bits> {
    let n = soctets(v);
    Some(cat(&[enc_len_general(p, n)?, be(v as u128, 8 * n)]))
}
pub fn enc_root(p: usize, lb: Ob, ub: Ob, v: i128) -> Option<Bits> {
    match (lb, ub) {
        (None, _) => enc_uwn(p, v),
        (Some(l), None) => enc_semi(p, l, v),
        (Some(l), Some(u)) => enc_cwn(p, l, u, v),
    }
}
pub fn enc_integer(p: usize, lb: Ob, ub: Ob, ext: bool, v: i128, extended: bool) -> Option<Bits> {
    if extended { return None; }
    let e = ebit(ext);
    let r = enc_root(p + e.len(), lb, ub, v)?;
    Some(cat(&[e, r]))
}
pub fn enc_hdr(ext: bool, o: &[bool], extended: bool) -> Option<Bits> {
    if extended { None } else { Some(cat(&[ebit(ext), o.to_vec()])) }
}
pub fn fixed(lb: Ob, ub: Ob) -> bool { lb.is_some() && lb == ub }
pub fn enc_string(p: usize, lb: Ob, ub: Ob, ext: bool, s: &[bool], unit: usize, chars: bool, extended: bool) -> Option<Bits> {
    let n = s.len() / unit;
    if extended || (!chars && n >= 16384) { return None; }
    let e = ebit(ext);
    let q = p + e.len();
    let l = enc_len(q, lb, ub, n)?;
    let z = if s.is_empty() || (fixed(lb, ub) && s.len() <= 16) || (chars && ub == Some(1)) { 0 } else { pad(q + l.len()) };
    Some(cat(&[e, l, zeros(z), s.to_vec()]))
}

// Decoders
pub struct D<'a> { pub b: &'a [bool], pub o: usize }
pub fn val(s: &[bool]) -> u128 { s.iter().fold(0, |a, x| a * 2 + *x as u128) }
impl<'a> D<'a> {
    pub fn bit(&mut self) -> Option<bool> { let r = *self.b.get(self.o)?; self.o += 1; Some(r) }
    pub fn ebit(&mut self, ext: bool) -> Option<bool> { if ext { self.bit() } else { Some(false) } }
    pub fn bits(&mut self, n: usize) -> Option<Bits> {
        if n > self.b.len() - self.o { return None; }
        let r = self.b[self.o..self.o + n].to_vec();
        self.o += n;
        Some(r)
    }
    pub fn uint(&mut self, n: usize) -> Option<i128> {
        let o = self.o;
        let r = self.bits(n)?;
        if n > 128 || val(&r) > i128::MAX as u128 { self.o = o; return None; }
        Some(val(&r) as i128)
    }
    pub fn sint(&mut self, n: usize) -> Option<i128> {
        if !(8..=128).contains(&n) || n % 8 != 0 { return None; }
        let r = self.bits(n)?;
        let v = val(&r);
        Some(if r[0] && n < 128 { (v | (u128::MAX << n)) as i128 } else { v as i128 })
    }
    pub fn align(&mut self) -> Option<()> {
        let z = self.bits(pad(self.o))?;
        if z.iter().any(|x| *x) { None } else { Some(()) }
    }
    pub fn cwn(&mut self, lb: i128, ub: i128) -> Option<i128> {
        if ub < lb { return None; }
        let span = (ub - lb) as u128;
        let v = if span < 255 { self.uint(bitlen(span))? }
        else if span == 255 { self.align()?; self.uint(8)? }
        else if span < 65536 { self.align()?; self.uint(16)? }
        else {
            let m = octets(span);
            let l = self.uint(bitlen(m as u128 - 1))? as usize + 1;
            if l > m { return None; }
            self.align()?;
            self.uint(8 * l)?
        };
        if v as u128 > span { None } else { Some(v + lb) }
    }
    pub fn len_general(&mut self) -> Option<usize> {
        self.align()?;
        if !self.bit()? { return Some(self.uint(7)? as usize); }
        if !self.bit()? { return Some(self.uint(14)? as usize); }
        let v = self.uint(6)?;
        if (1..=4).contains(&v) { Some(v as usize * 16384) } else { None }
    }
    pub fn len(&mut self, lb: Ob, ub: Ob) -> Option<usize> {
        match ub {
            Some(u) if u < 65536 => self.cwn(lb.unwrap_or(0), u).map(|v| v as usize),
            _ => self.len_general(),
        }
    }
    pub fn len_small(&mut self) -> Option<usize> {
        if self.bit()? { self.len_general() } else { Some(self.uint(6)? as usize + 1) }
    }
    pub fn semi(&mut self, lb: i128) -> Option<i128> { let n = self.len_general()?; self.uint(8 * n)?.checked_add(lb) }
    pub fn uwn(&mut self) -> Option<i128> { let n = self.len_general()?; self.sint(8 * n) }
    pub fn small(&mut self) -> Option<i128> { if self.bit()? { self.semi(0) } else { self.uint(6) } }
    pub fn root(&mut self, lb: Ob, ub: Ob) -> Option<i128> {
        match (lb, ub) { (None, _) => self.uwn(), (Some(l), None) => self.semi(l), (Some(l), Some(u)) => self.cwn(l, u) }
    }
    pub fn integer(&mut self, lb: Ob, ub: Ob, ext: bool) -> Option<(i128, bool)> {
        let x = self.ebit(ext)?;
        Some((if x { self.uwn()? } else { self.root(lb, ub)? }, x))
    }
    pub fn index(&mut self, lb: Ob, ub: Ob, ext: bool) -> Option<(i128, bool)> {
        let x = self.ebit(ext)?;
        Some((if x { self.small()? } else { self.root(lb, ub)? }, x))
    }
    pub fn hdr(&mut self, ext: bool, n: usize) -> Option<(Bits, bool)> {
        let x = self.ebit(ext)?;
        Some((self.bits(n)?, x))
    }
    /// BIT STRING (unit 1), OCTET STRING (8), character strings (8, chars)
    pub fn string(&mut self, lb: Ob, ub: Ob, ext: bool, unit: usize, chars: bool) -> Option<Bits> {
        let x = self.ebit(ext)?;
        let (lb, ub) = if x { (None, None) } else { (lb, ub) };
        let mut acc = vec![];
        loop {
            let n = self.len(lb, ub)?;
            let more = ub.map_or(true, |u| u >= 65536) && n >= 16384;
            if chars && more { return None; }
            let w = n * unit;
            if w > 0 {
                if !(fixed(lb, ub) && w <= 16) && !(chars && ub == Some(1)) { self.align()?; }
                acc.extend(self.bits(w)?);
            }
            if !more { break; }
        }
        if chars {
            let by: Vec<u8> = acc.chunks(8).map(|c| val(c) as u8).collect();
            String::from_utf8(by).ok()?;
        }
        Some(acc)
    }
}
