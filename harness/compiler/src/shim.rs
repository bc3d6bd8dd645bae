//! Every assumed contract of contracts/parser/shim.rs and contracts/resolver/std.rs that can be run, on random operands.
use crate::text::Rng;

macro_rules! same { ($n:ident, $what:expr, $a:expr, $b:expr) => { { let (a, b) = ($a, $b); $n += 1;
    if a != b { println!("SHIM-MISMATCH {}: {:?} against {:?}", $what, a, b); std::process::exit(1); } } } }

fn text(r: &mut Rng) -> String {
    (0..r.below(14)).map(|_| r.of(&["a", "Z", "0", "1", "'", "\"", "-", "--", ".", " ", "\n", "\r\n", "\t", "é", "ß", "K", "日", "\u{a0}", "\u{2028}", "\r", "h", "B"])).collect()
}

pub fn run(seed: u64) {
    let mut r = Rng(seed | 1);
    let mut n = 0u64;
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        same!(n, "is_ascii_digit", c.is_ascii_digit(), ('0'..='9').contains(&c));
        same!(n, "is_ascii_hexdigit", c.is_ascii_hexdigit(), ('0'..='9').contains(&c) || ('a'..='f').contains(&c) || ('A'..='F').contains(&c));
        same!(n, "is_ascii_alphanumeric", c.is_ascii_alphanumeric(), ('0'..='9').contains(&c) || ('a'..='z').contains(&c) || ('A'..='Z').contains(&c));
        let l = c.to_lowercase().to_string();
        same!(n, "to_lowercase h", l == "h", c == 'h' || c == 'H');
        same!(n, "to_lowercase b", l == "b", c == 'b' || c == 'B');
        same!(n, "char to_string", c.to_string().chars().collect::<Vec<_>>(), vec![c]);
        if c.is_ascii() {
            same!(n, "lower", c.is_lowercase(), ('a'..='z').contains(&c));
            same!(n, "upper", c.is_uppercase(), ('A'..='Z').contains(&c));
        }
    }
    for _ in 0..30000 {
        let s = text(&mut r);
        let cs: Vec<char> = s.chars().collect();
        let t = text(&mut r);
        same!(n, "collect", cs.iter().collect::<String>(), s.clone());
        same!(n, "from_utf8", String::from_utf8(s.clone().into_bytes()).unwrap(), s.clone());
        let bytes: Vec<u8> = (0..r.below(5)).map(|_| r.below(256) as u8).collect();
        same!(n, "from_utf8 validity", String::from_utf8(bytes.clone()).is_ok(), std::str::from_utf8(&bytes).is_ok());
        let p = |c: &char| *c == '-' || *c == 'a';
        same!(n, "any", cs.iter().any(|c| p(c)), cs.iter().filter(|c| p(c)).count() > 0);
        same!(n, "all", cs.iter().all(|c| p(c)), cs.iter().filter(|c| !p(c)).count() == 0);
        let mut pos = None;
        for i in (0..cs.len()).rev() { if p(&cs[i]) { pos = Some(i); } }
        same!(n, "position", cs.iter().position(|c| p(c)), pos);
        same!(n, "chars all", s.chars().all(|c| p(&c)), cs.iter().filter(|c| !p(c)).count() == 0);
        same!(n, "windows", cs.windows(2).enumerate().map(|(i, w)| (i, w.to_vec())).collect::<Vec<_>>(), (0..cs.len().saturating_sub(1)).map(|i| (i, cs[i..i + 2].to_vec())).collect::<Vec<_>>());
        same!(n, "string == str", s == t.as_str(), cs == t.chars().collect::<Vec<_>>());
        let lines: Vec<&str> = s.lines().collect();
        if !s.is_empty() && !s.ends_with('\n') { same!(n, "lines", lines.len(), cs.iter().filter(|c| **c == '\n').count() + 1); same!(n, "last line", lines.last().unwrap().len() <= 4 * cs.len(), true); }
        same!(n, "lines count/last", (s.lines().count(), s.lines().last()), (lines.len(), lines.last().copied()));
        same!(n, "join", lines.join(""), lines.iter().flat_map(|l| l.chars()).collect::<String>());
        same!(n, "replace", s.replace(char::is_whitespace, ""), cs.iter().filter(|c| !c.is_whitespace()).collect::<String>());
        same!(n, "replace set", s.replace(&['0', '1', '\''][..], ""), cs.iter().filter(|c| !"01'".contains(**c)).collect::<String>());
        same!(n, "contains", s.contains("--"), (1..cs.len()).any(|i| cs[i] == '-' && cs[i - 1] == '-'));
        same!(n, "starts_with", (s.starts_with(char::is_lowercase), s.starts_with(char::is_uppercase)), (cs.first().map_or(false, |c| c.is_lowercase()), cs.first().map_or(false, |c| c.is_uppercase())));
        same!(n, "is_empty", s.is_empty(), cs.is_empty());
        let and = format!("&{s}");
        same!(n, "tail", and[1..].to_string(), s.clone());
        same!(n, "len", s.len(), cs.iter().map(|c| c.len_utf8()).sum::<usize>());
    }
    n += resolver(&mut r);
    println!("SHIM {n} comparisons agree");
}

/// The integer a text denotes: digits after a sign or none.
fn int_text(c: &[char]) -> Option<i128> {
    let d = |c: &[char]| if c.is_empty() || !c.iter().all(|x| ('0'..='9').contains(x)) { None } else { c.iter().try_fold(0i128, |a, x| a.checked_mul(10)?.checked_add(*x as i128 - '0' as i128)) };
    match c.first() { Some('-') => d(&c[1..]).map(|x| -x), Some('+') => d(&c[1..]), _ => d(c) }
}

/// Those of contracts/resolver/std.rs.
fn resolver(r: &mut Rng) -> u64 {
    use std::collections::{BTreeMap, HashMap};
    let mut n = 0u64;
    for _ in 0..30000 {
        let s: String = (0..r.below(6)).map(|_| r.of(&["0", "1", "9", "25", "6", "-", "+", " ", "a", "_", ".", "٣"])).collect();
        let c: Vec<char> = s.chars().collect();
        same!(n, "parse i128", s.parse::<i128>().ok(), int_text(&c));
        same!(n, "parse u8", s.parse::<u8>().ok(), int_text(&c).filter(|x| (0..256).contains(x) && c[0] != '-').map(|x| x as u8));
        same!(n, "to_string", s.as_str().to_string().chars().collect::<Vec<_>>(), c);
        let v: Vec<i128> = (0..r.below(5)).map(|_| r.below(9) as i128 - 4).collect();
        let mut w = v.clone();
        w.sort();
        same!(n, "min, max", (v.iter().min(), v.iter().max()), (w.first(), w.last()));
        let f = |x: &i128| 7 - 2 * x;
        let mut m: Vec<i128> = vec![];
        for x in &v { m.push(f(x)); }
        m.sort();
        same!(n, "map min, max", (v.iter().map(f).min(), v.iter().map(f).max()), (m.first().copied(), m.last().copied()));
        let x = r.below(9) as i128 - 4;
        let mut has = false;
        for y in &v { has |= *y == x; }
        same!(n, "contains", v.contains(&x), has);
        let mut e: Vec<(usize, &i128)> = vec![];
        for i in 0..v.len() { e.push((i, &v[i])); }
        same!(n, "enumerate", v.iter().enumerate().collect::<Vec<_>>(), e);
        let mut a = v.clone();
        a.extend(w.clone());
        same!(n, "extend", (a.len(), &a[..v.len()], &a[v.len()..]), (v.len() + w.len(), &v[..], &w[..]));
        let y = r.below(9) as i128 - 4;
        same!(n, "min, max of two", (std::cmp::min(x, y), std::cmp::max(x, y)), if x <= y { (x, y) } else { (y, x) });
        same!(n, "clone of a range", (x..y).clone(), x..y);
        let mut o = if r.one_in(2) { None } else { Some(x) };
        let b = o;
        same!(n, "replace", (o.replace(y), o), (b, Some(y)));
        same!(n, "trim", s.trim().to_string().trim().to_string(), s.trim().to_string());
        // what is left, and what of it has to come first
        let mut ts = topological_sort::TopologicalSort::<String>::new();
        let (mut left, mut before) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        for _ in 0..r.below(8) {
            let (p, x) = (format!("k{}", r.below(5)), format!("k{}", r.below(5)));
            if r.one_in(3) { ts.insert(&x); left.insert(x.clone()); } else { ts.add_dependency(p.clone(), x.clone()); left.insert(p.clone()); left.insert(x.clone()); before.insert((p, x)); }
        }
        for _ in 0..7 {
            let mut got = ts.pop_all();
            got.sort();
            let want: Vec<String> = left.iter().filter(|x| !before.iter().any(|(p, y)| y == *x && left.contains(p))).cloned().collect();
            left.retain(|x| !want.contains(x));
            same!(n, "pop_all", (got, ts.len()), (want, left.len()));
        }
        // maps: a list of pairs, the last one of a name counts
        let mut list: Vec<(String, i128)> = vec![];
        let (mut t, mut h, mut h2) = (BTreeMap::new(), HashMap::new(), HashMap::new());
        for i in 0..r.below(6) {
            let k = format!("k{}", r.below(4));
            t.insert(k.clone(), i as i128);
            h.insert(k.clone(), i as i128);
            list.push((k, i as i128));
        }
        for i in 0..r.below(3) { let k = format!("k{}", r.below(4)); h2.insert(k, 100 + i as i128); }
        for k in ["k0", "k1", "k2", "k3", "k4", ""] {
            let want = list.iter().rev().find(|x| x.0 == k).map(|x| &x.1);
            same!(n, "BTreeMap get", t.get(k), want);
            same!(n, "HashMap get", h.get(k), want);
        }
        for k in ["k0", "k4", ""] {
            let mut c = h.clone();
            let mut d = h.clone();
            let was = c.get(k).copied();
            let got = c.get_mut(k).map(|v| std::mem::replace(v, 77));
            if let Some(_) = was { d.insert(k.to_string(), 77); }
            same!(n, "HashMap get_mut", (got, c == d), (was, true));
        }
        let before = h.clone();
        h.extend(h2.clone());
        for k in ["k0", "k1", "k2", "k3", "k4"] { same!(n, "HashMap extend", h.get(k), h2.get(k).or(before.get(k))); }
        let mut keys: Vec<&String> = h.keys().collect();
        keys.sort();
        keys.dedup();
        let c = h.clone();
        let (mut each, mut again) = (vec![], vec![]);
        let e2: Vec<(&String, &i128)> = c.iter().collect();
        for (k, v) in &h { each.push((k, v)); }
        for (k, v) in &h { again.push((k, v)); }
        same!(n, "each key once", (each.len(), each.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len()), (keys.len(), keys.len()));
        same!(n, "each value", each.iter().all(|x| h.get(x.0) == Some(x.1)), true);
        same!(n, "one order and that of a clone", (&each, &each), (&again, &e2));
        same!(n, "values", h.values().collect::<Vec<_>>(), each.iter().map(|x| x.1).collect::<Vec<_>>());
        same!(n, "clone of a map", h, c);
        // maps from pairs
        let mut list: Vec<((String, String), i128)> = vec![];
        let (mut t, mut h, mut h2) = (BTreeMap::new(), HashMap::new(), HashMap::new());
        let key = |r: &mut Rng| (format!("k{}", r.below(2)), format!("k{}", r.below(2)));
        for i in 0..r.below(5) {
            let k = key(r);
            t.insert(k.clone(), i as i128);
            h.insert(k.clone(), i as i128);
            list.push((k, i as i128));
        }
        for i in 0..r.below(3) { h2.insert(key(r), 100 + i as i128); }
        let before = h.clone();
        let mut x = h.clone();
        x.extend(h2.clone());
        for a in ["k0", "k1", "k2"] {
            for b in ["k0", "k1", "k2"] {
                let k = (a.to_string(), b.to_string());
                let want = list.iter().rev().find(|x| x.0 == k).map(|x| &x.1);
                same!(n, "BTreeMap get of a pair", t.get(&k), want);
                same!(n, "HashMap get of a pair", h.get(&k), want);
                same!(n, "HashMap extend of pairs", x.get(&k), h2.get(&k).or(before.get(&k)));
            }
        }
        let mut each = vec![];
        for (k, v) in &h { each.push((k, v)); }
        same!(n, "each pair once", each.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len(), h.len());
        same!(n, "each value of a pair", each.len() == h.len() && each.iter().all(|x| h.get(x.0) == Some(x.1)), true);
        // sequences of sequences, texts
        let vv: Vec<Vec<i128>> = (0..r.below(4)).map(|_| (0..r.below(3)).map(|_| r.below(9) as i128).collect()).collect();
        let mut flat = vec![];
        for x in &vv { for y in x { flat.push(*y); } }
        same!(n, "flatten", vv.iter().map(|x| x.clone()).flatten().collect::<Vec<_>>(), flat);
        let mut o = String::new();
        o.push_str(&s);
        o.push_str("xy");
        same!(n, "format of two", format!("{}{}", s, "xy"), o);
        same!(n, "format of a text", format!("{}", s), s);
    }
    n
}
