//! What modules mean, written a second time: a reader for a part of the notation (tokens apart by blanks), the types and
//! values that resolving has to give, and a comparison with what the compiler says it has.
use crate::text::Rng;
use std::collections::{BTreeMap, BTreeSet};

// ---- the notation
#[derive(Clone, Debug)]
pub enum V { Num(i128), Name(String) }
#[derive(Clone, Debug)]
pub enum Elem { Val(V), Range(V, bool, V, bool), Size(Cons), From }
#[derive(Clone, Debug)]
pub struct Cons { root: Vec<Vec<Elem>>, ext: Option<Vec<Vec<Elem>>> }
type Items = Vec<(String, Option<V>)>;
#[derive(Clone, Debug)]
pub enum Ty {
    Int(Vec<Cons>), Enum(Items, Option<Items>), Bits(Vec<(String, V)>, Vec<Cons>), Octets(Vec<Cons>), Chars(String, Vec<Cons>), Bool, Null, Oid,
    Seq(Vec<(String, Ty, bool)>, bool), Choice(Vec<(String, Ty)>, Option<Vec<(String, Ty)>>), SeqOf(Option<Cons>, Box<Ty>), Ref(String), Param(String, Vec<String>),
    /// A field of a class: class, field, set of objects, whether it depends on a component.
    Field(String, String, String, bool),
}
#[derive(Clone, Debug)]
struct ClassField { id: String, fixed: Option<Ty>, unique: bool, optional: bool, word: String }
/// An object: its name or what its fields are.
#[derive(Clone, Debug)]
enum Ob { Named(String), Set(String), Given(Vec<String>) }
#[derive(Clone, Debug)]
/// Link: a value that is another one.
enum Def { Type(Ty), Value(i128), Link(String), Generic(Vec<String>, Ty), Other, Class(Vec<ClassField>), Object(String, Vec<String>), Set(String, Vec<Ob>) }

struct P<'a> { t: Vec<&'a str>, i: usize }
impl<'a> P<'a> {
    fn peek(&self) -> &'a str { self.t.get(self.i).copied().unwrap_or("") }
    fn at(&self, n: usize) -> &'a str { self.t.get(self.i + n).copied().unwrap_or("") }
    fn next(&mut self) -> &'a str { let s = self.peek(); self.i += 1; s }
    fn take(&mut self, s: &str) -> Option<()> { if self.peek() == s { self.i += 1; Some(()) } else { None } }
    fn lower(&mut self) -> Option<String> { name(self.peek(), false).then(|| self.next().to_string()) }
    fn upper(&mut self) -> Option<String> { name(self.peek(), true).then(|| self.next().to_string()) }
    fn value(&mut self) -> Option<V> {
        if let Ok(n) = self.peek().parse() { if self.peek().starts_with('+') { return None; } self.next(); return Some(V::Num(n)); }
        self.lower().map(V::Name)
    }
    fn elem(&mut self) -> Option<Elem> {
        match self.peek() {
            "SIZE" => { self.next(); Some(Elem::Size(self.cons()?)) }
            "FROM" => { self.next(); self.take("(")?; self.take("\"ab\"")?; self.take(")")?; Some(Elem::From) }
            _ => {
                let a = self.value()?;
                let lo = self.take("<").is_none();
                if self.take("..").is_none() { return if lo { Some(Elem::Val(a)) } else { None }; }
                let hi = self.take("<").is_none();
                Some(Elem::Range(a, lo, self.value()?, hi))
            }
        }
    }
    fn union(&mut self) -> Option<Vec<Vec<Elem>>> {
        let mut u = vec![];
        loop {
            let mut i = vec![self.elem()?];
            while self.take("^").is_some() { i.push(self.elem()?); }
            u.push(i);
            if self.take("|").is_none() { return Some(u); }
        }
    }
    fn cons(&mut self) -> Option<Cons> {
        self.take("(")?;
        let root = self.union()?;
        let mut ext = None;
        if self.take(",").is_some() {
            self.take("...")?;
            ext = Some(if self.take(",").is_some() { self.union()? } else { vec![] });
        }
        self.take(")")?;
        Some(Cons { root, ext })
    }
    fn all_cons(&mut self) -> Option<Vec<Cons>> { let mut v = vec![]; while self.peek() == "(" { v.push(self.cons()?); } Some(v) }
    fn items(&mut self) -> Option<Items> {
        let mut v = vec![];
        loop {
            let n = self.lower()?;
            let x = if self.take("(").is_some() { let x = self.value()?; self.take(")")?; Some(x) } else { None };
            v.push((n, x));
            if self.peek() == "," && self.at(1) != "..." { self.next(); } else { return Some(v); }
        }
    }
    fn ty(&mut self) -> Option<Ty> {
        match self.next() {
            "BOOLEAN" => Some(Ty::Bool),
            "NULL" => Some(Ty::Null),
            "OBJECT" => { self.take("IDENTIFIER")?; Some(Ty::Oid) }
            "INTEGER" => Some(Ty::Int(self.all_cons()?)),
            "OCTET" => { self.take("STRING")?; Some(Ty::Octets(self.all_cons()?)) }
            s @ ("IA5String" | "UTF8String" | "PrintableString" | "VisibleString") => Some(Ty::Chars(s.into(), self.all_cons()?)),
            "BIT" => {
                self.take("STRING")?;
                let mut named = vec![];
                if self.take("{").is_some() {
                    loop {
                        let n = self.lower()?;
                        self.take("(")?;
                        named.push((n, self.value()?));
                        self.take(")")?;
                        if self.take(",").is_none() { break; }
                    }
                    self.take("}")?;
                }
                Some(Ty::Bits(named, self.all_cons()?))
            }
            "ENUMERATED" => {
                self.take("{")?;
                let root = self.items()?;
                let mut ext = None;
                if self.take(",").is_some() { self.take("...")?; ext = Some(if self.take(",").is_some() { self.items()? } else { vec![] }); }
                self.take("}")?;
                Some(Ty::Enum(root, ext))
            }
            "SEQUENCE" if self.peek() == "{" => {
                self.next();
                let (mut c, mut ext) = (vec![], false);
                if self.take("}").is_some() { return Some(Ty::Seq(c, ext)); }
                loop {
                    if self.take("...").is_some() { ext = true; break; }
                    let n = self.lower()?;
                    let t = self.ty()?;
                    let o = if self.take("OPTIONAL").is_some() { true } else if self.take("DEFAULT").is_some() { self.value()?; true } else { false };
                    c.push((n, t, o));
                    if self.take(",").is_none() { break; }
                }
                self.take("}")?;
                Some(Ty::Seq(c, ext))
            }
            "SEQUENCE" => {
                let size = match self.peek() { "(" => Some(self.cons()?), "SIZE" => { let e = self.elem()?; Some(Cons { root: vec![vec![e]], ext: None }) }, _ => None };
                self.take("OF")?;
                Some(Ty::SeqOf(size, Box::new(self.ty()?)))
            }
            "CHOICE" => {
                self.take("{")?;
                let (mut root, mut adds, mut grouped, mut single) = (vec![], None, false, false);
                loop {
                    if self.take("...").is_some() { if adds.is_some() { return None; } adds = Some(vec![]); }
                    else if self.take("[[").is_some() {
                        let a: &mut Vec<_> = adds.as_mut()?;
                        grouped = true;
                        loop { let n = self.lower()?; a.push((n, self.ty()?)); if self.take(",").is_none() { break; } }
                        self.take("]]")?;
                    } else {
                        let n = self.lower()?;
                        let t = self.ty()?;
                        match adds { None => root.push((n, t)), Some(ref mut a) => { single = true; a.push((n, t)); } }
                    }
                    if self.take(",").is_none() { break; }
                }
                self.take("}")?;
                if grouped && single { return None; }
                Some(Ty::Choice(root, adds))
            }
            s if name(s, true) || class(s) => {
                if self.take(".").is_some() {
                    let f = self.next();
                    if !f.starts_with('&') { return None; }
                    for x in ["(", "{"] { self.take(x)?; }
                    let set = self.upper()?;
                    self.take("}")?;
                    let mut dep = false;
                    if self.take("{").is_some() { if !self.next().starts_with('@') { return None; } self.take("}")?; dep = true; }
                    self.take(")")?;
                    return Some(Ty::Field(s.into(), f.into(), set, dep));
                }
                if class(s) { return None; }
                if self.take("{").is_some() {
                    let mut a = vec![];
                    loop {
                        let set = self.take("{").is_some();
                        a.push(self.upper()?);
                        if set { self.take("}")?; }
                        if self.take(",").is_none() { break; }
                    }
                    self.take("}")?;
                    return Some(Ty::Param(s.into(), a));
                }
                Some(Ty::Ref(s.into()))
            }
            _ => None,
        }
    }
    fn class(&mut self) -> Option<Vec<ClassField>> {
        self.take("{")?;
        let mut v: Vec<ClassField> = vec![];
        loop {
            let id = self.next();
            let up = id.strip_prefix('&')?.starts_with(|c: char| c.is_ascii_uppercase());
            let fixed = if up { None } else { Some(self.ty()?) };
            let unique = fixed.is_some() && self.take("UNIQUE").is_some();
            let optional = self.take("OPTIONAL").is_some();
            if v.iter().any(|x| x.id == id) { return None; }
            v.push(ClassField { id: id.into(), fixed, unique, optional, word: String::new() });
            if self.take(",").is_none() { break; }
        }
        self.take("}")?;
        for x in ["WITH", "SYNTAX", "{"] { self.take(x)?; }
        while self.take("}").is_none() {
            let opt = self.take("[").is_some();
            let (w, id) = (self.next(), self.next());
            if opt { self.take("]")?; }
            if !class(w) { return None; }
            let f = v.iter_mut().find(|x| x.id == id)?;
            if !f.word.is_empty() || f.optional != opt { return None; }
            f.word = w.into();
        }
        let words: BTreeSet<&String> = v.iter().map(|x| &x.word).collect();
        if words.len() < v.len() || words.iter().any(|w| w.is_empty()) { return None; }
        Some(v)
    }
    /// `{ .. }`: what is in between.
    fn braces(&mut self) -> Option<Vec<String>> {
        self.take("{")?;
        let (a, mut d) = (self.i, 1);
        while d > 0 { match self.t.get(self.i).copied()? { "{" => d += 1, "}" => d -= 1, _ => {} } self.i += 1; }
        Some(self.t[a..self.i - 1].iter().map(|x| x.to_string()).collect())
    }
    fn set(&mut self) -> Option<Vec<Ob>> {
        self.take("{")?;
        let (mut v, mut ext) = (vec![], false);
        loop {
            if self.take("...").is_some() {
                if ext { return None; }
                ext = true;
                if self.take(",").is_some() { continue; }
                break;
            }
            v.push(if self.peek() == "{" { Ob::Given(self.braces()?) } else if let Some(n) = self.lower() { Ob::Named(n) } else { Ob::Set(self.upper()?) });
            if self.take("|").is_some() { continue; }
            if self.take(",").is_some() { if ext || self.peek() != "..." { return None; } continue; }
            break;
        }
        self.take("}")?;
        Some(v)
    }
}
/// A name of capitals only: a class, a word of its syntax.
fn class(s: &str) -> bool { s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase()) && !RESERVED.contains(&s) }
const RESERVED: &[&str] = &["INTEGER", "BOOLEAN", "NULL", "OCTET", "BIT", "STRING", "SEQUENCE", "CHOICE", "ENUMERATED", "OF", "OBJECT", "IDENTIFIER", "SIZE", "FROM", "CLASS", "UNIQUE", "WITH", "SYNTAX", "TRUE", "FALSE", "OPTIONAL", "DEFAULT",
    "END", "BEGIN", "DEFINITIONS", "AUTOMATIC", "TAGS", "MIN", "MAX", "SET", "REAL", "ANY", "IA5String", "UTF8String", "PrintableString", "VisibleString"];
fn name(s: &str, upper: bool) -> bool {
    s.starts_with(|c: char| if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() }) && s.chars().all(|c| c.is_ascii_alphanumeric()) && !RESERVED.contains(&s)
        && (!upper || s.chars().any(|c| c.is_ascii_lowercase() || c.is_ascii_digit()))
}
fn module(s: &str) -> Option<BTreeMap<String, Def>> {
    let mut p = P { t: s.split_whitespace().collect(), i: 0 };
    for x in ["M", "DEFINITIONS", "AUTOMATIC", "TAGS", "::=", "BEGIN"] { p.take(x)?; }
    let (mut m, mut typed) = (BTreeMap::new(), vec![]);
    while p.take("END").is_none() {
        let (n, d) = if let Some(n) = p.lower() {
            if let Some(t) = p.upper() {
                p.take("::=")?;
                let v = p.value()?;
                typed.push((n.clone(), t, match &v { V::Num(_) => None, V::Name(s) => Some(s.clone()) }));
                (n, match v { V::Num(v) => Def::Value(v), V::Name(_) => Def::Other })
            } else if class(p.peek()) {
                let c = p.next().to_string();
                p.take("::=")?;
                (n, Def::Object(c, p.braces()?))
            } else {
                p.take("INTEGER")?;
                p.take("::=")?;
                (n, match p.value()? { V::Num(v) => Def::Value(v), V::Name(s) => Def::Link(s) })
            }
        } else if class(p.peek()) {
            let n = p.next().to_string();
            for x in ["::=", "CLASS"] { p.take(x)?; }
            (n, Def::Class(p.class()?))
        } else if class(p.at(1)) {
            let n = p.upper()?;
            let c = p.next().to_string();
            p.take("::=")?;
            (n, Def::Set(c, p.set()?))
        } else {
            let n = p.upper()?;
            let mut params = vec![];
            if p.take("{").is_some() { loop { if class(p.peek()) { p.next(); p.take(":")?; } params.push(p.upper()?); if p.take(",").is_none() { break; } } p.take("}")?; }
            p.take("::=")?;
            let t = p.ty()?;
            (n, if params.is_empty() { Def::Type(t) } else { Def::Generic(params, t) })
        };
        if m.insert(n, d).is_some() { return None; }
    }
    if p.i != p.t.len() { return None; }
    for (n, t, named) in typed {
        match (m.get(&t), named) {
            (Some(Def::Type(Ty::Int(c))), None) if integers(c, &m).is_ok() => {}
            (Some(Def::Type(Ty::Int(_))), Some(s)) => { m.insert(n, Def::Link(s)); }
            (Some(Def::Type(Ty::Enum(i, _))), Some(_)) if i.iter().all(|x| x.1.is_none()) => {}
            _ => return None,
        }
    }
    if m.values().any(|d| matches!(d, Def::Link(s) if !matches!(m.get(s), Some(Def::Value(_) | Def::Link(_))))) { return None; }
    Some(m)
}

// ---- meaning
/// Disjoint intervals, in order.
type Set = Vec<(i128, i128)>;
fn norm(mut s: Set) -> Set {
    s.retain(|x| x.0 <= x.1);
    s.sort();
    let mut r: Set = vec![];
    for x in s { match r.last_mut() { Some(l) if x.0 <= l.1.saturating_add(1) => l.1 = l.1.max(x.1), _ => r.push(x) } }
    r
}
fn both(a: &Set, b: &Set) -> Set { norm(a.iter().flat_map(|x| b.iter().map(move |y| (x.0.max(y.0), x.1.min(y.1)))).collect()) }
fn join(a: &Set, b: &Set) -> Set { norm(a.iter().chain(b.iter()).cloned().collect()) }

/// Refused: no meaning at all; Open: nothing is said about it.
#[derive(Clone, Debug, PartialEq)]
pub enum No { Refused, Open }
type R<T> = Result<T, No>;
type Env = BTreeMap<String, Def>;
/// The number a name stands for, through at most so many names.
fn number(s: &str, e: &Env, n: usize) -> R<i128> {
    match e.get(s) {
        _ if n == 0 => Err(No::Open),
        Some(Def::Value(v)) => Ok(*v),
        Some(Def::Link(t)) => number(t, e, n - 1),
        _ => Err(No::Refused),
    }
}
fn value(v: &V, e: &Env) -> R<i128> {
    match v { V::Num(n) => Ok(*n), V::Name(s) => number(s, e, 64) }
}
/// Refused wins over Open.
fn worst(a: No, b: No) -> No { if a == No::Refused || b == No::Refused { No::Refused } else { No::Open } }
fn all<T>(v: Vec<R<T>>) -> R<Vec<T>> {
    let mut out = vec![];
    let mut bad = None;
    for x in v { match x { Ok(t) => out.push(t), Err(n) => bad = Some(match bad { None => n, Some(m) => worst(m, n) }) } }
    match bad { None => Ok(out), Some(n) => Err(n) }
}
fn elem(x: &Elem, e: &Env) -> R<Set> {
    match x {
        Elem::Val(v) => value(v, e).map(|n| vec![(n, n)]),
        Elem::Range(a, al, b, bl) => {
            let (a, b) = (value(a, e)?, value(b, e)?);
            if a == i128::MAX || b == i128::MAX { return Err(No::Open); }
            let (a, b) = (if *al { a } else { a + 1 }, if *bl { b } else { if b == i128::MIN { return Err(No::Open); } b - 1 });
            if a > b { Err(No::Open) } else { Ok(vec![(a, b)]) }
        }
        _ => Err(No::Open),
    }
}
fn inter(i: &[Elem], e: &Env) -> R<Set> {
    let v = all(i.iter().map(|x| elem(x, e)).collect())?;
    Ok(v[1..].iter().fold(v[0].clone(), |a, b| both(&a, b)))
}
fn union(u: &[Vec<Elem>], e: &Env) -> R<Set> { Ok(all(u.iter().map(|i| inter(i, e)).collect())?.iter().fold(vec![], |a, b| join(&a, b))) }
fn cons(c: &Cons, e: &Env) -> R<(Set, Option<Set>)> {
    let (r, x) = (union(&c.root, e), c.ext.as_ref().map(|u| union(u, e)));
    match (r, x) { (Ok(r), None) => Ok((r, None)), (Ok(r), Some(Ok(x))) => Ok((r, Some(x))), (Err(a), Some(Err(b))) => Err(worst(a, b)), (Err(a), _) => Err(a), (_, Some(Err(a))) => Err(a) }
}
pub type Vals = Option<(Set, Option<Set>)>;
/// The values of an INTEGER.
fn integers(c: &[Cons], e: &Env) -> R<Vals> {
    let v = all(c.iter().map(|x| cons(x, e)).collect())?;
    let Some(last) = v.last() else { return Ok(None) };
    let before = v[..v.len() - 1].iter().fold(vec![(i128::MIN, i128::MAX)], |a, b| both(&a, &b.0));
    let (root, ext) = (both(&before, &last.0), last.1.as_ref().map(|x| both(&before, x)));
    if root.is_empty() { return Err(No::Open); }
    Ok(Some((root, ext)))
}
fn has_size(c: &Cons) -> bool { c.root.iter().any(|i| i.iter().any(|x| matches!(x, Elem::Size(_)))) }
/// The sizes of one constraint, and whether it has an extension marker.
fn size(c: &Cons, e: &Env) -> R<(Set, bool)> {
    let mut open = false;
    let (mut root, mut mark) = (vec![], c.ext.is_some());
    for i in &c.root {
        let mut here: Option<Set> = None;
        for x in i {
            match x {
                Elem::Size(s) => { let (r, x) = cons(s, e)?; mark |= x.is_some(); here = Some(match here { None => r, Some(h) => both(&h, &r) }); }
                Elem::From => {}
                _ => open = true,
            }
        }
        match here { Some(h) => root = join(&root, &h), None => open = true }
    }
    if open { return Err(No::Open); }
    if root.is_empty() || root[0].0 < 0 { return Err(No::Open); }
    Ok((root, mark))
}
pub type Sizes = Option<(Set, bool)>;
fn sizes(c: &[Cons], e: &Env) -> R<Sizes> {
    let v = all(c.iter().filter(|x| has_size(x)).map(|x| size(x, e)).collect())?;
    let Some(last) = v.last() else { return Ok(None) };
    let root = v.iter().fold(vec![(i128::MIN, i128::MAX)], |a, b| both(&a, &b.0));
    if root.is_empty() { return Err(No::Open); }
    Ok(Some((root, last.1)))
}
/// The numbers of items.
fn numbers(items: &Items, e: &Env) -> R<Vec<i128>> {
    let given = all(items.iter().filter_map(|x| x.1.as_ref()).map(|v| value(v, e)).collect())?;
    if given.iter().collect::<BTreeSet<_>>().len() < given.len() { return Err(No::Refused); }
    let (mut r, mut next, mut k) = (vec![], 0, 0);
    for x in items {
        if x.1.is_some() { r.push(given[k]); k += 1; } else { while given.contains(&next) { next += 1; } r.push(next); next += 1; }
    }
    Ok(r)
}
#[derive(Clone, Debug)]
enum Want {
    Int(Vals), Enum(Vec<(String, i128)>, bool, Vec<(String, i128)>), Bits(Vec<(String, i128)>, Sizes), Octets(Sizes), Chars(String, Sizes), Bool, Null, Oid,
    Seq(Vec<(String, Want, bool)>, bool), Choice(Vec<(String, Want)>, Option<Vec<(String, Want)>>), SeqOf(Sizes, Box<Want>), Ref(String),
    /// Components that depend on a set of objects: a type and whether it is the key, or the types by name and value.
    Table(Vec<(String, Dep)>, bool),
}
#[derive(Clone, Debug)]
enum Dep { Fixed(Want, bool), Types(String, Vec<((String, String), String)>) }
#[derive(Clone, Debug)]
enum WVal { Named(String), Int(i128), Item, Through(String, Box<WVal>) }
#[derive(Clone, Debug)]
enum WField { Type(Want), Fixed(Want, WVal) }
type WObject = BTreeMap<String, WField>;
type Table = BTreeMap<(String, String), WObject>;
fn wvalue(s: &str, t: &Want, e: &Env, depth: usize) -> R<WVal> {
    match e.get(s) {
        Some(Def::Value(_) | Def::Link(_) | Def::Other) => return Ok(WVal::Named(s.into())),
        Some(_) => return Err(No::Refused),
        None => {}
    }
    match t {
        Want::Int(_) => s.parse().map(WVal::Int).map_err(|_| No::Refused),
        Want::Enum(..) => Ok(WVal::Item),
        Want::Ref(r) => {
            let Some(Def::Type(t)) = e.get(r) else { return Err(No::Open) };
            if depth == 0 { return Err(No::Open); }
            Ok(WVal::Through(r.clone(), Box::new(wvalue(s, &want(t, e, 0)?, e, depth - 1)?)))
        }
        _ => Err(No::Open),
    }
}
fn wobject(c: &str, body: &[String], e: &Env) -> R<WObject> {
    let Some(Def::Class(f)) = e.get(c) else { return Err(No::Open) };
    let mut p = P { t: body.iter().map(|x| x.as_str()).collect(), i: 0 };
    let mut o = BTreeMap::new();
    let mut bad = vec![];
    while p.i < p.t.len() {
        let w = p.next();
        let Some(f) = f.iter().find(|x| x.word == w) else { return Err(No::Open) };
        let x = match &f.fixed {
            None => p.ty().ok_or(No::Open).and_then(|t| want(&t, e, 0)).map(WField::Type),
            Some(t) => { let v = p.next(); want(t, e, 0).and_then(|t| wvalue(v, &t, e, 20).map(|v| WField::Fixed(t, v))) }
        };
        match x { Ok(x) => if o.insert(f.id.clone(), x).is_some() { return Err(No::Open) }, Err(n) => bad.push(n) }
    }
    if let Some(n) = bad.into_iter().reduce(worst) { return Err(n); }
    if f.iter().any(|x| !x.optional && !o.contains_key(&x.id)) { return Err(No::Open); }
    Ok(o)
}
/// The objects of a set (with their names, if they have one), and those whose unique field is a named value.
fn wset(c: &str, v: &[Ob], e: &Env, depth: usize) -> R<(Vec<(Option<String>, WObject)>, Table)> {
    if depth == 0 { return Err(No::Open); }
    let Some(Def::Class(f)) = e.get(c) else { return Err(No::Refused) };
    let unique: Vec<&String> = f.iter().filter(|x| x.unique).map(|x| &x.id).collect();
    if unique.len() > 1 { return Err(No::Open); }
    let (mut all, mut table) = (vec![], Table::new());
    let mut bad = vec![];
    let mut add = |k: (String, String), o: WObject, bad: &mut Vec<No>| { if let Some(x) = table.insert(k, o.clone()) { if format!("{x:?}") != format!("{o:?}") { bad.push(No::Open); } } };
    for o in v {
        let (n, o) = match o {
            Ob::Set(s) => match e.get(s) {
                Some(Def::Set(d, v)) => {
                    if d != c { return Err(No::Open); }
                    match wset(d, v, e, depth - 1) { Ok((o, t)) => { all.extend(o); for (k, o) in t { add(k, o, &mut bad); } } Err(n) => bad.push(n) }
                    continue;
                }
                _ => { bad.push(No::Refused); continue }
            },
            Ob::Named(s) => match e.get(s) {
                Some(Def::Object(d, b)) => { if d != c { return Err(No::Open); } (Some(s.clone()), wobject(d, b, e)) }
                _ => { bad.push(No::Refused); continue }
            },
            Ob::Given(b) => (None, wobject(c, b, e)),
        };
        let o = match o { Ok(o) => o, Err(n) => { bad.push(n); continue } };
        if let Some(u) = unique.first() {
            match o.get(*u) {
                Some(WField::Fixed(_, WVal::Named(s))) => match number(s, e, 64) { Ok(v) => add((v.to_string(), s.clone()), o.clone(), &mut bad), Err(x) => bad.push(x) },
                Some(_) => {}
                None => bad.push(No::Refused),
            }
        }
        all.push((n, o));
    }
    match bad.into_iter().reduce(worst) { Some(n) => Err(n), None => Ok((all, table)) }
}
/// A SEQUENCE with components that are fields of a class.
fn wtable(c: &[(String, Ty, bool)], x: bool, e: &Env, depth: usize) -> R<Want> {
    let mut set: Option<(&String, &String)> = None;
    for (_, t, o) in c {
        match t {
            Ty::Field(k, _, s, _) => { if *o || set.map_or(false, |x| x != (k, s)) { return Err(No::Open); } set = Some((k, s)); }
            _ => { want(t, e, depth)?; return Err(No::Refused); }
        }
    }
    let (k, s) = set.ok_or(No::Open)?;
    let Some(Def::Set(d, v)) = e.get(s) else { return Err(No::Refused) };
    if d != k { return Err(No::Open); }
    let (objects, table) = wset(d, v, e, 20)?;
    let Some(Def::Class(f)) = e.get(k) else { return Err(No::Refused) };
    if objects.is_empty() { return Ok(Want::Table(vec![], x)); }
    let mut r = vec![];
    for (n, t, _) in c {
        let Ty::Field(_, id, _, dep) = t else { return Err(No::Open) };
        let Some(f) = f.iter().find(|x| &x.id == id) else { return Err(No::Open) };
        let has = objects.iter().filter(|x| x.1.contains_key(id)).count();
        r.push((n.clone(), match &f.fixed {
            Some(t) if has == objects.len() => Dep::Fixed(want(t, e, 0)?, !dep),
            Some(_) if has > 0 => return Err(No::Open),
            _ => Dep::Types(s.clone(), table.iter().filter_map(|(k, o)| match o.get(id) { Some(WField::Type(Want::Ref(t))) => Some(((k.1.clone(), k.0.clone()), t.clone())), _ => None }).collect()),
        }));
    }
    Ok(Want::Table(r, x))
}
fn fits64(v: &Vals) -> bool {
    let Some((r, x)) = v else { return true };
    let s = match x { Some(x) => join(r, x), None => r.clone() };
    let (lo, hi) = (s[0].0, s[s.len() - 1].1);
    if lo < 0 { lo >= i64::MIN as i128 && hi <= i64::MAX as i128 } else { hi <= u64::MAX as i128 }
}
fn subst(t: &Ty, m: &BTreeMap<&str, &str>) -> Ty {
    let n = |s: &String| m.get(s.as_str()).map(|x| x.to_string()).unwrap_or(s.clone());
    let c = |v: &Vec<(String, Ty)>| v.iter().map(|(a, b)| (a.clone(), subst(b, m))).collect::<Vec<_>>();
    match t {
        Ty::Ref(s) => Ty::Ref(n(s)),
        Ty::Param(s, a) => Ty::Param(s.clone(), a.iter().map(n).collect()),
        Ty::Seq(v, x) => Ty::Seq(v.iter().map(|(a, b, o)| (a.clone(), subst(b, m), *o)).collect(), *x),
        Ty::Choice(r, a) => Ty::Choice(c(r), a.as_ref().map(c)),
        Ty::SeqOf(s, t) => Ty::SeqOf(s.clone(), Box::new(subst(t, m))),
        Ty::Field(a, b, s, d) => Ty::Field(a.clone(), b.clone(), n(s), *d),
        x => x.clone(),
    }
}
fn named(v: &[(String, Ty)], e: &Env, depth: usize) -> R<Vec<(String, Want)>> { all(v.iter().map(|(n, t)| want(t, e, depth).map(|w| (n.clone(), w))).collect()) }
fn want(t: &Ty, e: &Env, depth: usize) -> R<Want> {
    Ok(match t {
        Ty::Int(c) => { let v = integers(c, e)?; if !fits64(&v) { return Err(No::Refused); } Want::Int(v) }
        Ty::Enum(r, x) => {
            // numbers of additions are not used
            let nx = numbers(x.as_ref().unwrap_or(&vec![]), e).map_err(|_| No::Open);
            let (nr, nx) = match (numbers(r, e), nx) { (Ok(a), Ok(b)) => (a, b), (Err(a), Err(b)) => return Err(worst(a, b)), (Err(a), _) | (_, Err(a)) => return Err(a) };
            let _ = nx;
            Want::Enum(r.iter().zip(&nr).map(|(i, n)| (i.0.clone(), nr.iter().filter(|m| *m < n).count() as i128)).collect(), x.is_some(),
                x.iter().flatten().enumerate().map(|(k, i)| (i.0.clone(), k as i128)).collect())
        }
        Ty::Bits(n, c) => {
            let s = sizes(c, e)?;
            let mut v = vec![];
            let mut seen = BTreeSet::new();
            for (a, b) in n {
                let V::Num(b) = b else { return Err(No::Open) };
                if !(0..256).contains(b) || !seen.insert(a) { return Err(No::Open); }
                v.push((a.clone(), *b));
            }
            v.sort();
            Want::Bits(v, s)
        }
        Ty::Octets(c) => Want::Octets(sizes(c, e)?),
        Ty::Chars(n, c) => { let s = sizes(c, e)?; if !c.is_empty() && !has_size(&c[0]) { return Err(No::Open); } Want::Chars(n.clone(), s) }
        Ty::Bool => Want::Bool, Ty::Null => Want::Null, Ty::Oid => Want::Oid,
        Ty::Field(..) => return Err(No::Open),
        Ty::Seq(c, x) if c.iter().any(|c| matches!(c.1, Ty::Field(..))) => wtable(c, *x, e, depth)?,
        Ty::Seq(c, x) => Want::Seq(all(c.iter().map(|(n, t, o)| want(t, e, depth).map(|w| (n.clone(), w, *o))).collect())?, *x),
        Ty::Choice(r, a) => {
            let (r, a) = (named(r, e, depth), a.as_ref().map(|a| named(a, e, depth)).transpose());
            match (r, a) { (Ok(r), Ok(a)) => Want::Choice(r, a), (Err(a), Err(b)) => return Err(worst(a, b)), (Err(a), _) | (_, Err(a)) => return Err(a) }
        }
        Ty::SeqOf(s, t) => {
            let t = want(t, e, depth)?;
            Want::SeqOf(match s { Some(c) => { if !has_size(c) { return Err(No::Open); } Some(size(c, e)?) } None => None }, Box::new(t))
        }
        Ty::Ref(s) => match e.get(s) { Some(Def::Type(_)) => Want::Ref(s.clone()), _ => return Err(No::Refused) },
        Ty::Param(s, a) => {
            let Some(Def::Generic(p, t)) = e.get(s) else { return Err(No::Refused) };
            if p.len() != a.len() || depth >= 64 { return Err(No::Open); }
            // parameters with the names of other definitions or parameters are left out
            if p.iter().any(|x| e.contains_key(x) || a.contains(x)) || p.iter().collect::<BTreeSet<_>>().len() < p.len() { return Err(No::Open); }
            let m: BTreeMap<&str, &str> = p.iter().map(|x| x.as_str()).zip(a.iter().map(|x| x.as_str())).collect();
            want(&subst(t, &m), e, depth + 1)?
        }
    })
}
fn names(t: &Ty, out: &mut BTreeSet<String>) {
    match t {
        Ty::Ref(s) => { out.insert(s.clone()); }
        Ty::Param(s, a) => { out.insert(s.clone()); out.extend(a.iter().cloned()); }
        Ty::Seq(v, _) => v.iter().for_each(|x| names(&x.1, out)),
        Ty::Choice(r, a) => { r.iter().for_each(|x| names(&x.1, out)); a.iter().flatten().for_each(|x| names(&x.1, out)); }
        Ty::SeqOf(_, t) => names(t, out),
        Ty::Field(_, _, s, _) => { out.insert(s.clone()); }
        _ => {}
    }
}
fn cyclic(e: &Env) -> bool {
    let mut done: BTreeSet<String> = BTreeSet::new();
    for _ in 0..=e.len() {
        let n = done.len();
        for (k, d) in e {
            let mut s = BTreeSet::new();
            match d { Def::Type(t) | Def::Generic(_, t) => names(t, &mut s),
                Def::Class(f) => f.iter().filter_map(|x| x.fixed.as_ref()).for_each(|t| names(t, &mut s)),
                Def::Object(c, b) => { s.insert(c.clone()); s.extend(b.iter().cloned()); }
                Def::Set(c, v) => { s.insert(c.clone()); for o in v { match o { Ob::Named(x) | Ob::Set(x) => { s.insert(x.clone()); } Ob::Given(b) => s.extend(b.iter().cloned()) } } }
                Def::Link(t) => { s.insert(t.clone()); }
                Def::Value(_) | Def::Other => {}
            }
            if s.iter().all(|x| !e.contains_key(x) || done.contains(x)) { done.insert(k.clone()); }
        }
        if done.len() == n { break; }
    }
    done.len() < e.len()
}

// ---- what the compiler says it has (its Debug text)
#[derive(Clone, Debug)]
enum N { Atom(String), Str(String), Tuple(String, Vec<N>), Rec(String, Vec<(String, N)>), List(Vec<N>), Map(Vec<(N, Option<N>)>) }
struct D<'a> { s: &'a [u8], i: usize }
impl<'a> D<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.s.get(self.i) == Some(&c) { self.i += 1; true } else { false } }
    fn many<T>(&mut self, end: u8, f: impl Fn(&mut Self) -> Option<T>) -> Option<Vec<T>> {
        let mut v = vec![];
        loop {
            if self.eat(end) { return Some(v); }
            v.push(f(self)?);
            if !self.eat(b',') { return if self.eat(end) { Some(v) } else { None }; }
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-.+".contains(&self.s[self.i])) { self.i += 1; }
        String::from_utf8_lossy(&self.s[a..self.i]).to_string()
    }
    fn node(&mut self) -> Option<N> {
        self.ws();
        match self.s.get(self.i)? {
            b'"' => {
                self.i += 1;
                let a = self.i;
                while *self.s.get(self.i)? != b'"' { self.i += if self.s[self.i] == b'\\' { 2 } else { 1 }; }
                self.i += 1;
                Some(N::Str(String::from_utf8_lossy(&self.s[a..self.i - 1]).to_string()))
            }
            b'[' => { self.i += 1; self.many(b']', |d| d.node()).map(N::List) }
            b'(' => { self.i += 1; self.many(b')', |d| d.node()).map(|v| N::Tuple(String::new(), v)) }
            b'{' => { self.i += 1; self.many(b'}', |d| { let k = d.node()?; if d.eat(b':') { Some((k, Some(d.node()?))) } else { Some((k, None)) } }).map(N::Map) }
            _ => {
                let w = self.word();
                if w.is_empty() { return None; }
                if self.s.get(self.i) == Some(&b'(') { self.i += 1; return self.many(b')', |d| d.node()).map(|v| N::Tuple(w, v)); }
                if self.s.get(self.i) == Some(&b' ') && self.s.get(self.i + 1) == Some(&b'{') {
                    self.i += 2;
                    return self.many(b'}', |d| { let k = d.word(); if d.eat(b':') { Some((k, d.node()?)) } else { None } }).map(|v| N::Rec(w, v));
                }
                Some(N::Atom(w))
            }
        }
    }
}
impl N {
    fn field(&self, f: &str) -> Option<&N> { if let N::Rec(_, v) = self { v.iter().find(|x| x.0 == f).map(|x| &x.1) } else { None } }
    fn one(&self, n: &str) -> Option<&N> { if let N::Tuple(m, v) = self { if m == n && v.len() == 1 { return Some(&v[0]); } } None }
    fn kind(&self) -> Option<&str> { match self { N::Tuple(n, _) | N::Rec(n, _) | N::Atom(n) => Some(n), _ => None } }
    fn list(&self) -> Option<&Vec<N>> { if let N::List(v) = self { Some(v) } else { None } }
    fn atom(&self) -> Option<&str> { if let N::Atom(s) = self { Some(s) } else { None } }
    fn int(&self) -> Option<i128> { self.atom()?.parse().ok() }
    fn bool(&self) -> Option<bool> { self.atom()?.parse().ok() }
    fn str(&self) -> Option<&str> { if let N::Str(s) = self { Some(s) } else { None } }
    fn opt(&self) -> Option<Option<&N>> { if self.atom() == Some("None") { Some(None) } else { self.one("Some").map(Some) } }
    fn set(&self) -> Option<Set> {
        let mut s = vec![];
        for r in self.field("ranges")?.list()? { let (a, b) = r.atom()?.split_once("..")?; s.push((a.parse().ok()?, b.parse::<i128>().ok()? - 1)); }
        for v in self.field("values")?.list()? { let n = v.int()?; s.push((n, n)); }
        Some(norm(s))
    }
    fn vals(&self) -> Option<Vals> {
        Some(match self.opt()? {
            None => None,
            Some(n) => Some((n.field("root_values")?.set()?, match n.field("additional_values")?.opt()? { None => None, Some(x) => Some(x.set()?) })),
        })
    }
    fn pairs(&self) -> Option<Vec<(String, i128)>> {
        self.list()?.iter().map(|p| if let N::Tuple(_, v) = p { Some((v.first()?.str()?.to_string(), v.get(1)?.int()?)) } else { None }).collect()
    }
}
/// Which property breaks, and how. None in the place of the comparison: the text could not be read.
type Bad = (&'static str, String);
fn kind_names(n: &N) -> Option<String> {
    Some(match n.kind()? {
        k @ ("Base" | "Constructed") => format!("{k}({})", match n { N::Tuple(_, v) => v.first()?.kind()?.to_string(), _ => return None }),
        k => k.to_string(),
    })
}
const KINDS: &[&str] = &["Base(Integer)", "Base(Enum)", "Base(BitString)", "Base(Boolean)", "Base(OctetString)", "Base(CharacterString)", "Base(ObjectIdentifier)", "Base(Null)",
    "Constructed(Choice)", "Constructed(Sequence)", "Constructed(SequenceOf)", "Reference"];
fn same_sizes(at: &str, w: &Sizes, n: &N) -> Option<Result<(), Bad>> {
    let g = n.vals()?;
    let got: Sizes = g.map(|(r, x)| (r, x.is_some()));
    Some(if &got == w { Ok(()) } else { Err(("R01+R03", format!("{at} has the sizes (extensible) {got:?} instead of {w:?}"))) })
}
fn compare(at: &str, w: &Want, n: &N) -> Option<Result<(), Bad>> {
    let k = kind_names(n)?;
    let should = match w {
        Want::Int(_) => "Base(Integer)", Want::Enum(..) => "Base(Enum)", Want::Bits(..) => "Base(BitString)", Want::Octets(_) => "Base(OctetString)", Want::Chars(..) => "Base(CharacterString)",
        Want::Bool => "Base(Boolean)", Want::Null => "Base(Null)", Want::Oid => "Base(ObjectIdentifier)", Want::Seq(..) => "Constructed(Sequence)", Want::Table(..) => "Constructed(Sequence)", Want::Choice(..) => "Constructed(Choice)",
        Want::SeqOf(..) => "Constructed(SequenceOf)", Want::Ref(_) => "Reference",
    };
    if !KINDS.contains(&k.as_str()) { return None; }
    if k != should { return Some(Err(("R03", format!("{at} is {k} instead of {should}")))); }
    let N::Tuple(_, v) = n else { return None };
    let inner = match &v[0] { N::Tuple(_, v) if k.starts_with("Base") => &v[0], x => x };
    macro_rules! go { ($e:expr) => { match $e? { Ok(()) => {} e => return Some(e) } } }
    macro_rules! no { ($p:expr, $($f:tt)*) => { return Some(Err(($p, format!($($f)*)))) } }
    match w {
        Want::Int(v) => {
            let got = inner.field("resolved_constraints")?.vals()?;
            if &got != v { no!("R01", "{at} has the values {got:?} instead of {v:?}"); }
            let (b, s) = (inner.field("bits")?.int()?, inner.field("signed")?.bool()?);
            if ![8, 16, 32, 64].contains(&b) { no!("R02", "{at} has {b} bits"); }
            let (lo, hi) = if s { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) };
            if v.is_none() && (b != 64 || !s) { no!("R02", "{at} has {b} bits, signed {s}, without a constraint"); }
            if let Some((r, x)) = v { for (a, c) in r.iter().chain(x.iter().flatten()) { if *a < lo || *c > hi { no!("R02", "{at} has {b} bits, signed {s}, with the values {v:?}"); } } }
        }
        Want::Enum(r, x, a) => {
            let (gr, gx, ga) = (inner.field("named_root_values")?.pairs()?, inner.field("extensible")?.bool()?, inner.field("named_ext_values")?.pairs()?);
            if &gr != r || &gx != x || &ga != a { no!("R03", "{at} is ENUMERATED {gr:?} {gx} {ga:?} instead of {r:?} {x} {a:?}"); }
            let (b, s) = (inner.field("bits")?.int()?, inner.field("signed")?.bool()?);
            if (r.len() as i128) > (1i128 << (b - s as i128)) { no!("R02", "{at} has {} items in {b} bits", r.len()); }
        }
        Want::Bits(b, s) => {
            go!(same_sizes(at, s, inner.field("size")?));
            let N::Map(m) = inner.field("named_values")? else { return None };
            let mut g: Vec<(String, i128)> = m.iter().map(|(k, v)| Some((k.str()?.to_string(), v.as_ref()?.int()?))).collect::<Option<_>>()?;
            g.sort();
            if &g != b { no!("R03", "{at} has the named bits {g:?} instead of {b:?}"); }
        }
        Want::Octets(s) => go!(same_sizes(at, s, inner.field("size")?)),
        Want::Chars(t, s) => {
            if inner.field("str_type")?.str()? != t { no!("R03", "{at} is a {:?}", inner.field("str_type")); }
            go!(same_sizes(at, s, inner.field("size")?));
        }
        Want::Bool | Want::Null | Want::Oid => {}
        Want::Ref(s) => if v[0].str()? != s { no!("R03", "{at} refers to {:?} instead of {s}", v[0]) },
        Want::SeqOf(s, t) => {
            go!(same_sizes(at, s, inner.field("size_values")?));
            go!(compare(&format!("{at}.element"), t, inner.field("ty")?));
        }
        Want::Seq(c, x) => {
            let g = inner.field("components")?.list()?;
            let gx = inner.field("extensible")?.bool()?;
            if gx != *x { no!("R03", "{at}: extensible {gx}"); }
            if g.len() != c.len() { no!("R03", "{at} has {} components instead of {}", g.len(), c.len()); }
            for ((n, w, o), g) in c.iter().zip(g) {
                let (i, go) = (g.field("component")?.field("id")?.str()?, g.field("optional")?.bool()?);
                if i != n || go != *o { no!("R03", "{at}: component {i}, optional {go}, instead of {n}, {o}"); }
                go!(compare(&format!("{at}.{n}"), w, g.field("component")?.field("ty")?));
            }
        }
        Want::Table(c, x) => {
            let g = inner.field("components")?.list()?;
            let gx = inner.field("extensible")?.bool()?;
            if gx != *x { no!("R05", "{at}: extensible {gx}"); }
            if g.len() != c.len() { no!("R05", "{at} has {} components instead of {}", g.len(), c.len()); }
            for ((n, w), g) in c.iter().zip(g) {
                let i = g.field("component")?.field("id")?.str()?;
                if i != n { no!("R05", "{at}: component {i} instead of {n}"); }
                let (key, t) = (g.field("key_field")?.bool()?, g.field("component")?.field("ty")?);
                let class = g.field("class_field_type")?.one("Some")?.atom()?;
                let at = format!("{at}.{n}");
                match w {
                    Dep::Fixed(w, k) => {
                        if key != *k || class != "FixedTypeValue" { no!("R05", "{at}: key {key} of kind {class}"); }
                        go!(compare(&at, w, t));
                    }
                    Dep::Types(s, types) => {
                        if key || class != "Type" { no!("R05", "{at}: key {key} of kind {class}"); }
                        let Some(t) = t.one("Set") else { no!("R05", "{at} does not depend on a set of objects") };
                        let N::Map(m) = t.field("types")? else { return None };
                        let mut g = vec![];
                        for (k, v) in m {
                            let (N::Tuple(_, k), Some(N::Tuple(_, v))) = (k, v) else { return None };
                            let Some(N::Str(r)) = v.get(1)?.one("Reference") else { no!("R05", "{at}: {v:?} is not a reference") };
                            if v[0].str()? != k.get(1)?.str()? { no!("R05", "{at}: {k:?} has the key {:?}", v[0]); }
                            g.push(((k[0].str()?.to_string(), k[1].str()?.to_string()), r.clone()));
                        }
                        g.sort();
                        let mut w = types.clone();
                        w.sort();
                        if t.field("setref")?.str()? != s || g != w { no!("R05", "{at} has the types {g:?} of {:?} instead of {w:?} of {s}", t.field("setref")?); }
                    }
                }
            }
        }
        Want::Choice(r, a) => {
            let ga = inner.field("additions")?.opt()?;
            if ga.is_some() != a.is_some() { no!("R03", "{at}: additions {}", ga.is_some()); }
            let lists = [(r, inner.field("root_components")?), (a.as_ref().unwrap_or(r), ga.unwrap_or(inner.field("root_components")?))];
            for (c, g) in lists {
                let g = g.list()?;
                if g.len() != c.len() { no!("R03", "{at} has {} alternatives instead of {}", g.len(), c.len()); }
                for ((n, w), g) in c.iter().zip(g) {
                    let i = g.field("id")?.str()?;
                    if i != n { no!("R03", "{at}: alternative {i} instead of {n}"); }
                    go!(compare(&format!("{at}.{n}"), w, g.field("ty")?));
                }
            }
        }
    }
    Some(Ok(()))
}

fn same_value(at: &str, w: &WVal, n: &N) -> Option<Result<(), Bad>> {
    let bad = || Some(Err(("R05", format!("{at} has the value {n:?} instead of {w:?}").chars().take(300).collect::<String>())));
    match w {
        WVal::Named(s) => match n.one("Reference") { Some(x) if x.str()? == s => Some(Ok(())), _ => bad() },
        WVal::Int(v) => match n.one("Base").and_then(|x| x.one("Integer")) { Some(x) if x.field("value")?.int()? == *v => Some(Ok(())), _ => bad() },
        WVal::Item => match n.one("Base").and_then(|x| x.one("Enum")) { Some(_) => Some(Ok(())), _ => bad() },
        WVal::Through(t, v) => match n.kind() { Some("ReferencedType") if n.field("typeref")?.str()? == t => same_value(at, v, n.field("value")?), _ => bad() },
    }
}
fn same_object(at: &str, w: &WObject, n: &N) -> Option<Result<(), Bad>> {
    let N::Map(m) = n.field("fields")? else { return None };
    if m.len() != w.len() { return Some(Err(("R05", format!("{at} has {} fields instead of {}", m.len(), w.len())))); }
    for (k, w) in w {
        let Some(g) = m.iter().find(|x| x.0.str() == Some(k)).and_then(|x| x.1.as_ref()) else { return Some(Err(("R05", format!("{at} has no {k}")))) };
        let at = format!("{at}.{k}");
        let r = match w {
            WField::Type(t) => match g.kind()? { "Type" => match g.field("ty")?.opt()? { Some(g) => compare(&at, t, g)?, None => Err(("R05", format!("{at} has no type"))) }, _ => Err(("R05", format!("{at} is not a type"))) },
            WField::Fixed(t, v) => match g.kind()? {
                "FixedTypeValue" => match (compare(&at, t, g.field("typeref")?)?, g.field("value")?.opt()?) { (Err(e), _) => Err(e), (_, Some(g)) => same_value(&at, v, g)?, _ => Err(("R05", format!("{at} has no value"))) },
                _ => Err(("R05", format!("{at} is not a value"))),
            },
        };
        if r.is_err() { return Some(r); }
    }
    Some(Ok(()))
}
/// In any order.
fn same_set(at: &str, w: &(Vec<(Option<String>, WObject)>, Table), n: &N) -> Option<Result<(), Bad>> {
    let g = n.field("objects")?;
    let el = g.field("elements")?.list()?;
    if el.len() != w.0.len() { return Some(Err(("R05", format!("{at} has {} objects instead of {}", el.len(), w.0.len())))); }
    let mut left: Vec<&N> = el.iter().collect();
    // Those with a name first: one without a name matches any that has its fields.
    for (name, o) in w.0.iter().filter(|x| x.0.is_some()).chain(w.0.iter().filter(|x| x.0.is_none())) {
        let mut why = format!("{at} lacks an object");
        let mut hit = None;
        for (i, x) in left.iter().enumerate() {
            let Some(x) = x.one("Object") else { continue };
            if name.is_some() && x.field("name")?.str() != name.as_deref() { continue; }
            match same_object(at, o, x)? { Ok(()) => { hit = Some(i); break; } Err(e) => why = e.1 }
        }
        match hit { Some(i) => { left.remove(i); } None => return Some(Err(("R05", format!("{at} lacks {name:?} {o:?} ({why})").chars().take(400).collect()))) }
    }
    let N::Map(m) = g.field("lookup_table")? else { return None };
    if m.len() != w.1.len() { return Some(Err(("R05", format!("{at} has {} keys instead of {}", m.len(), w.1.len())))); }
    for (k, o) in &w.1 {
        let g = m.iter().find(|x| matches!(&x.0, N::Tuple(_, v) if v.len() == 2 && v[0].str() == Some(&k.0) && v[1].str() == Some(&k.1))).and_then(|x| x.1.as_ref());
        let Some(g) = g.and_then(|x| x.one("Object")) else { return Some(Err(("R05", format!("{at} has nothing for the key {k:?}")))) };
        match same_object(&format!("{at} for the key {k:?}"), o, g)? { Ok(()) => {} e => return Some(e) }
    }
    Some(Ok(()))
}

fn once(s: &str) -> Option<Result<String, String>> {
    let mut t = asn1_compiler::tokenizer::tokenize(s.as_bytes()).ok()?;
    let m = asn1_compiler::parser::parse(&mut t).ok()?;
    let mut c = asn1_compiler::Asn1Compiler::new();
    for x in m { c.add_module(x); }
    Some(match c.resolve_modules() { Ok(()) => Ok(format!("{c:?}")), Err(e) => Err(format!("{e:?}")) })
}
#[derive(Clone, Debug)]
enum Is { Type(Want), Object(WObject), Set((Vec<(Option<String>, WObject)>, Table)) }
fn about(e: &Env, k: &str) -> &'static str {
    fn field(t: &Ty) -> bool {
        match t { Ty::Field(..) => true, Ty::Seq(v, _) => v.iter().any(|x| field(&x.1)), Ty::Choice(r, a) => r.iter().chain(a.iter().flatten()).any(|x| field(&x.1)), Ty::SeqOf(_, t) => field(t), _ => false }
    }
    fn generic(t: &Ty) -> bool { match t { Ty::Param(..) => true, Ty::Seq(v, _) => v.iter().any(|x| generic(&x.1)), Ty::Choice(r, a) => r.iter().chain(a.iter().flatten()).any(|x| generic(&x.1)), Ty::SeqOf(_, t) => generic(t), _ => false } }
    match e.get(k) { Some(Def::Type(t)) if !field(t) && !(generic(t) && e.values().any(|d| matches!(d, Def::Generic(_, t) if field(t)))) => "R01+R03", _ => "R05" }
}
fn judge(e: &Env, wants: &[(String, R<Is>)], got: &Result<String, String>) -> Option<Result<(), Bad>> {
    let refused = wants.iter().find(|w| matches!(w.1, Err(No::Refused)));
    let open = wants.iter().any(|w| matches!(w.1, Err(No::Open)));
    match got {
        Err(m) => Some(if refused.is_some() || open { Ok(()) } else { Err((if e.values().any(|d| matches!(d, Def::Class(_))) { "R05" } else { "R01+R03" }, format!("is refused: {}", m.replace('\n', " ").chars().take(200).collect::<String>()))) }),
        Ok(d) => {
            if let Some(w) = refused { return Some(Err((about(e, &w.0), format!("is accepted, though {} has no meaning", w.0)))); }
            let at = d.rfind("resolved_defs: ")? + 15;
            let N::Map(m) = (D { s: d.as_bytes(), i: at }).node()? else { return None };
            let get = |k: &str| m.iter().find(|x| x.0.str() == Some(k)).and_then(|x| x.1.as_ref());
            for (k, w) in wants {
                let Ok(w) = w else { continue };
                let (kind, p) = match w { Is::Type(_) => ("Type", "R03"), Is::Object(_) => ("Object", "R05"), Is::Set(_) => ("ObjectSet", "R05") };
                let Some(n) = get(k) else { return Some(Err((p, format!("{k} is not in the result")))) };
                let Some(n) = n.one(kind) else { return Some(Err((p, format!("{k} is not a {kind}")))) };
                match (match w { Is::Type(w) => compare(k, w, n)?, Is::Object(w) => same_object(k, w, n)?, Is::Set(w) => same_set(k, w, n)? }) { Ok(()) => {} e => return Some(e) }
            }
            for (k, d) in e {
                if let Def::Value(v) = d {
                    let Some(n) = get(k) else { return Some(Err(("R03", format!("{k} is not in the result")))) };
                    let mut n = n.one("Value")?;
                    while n.kind() == Some("ReferencedType") { n = n.field("value")?; }
                    let i = n.one("Base")?.one("Integer")?.field("value")?.int()?;
                    if i != *v { return Some(Err(("R03", format!("{k} is {i} instead of {v}")))); }
                }
            }
            Some(Ok(()))
        }
    }
}
/// The properties that break, and why; Ok(false): nothing is said about this text.
pub fn check(s: &str) -> Result<bool, (Vec<&'static str>, String)> {
    let Some(e) = module(s) else { return Ok(false) };
    if cyclic(&e) {
        // nothing may be dropped silently
        let Some(Ok(d)) = once(s) else { return Ok(true) };
        let Some(at) = d.rfind("resolved_defs: ") else { return Ok(false) };
        let Some(N::Map(m)) = (D { s: d.as_bytes(), i: at + 15 }).node() else { return Ok(false) };
        return match e.iter().find(|(k, d)| !matches!(d, Def::Class(_) | Def::Generic(..)) && !m.iter().any(|x| x.0.str() == Some(k))) {
            Some((k, _)) => Err((vec!["R04"], format!("`{s}` is accepted, but {k} is not in the result"))),
            None => Ok(true),
        };
    }
    let wants: Vec<(String, R<Is>)> = e.iter().filter_map(|(k, d)| match d {
        Def::Type(t) => Some((k.clone(), want(t, &e, 0).map(Is::Type))),
        Def::Object(c, b) => Some((k.clone(), wobject(c, b, &e).map(Is::Object))),
        Def::Set(c, v) => Some((k.clone(), wset(c, v, &e, 20).map(Is::Set))),
        _ => None,
    }).collect();
    let mut verdicts = vec![];
    // the order in which definitions are met differs from run to run
    for _ in 0..4 {
        let Some(g) = once(s) else { return Ok(false) };
        let Some(v) = judge(&e, &wants, &g) else { return Ok(false) };
        verdicts.push(v);
    }
    let bad = verdicts.iter().find_map(|v| v.as_ref().err());
    match bad {
        None => Ok(true),
        Some((p, w)) if verdicts.iter().all(|v| v.is_err()) => {
            let mut p: Vec<&'static str> = p.split('+').collect();
            if w.starts_with("is refused") && wants.len() > 1 { p.push("R04"); }
            Err((p, format!("`{s}` {w}")))
        }
        Some((_, w)) => Err((vec!["R04"], format!("`{s}`, in some runs only: {w}"))),
    }
}

// ---- texts
struct G<'a> { r: &'a mut Rng, vals: Vec<String>, types: Vec<String>, gens: Vec<(String, usize)> }
impl G<'_> {
    fn num(&mut self) -> String {
        match self.r.below(6) {
            0 => self.r.of(&["-1", "-128", "-129", "127", "128", "255", "256", "-32768", "-32769", "32767", "32768", "65535", "65536", "-2147483648", "-2147483649", "2147483647", "2147483648", "4294967295", "4294967296",
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616"]).into(),
            _ => format!("{}", self.r.below(12) as i64 - 2),
        }
    }
    fn val(&mut self, pos: bool) -> String {
        if !self.vals.is_empty() && self.r.one_in(3) { let i = self.r.below(self.vals.len()); return self.vals[i].clone(); }
        if self.r.one_in(60) { return "nowhere".into(); }
        if pos { format!("{}", self.r.below(9)) } else { self.num() }
    }
    fn elem(&mut self, pos: bool) -> String {
        if self.r.one_in(3) { return self.val(pos); }
        let (a, b) = (self.val(pos), self.val(pos));
        let (a, b) = match (a.parse::<i128>(), b.parse::<i128>()) { (Ok(x), Ok(y)) if x > y => (b, a), _ => (a, b) };
        format!("{a} {}..{} {b}", if self.r.one_in(8) { "< " } else { "" }, if self.r.one_in(8) { " <" } else { "" })
    }
    fn union(&mut self, f: &mut dyn FnMut(&mut Self) -> String) -> String {
        let mut s = f(self);
        while self.r.one_in(3) { s += if self.r.one_in(3) { " ^ " } else { " | " }; s += &f(self); }
        s
    }
    fn cons(&mut self, pos: bool) -> String {
        let mut s = format!("( {}", self.union(&mut |g| g.elem(pos)));
        if self.r.one_in(3) { s += " , ..."; if self.r.one_in(2) { s += &format!(" , {}", self.union(&mut |g| g.elem(pos))); } }
        s + " )"
    }
    fn size(&mut self, from: bool) -> String {
        let mut s = format!("( {}", self.union(&mut |g| if from && g.r.one_in(6) { "FROM ( \"ab\" )".into() } else { format!("SIZE {}", g.cons(true)) }));
        if self.r.one_in(4) { s += " , ..."; }
        s + " )"
    }
    fn some(&mut self, f: &mut dyn FnMut(&mut Self) -> String) -> String { let mut s = String::new(); while self.r.one_in(2) { s += " "; s += &f(self); } s }
    fn items(&mut self, at: &str) -> String {
        (0..1 + self.r.below(4)).map(|i| format!("{at}{i}{}", if self.r.one_in(3) { format!(" ( {} )", self.val(false)) } else { String::new() })).collect::<Vec<_>>().join(" , ")
    }
    fn ty(&mut self, d: usize) -> String {
        match self.r.below(if d == 0 { 7 } else { 12 }) {
            0 | 1 => format!("INTEGER{}", self.some(&mut |g| g.cons(false))),
            2 => format!("OCTET STRING{}", self.some(&mut |g| g.size(false))),
            3 => { let b = if self.r.one_in(3) { " { b0 ( 0 ) , b1 ( 7 ) , b2 ( 2 ) }" } else { "" }; format!("BIT STRING{b}{}", self.some(&mut |g| g.size(false))) }
            4 => { let n = self.r.of(&["IA5String", "UTF8String", "PrintableString", "VisibleString"]); format!("{n}{}", self.some(&mut |g| g.size(true))) }
            5 => { let a = self.items("i"); let x = if self.r.one_in(2) { format!(" , ...{}", if self.r.one_in(2) { format!(" , {}", self.items("x")) } else { String::new() }) } else { String::new() }; format!("ENUMERATED {{ {a}{x} }}") }
            6 => self.r.of(&["BOOLEAN", "NULL", "OBJECT IDENTIFIER"]).into(),
            7 => {
                let mut v: Vec<String> = (0..self.r.below(4)).map(|i| format!("c{i} {}{}", self.ty(d - 1), self.r.of(&["", "", " OPTIONAL", " DEFAULT 0"]))).collect();
                if self.r.one_in(2) || v.is_empty() { v.push("...".into()); }
                format!("SEQUENCE {{ {} }}", v.join(" , "))
            }
            8 => {
                let mut v: Vec<String> = (0..1 + self.r.below(3)).map(|i| format!("a{i} {}", self.ty(d - 1))).collect();
                if self.r.one_in(2) {
                    v.push("...".into());
                    let groups = self.r.one_in(2);
                    for i in 0..self.r.below(3) {
                        if groups { let k = 1 + self.r.below(4); let w: Vec<String> = (0..k).map(|j| format!("g{i}{j} {}", self.ty(d - 1))).collect(); v.push(format!("[[ {} ]]", w.join(" , "))); }
                        else { v.push(format!("x{i} {}", self.ty(d - 1))); }
                    }
                }
                format!("CHOICE {{ {} }}", v.join(" , "))
            }
            9 => { let s = if self.r.one_in(2) { format!("{} ", self.size(false)) } else { String::new() }; format!("SEQUENCE {s}OF {}", self.ty(d - 1)) }
            _ => {
                if !self.gens.is_empty() && self.r.one_in(3) && !self.types.is_empty() {
                    let (n, k) = self.gens[self.r.below(self.gens.len())].clone();
                    let a: Vec<String> = (0..k).map(|_| { let i = self.r.below(self.types.len()); self.types[i].clone() }).collect();
                    return format!("{n} {{ {} }}", a.join(" , "));
                }
                if self.types.is_empty() || self.r.one_in(80) { return "Nowhere1".into(); }
                let i = self.r.below(self.types.len());
                self.types[i].clone()
            }
        }
    }
}
impl G<'_> {
    fn any(&mut self, v: &[String], none: &str) -> String { if v.is_empty() || self.one_in(40) { none.into() } else { let i = self.r.below(v.len()); v[i].clone() } }
    fn one_in(&mut self, n: usize) -> bool { self.r.one_in(n) }
    /// Classes, objects, sets of them and what depends on them.
    fn objects(&mut self, defs: &mut Vec<String>) {
        let vals = self.vals.clone();
        let types = self.types.clone();
        for (c, name) in ["KA", "KB"].iter().take(1 + self.r.below(2)).enumerate() {
            let id = self.r.of(&["INTEGER", "INTEGER ( 0 .. 255 )", "INTEGER ( 0 .. 65535 )", "Id1"]);
            if id == "Id1" && !defs.iter().any(|x| x.starts_with("Id1 ")) { defs.push("Id1 ::= INTEGER ( 0 .. 300 )".into()); }
            let unique = if self.one_in(8) { "" } else { " UNIQUE" };
            let idopt = self.one_in(10);
            let (crit, opt) = (self.one_in(2), self.one_in(2));
            if crit && !defs.iter().any(|x| x.starts_with("Crit1 ")) { defs.push("Crit1 ::= ENUMERATED { ea , eb , ec }".into()); }
            defs.push(format!("{name} ::= CLASS {{ &id {id}{unique}{}{} , &Type{} }} WITH SYNTAX {{ {}{} TYPE &Type{} }}",
                if idopt { " OPTIONAL" } else { "" }, if crit { " , &crit Crit1" } else { "" }, if opt { " , &Opt OPTIONAL" } else { "" },
                if idopt { "[ ID &id ]" } else { "ID &id" }, if crit { " CRIT &crit" } else { "" }, if opt { " [ OPT &Opt ]" } else { "" }));
            let mut object = |g: &mut Self| {
                let ty = |g: &mut Self| if g.one_in(8) { "BOOLEAN".into() } else { g.any(&types, "Nowhere1") };
                let mut b = String::new();
                if !idopt || g.one_in(2) { b += &format!(" ID {}", if g.one_in(6) { format!("{}", g.r.below(9)) } else { g.any(&vals, "3") }); }
                if crit { b += &format!(" CRIT {}", g.r.of(&["ea", "eb", "ec"])); }
                b += &format!(" TYPE {}", ty(g));
                if opt && g.one_in(2) { b += &format!(" OPT {}", ty(g)); }
                format!("{{{b} }}")
            };
            let (mut objs, mut sets) = (vec![], vec![]);
            for i in 0..self.r.below(4) { let b = object(self); defs.push(format!("o{c}{i} {name} ::= {b}")); objs.push(format!("o{c}{i}")); }
            for i in 0..1 + self.r.below(3) {
                let n = self.r.below(5);
                let mut el: Vec<String> = (0..n).map(|_| match self.r.below(4) { 0 => object(self), 1 => { let s = sets.clone(); self.any(&s, if i == 0 { "o00" } else { "Nowhere1" }) } _ => { let o = objs.clone(); self.any(&o, "nowhere") } }).collect();
                let mut s = String::new();
                if self.one_in(2) || el.is_empty() { let k = el.len() / 2; let rest = el.split_off(k); s = el.join(" | "); if !s.is_empty() { s += " , "; } s += "..."; if !rest.is_empty() { s += &format!(" , {}", rest.join(" | ")); } }
                else { s += &el.join(" | "); }
                defs.push(format!("S{c}{i} {name} ::= {{ {s} }}"));
                sets.push(format!("S{c}{i}"));
            }
            let mut body = |g: &mut Self, s: &str| {
                let mut v = vec![];
                v.push(format!("id {name} . &id ( {{ {s} }} )"));
                if crit && g.one_in(2) { v.push(format!("crit {name} . &crit ( {{ {s} }} {})", if g.one_in(8) { "" } else { "{ @id } " })); }
                if g.one_in(12) { v.push("extra BOOLEAN".into()); }
                v.push(format!("val {name} . &Type ( {{ {s} }} {{ @id }} )"));
                if opt && g.one_in(2) { v.push(format!("opt {name} . &Opt ( {{ {s} }} {{ @id }} )")); }
                if g.one_in(3) { let (i, j) = (g.r.below(v.len()), g.r.below(v.len())); v.swap(i, j); }
                if g.one_in(2) { v.push("...".into()); }
                format!("SEQUENCE {{ {} }}", v.join(" , "))
            };
            for i in 0..self.r.below(3) { let s = self.any(&sets, "Nowhere1"); let b = body(self, &s); defs.push(format!("Q{c}{i} ::= {b}")); }
            if self.one_in(3) {
                let b = body(self, "Dummy3");
                let g = self.one_in(2);
                defs.push(format!("GS{c} {{ {name} : Dummy3 }} ::= {}", if g { format!("SEQUENCE ( SIZE ( 1 .. 9 ) ) OF {b}") } else { b }));
                let s = self.any(&sets, "Nowhere1");
                defs.push(format!("P{c} ::= GS{c} {{ {{ {s} }} }}"));
            }
        }
    }
}
pub fn random(r: &mut Rng, objects: bool) -> String {
    let mut g = G { r, vals: vec![], types: vec![], gens: vec![] };
    let mut defs = vec![];
    for i in 0..g.r.below(4) { let t = if g.r.one_in(4) { "Vint1" } else { "INTEGER" }; if t != "INTEGER" && !defs.iter().any(|x: &String| x.starts_with("Vint1")) { defs.push("Vint1 ::= INTEGER ( -9 .. 99 )".into()); } defs.push(format!("v{i} {t} ::= {}", { if i > 0 && g.r.one_in(4) { format!("v{}", g.r.below(i)) } else { (g.r.below(14) as i64 - 3).to_string() } })); g.vals.push(format!("v{i}")); }
    if objects { while g.vals.len() < 3 { let i = g.vals.len(); defs.push(format!("v{i} INTEGER ::= {}", g.r.below(300))); g.vals.push(format!("v{i}")); } }
    let bool = g.r.one_in(12);
    if bool { defs.push("Benum1 ::= ENUMERATED { xa , xb }".into()); defs.push("b0 Benum1 ::= xa".into()); g.vals.push("b0".into()); }
    for i in 0..1 + g.r.below(5) {
        if i > 0 && g.r.one_in(4) {
            let types = g.types.clone();
            g.types.extend(["Dummy1".to_string(), "Dummy2".to_string()]);
            let t = g.ty(2);
            g.types = types;
            defs.push(format!("G{i} {{ Dummy1 , Dummy2 }} ::= {t}"));
            g.gens.push((format!("G{i}"), 2));
        } else {
            let t = g.ty(2);
            defs.push(format!("T{i} ::= {t}"));
            g.types.push(format!("T{i}"));
        }
    }
    if objects || g.r.one_in(6) { g.objects(&mut defs); }
    // in any order
    for i in (1..defs.len()).rev() { let j = g.r.below(i + 1); defs.swap(i, j); }
    format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} END", defs.join(" "))
}
pub fn systematic(f: &mut dyn FnMut(&str) -> bool) {
    let mut one = |d: &str| f(&format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {d} END"));
    // parameterized definitions: one inside of another, and many in a row
    for n in [1, 2, 20, 62, 63, 64] {
        let d: Vec<String> = (0..n).map(|i| if i == 0 { "G0 { Da } ::= SEQUENCE { a Da }".into() } else { format!("G{i} {{ D{i}a }} ::= SEQUENCE {{ a G{} {{ D{i}a }} }}", i - 1) }).collect();
        if !one(&format!("{} T1 ::= BOOLEAN T2 ::= G{} {{ T1 }}", d.join(" "), n - 1)) { return; }
    }
    let d: Vec<String> = (0..200).map(|i| format!("c{i} G1 {{ T1 }}")).collect();
    if !one(&format!("G1 {{ Dummy1 }} ::= SEQUENCE {{ a Dummy1 , ... }} T1 ::= BOOLEAN T2 ::= SEQUENCE {{ {} }} T3 ::= CHOICE {{ {} }}", d.join(" , "), d.join(" , "))) { return; }
    for t in ["ENUMERATED { a ( 1 ) , b ( 2 ) , c ( 1 ) }", "ENUMERATED { a ( 5 ) , b ( 2 ) , c , d ( 3 ) , e ( 2 ) }", "ENUMERATED { a ( v1 ) , b , c ( 3 ) }", "ENUMERATED { a ( v1 ) , b ( v2 ) , c ( 9 ) }", "INTEGER ( b0 )", "INTEGER ( 0 .. b0 )", "OCTET STRING ( SIZE ( b0 ) )",
        "ENUMERATED { a , b ( b0 ) }", "SEQUENCE ( SIZE ( b0 ) ) OF BOOLEAN", "SEQUENCE { a INTEGER ( b0 ) }", "SEQUENCE { a BOOLEAN , b Nowhere1 , c BOOLEAN }", "CHOICE { a BOOLEAN , b Nowhere1 , c BOOLEAN }", "CHOICE { a BOOLEAN , ... , [[ b Nowhere1 , c BOOLEAN ]] }",
        "SEQUENCE OF Nowhere1", "SEQUENCE ( SIZE ( 1 .. nowhere ) ) OF BOOLEAN", "CHOICE { a BOOLEAN , ... , [[ b BOOLEAN , c NULL , d INTEGER , e BOOLEAN ]] , [[ f NULL ]] }", "CHOICE { a BOOLEAN , ... , b NULL , c INTEGER , d BOOLEAN }"] {
        if !one(&format!("Benum1 ::= ENUMERATED {{ xa , xb }} b0 Benum1 ::= xb v1 INTEGER ::= 3 v2 INTEGER ::= 3 T1 ::= {t}")) { return; }
        if !one(&format!("Benum1 ::= ENUMERATED {{ xa , xb }} Vint1 ::= INTEGER ( 0 .. 9 ) b0 Benum1 ::= xb v1 Vint1 ::= v3 v2 INTEGER ::= v1 v3 INTEGER ::= 3 T1 ::= {t}")) { return; }
    }
    for n in [2, 3, 60] {
        let d: Vec<String> = (1..n).map(|i| format!("v{i} INTEGER ::= v{}", i - 1)).collect();
        if !one(&format!("v0 INTEGER ::= 5 {} T1 ::= INTEGER ( 0 .. v{} )", d.join(" "), n - 1)) { return; }
    }
    // what has to be resolved first: with as much before it as the definition that needs it has, hash maps decide
    for _ in 0..3 {
        for depth in [0, 1, 2, 3, 5] {
            let mut chain = String::new();
            for i in (0..depth).rev() {
                let (x, y) = (if i == depth - 1 { "Dd".to_string() } else { format!("D{}d", i + 1) }, if i == depth - 1 { "d".to_string() } else { format!("d{}", i + 1) });
                chain += &format!("{x} ::= D{i}d {y} INTEGER ::= d{i} ");
            }
            let (x, y) = if depth == 0 { ("Dd", "d") } else { ("D0d", "d0") };
            chain += &format!("{x} ::= INTEGER ( 0 .. 99 ) {y} INTEGER ::= 50");
            for q in CYCLES { if !one(q) { return; } }
            for q in ORDER {
                let q = if q.contains("::=") { q.to_string() } else { format!("T1 ::= {q}") };
                if !one(&format!("{q} T2 ::= BOOLEAN v1 INTEGER ::= 3 G1 {{ Dummy1 , Dummy2 }} ::= SEQUENCE {{ a Dummy1 , b Dummy2 }} {chain}")) { return; }
            }
        }
    }
    for q in IOC { if !one(&format!("v1 INTEGER ::= 3 v2 Id1 ::= v3 v3 INTEGER ::= v4 v4 INTEGER ::= 300 Benum1 ::= ENUMERATED {{ xa , xb }} b0 Benum1 ::= xb T1 ::= BOOLEAN T2 ::= SEQUENCE {{ a BOOLEAN , ... }} Id1 ::= INTEGER ( 0 .. 400 ) Crit1 ::= ENUMERATED {{ ea , eb }} {q}")) { return; } }
    let edges = ["-9223372036854775809", "-9223372036854775808", "-2147483649", "-2147483648", "-32769", "-32768", "-129", "-128", "-1", "0", "1", "127", "128", "255", "256", "32767", "32768", "65535", "65536",
        "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"];
    for a in edges {
        for b in edges {
            let (a, b) = if a.parse::<i128>().unwrap() > b.parse::<i128>().unwrap() { continue } else { (a, b) };
            for t in [format!("( {a} .. {b} )"), format!("( {a} | {b} )"), format!("( {a} .. {b} , ... )"), format!("( {a} , ... , {b} )"), format!("( {a} < .. < {b} )"), format!("( {a} .. {b} ) ( {a} .. {b} , ... )"), format!("( 1 .. 2 , ... , {a} .. {b} )")] {
                if !one(&format!("T1 ::= INTEGER {t}")) { return; }
            }
        }
    }
    for n in [1usize, 2, 255, 256, 257, 300] {
        let v: Vec<String> = (0..n).map(|i| format!("i{i}")).collect();
        if !one(&format!("T1 ::= ENUMERATED {{ {} }}", v.join(" , "))) || !one(&format!("T1 ::= ENUMERATED {{ {} , ... , {} }}", v.join(" , "), v.iter().map(|x| format!("x{x}")).collect::<Vec<_>>().join(" , "))) { return; }
    }
}

/// Dd and d are defined somewhere.
const CYCLES: &[&str] = &[
    "Aa1 ::= SEQUENCE { a Aa1 }",
    "Aa1 ::= SEQUENCE OF Aa1",
    "Aa1 ::= Bb1 Bb1 ::= Cc1 Cc1 ::= Aa1",
    "Aa1 ::= SEQUENCE { a BOOLEAN , b Bb1 OPTIONAL } Bb1 ::= CHOICE { a INTEGER , b Aa1 } Cc1 ::= BOOLEAN",
    "v INTEGER ::= w w INTEGER ::= v Tt1 ::= BOOLEAN",
    "Tt1 ::= INTEGER (0..v) v INTEGER ::= w w INTEGER ::= v",
    "Aa1 ::= SEQUENCE (SIZE (0..v)) OF Bb1 Bb1 ::= Cc1 Cc1 ::= CHOICE { a Aa1 , ... } v INTEGER ::= 3",
    "Gg1 { Xx1 } ::= SEQUENCE { a Xx1 , b Aa1 } Aa1 ::= Gg1 { BOOLEAN } Cc1 ::= BOOLEAN",
];
const ORDER: &[&str] = &[
    "Dd",
    "SEQUENCE { a BOOLEAN , b Dd }",
    "SEQUENCE { a T2 , b Dd }",
    "SEQUENCE { a T2 , b Dd OPTIONAL , ... }",
    "CHOICE { a T2 , b Dd }",
    "CHOICE { a T2 , ... , b Dd }",
    "CHOICE { a BOOLEAN , ... , [[ b T2 , c Dd ]] , [[ e NULL ]] }",
    "CHOICE { a BOOLEAN , ... , [[ b NULL ]] , [[ c Dd ]] }",
    "SEQUENCE OF Dd",
    "SEQUENCE ( SIZE ( v1 ) ) OF Dd",
    "SEQUENCE ( SIZE ( 1 .. d ) ) OF T2",
    "G1 { T2 , Dd }",
    "G1 { Dd , T2 }",
    "SEQUENCE { a SEQUENCE { b CHOICE { c SEQUENCE OF Dd } } }",
    "INTEGER ( d )",
    "INTEGER ( 0 .. d )",
    "INTEGER ( d .. 99 )",
    "INTEGER ( v1 .. d )",
    "INTEGER ( d .. d )",
    "INTEGER ( v1 | d )",
    "INTEGER ( v1 , ... , d )",
    "INTEGER ( 1 , ... , v1 | d )",
    "INTEGER ( v1 .. 99 ) ( 0 .. d )",
    "INTEGER ( 0 .. 99 ^ v1 .. d )",
    "OCTET STRING ( SIZE ( 1 .. d ) )",
    "OCTET STRING ( SIZE ( v1 .. d , ... ) )",
    "BIT STRING ( SIZE ( d ) )",
    "ENUMERATED { a ( v1 ) , b ( d ) }",
    "ENUMERATED { a , ... , b ( d ) }",
    "ENUMERATED { a ( v1 ) , ... , b ( 77 ) , c ( d ) }",
    "w1 INTEGER ::= d",
    "w1 INTEGER ::= d T1 ::= INTEGER ( 0 .. w1 )",
    "w1 Dd ::= 7",
    "w1 Dd ::= d",
    "G2 { Dummy1 } ::= SEQUENCE { a Dummy1 , b Dd } T1 ::= G2 { T2 }",
    "G2 { Dummy1 } ::= SEQUENCE { a Dummy1 , b INTEGER ( 0 .. d ) } T1 ::= G2 { T2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID d CRIT 1 TYPE T2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE Dd }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT d TYPE T2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit Dd , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 }",
    "KA ::= CLASS { &id Dd UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 }",
    "KA ::= CLASS { &id INTEGER ( 0 .. d ) UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 } o2 KA ::= { ID d CRIT 1 TYPE Dd } Sa1 KA ::= { o1 | o2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 } o2 KA ::= { ID d CRIT 1 TYPE Dd } Sa1 KA ::= { o1 , ... , o2 }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 } Sa1 KA ::= { o1 | { ID d CRIT 1 TYPE Dd } , ... }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit INTEGER , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT 1 TYPE T2 } o2 KA ::= { ID d CRIT 1 TYPE Dd } Sa2 KA ::= { o2 } Sa1 KA ::= { o1 , ... , Sa2 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) }",
    "KA ::= CLASS { &id INTEGER UNIQUE , &crit Dd OPTIONAL , &Type } WITH SYNTAX { ID &id [ CRIT &crit ] TYPE &Type } o1 KA ::= { ID v1 TYPE T2 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , crit KA . &crit ( { Sa1 } { @id } ) , val KA . &Type ( { Sa1 } { @id } ) }",
];
const IOC: &[&str] = &[
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE T1 } o2 KA ::= { ID v2 TYPE T2 } SA KA ::= { o1 } Sa1 KA ::= { o1 | o2 , ... } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE T1 } Sa1 KA ::= { o1 | { ID v2 TYPE T2 } } Sa2 KA ::= { Sa1 | { ID 9 TYPE BOOLEAN } , ... , o1 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa2 } ) , val KA . &Type ( { Sa2 } { @id } ) }",
    "KA ::= CLASS { &id INTEGER ( 0 .. 65535 ) UNIQUE , &crit Crit1 , &Type , &Opt OPTIONAL } WITH SYNTAX { ID &id CRIT &crit TYPE &Type [ OPT &Opt ] } o1 KA ::= { ID v1 CRIT ea TYPE T1 } o2 KA ::= { ID v2 CRIT eb TYPE T2 OPT T1 } Sa1 KA ::= { o1 | o2 , ... } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , crit KA . &crit ( { Sa1 } { @id } ) , val KA . &Type ( { Sa1 } { @id } ) , opt KA . &Opt ( { Sa1 } { @id } ) , ... }",
    "KA ::= CLASS { &id INTEGER ( 0 .. 65535 ) UNIQUE , &crit Crit1 , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT ea TYPE T1 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { crit KA . &crit ( { Sa1 } { @id } ) , val KA . &Type ( { Sa1 } { @id } ) , id KA . &id ( { Sa1 } ) }",
    "KA ::= CLASS { &id INTEGER ( 0 .. 65535 ) UNIQUE , &crit Crit1 , &Type } WITH SYNTAX { ID &id CRIT &crit TYPE &Type } o1 KA ::= { ID v1 CRIT ea TYPE T1 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { crit KA . &crit ( { Sa1 } ) , id KA . &id ( { Sa1 } ) , id2 KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Sa1 KA ::= { ... } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID b0 TYPE T1 } Sa1 KA ::= { o1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID nowhere TYPE T1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID T1 TYPE T1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE Nowhere1 }",
    "KA ::= CLASS { &id Id1 UNIQUE OPTIONAL , &Type } WITH SYNTAX { [ ID &id ] TYPE &Type } o1 KA ::= { TYPE T1 } Sa1 KA ::= { o1 }",
    "KA ::= CLASS { &id Id1 , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE T1 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Sa1 KA ::= { nowhere }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Sa1 KA ::= { v1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Sa1 KA ::= { Nowhere1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Sa1 KA ::= { T1 }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Qa1 ::= SEQUENCE { id KA . &id ( { Nowhere1 } ) , val KA . &Type ( { Nowhere1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } Qa1 ::= SEQUENCE { id KA . &id ( { T1 } ) , val KA . &Type ( { T1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE T1 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , extra BOOLEAN , val KA . &Type ( { Sa1 } { @id } ) , ... }",
    "KA ::= CLASS { &id Id1 UNIQUE , &Type } WITH SYNTAX { ID &id TYPE &Type } o1 KA ::= { ID v1 TYPE T1 } Sa1 KA ::= { o1 } Qa1 ::= SEQUENCE { id KA . &id ( { Sa1 } ) , val KA . &Type ( { Sa1 } { @id } ) , extra Nowhere1 , ... }",
];
