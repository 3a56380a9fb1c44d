//! Values of any readable column type, canonicalised; the types, their C++ and Rust names,
//! their wire format (ROOT's, written from its documentation) and typed readers for them.
use crate::cols::*;
use crate::gen::{prim_bits, string_of, Val};
use crate::rng::Rng;
use crate::{with_n, with_prim};
use oxyroot::{Branch, Slice, UnmarshalerInto};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    N(u64),
    S(String),
    L(Vec<V>),
    /// sorted
    Set(Vec<V>),
    /// sorted by key
    M(Vec<(V, V)>),
}

pub trait Canon {
    fn canon(self) -> V;
}
macro_rules! canon_prim {
    ($($t:ty),*) => { $(impl Canon for $t { fn canon(self) -> V { V::N(Elt::bits(self)) } })* };
}
canon_prim!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool);
impl Canon for String {
    fn canon(self) -> V {
        V::S(self)
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(self) -> V {
        V::L(self.into_iter().map(|x| x.canon()).collect())
    }
}
impl<T: Canon, const N: usize> Canon for [T; N] {
    fn canon(self) -> V {
        V::L(self.into_iter().map(|x| x.canon()).collect())
    }
}
impl<T: Canon> Canon for Slice<T> {
    fn canon(self) -> V {
        self.into_vec().canon()
    }
}
impl<T: Canon> Canon for HashSet<T> {
    fn canon(self) -> V {
        let mut v: Vec<V> = self.into_iter().map(|x| x.canon()).collect();
        v.sort();
        V::Set(v)
    }
}
impl<K: Canon, X: Canon> Canon for HashMap<K, X> {
    fn canon(self) -> V {
        let mut v: Vec<(V, V)> = self.into_iter().map(|(k, x)| (k.canon(), x.canon())).collect();
        v.sort();
        V::M(v)
    }
}

/// How a string column is declared.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sk {
    Std,
    TString,
    Chars,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ct {
    Pr(P),
    S(Sk),
    Arr(P, usize),
    Sl(P),
    Vc(Box<Ct>),
    Set(Box<Ct>),
    Map(Box<Ct>, Box<Ct>),
}

use Ct::*;

pub fn vec_of(t: Ct) -> Ct {
    Vc(Box::new(t))
}
pub fn set_of(t: Ct) -> Ct {
    Set(Box::new(t))
}
pub fn map_of(k: Ct, v: Ct) -> Ct {
    Map(Box::new(k), Box::new(v))
}

impl Ct {
    /// the normalised C++ name a reader reports
    pub fn cpp(&self) -> String {
        match self {
            Pr(p) => p.cpp().into(),
            S(Sk::Std) => "string".into(),
            S(Sk::TString) => "TString".into(),
            S(Sk::Chars) => "char*".into(),
            Arr(p, n) => format!("{}[{n}]", p.cpp()),
            Sl(p) => format!("{}[]", p.cpp()),
            Vc(t) => format!("vector<{}>", t.cpp()),
            Set(t) => format!("set<{}>", t.cpp()),
            Map(k, v) => format!("map<{},{}>", k.cpp(), v.cpp()),
        }
    }
    /// the Rust type the documentation gives for it
    pub fn rust(&self) -> String {
        match self {
            Pr(p) => p.rust().into(),
            // the reader reports TString as it is; it is read as String
            S(Sk::TString) => "TString".into(),
            S(_) => "String".into(),
            Arr(p, n) => format!("[{};{n}]", p.rust()),
            Sl(p) => format!("Slice<{}>", p.rust()),
            Vc(t) => format!("Vec<{}>", t.rust()),
            Set(t) => format!("HashSet<{}>", t.rust()),
            Map(k, v) => format!("HashMap<{},{}>", k.rust(), v.rust()),
        }
    }
    /// one of the spellings a ROOT file may contain
    pub fn spell(&self, r: &mut Rng, std_prefix: bool) -> String {
        let pre = if std_prefix && r.chance(1, 2) { "std::" } else { "" };
        let sp = |r: &mut Rng| if r.chance(1, 4) { " " } else { "" };
        match self {
            Pr(p) => p_spell(*p, r),
            S(Sk::Std) => format!("{pre}string"),
            S(Sk::TString) => "TString".into(),
            S(Sk::Chars) => "char*".into(),
            Arr(..) | Sl(_) => self.cpp(),
            Vc(t) | Set(t) => {
                let c = if matches!(self, Vc(_)) { "vector" } else { "set" };
                let i = t.spell(r, std_prefix);
                // before C++11 the space between two closing brackets was compulsory
                let end = if i.ends_with('>') && r.chance(1, 2) { " >".to_string() } else { format!("{}>", sp(r)) };
                format!("{pre}{c}<{i}{end}")
            }
            Map(k, v) => {
                let (a, b) = (k.spell(r, std_prefix), v.spell(r, std_prefix));
                let end = if b.ends_with('>') && r.chance(1, 2) { " >" } else { ">" };
                format!("{pre}map<{a},{}{b}{end}", sp(r))
            }
        }
    }
    pub fn has_set(&self) -> bool {
        match self {
            Set(_) | Map(..) => true,
            Vc(t) => t.has_set(),
            _ => false,
        }
    }
    pub fn fixed_size(&self) -> Option<usize> {
        match self {
            Pr(p) => Some(p.size()),
            Arr(p, n) => Some(p.size() * n),
            _ => None,
        }
    }
    pub fn prim(&self) -> Option<P> {
        match self {
            Pr(p) | Arr(p, _) | Sl(p) => Some(*p),
            _ => None,
        }
    }
}

/// Spellings of a scalar type as ROOT writes them in class names.
pub fn p_spell(p: P, r: &mut Rng) -> String {
    let v: &[&str] = match p {
        P::I16 => &["short", "int16_t"],
        P::U16 => &["unsigned short", "uint16_t"],
        P::I32 => &["int", "int32_t"],
        P::U32 => &["unsigned int", "uint32_t"],
        P::I64 => &["long", "int64_t", "long long", "Long64_t"],
        P::U64 => &["unsigned long", "uint64_t", "unsigned long long", "ULong64_t"],
        P::I8 => &["int8_t", "char", "signed char"],
        P::U8 => &["uint8_t", "unsigned char"],
        P::F32 => &["float"],
        P::F64 => &["double"],
        P::Bool => &["bool"],
    };
    r.pick(v).to_string()
}

/// A value of a type. `size` bounds the number of elements at each level.
pub fn random(t: &Ct, r: &mut Rng, size: usize) -> V {
    let n = |r: &mut Rng| {
        if r.chance(1, 6) {
            0
        } else {
            r.below(size as u64 + 1) as usize
        }
    };
    match t {
        Pr(p) => V::N(prim_bits(r, *p, Val::Mix, 3)),
        S(_) => {
            let l = if r.chance(1, 12) { *r.pick(&crate::gen::EDGES) } else { r.range(0, 12) };
            V::S(string_of(r, l))
        }
        Arr(p, k) => V::L((0..*k).map(|_| V::N(prim_bits(r, *p, Val::Mix, 5))).collect()),
        Sl(p) => {
            let k = n(r);
            V::L((0..k).map(|_| V::N(prim_bits(r, *p, Val::Mix, 5))).collect())
        }
        Vc(x) => {
            let k = n(r);
            V::L((0..k).map(|_| random(x, r, size)).collect())
        }
        Set(x) => {
            let k = n(r);
            let mut v: Vec<V> = (0..k).map(|_| random(x, r, size)).collect();
            v.sort();
            v.dedup();
            V::Set(v)
        }
        Map(k, x) => {
            let m = n(r);
            let mut keys: Vec<V> = (0..m).map(|_| random(k, r, size)).collect();
            keys.sort();
            keys.dedup();
            V::M(keys.into_iter().map(|a| (a, random(x, r, size))).collect())
        }
    }
}

/// An entry with k elements (or bytes), as far as there are so many different ones.
pub fn long(t: &Ct, k: usize, r: &mut Rng) -> V {
    match t {
        S(_) => V::S(string_of(r, k)),
        Sl(p) => V::L((0..k).map(|_| V::N(prim_bits(r, *p, Val::Mix, 5))).collect()),
        Vc(x) => V::L((0..k).map(|_| random(x, r, 2)).collect()),
        Set(x) => {
            let mut v: Vec<V> = (0..k).map(|_| random(x, r, 4)).collect();
            v.sort();
            v.dedup();
            V::Set(v)
        }
        Map(a, x) => {
            let mut v: Vec<V> = (0..k).map(|_| random(a, r, 4)).collect();
            v.sort();
            v.dedup();
            V::M(v.into_iter().map(|a| (a, random(x, r, 2))).collect())
        }
        _ => random(t, r, 4),
    }
}

pub fn put_tstr(o: &mut Vec<u8>, s: &[u8]) {
    if s.len() >= 255 {
        o.push(255);
        o.extend_from_slice(&(s.len() as u32).to_be_bytes());
    } else {
        o.push(s.len() as u8);
    }
    o.extend_from_slice(s);
}

fn put_prim(o: &mut Vec<u8>, p: P, v: &V) {
    let V::N(b) = v else { panic!("harness: scalar expected") };
    let w = b.to_be_bytes();
    o.extend_from_slice(&w[8 - p.size()..]);
}

/// Content of a value inside a collection (no header).
fn put_bare(o: &mut Vec<u8>, t: &Ct, v: &V) {
    match (t, v) {
        (Pr(p), v) => put_prim(o, *p, v),
        (S(_), V::S(s)) => put_tstr(o, s.as_bytes()),
        (Arr(p, _) | Sl(p), V::L(l)) => l.iter().for_each(|x| put_prim(o, *p, x)),
        (Vc(x), V::L(l)) | (Set(x), V::Set(l)) => {
            o.extend_from_slice(&(l.len() as u32).to_be_bytes());
            l.iter().for_each(|e| put_bare(o, x, e));
        }
        _ => panic!("harness: cannot encode {v:?} as {}", t.cpp()),
    }
}

/// byte count and version in front of `body`
fn versioned(version: u16, body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend_from_slice(&(0x4000_0000u32 | (body.len() as u32 + 2)).to_be_bytes());
    o.extend_from_slice(&version.to_be_bytes());
    o.extend_from_slice(body);
    o
}

/// Bytes of one entry of a column of this type.
pub fn encode(t: &Ct, v: &V, element: bool, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let version = *r.pick(&[1u16, 3, 6, 9, 10]);
    match (t, v) {
        (Sl(_), _) if element => {
            // pointer member with a counter: one byte tells whether there is an array
            let V::L(l) = v else { panic!("harness: list expected") };
            o.push(!l.is_empty() as u8);
            put_bare(&mut o, t, v);
        }
        (Vc(_) | Set(_), _) => {
            put_bare(&mut o, t, v);
            o = versioned(version, &o);
        }
        (Map(k, x), V::M(m)) => {
            // member-wise: class version and checksum, all keys, all values
            o.extend_from_slice(&0u16.to_be_bytes());
            o.extend_from_slice(&(r.next() as u32).to_be_bytes());
            o.extend_from_slice(&(m.len() as u32).to_be_bytes());
            let column = |t: &Ct, vs: Vec<&V>| {
                let mut c = vec![];
                vs.iter().for_each(|v| put_bare(&mut c, t, v));
                match t {
                    Pr(_) | S(Sk::TString) => c,
                    _ => versioned(version, &c),
                }
            };
            o.extend(column(k, m.iter().map(|e| &e.0).collect()));
            o.extend(column(x, m.iter().map(|e| &e.1).collect()));
            o = versioned(0x4000 | version, &o);
        }
        _ => put_bare(&mut o, t, v),
    }
    o
}

/// The inverse of `encode`, written separately: one entry of a column.
pub fn decode(t: &Ct, d: &[u8], element: bool) -> Result<V, String> {
    let mut c = crate::rootfmt::Cur::new(d, 0);
    fn prim(c: &mut crate::rootfmt::Cur, p: P) -> Result<V, String> {
        Ok(V::N(match p.size() {
            1 => c.u8()? as u64,
            2 => c.u16()? as u64,
            4 => c.u32()? as u64,
            _ => c.u64()?,
        }))
    }
    fn bare(c: &mut crate::rootfmt::Cur, t: &Ct) -> Result<V, String> {
        Ok(match t {
            Pr(p) => prim(c, *p)?,
            S(_) => V::S(c.tstr()?),
            Arr(p, n) => V::L((0..*n).map(|_| prim(c, *p)).collect::<Result<_, _>>()?),
            Vc(x) | Set(x) => {
                let n = c.i32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(bare(c, x)?);
                }
                if let Set(_) = t {
                    v.sort();
                    v.dedup();
                    V::Set(v)
                } else {
                    V::L(v)
                }
            }
            _ => return Err(format!("nested {}", t.cpp())),
        })
    }
    fn header(c: &mut crate::rootfmt::Cur) -> Result<u16, String> {
        let n = c.u32()?;
        if n & 0xC000_0000 != 0x4000_0000 {
            return Err(format!("no byte count but {n:#x}"));
        }
        c.u16()
    }
    let v = match t {
        Sl(p) => {
            if element && c.u8()? == 0 {
                return if d.len() == 1 { Ok(V::L(vec![])) } else { Err("elements in a null array".into()) };
            }
            let mut v = vec![];
            while c.p < d.len() {
                v.push(prim(&mut c, *p)?);
            }
            V::L(v)
        }
        Vc(_) | Set(_) => {
            header(&mut c)?;
            bare(&mut c, t)?
        }
        Map(k, x) => {
            if header(&mut c)? & 0x4000 == 0 {
                return Err("map not stored member-wise".into());
            }
            if c.u16()? == 0 {
                c.u32()?;
            }
            let n = c.u32()?;
            let mut column = |t: &Ct| -> Result<Vec<V>, String> {
                if !matches!(t, Pr(_) | S(Sk::TString)) {
                    header(&mut c)?;
                }
                (0..n).map(|_| bare(&mut c, t)).collect()
            };
            let ks = column(k)?;
            let xs = column(x)?;
            let mut m: Vec<(V, V)> = ks.into_iter().zip(xs).collect();
            m.sort();
            V::M(m)
        }
        // written by `string` columns of a class with a header
        S(Sk::Std) if element && d.first() == Some(&0x40) && d.len() >= 7 => {
            header(&mut c)?;
            bare(&mut c, t)?
        }
        _ => bare(&mut c, t)?,
    };
    if c.p != d.len() {
        return Err(format!("{} of {} bytes used", c.p, d.len()));
    }
    Ok(v)
}

type It<'a> = Box<dyn Iterator<Item = V> + 'a>;

#[derive(Clone, Copy)]
pub struct Rd {
    pub iter: for<'a> fn(&'a Branch) -> Result<It<'a>, String>,
    pub unchecked: for<'a> fn(&'a Branch) -> It<'a>,
    pub rust: fn() -> &'static str,
}

pub fn rd<T: UnmarshalerInto<Item = T> + Canon + 'static>() -> Rd {
    fn iter<'a, T: UnmarshalerInto<Item = T> + Canon + 'static>(b: &'a Branch) -> Result<It<'a>, String> {
        match b.as_iter::<T>() {
            Ok(i) => Ok(Box::new(i.map(|v| v.canon()))),
            Err(e) => Err(e.to_string()),
        }
    }
    fn unchecked<'a, T: UnmarshalerInto<Item = T> + Canon + 'static>(b: &'a Branch) -> It<'a> {
        Box::new(b.as_iter_unchecked::<T>().map(|v| v.canon()))
    }
    Rd { iter: iter::<T>, unchecked: unchecked::<T>, rust: std::any::type_name::<T> }
}

macro_rules! with_int {
    ($p:expr, $T:ident => $body:expr) => {
        match $p {
            P::I8 => { type $T = i8; $body }
            P::U8 => { type $T = u8; $body }
            P::I16 => { type $T = i16; $body }
            P::U16 => { type $T = u16; $body }
            P::I32 => { type $T = i32; $body }
            P::U32 => { type $T = u32; $body }
            P::I64 => { type $T = i64; $body }
            P::U64 => { type $T = u64; $body }
            _ => return None,
        }
    };
}

fn map_reader<K: UnmarshalerInto<Item = K> + Canon + Eq + std::hash::Hash + Default + oxyroot::Unmarshaler + 'static>(v: &Ct) -> Option<Rd> {
    Some(match v {
        Pr(P::I16) => rd::<HashMap<K, i16>>(),
        Pr(P::I32) => rd::<HashMap<K, i32>>(),
        Pr(P::U64) => rd::<HashMap<K, u64>>(),
        Pr(P::F32) => rd::<HashMap<K, f32>>(),
        Pr(P::F64) => rd::<HashMap<K, f64>>(),
        S(_) => rd::<HashMap<K, String>>(),
        Vc(x) => match &**x {
            Pr(P::I16) => rd::<HashMap<K, Vec<i16>>>(),
            Pr(P::F64) => rd::<HashMap<K, Vec<f64>>>(),
            S(_) => rd::<HashMap<K, Vec<String>>>(),
            Vc(y) => match &**y {
                Pr(P::I16) => rd::<HashMap<K, Vec<Vec<i16>>>>(),
                _ => return None,
            },
            Set(y) => match &**y {
                Pr(P::I16) => rd::<HashMap<K, Vec<HashSet<i16>>>>(),
                _ => return None,
            },
            _ => return None,
        },
        Set(x) => match &**x {
            Pr(P::I16) => rd::<HashMap<K, HashSet<i16>>>(),
            S(_) => rd::<HashMap<K, HashSet<String>>>(),
            _ => return None,
        },
        _ => return None,
    })
}

/// The typed reader of a column type.
pub fn reader(t: &Ct) -> Option<Rd> {
    type L<T> = Vec<T>;
    Some(match t {
        Pr(p) => with_prim!(*p, T => rd::<T>()),
        S(_) => rd::<String>(),
        Arr(p, n) => {
            if !ARR_N.contains(n) {
                return None;
            }
            with_prim!(*p, T => with_n!(*n, N => rd::<[T; N]>()))
        }
        Sl(p) => with_prim!(*p, T => rd::<oxyroot::Slice<T>>()),
        Vc(x) => match &**x {
            Pr(p) => with_prim!(*p, T => rd::<L<T>>()),
            S(_) => rd::<L<String>>(),
            Vc(y) => match &**y {
                Pr(p) => with_prim!(*p, T => rd::<L<L<T>>>()),
                S(_) => rd::<L<L<String>>>(),
                Vc(z) => match &**z {
                    Pr(p) => with_prim!(*p, T => rd::<L<L<L<T>>>>()),
                    S(_) => rd::<L<L<L<String>>>>(),
                    _ => return None,
                },
                Set(z) => match &**z {
                    Pr(p) => with_int!(*p, T => rd::<L<L<HashSet<T>>>>()),
                    _ => return None,
                },
                _ => return None,
            },
            Set(y) => match &**y {
                Pr(p) => with_int!(*p, T => rd::<L<HashSet<T>>>()),
                S(_) => rd::<L<HashSet<String>>>(),
                _ => return None,
            },
            _ => return None,
        },
        Set(x) => match &**x {
            Pr(p) => with_int!(*p, T => rd::<HashSet<T>>()),
            S(_) => rd::<HashSet<String>>(),
            _ => return None,
        },
        Map(k, v) => match &**k {
            Pr(P::I16) => map_reader::<i16>(v)?,
            Pr(P::I32) => map_reader::<i32>(v)?,
            Pr(P::U32) => map_reader::<u32>(v)?,
            Pr(P::I64) => map_reader::<i64>(v)?,
            S(_) => map_reader::<String>(v)?,
            _ => return None,
        },
    })
}

const INTS: [P; 8] = [P::I8, P::U8, P::I16, P::U16, P::I32, P::U32, P::I64, P::U64];

/// Types a reader exists for; `max` classes of shapes.
pub fn any(r: &mut Rng) -> Ct {
    let p = *r.pick(&PRIMS);
    let i = *r.pick(&INTS);
    let s = S(*r.pick(&[Sk::Std, Sk::Std, Sk::TString]));
    match r.below(20) {
        0..=2 => Pr(p),
        3 => S(Sk::Chars),
        4 => S(Sk::Std),
        5 => S(Sk::TString),
        6 => Arr(p, *r.pick(&ARR_N)),
        7..=8 => Sl(p),
        9..=10 => vec_of(Pr(p)),
        11 => vec_of(s),
        12 => vec_of(vec_of(if r.chance(1, 3) { s } else { Pr(p) })),
        13 => vec_of(vec_of(vec_of(if r.chance(1, 3) { s } else { Pr(p) }))),
        14 => vec_of(set_of(if r.chance(1, 3) { S(Sk::Std) } else { Pr(i) })),
        15 => set_of(if r.chance(1, 3) { S(Sk::Std) } else { Pr(i) }),
        16 => vec_of(vec_of(set_of(Pr(i)))),
        _ => any_map(r),
    }
}

pub fn any_map(r: &mut Rng) -> Ct {
    let k = r.pick(&[Pr(P::I16), Pr(P::I32), Pr(P::U32), Pr(P::I64), S(Sk::Std), S(Sk::Std)]).clone();
    let v = r
        .pick(&[
            Pr(P::I16),
            Pr(P::I32),
            Pr(P::U64),
            Pr(P::F32),
            Pr(P::F64),
            S(Sk::Std),
            S(Sk::TString),
            vec_of(Pr(P::I16)),
            vec_of(Pr(P::F64)),
            vec_of(S(Sk::Std)),
            vec_of(vec_of(Pr(P::I16))),
            vec_of(set_of(Pr(P::I16))),
            set_of(Pr(P::I16)),
            set_of(S(Sk::Std)),
        ])
        .clone();
    map_of(k, v)
}

/// Parse the name a reader reports into a type a reader exists for.
pub fn parse(name: &str) -> Option<Ct> {
    fn prim(s: &str) -> Option<P> {
        PRIMS.iter().copied().find(|p| p.cpp() == s)
    }
    fn split_args(s: &str) -> Vec<&str> {
        let (mut d, mut b, mut v) = (0, 0, vec![]);
        for (i, c) in s.char_indices() {
            match c {
                '<' => d += 1,
                '>' => d -= 1,
                ',' if d == 0 => {
                    v.push(&s[b..i]);
                    b = i + 1;
                }
                _ => {}
            }
        }
        v.push(&s[b..]);
        v
    }
    let s = name.trim();
    if let Some(p) = prim(s) {
        return Some(Pr(p));
    }
    match s {
        "string" => return Some(S(Sk::Std)),
        "TString" => return Some(S(Sk::TString)),
        "char*" => return Some(S(Sk::Chars)),
        _ => {}
    }
    if let Some(x) = s.strip_suffix(']') {
        let (a, n) = x.rsplit_once('[')?;
        let p = prim(a)?;
        return if n.is_empty() { Some(Sl(p)) } else { Some(Arr(p, n.parse().ok()?)) };
    }
    let inner = s.strip_suffix('>')?;
    let (c, inner) = inner.split_once('<')?;
    let a = split_args(inner);
    match (c, a.len()) {
        ("vector", 1) => Some(vec_of(parse(a[0])?)),
        ("set", 1) => Some(set_of(parse(a[0])?)),
        ("map", 2) => Some(map_of(parse(a[0])?, parse(a[1])?)),
        _ => None,
    }
}
