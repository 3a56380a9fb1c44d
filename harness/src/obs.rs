//! Everything the library reports about a file, as plain values.
use crate::core::*;
use crate::rootfmt as rf;
use crate::synth;
use crate::val::{self, V};
use oxyroot::{Branch, Object, RootFile};
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Values(Vec<V>),
    /// no typed reader of the harness covers the reported type
    NoReader,
    Refused(String),
    Panic(String),
}

impl Data {
    pub fn kind(&self) -> &'static str {
        match self {
            Data::Values(_) => "values",
            Data::NoReader => "no-reader",
            Data::Refused(_) => "refused",
            Data::Panic(_) => "panic",
        }
    }
    pub fn values(&self) -> Option<&[V]> {
        match self {
            Data::Values(v) => Some(v),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ColO {
    pub name: String,
    pub class: String,
    pub cpp: String,
    pub rust: String,
    pub entries: i64,
    pub data: Data,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TreeO {
    pub name: String,
    pub entries: i64,
    pub top: Vec<String>,
    pub cols: Vec<ColO>,
}

pub fn column(b: &Branch, limit: usize) -> ColO {
    let cpp = b.item_type_name();
    let data = match val::parse(&cpp).and_then(|t| val::reader(&t)) {
        None => Data::NoReader,
        Some(rd) => match guard(|| (rd.iter)(b).map(|i| i.take(limit).collect::<Vec<V>>())) {
            Ok(Ok(v)) => Data::Values(v),
            Ok(Err(e)) => Data::Refused(e),
            Err(p) => Data::Panic(p.text()),
        },
    };
    ColO { name: b.name().to_string(), class: b.class().to_string(), cpp, rust: b.interpretation(), entries: b.entries(), data }
}

/// `limit`: maximal number of items taken from an iterator (a runaway iterator ends there).
pub fn observe(path: &Path, limit: usize) -> Result<Vec<TreeO>, String> {
    observe_with(path, limit, false)
}

/// The names of the objects which are no trees.
pub fn other_names(path: &Path) -> Vec<String> {
    let Ok(Ok(f)) = guard(|| RootFile::open(path)) else { return vec![] };
    let keys = f.keys();
    keys.iter().filter(|k| k.class() != "TTree").map(|k| oxyroot::Named::name(k).to_string()).collect()
}

/// `all`: the trees with a name others have, too, one by one; objects which are no trees left out.
pub fn observe_with(path: &Path, limit: usize, all: bool) -> Result<Vec<TreeO>, String> {
    let r = guard(|| {
        let mut f = RootFile::open(path).map_err(|e| format!("open: {e}"))?;
        let mut v = vec![];
        let names: Vec<(String, i32)> = f.keys().iter().filter(|k| !all || k.class() == "TTree").map(|k| (oxyroot::Named::name(k).to_string(), k.cycle())).collect();
        for (n, c) in names.clone() {
            let last = !all || !names.iter().any(|o| o.0 == n && o.1 > c);
            let asked = if last { n.clone() } else { format!("{n};{c}") };
            let t = f.get_tree(&asked).map_err(|e| format!("tree {asked}: {e}"))?;
            v.push(TreeO {
                name: n,
                entries: t.entries(),
                top: t.branches().map(|b| b.name().to_string()).collect(),
                cols: t.branches_r().into_iter().map(|b| column(b, limit)).collect(),
            });
        }
        Ok(v)
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(p.text()),
    }
}

/// First difference of two observations.
pub fn diff(a: &[TreeO], b: &[TreeO]) -> Option<(&'static str, String)> {
    let n = |v: &[TreeO]| v.iter().map(|t| t.name.clone()).collect::<Vec<_>>();
    if a.len() != b.len() || n(a) != n(b) {
        return Some(("trees", format!("{:?} and {:?}", n(a), n(b))));
    }
    for (x, y) in a.iter().zip(b) {
        if x.entries != y.entries {
            return Some(("entries", format!("tree {:?}: {} and {} entries", x.name, x.entries, y.entries)));
        }
        let n = |t: &TreeO| t.cols.iter().map(|c| c.name.clone()).collect::<Vec<_>>();
        if x.top != y.top || n(x) != n(y) {
            return Some(("columns", clip(&format!("{:?} and {:?}", n(x), n(y)), 800)));
        }
        for (c, d) in x.cols.iter().zip(&y.cols) {
            if (&c.class, &c.cpp, &c.rust, c.entries) != (&d.class, &d.cpp, &d.rust, d.entries) {
                return Some(("column-header", format!("{:?}: {:?} and {:?}", c.name, (&c.class, &c.cpp, &c.rust, c.entries), (&d.class, &d.cpp, &d.rust, d.entries))));
            }
            if let Some(w) = data_diff(&c.data, &d.data) {
                return Some(("values", format!("{:?} ({}): {w}", c.name, c.cpp)));
            }
        }
    }
    None
}

pub fn data_diff(a: &Data, b: &Data) -> Option<String> {
    match (a, b) {
        (Data::Values(a), Data::Values(b)) => values_diff(a, b),
        // what could not be read need not be read in another layout
        (Data::Panic(_) | Data::NoReader | Data::Refused(_), _) => None,
        (Data::Values(a), d) => Some(format!("{} values and {}", a.len(), clip(&format!("{d:?}"), 300))),
    }
}

pub fn values_diff(a: &[V], b: &[V]) -> Option<String> {
    if let Some(i) = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]) {
        return Some(format!("entry {i} of {}: {} and {}", a.len(), clip(&format!("{:?}", a[i]), 200), clip(&format!("{:?}", b[i]), 200)));
    }
    if a.len() != b.len() {
        return Some(format!("{} and {} entries", a.len(), b.len()));
    }
    None
}

/// Developer's view: what the library and the independent decoder say about a file.
pub fn dump(path: &str) {
    let o = observe(Path::new(path), 1 << 20);
    let f = rf::File::parse(std::fs::read(path).unwrap());
    match &o {
        Err(e) => println!("library: {e}"),
        Ok(v) => {
            for t in v {
                println!("tree {:?} {} entries", t.name, t.entries);
                for c in &t.cols {
                    let s = match &c.data {
                        Data::Values(v) => format!("{} values {}", v.len(), clip(&format!("{:?}", &v[..v.len().min(3)]), 100)),
                        d => clip(&format!("{d:?}"), 150),
                    };
                    println!("  {} {} {} {} [{}] {s}", c.name, c.class, c.cpp, c.rust, c.entries);
                }
            }
        }
    }
    let f = match f {
        Ok(f) => f,
        Err(e) => return println!("parser: {e}"),
    };
    let l = match synth::lift(&f) {
        Ok(l) => l,
        Err(e) => return println!("lift: {e}"),
    };
    for t in &l.trees {
        println!("lifted {:?} {} columns, info {:?}", t.name, t.cols.len(), t.info);
    }
    let mut r = crate::rng::Rng::new(5);
    for k in 0..50 {
        let lay = if k == 0 { synth::Layout::plain() } else { synth::Layout::random(&mut r) };
        let (b, st) = synth::build(&l, &lay);
        let q = std::env::temp_dir().join("vh_dump.root");
        std::fs::write(&q, &b).unwrap();
        match rf::File::parse(b).and_then(|f| synth::lift(&f)) {
            Err(e) => println!("{k} parse of rebuilt: {e}"),
            Ok(m) => {
                if format!("{:?}", m.trees) != format!("{:?}", l.trees) {
                    println!("{k} rebuilt file has other content");
                }
            }
        }
        match (&o, observe(&q, 1 << 20)) {
            (Ok(a), Ok(b)) => {
                if let Some(d) = diff(a, &b) {
                    println!("{k} {lay:?}\n   {st:?}\n   {} {}", d.0, clip(&d.1, 300));
                }
            }
            (_, Err(e)) => println!("{k} {lay:?} {e}"),
            _ => {}
        }
    }
}
