//! C20: hierarchies of columns, lookup by name and metadata attached to trees.
use crate::cols::*;
use crate::core::*;
use crate::obs;
use crate::p_lay::{self, real_files, values};
use crate::rng::Rng;
use crate::rootfmt::InfoM;
use crate::synth::*;
use crate::val::{self, *};
use crate::gen;
use oxyroot::rbase::TObjString;
use oxyroot::rcont::list::ReaderList;
use oxyroot::rcont::tmap::{Key, TMap};
use oxyroot::{Branch, ReaderTree, RootFile};

// ---------------------------------------------------------------- hierarchies

/// What a node of the hierarchy has to be.
struct Node {
    name: String,
    class: &'static str,
    /// type and values of a column with data
    data: Option<(Ct, Vec<V>)>,
    /// kids are scalars of this type, one each per entry
    zip: Option<(P, Vec<Vec<V>>)>,
    /// the type can be asked for
    typed: bool,
    cpp: Option<String>,
    kids: Vec<Node>,
}

struct Maker<'a> {
    r: &'a mut Rng,
    used: std::collections::HashSet<String>,
    n: usize,
    left: usize,
    /// objects inside objects too (their type is only known from a description of the class)
    nested: bool,
}

/// A hierarchy all of whose types can be asked for: name, C++ type, content of each column.
pub fn random_hierarchy(r: &mut Rng, n: usize, left: usize) -> (Vec<ColS>, Vec<(String, String, Option<(Ct, Vec<V>)>)>) {
    let mut m = Maker { n, left, used: Default::default(), nested: false, r };
    let (mut cols, mut nodes, mut flat) = (vec![], vec![], vec![]);
    m.level("", 0, &mut cols, &mut nodes, 12);
    preorder(&nodes, &mut flat);
    let v = flat.into_iter().map(|n| (n.name.clone(), n.cpp.clone().unwrap(), n.data.clone())).collect();
    (cols, v)
}

impl Maker<'_> {
    /// A name not used yet, often close to another one.
    fn name(&mut self, parent: &str) -> String {
        loop {
            let r = &mut *self.r;
            let base = match r.below(8) {
                0 if !parent.is_empty() => format!("{parent}.x"),
                1 if !parent.is_empty() => format!("{parent}x"),
                2 if parent.chars().count() > 1 => {
                    let mut p = parent.to_string();
                    p.pop();
                    p
                }
                3 if !self.used.is_empty() => {
                    let mut v: Vec<&String> = self.used.iter().collect();
                    v.sort();
                    let o = r.pick(&v).to_string();
                    match r.below(4) {
                        0 => format!("{o}{}", r.below(3)),
                        1 => o.to_uppercase(),
                        2 => format!("_{o}"),
                        _ => format!("{o}.{}", r.below(3)),
                    }
                }
                4 => format!("n{}", "a".repeat(r.range(1, 300))),
                5 => gen::name(r, 0),
                _ => format!("c{}", r.below(1000)),
            };
            let base: String = base.chars().filter(|c| !"[]".contains(*c)).collect();
            if !base.is_empty() && base.len() < 2000 && self.used.insert(base.clone()) {
                return base;
            }
        }
    }

    fn level(&mut self, parent: &str, depth: usize, out: &mut Vec<ColS>, nodes: &mut Vec<Node>, max: usize) {
        let k = self.r.range(if depth == 0 { 0 } else { 1 }, max);
        for _ in 0..k {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            let name = self.name(parent);
            if depth < 5 && self.r.chance(1, 3) {
                self.folder(&name, depth, out, nodes);
            } else {
                self.leaf(&name, out, nodes);
            }
        }
    }

    fn leaf(&mut self, name: &str, out: &mut Vec<ColS>, nodes: &mut Vec<Node>) {
        let ct = loop {
            let c = val::any(self.r);
            if !matches!(c, Ct::Sl(_)) {
                break c;
            }
        };
        let vals = values(&ct, self.n, self.r);
        let member = self.r.chance(1, 3);
        let c = col_of(name, &ct, &vals, member, None, self.r);
        let class = if c.elem.is_some() { "TBranchElement" } else { "TBranch" };
        nodes.push(Node { name: name.into(), class, cpp: Some(ct.cpp()), data: Some((ct, vals)), zip: None, typed: true, kids: vec![] });
        out.push(c);
    }

    fn folder(&mut self, name: &str, depth: usize, out: &mut Vec<ColS>, nodes: &mut Vec<Node>) {
        let mut c = ColS { name: name.into(), title: name.into(), n: self.n as i64, ..Default::default() };
        let mut node = Node { name: name.into(), class: "TBranch", data: None, zip: None, typed: true, cpp: None, kids: vec![] };
        match self.r.below(3) {
            0 if self.nested || depth == 0 => {
                // a split object
                let class_name = format!("Event{}", self.r.below(10));
                c.elem = Some(ElemS { class_name: class_name.clone(), stype: -1, id: -1, clsver: 1, btype: 1, ..Default::default() });
                node.class = "TBranchElement";
                // the type of a nested object is in the description of the class, absent here
                node.typed = depth == 0;
                node.cpp = Some(class_name);
            }
            1 if self.n > 0 => {
                // a folder of scalars of one type, which can be read together
                let p = *self.r.pick(&[P::I32, P::F64, P::U8, P::I16]);
                let k = *self.r.pick(&[1usize, 2, 3, 4, 5, 8]);
                let mut cols: Vec<Vec<V>> = vec![];
                for _ in 0..k {
                    let kn = self.name(name);
                    let vals: Vec<V> = (0..self.n).map(|_| val::random(&Ct::Pr(p), self.r, 1)).collect();
                    c.kids.push(col_of(&kn, &Ct::Pr(p), &vals, false, None, self.r));
                    node.kids.push(Node { name: kn, class: "TBranch", cpp: Some(p.cpp().into()), data: Some((Ct::Pr(p), vals.clone())), zip: None, typed: true, kids: vec![] });
                    cols.push(vals);
                }
                let rows = (0..self.n).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect();
                node.zip = Some((p, rows));
                node.cpp = Some("unknown".into());
                out.push(c);
                nodes.push(node);
                return;
            }
            _ => node.cpp = Some("unknown".into()),
        }
        self.level(name, depth + 1, &mut c.kids, &mut node.kids, 4);
        if c.kids.is_empty() {
            let kn = self.name(name);
            self.leaf(&kn, &mut c.kids, &mut node.kids);
        }
        out.push(c);
        nodes.push(node);
    }
}

fn preorder<'a>(ns: &'a [Node], out: &mut Vec<&'a Node>) {
    for n in ns {
        out.push(n);
        preorder(&n.kids, out);
    }
}

fn names(v: &[&Branch]) -> Vec<String> {
    v.iter().map(|b| b.name().to_string()).collect()
}

/// The node as reported: class, type, entries, values.
fn node(o: &mut Out, b: &Branch, n: &Node, entries: usize, how: &str) {
    o.eval();
    let at = |w: String| format!("{:?} ({how}): {w}", n.name);
    o.check(b.name() == n.name, "own-name", || at(format!("reports the name {:?}", b.name())));
    o.check(b.class() == n.class, "class", || at(format!("reports the class {:?}", b.class())));
    o.check(b.entries() == entries as i64, "entries", || at(format!("{} entries instead of {entries}", b.entries())));
    if let (true, Some(cpp)) = (n.typed, &n.cpp) {
        match guard(|| b.item_type_name()) {
            Err(e) => o.viol("panic", at(e.text())),
            Ok(t) => {
                o.check(t == *cpp, "type", || at(format!("type {t:?} instead of {cpp:?}")));
            }
        }
    }
    if let Some((ct, vals)) = &n.data {
        let rd = val::reader(ct).expect("harness: reader");
        match guard(|| (rd.iter)(b).map(|i| i.take(entries + 5).collect::<Vec<V>>())) {
            Err(e) => o.viol("panic", at(e.text())),
            Ok(Err(e)) => o.viol("refused", at(e)),
            Ok(Ok(v)) => {
                o.count("values compared", v.len() as u64);
                if let Some(d) = obs::values_diff(&v, vals) {
                    o.viol("values", at(d));
                }
            }
        }
    }
    if let Some((p, rows)) = &n.zip {
        let (k, size) = (rows[0].len(), p.size());
        let seen = guard(|| {
            b.get_basket(|r| {
                (0..k)
                    .map(|_| {
                        let x = match size {
                            1 => r.read_u8().map(|x| x as u64),
                            2 => r.read_u16().map(|x| x as u64),
                            4 => r.read_u32().map(|x| x as u64),
                            _ => r.read_u64(),
                        };
                        x.map(V::N)
                    })
                    .collect::<Result<Vec<V>, _>>()
                    .map(V::L)
                    .map_err(|e| e.to_string())
            })
            .take(entries + 5)
            .collect::<Result<Vec<V>, String>>()
        });
        let want: Vec<V> = rows.iter().map(|r| V::L(r.clone())).collect();
        match seen {
            Err(e) => o.viol("zip-panic", at(e.text())),
            Ok(Err(e)) => o.viol("zip", at(e)),
            Ok(Ok(v)) => {
                o.count("values compared", v.len() as u64);
                if let Some(d) = obs::values_diff(&v, &want) {
                    o.viol("zip", at(format!("columns read together: {d}")));
                }
            }
        }
    }
}

/// The same queries on a branch: its children, recursively, and by name.
fn below(o: &mut Out, b: &Branch, n: &Node, all: &[String]) {
    let mut sub = vec![];
    preorder(&n.kids, &mut sub);
    let want: Vec<String> = sub.iter().map(|n| n.name.clone()).collect();
    o.eval();
    let got = names(&b.branches_r());
    o.check(got == want, "children-recursive", || format!("below {:?}: {got:?} instead of {want:?}", n.name));
    let direct: Vec<String> = n.kids.iter().map(|k| k.name.clone()).collect();
    let got = names(&b.branches().collect::<Vec<_>>());
    o.check(got == direct, "children", || format!("of {:?}: {got:?} instead of {direct:?}", n.name));
    for w in all {
        let found = b.branch(w).map(|b| b.name().to_string());
        let expected = want.contains(w).then(|| w.clone());
        o.count("lookups", 1);
        o.check(found == expected, "lookup-below", || format!("{w:?} below {:?}: {found:?}", n.name));
    }
    for (k, c) in n.kids.iter().zip(b.branches()) {
        below(o, c, k, all);
    }
}

fn hierarchy(o: &mut Out, t: &ReaderTree, nodes: &[Node], entries: usize, r: &mut Rng) {
    let mut flat = vec![];
    preorder(nodes, &mut flat);
    let want: Vec<String> = flat.iter().map(|n| n.name.clone()).collect();
    let all = t.branches_r();
    o.eval();
    o.check(names(&all) == want, "recursive-list", || clip(&format!("{:?} instead of {want:?}", names(&all)), 900));
    let top: Vec<String> = nodes.iter().map(|n| n.name.clone()).collect();
    let got = names(&t.branches().collect::<Vec<_>>());
    o.check(got == top, "top-list", || clip(&format!("{got:?} instead of {top:?}"), 900));
    o.check(t.entries() == entries as i64, "entries", || format!("tree: {} instead of {entries}", t.entries()));
    if names(&all) != want {
        return;
    }
    o.count("columns visited", want.len() as u64);
    for (b, n) in all.iter().zip(&flat) {
        node(o, b, n, entries, "listed");
    }
    // looked up, in any order
    let mut order: Vec<usize> = (0..flat.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        o.count("lookups", 1);
        match t.branch(&want[i]) {
            None => o.viol("lookup", format!("{:?} not found", want[i])),
            Some(b) => {
                o.check(std::ptr::eq(b, all[i]), "lookup", || format!("{:?} gives another column, named {:?}", want[i], b.name()));
                if r.chance(1, 3) {
                    node(o, b, flat[i], entries, "looked up");
                }
            }
        }
    }
    // names of no column
    let set: std::collections::HashSet<&String> = want.iter().collect();
    let mut unknown: Vec<String> = vec!["".into(), ".".into(), "*".into(), "unknown".into()];
    for w in &want {
        let mut cs: Vec<char> = w.chars().collect();
        unknown.push(cs[..cs.len() - 1].iter().collect());
        unknown.push(cs[1..].iter().collect());
        unknown.push(format!("{w} "));
        unknown.push(format!("{w}."));
        unknown.push(format!("{w}\0"));
        unknown.push(format!("{w}[0]"));
        unknown.push(w.to_uppercase());
        unknown.push(w.to_lowercase());
        if let Some(p) = w.rfind('.') {
            unknown.push(w[p + 1..].into());
            unknown.push(w[..p].into());
        }
        let i = r.below(cs.len() as u64) as usize;
        cs[i] = if cs[i] == 'q' { 'r' } else { 'q' };
        unknown.push(cs.into_iter().collect());
    }
    for u in unknown.iter().filter(|u| !set.contains(u)) {
        o.count("lookups", 1);
        if let Some(b) = t.branch(u) {
            o.viol("unknown-found", format!("{u:?} finds {:?}", b.name()));
        }
    }
    for (b, n) in t.branches().zip(nodes) {
        below(o, b, n, &want);
    }
}

// ---------------------------------------------------------------- metadata

fn text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1usize, 63, 64, 65, 127, 128, 253, 254, 255, 256, 257, 1000, 70_000]),
        _ => r.range(1, 20),
    };
    gen::string_of(r, n)
}

fn info(r: &mut Rng, depth: usize, budget: &mut usize) -> InfoM {
    *budget = budget.saturating_sub(1);
    let n = if *budget == 0 || depth > 5 { 0 } else { r.range(0, 6) };
    match r.below(if depth > 5 { 1 } else { 4 }) {
        0 | 1 => InfoM::Str(text(r)),
        2 => list(r, depth, n, budget),
        _ => {
            let mut keys = std::collections::BTreeSet::new();
            for _ in 0..n {
                keys.insert(text(r));
            }
            let mut v: Vec<(InfoM, InfoM)> = keys.into_iter().map(|k| (InfoM::Str(k), info(r, depth + 1, budget))).collect();
            r.shuffle(&mut v);
            InfoM::Map(if r.chance(1, 2) { String::new() } else { text(r) }, v)
        }
    }
}

pub fn list(r: &mut Rng, depth: usize, n: usize, budget: &mut usize) -> InfoM {
    InfoM::List(if r.chance(1, 2) { String::new() } else { text(r) }, (0..n).map(|_| info(r, depth + 1, budget)).collect())
}

fn check_list(l: &ReaderList, want: &[InfoM], at: &str, o: &mut Out) -> Result<(), String> {
    if l.len() != want.len() || l.is_empty() != want.is_empty() {
        return Err(format!("{at}: {} objects instead of {}", l.len(), want.len()));
    }
    for (i, w) in want.iter().enumerate() {
        let at = format!("{at}[{i}]");
        o.count("objects of metadata compared", 1);
        match w {
            InfoM::Str(s) => check_str(&l.at::<TObjString>(i).to_string(), s, &at)?,
            InfoM::List(_, v) => check_list(l.at::<ReaderList>(i), v, &at, o)?,
            InfoM::Map(_, v) => check_map(l.at::<TMap>(i), v, &at, o)?,
        }
    }
    Ok(())
}

fn check_str(s: &str, want: &str, at: &str) -> Result<(), String> {
    if s != want {
        return Err(format!("{at}: {:?} instead of {:?}", clip(s, 200), clip(want, 200)));
    }
    Ok(())
}

fn check_map(m: &TMap, want: &[(InfoM, InfoM)], at: &str, o: &mut Out) -> Result<(), String> {
    let key = |s: &str| Key::String(s.to_string());
    for (k, w) in want {
        let InfoM::Str(k) = k else { panic!("harness: key of a map") };
        let at = format!("{at}[{:?}]", clip(k, 40));
        let none = || format!("{at}: not found");
        o.count("objects of metadata compared", 1);
        match w {
            InfoM::Str(s) => check_str(&m.get::<TObjString>(&key(k)).ok_or_else(none)?.to_string(), s, &at)?,
            InfoM::List(_, v) => check_list(m.get::<ReaderList>(&key(k)).ok_or_else(none)?, v, &at, o)?,
            InfoM::Map(_, v) => check_map(m.get::<TMap>(&key(k)).ok_or_else(none)?, v, &at, o)?,
        }
    }
    for (k, _) in want {
        let InfoM::Str(k) = k else { continue };
        for u in [format!("{k} "), format!("{k}x"), String::new(), k.to_uppercase()] {
            if !want.iter().any(|(w, _)| *w == InfoM::Str(u.clone())) {
                o.count("lookups", 1);
                if m.get::<TObjString>(&key(&u)).is_some() {
                    return Err(format!("{at}: a value for the unknown key {u:?}"));
                }
            }
        }
    }
    Ok(())
}

fn metadata(o: &mut Out, t: &ReaderTree, want: &Option<InfoM>, what: &str) {
    o.eval();
    match (t.user_info(), want) {
        (None, None) => {}
        (None, Some(_)) => o.viol("metadata", format!("{what}: missing")),
        (Some(l), None) => o.viol("metadata", format!("{what}: {} objects out of nowhere", l.len())),
        (Some(l), Some(InfoM::List(_, v))) => {
            let mut inner = Out::default();
            let r = guard(|| check_list(l, v, "info", &mut inner));
            inner.counters.iter().for_each(|(k, n)| o.count(k, *n));
            match r {
                Err(e) => o.viol("metadata-panic", format!("{what}: {}", e.text())),
                Ok(Err(e)) => o.viol("metadata", format!("{what}: {e}")),
                Ok(Ok(())) => {}
            }
        }
        _ => panic!("harness: metadata is a list"),
    }
}

// ---------------------------------------------------------------- C20

/// A file of one tree with a hierarchy of columns and metadata.
pub fn random_file(r: &mut Rng, n: usize) -> crate::synth::FileS {
    let left = *r.pick(&[1usize, 4, 12]);
    let (cols, _) = random_hierarchy(r, n, left);
    let mut budget = r.range(0, 60);
    let k = r.range(0, 8);
    let info = Some(list(r, 0, k, &mut budget));
    p_lay::file_of(vec![TreeS { name: "t".into(), title: "x".into(), cycle: 1, entries: n as i64, cols, info, other: None }])
}

pub fn c20(cx: &Ctx) {
    cx.set_rule("one case = a tree with a hierarchy of columns and metadata attached; monitored: listing at every level and recursively, lookup of every name and of names of no column, name, class, type, entries and values of each column however found, every object of the metadata; non-trivial = at least one column or object");
    cx.assume("names of the columns of a tree are distinct; keys of maps are strings; the type of an object nested in another one is not asked for (its description is not in the file)");
    let r0 = cx.rng("c20");
    cx.par("hierarchy", cx.n(4000, 100_000), |i, o| {
        let mut r = r0.fork(i);
        let n = *r.pick(&[0usize, 1, 3, 20, 80]);
        let mut m = Maker { n, nested: true, left: *r.pick(&[0usize, 1, 4, 12, 40]), used: Default::default(), r: &mut r };
        let (mut cols, mut nodes) = (vec![], vec![]);
        m.level("", 0, &mut cols, &mut nodes, 12);
        let mut budget = r.range(0, 60);
        let inf = if r.chance(1, 2) {
            let k = r.range(0, 8);
            Some(list(&mut r, 0, k, &mut budget))
        } else {
            None
        };
        let t = TreeS { name: "t".into(), title: "x".into(), cycle: 1, entries: n as i64, cols, info: inf.clone(), other: None };
        let mut l = Layout::random(&mut r);
        l.embed = 0;
        l.algos.retain(|a| *a != Algo::Lzma);
        l.algos.push(Algo::None);
        let mut flat = vec![];
        preorder(&nodes, &mut flat);
        o.case(clip(&format!("{:?} {n} entries, info {}", flat.iter().map(|n| &n.name).collect::<Vec<_>>(), inf.is_some()), 1500));
        let p = cx.path(".root");
        if let Err(e) = std::fs::write(&p, build(&p_lay::file_of(vec![t]), &l).0) {
            return o.error(format!("{p:?}: {e}"));
        }
        match guard(|| RootFile::open(&p).and_then(|mut f| f.get_tree("t").map(|t| (f, t)))) {
            Err(e) => o.viol("panic", e.text()),
            Ok(Err(e)) => o.viol("unreadable", e.to_string()),
            Ok(Ok((_f, t))) => {
                hierarchy(o, &t, &nodes, n, &mut r);
                metadata(o, &t, &inf, "tree");
                o.seen((i, flat.len()));
            }
        }
        let _ = std::fs::remove_file(&p);
        if flat.len() > 3 {
            o.sample(format!("{} columns of which {} at the top, metadata {:?}", flat.len(), nodes.len(), inf.as_ref().map(|i| clip(&format!("{i:?}"), 80))));
        }
    });
    // metadata alone, large and deep
    cx.par("metadata", cx.n(1500, 50_000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let mut budget = *r.pick(&[1usize, 10, 100, 1500]);
        let k = *r.pick(&[0usize, 1, 3, 30, 300]);
        let inf = list(&mut r, 0, k, &mut budget);
        let t = TreeS { name: "t".into(), title: "x".into(), cycle: 1, info: Some(inf.clone()), ..Default::default() };
        let mut l = Layout::random(&mut r);
        l.algos.retain(|a| *a != Algo::Lzma);
        l.algos.push(Algo::None);
        o.case(clip(&format!("{inf:?}"), 1000));
        let p = cx.path(".root");
        if let Err(e) = std::fs::write(&p, build(&p_lay::file_of(vec![t]), &l).0) {
            return o.error(format!("{p:?}: {e}"));
        }
        match guard(|| RootFile::open(&p).and_then(|mut f| f.get_tree("t"))) {
            Err(e) => o.viol("panic", e.text()),
            Ok(Err(e)) => o.viol("unreadable", e.to_string()),
            Ok(Ok(t)) => {
                metadata(o, &t, &Some(inf), "tree");
                o.seen(i);
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    // trees written by the library
    cx.par("own", cx.n(600, 20_000), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let specs = crate::p_round::random_tree(&mut r, 40, 20, true);
        let p = cx.path(".root");
        o.case(clip(&format!("{:?}", specs.iter().map(|s| &s.name).collect::<Vec<_>>()), 800));
        if let Err(e) = gen::write_specs(&p, &[("t".into(), specs.clone())]) {
            return o.viol("own:write-failed", e);
        }
        let nodes: Vec<Node> = specs
            .iter()
            .map(|s| Node { name: s.name.clone(), class: "TBranch", data: None, zip: None, typed: false, cpp: None, kids: vec![] })
            .collect();
        match crate::io::open_tree(&p, "t") {
            Err(e) => o.viol("own:unreadable", e),
            Ok((_f, t)) => {
                let want: Vec<&String> = specs.iter().map(|s| &s.name).collect();
                let got = names(&t.branches_r());
                o.eval();
                o.check(got.iter().collect::<Vec<_>>() == want, "own:list", || clip(&format!("{got:?} instead of {want:?}"), 900));
                for (k, n) in nodes.iter().enumerate() {
                    o.count("lookups", 1);
                    let b = t.branch(&n.name);
                    o.check(b.is_some_and(|b| std::ptr::eq(b, t.branches_r()[k])), "own:lookup", || format!("{:?}", n.name));
                    for u in [format!("{}x", n.name), format!("x{}", n.name), n.name[..n.name.len() - n.name.chars().last().unwrap().len_utf8()].to_string()] {
                        if !want.contains(&&u) && t.branch(&u).is_some() {
                            o.viol("own:unknown-found", format!("{u:?}"));
                        }
                    }
                }
                metadata(o, &t, &None, "written by the library");
                o.seen((i, nodes.len()));
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    // files of the repository: names and metadata against the independent parser
    cx.seq("real", 1, |_, o| {
        for f in real_files(cx, o) {
            o.case(&f.name);
            let Ok(mut file) = RootFile::open(&f.path) else { continue };
            for t in &f.content.trees {
                let Ok(tree) = file.get_tree(&t.name) else {
                    o.viol("real:unreadable", format!("{} {:?}", f.name, t.name));
                    continue;
                };
                fn walk<'a>(cs: &'a [ColS], out: &mut Vec<&'a str>) {
                    for c in cs {
                        out.push(&c.name);
                        walk(&c.kids, out);
                    }
                }
                let mut want = vec![];
                walk(&t.cols, &mut want);
                let all = tree.branches_r();
                o.eval();
                o.check(names(&all) == want, "real:list", || clip(&format!("{}: {:?} instead of {want:?}", f.name, names(&all)), 900));
                for (k, w) in want.iter().enumerate() {
                    o.count("lookups", 1);
                    // names may be used several times: the first one is found
                    let first = want.iter().position(|x| x == w).unwrap_or(k);
                    let ok = tree.branch(w).is_some_and(|b| all.get(first).is_some_and(|a| std::ptr::eq(*a, b)));
                    o.check(ok, "real:lookup", || format!("{} {w:?}", f.name));
                    o.check(tree.branch(&format!("{w}?")).is_none(), "real:unknown-found", || format!("{} {w:?}", f.name));
                }
                metadata(o, &tree, &t.info, &f.name);
                o.seen((&f.name, &t.name));
            }
        }
    });
}
