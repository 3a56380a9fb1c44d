//! C10: structures and the derive macros.
use crate::cols::*;
use crate::core::*;
use crate::io;
use crate::p_lay::{file_of, make_tree, values, Def};
use crate::rng::Rng;
use crate::shapes::shapes;
use crate::synth::{write_sparse, Chunk, Layout};
use crate::val::{self, Canon, Ct, V};
use oxyroot::{BranchName, ReadFromTree, ReadFromTreeResult, ReaderTree, RootFile, WriteToTree, WriterTree};
use std::path::Path;

/// What a structure holds, leaf by leaf in the order of declaration.
pub trait Node {
    fn leaves(self, o: &mut Vec<V>);
}
impl<T: Canon> Node for T {
    fn leaves(self, o: &mut Vec<V>) {
        o.push(self.canon())
    }
}
pub trait Build {
    fn build(it: &mut dyn Iterator<Item = V>) -> Self;
}
fn bits(v: V) -> u64 {
    match v {
        V::N(x) => x,
        _ => panic!("harness: not a number"),
    }
}
fn list(v: V) -> Vec<V> {
    match v {
        V::L(x) => x,
        _ => panic!("harness: not a list"),
    }
}
macro_rules! build_prim {
    ($($t:ty),*) => { $(
        impl Build for $t { fn build(it: &mut dyn Iterator<Item = V>) -> Self { <$t as Elt>::from_bits(bits(it.next().unwrap())) } }
    )* };
}
build_prim!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool);
impl<T: Elt, const N: usize> Build for [T; N] {
    fn build(it: &mut dyn Iterator<Item = V>) -> Self {
        let l = list(it.next().unwrap());
        std::array::from_fn(|i| T::from_bits(bits(l[i].clone())))
    }
}
impl<T: Elt> Build for Vec<T> {
    fn build(it: &mut dyn Iterator<Item = V>) -> Self {
        list(it.next().unwrap()).into_iter().map(|v| T::from_bits(bits(v))).collect()
    }
}
impl Build for String {
    fn build(it: &mut dyn Iterator<Item = V>) -> Self {
        match it.next() {
            Some(V::S(s)) => s,
            _ => panic!("harness: not a string"),
        }
    }
}

pub fn transpose(rows: Vec<Vec<V>>, n: usize, o: &mut Vec<V>) {
    for k in 0..n {
        o.push(V::L(rows.iter().map(|r| r[k].clone()).collect()));
    }
}

pub type Rows<'a> = Box<dyn Iterator<Item = Vec<V>> + 'a>;

fn row<T: Node>(t: T) -> Vec<V> {
    let mut o = vec![];
    t.leaves(&mut o);
    o
}

pub fn read<'a, T: for<'x> ReadFromTree<'x> + Node + 'static>(t: &'a ReaderTree) -> Result<Rows<'a>, String> {
    Ok(Box::new(T::from_tree(t).map_err(|e| e.to_string())?.map(row)))
}
pub fn read_at<'a, T: for<'x> ReadFromTree<'x> + Node + 'static>(t: &'a ReaderTree, at: &str) -> Result<Rows<'a>, String> {
    let it = T::from_branch_tree(t, BranchName::new().with_name(at)).map_err(|e| e.to_string())?;
    Ok(Box::new(it.map(|v| match v {
        ReadFromTreeResult::OneValue(v) => row(v),
        ReadFromTreeResult::Slice(_) => panic!("a slice instead of one value"),
    })))
}
pub fn write<T: WriteToTree + Build + 'static>(rows: Vec<Vec<V>>, t: &mut WriterTree, at: Option<&str>) -> Result<(), String> {
    let it = rows.into_iter().map(|r| T::build(&mut r.into_iter()));
    match at {
        None => T::to_tree(it, t),
        Some(_) => T::to_branch_tree(it, t, at),
    }
    .map_err(|e| e.to_string())
}

pub struct Shape {
    pub id: &'static str,
    pub depth: usize,
    /// columns of the leaf fields in order of declaration; those of one group have the same
    /// number of elements in an entry
    pub cols: Vec<(&'static str, Ct, usize)>,
    /// names which a wrong rule would give
    pub decoys: Vec<(&'static str, Ct)>,
    pub read: for<'a> fn(&'a ReaderTree) -> Result<Rows<'a>, String>,
    pub read_at: for<'a> fn(&'a ReaderTree, &str) -> Result<Rows<'a>, String>,
    pub write: Option<fn(Vec<Vec<V>>, &mut WriterTree, Option<&str>) -> Result<(), String>>,
}

impl Shape {
    /// Random entries.
    pub fn rows(&self, n: usize, r: &mut Rng) -> Vec<Vec<V>> {
        transposed(&self.data(n, r), n)
    }
    /// Values of every column (n each).
    fn data(&self, n: usize, r: &mut Rng) -> Vec<Vec<V>> {
        self.data_with(n, r, false)
    }
    /// With some entries of many elements in the columns of slices.
    fn data_with(&self, n: usize, r: &mut Rng, long: bool) -> Vec<Vec<V>> {
        let mut out: Vec<Vec<V>> = self.cols.iter().map(|(_, ct, _)| values(ct, n, r)).collect();
        for (k, (_, ct, _)) in self.cols.iter().enumerate() {
            if let (Ct::Sl(p), true) = (ct, long) {
                for v in &mut out[k] {
                    let m = *r.pick(&[0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 33_000, 66_000]);
                    if r.chance(1, 2) {
                        *v = V::L((0..m).map(|_| val::random(&Ct::Pr(*p), r, 1)).collect());
                    }
                }
            }
        }
        for k in 1..self.cols.len() {
            if let (Ct::Sl(p), g) = (&self.cols[k].1, self.cols[k].2) {
                if g == 0 {
                    continue;
                }
                if let Some(first) = (0..k).find(|j| self.cols[*j].2 == g && matches!(self.cols[*j].1, Ct::Sl(_))) {
                    out[k] = out[first]
                        .iter()
                        .map(|v| V::L((0..list(v.clone()).len()).map(|_| val::random(&Ct::Pr(*p), r, 1)).collect()))
                        .collect();
                }
            }
        }
        out
    }
}

fn ty_of(ct: &Ct) -> Option<Ty> {
    Some(match ct {
        Ct::Pr(p) => Ty::Scalar(*p),
        Ct::Arr(p, n) => Ty::Arr(*p, *n),
        Ct::Vc(x) => match **x {
            Ct::Pr(P::Bool) => return None,
            Ct::Pr(p) => Ty::Vec(p),
            _ => return None,
        },
        Ct::S(_) => Ty::Str,
        _ => return None,
    })
}

fn cell(v: V) -> Cell {
    match v {
        V::N(x) => Cell::N(vec![x]),
        V::S(s) => Cell::S(s),
        V::L(l) => Cell::N(l.into_iter().map(bits).collect()),
        _ => panic!("harness: no cell"),
    }
}

fn compare(o: &mut Out, what: &str, cols: &[(&'static str, Ct, usize)], data: &[Vec<V>], n: usize, it: impl Iterator<Item = Vec<V>>) -> bool {
    let mut m = 0;
    for (i, r) in it.take(n + 1).enumerate() {
        m += 1;
        if i >= n {
            break;
        }
        if r.len() != cols.len() {
            o.error(format!("{what}: {} leaves for {} columns", r.len(), cols.len()));
            return false;
        }
        for (k, v) in r.into_iter().enumerate() {
            if v != data[k][i] {
                o.viol("derive-value-differs", format!("{what}: structure {i}, column {:?}: {} instead of {}", cols[k].0, clip(&format!("{v:x?}"), 200), clip(&format!("{:x?}", data[k][i]), 200)));
                return false;
            }
        }
    }
    o.count("structures_compared", m as u64);
    o.check(m == n, "derive-length", || format!("{what}: {} structures instead of {n}", if m > n { "more".to_string() } else { m.to_string() }))
}

fn open(o: &mut Out, path: &Path) -> Option<(RootFile, ReaderTree)> {
    match io::open_tree(path, "t") {
        Ok(x) => Some(x),
        Err(e) => {
            o.viol("derive-reopen", e);
            None
        }
    }
}

/// The columns of a file: names in order, types, values.
fn check_cols(o: &mut Out, t: &ReaderTree, want: &[(String, Ct, Vec<V>)]) -> bool {
    let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
    let w: Vec<String> = want.iter().map(|c| c.0.clone()).collect();
    if !o.check(names == w, "derive-columns", || format!("columns {names:?} instead of {w:?}")) {
        return false;
    }
    for (b, (name, ct, vals)) in t.branches().zip(want) {
        let rd = val::reader(ct).expect("harness: reader");
        if !o.check(b.item_type_name() == ct.cpp(), "derive-column-type", || format!("column {name:?} has the type {} instead of {}", b.item_type_name(), ct.cpp())) {
            return false;
        }
        if !o.check(b.entries() == vals.len() as i64, "derive-column-entries", || format!("column {name:?} has {} entries instead of {}", b.entries(), vals.len())) {
            return false;
        }
        match (rd.iter)(b) {
            Err(e) => {
                o.viol("derive-column-refused", format!("{name:?}: {e}"));
                return false;
            }
            Ok(it) => {
                let got: Vec<V> = it.take(vals.len() + 1).collect();
                if got != *vals {
                    let at = (0..got.len().max(vals.len())).find(|i| got.get(*i) != vals.get(*i)).unwrap();
                    o.viol(
                        "derive-column-value",
                        format!("column {name:?} entry {at}: {} instead of {}", clip(&format!("{:x?}", got.get(at)), 200), clip(&format!("{:x?}", vals.get(at)), 200)),
                    );
                    return false;
                }
            }
        }
        o.eval();
    }
    true
}

fn plain(r: &mut Rng, name: &str, n: usize) -> (String, Ct, Vec<V>) {
    let ct = r
        .pick(&[Ct::Pr(P::I32), Ct::Pr(P::F64), Ct::Arr(P::U8, 3), val::vec_of(Ct::Pr(P::U16)), Ct::S(val::Sk::Chars)])
        .clone();
    let v = values(&ct, n, r);
    (name.into(), ct, v)
}

fn add_plain(t: &mut WriterTree, c: &(String, Ct, Vec<V>)) {
    let cells: Vec<Cell> = c.2.iter().cloned().map(cell).collect();
    io::add_branch_it(t, &c.0, ty_of(&c.1).expect("harness: type"), cells.into_iter());
}

fn transposed(data: &[Vec<V>], n: usize) -> Vec<Vec<V>> {
    (0..n).map(|i| data.iter().map(|c| c[i].clone()).collect()).collect()
}

fn sizes(cx: &Ctx, r: &mut Rng) -> usize {
    *r.pick(&if cx.quick() { vec![0usize, 1, 2, 3, 10, 60] } else { vec![0usize, 1, 2, 3, 10, 60, 400, 1001] })
}

/// Written by the derived writer, with other columns and other structures in the tree.
fn written(cx: &Ctx, o: &mut Out, all: &[Shape], s: &Shape, r: &mut Rng, n: usize) {
    let path = cx.path(".root");
    let mut want = vec![];
    let mut t = WriterTree::new("t");
    let data = s.data(n, r);
    let company = r.chance(1, 2);
    let mut steps = vec![0];
    if company {
        steps.extend([1, 2, 3]);
        r.shuffle(&mut steps);
    }
    // reading the structure: (shape, where, data, n)
    let mut reads: Vec<(&Shape, Option<&str>, Vec<Vec<V>>, usize)> = vec![];
    for st in steps {
        match st {
            0 => {
                if let Err(e) = (s.write.unwrap())(transposed(&data, n), &mut t, None) {
                    o.viol("derive-to-tree", e);
                    return;
                }
                for (k, (name, ct, _)) in s.cols.iter().enumerate() {
                    want.push((name.to_string(), ct.clone(), data[k].clone()));
                }
                reads.push((s, None, data.clone(), n));
            }
            3 => {
                let ws: Vec<&Shape> = all.iter().filter(|s| s.write.is_some()).collect();
                let s2 = *r.pick(&ws);
                let n2 = sizes(cx, r);
                let d2 = s2.data(n2, r);
                if let Err(e) = (s2.write.unwrap())(transposed(&d2, n2), &mut t, Some("other")) {
                    o.viol("derive-to-tree", e);
                    return;
                }
                for (k, (name, ct, _)) in s2.cols.iter().enumerate() {
                    want.push((format!("other.{name}"), ct.clone(), d2[k].clone()));
                }
                reads.push((s2, Some("other"), d2, n2));
            }
            k => {
                let m = sizes(cx, r);
                let c = plain(r, &format!("plain {k}"), m);
                add_plain(&mut t, &c);
                want.push(c);
            }
        }
    }
    o.case(format!("{} n={n} company={company} {:?}", s.id, want.iter().map(|w| (&w.0, w.2.len())).collect::<Vec<_>>()));
    let w = RootFile::create(&path).and_then(|mut f| {
        t.write(&mut f)?;
        f.close()
    });
    if let Err(e) = w {
        o.viol("derive-write", e.to_string());
        return;
    }
    drop(t);
    if let Some((_f, t)) = open(o, &path) {
        if check_cols(o, &t, &want) {
            for (s, at, data, n) in &reads {
                let it = match at {
                    None => (s.read)(&t),
                    Some(p) => (s.read_at)(&t, p),
                };
                match it {
                    Err(e) => o.viol("derive-refused", format!("{} at {at:?}: {e}", s.id)),
                    Ok(it) => {
                        compare(o, s.id, &s.cols, data, *n, it);
                        o.eval();
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    if n > 0 {
        o.seen((s.id, n, company));
    }
}

/// A file with given columns, written by the library where it can or synthesised.
fn file_with(path: &Path, cols: &[(String, Ct, Vec<V>)], synth: bool, r: &mut Rng) -> Result<(), String> {
    if !synth {
        let mut t = WriterTree::new("t");
        for c in cols {
            add_plain(&mut t, c);
        }
        return RootFile::create(path)
            .and_then(|mut f| {
                t.write(&mut f)?;
                f.close()
            })
            .map_err(|e| e.to_string());
    }
    let defs: Vec<Def> = cols
        .iter()
        .map(|c| {
            let mut d = Def::new(&c.0, c.1.clone(), c.2.clone());
            d.member = r.chance(1, 4);
            d
        })
        .collect();
    let (t, _) = make_tree("t", &defs, r);
    let mut l = if r.chance(1, 3) { Layout::plain() } else { Layout::random(r) };
    l.chunk = *r.pick(&[Chunk::All, Chunk::Uni(1, 9), Chunk::Uni(3, 50)]);
    write_sparse(path, &file_of(vec![t]), &l).map(|_| ()).map_err(|e| format!("harness: {e}"))
}

fn wanted(s: &Shape, data: &[Vec<V>]) -> Vec<(String, Ct, Vec<V>)> {
    s.cols.iter().enumerate().map(|(k, (n, ct, _))| (n.to_string(), ct.clone(), data[k].clone())).collect()
}

fn with_decoys(s: &Shape, cols: &mut Vec<(String, Ct, Vec<V>)>, n: usize, synth: bool, r: &mut Rng) {
    let share = r.range(1, 4) as u64;
    for (d, ct) in &s.decoys {
        if r.chance(1, share) && (synth || ty_of(ct).is_some()) {
            cols.push((d.to_string(), ct.clone(), values(ct, n, r)));
        }
    }
    r.shuffle(cols);
}

fn read_back(cx: &Ctx, o: &mut Out, s: &Shape, r: &mut Rng, n: usize, long: bool) {
    let can = s.cols.iter().all(|c| ty_of(&c.1).is_some());
    let synth = !can || r.chance(1, 2);
    let data = s.data_with(n, r, long);
    let mut cols = wanted(s, &data);
    with_decoys(s, &mut cols, n, synth, r);
    o.case(format!("{} n={n} synth={synth} {:?}", s.id, cols.iter().map(|c| &c.0).collect::<Vec<_>>()));
    let path = cx.path(".root");
    if let Err(e) = file_with(&path, &cols, synth, r) {
        o.error(e);
        return;
    }
    if let Some((_f, t)) = open(o, &path) {
        // two readers at the same time, the second one behind the first
        match ((s.read)(&t), (s.read)(&t)) {
            (Ok(a), Ok(b)) => {
                compare(o, s.id, &s.cols, &data, n, a);
                compare(o, s.id, &s.cols, &data, n, b);
                o.evals(2);
                o.sample(format!("{}: {} columns, {} structures", s.id, s.cols.len(), n));
            }
            (Err(e), _) | (_, Err(e)) => o.viol("derive-refused", format!("{}: {e}", s.id)),
        }
    }
    let _ = std::fs::remove_file(&path);
    if n > 0 {
        o.seen((s.id, n, synth, "read"));
    }
}

/// One column missing, or of another type.
fn refused(cx: &Ctx, o: &mut Out, s: &Shape, k: usize, r: &mut Rng) {
    for mistyped in [false, true] {
        let n = *r.pick(&[0usize, 1, 5]);
        let data = s.data(n, r);
        let mut cols = wanted(s, &data);
        let (name, ct, _) = cols.remove(k);
        let mut what = "missing".to_string();
        if mistyped {
            let other = loop {
                let c = val::any(r);
                if c.rust() != ct.rust() && !matches!((&c, &ct), (Ct::S(_), Ct::S(_))) && (!matches!(ct, Ct::Sl(_)) || !matches!(c, Ct::Sl(_))) {
                    break c;
                }
            };
            what = format!("a {} column instead of {}", other.cpp(), ct.cpp());
            let v = values(&other, n, r);
            cols.push((name.clone(), other, v));
        }
        with_decoys(s, &mut cols, n, true, r);
        o.case(format!("{} column {name:?} {what}", s.id));
        let path = cx.path(".root");
        if let Err(e) = file_with(&path, &cols, true, r) {
            o.error(e);
            return;
        }
        if let Some((_f, t)) = open(o, &path) {
            match guard(|| (s.read)(&t).map(|it| it.take(3).count())) {
                Ok(Err(_)) => o.count(if mistyped { "mistyped_refused" } else { "missing_refused" }, 1),
                Ok(Ok(m)) => o.viol("derive-not-refused", format!("{}: column {name:?} is {what}, {m} structures were read", s.id)),
                Err(p) => o.viol("derive-refusal-panics", format!("{}: column {name:?} is {what}: {}", s.id, p.text())),
            }
            o.eval();
            o.seen((s.id, k, mistyped, "refused"));
        }
        let _ = std::fs::remove_file(&path);
    }
}

pub fn c10(cx: &Ctx) {
    cx.set_rule("one case = a structure of a fixed family (flat, nested to depth 9, attributes of every kind) and a sequence of values: written by the derived writer and every column compared by name, type and value and read by the derived reader, or stored in columns of the documented names among columns of similar names and read by the derived reader, or with one column missing or of another type; non-trivial = at least one structure in the sequence, or a refusal");
    cx.assume("the structures are a fixed, generated family (tools/gen_shapes.py): procedural macros run when the check is compiled");
    let all = shapes();
    let r0 = cx.rng("c10");
    let ws: Vec<&Shape> = all.iter().filter(|s| s.write.is_some()).collect();
    cx.par("written", ws.len() * cx.n(40, 600), |i, o| {
        let mut r = r0.fork(i);
        let n = sizes(cx, &mut r);
        written(cx, o, &all, ws[i as usize % ws.len()], &mut r, n);
    });
    cx.par("long", ws.len() * cx.n(1, 6), |i, o| {
        let mut r = r0.fork(10_000_000 + i);
        let s = ws[i as usize % ws.len()];
        let n = 60_000 / s.cols.len().max(4);
        written(cx, o, &all, s, &mut r, n);
    });
    cx.par("read", all.len() * cx.n(30, 500), |i, o| {
        let mut r = r0.fork(20_000_000 + i);
        let n = sizes(cx, &mut r);
        read_back(cx, o, &all[i as usize % all.len()], &mut r, n, false);
    });
    // long columns, and entries of many elements
    cx.par("read-long", all.len() * cx.n(1, 6), |i, o| {
        let mut r = r0.fork(40_000_000 + i);
        let s = &all[i as usize % all.len()];
        read_back(cx, o, s, &mut r, 20_000 / s.cols.len().max(4), false);
    });
    let sliced: Vec<&Shape> = all.iter().filter(|s| s.cols.iter().any(|c| matches!(c.1, Ct::Sl(_)))).collect();
    cx.par("long-slices", sliced.len() * cx.n(3, 40), |i, o| {
        let mut r = r0.fork(50_000_000 + i);
        let n = r.range(1, 12);
        read_back(cx, o, sliced[i as usize % sliced.len()], &mut r, n, true);
    });
    let leaves: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(a, s)| (0..s.cols.len()).map(move |k| (a, k))).collect();
    cx.par("refused", leaves.len() * cx.n(3, 60), |i, o| {
        let mut r = r0.fork(30_000_000 + i);
        let (a, k) = leaves[i as usize % leaves.len()];
        refused(cx, o, &all[a], k, &mut r);
    });
    o_shapes(cx, &all);
}

fn o_shapes(cx: &Ctx, all: &[Shape]) {
    cx.seq("family", 1, |_, o| {
        o.eval();
        o.count("structures_in_family", all.len() as u64);
        o.count("leaf_fields_in_family", all.iter().map(|s| s.cols.len() as u64).sum());
        o.count("deepest_structure", all.iter().map(|s| s.depth as u64).max().unwrap_or(0));
    });
}
