//! C13: many iterators at once, in any order of operations, from any number of threads.
use crate::cols::*;
use crate::core::*;
use crate::gen::{any_type, write_specs, Len, Spec};
use crate::io;
use crate::obs;
use crate::p_lay::{self, REAL};
use crate::rng::Rng;
use crate::synth::{build, Chunk, Layout};
use crate::val::{self, Ct, Sk, V};
use oxyroot::{Branch, ReadFromTree, ReaderTree, RootFile};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// A column: how to read it and what a single pass yields.
struct ColRef {
    name: String,
    data: Data,
}
enum Data {
    Spec(Spec),
    /// a column of a file of the repository, by its position in branches_r
    Real(usize, String, Vec<V>),
}

impl ColRef {
    fn n(&self) -> usize {
        match &self.data {
            Data::Spec(s) => s.n,
            Data::Real(_, _, v) => v.len(),
        }
    }
    fn at(&self, i: usize) -> V {
        match &self.data {
            Data::Spec(s) => lift(s.at(i), s.ty),
            Data::Real(_, _, v) => v[i].clone(),
        }
    }
    fn find<'a>(&self, t: &'a ReaderTree) -> Option<&'a Branch> {
        match &self.data {
            Data::Spec(_) => t.branch(&self.name),
            Data::Real(k, _, _) => t.branches_r().into_iter().nth(*k),
        }
    }
    /// mode 0: checked, 1: unchecked, 2: a closure of the user
    fn iter<'a>(&self, b: &'a Branch, mode: usize) -> Result<Box<dyn Iterator<Item = V> + 'a>, String> {
        match &self.data {
            Data::Spec(s) => {
                let ty = s.ty;
                match mode {
                    0 => Ok(Box::new(io::read_iter(b, ty)?.map(move |c| lift(c, ty)))),
                    1 => Ok(unchecked(b, ty)),
                    _ => Ok(closure(b, ty)),
                }
            }
            Data::Real(_, cpp, _) => {
                let rd = val::parse(cpp).and_then(|t| val::reader(&t)).ok_or("harness: no reader")?;
                if mode == 0 {
                    (rd.iter)(b)
                } else {
                    Ok((rd.unchecked)(b))
                }
            }
        }
    }
}

fn lift(c: Cell, ty: Ty) -> V {
    match (c, ty) {
        (Cell::S(s), _) => V::S(s),
        (Cell::N(v), Ty::Scalar(_)) => V::N(v[0]),
        (Cell::N(v), _) => V::L(v.into_iter().map(V::N).collect()),
    }
}

fn unchecked<'a>(b: &'a Branch, ty: Ty) -> Box<dyn Iterator<Item = V> + 'a> {
    let f = |v: Vec<u64>| V::L(v.into_iter().map(V::N).collect());
    match ty {
        Ty::Scalar(p) => crate::with_prim!(p, T => Box::new(b.as_iter_unchecked::<T>().map(|v| V::N(v.bits())))),
        Ty::Arr(p, n) => crate::with_prim!(p, T => crate::with_n!(n, N => Box::new(
            b.as_iter_unchecked::<[T; N]>().map(move |v| f(v.iter().map(|e| e.bits()).collect()))))),
        Ty::Vec(p) => crate::with_prim!(p, T => Box::new(
            b.as_iter_unchecked::<Vec<T>>().map(move |v| f(v.iter().map(|e| e.bits()).collect())))),
        Ty::Str => Box::new(b.as_iter_unchecked::<String>().map(V::S)),
    }
}

/// The same through get_basket, with a closure that keeps its own state.
fn closure<'a>(b: &'a Branch, ty: Ty) -> Box<dyn Iterator<Item = V> + 'a> {
    let mut calls = 0u64;
    Box::new(b.get_basket(move |r| {
        calls += 1;
        match ty {
            Ty::Scalar(p) => crate::with_prim!(p, T => V::N(r.read_object_into::<T>().unwrap().bits())),
            Ty::Arr(p, n) => V::L((0..n).map(|_| crate::with_prim!(p, T => V::N(r.read_object_into::<T>().unwrap().bits()))).collect()),
            Ty::Vec(p) => {
                r.do_skip_header().unwrap();
                let n = r.read_i32().unwrap();
                V::L((0..n).map(|_| crate::with_prim!(p, T => V::N(r.read_object_into::<T>().unwrap().bits()))).collect())
            }
            Ty::Str => V::S(r.read_object_into::<String>().unwrap()),
        }
    }))
}

#[derive(oxyroot::ReadFromTree)]
struct Pair {
    d0: i32,
    d1: String,
}

struct FileRef {
    path: PathBuf,
    trees: Vec<(String, Vec<ColRef>)>,
    /// a tree with the columns of Pair
    pair: Option<(String, Spec, Spec)>,
}

/// Files with the same names, and where `same` the same layout, but other values.
fn make_files(cx: &Ctx, r: &mut Rng, k: usize, max_n: usize) -> Result<Vec<FileRef>, String> {
    let ntree = r.range(1, 2);
    let mut plan = vec![];
    for t in 0..ntree {
        let n = *r.pick(&[0, 1, 7, max_n / 4, max_n, max_n]);
        let mut cols = vec![];
        for c in 0..r.range(1, 5) {
            let mut ty = any_type(r);
            if r.chance(1, 4) {
                // nothing in the layout tells the files apart
                ty = Ty::Arr(*r.pick(&[P::I64, P::F64]), 31);
            }
            let m = if r.chance(1, 3) { r.range(0, max_n) } else { n };
            let len = match r.below(3) {
                0 => Len::Fix(r.range(0, 60)),
                1 => Len::Uni(0, 80),
                _ => Len::Rare { short: 4, long: 9000, every: 50 },
            };
            cols.push((format!("c{c}"), ty, m, len));
        }
        plan.push((format!("t{t}"), cols));
    }
    let pair_n = if r.chance(1, 2) { Some(r.range(0, max_n)) } else { None };
    let mut v = vec![];
    for _ in 0..k {
        let path = cx.path(".root");
        let mut out = vec![];
        for (t, cols) in &plan {
            let specs: Vec<Spec> = cols.iter().map(|(n, ty, m, l)| Spec::new(n, *ty, *m, r.next()).len(*l)).collect();
            out.push((t.clone(), specs));
        }
        let pair = pair_n.map(|n| {
            (
                "pair".to_string(),
                Spec::new("d0", Ty::Scalar(P::I32), n, r.next()),
                Spec::new("d1", Ty::Str, n, r.next()).len(Len::Uni(0, 40)),
            )
        });
        if let Some((t, a, b)) = &pair {
            out.push((t.clone(), vec![a.clone(), b.clone()]));
        }
        write_specs(&path, &out)?;
        v.push(FileRef {
            path,
            trees: out
                .into_iter()
                .map(|(t, s)| (t, s.into_iter().map(|s| ColRef { name: s.name.clone(), data: Data::Spec(s) }).collect()))
                .collect(),
            pair,
        });
    }
    Ok(v)
}

/// Trees which iterators borrow from while more are being opened.
struct Arena(Vec<*mut ReaderTree>);
impl Arena {
    fn add(&mut self, t: ReaderTree) -> &'static ReaderTree {
        let p = Box::into_raw(Box::new(t));
        self.0.push(p);
        unsafe { &*p }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.drain(..) {
            unsafe { drop(Box::from_raw(p)) }
        }
    }
}

struct Live<'a> {
    file: usize,
    tree: usize,
    /// None: rows of Pair
    col: Option<usize>,
    mode: usize,
    pos: usize,
    ended: bool,
    it: Box<dyn Iterator<Item = V> + 'a>,
    id: usize,
}

fn expect(f: &[FileRef], l: &Live, i: usize) -> Option<V> {
    match l.col {
        Some(c) => {
            let c = &f[l.file].trees[l.tree].1[c];
            (i < c.n()).then(|| c.at(i))
        }
        None => {
            let (_, a, b) = f[l.file].pair.as_ref().unwrap();
            (i < a.n).then(|| V::L(vec![lift(a.at(i), a.ty), lift(b.at(i), b.ty)]))
        }
    }
}

fn pair_iter<'a>(t: &'a ReaderTree) -> Result<Box<dyn Iterator<Item = V> + 'a>, String> {
    Ok(Box::new(
        Pair::from_tree(t)
            .map_err(|e| e.to_string())?
            .map(|p| V::L(vec![V::N(p.d0 as u32 as u64), V::S(p.d1)])),
    ))
}

static WRITES: AtomicU64 = AtomicU64::new(0);

fn write_other(cx: &Ctx, r: &mut Rng) -> Result<(), String> {
    let p = cx.path(".root");
    let cols: Vec<Spec> = (0..r.range(1, 3)).map(|k| Spec::new(&format!("c{k}"), any_type(r), r.range(0, 400), r.next())).collect();
    let e = write_specs(&p, &[("t0".into(), cols)]);
    let _ = std::fs::remove_file(&p);
    WRITES.fetch_add(1, Ordering::Relaxed);
    e
}

/// One thread: a random schedule of operations on many iterators over the given files.
fn schedule(cx: &Ctx, o: &mut Out, r: &mut Rng, files: &[FileRef], steps: usize, yields: bool) -> Result<(), String> {
    let mut arena = Arena(vec![]);
    // several handles of the same file
    let mut handles: Vec<(usize, RootFile)> = vec![];
    let mut trees: Vec<(usize, usize, &'static ReaderTree)> = vec![];
    for (k, f) in files.iter().enumerate() {
        for _ in 0..r.range(1, 2) {
            handles.push((k, RootFile::open(&f.path).map_err(|e| format!("open: {e}"))?));
        }
    }
    let mut live: Vec<Live> = vec![];
    let mut trace: Vec<u32> = vec![];
    let mut ids = 0;
    let max_live = *r.pick(&[2usize, 4, 24]);
    for step in 0..steps {
        if yields && r.chance(1, 8) {
            if r.chance(1, 40) {
                std::thread::sleep(std::time::Duration::from_micros(r.below(300)));
            } else {
                std::thread::yield_now();
            }
        }
        let what = if live.is_empty() { 0 } else { r.below(20) };
        match what {
            0..=2 if live.len() < max_live => {
                // a new iterator, on a tree looked up before or now
                if trees.is_empty() || (trees.len() < 10 && r.chance(1, 6)) {
                    let h = r.below(handles.len() as u64) as usize;
                    if r.chance(1, 5) {
                        // a new handle, closed at once: the tree stays usable
                        let k = handles[h].0;
                        let mut f = RootFile::open(&files[k].path).map_err(|e| format!("open: {e}"))?;
                        let ti = r.below(files[k].trees.len() as u64) as usize;
                        let t = f.get_tree(&files[k].trees[ti].0).map_err(|e| format!("get_tree: {e}"))?;
                        trees.push((k, ti, arena.add(t)));
                    } else {
                        let (k, f) = &mut handles[h];
                        let ti = r.below(files[*k].trees.len() as u64) as usize;
                        let t = f.get_tree(&files[*k].trees[ti].0).map_err(|e| format!("get_tree: {e}"))?;
                        trees.push((*k, ti, arena.add(t)));
                    }
                    o.count("trees opened", 1);
                }
                let (k, ti, t) = *r.pick(&trees);
                let cols = &files[k].trees[ti].1;
                if cols.is_empty() {
                    continue;
                }
                let pair = files[k].pair.as_ref().is_some_and(|p| p.0 == files[k].trees[ti].0) && r.chance(1, 2);
                let (col, mode, it) = if pair {
                    (None, 0, pair_iter(t)?)
                } else {
                    let c = r.below(cols.len() as u64) as usize;
                    let mode = r.below(3) as usize;
                    let b = cols[c].find(t).ok_or_else(|| format!("no column {}", cols[c].name))?;
                    (Some(c), mode, cols[c].iter(b, mode)?)
                };
                trace.push(1000 + (k * 100 + ti * 10 + col.unwrap_or(9)) as u32);
                live.push(Live { file: k, tree: ti, col, mode, pos: 0, ended: false, it, id: ids });
                ids += 1;
                o.count("iterators", 1);
            }
            3 => {
                // dropped wherever it is
                let l = live.swap_remove(r.below(live.len() as u64) as usize);
                if !l.ended {
                    o.count("iterators dropped early", 1);
                }
                trace.push(2000 + l.id as u32);
            }
            4 => {
                // the size announced covers what is left
                let l = &live[r.below(live.len() as u64) as usize];
                let (lo, hi) = l.it.size_hint();
                let mut left = 0;
                let n = match l.col {
                    Some(c) => files[l.file].trees[l.tree].1[c].n(),
                    None => files[l.file].pair.as_ref().unwrap().1.n,
                };
                if !l.ended {
                    left = n - l.pos;
                }
                o.eval();
                o.check(lo <= left && hi.map_or(true, |h| left <= h), "size-hint", || {
                    format!("size_hint {:?} with {left} items left", (lo, hi))
                });
            }
            5 if r.chance(1, 6) => {
                // something else is written meanwhile
                write_other(cx, r)?;
            }
            6 if r.chance(1, 3) => {
                // looking at the tree does not disturb what is being read
                let (k, ti, t) = *r.pick(&trees);
                let n = t.branches_r().len() + t.branches().count();
                let _ = t.entries();
                for (j, c) in files[k].trees[ti].1.iter().enumerate() {
                    if let Data::Spec(_) = c.data {
                        let b = t.branch(&c.name).ok_or_else(|| format!("no column {}", c.name))?;
                        o.eval();
                        o.check(b.entries() == c.n() as i64, "entries", || format!("column {j}: {} of {}", b.entries(), c.n()));
                    }
                }
                o.count("lookups", n as u64);
            }
            _ => {
                let k = r.below(live.len() as u64) as usize;
                let l = &mut live[k];
                trace.push(l.id as u32);
                let n = match r.below(8) {
                    0 => r.range(1, 300),
                    1 => usize::MAX,
                    _ => r.range(1, 6),
                };
                let skip = if r.chance(1, 10) { r.range(0, 40) } else { 0 };
                for j in 0..n {
                    let from = l.pos;
                    let got = if j == 0 && skip > 0 {
                        l.pos += skip;
                        l.it.nth(skip)
                    } else {
                        l.it.next()
                    };
                    let want = if l.ended { None } else { expect(files, l, l.pos) };
                    o.evals += 1;
                    if got != want {
                        let place = match l.col {
                            Some(c) => format!("column {:?}", files[l.file].trees[l.tree].1[c].name),
                            None => "rows".into(),
                        };
                        let (got, want) = (clip(&format!("{got:x?}"), 300), clip(&format!("{want:x?}"), 300));
                        o.viol(
                            if want == "None" { "item-after-the-end" } else if got == "None" { "ended-early" } else { "item" },
                            format!(
                                "step {step}: iterator {} (file {} tree {} {place} mode {}) at {from}, nth({}): {got} instead of {want}; last steps {:?}",
                                l.id,
                                l.file,
                                l.tree,
                                l.mode,
                                l.pos - from,
                                &trace[trace.len().saturating_sub(12)..]
                            ),
                        );
                        return Ok(());
                    }
                    if got.is_none() {
                        l.ended = true;
                        o.count("ends seen", 1);
                        for _ in 0..3 {
                            if let Some(v) = l.it.next() {
                                o.viol("item-after-the-end", format!("iterator {} (file {} tree {}) gave {} after its end", l.id, l.file, l.tree, clip(&format!("{v:x?}"), 200)));
                                return Ok(());
                            }
                        }
                        break;
                    }
                    l.pos += 1;
                    if l.pos > 200_000_000 {
                        break;
                    }
                }
            }
        }
        if step + 1 == steps || r.chance(1, 300) {
            // handles may go while iterators live
            if handles.len() > 1 && r.chance(1, 2) {
                let k = r.below(handles.len() as u64) as usize;
                handles.swap_remove(k);
            }
        }
    }
    o.count("schedule steps", steps as u64);
    o.count("switches between iterators", trace.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    o.seen(&trace);
    drop(live);
    Ok(())
}

fn run_one(cx: &Ctx, o: &mut Out, r: &mut Rng, nfiles: usize, max_n: usize, steps: usize) {
    let res = (|| {
        let files = make_files(cx, r, nfiles, max_n)?;
        let desc: Vec<String> = files
            .iter()
            .map(|f| {
                f.trees
                    .iter()
                    .map(|(t, c)| {
                        format!(
                            "{t}({})",
                            c.iter().map(|c| if let Data::Spec(s) = &c.data { format!("{} n={}", s.ty.label(), s.n) } else { c.name.clone() }).collect::<Vec<_>>().join(", ")
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect();
        o.case(format!("{nfiles} files of {} ; {steps} steps", desc[0]));
        let e = schedule(cx, o, r, &files, steps, false);
        o.sample(format!("{nfiles} files of {}; {steps} steps", clip(&desc[0], 200)));
        for f in &files {
            let _ = std::fs::remove_file(&f.path);
        }
        e
    })();
    if let Err(e) = res {
        o.viol("refused", e);
    }
}

/// A file with blocks of very different sizes: entries larger than a block, blocks of thousands of entries.
fn uneven_file(cx: &Ctx, r: &mut Rng) -> Result<FileRef, String> {
    let path = cx.path(".root");
    if r.chance(1, 2) {
        let n = r.range(2, 1200);
        let cols: Vec<Spec> = (0..r.range(1, 2))
            .map(|c| {
                let ty = match r.below(4) {
                    0 => Ty::Str,
                    1 => Ty::Vec(*r.pick(&[P::U8, P::I16])),
                    2 => Ty::Vec(*r.pick(&[P::F64, P::U32])),
                    _ => Ty::Str,
                };
                let long = *r.pick(&[3_000usize, 20_000, 33_000, 40_000, 66_000, 70_000, 140_000]) / if let Ty::Vec(p) = ty { p.size() } else { 1 };
                let short = r.range(0, 60);
                let len = if r.chance(1, 2) { Len::Spike { short, long, at: r.range(0, n - 1) } } else { Len::Rare { short, long, every: n / r.range(2, 4) + 1 } };
                Spec::new(&format!("c{c}"), ty, n, r.next()).len(len)
            })
            .collect();
        let trees = vec![("t".to_string(), cols)];
        write_specs(&path, &trees)?;
        let trees = trees.into_iter().map(|(t, s)| (t, s.into_iter().map(|s| ColRef { name: s.name.clone(), data: Data::Spec(s) }).collect())).collect();
        return Ok(FileRef { path, trees, pair: None });
    }
    let fs = if r.chance(1, 2) {
        p_lay::random_content(r).0
    } else {
        let n = r.range(1, 15_000);
        let defs: Vec<p_lay::Def> = (0..r.range(1, 3))
            .map(|c| {
                let ct = match r.below(4) {
                    0 => Ct::Pr(*r.pick(&[P::I8, P::I32, P::F64])),
                    1 => Ct::Arr(P::I64, 3),
                    2 => Ct::S(Sk::Chars),
                    _ => Ct::Vc(Box::new(Ct::Pr(P::U16))),
                };
                p_lay::Def::new(&format!("c{c}"), ct.clone(), (0..n).map(|_| val::random(&ct, r, 4)).collect())
            })
            .collect();
        p_lay::file_of(vec![p_lay::make_tree("t", &defs, r).0])
    };
    let mut l = Layout::random(r);
    if r.chance(1, 2) {
        l.chunk = Chunk::Uni(1, *r.pick(&[3, 500, 20_000]));
    }
    std::fs::write(&path, build(&fs, &l).0).map_err(|e| format!("harness: {e}"))?;
    sample_ref(&path).ok_or_else(|| "nothing readable in a generated file".into())
}

/// A few iterators over the same column (and perhaps another of the tree) in step, at a distance,
/// in bursts, or one after the other.
fn twins(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let res: Result<(), String> = (|| {
        let f = match uneven_file(cx, r) {
            Err(e) if e.starts_with("nothing readable") => return Ok(()),
            x => x?,
        };
        let ti = r.below(f.trees.len() as u64) as usize;
        let (tname, cols) = &f.trees[ti];
        if cols.is_empty() {
            return Ok(());
        }
        let mut h = RootFile::open(&f.path).map_err(|e| format!("open: {e}"))?;
        let t = h.get_tree(tname).map_err(|e| format!("get_tree: {e}"))?;
        for round in 0..2 {
            let k = r.range(2, 4);
            let main = r.below(cols.len() as u64) as usize;
            let which: Vec<usize> = (0..k).map(|_| if r.chance(1, 4) { r.below(cols.len() as u64) as usize } else { main }).collect();
            let mut its = vec![];
            for c in &which {
                let c = &cols[*c];
                let b = c.find(&t).ok_or_else(|| format!("no column {}", c.name))?;
                its.push((c, 0usize, false, c.iter(b, r.below(3) as usize)?));
            }
            let pattern = *r.pick(&["in step", "at a distance", "bursts", "one after the other", "jumping"]);
            let lag = r.range(1, 400);
            o.case(format!("{} iterators over {:?} of {} ({pattern})", k, cols[main].name, f.path.display()));
            let most = cols.iter().map(|c| c.n()).max().unwrap_or(0);
            let mut left = 4 * (most + 8) * k;
            let mut turn = 0;
            let mut burst = 0;
            while its.iter().any(|i| !i.2) && left > 0 {
                left -= 1;
                let j = match pattern {
                    "in step" => { turn += 1; turn % k }
                    "at a distance" => {
                        turn += 1;
                        if turn < lag { 0 } else { turn % k }
                    }
                    "one after the other" => its.iter().position(|i| !i.2).unwrap(),
                    _ => {
                        if burst == 0 {
                            turn = r.below(k as u64) as usize;
                            burst = r.range(1, 200);
                        }
                        burst -= 1;
                        turn
                    }
                };
                let (c, pos, end, it) = &mut its[j];
                if *end {
                    burst = 0;
                    if let Some(v) = it.next() {
                        o.viol("item-after-the-end", format!("iterator {j} of {pattern} over {:?}: {}", c.name, clip(&format!("{v:x?}"), 200)));
                        return Ok(());
                    }
                    continue;
                }
                if pattern == "jumping" && r.chance(1, 3) {
                    let s = r.range(0, 60);
                    *pos += s;
                    if it.nth(s) != (*pos < c.n()).then(|| c.at(*pos)) {
                        o.viol("item", format!("round {round}, iterator {j} of {pattern} over {:?} ({} items): nth({s}) to {pos}", c.name, c.n()));
                        return Ok(());
                    }
                } else {
                    let got = it.next();
                    let want = (*pos < c.n()).then(|| c.at(*pos));
                    if got != want {
                        o.viol("item", format!("round {round}, iterator {j} of {k} {pattern} over {:?} ({} items) at {pos}: {} instead of {}", c.name, c.n(), clip(&format!("{got:x?}"), 200), clip(&format!("{want:x?}"), 200)));
                        return Ok(());
                    }
                }
                o.evals += 1;
                if *pos >= c.n() {
                    *end = true;
                    o.count("ends seen", 1);
                }
                *pos += 1;
            }
            o.count(&format!("iterators over one column {pattern}"), k as u64);
            o.seen((pattern, which, most, lag));
        }
        let _ = std::fs::remove_file(&f.path);
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("refused", e);
    }
}

/// Threads reading the same files, each with its own handles, while others write.
fn threads(cx: &Ctx, o: &mut Out, r: &mut Rng, nthreads: usize, steps: usize) {
    let res: Result<(), String> = (|| {
        let files = make_files(cx, r, 2, 3000)?;
        o.case(format!("{nthreads} threads on 2 files, {steps} steps each"));
        let outs: Vec<Out> = std::thread::scope(|s| {
            let gate = std::sync::Arc::new(std::sync::Barrier::new(nthreads));
            let hs: Vec<_> = (0..nthreads)
                .map(|t| {
                    let (files, gate, mut r) = (&files, gate.clone(), r.fork(t as u64 + 77));
                    s.spawn(move || {
                        let mut o = Out::default();
                        o.case(format!("thread {t}"));
                        gate.wait();
                        let e = guard(|| {
                            if t % 4 == 3 {
                                for _ in 0..6 {
                                    write_other(cx, &mut r)?;
                                    o.evals(1);
                                }
                                Ok(())
                            } else {
                                schedule(cx, &mut o, &mut r, files, steps, true)
                            }
                        });
                        match e {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => o.viol("refused", e),
                            Err(p) if p.in_harness() => o.error(p.text()),
                            Err(p) => o.viol(format!("panic:{}", short(&p.file)), p.text()),
                        }
                        o
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        });
        for t in outs {
            o.evals += t.evals;
            o.keys.extend(t.keys);
            for (k, n) in t.counters {
                o.count(&k, n);
            }
            for v in t.viols {
                o.viol(v.sig, v.detail);
            }
            for e in t.errors {
                o.error(e);
            }
        }
        o.count("threads", nthreads as u64);
        for f in &files {
            let _ = std::fs::remove_file(&f.path);
        }
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("refused", e);
    }
}

/// The files of the repository: every kind of branch and container.
fn sample_ref(path: &Path) -> Option<FileRef> {
    let obs = obs::observe(path, 100_000).ok()?;
    let mut trees = vec![];
    for t in obs {
        let cols: Vec<ColRef> = t
            .cols
            .into_iter()
            .enumerate()
            .filter_map(|(k, c)| match c.data {
                obs::Data::Values(v) if v.len() < 20_000 => Some(ColRef { name: c.name, data: Data::Real(k, c.cpp, v) }),
                _ => None,
            })
            .collect();
        if !cols.is_empty() {
            trees.push((t.name, cols));
        }
    }
    (!trees.is_empty()).then(|| FileRef { path: path.to_path_buf(), trees, pair: None })
}

pub fn c13(cx: &Ctx) {
    cx.set_rule("distinct = schedules (the sequence in which iterators are created, advanced and dropped), by hash");
    cx.assume("threads do not share handles: RootFile and ReaderTree are used by the thread which opened them");
    cx.assume("for the files of the repository the reference is an uninterrupted pass of the library itself, whose values C05 to C09, C20 and C21 decide");
    let real: Vec<FileRef> = REAL.iter().filter_map(|p| sample_ref(&cx.repo.join(p))).collect();
    let g = cx.rng("small");
    cx.par("small", cx.n(3000, 200_000), |i, o| {
        let mut r = g.fork(i);
        let (f, n, s) = (r.range(1, 3), *r.pick(&[3, 40, 300]), r.range(20, 300));
        run_one(cx, o, &mut r, f, n, s)
    });
    let g = cx.rng("large");
    cx.par("large", cx.n(200, 10_000), |i, o| {
        let mut r = g.fork(i);
        run_one(cx, o, &mut r, 2, 9000, 600)
    });
    let g = cx.rng("twins");
    cx.par("twins", cx.n(700, 40_000), |i, o| twins(cx, o, &mut g.fork(i)));
    let g = cx.rng("samples");
    cx.par("samples", cx.n(400, 40_000), |i, o| {
        let mut r = g.fork(i);
        if real.is_empty() {
            return;
        }
        // some at once
        let k = r.range(1, 4);
        let mut idx: Vec<usize> = (0..real.len()).collect();
        r.shuffle(&mut idx);
        let names: Vec<String> = idx.iter().take(k).map(|i| real[*i].path.display().to_string()).collect();
        o.case(format!("{names:?}"));
        let files: Vec<FileRef> = idx.iter().take(k).map(|i| clone_real(&real[*i])).collect();
        if let Err(e) = schedule(cx, o, &mut r, &files, 150, false) {
            o.viol("refused", e);
        }
        o.sample(format!("{names:?}"));
    });
    let g = cx.rng("threads");
    cx.par_n("threads", cx.n(40, 2000), 2, |i, o| {
        let mut r = g.fork(i);
        let n = *r.pick(&[2usize, 4, 8, 12]);
        threads(cx, o, &mut r, n, 250)
    });
}

fn clone_real(f: &FileRef) -> FileRef {
    FileRef {
        path: f.path.clone(),
        trees: f
            .trees
            .iter()
            .map(|(t, c)| {
                (
                    t.clone(),
                    c.iter()
                        .map(|c| ColRef {
                            name: c.name.clone(),
                            data: match &c.data {
                                Data::Spec(s) => Data::Spec(s.clone()),
                                Data::Real(k, s, v) => Data::Real(*k, s.clone(), v.clone()),
                            },
                        })
                        .collect(),
                )
            })
            .collect(),
        pair: None,
    }
}
