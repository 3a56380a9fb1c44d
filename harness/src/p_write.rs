//! C11: when providers are polled, callbacks called and items released while a tree is written.
use crate::alloc;
use crate::cols::*;
use crate::core::*;
use crate::gen::{any_type, Len, Spec};
use crate::io;
use crate::rng::Rng;
use oxyroot::{ReadFromTree, RootFile, StateCallBack, WriteToTree, WriterTree};
use std::cell::{Cell as StdCell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    /// item i of the source was handed out
    Item(usize, usize),
    /// the source reported its end
    End(usize),
    /// the source was polled after its end
    Again(usize),
    Before(usize),
    Branch(usize, String),
    After(usize),
    /// the source was dropped
    Drop(usize),
}

type Log = Rc<RefCell<Vec<Ev>>>;

/// A provider that reports what is done to it. It is not fused: it yields again after its end.
struct Probe<T> {
    id: usize,
    i: usize,
    n: usize,
    ended: bool,
    hint: (usize, Option<usize>),
    log: Log,
    f: Box<dyn FnMut(usize) -> T>,
}

impl<T> Probe<T> {
    fn new(id: usize, n: usize, r: &mut Rng, log: &Log, f: impl FnMut(usize) -> T + 'static) -> Self {
        let hint = match r.below(3) {
            0 => (0, None),
            1 => (usize::MAX, Some(usize::MAX)), // exact
            _ => (1, Some(2)),                   // loose bounds
        };
        Probe { id, i: 0, n, ended: false, hint, log: log.clone(), f: Box::new(f) }
    }
}
impl<T> Iterator for Probe<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            self.log.borrow_mut().push(Ev::Again(self.id));
            return Some((self.f)(0));
        }
        if self.i == self.n {
            self.ended = true;
            self.log.borrow_mut().push(Ev::End(self.id));
            return None;
        }
        self.log.borrow_mut().push(Ev::Item(self.id, self.i));
        self.i += 1;
        Some((self.f)(self.i - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.n - self.i;
        match self.hint {
            (0, None) => (0, None),
            (1, _) => (left / 2, Some(left * 2 + 10)),
            _ => (left, Some(left)),
        }
    }
}
impl<T> Drop for Probe<T> {
    fn drop(&mut self) {
        self.log.borrow_mut().push(Ev::Drop(self.id));
    }
}

#[derive(Debug, Clone, PartialEq, WriteToTree, oxyroot::ReadFromTree)]
struct Flat {
    fa: i32,
    fs: String,
}
#[derive(Debug, Clone, PartialEq, WriteToTree, oxyroot::ReadFromTree)]
struct Mid {
    mx: f64,
    inner: Flat,
    mv: Vec<u16>,
}
#[derive(Debug, Clone, PartialEq, WriteToTree, oxyroot::ReadFromTree)]
struct Deep {
    d0: Mid,
    d1: [u8; 3],
    d2: Flat,
}

fn flat(seed: u64, i: usize) -> Flat {
    let mut r = Rng::new(seed).fork(i as u64);
    Flat { fa: r.next() as i32, fs: crate::gen::string_of(&mut r, i % 7) }
}
fn mid(seed: u64, i: usize) -> Mid {
    let mut r = Rng::new(seed ^ 1).fork(i as u64);
    Mid { mx: i as f64 + 0.5, inner: flat(seed ^ 2, i), mv: (0..i % 5).map(|_| r.next() as u16).collect() }
}
fn deep(seed: u64, i: usize) -> Deep {
    Deep { d0: mid(seed ^ 3, i), d1: [i as u8, (i >> 8) as u8, 7], d2: flat(seed ^ 4, i) }
}
const DERIVED: [(&str, &[&str]); 3] = [
    ("Flat", &["fa", "fs"]),
    ("Mid", &["mx", "inner.fa", "inner.fs", "mv"]),
    ("Deep", &["d0.mx", "d0.inner.fa", "d0.inner.fs", "d0.mv", "d1", "d2.fa", "d2.fs"]),
];

#[derive(Clone, Debug)]
enum Act {
    Col(Spec),
    Call,
    /// kind, rows, seed
    Derived(usize, usize, u64),
}

struct Plan {
    acts: Vec<Act>,
    log: Log,
    /// registration order: user callback or derived source
    cbs: Vec<Cb>,
    cols: Vec<(String, Option<usize>)>,
    lens: Vec<usize>,
    names: Vec<String>,
}
enum Cb {
    User(usize),
    Source(usize),
}

fn plan(r: &mut Rng, max_cols: usize, max_n: usize) -> Vec<Act> {
    let mut acts = vec![];
    let nc = r.range(0, max_cols);
    let mut have = [false; 3];
    for k in 0..nc {
        if r.chance(1, 3) {
            acts.push(Act::Call);
        }
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => max_n,
            _ => r.range(0, max_n),
        };
        if r.chance(1, 5) {
            let kind = r.below(3) as usize;
            // the three structures share leaf names only below different prefixes, except Flat
            if !have[kind] {
                have[kind] = true;
                acts.push(Act::Derived(kind, n, r.next()));
                continue;
            }
        }
        let mut s = Spec::new(&format!("c{k}"), any_type(r), n, r.next());
        if r.chance(1, 6) {
            // blocks are flushed while the other columns are in the middle of theirs
            s = s.len(Len::Uni(0, if r.chance(1, 2) { 40 } else { 3000 }));
        }
        acts.push(Act::Col(s));
    }
    if r.chance(1, 3) {
        acts.push(Act::Call);
    }
    acts
}

impl Plan {
    /// Fill a tree; nothing may have been polled when this returns.
    fn build(acts: Vec<Act>, t: &mut WriterTree, r: &mut Rng, o: &mut Out) -> Result<Plan, String> {
        let log: Log = Default::default();
        let mut p = Plan { acts: acts.clone(), log: log.clone(), cbs: vec![], cols: vec![], lens: vec![], names: vec![] };
        let mut users = 0;
        for a in &acts {
            let id = p.lens.len();
            match a {
                Act::Col(s) => {
                    let sp = s.clone();
                    let pr = Probe::new(id, s.n, r, &log, move |i| sp.at(i));
                    io::add_branch_it(t, &s.name, s.ty, pr);
                    p.cols.push((s.name.clone(), Some(id)));
                    p.lens.push(s.n);
                    p.names.push(s.desc());
                }
                Act::Call => {
                    let (k, l) = (users, log.clone());
                    users += 1;
                    t.add_callback(Box::new(move |s: StateCallBack| {
                        l.borrow_mut().push(match s {
                            StateCallBack::Before => Ev::Before(k),
                            StateCallBack::Branch(n) => Ev::Branch(k, n),
                            StateCallBack::After => Ev::After(k),
                        })
                    }));
                    p.cbs.push(Cb::User(k));
                }
                Act::Derived(kind, n, seed) => {
                    let (n, seed) = (*n, *seed);
                    // a derived structure under a prefix, or at the top
                    let e = match kind {
                        0 => Flat::to_tree(Probe::new(id, n, r, &log, move |i| flat(seed, i)), t),
                        1 => Mid::to_tree(Probe::new(id, n, r, &log, move |i| mid(seed, i)), t),
                        _ => Deep::to_tree(Probe::new(id, n, r, &log, move |i| deep(seed, i)), t),
                    };
                    e.map_err(|e| e.to_string())?;
                    for c in DERIVED[*kind].1 {
                        p.cols.push((c.to_string(), None));
                    }
                    p.cbs.push(Cb::Source(id));
                    p.lens.push(n);
                    p.names.push(format!("{} n={n}", DERIVED[*kind].0));
                }
            }
            o.check(log.borrow().is_empty(), "polled-before-write", || {
                format!("creating {a:?} already caused {:?}", log.borrow())
            });
        }
        Ok(p)
    }
    fn rounds(&self) -> usize {
        self.lens.iter().copied().max().unwrap_or(0)
    }
    /// The events of write(); without the callbacks of the round in which everything has ended
    /// when `bare`.
    fn expected(&self, bare: bool) -> Vec<Ev> {
        let n = self.rounds();
        let mut v = vec![];
        let poll = |v: &mut Vec<Ev>, id: usize, r: usize| {
            if r < self.lens[id] {
                v.push(Ev::Item(id, r))
            } else if r == self.lens[id] {
                v.push(Ev::End(id))
            }
        };
        for r in 0..=n {
            let quiet = bare && r == n;
            for c in &self.cbs {
                match c {
                    Cb::User(k) if !quiet => v.push(Ev::Before(*k)),
                    Cb::User(_) => {}
                    Cb::Source(id) => poll(&mut v, *id, r),
                }
            }
            for (name, src) in &self.cols {
                for c in &self.cbs {
                    if let (Cb::User(k), false) = (c, quiet) {
                        v.push(Ev::Branch(*k, name.clone()));
                    }
                }
                if let Some(id) = src {
                    poll(&mut v, *id, r);
                }
            }
        }
        v
    }
    fn desc(&self) -> String {
        let mut s = String::new();
        let mut k = 0;
        for a in &self.acts {
            match a {
                Act::Call => s.push_str("[callback] "),
                _ => {
                    s.push_str(&format!("[{k}: {}] ", clip(&self.names[k], 100)));
                    k += 1;
                }
            }
        }
        s
    }
    fn check_events(&self, o: &mut Out) {
        let got: Vec<Ev> =
            self.log.borrow().iter().filter(|e| !matches!(e, Ev::After(_) | Ev::Drop(_))).cloned().collect();
        o.eval();
        o.count("events observed", got.len() as u64);
        o.count("rounds", self.rounds() as u64 + 1);
        for (kind, n) in [
            ("items handed out", got.iter().filter(|e| matches!(e, Ev::Item(..))).count()),
            ("callback calls", got.iter().filter(|e| matches!(e, Ev::Before(..) | Ev::Branch(..))).count()),
        ] {
            o.count(kind, n as u64);
        }
        let want = self.expected(false);
        if got == want || got == self.expected(true) {
            return;
        }
        if let Some(a) = got.iter().find(|e| matches!(e, Ev::Again(_))) {
            o.viol("polled-after-end", format!("{a:?} in {}", self.desc()));
            return;
        }
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let around = |v: &[Ev]| format!("{:?}", &v[k.saturating_sub(3).min(v.len())..(k + 3).min(v.len())]);
        o.viol(
            "schedule",
            format!(
                "event {k} of {} (expected {}): observed …{}… expected …{}… for {}",
                got.len(),
                want.len(),
                around(&got),
                around(&want),
                self.desc()
            ),
        );
    }
    fn check_drops(&self, o: &mut Out) {
        for id in 0..self.lens.len() {
            let n = self.log.borrow().iter().filter(|e| **e == Ev::Drop(id)).count();
            o.check(n == 1, "provider-not-released-once", || {
                format!("provider {} was dropped {n} times once the tree was gone: {}", self.names[id], self.desc())
            });
        }
    }
    fn check_content(&self, t: &oxyroot::ReaderTree, o: &mut Out) {
        o.check(t.entries() == self.rounds() as i64, "entries", || {
            format!("tree.entries() = {} after {} rounds: {}", t.entries(), self.rounds(), self.desc())
        });
        let names: Vec<String> = t.branches().map(|b| b.name().to_string()).collect();
        let want: Vec<String> = self.cols.iter().map(|c| c.0.clone()).collect();
        o.check(names == want, "columns", || format!("columns {names:?}, created {want:?}"));
        for a in &self.acts {
            match a {
                Act::Col(s) => {
                    let Some(b) = t.branch(&s.name) else {
                        o.viol("column-missing", s.desc());
                        continue;
                    };
                    o.eval();
                    if let Err((sig, e)) = s.compare(b) {
                        o.viol(format!("stored-{sig}"), format!("{}: {e}", s.desc()));
                    }
                }
                Act::Call => {}
                Act::Derived(kind, n, seed) => {
                    let (n, seed) = (*n, *seed);
                    o.eval();
                    let r: Result<bool, String> = (|| {
                        Ok(match kind {
                            0 => Flat::from_tree(t).map_err(|e| e.to_string())?.eq((0..n).map(|i| flat(seed, i))),
                            1 => Mid::from_tree(t).map_err(|e| e.to_string())?.eq((0..n).map(|i| mid(seed, i))),
                            _ => Deep::from_tree(t).map_err(|e| e.to_string())?.eq((0..n).map(|i| deep(seed, i))),
                        })
                    })();
                    if r != Ok(true) {
                        o.viol("stored-structure-differs", format!("{} n={n}: {r:?} in {}", DERIVED[*kind].0, self.desc()));
                    }
                }
            }
        }
    }
}

fn one(cx: &Ctx, o: &mut Out, r: &mut Rng, ntrees: usize, max_cols: usize, max_n: usize) {
    let path = cx.path(".root");
    let all: Vec<Vec<Act>> = (0..ntrees).map(|_| plan(r, max_cols, max_n)).collect();
    o.case(format!("{all:?}").chars().take(3000).collect::<String>());
    let res: Result<(), String> = (|| {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut v = vec![];
        for (k, a) in all.into_iter().enumerate() {
            let mut t = WriterTree::new(format!("t{k}"));
            let p = Plan::build(a, &mut t, r, o)?;
            v.push((k, p, t));
        }
        // written in any order; some never
        r.shuffle(&mut v);
        let keep = if ntrees > 1 && r.chance(1, 3) { v.len() - 1 } else { v.len() };
        let mut done = vec![];
        for (j, (k, p, mut t)) in v.into_iter().enumerate() {
            if j < keep {
                t.write(&mut f).map_err(|e| e.to_string())?;
                p.check_events(o);
                o.seen((
                    p.cols.len().min(6),
                    p.cbs.len().min(4),
                    p.rounds().min(3),
                    p.lens.iter().filter(|l| **l == p.rounds()).count().min(3),
                    p.acts.iter().map(|a| matches!(a, Act::Derived(..)) as u8).sum::<u8>(),
                ));
                drop(t);
                done.push((k, p));
            } else {
                drop(t);
                let polled = p.log.borrow().iter().filter(|e| !matches!(e, Ev::Drop(_))).count();
                o.eval();
                o.check(polled == 0, "polled-without-write", || format!("{:?}", p.log.borrow()));
                o.count("trees dropped without being written", 1);
                p.check_drops(o);
                continue;
            }
            done.last().unwrap().1.check_drops(o);
        }
        f.close().map_err(|e| e.to_string())?;
        let mut f = RootFile::open(&path).map_err(|e| e.to_string())?;
        for (k, p) in &done {
            let t = f.get_tree(&format!("t{k}")).map_err(|e| e.to_string())?;
            p.check_content(&t, o);
            if o.samples.is_empty() {
                o.sample(format!("{} events: {}", p.log.borrow().len(), clip(&p.desc(), 300)));
            }
        }
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("write-failed", e);
    }
    let _ = std::fs::remove_file(&path);
}

/// Providers drawing from one generator: the columns hold it in turn.
fn shared(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let path = cx.path(".root");
    let (k, n) = (r.range(1, 9), r.range(0, 6000));
    let big = r.chance(1, 2);
    o.case(format!("{k} columns drawing {n} entries in turn from one generator, big={big}"));
    let src = Rc::new(StdCell::new(0u64));
    let res: Result<(), String> = (|| {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("t");
        for c in 0..k {
            let s = src.clone();
            if big && c == 0 {
                // a wide column: flushed more often than its neighbours
                t.new_branch(
                    format!("c{c}"),
                    (0..n).map(move |_| {
                        let v = s.get();
                        s.set(v + 1);
                        std::array::from_fn::<u64, 32, _>(|j| v + ((j as u64) << 40))
                    }),
                );
            } else {
                t.new_branch(
                    format!("c{c}"),
                    (0..n).map(move |_| {
                        let v = s.get();
                        s.set(v + 1);
                        v
                    }),
                );
            }
        }
        o.check(src.get() == 0, "polled-before-write", || format!("the generator is at {}", src.get()));
        t.write(&mut f).map_err(|e| e.to_string())?;
        o.check(src.get() == (k * n) as u64, "not-exactly-once", || {
            format!("{} values were drawn for {k} × {n} entries", src.get())
        });
        f.close().map_err(|e| e.to_string())?;
        let mut f = RootFile::open(&path).map_err(|e| e.to_string())?;
        let t = f.get_tree("t").map_err(|e| e.to_string())?;
        for c in 0..k {
            o.eval();
            let b = t.branch(&format!("c{c}")).ok_or("column missing")?;
            let got: Vec<u64> = if big && c == 0 {
                b.as_iter::<[u64; 32]>().map_err(|e| e.to_string())?.map(|a| a[0]).collect()
            } else {
                b.as_iter::<u64>().map_err(|e| e.to_string())?.collect()
            };
            let want: Vec<u64> = (0..n).map(|i| (i * k + c) as u64).collect();
            let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            o.check(got == want, "not-in-step", || {
                format!("column {c}: {} entries; at {d}: {:?}, in step it is {:?}", got.len(), got.get(d), want.get(d))
            });
        }
        o.seen(("shared", k, n.min(2), big));
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("write-failed", e);
    }
    let _ = std::fs::remove_file(&path);
}

/// Memory of the items is given back as they are stored.
fn release(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let path = cx.path(".root");
    let kind = r.below(4);
    let size = *r.pick(&[100usize, 3000, 40_000, 300_000]);
    let n = (60_000_000 / size / (1 + r.below(3) as usize)).min(20_000);
    let ncol = if size > 10_000 { r.range(1, 3) } else { 1 };
    let n = n / ncol;
    let derived = r.chance(1, 3);
    o.case(format!("release: kind={kind} size={size} n={n} columns={ncol} derived={derived}"));
    let start = alloc::live();
    let worst = Rc::new(StdCell::new(0i64));
    let early = Rc::new(StdCell::new(0i64));
    let res: Result<(), String> = (|| {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("t");
        let base = alloc::live();
        let (w, e, mut k) = (worst.clone(), early.clone(), 0usize);
        t.add_callback(Box::new(move |s: StateCallBack| {
            if let StateCallBack::Before = s {
                let v = alloc::live() - base;
                k += 1;
                if k <= 1 + n / 20 {
                    e.set(e.get().max(v));
                } else {
                    w.set(w.get().max(v));
                }
            }
        }));
        for c in 0..ncol {
            let name = format!("c{c}");
            match kind {
                _ if derived => Flat::to_branch_tree(
                    (0..n).map(move |i| Flat { fa: i as i32, fs: "x".repeat(size) }),
                    &mut t,
                    Some(&name),
                )
                .map_err(|e| e.to_string())?,
                0 => t.new_branch(&name, (0..n).map(move |i| "y".repeat(size - i % 2))),
                1 => t.new_branch(&name, (0..n).map(move |i| vec![i as u64; size / 8])),
                2 => t.new_branch(&name, (0..n).map(move |i| vec![i as i16; size / 2])),
                _ => t.new_branch(&name, (0..n).map(move |i| [i as f64; 31])),
            }
        }
        t.write(&mut f).map_err(|e| e.to_string())?;
        drop(t);
        f.close().map_err(|e| e.to_string())?;
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("write-failed", e);
    }
    let total = std::fs::metadata(&path).map(|m| m.len() as i64).unwrap_or(0);
    o.evals(n as u64);
    o.count("bytes handed over", total as u64);
    // early growth: buffers and one block per column; later growth: tables only
    let allowed = early.get() + 1_000_000 + 4 * ncol as i64 * size as i64;
    o.check(worst.get() <= allowed, "items-not-released", || {
        format!(
            "live heap before an entry grew to {} bytes over the course of writing {total} bytes ({} in the first entries)",
            worst.get(),
            early.get()
        )
    });
    o.eval();
    let left = alloc::live() - start;
    o.check(left < 200_000, "items-leaked", || format!("{left} bytes are still allocated after the tree and the file are gone"));
    o.seen(("release", kind, size, ncol, derived));
    o.sample(format!("{total} bytes written, live heap at most {} (first entries: {})", worst.get(), early.get()));
    let _ = std::fs::remove_file(&path);
}

pub fn c11(cx: &Ctx) {
    cx.set_rule("a case is a tree with instrumented providers, callbacks and derived structures; distinct = combinations of number of columns, callbacks, rounds, longest columns and structures; in 'shared' and 'release', of their parameters");
    cx.assume("the schedule is that of the documentation of WriterTree::write: for each entry every callback with Before in the order of registration (a derived structure takes its row there), then for each column in the order of creation every callback with Branch(name), then the item of the column; the callbacks of the last round, in which every provider has ended, may be absent");
    cx.assume("items are of the types the crate can write, since Marshaler cannot be implemented outside it: their release is observed through the allocator");
    let g = cx.rng("schedule");
    cx.par("schedule", cx.n(20_000, 400_000), |i, o| {
        let mut r = g.fork(i);
        let (t, c, n) = match i % 10 {
            0 => (1, 3, 3),
            1 => (r.range(2, 4), 4, 5),
            2 => (1, 40, 20),
            3 => (2, 8, 300),
            _ => (1, 7, 12),
        };
        one(cx, o, &mut r, t, c, n)
    });
    let g = cx.rng("long");
    cx.par("long", cx.n(300, 10_000), |i, o| {
        let mut r = g.fork(i);
        let n = r.range(1000, 20_000);
        one(cx, o, &mut r, 1, 3, n)
    });
    let g = cx.rng("shared");
    cx.par("shared", cx.n(400, 20_000), |i, o| shared(cx, o, &mut g.fork(i)));
    let g = cx.rng("release");
    cx.par("release", cx.n(200, 4000), |i, o| release(cx, o, &mut g.fork(i)));
}
