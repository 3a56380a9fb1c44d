//! C22: bounded memory, descriptors released, no side effects.
//!
//! Monitors: the counting allocator (live and peak bytes of the thread), /proc/self/fd (the
//! descriptors of the file under test), the system calls on files (sys.rs), and snapshots of
//! the files around.
use crate::alloc;
use crate::cols::*;
use crate::core::*;
use crate::gen::{self, any_type, write_specs, Len, Spec};
use crate::io;
use crate::p_bad::listing;
use crate::p_lay;
use crate::rng::Rng;
use crate::rootfmt as rf;
use crate::synth::*;
use crate::sys::{self, Ev, Fault, Kind, Tap};
use crate::val;
use oxyroot::{RootFile, WriterTree};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

const CONST: i64 = 3 << 20;

/// Descriptors of this process which refer to `p`.
fn fds(p: &Path) -> usize {
    let Ok(d) = std::fs::read_dir("/proc/self/fd") else { return 0 };
    d.flatten().filter(|e| std::fs::read_link(e.path()).is_ok_and(|l| l == p || l.to_string_lossy() == format!("{} (deleted)", p.display()))).count()
}

/// Peak of the live bytes above those at the start, and those left.
fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let s = alloc::live();
    alloc::reset();
    let t = f();
    let (p, l) = (alloc::peak() - s, alloc::live() - s);
    (t, p, l)
}

/// Like measure; what stays allocated is the least of three times, as caches which live as
/// long as the thread (regular expressions) are filled by the first.
fn measure_kept<T>(limit: i64, mut f: impl FnMut() -> T) -> (T, i64, i64) {
    let mut last = measure(&mut f);
    for _ in 0..2 {
        if last.2 <= limit {
            break;
        }
        drop(last.0);
        last = measure(&mut f);
    }
    last
}

/// Data blocks of a column, as the independent parser sees them.
#[derive(Default, Clone, Copy, Debug)]
struct Blocks {
    n: i64,
    /// largest content, in bytes, uncompressed
    big: i64,
    /// largest number of entries of a block
    entries: i64,
    total: i64,
}

fn blocks_of(f: &rf::File, b: &rf::BranchM) -> Blocks {
    let mut k = Blocks::default();
    for (i, s) in b.basket_seek.iter().enumerate() {
        let Some(r) = f.rec_at(*s) else { continue };
        k.n += 1;
        k.big = k.big.max(r.objlen as i64 + r.nbytes as i64);
        k.total += r.objlen as i64;
        if i + 1 < b.basket_entry.len() {
            k.entries = k.entries.max(b.basket_entry[i + 1] - b.basket_entry[i]);
        }
    }
    for e in &b.emb {
        k.n += 1;
        k.big = k.big.max(e.buf.len() as i64);
        k.entries = k.entries.max(e.nev as i64);
    }
    // entries of the last block
    k.entries = k.entries.max(b.entries - b.basket_entry.iter().rev().find(|e| **e > 0 && **e < b.entries).copied().unwrap_or(0));
    k
}

/// Memory for a few blocks and the tables.
fn allowed_reading(k: &Blocks, item: i64) -> i64 {
    12 * k.big + 160 * k.entries + 64 * k.n + 24 * item + (256 << 10)
}

// ---------------------------------------------------------------- memory

/// Columns whose size grows: memory for writing and reading must not.
fn growth(cx: &Ctx, o: &mut Out, r: &mut Rng, max_bytes: usize) {
    let nc = *r.pick(&[1usize, 1, 2, 4, 10]);
    let tys: Vec<Ty> = (0..nc).map(|_| any_type(r)).collect();
    let lens: Vec<Len> = (0..nc)
        .map(|_| match r.below(4) {
            0 => Len::Fix(*r.pick(&[0usize, 1, 7, 100])),
            1 => Len::Rare { short: 4, long: r.range(100, 60_000), every: r.range(50, 1000) },
            2 => Len::Uni(0, 300),
            _ => Len::Uni(0, 12),
        })
        .collect();
    let row: usize = tys
        .iter()
        .zip(&lens)
        .map(|(t, l)| match t {
            Ty::Scalar(p) => p.size(),
            Ty::Arr(p, n) => p.size() * n,
            Ty::Vec(p) => 10 + p.size() * mean(l),
            Ty::Str => 2 + mean(l),
        })
        .sum();
    let big_n = (max_bytes / row.max(1)).clamp(10, 3_000_000);
    let seed = r.next();
    let mut peaks = vec![];
    o.case(format!("growth: {:?} up to {big_n} entries of about {row} bytes", tys.iter().zip(&lens).map(|(t, l)| format!("{} {l:?}", t.label())).collect::<Vec<_>>()));
    for n in [big_n / 8, big_n] {
        let specs: Vec<Spec> = (0..nc).map(|c| Spec::new(&format!("c{c}"), tys[c], n, seed ^ c as u64).len(lens[c])).collect();
        let p = cx.path(".root");
        let (w, peak, left) = measure_kept(100_000, || guard(|| write_specs(&p, &[("t".into(), specs.clone())])));
        o.eval();
        match w {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return o.viol("write-failed", e),
            Err(e) => return o.viol("panic-write", e.text()),
        }
        let m = match std::fs::read(&p).map_err(|e| e.to_string()).and_then(rf::File::parse) {
            Ok(m) => m,
            Err(e) => return o.viol("written-file", e),
        };
        let t = match m.tree_named("t") {
            Ok(t) => t,
            Err(e) => return o.viol("written-file", e),
        };
        let ks: Vec<(Blocks, i64)> = t.branches.iter().zip(&specs).map(|(b, s)| (blocks_of(&m, b), item_size(s))).collect();
        let total: i64 = ks.iter().map(|k| k.0.total).sum();
        let nb: i64 = ks.iter().map(|k| k.0.n).sum();
        // a block being filled, its table and its copy for every column; the tables of the tree
        let allowed: i64 = CONST + 400 * nb + ks.iter().map(|(k, i)| 8 * k.big.max(33_000) + 24 * i + 40 * k.entries).sum::<i64>();
        o.check(peak <= allowed, "memory-writing", || format!("{peak} bytes at the peak of writing {total} bytes in {nb} blocks of {nc} columns: {allowed} are in proportion"));
        o.check(left <= 100_000, "memory-kept-writing", || format!("{left} bytes still allocated after writing {total} bytes"));
        peaks.push((peak, total, nb));
        o.count("bytes written", total as u64);
        // reading: every column alone
        let path = p.clone();
        let len = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0) as i64;
        drop(m);
        let (res, peak, left) = measure_kept(100_000, || {
            guard(|| {
                let (f, t) = io::open_tree(&path, "t")?;
                let mut v = vec![];
                for s in &specs {
                    let b = t.branch(&s.name).ok_or("no column")?;
                    let ((c, mid), peak, left) = measure_kept(20_000, || {
                        let mut c = 0usize;
                        let mut it = io::read_iter(b, s.ty).ok()?;
                        let mut mid = 0;
                        let start = alloc::live();
                        while it.next().is_some() {
                            c += 1;
                            if c.is_multiple_of(97) {
                                mid = mid.max(alloc::live() - start);
                            }
                        }
                        Some((c, mid))
                    })
                    .pipe();
                    v.push((c, peak, left, mid));
                }
                drop((f, t));
                Ok::<_, String>(v)
            })
        });
        o.eval();
        match res {
            Err(e) => o.viol("panic-read", e.text()),
            Ok(Err(e)) => o.viol("unreadable", e),
            Ok(Ok(v)) => {
                for ((s, (k, item)), (c, peak, left, mid)) in specs.iter().zip(&ks).zip(v) {
                    o.check(c == n, "entries", || format!("{}: {c} entries read", s.desc()));
                    let a = allowed_reading(k, *item);
                    o.check(peak <= a && mid <= a, "memory-reading", || format!("{}: {peak} bytes at the peak of reading {} bytes in {} blocks (largest {}, {} entries): {a} are in proportion", s.desc(), k.total, k.n, k.big, k.entries));
                    o.check(left <= 20_000, "memory-kept-iterator", || format!("{}: {left} bytes still allocated after the iterator is gone", s.desc()));
                    o.count("bytes read", k.total as u64);
                    o.seen((s.ty.label(), k.n, k.entries));
                    o.sample(clip(&format!("{}: {} bytes in {} blocks, peak {peak}, live between entries at most {mid}, allowed {a}", s.ty.label(), k.total, k.n), 200));
                }
            }
        }
        let a = CONST + 8 * (len - total) + ks.iter().map(|(k, i)| allowed_reading(k, *i)).max().unwrap_or(0);
        o.check(peak <= a, "memory-open", || format!("{peak} bytes at the peak of opening and reading a file with {} bytes besides the data: {a} are in proportion", len - total));
        o.check(left <= 100_000, "memory-kept-reading", || format!("{left} bytes still allocated after the file and the tree are gone"));
        let _ = std::fs::remove_file(&p);
    }
    if let [(a, _, na), (b, tb, nb)] = peaks[..] {
        // eight times the data: only the tables may grow, and what a rare large entry takes
        let items: i64 = (0..nc).map(|c| item_size(&Spec::new("x", tys[c], 1, 0).len(lens[c]))).sum();
        let allowed = a + 400 * (nb - na) + 16 * items + (400 << 10) + 200_000 * nc as i64;
        o.check(b <= allowed, "memory-growth", || format!("writing eight times the data ({tb} bytes) takes {b} bytes instead of {a}"));
    }
}

trait Pipe {
    type O;
    fn pipe(self) -> Self::O;
}
impl Pipe for (Option<(usize, i64)>, i64, i64) {
    type O = ((usize, i64), i64, i64);
    fn pipe(self) -> Self::O {
        (self.0.unwrap_or((usize::MAX, 0)), self.1, self.2)
    }
}

fn mean(l: &Len) -> usize {
    match *l {
        Len::Fix(n) => n,
        Len::Uni(a, b) => (a + b) / 2,
        Len::Rare { short, long, every } => short / 2 + long / every,
        _ => 50,
    }
}

/// Largest entry, in bytes.
fn item_size(s: &Spec) -> i64 {
    let l = match s.len {
        Len::Fix(n) => n,
        Len::Uni(_, b) => b,
        Len::Rare { long, .. } => long,
        _ => 1000,
    };
    (match s.ty {
        Ty::Scalar(p) => p.size(),
        Ty::Arr(p, n) => p.size() * n,
        Ty::Vec(p) => 10 + p.size() * l,
        Ty::Str => 6 + l,
    }) as i64
}

/// Files of other makes: many layouts, compressed, jagged.
fn layouts(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let n = *r.pick(&[100usize, 1000, 4000]);
    let defs = p_lay::random_defs(r, 4, n);
    let (t, e) = p_lay::make_tree("t", &defs, r);
    let mut l = Layout::plain();
    l.seed = r.next();
    l.chunk = *r.pick(&[Chunk::Uni(1, 20), Chunk::Uni(20, 60), Chunk::Each, Chunk::Holes(5, 40)]);
    l.algos = vec![*r.pick(&[Algo::None, Algo::Zlib, Algo::Lz4])];
    l.embed = r.below(2);
    let d = build(&p_lay::file_of(vec![t]), &l).0;
    let p = cx.path(".root");
    std::fs::write(&p, &d).expect("harness: scratch file");
    o.case(format!("layouts: {n} entries, {:?} {:?} {:?}", e.cols.iter().map(|c| c.ct.cpp()).collect::<Vec<_>>(), l.chunk, l.algos));
    let m = match rf::File::parse(d).and_then(|m| m.tree_named("t").map(|t| (m, t))) {
        Ok(m) => m,
        Err(x) => return o.error(x),
    };
    let all = m.1.all();
    let ks: Vec<Blocks> = all.iter().map(|b| blocks_of(&m.0, b)).collect();
    let res = guard(|| {
        let (f, t) = io::open_tree(&p, "t")?;
        for (x, k) in e.cols.iter().zip(&ks) {
            let Some(rd) = val::reader(&x.ct) else { continue };
            let b = t.branch(&x.name).ok_or("no column")?;
            // the values themselves are not kept
            let mut n = 0usize;
            let (r, peak, left) = measure_kept(20_000, || (rd.iter)(b).map(|it| n = it.count()));
            r?;
            o.eval();
            o.check(n == x.vals.len(), "entries", || format!("{}: {n} entries", x.ct.cpp()));
            let item = (8 * k.big).max(1000);
            let a = allowed_reading(k, item);
            o.check(peak <= a, "memory-reading", || format!("{}: {peak} bytes at the peak of reading {} bytes in {} blocks (largest {}, {} entries): {a} are in proportion", x.ct.cpp(), k.total, k.n, k.big, k.entries));
            o.check(left <= 20_000, "memory-kept-iterator", || format!("{}: {left} bytes still allocated after the iterator is gone", x.ct.cpp()));
            o.seen((x.ct.cpp(), k.n));
        }
        // all at the same time, stopped anywhere
        let (_, peak, left) = measure_kept(40_000, || {
            let mut its: Vec<_> = e.cols.iter().filter_map(|x| (val::reader(&x.ct)?.iter)(t.branch(&x.name)?).ok()).collect();
            for k in 0..n / 2 {
                for it in its.iter_mut() {
                    let _ = it.next();
                }
                if k % 64 == 0 && fds(&p) > 8 {
                    break;
                }
            }
        });
        o.eval();
        let a: i64 = ks.iter().map(|k| allowed_reading(k, (8 * k.big).max(1000))).sum();
        o.check(peak <= a, "memory-together", || format!("{peak} bytes at the peak of reading all columns together: {a} are in proportion"));
        o.check(left <= 40_000, "memory-kept-together", || format!("{left} bytes still allocated after unfinished iterators are gone"));
        drop((f, t));
        Ok::<_, String>(())
    });
    match res {
        Err(x) => o.viol("panic-read", x.text()),
        Ok(Err(x)) => o.viol("unreadable", x),
        Ok(Ok(())) => {}
    }
    let _ = std::fs::remove_file(&p);
}

// ---------------------------------------------------------------- descriptors, repetition

fn any_file(cx: &Ctx, r: &mut Rng) -> PathBuf {
    let p = cx.path(".root");
    let (fs, _) = p_lay::random_content(r);
    let mut l = Layout::random(r);
    l.algos.retain(|a| *a != Algo::Lzma);
    l.algos.push(Algo::None);
    l.far = 0;
    std::fs::write(&p, build(&fs, &l).0).expect("harness: scratch file");
    p
}

/// One use of a file, of many kinds; whatever happens, everything is gone afterwards.
fn use_file(p: &Path, kind: u64, r: &mut Rng, most: &mut usize) {
    let _ = guard(|| {
        let Ok(mut f) = RootFile::open(p) else { return };
        *most = (*most).max(fds(p));
        if kind == 1 {
            return;
        }
        let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        let mut trees = vec![];
        for n in &names {
            if let Ok(Ok(t)) = guard(|| f.get_tree(n)) {
                trees.push(t);
            }
        }
        let _ = guard(|| f.get_tree("no such tree").is_ok());
        if kind == 2 {
            // the trees outlive the file
            drop(f);
        }
        for t in &trees {
            let brs = t.branches_r();
            let mut its = vec![];
            for b in brs {
                let cpp = guard(|| b.item_type_name()).unwrap_or_default();
                if let Some(rd) = val::parse(&cpp).and_then(|t| val::reader(&t)) {
                    for _ in 0..1 + (kind == 3) as usize * 3 {
                        if let Ok(Ok(it)) = guard(|| (rd.iter)(b)) {
                            its.push(it);
                        }
                    }
                }
            }
            let stop = if kind == 4 { r.range(0, 3) } else { 10_000 };
            let mut k = 0;
            while !its.is_empty() && k < stop {
                its.retain_mut(|it| matches!(guard(|| it.next().is_some()), Ok(true)));
                if k < 3 {
                    *most = (*most).max(fds(p));
                }
                k += 1;
            }
            if kind == 5 {
                panic!("while iterators are alive");
            }
        }
    });
}

fn repeat(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let p = any_file(cx, r);
    let kind = i % 8;
    if kind == 6 {
        // cannot be opened
        let d = std::fs::read(&p).unwrap();
        let n = r.range(0, d.len() - 1);
        std::fs::write(&p, &d[..n]).unwrap();
    } else if kind == 7 {
        let mut d = std::fs::read(&p).unwrap();
        for _ in 0..r.range(1, 30) {
            let at = r.below(d.len() as u64) as usize;
            d[at] ^= 1 << r.below(8);
        }
        std::fs::write(&p, &d).unwrap();
    }
    o.case(format!("repeat: kind {kind}"));
    let seed = r.next();
    let mut at = vec![];
    let mut most = 0;
    for _ in 0..8 {
        use_file(&p, kind, &mut Rng::new(seed), &mut most);
        at.push(alloc::live());
        o.eval();
        let left = fds(&p);
        if !o.check(left == 0, "descriptors-kept", || format!("kind {kind}: {left} descriptors after everything is dropped")) {
            break;
        }
    }
    o.check(most <= 8, "descriptors-many", || format!("kind {kind}: {most} descriptors for one open file"));
    o.count("descriptors at most", 0);
    let rep = (at.len() - 3) as i64;
    let grown = at[at.len() - 1] - at[2];
    // panics leave a message behind here and there: only what grows with each repetition
    o.check(grown < 4000 * rep, "memory-kept-repeating", || format!("kind {kind}: {grown} bytes more after {rep} repetitions: {at:?}"));
    o.seen((kind, i));
    let _ = std::fs::remove_file(&p);
}

/// Writing: descriptors, also when it fails or is given up.
fn writing(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let p = cx.path(".root");
    let kind = i % 5;
    let specs: Vec<Spec> = (0..r.range(1, 5)).map(|c| Spec::new(&format!("c{c}"), any_type(r), *r.pick(&[0usize, 10, 20_000]), r.next())).collect();
    o.case(format!("writing: kind {kind} {:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    let mut at = vec![];
    for k in 0..5u64 {
        let mut tap = Tap::default();
        if kind == 3 {
            tap.fault = Some(Fault { at: r.below(20), kind: Kind::Errno(libc::ENOSPC), lasting: r.chance(1, 2) });
        }
        let mut most = 0;
        let r = sys::tapped(&mut tap, || {
            guard(|| {
                let mut f = RootFile::create(&p).map_err(|e| e.to_string())?;
                most = most.max(fds(&p));
                let mut t = WriterTree::new("t");
                for s in &specs {
                    s.add_to(&mut t);
                }
                match kind {
                    // given up before, or after, writing the tree
                    1 => return Ok(()),
                    2 => {
                        t.write(&mut f).map_err(|e| e.to_string())?;
                        return Ok(());
                    }
                    4 => {
                        t.new_branch("bad", (0..100i32).inspect(|i| assert!(*i < 50, "the provider panics")));
                    }
                    _ => {}
                }
                t.write(&mut f).map_err(|e| e.to_string())?;
                f.close().map_err(|e| e.to_string())?;
                most = most.max(fds(&p));
                Ok::<_, String>(())
            })
        });
        o.eval();
        if kind == 0 {
            o.check(matches!(r, Ok(Ok(()))), "write-failed", || format!("{:?}", r.as_ref().map_err(|e| e.text())));
        }
        drop(r);
        drop(tap);
        at.push(alloc::live());
        let left = fds(&p);
        o.check(left == 0, "descriptors-kept-writing", || format!("kind {kind}, repetition {k}: {left} descriptors after everything is dropped"));
        o.check(most <= 4, "descriptors-many-writing", || format!("kind {kind}: {most} descriptors for one file"));
    }
    let grown = at[4] - at[1];
    o.check(grown < 12_000, "memory-kept-repeating-writing", || format!("kind {kind}: {grown} bytes more after 3 repetitions: {at:?}"));
    o.seen((kind, i));
    let _ = std::fs::remove_file(&p);
}

/// Very many columns and iterators at the same time.
fn many(cx: &Ctx, o: &mut Out, r: &mut Rng, n: usize) {
    let p = cx.path(".root");
    let specs: Vec<Spec> = (0..n).map(|c| Spec::new(&format!("c{c}"), Ty::Scalar(*r.pick(&PRIMS)), 20, r.next())).collect();
    o.case(format!("many: {n} columns"));
    if let Err(e) = write_specs(&p, &[("t".into(), specs.clone())]) {
        return o.viol("write-failed", e);
    }
    let res = guard(|| {
        let mut most = 0;
        let (f, t) = io::open_tree(&p, "t")?;
        let mut its = vec![];
        for s in &specs {
            its.push((s, io::read_iter(t.branch(&s.name).ok_or("no column")?, s.ty)?));
        }
        for k in 0..20 {
            for (c, (s, it)) in its.iter_mut().enumerate() {
                let v = it.next().ok_or("ended early")?;
                o.eval();
                if v != s.at(k) {
                    return Err(format!("{}: entry {k} is {v:?}", s.name));
                }
                if c % 500 == 0 {
                    most = most.max(fds(&p));
                }
            }
        }
        drop(its);
        drop((f, t));
        Ok::<_, String>(most)
    });
    match res {
        Err(e) => o.viol("panic-many", e.text()),
        Ok(Err(e)) => o.viol("many", e),
        Ok(Ok(m)) => {
            o.check(m <= 8, "descriptors-many", || format!("{m} descriptors for one open file"));
            o.seen(("many", n));
        }
    }
    o.check(fds(&p) == 0, "descriptors-kept", || "after reading many columns".into());
    let _ = std::fs::remove_file(&p);
}

// ---------------------------------------------------------------- side effects

#[derive(PartialEq, Debug)]
struct Snap {
    names: Vec<(String, u64)>,
    data: u64,
    meta: (u64, u64, u32, i64, i64, u64),
}

fn snap(p: &Path) -> Snap {
    let m = std::fs::symlink_metadata(p).expect("harness: metadata");
    Snap {
        names: listing(p.parent().unwrap()),
        data: hash_of(std::fs::read(p).unwrap_or_default()),
        meta: (m.ino(), m.len(), m.mode(), m.mtime(), m.mtime_nsec(), m.nlink()),
    }
}

const WRITES: i32 = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND;

fn changes(t: &Tap) -> Vec<String> {
    t.events
        .iter()
        .filter(|e| match e {
            Ev::Open { flags, .. } => flags & WRITES != 0,
            Ev::Write { .. } | Ev::Truncate { .. } | Ev::Change(..) => true,
            _ => false,
        })
        .map(|e| clip(&format!("{e:?}"), 200))
        .collect()
}

fn reading_only(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let dir = cx.path("");
    std::fs::create_dir(&dir).expect("harness: scratch directory");
    let made = any_file(cx, r);
    let p = dir.join(*r.pick(&["a.root", "a", "ä.root", "x.root.tmp"]));
    std::fs::rename(&made, &p).unwrap();
    let kind = i % 4;
    if kind == 3 {
        let mut d = std::fs::read(&p).unwrap();
        for _ in 0..r.range(1, 30) {
            let at = r.below(d.len() as u64) as usize;
            d[at] ^= 1 << r.below(8);
        }
        if r.chance(1, 2) {
            d.truncate(r.below(d.len() as u64) as usize);
        }
        std::fs::write(&p, &d).unwrap();
    }
    // a sibling a careless temporary name would hit
    std::fs::write(dir.join("bystander"), b"1").unwrap();
    o.case(format!("reading: kind {kind} {p:?}"));
    let before = snap(&p);
    let mut tap = Tap::default();
    let mut most = 0;
    sys::tapped(&mut tap, || use_file(&p, if kind == 3 { 0 } else { kind }, r, &mut most));
    o.eval();
    let ch = changes(&tap);
    o.check(ch.is_empty(), "reading-writes", || format!("kind {kind}: {ch:?}"));
    let after = snap(&p);
    o.check(before == after, "reading-modifies", || format!("kind {kind}: {before:?} then {after:?}"));
    o.count("calls seen while reading", tap.events.len() as u64);
    o.seen((kind, i));
    let _ = std::fs::remove_dir_all(&dir);
}

fn writing_only(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let dir = cx.path("");
    std::fs::create_dir(&dir).expect("harness: scratch directory");
    let p = dir.join(*r.pick(&["a.root", "a", "ä.root", "x.root.tmp"]));
    let by = dir.join("bystander.root");
    std::fs::write(&by, b"1").unwrap();
    let was = i % 3 == 1;
    if was {
        // a file of this name is there
        match r.below(3) {
            0 => std::fs::write(&p, vec![7u8; r.range(0, 100_000)]).unwrap(),
            1 => std::fs::write(&p, vec![7u8; *r.pick(&[1 << 20, 3_000_000, 9_000_000])]).unwrap(),
            _ => {
                let n = *r.pick(&[0usize, 10, 300_000]);
                let _ = write_specs(&p, &[("t0".into(), vec![Spec::new("c0", any_type(r), n, r.next())])]);
            }
        }
    }
    let nt = r.range(1, 3);
    let trees: Vec<(String, Vec<Spec>)> = (0..nt)
        .map(|k| (format!("t{k}"), (0..r.range(1, 5)).map(|c| Spec::new(&gen::name(r, c), any_type(r), *r.pick(&[0usize, 10, 20_000]), r.next())).collect()))
        .collect();
    o.case(format!("writing: {p:?} {nt} trees, overwritten {was}"));
    let mut tap = Tap::default();
    if i % 7 == 3 {
        tap.fault = Some(Fault { at: r.below(30), kind: Kind::Errno(libc::EIO), lasting: false });
    }
    let res = sys::tapped(&mut tap, || guard(|| write_specs(&p, &trees)));
    o.eval();
    if tap.fault.is_none() {
        o.check(matches!(res, Ok(Ok(()))), "write-failed", || format!("{:?}", res.as_ref().map_err(|e| e.text())));
    }
    // calls which change something, other than on the file asked for
    let name = p.to_string_lossy().into_owned();
    let mut ours: Vec<i32> = vec![];
    let mut bad = vec![];
    for e in &tap.events {
        match e {
            Ev::Open { path, flags, fd } => {
                if *path == name {
                    ours.push(*fd);
                } else if flags & WRITES != 0 {
                    bad.push(format!("{e:?}"));
                }
            }
            Ev::Write { fd, .. } if !ours.contains(fd) => bad.push(clip(&format!("{e:?}"), 200)),
            Ev::Truncate { what, .. } if *what != name && !ours.iter().any(|f| what.contains(&f.to_string())) => bad.push(format!("{e:?}")),
            Ev::Change(..) => bad.push(format!("{e:?}")),
            _ => {}
        }
    }
    o.check(bad.is_empty(), "writing-elsewhere", || format!("{bad:?}"));
    let l = listing(&dir);
    let mut want = vec![p.file_name().unwrap().to_string_lossy().into_owned(), "bystander.root".to_string()];
    want.sort();
    let mut got: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
    got.sort();
    if p.exists() || res.as_ref().is_ok_and(|r| r.is_ok()) {
        o.check(got == want, "writing-creates", || format!("{l:?}"));
    }
    o.check(std::fs::read(&by).is_ok_and(|d| d == b"1"), "writing-bystander", || "changed".into());
    o.count("calls seen while writing", tap.events.len() as u64);
    o.seen((i % 3, i));
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c22(cx: &Ctx) {
    cx.set_rule("one case = a sequence of columns written and read, a file used and dropped repeatedly, or a use of a file among others; monitored: peak and remaining heap of the thread, descriptors of the file, calls on the file system, content and metadata of the files around; non-trivial = at least one call or block");
    cx.assume("in proportion: for each column a dozen blocks (uncompressed and as stored) and 160 bytes per entry of a block, 400 bytes per block, 24 times the largest entry, and 3 MB for the descriptions of classes; up to 8 descriptors per open file");
    let g = cx.rng("c22");
    cx.par("growth", cx.n(60, 400), |i, o| growth(cx, o, &mut g.fork(i), if i % 10 == 9 { cx.n(24 << 20, 150 << 20) } else { cx.n(3 << 20, 16 << 20) }));
    cx.par("layouts", cx.n(250, 8000), |i, o| layouts(cx, o, &mut g.fork(1_000_000 + i)));
    cx.par("repeat", cx.n(800, 20_000), |i, o| repeat(cx, o, &mut g.fork(2_000_000 + i), i));
    cx.par("writing", cx.n(300, 8000), |i, o| writing(cx, o, &mut g.fork(3_000_000 + i), i));
    cx.par("many", cx.n(3, 10), |i, o| many(cx, o, &mut g.fork(4_000_000 + i), [300, 1500, 5000][i as usize % 3]));
    cx.par("reading", cx.n(800, 20_000), |i, o| reading_only(cx, o, &mut g.fork(5_000_000 + i), i));
    cx.par("created", cx.n(400, 10_000), |i, o| writing_only(cx, o, &mut g.fork(6_000_000 + i), i));
}
