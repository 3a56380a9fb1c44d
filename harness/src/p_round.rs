//! C01, C02, C03: what is written is what is read.
use crate::cols::*;
use crate::core::*;
use crate::gen::*;
use crate::io;
use oxyroot::{Branch, RootFile, WriterTree};

/// Monitor of one branch against the column it was written from.
pub fn check_branch(o: &mut Out, b: &Branch, s: &Spec) -> bool {
    let d = || s.desc();
    let mut ok = true;
    ok &= o.check(b.name() == s.name, "branch-name", || format!("{} reported as {:?}", d(), b.name()));
    ok &= o.check(b.entries() == s.n as i64, "branch-entries", || format!("{} reports {} entries", d(), b.entries()));
    let t = b.item_type_name();
    ok &= o.check(t == s.ty.cpp(), "branch-type", || format!("{} reported as {t:?}, expected {:?}", d(), s.ty.cpp()));
    if let Err((sig, e)) = s.compare(b) {
        o.viol(sig, format!("{}: {e}", d()));
        ok = false;
    }
    ok
}

/// Write the trees, reopen the file, compare everything.
pub fn roundtrip(cx: &Ctx, o: &mut Out, trees: &[(String, Vec<Spec>)]) -> bool {
    let path = cx.path(".root");
    let ok = roundtrip_at(&path, o, trees);
    let _ = std::fs::remove_file(&path);
    ok
}

pub fn roundtrip_at(path: &std::path::Path, o: &mut Out, trees: &[(String, Vec<Spec>)]) -> bool {
    if let Err(e) = write_specs(path, trees) {
        o.viol("write-failed", e);
        return false;
    }
    let mut ok = true;
    let mut f = match RootFile::open(path) {
        Ok(f) => f,
        Err(e) => {
            o.viol("reopen-failed", e.to_string());
            return false;
        }
    };
    for (name, cols) in trees {
        let t = match f.get_tree(name) {
            Ok(t) => t,
            Err(e) => {
                o.viol("tree-lost", format!("{name:?}: {e}"));
                return false;
            }
        };
        let max = cols.iter().map(|c| c.n).max().unwrap_or(0) as i64;
        ok &= o.check(t.entries() == max, "tree-entries", || format!("tree of {max} entries reports {}", t.entries()));
        for c in cols {
            match t.branch(&c.name) {
                Some(b) => ok &= check_branch(o, b, c),
                None => {
                    o.viol("branch-lost", c.desc());
                    ok = false;
                }
            }
            o.eval();
            if c.n > 0 {
                o.seen((c.ty, c.n, c.len, c.val));
            }
            o.count("entries_compared", c.n as u64);
        }
    }
    o.count("file_bytes", std::fs::metadata(path).map(|m| m.len()).unwrap_or(0));
    ok
}

fn one(cx: &Ctx, o: &mut Out, s: Spec) {
    o.case(s.desc());
    roundtrip(cx, o, &[("t".into(), vec![s])]);
}

fn all_fixed() -> Vec<Ty> {
    let mut v = scalar_types();
    for p in PRIMS {
        for n in ARR_N {
            v.push(Ty::Arr(p, n));
        }
    }
    v
}

fn entry_size(t: Ty) -> usize {
    match t {
        Ty::Scalar(p) => p.size(),
        Ty::Arr(p, n) => p.size() * n,
        _ => 1,
    }
}

/// Counts around the multiples of a 32 kB unit of storage, and other thresholds.
fn boundary_counts(size: usize, mult: &[usize]) -> Vec<usize> {
    let per = 32 * 1024 / size;
    let mut v = vec![];
    for m in mult {
        let c = (per * m) as i64;
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((c + d).max(0) as usize);
        }
        // with one entry less or more per unit
        v.push((per - 1).max(1) * m);
        v.push((per + 1) * m);
    }
    v.sort();
    v.dedup();
    v
}

pub fn c01(cx: &Ctx) {
    cx.set_rule("one case = one column (type, number of entries, value generator, seed) written as a branch, the file closed, reopened and every entry compared by bit pattern; non-trivial = at least one entry; distinct by (type, entries, value generator)");
    let types = all_fixed();
    let r0 = cx.rng("c01");
    // every type, many small lengths
    cx.par("small", types.len(), |i, o| {
        let ty = types[i as usize];
        let mut r = r0.fork(i);
        let mut ns = vec![0, 1, 2, 3, 7, 8, 9, 10, 11, 100, 255, 256, 257];
        if !cx.quick() {
            ns = (0..140).collect();
        }
        for n in ns {
            let mut s = Spec::new(&format!("b{}", r.below(1000)), ty, n, r.next());
            s.val = *r.pick(&[Val::Mix, Val::Rand, Val::Ramp]);
            o.sample(s.desc());
            one(cx, o, s);
        }
    });
    // around storage boundaries
    let mults: Vec<usize> = if cx.quick() { vec![1, 2, 3] } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 19, 20, 21] };
    cx.par("boundary", types.len(), |i, o| {
        let ty = types[i as usize];
        let mut r = r0.fork(1000 + i);
        let mut ns = boundary_counts(entry_size(ty), &mults);
        if cx.quick() && matches!(ty, Ty::Arr(..)) {
            let k = r.range(0, 3);
            ns = ns.into_iter().skip(k).step_by(4).collect();
        }
        for n in ns {
            let mut s = Spec::new("x", ty, n, r.next());
            s.val = *r.pick(&[Val::Mix, Val::Ramp]);
            o.sample(s.desc());
            one(cx, o, s);
        }
    });
    // many storage units: tables of units have to grow, repeatedly
    let sizes = [P::I8, P::U16, P::F32, P::I64, P::F64, P::Bool, P::U64, P::I32];
    let units = if cx.quick() { vec![9, 10, 11, 12, 20, 21, 23, 40, 41, 80, 81] } else { (8..170).chain([319, 320, 321, 640, 641, 1281]).collect::<Vec<usize>>() };
    cx.par("many-units", units.len(), |i, o| {
        let mut r = r0.fork(2000 + i);
        let p = *r.pick(&sizes);
        let p = if units[i as usize] > 100 { P::F64 } else { p };
        let per = 32 * 1024 / p.size();
        for d in [-1i64, 0, 1] {
            let n = (units[i as usize] * per) as i64 + d;
            let s = Spec::new("x", Ty::Scalar(p), n as usize, r.next()).val(Val::Rand);
            o.sample(s.desc());
            one(cx, o, s);
        }
        let a = *r.pick(&[17usize, 31, 32]);
        let n = units[i as usize] * (32 * 1024 / (8 * a)) + r.range(0, 3);
        one(cx, o, Spec::new("arr", Ty::Arr(P::F64, a), n, r.next()).val(Val::Rand));
    });
    // entries as large as, or larger than, a storage unit
    cx.par("wide-arrays", 4, |i, o| wide(cx, o, i));
    // random
    cx.par("random", cx.n(1200, 60000), |i, o| {
        let mut r = r0.fork(5000 + i);
        let ty = *r.pick(&types);
        let n = match r.below(3) {
            0 => r.range(0, 500),
            1 => r.range(0, 20000),
            _ => r.range(0, 3 * 32768 / entry_size(ty)),
        };
        let mut s = Spec::new(&name(&mut r, 0), ty, n, r.next());
        s.val = *r.pick(&[Val::Mix, Val::Rand, Val::Ramp, Val::Small]);
        o.sample(s.desc());
        one(cx, o, s);
    });
}

/// Arrays too long for the typed access of the library are read with the closure interface.
fn wide_one<T: Elt, const N: usize>(cx: &Ctx, o: &mut Out, n: usize) {
    let path = cx.path(".root");
    o.case(format!("[{};{N}] x {n}", T::P.rust()));
    let val = |i: usize, k: usize| T::P.mask((i as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(k as u64 * 0x1234567));
    let mk = move |i: usize| -> [T; N] { std::array::from_fn(|k| T::from_bits(val(i, k))) };
    let r = (|| -> Result<(), String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = oxyroot::WriterTree::new("t");
        t.new_branch("w", (0..n).map(mk));
        t.write(&mut f).map_err(|e| e.to_string())?;
        f.close().map_err(|e| e.to_string())
    })();
    if let Err(e) = r {
        o.viol("write-failed", e);
        return;
    }
    match io::open_tree(&path, "t") {
        Err(e) => o.viol("reopen-failed", e),
        Ok((_f, t)) => {
            o.eval();
            o.seen((T::P, N, n));
            let Some(b) = t.branch("w") else {
                o.viol("branch-lost", "w");
                return;
            };
            o.check(b.entries() == n as i64, "branch-entries", || format!("{} for {n}", b.entries()));
            let want = format!("{}[{N}]", T::P.cpp());
            o.check(b.item_type_name() == want, "branch-type", || format!("{} for {want}", b.item_type_name()));
            let mut c = 0;
            for (i, a) in b
                .get_basket(|r| (0..N).map(|_| r.read_object_into::<T>().unwrap()).collect::<Vec<T>>())
                .take(n + 1)
                .enumerate()
            {
                if a.len() != N || (0..N).any(|k| a[k].bits() != val(i, k)) {
                    o.viol("value-differs", format!("[{};{N}] entry {i} ({} elements read)", T::P.rust(), a.len()));
                    return;
                }
                c += 1;
            }
            o.check(c == n, "missing-entries", || format!("{c} entries read, {n} written"));
            o.count("entries_compared", c as u64);
        }
    }
    let _ = std::fs::remove_file(&path);
}

fn wide(cx: &Ctx, o: &mut Out, i: u64) {
    let counts: &[usize] = if cx.quick() { &[1, 9, 10, 11, 25] } else { &[1, 2, 5, 9, 10, 11, 12, 20, 21, 25, 41, 100] };
    for &n in counts {
        match i {
            0 => {
                wide_one::<u8, 1000>(cx, o, n);
                wide_one::<u8, 32767>(cx, o, n);
                wide_one::<u8, 32768>(cx, o, n);
                wide_one::<i8, 32769>(cx, o, n);
            }
            1 => {
                wide_one::<f64, 4095>(cx, o, n);
                wide_one::<f64, 4096>(cx, o, n);
                wide_one::<f64, 4097>(cx, o, n);
                wide_one::<i64, 9000>(cx, o, n);
            }
            2 => {
                wide_one::<i32, 33>(cx, o, n * 20);
                wide_one::<f32, 64>(cx, o, n * 20);
                wide_one::<i16, 100>(cx, o, n * 20);
                wide_one::<u16, 16384>(cx, o, n);
            }
            _ => {
                wide_one::<bool, 255>(cx, o, n * 5);
                wide_one::<bool, 256>(cx, o, n * 5);
                wide_one::<u64, 1024>(cx, o, n * 2);
                wide_one::<u32, 8192>(cx, o, n);
            }
        }
    }
}

pub fn var_types() -> Vec<Ty> {
    let mut v: Vec<Ty> = PRIMS.iter().filter(|p| **p != P::Bool).map(|p| Ty::Vec(*p)).collect();
    v.push(Ty::Str);
    v
}

pub fn c02(cx: &Ctx) {
    cx.set_rule("one case = one column of vectors or strings (element type, number of entries, length distribution, seed) written, reopened and compared entry by entry, length and bits; non-trivial = at least one entry; distinct by (type, entries, length distribution, value generator)");
    let types = var_types();
    let r0 = cx.rng("c02");
    let lens = [
        Len::Fix(0),
        Len::Fix(1),
        Len::Uni(0, 3),
        Len::Uni(0, 40),
        Len::Edge,
        Len::Grow { div: 1, max: 300 },
        Len::Rare { short: 2, long: 5000, every: 50 },
        Len::Rare { short: 0, long: 40000, every: 40 },
    ];
    cx.par("small", types.len() * lens.len(), |i, o| {
        let ty = types[i as usize % types.len()];
        let len = lens[i as usize / types.len()];
        let mut r = r0.fork(i);
        for n in [0, 1, 2, 3, 10, 49, 50, 51, 120] {
            let mut s = Spec::new("v", ty, n, r.next()).len(len);
            s.val = *r.pick(&[Val::Mix, Val::Ramp]);
            o.sample(s.desc());
            one(cx, o, s);
        }
    });
    // the number of entries per storage unit: around every plausible capacity of the offset table
    let caps: Vec<usize> = if cx.quick() {
        vec![249, 250, 251, 499, 500, 501, 998, 999, 1000, 1001, 1002, 1999, 2000, 2001, 2500, 4000, 8000]
    } else {
        (1..40).flat_map(|k| [k * 250 - 1, k * 250, k * 250 + 1]).collect()
    };
    cx.par("capacity", caps.len(), |i, o| {
        let mut r = r0.fork(1000 + i);
        for ty in [Ty::Str, Ty::Vec(P::U8), Ty::Vec(*r.pick(&[P::I16, P::F32, P::F64, P::I64]))] {
            for len in [Len::Fix(0), Len::Fix(1), Len::Uni(0, 2)] {
                let s = Spec::new("v", ty, caps[i as usize], r.next()).len(len);
                one(cx, o, s);
            }
        }
    });
    // one long entry at a position in the middle of short ones
    cx.par("spike", cx.n(480, 25000), |i, o| {
        let mut r = r0.fork(2000 + i);
        let ty = *r.pick(&types);
        let n = *r.pick(&[20, 300, 1200, 2500, 6000]);
        let long = match r.below(6) {
            0 => 254,
            1 => r.range(255, 300),
            2 => r.range(900, 2100),
            3 => r.range(4000, 9000),
            4 => r.range(32700, 32800),
            _ => r.range(30000, 70000),
        };
        let s = Spec::new("v", ty, n, r.next()).len(Len::Spike { short: r.range(0, 4), long, at: r.range(0, n - 1) });
        o.sample(s.desc());
        one(cx, o, s);
    });
    // fill storage units exactly: entry sizes chosen so that units end at, before or after a boundary
    cx.par("exact-fill", cx.n(256, 8000), |i, o| {
        let mut r = r0.fork(3000 + i);
        let ty = *r.pick(&types);
        let k = *r.pick(&[1usize, 2, 4, 5, 8, 16, 31, 32, 64, 100, 127, 128]);
        // a unit of 32 kB holds about `per` of them; sweep the number of bytes per entry around it
        let base = 32 * 1024 / k;
        let l = match ty {
            Ty::Vec(p) => (base.saturating_sub(10)) / p.size(),
            _ => base.saturating_sub(if base > 254 { 5 } else { 1 }),
        };
        for d in [-2i64, -1, 0, 1, 2] {
            let l = (l as i64 + d).max(0) as usize;
            let s = Spec::new("v", ty, k * 3 + 2, r.next()).len(Len::Fix(l)).val(Val::Rand);
            o.sample(s.desc());
            one(cx, o, s);
        }
    });
    // many storage units
    let units: Vec<usize> = if cx.quick() { vec![9, 10, 11, 19, 20, 21, 40, 41] } else { (8..100).collect() };
    cx.par("many-units", units.len(), |i, o| {
        let mut r = r0.fork(4000 + i);
        for ty in [Ty::Str, Ty::Vec(P::F64), Ty::Vec(P::U8), Ty::Vec(P::I32)] {
            // entries of about 3 kB: about ten per unit
            let l = match ty {
                Ty::Vec(p) => 3200 / p.size(),
                _ => 3200,
            };
            let n = units[i as usize] * 11 + r.range(0, 11);
            one(cx, o, Spec::new("v", ty, n, r.next()).len(Len::Uni(l - l / 8, l)).val(Val::Rand));
        }
    });
    // entries of about, and above, the largest size which a block can hold
    let huge: Vec<(usize, u8)> = if cx.quick() {
        vec![(2_200_000_000, 0)]
    } else {
        let mut v = vec![];
        for k in 0..3u8 {
            v.extend([1_073_741_800usize, 2_147_482_000, 2_147_483_592, 2_147_483_647, 2_147_483_660, 2_200_000_000, 4_294_967_300].map(|n| (n, k)));
        }
        v
    };
    cx.seq("huge-entries", huge.len(), |i, o| huge_entry(cx, o, huge[i as usize]));
    // long columns of short entries: several offset tables
    cx.par("long", cx.n(96, 2000), |i, o| {
        let mut r = r0.fork(5000 + i);
        let ty = types[i as usize % types.len()];
        let n = r.range(5000, cx.n(40000, 200000));
        let len = *r.pick(&[Len::Fix(0), Len::Uni(0, 8), Len::Fix(1), Len::Uni(0, 30), Len::Rare { short: 3, long: 3000, every: 97 }]);
        let s = Spec::new("v", ty, n, r.next()).len(len).val(Val::Rand);
        o.sample(s.desc());
        one(cx, o, s);
    });
    cx.par("random", cx.n(800, 50000), |i, o| {
        let mut r = r0.fork(9000 + i);
        let ty = *r.pick(&types);
        let len = match r.below(7) {
            0 => Len::Uni(0, r.range(0, 30)),
            1 => Len::Fix(r.range(0, 300)),
            2 => Len::Edge,
            3 => Len::Rare { short: r.range(0, 20), long: r.range(0, 9000), every: r.range(1, 300) },
            4 => Len::Grow { div: r.range(1, 5), max: r.range(1, 600) },
            5 => Len::Uni(r.range(200, 260), r.range(260, 300)),
            _ => Len::Uni(0, 3),
        };
        let n = if matches!(len, Len::Uni(0, _)) { r.range(0, 6000) } else { r.range(0, 700) };
        let mut s = Spec::new(&name(&mut r, 0), ty, n, r.next()).len(len);
        s.val = *r.pick(&[Val::Mix, Val::Rand, Val::Small]);
        o.sample(s.desc());
        one(cx, o, s);
    });
}

/// A column of three entries, the second of `n` bytes: it is refused, or returned as it is.
fn huge_entry(cx: &Ctx, o: &mut Out, (n, kind): (usize, u8)) {
    let path = cx.path(".root");
    o.case(format!("an entry of {n} bytes, kind {kind}"));
    o.sample(o.desc.clone());
    o.eval();
    o.seen((n, kind));
    let byte = |k: usize| (k % 251) as u8;
    let at = move |k: usize, i: usize| -> Vec<u8> { if i == 1 { (0..k).map(byte).collect() } else { vec![i as u8 + 1; 5] } };
    let text = move |k: usize, i: usize| -> String { if i == 1 { "0123456789abcdefghij".repeat(k / 20) } else { "small".into() } };
    let res = (|| -> Result<(), String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("t");
        match kind {
            0 => t.new_branch("v", (0..3).map(move |i| text(n, i))),
            1 => t.new_branch("v", (0..3).map(move |i| at(n, i))),
            _ => t.new_branch("v", (0..3usize).map(move |i| vec![i as i64 - 5; if i == 1 { n / 8 } else { 2 }])),
        }
        let ok = match t.write(&mut f) {
            Ok(()) => true,
            Err(e) => {
                o.count("entries refused for their size", 1);
                o.check(n > 2_147_400_000, "refused-too-early", || e.to_string());
                false
            }
        };
        drop(t);
        let mut t = WriterTree::new("after");
        t.new_branch("x", 0..9i32);
        t.write(&mut f).map_err(|e| e.to_string())?;
        f.close().map_err(|e| e.to_string())?;
        let mut f = RootFile::open(&path).map_err(|e| e.to_string())?;
        let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        let want: &[&str] = if ok { &["t", "after"] } else { &["after"] };
        o.check(names == want, "key-names", || format!("{names:?} instead of {want:?}"));
        let t = f.get_tree("after").map_err(|e| e.to_string())?;
        let v: Vec<i32> = t.branch("x").ok_or("no branch")?.as_iter::<i32>().map_err(|e| format!("{e:?}"))?.collect();
        o.check(v == (0..9).collect::<Vec<_>>(), "value-differs", || format!("{v:?}"));
        if !ok {
            return Ok(());
        }
        let t = f.get_tree("t").map_err(|e| e.to_string())?;
        let b = t.branch("v").ok_or("no branch")?;
        let mut got = 0;
        let mut see = |i: usize, len: usize, want: usize, same: bool| {
            got += 1;
            o.check(i < 3 && len == want && same, "value-differs", || format!("entry {i}: {len} bytes instead of {want}, same bytes {same}"));
        };
        match kind {
            0 => b.as_iter::<String>().map_err(|e| format!("{e:?}"))?.enumerate().for_each(|(i, s)| {
                let w = text(n, i);
                see(i, s.len(), w.len(), s == w)
            }),
            1 => b.as_iter::<Vec<u8>>().map_err(|e| format!("{e:?}"))?.enumerate().for_each(|(i, s)| {
                let w = at(n, i);
                see(i, s.len(), w.len(), s == w)
            }),
            _ => b.as_iter::<Vec<i64>>().map_err(|e| format!("{e:?}"))?.enumerate().for_each(|(i, s)| {
                let w = if i == 1 { n / 8 } else { 2 };
                see(i, s.len() * 8, w * 8, s.iter().all(|x| *x == i as i64 - 5))
            }),
        }
        o.check(got == 3, "missing-entries", || format!("{got} entries read, 3 written"));
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("write-failed", e);
    }
    let _ = std::fs::remove_file(&path);
}

pub fn random_len(r: &mut crate::rng::Rng) -> Len {
    match r.below(6) {
        0 => Len::Fix(r.range(0, 20)),
        1 => Len::Edge,
        2 => Len::Rare { short: r.range(0, 4), long: r.range(0, 3000), every: r.range(2, 100) },
        3 => Len::Grow { div: r.range(1, 5), max: r.range(1, 60) },
        _ => Len::Uni(0, r.range(0, 12)),
    }
}

/// Random tree with distinct branch names.
pub fn random_tree(r: &mut crate::rng::Rng, max_cols: usize, max_n: usize, equal: bool) -> Vec<Spec> {
    let k = r.range(0, max_cols);
    let n0 = r.range(0, max_n);
    let mut used = std::collections::HashSet::new();
    let mut v = vec![];
    for j in 0..k {
        let nm = name(r, j);
        if !used.insert(nm.clone()) {
            continue;
        }
        let ty = any_type(r);
        let n = if equal || r.chance(1, 2) { n0 } else { r.range(0, max_n) };
        let mut s = Spec::new(&nm, ty, n, r.next()).len(random_len(r));
        s.val = *r.pick(&[Val::Mix, Val::Rand, Val::Ramp, Val::Small]);
        v.push(s);
    }
    v
}

pub fn c03(cx: &Ctx) {
    cx.set_rule("one case = a tree of 0..N branches of random names, types, lengths (equal or not) written and reopened; monitored: order and names of the branches, type, class and entries of each, lookup by name of present and absent branches, entries of the tree, every value of every branch, read in a random order and interleaved; non-trivial = at least one branch");
    let r0 = cx.rng("c03");
    cx.par("random", cx.n(1400, 80000), |i, o| {
        let mut r = r0.fork(i);
        let (mc, mn) = *r.pick(&[(3, 3000), (8, 700), (20, 150), (60, 40)]);
        let eq = r.chance(1, 3);
        let specs = random_tree(&mut r, mc, mn, eq);
        tree_case(cx, o, &mut r, "tree", specs);
    });
    // every type at once; many branches
    cx.par("all-types", cx.n(24, 600), |i, o| {
        let mut r = r0.fork(100_000 + i);
        let mut types = all_fixed();
        types.extend(var_types());
        let n = *r.pick(&[0usize, 1, 5, 300, 2000]);
        let mut specs: Vec<Spec> = types
            .iter()
            .enumerate()
            .map(|(k, t)| Spec::new(&format!("c{k}_{}", t.label()).replace(['[', ']', ';', '<', '>'], "_"), *t, n, r.next()))
            .collect();
        for k in (1..specs.len()).rev() {
            let j = r.range(0, k);
            specs.swap(k, j);
        }
        tree_case(cx, o, &mut r, "all", specs);
    });
    cx.par("many-branches", cx.n(4, 12), |i, o| {
        let mut r = r0.fork(200_000 + i);
        let k = [257usize, 500, 1000, 1500, 2000, 3000][i as usize % 6];
        let specs = (0..k)
            .map(|j| {
                let ty = any_type(&mut r);
                let n = r.range(0, 12);
                Spec::new(&format!("b{j}"), ty, n, r.next())
            })
            .collect();
        tree_case(cx, o, &mut r, "wide", specs);
    });
    // branches with very different numbers of storage units
    cx.par("lopsided", cx.n(48, 1000), |i, o| {
        let mut r = r0.fork(300_000 + i);
        let mut specs = vec![];
        for j in 0..r.range(2, 5) {
            let ty = *r.pick(&[Ty::Scalar(P::F64), Ty::Scalar(P::U8), Ty::Vec(P::I32), Ty::Str, Ty::Arr(P::F32, 16)]);
            let n = *r.pick(&[0usize, 1, 100, 4096, 20000, 60000]);
            specs.push(Spec::new(&format!("b{j}"), ty, n, r.next()).val(Val::Rand));
        }
        tree_case(cx, o, &mut r, "t", specs);
    });
}

fn tree_case(cx: &Ctx, o: &mut Out, r: &mut crate::rng::Rng, tname: &str, specs: Vec<Spec>) {
    let path = cx.path(".root");
    o.case(format!("{} branches: {}", specs.len(), clip(&specs.iter().map(|s| s.desc()).collect::<Vec<_>>().join("; "), 1500)));
    o.sample(clip(&o.desc, 400));
    if let Err(e) = write_specs(&path, &[(tname.to_string(), specs.clone())]) {
        o.viol("write-failed", e);
        return;
    }
    o.eval();
    let (_f, t) = match io::open_tree(&path, tname) {
        Ok(x) => x,
        Err(e) => {
            o.viol("reopen-failed", e);
            return;
        }
    };
    let max = specs.iter().map(|c| c.n).max().unwrap_or(0) as i64;
    o.check(t.entries() == max, "tree-entries", || format!("{} reported, {max} expected", t.entries()));
    let names: Vec<&str> = t.branches().map(|b| b.name()).collect();
    let want: Vec<&str> = specs.iter().map(|s| s.name.as_str()).collect();
    o.check(names == want, "branch-list", || format!("{names:?} instead of {want:?}"));
    let names_r: Vec<String> = t.branches_r().iter().map(|b| b.name().to_string()).collect();
    o.check(names_r.iter().map(|s| s.as_str()).eq(want.iter().copied()), "branch-list-recursive", || format!("{names_r:?} instead of {want:?}"));
    for absent in ["", "zz_absent", "b", "tree", "x"] {
        if !want.contains(&absent) {
            o.check(t.branch(absent).is_none(), "absent-branch-found", || format!("{absent:?}"));
        }
    }
    // class and structural description of each branch
    for s in &specs {
        if let Some(b) = t.branch(&s.name) {
            o.check(b.branches().count() == 0, "unexpected-sub-branches", || s.desc());
            let c = b.class();
            o.check(c == s.ty.class() || b.item_type_name() == s.ty.cpp(), "branch-class", || format!("{}: {c}", s.desc()));
        }
    }
    // read all branches in a random order
    let mut order: Vec<usize> = (0..specs.len()).collect();
    for k in (1..order.len()).rev() {
        let j = r.range(0, k);
        order.swap(k, j);
    }
    for k in &order {
        let s = &specs[*k];
        match t.branch(&s.name) {
            None => o.viol("branch-lost", s.desc()),
            Some(b) => {
                check_branch(o, b, s);
            }
        }
        o.seen((s.ty, s.n, &s.name));
        o.count("branches", 1);
        o.count("entries_compared", s.n as u64);
    }
    // and all in step, entry by entry
    if specs.len() <= 20 {
        let mut its: Vec<_> = specs
            .iter()
            .filter_map(|s| t.branch(&s.name).and_then(|b| io::read_iter(b, s.ty).ok()).map(|it| (s, it, 0usize)))
            .collect();
        loop {
            let mut live = false;
            for (s, it, n) in its.iter_mut() {
                if *n < s.n {
                    live = true;
                    let c = it.next();
                    if c.as_ref() != Some(&s.at(*n)) {
                        o.viol("interleaved-read-differs", format!("{} entry {n}: {}", s.desc(), clip(&format!("{c:x?}"), 300)));
                        let _ = std::fs::remove_file(&path);
                        return;
                    }
                    *n += 1;
                }
            }
            if !live {
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&path);
}
