//! C04: the directory of a file: every object put is found again, under its name, latest cycle first.
use crate::cols::*;
use crate::core::*;
use crate::gen::*;
use crate::p_round::{check_branch, random_tree};
use crate::rng::Rng;
use oxyroot::{Named, Object, RootFile, WriterTree};
use std::collections::HashMap;

fn tree_name(r: &mut Rng, k: usize) -> String {
    match r.below(14) {
        0 => "t".into(),
        1 => format!("tree{k}"),
        2 => "a name with spaces".into(),
        3 => format!("τρεε{k}"),
        4 => format!("dots.in.{k}"),
        5 => "x".repeat(r.range(1, 600)),
        6 => "y".repeat(*r.pick(&[253, 254, 255, 256, 257, 300])),
        7 => format!("[{k}]"),
        8 => format!("quote\"{k}'\\"),
        9 => format!("{k}"),
        10 => "StreamerInfo".into(),
        11 => "TTree".into(),
        12 => format!("tab\t{k}\n"),
        _ => format!("n{}", r.below(6)),
    }
}

pub fn c04(cx: &Ctx) {
    cx.set_rule("one case = a file with 0..N trees (random and repeated names, random branches) at a path of a chosen length; monitored after closing and reopening: number, order, names, classes and cycles of the keys, refusal of absent names, and for each name the content of the last tree written under it, in random order and repeatedly; non-trivial = at least one tree");
    let r0 = cx.rng("c04");
    cx.par("random", cx.n(1400, 72000), |i, o| {
        let mut r = r0.fork(i);
        let k = *r.pick(&[0usize, 1, 2, 3, 5, 9, 17, 40]);
        case(cx, o, &mut r, k, None);
    });
    cx.par("many-trees", cx.n(4, 12), |i, o| {
        let mut r = r0.fork(100_000 + i);
        let k = [100usize, 255, 300, 700, 1000, 2000][i as usize % 6];
        case(cx, o, &mut r, k, None);
    });
    // one name, many cycles
    cx.par("cycles", cx.n(6, 20), |i, o| {
        let mut r = r0.fork(200_000 + i);
        let k = [2usize, 3, 10, 126, 130, 260, 300, 513, 1000][i as usize % 9];
        let names = (0..k).map(|_| "same".to_string()).collect();
        case_named(cx, o, &mut r, names, None);
    });
    // as many trees of one name, and names as long, as the format can hold, and beyond
    let mut long: Vec<(usize, usize)> = vec![(0, 0)];
    for a in [1usize, 253, 254, 255, 5000, 16_000, 31_000] {
        let step = if cx.quick() { 13 } else { 1 };
        long.extend((0..130).step_by(step).map(|d| (a, 32_767 - 100 - a + d)));
    }
    long.extend((32_600..32_800).step_by(if cx.quick() { 9 } else { 1 }).map(|a| (a, 1)));
    long.extend([(1, 40_000), (1, 65_535), (1, 70_000), (40_000, 1), (65_536, 3), (70_000, 70_000), (20_000, 20_000)]);
    cx.par("limits", long.len(), |i, o| {
        let mut r = r0.fork(700_000 + i);
        match long[i as usize] {
            (0, 0) => cycle_limit(cx, o),
            (a, b) => long_names(cx, o, &mut r, a, b),
        }
    });
    // lengths of the path of the file
    let lens: Vec<usize> = if cx.quick() {
        vec![60, 120, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 440, 460, 470, 480, 500, 505, 510, 520, 700, 1000, 1500, 2500, 3500]
    } else {
        (60..530).chain((530..4000).step_by(97)).collect()
    };
    cx.par("paths", lens.len(), |i, o| {
        let mut r = r0.fork(300_000 + i);
        case(cx, o, &mut r, 2, Some(lens[i as usize]));
    });
    // relative path, unicode path, no extension
    cx.seq("odd-paths", 1, |_, o| {
        let mut r = r0.fork(400_000);
        for n in ["a b.root", "ünï.root", "noext", ".hidden", "x;1.root", "*.root", "%41.root", "q\"uote'.root"] {
            let p = cx.scratch.join(n);
            let names = vec!["t".to_string(), "u".to_string()];
            o.case(format!("path {p:?}"));
            run(cx, o, &mut r, &p, names);
            let _ = std::fs::remove_file(&p);
        }
    });
    // writing over an existing, longer file leaves nothing of it
    cx.par("overwrite", cx.n(60, 1800), |i, o| {
        let mut r = r0.fork(500_000 + i);
        let p = cx.path(".root");
        let _ = std::fs::write(&p, vec![0xA5u8; r.range(0, 300_000)]);
        o.case("overwrite an existing file");
        let names = (0..r.range(0, 3)).map(|k| tree_name(&mut r, k)).collect();
        run(cx, o, &mut r, &p, names);
        let _ = std::fs::remove_file(&p);
    });
    // the same path again and again, by the same thread: other values in the same layout, or not
    cx.par("rewrite", cx.n(150, 6000), |i, o| {
        let mut r = r0.fork(600_000 + i);
        let p = cx.path(".root");
        let names: Vec<String> = (0..r.range(1, 4)).map(|k| tree_name(&mut r, k)).collect();
        let most = *r.pick(&[5, 60, 60, 3000]);
        let fixed = r.chance(2, 3);
        let mut plan: Vec<(String, Vec<Spec>)> = names.iter().map(|n| (n.clone(), random_tree(&mut r, 4, most, false))).collect();
        if fixed {
            for s in plan.iter_mut().flat_map(|t| t.1.iter_mut()) {
                *s = s.clone().len(Len::Fix(r.range(0, 30)));
            }
        }
        let rounds = r.range(2, 5);
        o.case(format!("the same path written {rounds} times, names {names:?}, same layout {fixed}"));
        let mut kept = vec![];
        for _ in 0..rounds {
            let trees: Vec<(String, Vec<Spec>)> =
                plan.iter().map(|(n, s)| (n.clone(), s.iter().map(|s| Spec { seed: r.next(), ..s.clone() }).collect())).collect();
            match r.below(3) {
                0 => {
                    let _ = std::fs::remove_file(&p);
                }
                // an older handle stays open
                1 => kept.extend(RootFile::open(&p).ok()),
                _ => {}
            }
            run_trees(cx, o, &mut r, &p, names.clone(), trees);
            o.count("files written over themselves", 1);
        }
        let _ = std::fs::remove_file(&p);
    });
    if !cx.quick() {
        // files larger than 2 GB, ending at several distances from the 2e9 boundary
        let ends: [i64; 9] = [2_000_000_000 - 3000, 2_000_000_000 - 600, 2_000_000_000 - 150, 2_000_000_000 - 20, 2_000_000_000 - 1, 2_000_000_000, 2_000_000_001, 2_000_000_100, 2_100_000_000];
        for (k, e) in ends.iter().enumerate() {
            cx.seq(&format!("big-{k}"), 1, |_, o| big(cx, o, *e, k % 2 == 0));
        }
        cx.seq("huge", 1, |_, o| big(cx, o, 4_400_000_000, true));
        for (k, e) in [1_999_000_000i64, 2_000_000_100, 2_150_000_000, 4_300_000_000].iter().enumerate() {
            cx.seq(&format!("beyond-{k}"), 1, |_, o| beyond(cx, o, *e, &mut cx.rng("beyond").fork(k as u64)));
        }
    } else {
        cx.seq("beyond", 1, |_, o| beyond(cx, o, 2_160_000_000, &mut cx.rng("beyond")));
        cx.seq("big", 1, |_, o| big(cx, o, 2_000_000_000 - 20, true));
    }
}

fn case(cx: &Ctx, o: &mut Out, r: &mut Rng, k: usize, len: Option<usize>) {
    let names = (0..k).map(|j| tree_name(r, j)).collect();
    case_named(cx, o, r, names, len)
}

fn case_named(cx: &Ctx, o: &mut Out, r: &mut Rng, names: Vec<String>, len: Option<usize>) {
    let base = cx.path("d");
    let path = match len {
        None => base.with_extension("root"),
        Some(l) => {
            // nested directories until the path has exactly this length
            let mut p = base.clone();
            loop {
                let have = p.as_os_str().len();
                let left = l.saturating_sub(have + 1);
                if left <= 200 {
                    let n = left.max(1);
                    break {
                        let _ = std::fs::create_dir_all(&p);
                        p.join("f".repeat(n))
                    };
                }
                p = p.join("d".repeat(if left > 201 && left - 201 < 2 { 150 } else { 199.min(left - 2) }));
            }
        }
    };
    o.case(format!("{} trees, path of {} bytes, names {:?}", names.len(), path.as_os_str().len(), clip(&format!("{names:?}"), 600)));
    o.sample(clip(&o.desc, 300));
    run(cx, o, r, &path, names);
    let _ = std::fs::remove_file(&path);
    if len.is_some() {
        let _ = std::fs::remove_dir_all(&base);
    }
}

fn run(cx: &Ctx, o: &mut Out, r: &mut Rng, path: &std::path::Path, names: Vec<String>) {
    let small = names.len() > 50;
    let trees: Vec<(String, Vec<Spec>)> =
        names.iter().map(|n| (n.clone(), random_tree(r, if small { 2 } else { 4 }, if small { 6 } else { 60 }, false))).collect();
    run_trees(cx, o, r, path, names, trees)
}

fn run_trees(cx: &Ctx, o: &mut Out, r: &mut Rng, path: &std::path::Path, names: Vec<String>, trees: Vec<(String, Vec<Spec>)>) {
    if let Err(e) = write_specs(path, &trees) {
        o.viol("write-failed", e);
        return;
    }
    verify(cx, o, r, path, names, trees, None)
}

/// More trees of one name than cycle numbers: each is either refused or counts.
fn cycle_limit(cx: &Ctx, o: &mut Out) {
    const N: i64 = 32_775;
    let path = cx.path(".root");
    o.case(format!("{N} trees of the same name"));
    o.eval();
    o.seen("cycle limit");
    let res = (|| -> Result<(), String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut put = |name: &str, v: i64| {
            let mut t = WriterTree::new(name);
            t.new_branch("v", std::iter::once(v));
            t.write(&mut f)
        };
        let mut kept = vec![];
        for i in 0..N {
            if put("same", i).is_ok() {
                kept.push(i);
            }
        }
        let other = put("other", -5).is_ok();
        f.close().map_err(|e| format!("close: {e}"))?;
        o.count("trees refused for want of a cycle number", (N - kept.len() as i64) as u64);
        o.check(kept.len() >= 32_767 && kept[32_766] == 32_766, "refused-too-early", || format!("{} of {N} trees accepted", kept.len()));
        o.check(other, "refused-other-name", || "a tree of another name".into());
        let mut f = RootFile::open(&path).map_err(|e| format!("reopen: {e}"))?;
        let n = f.keys_name().count();
        o.check(n == kept.len() + other as usize, "key-count", || format!("{n} keys, {} trees accepted", kept.len() + other as usize));
        let mut get = |ask: &str| -> Result<i64, String> {
            let t = f.get_tree(ask).map_err(|e| format!("{ask}: {e}"))?;
            let b = t.branch("v").ok_or("no branch")?;
            let v: Vec<i64> = b.as_iter::<i64>().map_err(|e| format!("{e:?}"))?.collect();
            if v.len() != 1 {
                return Err(format!("{ask}: {} values", v.len()));
            }
            Ok(v[0])
        };
        let v = get("same")?;
        o.check(Some(&v) == kept.last(), "wrong-tree", || format!("the tree written as number {v} instead of the last, {:?}, of {}", kept.last(), kept.len()));
        let v = get("other")?;
        o.check(v == -5, "wrong-tree", || format!("{v} instead of -5"));
        for c in [1i64, 2, 126, 127, 128, 255, 256, 32_766, 32_767] {
            let v = get(&format!("same;{c}"))?;
            o.check(kept.get(c as usize - 1) == Some(&v), "wrong-tree", || format!("same;{c}: {v}"));
        }
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("tree-lost", e);
    }
    let _ = std::fs::remove_file(&path);
}

/// A name which the format cannot hold is refused, and leaves the rest of the file as it is.
fn long_names(cx: &Ctx, o: &mut Out, r: &mut Rng, tree: usize, branch: usize) {
    let path = cx.path(".root");
    o.case(format!("a tree name of {tree} bytes, branch names of {branch}"));
    let mut trees = vec![];
    for (k, n) in ["first".to_string(), "t".repeat(tree), "last".to_string()].into_iter().enumerate() {
        let mut cols = random_tree(r, 3, 60, false);
        if k == 1 {
            for (j, c) in cols.iter_mut().enumerate() {
                c.name = "b".repeat(branch.saturating_sub(1).max(1)) + &j.to_string();
            }
            // more than one block
            let ty = *r.pick(&[Ty::Scalar(P::I64), Ty::Vec(P::I32), Ty::Str]);
            cols.push(Spec::new(&"c".repeat(branch), ty, 9000, r.next()));
        }
        trees.push((n, cols));
    }
    let mut kept = vec![];
    let res = (|| -> Result<(), String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        for (k, t) in trees.iter().enumerate() {
            match append_specs(&mut f, std::slice::from_ref(t)) {
                Ok(()) => kept.push(t.clone()),
                Err(e) => {
                    o.count("names refused for their length", 1);
                    o.check(k == 1 && tree + branch > 32_500, "refused-too-early", || format!("tree {k}: {}", clip(&e, 200)));
                }
            }
        }
        f.close().map_err(|e| format!("close: {e}"))
    })();
    if let Err(e) = res {
        o.viol("write-failed", e);
        return;
    }
    let names = kept.iter().map(|t| t.0.clone()).collect();
    verify(cx, o, r, &path, names, kept, None);
    let _ = std::fs::remove_file(&path);
}

/// The reopened file against the trees written; the content of tree `skip` is checked elsewhere.
fn verify(cx: &Ctx, o: &mut Out, r: &mut Rng, path: &std::path::Path, names: Vec<String>, trees: Vec<(String, Vec<Spec>)>, skip: Option<usize>) {
    o.eval();
    if !names.is_empty() {
        o.seen((&names, path.as_os_str().len()));
    }
    let mut f = match RootFile::open(path) {
        Ok(f) => f,
        Err(e) => {
            o.viol("reopen-failed", e.to_string());
            return;
        }
    };
    let got: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    o.check(got == names, "key-names", || format!("{got:?} instead of {names:?}"));
    let keys = f.keys();
    o.check(keys.len() == names.len(), "key-count", || format!("{} instead of {}", keys.len(), names.len()));
    let flen = std::fs::metadata(path).map(|m| m.len() as i64).unwrap_or(0);
    let mut prev = 0;
    for (k, n) in keys.iter().zip(&names) {
        o.check(k.name() == n, "key-name", || format!("{:?} instead of {n:?}", k.name()));
        o.check(k.class_name() == "TTree" && k.class() == "TTree", "key-class", || format!("{:?} for {n:?}", k.class_name()));
        let ok = k.seek_key() > prev && k.n_bytes() > 0 && k.seek_key() + k.n_bytes() as i64 <= flen;
        o.check(ok, "key-extent", || format!("{n:?}: {}+{} in a file of {flen}", k.seek_key(), k.n_bytes()));
        prev = k.seek_key();
    }
    // refusal of names which are not there
    for a in ["absent", "t\u{0}", "", "TTree2", "absent;1", ";1", ";", "n", " t", "t "] {
        if !names.iter().any(|n| n == a) {
            o.check(f.get_tree(a).is_err(), "absent-tree-found", || format!("{a:?}"));
        }
    }
    // the last one written under each name, in random order, some twice
    let mut last: HashMap<&str, usize> = HashMap::new();
    for (i, n) in names.iter().enumerate() {
        last.insert(n, i);
    }
    let mut todo: Vec<usize> = last.values().copied().filter(|i| Some(*i) != skip).collect();
    todo.sort();
    for _ in 0..todo.len().min(3) {
        let k = *r.pick(&todo);
        todo.push(k);
    }
    for k in (1..todo.len()).rev() {
        let j = r.range(0, k);
        todo.swap(k, j);
    }
    let mut asked: Vec<(usize, String)> = todo.iter().map(|i| (*i, names[*i].clone())).collect();
    // `name;cycle` designates the tree written under this name in that turn
    let plain: Vec<usize> = (0..names.len()).filter(|i| !names[*i].contains(';') && Some(*i) != skip).collect();
    for _ in 0..plain.len().min(6) {
        let i = *r.pick(&plain);
        let cycle = names[..=i].iter().filter(|n| **n == names[i]).count();
        asked.push((i, format!("{};{cycle}", names[i])));
        o.count("trees asked for by cycle", 1);
        let of = names.iter().filter(|n| **n == names[i]).count();
        for c in [0, of + 1, of + 7, 9998, 40_000] {
            if c == 0 || c > of {
                let a = format!("{};{c}", names[i]);
                o.check(f.get_tree(&a).is_err(), "absent-cycle-found", || format!("{a:?} of {of}"));
            }
        }
        for c in ["", "x", "-1", "70000", "1;1", "1.0"] {
            let a = format!("{};{c}", names[i]);
            if !names.contains(&a) {
                o.check(f.get_tree(&a).is_err(), "absent-cycle-found", || format!("{a:?}"));
            }
        }
    }
    for (i, ask) in asked {
        let (n, specs) = &trees[i];
        match f.get_tree(&ask) {
            Err(e) => o.viol("tree-lost", format!("{ask:?}: {e}")),
            Ok(t) => {
                let max = specs.iter().map(|c| c.n).max().unwrap_or(0) as i64;
                let nb = t.branches().count();
                if t.entries() != max || nb != specs.len() {
                    o.viol("wrong-tree", format!("{ask:?} (number {i} of {} {n:?}): {} entries, {nb} branches instead of {max}, {}", names.len(), t.entries(), specs.len()));
                    continue;
                }
                for s in specs {
                    match t.branch(&s.name) {
                        Some(b) => {
                            check_branch(o, b, s);
                        }
                        None => o.viol("wrong-tree", format!("{ask:?} (number {i}): no branch {:?}", s.name)),
                    }
                    o.count("branches", 1);
                }
                o.count("trees", 1);
            }
        }
    }
    let _ = cx;
}

/// A file whose end, when the directory is written, is exactly `end`.
fn big(cx: &Ctx, o: &mut Out, end: i64, text: bool) {
    const N: usize = 32;
    let dir = std::env::temp_dir().join(format!("vharness-big.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("big.root");
    o.case(format!("data up to position {end}"));
    const L: usize = 31_000;
    let filler: &'static str = "0123456789abcdefghijklmnopqrstuvwxyz".repeat(L / 36 + 2).leak();
    let str_at = move |i: usize| -> String { format!("{i:012}") + &filler[i % 36..i % 36 + L - 12] };
    let val = |i: usize, k: usize| (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (k as u64);
    let write = |n: usize, tail: usize| -> Result<i64, String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("bulk");
        if text {
            t.new_branch("w", (0..n).map(str_at));
        } else {
            t.new_branch("w", (0..n).map(move |i| -> [u64; N] { std::array::from_fn(|k| val(i, k)) }));
        }
        t.write(&mut f).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("tail");
        t.new_branch("s", std::iter::once("z".repeat(tail)));
        t.write(&mut f).map_err(|e| e.to_string())?;
        let k = f.keys();
        let last = k.last().ok_or("no key")?;
        let e = last.seek_key() + last.n_bytes() as i64;
        f.close().map_err(|e| e.to_string())?;
        Ok(e)
    };
    // the length of the file grows by one byte per byte of the tail
    let n0 = if text { 30usize } else { 4000 };
    let per = match (write(n0 * 4, 1000), write(n0 * 8, 1000)) {
        (Ok(a), Ok(b)) => (b - a) as f64 / (n0 * 4) as f64,
        (a, b) => {
            o.viol("write-failed", format!("{a:?} {b:?}"));
            return;
        }
    };
    let n = ((end - 1_500_000) as f64 / per) as usize;
    // estimate, then correct: two writes of the whole file at most
    let mut tail = 1000usize;
    let mut used = tail;
    let mut reached = 0;
    for _ in 0..3 {
        match write(n, tail) {
            Ok(e) => {
                reached = e;
                used = tail;
                if e == end || cx.over() {
                    break;
                }
                let t = tail as i64 + end - e;
                if t < 300 {
                    o.error(format!("cannot tune the size of the file: {e} for {end}"));
                    let _ = std::fs::remove_dir_all(&dir);
                    return;
                }
                tail = t as usize;
            }
            Err(e) => {
                if e.contains("No space left") {
                    o.count("skipped_no_space", 1);
                    let _ = std::fs::remove_dir_all(&dir);
                    return;
                }
                o.viol("write-failed", e);
                let _ = std::fs::remove_dir_all(&dir);
                return;
            }
        }
    }
    o.eval();
    o.seen(("big", reached));
    o.sample(format!("{n} entries ({}), data end {reached}", if text { "strings" } else { "arrays" }));
    o.count("big_file_bytes", std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
    let r = (|| -> Result<(), String> {
        let mut f = RootFile::open(&path).map_err(|e| format!("open: {e}"))?;
        let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        if names != ["bulk", "tail"] {
            return Err(format!("keys {names:?}"));
        }
        let t = f.get_tree("tail").map_err(|e| format!("get_tree: {e}"))?;
        let b = t.branch("s").ok_or("no branch s")?;
        let v: Vec<String> = b.as_iter::<String>().map_err(|e| e.to_string())?.take(2).collect();
        if v != ["z".repeat(used)] {
            return Err("content of the tail differs".into());
        }
        let t = f.get_tree("bulk").map_err(|e| format!("get_tree: {e}"))?;
        let b = t.branch("w").ok_or("no branch w")?;
        if b.entries() != n as i64 {
            return Err(format!("{} entries instead of {n}", b.entries()));
        }
        let mut c = 0;
        if text {
            for (i, a) in b.as_iter::<String>().map_err(|e| e.to_string())?.take(n + 1).enumerate() {
                if a != str_at(i) {
                    return Err(format!("entry {i} differs"));
                }
                c += 1;
            }
        } else {
            for (i, a) in b.as_iter::<[u64; N]>().map_err(|e| e.to_string())?.take(n + 1).enumerate() {
                if (0..N).any(|k| a[k] != val(i, k)) {
                    return Err(format!("entry {i} differs"));
                }
                c += 1;
            }
        }
        if c != n {
            return Err(format!("{c} entries read of {n}"));
        }
        Ok(())
    })();
    if let Err(e) = r {
        o.viol("big-file", format!("data end {reached}: {e}"));
    }
    if let Err(e) = big_records(&path) {
        o.viol("big-file-records", format!("data end {reached}: {e}"));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Trees written after the first two gigabytes of a file, and one lying across the boundary.
fn beyond(cx: &Ctx, o: &mut Out, from: i64, r: &mut Rng) {
    let dir = std::env::temp_dir().join(format!("vharness-beyond.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("beyond.root");
    const L: usize = 31_000;
    let filler: &'static str = "zyxwvutsrqponmlkjihgfedcba9876543210".repeat(L / 36 + 2).leak();
    let str_at = move |i: usize| -> String { format!("{i:012}") + &filler[i % 36..i % 36 + L - 12] };
    // one block per entry; the table of the blocks is the only other part which grows
    let n = (from / (L as i64 + 77)) as usize + 1;
    let side = crate::p_struct::beside(n);
    let mut names = vec!["bulk".to_string()];
    let mut trees: Vec<(String, Vec<Spec>)> = vec![("bulk".into(), vec![])];
    let some: Vec<String> = (0..3).map(|j| tree_name(r, j)).filter(|n| n != "bulk").collect();
    for j in 0..12 {
        let name = if j % 3 == 0 || some.is_empty() { format!("own {j}") } else { r.pick(&some).clone() };
        names.push(name.clone());
        trees.push((name, random_tree(r, 4, if j == 5 { 40_000 } else { 60 }, false)));
    }
    o.case(format!("trees {names:?} from position {from} on"));
    let w = (|| -> Result<(), String> {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        let mut t = WriterTree::new("bulk");
        t.new_branch("w", (0..n).map(str_at));
        for c in &side {
            c.add_to(&mut t);
        }
        t.write(&mut f).map_err(|e| e.to_string())?;
        crate::gen::append_specs(&mut f, &trees[1..])?;
        f.close().map_err(|e| e.to_string())
    })();
    match w {
        Err(e) if e.contains("No space left") => o.count("skipped_no_space", 1),
        Err(e) => o.viol("write-failed", e),
        Ok(()) => {
            verify(cx, o, r, &path, names, trees, Some(0));
            let bulk = (|| -> Result<(), String> {
                let mut f = RootFile::open(&path).map_err(|e| format!("open: {e}"))?;
                let t = f.get_tree("bulk").map_err(|e| format!("get_tree: {e}"))?;
                let b = t.branch("w").ok_or("no branch w")?;
                let mut c = 0;
                for (i, a) in b.as_iter::<String>().map_err(|e| e.to_string())?.take(n + 1).enumerate() {
                    if a != str_at(i) {
                        return Err(format!("entry {i} differs"));
                    }
                    c += 1;
                }
                if (t.entries(), b.entries(), c) != (n as i64, n as i64, n) {
                    return Err(format!("{} and {} entries, {c} read, of {n}", t.entries(), b.entries()));
                }
                for c in &side {
                    let b = t.branch(&c.name).ok_or_else(|| format!("no branch {}", c.name))?;
                    c.compare(b).map_err(|(s, e)| format!("column {}: {s} {e}", c.name))?;
                }
                Ok(())
            })();
            if let Err(e) = bulk {
                o.viol("big-file", e);
            }
            match big_records(&path).and_then(|()| walk(&path)) {
                Err(e) => o.viol("big-file-records", e),
                Ok((all, wide)) => {
                    o.count("records of big files", all);
                    o.count("records of big files with 64 bits positions", wide);
                    o.check(from < 2_000_000_000 || wide > 20, "harness", || format!("only {wide} records beyond the boundary"));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Records tile the file from its beginning to its end, each telling its own position.
fn walk(path: &std::path::Path) -> Result<(u64, u64), String> {
    use crate::rootfmt::{parse_header, Rec};
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let len = f.metadata().map_err(|e| e.to_string())?.len() as i64;
    let mut head = vec![0u8; 8192];
    let n = f.read_at(&mut head, 0).map_err(|e| e.to_string())?;
    let h = parse_header(&head[..n])?;
    let (mut p, mut all, mut wide) = (h.begin as i64, 0, 0);
    while p < len {
        let n = f.read_at(&mut head, p as u64).map_err(|e| e.to_string())?;
        let r = Rec::parse(&head[..n], 0).map_err(|e| format!("at {p}: {e}"))?;
        // the header of a block goes on with what is proper to blocks
        let hdr = r.hdr_len + if r.class == "TBasket" { 19 } else { 0 };
        if (r.ver != 4 && r.ver != 1004) || r.seek_key != p || hdr != r.keylen as usize || r.nbytes < r.keylen {
            return Err(format!("record at {p} tells position {}, header of {} bytes ({} found), {} bytes", r.seek_key, r.keylen, r.hdr_len, r.nbytes));
        }
        all += 1;
        wide += (r.ver > 1000) as u64;
        p += r.nbytes as i64;
    }
    if p != len {
        return Err(format!("the last record ends at {p}, the file at {len}"));
    }
    Ok((all, wide))
}

/// The administrative records at the end of the file, read independently.
fn big_records(path: &std::path::Path) -> Result<(), String> {
    use crate::rootfmt::{parse_header, DirRec, Rec};
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let mut head = vec![0u8; 20_000];
    let n = f.read_at(&mut head, 0).map_err(|e| e.to_string())?;
    head.truncate(n);
    let len = f.metadata().map_err(|e| e.to_string())?.len();
    let h = parse_header(&head)?;
    if h.end as u64 != len {
        return Err(format!("header says the end is {}, the file has {len} bytes", h.end));
    }
    let d = DirRec::parse(&head, (h.begin + h.nbytes_name as i64) as usize)?;
    if d.ver != 5 && d.ver != 1005 {
        return Err(format!("{d:?}"));
    }
    for (what, pos, nbytes) in [("keys", d.seek_keys, d.nbytes_keys), ("streamers", h.seek_info, h.nbytes_info), ("free", h.seek_free, h.nbytes_free)] {
        let mut b = vec![0u8; nbytes.max(0) as usize];
        f.read_exact_at(&mut b, pos as u64).map_err(|e| format!("{what}: {e}"))?;
        let r = Rec::parse(&b, 0).map_err(|e| format!("{what}: {e}"))?;
        if r.nbytes != nbytes || r.seek_key != pos || r.hdr_len != r.keylen as usize {
            return Err(format!("record of {what} at {pos}: header of {} bytes, {} announced; {} bytes, {nbytes} announced; position {}", r.hdr_len, r.keylen, r.nbytes, r.seek_key));
        }
    }
    Ok(())
}
