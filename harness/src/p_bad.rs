//! C16: unreadable input (missing, truncated, foreign, misused) gives an error value.
use crate::cols::*;
use crate::core::*;
use crate::gen::{any_type, string_of, write_specs, Len, Spec};
use crate::obs::{self, Data, TreeO};
use crate::p_lay::{self, REAL};
use crate::rng::Rng;
use crate::rootfmt as rf;
use crate::synth::{self, build, Algo, Layout};
use crate::sys::{self, Ev, Fault, Kind, Tap};
use oxyroot::{RootFile, WriterTree};
use std::path::{Path, PathBuf};

/// What the library makes of a file whose intact content is known.
#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
enum Got {
    NotOpened,
    SomeTreesRefused,
    SomeColumnsRefused,
    Same,
}

fn look(path: &Path, want: &[TreeO], limit: usize) -> Result<Got, (String, String)> {
    let mut f = match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => f,
        Ok(Err(_)) => return Ok(Got::NotOpened),
        Err(p) => return Err(("panic:open".into(), p.text())),
    };
    let names: Vec<String> = match guard(|| f.keys_name().map(String::from).collect()) {
        Ok(n) => n,
        Err(p) => return Err(("panic:keys".into(), p.text())),
    };
    let mut got = Got::Same;
    if names != want.iter().map(|t| t.name.clone()).collect::<Vec<_>>() {
        return Err(("other-keys".into(), format!("{names:?}")));
    }
    for w in want {
        let t = match guard(|| f.get_tree(&w.name)) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) => {
                got = Got::SomeTreesRefused;
                continue;
            }
            Err(p) => return Err(("panic:get_tree".into(), format!("{}: {}", w.name, p.text()))),
        };
        let seen = match guard(|| TreeO {
            name: w.name.clone(),
            entries: t.entries(),
            top: t.branches().map(|b| b.name().to_string()).collect(),
            cols: t.branches_r().into_iter().map(|b| obs::column(b, limit)).collect(),
        }) {
            Ok(t) => t,
            Err(p) => return Err(("panic:columns".into(), format!("{}: {}", w.name, p.text()))),
        };
        for c in &seen.cols {
            match &c.data {
                // as with the intact file?
                Data::Panic(e) if !w.cols.iter().any(|d| d.name == c.name && matches!(d.data, Data::Panic(_))) => {
                    return Err(("panic:values".into(), format!("{}.{}: {e}", w.name, c.name)))
                }
                _ => {}
            }
        }
        if let Some((s, d)) = diff_but_refused(w, &seen, &mut got) {
            return Err((format!("other-{s}"), d));
        }
    }
    Ok(got)
}

fn diff_but_refused(w: &TreeO, s: &TreeO, got: &mut Got) -> Option<(&'static str, String)> {
    let mut s = s.clone();
    for (a, b) in w.cols.iter().zip(s.cols.iter_mut()) {
        if matches!(b.data, Data::Refused(_)) && matches!(a.data, Data::Values(_)) {
            *got = (*got).max_refused();
            b.data = a.data.clone();
        }
    }
    obs::diff(std::slice::from_ref(w), std::slice::from_ref(&s))
}

impl Got {
    fn max_refused(self) -> Got {
        if self == Got::Same {
            Got::SomeColumnsRefused
        } else {
            self
        }
    }
}

// ---------------------------------------------------------------- truncation

/// Boundaries of the records, and everything around them.
fn interesting(d: &[u8]) -> Vec<usize> {
    let mut v = vec![0, 1, 3, 4, 8, 60, 61, 62, 63, 64, 65, 75, 76, 77, 99, 100, 101, d.len() / 2, d.len() - 1, d.len() - 2];
    if let Ok(f) = rf::File::parse(d.to_vec()) {
        for r in &f.recs {
            let p = r.pos;
            for q in [p, p + 1, p + 4, p + 18, p + 26, p + r.keylen as usize, p + r.keylen as usize + 1, p + r.nbytes as usize / 2, p + r.nbytes as usize - 1] {
                v.push(q);
            }
        }
    }
    v.retain(|p| *p < d.len());
    v.sort();
    v.dedup();
    v
}

fn cut(cx: &Ctx, o: &mut Out, name: &str, d: &[u8], cuts: &[usize], want: &[TreeO], limit: usize) {
    let p = cx.path(".root");
    // the descriptor grows shorter: no rewriting
    let mut cuts = cuts.to_vec();
    cuts.sort();
    cuts.dedup();
    cuts.reverse();
    if std::fs::write(&p, d).is_err() {
        o.error("harness: cannot write");
        return;
    }
    let f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
    for c in cuts {
        let _ = f.set_len(c as u64);
        o.eval();
        match look(&p, want, limit) {
            Ok(g) => {
                o.count(&format!("truncated: {g:?}"), 1);
                o.seen((name, c, g));
            }
            Err((s, e)) => {
                o.viol(format!("truncated:{s}"), format!("{name} cut to {c} of {} bytes: {}", d.len(), clip(&e, 500)));
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&p);
}

/// How many cuts of this file there is time for.
fn room(o: &mut Out, p: &Path, want: &[TreeO], limit: usize, ms: u64) -> usize {
    let t = std::time::Instant::now();
    let _ = look(p, want, limit);
    let _ = o;
    ((ms as f64 / 1000.0) / t.elapsed().as_secs_f64().max(1e-5)) as usize
}

fn trunc_real(cx: &Ctx, o: &mut Out, r: &mut Rng, k: usize, parts: usize) {
    let name = REAL[k % REAL.len()];
    let part = k / REAL.len();
    let path = cx.repo.join(name);
    let Ok(d) = std::fs::read(&path) else { return };
    let Ok(want) = obs::observe(&path, 1 << 20) else { return };
    let short = name.rsplit('/').next().unwrap();
    o.case(format!("truncations of {short}, part {part} of {parts}"));
    let ms = if cx.quick() { 6000 } else { 40_000 };
    let n = room(o, &path, &want, 1 << 20, ms);
    let mut cuts: Vec<usize> = if d.len() <= n * parts {
        o.count("parts with every length", 1);
        (part..d.len()).step_by(parts).collect()
    } else {
        let mut v: Vec<usize> = interesting(&d).into_iter().skip(part).step_by(parts).collect();
        if v.len() > n {
            v = (0..n).map(|_| *r.pick(&v)).collect();
        }
        while v.len() < n {
            v.push(r.below(d.len() as u64) as usize);
        }
        v
    };
    // the tail, where most of the structure is
    cuts.extend((d.len().saturating_sub(200)..d.len()).skip(part).step_by(parts));
    cut(cx, o, short, &d, &cuts, &want, 1 << 20);
}

fn trunc_made(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let p = cx.path(".root");
    let limit = 1 << 16;
    if i % 2 == 0 {
        let trees: Vec<(String, Vec<Spec>)> = (0..r.range(0, 3))
            .map(|t| {
                let cols = (0..r.range(0, 4))
                    .map(|c| {
                        let n = *r.pick(&[0usize, 1, 5, 40, 3000]);
                        Spec::new(&format!("c{c}"), any_type(r), n, r.next()).len(Len::Uni(0, 9))
                    })
                    .collect();
                (format!("t{t}"), cols)
            })
            .collect();
        o.case(format!("truncations of a written file {:?}", trees.iter().map(|t| t.1.iter().map(|s| s.desc()).collect::<Vec<_>>()).collect::<Vec<_>>()));
        if write_specs(&p, &trees).is_err() {
            return;
        }
    } else {
        let (fs, _) = p_lay::random_content(r);
        let mut l = Layout::random(r);
        l.far = 0;
        o.case(format!("truncations of {} trees {l:?}", fs.trees.len()));
        let (b, _) = synth::build(&fs, &l);
        let _ = std::fs::write(&p, &b);
    }
    let d = std::fs::read(&p).unwrap_or_default();
    let Ok(want) = obs::observe(&p, limit) else { return };
    let n = room(o, &p, &want, limit, if cx.quick() { 1200 } else { 6000 });
    let cuts: Vec<usize> = if d.len() <= n {
        o.count("files cut at every length", 1);
        (0..d.len()).collect()
    } else {
        let v = interesting(&d);
        (0..n.max(30)).map(|k| if k % 2 == 0 { *r.pick(&v) } else { r.below(d.len() as u64) as usize }).collect()
    };
    let _ = std::fs::remove_file(&p);
    cut(cx, o, "made", &d, &cuts, &want, limit);
}

// ---------------------------------------------------------------- foreign files

fn foreign_content(r: &mut Rng, k: u64) -> (String, Vec<u8>) {
    let n = *r.pick(&[0usize, 1, 3, 4, 5, 63, 75, 76, 77, 100, 300, 5000, 100_000]);
    let rnd = |r: &mut Rng, n: usize| (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>();
    let text = |r: &mut Rng, n: usize| (0..n).map(|_| b' ' + (r.below(95) as u8)).collect::<Vec<u8>>();
    match k % 16 {
        0 => ("zeros".into(), vec![0; n]),
        1 => ("ones".into(), vec![0xff; n]),
        2 => ("random".into(), rnd(r, n)),
        3 => ("text".into(), text(r, n)),
        4 => ("text beginning with root".into(), [b"root".to_vec(), text(r, n)].concat()),
        5 => ("passwd".into(), [b"root:x:0:0:root:/root:/bin/bash\ndaemon:x:1:1:daemon:/usr/sbin:/usr/sbin/nologin\nbin:x:2:2:bin:/bin:/usr/sbin/nologin\n".to_vec(), text(r, n)].concat()),
        6 => ("gzip".into(), [vec![0x1f, 0x8b, 8, 0], rnd(r, n)].concat()),
        7 => ("zip".into(), [b"PK\x03\x04".to_vec(), rnd(r, n)].concat()),
        8 => ("elf".into(), std::fs::read("/bin/true").map(|d| d[..d.len().min(n.max(64))].to_vec()).unwrap_or_default()),
        9 => ("upper case".into(), [b"ROOT".to_vec(), rnd(r, n)].concat()),
        10 => ("shifted".into(), [b" root".to_vec(), rnd(r, n)].concat()),
        11 => ("hdf5".into(), [b"\x89HDF\r\n\x1a\n".to_vec(), rnd(r, n)].concat()),
        12 => ("source".into(), b"fn main() { println!(\"root\"); }\n".repeat(1 + n / 30)),
        13 => ("root and zeros".into(), [b"root".to_vec(), vec![0; n]].concat()),
        14 => ("root and ones".into(), [b"root".to_vec(), vec![0xff; n]].concat()),
        _ => ("json".into(), [b"{\"root\": [".to_vec(), text(r, n)].concat()),
    }
}

fn foreign(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let (what, d) = foreign_content(r, i);
    let p = cx.path(".root");
    o.case(format!("foreign file: {what}, {} bytes", d.len()));
    let _ = std::fs::write(&p, &d);
    refused(o, &p, &what);
    o.seen((what, d.len()));
    o.check(std::fs::read(&p).ok() == Some(d), "file-changed", || "by reading".into());
    let _ = std::fs::remove_file(&p);
}

fn refused(o: &mut Out, p: &Path, what: &str) {
    o.eval();
    match guard(|| RootFile::open(p).map(|_| ())) {
        Ok(Ok(())) => o.viol("accepted", format!("{what}: opened")),
        Ok(Err(_)) => o.count(&format!("refused: {what}"), 1),
        Err(e) => o.viol("panic:open", format!("{what}: {}", e.text())),
    }
}

fn odd_paths(cx: &Ctx, o: &mut Out) {
    use std::os::unix::ffi::OsStrExt;
    let dir = cx.path(".d");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let _ = std::os::unix::fs::symlink(dir.join("loop"), dir.join("loop"));
    let _ = std::os::unix::fs::symlink(dir.join("nothing"), dir.join("dangling"));
    let _ = std::fs::write(dir.join("file"), b"x");
    let not_utf8 = dir.join(std::ffi::OsStr::from_bytes(b"bad\xff\xfe.root"));
    let before = listing(&dir);
    let cases: Vec<(&str, PathBuf)> = vec![
        ("missing", dir.join("missing.root")),
        ("missing directory", dir.join("x/y.root")),
        ("directory", dir.clone()),
        ("empty path", PathBuf::from("")),
        ("link to itself", dir.join("loop")),
        ("dangling link", dir.join("dangling")),
        ("below a file", dir.join("file/x")),
        ("name too long", dir.join("n".repeat(256))),
        ("path too long", dir.join("d/".repeat(2100)).join("x")),
        ("NUL", dir.join("a\0b")),
        ("not UTF-8", not_utf8),
        ("/dev/null", PathBuf::from("/dev/null")),
        ("/dev/zero", PathBuf::from("/dev/zero")),
        ("/dev/full", PathBuf::from("/dev/full")),
        ("/dev/urandom", PathBuf::from("/dev/urandom")),
    ];
    for (what, p) in &cases {
        o.case(format!("open {what}"));
        refused(o, p, what);
        o.seen(what);
    }
    o.check(listing(&dir) == before, "file-created", || format!("{:?}", listing(&dir)));
    // a directory or a file where a link leads is not created either, and a directory is not opened for writing
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn listing(d: &Path) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = std::fs::read_dir(d)
        .map(|i| {
            i.flatten()
                .map(|e| (e.file_name().to_string_lossy().into_owned(), e.metadata().map(|m| if m.is_file() { m.len() } else { 0 }).unwrap_or(0)))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

// ---------------------------------------------------------------- what is not there

fn absent(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let real = i % 3 == 0;
    let p;
    if real {
        p = cx.repo.join(REAL[(i / 3) as usize % REAL.len()]);
    } else {
        p = cx.path(".root");
        let same = r.chance(1, 3);
        let trees: Vec<(String, Vec<Spec>)> = (0..r.range(0, 4))
            .map(|t| (format!("t{}", if same { 0 } else { t }), (0..r.range(0, 4)).map(|c| Spec::new(&format!("c{c}"), any_type(r), r.range(0, 30), r.next())).collect()))
            .collect();
        if write_specs(&p, &trees).is_err() {
            return;
        }
    }
    o.case(format!("what is not in {}", p.display()));
    let before = std::fs::read(&p).unwrap_or_default();
    let res = guard_res(|| {
        let mut f = RootFile::open(&p).map_err(|e| e.to_string())?;
        let names: Vec<String> = f.keys_name().map(String::from).collect();
        let mut asked: Vec<String> = ["", " ", "/", "nothing", "StreamerInfo", "TTree", "nothing;1", ";", "../x", "\0", "a/b", "*", ".*"].map(String::from).to_vec();
        for n in &names {
            asked.extend([n.to_uppercase(), n.to_lowercase(), format!("{n} "), format!(" {n}"), format!("{n};77"), format!("{n};"), format!("{n};x"), format!("{n}x"), n.chars().skip(1).collect(), n.chars().take(n.chars().count().saturating_sub(1)).collect(), format!("/{n}"), format!("{n}/"), format!("{n}\0")]);
        }
        for _ in 0..5 {
            let l = r.range(0, 60);
            asked.push(string_of(r, l));
        }
        asked.push("z".repeat(100_000));
        // cycles which are not there: those of a name are 1, 2, 3… in files written by the library
        if !real {
            for n in &names {
                let k = names.iter().filter(|m| *m == n).count();
                asked.extend([0, k + 1, k + 2, k + 7, 100, 9998].iter().map(|c| format!("{n};{c}")));
            }
        }
        for a in &asked {
            if names.contains(a) {
                continue;
            }
            o.eval();
            o.seen((&names, a));
            if f.get_tree(a).is_ok() {
                o.viol("accepted", format!("tree {a:?} of {names:?}"));
            }
            o.count("absent trees asked for", 1);
        }
        // it goes on working
        for n in &names {
            let t = f.get_tree(n).map_err(|e| format!("after refused requests, tree {n}: {e}"))?;
            let cols: Vec<String> = t.branches_r().iter().map(|b| b.name().to_string()).collect();
            let all: Vec<&str> = cols.iter().map(|s| s.as_str()).collect();
            let mut asked: Vec<String> = ["", ".", "..", "nothing", "[0]", "/", "a.b.c.d", " ", "\0", "*"].map(String::from).to_vec();
            for c in cols.iter().take(20) {
                asked.extend([format!("{c}_"), format!("{c} "), format!(" {c}"), format!("{c}."), format!("{c}\0"), format!("{c}[0]"), format!("{c}/{c}"), c.to_uppercase(), c.to_lowercase(), c.chars().take(c.chars().count() - 1).collect()]);
            }
            asked.push("z".repeat(100_000));
            for a in &asked {
                // a name which may designate an existing column is not asked for (C20 decides those)
                if all.iter().any(|c| c == a || c.trim_end_matches('.') == a.trim_end_matches('.') || c.ends_with(&format!(".{a}")) || c.starts_with(&format!("{a}[")) || c.split(['.', '[', '/']).any(|x| x == a)) || a.contains('[') || a.contains('/') {
                    let _ = t.branch(a);
                    continue;
                }
                o.eval();
                o.count("absent columns asked for", 1);
                if t.branch(a).is_some() {
                    o.viol("accepted", format!("column {a:?} of {:?} is {:?}", clip(&format!("{cols:?}"), 300), t.branch(a).map(|b| b.name())));
                }
            }
        }
        Ok(())
    });
    if let Err(e) = res {
        o.viol(if e.contains("panic") { "panic:absent" } else { "absent" }, e);
    }
    o.check(std::fs::read(&p).ok() == Some(before), "file-changed", || "by reading".into());
    if !real {
        let _ = std::fs::remove_file(&p);
    }
}

// ---------------------------------------------------------------- wrong use

fn misuse(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let p = cx.path(".root");
    let trees: Vec<(String, Vec<Spec>)> = (0..r.range(0, 3))
        .map(|t| (format!("t{t}"), (0..r.range(0, 3)).map(|c| Spec::new(&format!("c{c}"), any_type(r), r.range(0, 500), r.next())).collect()))
        .collect();
    o.case(format!("wrong use of {} trees, variant {}", trees.len(), i % 4));
    if let Err(e) = write_specs(&p, &trees) {
        o.viol("write-failed", e);
        return;
    }
    let before = std::fs::read(&p).unwrap();
    let ls = listing(&cx.scratch).len();
    let _ = ls;
    let check_content = |f: &mut RootFile| -> Result<(), String> {
        for (n, cols) in &trees {
            let t = f.get_tree(n).map_err(|e| format!("tree {n}: {e}"))?;
            for c in cols {
                let b = t.branch(&c.name).ok_or(format!("no column {}", c.name))?;
                c.compare(b).map_err(|(s, e)| format!("{s} {e}"))?;
            }
        }
        Ok(())
    };
    o.eval();
    o.seen((i % 4, trees.len(), before.len()));
    let n_new = r.range(0, 3);
    let res = guard_res(|| {
        if i % 4 < 2 {
            // a file opened for reading as output
            let mut f = RootFile::open(&p).map_err(|e| e.to_string())?;
            let mut held = None;
            if r.chance(1, 2) {
                held = trees.first().and_then(|t| f.get_tree(&t.0).ok());
            }
            for k in 0..r.range(1, 3) {
                let mut t = WriterTree::new(if r.chance(1, 2) { "t0" } else { "new" });
                for c in 0..n_new {
                    Spec::new(&format!("n{c}"), any_type(r), r.range(0, 9000), r.next()).add_to(&mut t);
                }
                match t.write(&mut f) {
                    Ok(()) => return Err(format!("accepted: written into a file opened for reading ({k})")),
                    Err(e) => o.count(&format!("refused: {}", clip(&e.to_string(), 60)), 1),
                }
                if r.chance(1, 2) {
                    check_content(&mut f).map_err(|e| format!("after the refused writing: {e}"))?;
                }
            }
            if i % 4 == 1 {
                match f.close() {
                    Ok(()) => o.count("close() of a file opened for reading: ok", 1),
                    Err(_) => o.count("close() of a file opened for reading: error", 1),
                }
            }
            check_content(&mut f).map_err(|e| format!("after the refused writing: {e}"))?;
            if let Some(t) = held {
                for (a, c) in t.branches_r().iter().zip(&trees[0].1) {
                    c.compare(a).map_err(|(s, e)| format!("a tree got before: {s} {e}"))?;
                }
            }
            drop(f);
            if std::fs::read(&p).unwrap() != before {
                return Err("file-changed: by the refused writing".into());
            }
        } else {
            // a file being written as input
            let q = p.with_extension("new");
            let mut f = RootFile::create(&q).map_err(|e| e.to_string())?;
            let ask = |f: &mut RootFile, when: &str| -> Result<(), String> {
                for n in ["t0", "t1", "x", ""] {
                    if f.get_tree(n).is_ok() {
                        return Err(format!("accepted: get_tree({n:?}) of a file being written, {when}"));
                    }
                }
                let _ = f.keys_name().count();
                let _ = f.keys().len();
                Ok(())
            };
            ask(&mut f, "at first")?;
            for (n, cols) in &trees {
                let mut t = WriterTree::new(n);
                for c in cols {
                    c.add_to(&mut t);
                }
                t.write(&mut f).map_err(|e| format!("write: {e}"))?;
                ask(&mut f, "after a tree")?;
            }
            f.close().map_err(|e| format!("close: {e}"))?;
            ask(&mut f, "after closing")?;
            drop(f);
            let mut g = RootFile::open(&q).map_err(|e| format!("the file written meanwhile: {e}"))?;
            check_content(&mut g).map_err(|e| format!("the file written meanwhile: {e}"))?;
            let _ = std::fs::remove_file(&q);
        }
        Ok(())
    });
    if let Err(e) = res {
        let sig = ["accepted", "file-changed"].into_iter().find(|s| e.starts_with(s)).unwrap_or(if e.contains("panic") { "panic:misuse" } else { "misuse" });
        o.viol(sig, e);
    }
    let _ = std::fs::remove_file(&p);
}

/// Files of other makes, opened for reading, are no outputs either.
fn misuse_others(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let p = cx.path(".root");
    let mut names = vec![];
    if i % 3 == 0 {
        let q = cx.repo.join(REAL[(i / 3) as usize % REAL.len()]);
        std::fs::copy(&q, &p).expect("harness: sample file");
        o.case(format!("{} as output", q.display()));
    } else {
        let (mut fs, _) = p_lay::random_content(r);
        if r.chance(1, 2) {
            names = p_lay::others(&mut fs, r).into_iter().map(|x| x.0).collect();
        }
        let mut l = Layout::random(r);
        l.far = 0;
        l.algos.retain(|a| *a != Algo::Lzma);
        l.algos.push(Algo::None);
        std::fs::write(&p, build(&fs, &l).0).expect("harness: scratch file");
        o.case(clip(&format!("as output: {:?}, others {names:?}, {l:?}", fs.trees.iter().map(|t| &t.name).collect::<Vec<_>>()), 1200));
    }
    let before = std::fs::read(&p).unwrap();
    let limit = 50;
    let res = guard_res(|| {
        let mut f = RootFile::open(&p).map_err(|e| format!("harness: {e}"))?;
        let keys: Vec<String> = f.keys_name().map(String::from).collect();
        let see = |f: &mut RootFile| {
            let mut v = vec![];
            for n in &keys {
                let Ok(t) = f.get_tree(n) else { continue };
                v.push(TreeO {
                    name: n.clone(),
                    entries: t.entries(),
                    top: t.branches().map(|b| b.name().to_string()).collect(),
                    cols: t.branches_r().into_iter().take(20).map(|b| obs::column(b, limit)).collect(),
                });
            }
            v
        };
        let was = see(&mut f);
        names.extend(keys.iter().cloned());
        names.push("new".into());
        for k in 0..r.range(1, 4) {
            let mut t = WriterTree::new(r.pick(&names));
            for c in 0..*r.pick(&[0, 0, 1, 3]) {
                let n = *r.pick(&[0usize, 1, 10, 9000]);
                Spec::new(&format!("n{c}"), any_type(r), n, r.next()).add_to(&mut t);
            }
            o.eval();
            match t.write(&mut f) {
                Ok(()) => return Err(format!("accepted: written into a file opened for reading ({k})")),
                Err(e) => o.count(&format!("refused: {}", clip(&e.to_string(), 60)), 1),
            }
        }
        if r.chance(1, 2) {
            match f.close() {
                Ok(()) => o.count("close() of a file opened for reading: ok", 1),
                Err(_) => o.count("close() of a file opened for reading: error", 1),
            }
        }
        let now: Vec<String> = f.keys_name().map(String::from).collect();
        if now != keys || f.keys().len() != keys.len() {
            return Err(format!("keys after the refused writing: {now:?} instead of {keys:?}"));
        }
        if let Some((s, d)) = obs::diff(&was, &see(&mut f)) {
            return Err(format!("after the refused writing: {s} {d}"));
        }
        drop(f);
        if std::fs::read(&p).unwrap() != before {
            return Err("file-changed: by the refused writing".into());
        }
        o.seen((i % 3, before.len()));
        Ok(())
    });
    if let Err(e) = res {
        let sig = ["accepted", "file-changed"].into_iter().find(|s| e.starts_with(s)).unwrap_or(if e.contains("panic") { "panic:misuse" } else { "misuse" });
        o.viol(sig, e);
    }
    let _ = std::fs::remove_file(&p);
}

// ---------------------------------------------------------------- faults of the input

fn leaks(tap: &Tap) -> i64 {
    let o = tap.events.iter().filter(|e| matches!(e, Ev::Open { fd, .. } if *fd >= 0)).count() as i64;
    let c = tap.events.iter().filter(|e| matches!(e, Ev::Close { .. })).count() as i64;
    o - c
}

fn input_faults(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let (p, made) = if i % 2 == 0 {
        (cx.repo.join(REAL[(i / 2) as usize % REAL.len()]), false)
    } else {
        let p = cx.path(".root");
        let trees: Vec<(String, Vec<Spec>)> = (0..r.range(1, 2))
            .map(|t| (format!("t{t}"), (0..r.range(0, 3)).map(|c| Spec::new(&format!("c{c}"), any_type(r), r.range(0, 3000), r.next()).len(Len::Uni(0, 9))).collect()))
            .collect();
        if write_specs(&p, &trees).is_err() {
            return;
        }
        (p, true)
    };
    o.case(format!("faults while reading {}", p.display()));
    let Ok(want) = obs::observe(&p, 1 << 20) else { return };
    // opening and getting the trees: the calls, undisturbed
    let mut meta = Tap::default();
    let get = |names: &[TreeO]| -> Result<(), String> {
        let mut f = RootFile::open(&p).map_err(|e| e.to_string())?;
        for t in names {
            f.get_tree(&t.name).map_err(|e| e.to_string())?;
        }
        Ok(())
    };
    if sys::tapped(&mut meta, || guard_res(|| get(&want))).is_err() {
        return;
    }
    o.check(leaks(&meta) == 0, "descriptors", || format!("{} left open", leaks(&meta)));
    let calls = meta.rcalls;
    o.count("calls while opening and looking up", calls);
    let pts: Vec<u64> = if calls <= 60 { (0..calls).collect() } else { (0..60).map(|_| r.below(calls)).collect() };
    for at in pts {
        for (kind, lasting) in [
            (Kind::Errno(libc::EIO), true),
            (Kind::Errno(*r.pick(&[libc::EIO, libc::EMFILE, libc::ENOENT, libc::EACCES, libc::ESTALE])), false),
            (Kind::Errno(libc::EINTR), false),
            (Kind::Short, true),
        ] {
            let mut tap = Tap { rfault: Some(Fault { at, kind, lasting }), ..Default::default() };
            let res = sys::tapped(&mut tap, || guard(|| get(&want)));
            o.eval();
            let hit = tap.events.iter().find_map(|e| if let Ev::Fault(w, e) = e { Some((*w, *e)) } else { None });
            let Some((what, errno)) = hit else { continue };
            o.count(&format!("injected into {what}"), 1);
            o.seen((p.file_name(), at, errno, lasting));
            match res {
                Err(e) => o.viol(format!("panic:input-{what}"), format!("errno {errno} on {what} ({at} of {calls}): {}", e.text())),
                Ok(Ok(())) if tap.failed > 0 => {
                    // a failure which does not matter (a seek within what is there already, say) may be overcome
                    o.count("failures overcome", 1)
                }
                Ok(Err(e)) if tap.failed == 0 => o.viol("spurious-failure", format!("disturbance without failure on {what} ({at} of {calls}): {e}")),
                _ => {}
            }
            o.check(leaks(&tap) == 0, "descriptors", || format!("{} left open after errno {errno} on {what} ({at} of {calls})", leaks(&tap)));
            if !o.viols.is_empty() {
                break;
            }
        }
        if !o.viols.is_empty() {
            break;
        }
    }
    // reads in small parts give the same values; failing ones never others
    for k in 0..cx.n(12, 60) {
        let f = match k % 3 {
            0 => Fault { at: 0, kind: Kind::Short, lasting: true },
            1 => Fault { at: r.below(calls * 3), kind: Kind::Errno(libc::EINTR), lasting: false },
            _ => Fault { at: calls + r.below(200), kind: Kind::Errno(libc::EIO), lasting: r.chance(1, 2) },
        };
        let mut tap = Tap { rfault: Some(f), ..Default::default() };
        let got = sys::tapped(&mut tap, || obs::observe(&p, 1 << 20));
        o.eval();
        match got {
            Ok(g) => {
                for (a, b) in want.iter().zip(&g) {
                    for (c, d) in a.cols.iter().zip(&b.cols) {
                        match (&c.data, &d.data) {
                            (Data::Values(x), Data::Values(y)) if x != y => o.viol("other-values", format!("{}.{}: with {f:?}: {}", a.name, c.name, obs::values_diff(x, y).unwrap_or_default())),
                            (Data::Values(_), Data::Values(_)) => {}
                            (Data::Values(_), d) if tap.failed == 0 => o.viol("spurious-failure", format!("{}.{}: with {f:?}: {}", a.name, c.name, clip(&format!("{d:?}"), 300))),
                            _ => {}
                        }
                    }
                }
                o.count(if tap.failed > 0 { "read completely with failures" } else { "read completely with disturbances" }, 1);
            }
            Err(e) if tap.failed == 0 => o.viol("spurious-failure", format!("with {f:?}: {e}")),
            Err(_) => o.count("reading refused", 1),
        }
        if !o.viols.is_empty() {
            break;
        }
    }
    if made {
        let _ = std::fs::remove_file(&p);
    }
}

/// Objects which are no trees among the trees: refused as trees, and no obstacle.
fn objects(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let (mut fs, exp) = p_lay::random_content(r);
    let others = p_lay::others(&mut fs, r);
    let mut l = Layout::random(r);
    l.far = 0;
    l.algos.retain(|a| *a != Algo::Lzma);
    l.algos.push(Algo::None);
    let p = cx.path(".root");
    std::fs::write(&p, build(&fs, &l).0).expect("harness: scratch file");
    o.case(clip(&format!("{others:?} among {:?}; {l:?}", exp.iter().map(|e| &e.name).collect::<Vec<_>>()), 1200));
    match guard(|| RootFile::open(&p)) {
        Err(e) => o.viol("objects:panic-open", e.text()),
        Ok(Err(e)) => o.viol("objects:unreadable", e.to_string()),
        Ok(Ok(mut f)) => {
            let n: Vec<&str> = f.keys_name().collect();
            o.check(n.len() == exp.len() + others.len() && others.iter().all(|x| n.contains(&x.0.as_str())), "objects:keys", || format!("{n:?}"));
            for (name, class) in &others {
                o.eval();
                match guard(|| f.get_tree(name).map(|t| t.entries())) {
                    Err(e) => o.viol("objects:panic", format!("{name:?} of class {class}: {}", e.text())),
                    Ok(Ok(n)) => o.viol("objects:accepted", format!("{name:?} of class {class} is a tree of {n} entries")),
                    Ok(Err(_)) => {}
                }
            }
            for e in &exp {
                o.eval();
                match guard(|| f.get_tree(&e.name).map(|t| t.entries())) {
                    Err(x) => o.viol("objects:panic", format!("{:?}: {}", e.name, x.text())),
                    Ok(Err(x)) => o.viol("objects:tree-refused", format!("{:?}: {x}", e.name)),
                    Ok(Ok(n)) => {
                        o.check(n == e.entries, "objects:entries", || format!("{:?}: {n} entries instead of {}", e.name, e.entries));
                    }
                }
            }
            o.seen((&others, exp.len()));
        }
    }
    let _ = std::fs::remove_file(&p);
}

pub fn c16(cx: &Ctx) {
    cx.set_rule("distinct = (file, length it is cut to, outcome), (kind of foreign content, size), (file, absent name), (wrong use, shape), (file, call failed, errno)");
    cx.assume("which of open(), get_tree() and as_iter() refuses a truncated file is left open; values, when some are returned, have to be the original ones");
    let g = cx.rng("truncated real");
    let parts = cx.n(2, 6);
    cx.par("truncated-real", REAL.len() * parts, |i, o| trunc_real(cx, o, &mut g.fork(i), i as usize, parts));
    let g = cx.rng("truncated made");
    cx.par("truncated-made", cx.n(2000, 12000), |i, o| trunc_made(cx, o, &mut g.fork(i), i));
    let g = cx.rng("foreign");
    cx.par("foreign", cx.n(15000, 400_000), |i, o| foreign(cx, o, &mut g.fork(i), i));
    cx.seq("paths", 1, |_, o| odd_paths(cx, o));
    let g = cx.rng("absent");
    cx.par("absent", cx.n(2000, 12000), |i, o| absent(cx, o, &mut g.fork(i), i));
    let g = cx.rng("objects");
    cx.par("objects", cx.n(1500, 30_000), |i, o| objects(cx, o, &mut g.fork(i)));
    let g = cx.rng("misuse");
    cx.par("misuse", cx.n(8000, 120_000), |i, o| misuse(cx, o, &mut g.fork(i), i));
    let g = cx.rng("misuse others");
    cx.par("misuse-others", cx.n(2400, 40_000), |i, o| misuse_others(cx, o, &mut g.fork(i), i));
    let g = cx.rng("faults");
    cx.par("faults", cx.n(288, 3000), |i, o| input_faults(cx, o, &mut g.fork(i), i));
}
