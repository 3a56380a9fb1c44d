//! C06, against processes which have done nothing else: the bytes of a file written by a fresh
//! process are compared with those of the same file written by a process with a history.
use crate::cols::*;
use crate::core::*;
use crate::dam_reader;
use crate::gen::*;
use crate::p_lay::{self, REAL};
use crate::p_meta;
use crate::p_struct::random_file;
use crate::rng::Rng;
use crate::shapes::shapes;
use crate::synth::{self, Layout};
use oxyroot::{RootFile, StateCallBack, WriterTree};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};

pub const HISTORIES: [&str; 20] = [
    "nothing",
    "other environment",
    "other directory",
    "other time",
    "real files read",
    "synthetic files read",
    "hierarchies and metadata read",
    "damaged files read",
    "requests refused",
    "many files written",
    "files abandoned",
    "providers which panic",
    "outputs which fail",
    "structures written and read",
    "other threads writing",
    "other threads reading",
    "written while another tree is being written",
    "other outputs open",
    "big columns",
    "everything",
];

enum Target {
    Specs(Vec<(String, Vec<Spec>)>),
    Shape(usize, usize, u64),
}

fn target(r: &mut Rng) -> Target {
    if r.chance(1, 4) {
        Target::Shape(r.below(shapes().iter().filter(|s| s.write.is_some()).count() as u64) as usize, *r.pick(&[0usize, 1, 20, 300]), r.next())
    } else {
        Target::Specs(random_file(r))
    }
}

fn shape_tree(k: usize, n: usize, seed: u64, name: &str) -> Result<WriterTree, String> {
    let all = shapes();
    let s = all.iter().filter(|s| s.write.is_some()).nth(k).expect("harness: shape");
    let mut t = WriterTree::new(name);
    let mut r = Rng::new(seed);
    (s.write.unwrap())(s.rows(n, &mut r), &mut t, None)?;
    Ok(t)
}

fn write(path: &Path, t: &Target) -> Result<(), String> {
    match t {
        Target::Specs(s) => write_specs(path, s),
        Target::Shape(k, n, seed) => {
            let mut f = RootFile::create(path).map_err(|e| e.to_string())?;
            shape_tree(*k, *n, *seed, "shape")?.write(&mut f).map_err(|e| e.to_string())?;
            f.close().map_err(|e| e.to_string())
        }
    }
}

/// What a process does before (and, with threads, while) it writes.
fn history(h: usize, r: &mut Rng, dir: &Path, repo: &Path) {
    let q = dir.join(format!("h{}.root", r.next()));
    let read = |p: &Path, salt: u64| {
        let _ = dam_reader::exercise(&p.to_string_lossy(), salt);
    };
    match HISTORIES[h] {
        "real files read" => {
            for _ in 0..3 {
                read(&repo.join(*r.pick(&REAL)), r.next());
            }
        }
        "synthetic files read" => {
            for _ in 0..4 {
                let (fs, _) = p_lay::random_content(r);
                if synth::write_sparse(&q, &fs, &Layout::random(r)).is_ok() {
                    read(&q, r.next());
                }
            }
        }
        "hierarchies and metadata read" => {
            for _ in 0..3 {
                let n = r.range(0, 30);
                let fs = p_meta::random_file(r, n);
                if synth::write_sparse(&q, &fs, &Layout::random(r)).is_ok() {
                    read(&q, r.next());
                }
            }
        }
        "damaged files read" => {
            for k in 0..6 {
                let mut d = if k % 2 == 0 {
                    let (fs, _) = p_lay::random_content(r);
                    synth::build(&fs, &Layout::random(r)).0
                } else {
                    if write_specs(&q, &random_file(r)).is_err() {
                        continue;
                    }
                    std::fs::read(&q).unwrap_or_default()
                };
                for _ in 0..r.range(1, 4) {
                    let l = d.len();
                    d[r.range(60.min(l - 1), l - 1)] = r.next() as u8;
                }
                if r.chance(1, 3) {
                    d.truncate(r.range(0, d.len()));
                }
                let _ = std::fs::write(&q, &d);
                read(&q, r.next());
            }
        }
        "requests refused" => {
            let _ = write_specs(&q, &random_file(r));
            if let Ok(mut f) = RootFile::open(&q) {
                for n in ["absent", "", "t;7", "t;"] {
                    let _ = f.get_tree(n).is_err();
                }
                if let Ok(t) = f.get_tree("t") {
                    for b in t.branches() {
                        let _ = b.as_iter::<Vec<String>>().map(|i| i.count());
                        let _ = b.as_iter::<[f32; 9]>().map(|i| i.count());
                    }
                }
                // a file opened for reading as an output
                let mut t = WriterTree::new("w");
                t.new_branch("x", 0..10i32);
                let _ = guard(|| t.write(&mut f).is_err());
                let _ = guard(move || f.close().is_err());
            }
            let _ = RootFile::open(dir.join("absent.root")).is_err();
            let _ = RootFile::create(dir.join("absent/x.root")).is_err();
            let _ = RootFile::create(dir).is_err();
        }
        "many files written" => {
            for _ in 0..r.range(1, 60) {
                let _ = write_specs(&q, &[("t".into(), crate::p_round::random_tree(r, 6, 60, false))]);
            }
        }
        "files abandoned" => {
            for k in 0..6 {
                if let Ok(mut f) = RootFile::create(&q) {
                    let mut t = WriterTree::new(*r.pick(&["t", "t0", "zz"]));
                    t.new_branch("x", 0..r.range(1, 20_000) as i64);
                    t.new_branch("s", (0..50).map(|i| "x".repeat(i)));
                    match k % 3 {
                        0 => {}
                        1 => drop(t.write(&mut f)),
                        _ => drop((f, t)),
                    }
                }
            }
        }
        "providers which panic" => {
            for k in 0..4 {
                let at = [0usize, 1, 5, 9000][k];
                let _ = guard(|| {
                    let mut f = RootFile::create(&q).unwrap();
                    let mut t = WriterTree::new("t");
                    t.new_branch("a", 0..20_000i32);
                    t.new_branch("v", (0..20_000usize).map(|i| vec![i as f64; i % 4]));
                    t.new_branch("b", (0..20_000usize).map(move |i| if i == at { panic!("provider") } else { i as f32 }));
                    t.write(&mut f).unwrap();
                });
            }
        }
        "outputs which fail" => {
            for _ in 0..3 {
                let _ = guard(|| write_specs(Path::new("/dev/full"), &random_file(r)).is_err());
            }
        }
        "structures written and read" => {
            for _ in 0..6 {
                let n = shapes().iter().filter(|s| s.write.is_some()).count();
                let k = r.below(n as u64) as usize;
                let _ = write(&q, &Target::Shape(k, r.range(0, 100), r.next()));
                read(&q, 1);
                if let Ok(t) = RootFile::open(&q).and_then(|mut f| f.get_tree("shape")) {
                    let all = shapes();
                    for s in all.iter().filter(|s| s.write.is_some()).skip(k).take(2) {
                        let _ = guard(|| (s.read)(&t).map(|i| i.count()));
                    }
                }
            }
        }
        "big columns" => {
            if let Ok(mut f) = RootFile::create(&q) {
                let mut t = WriterTree::new("t");
                t.new_branch("x", 0..400_000i64);
                t.new_branch("s", (0..40).map(|i| "y".repeat(i * 5000)));
                let _ = t.write(&mut f);
                let _ = f.close();
            }
        }
        "everything" => {
            let mut hs: Vec<usize> = (4..=13).collect();
            r.shuffle(&mut hs);
            for h in hs {
                history(h, r, dir, repo);
            }
        }
        _ => {}
    }
    let _ = std::fs::remove_file(&q);
}

/// Helper process.
pub fn serve(a: &[String]) {
    install_hook();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // exercise() prints
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
    }
    let seed: u64 = a[0].parse().unwrap();
    let h: usize = a[1].parse().unwrap();
    let (path, dir, repo) = (PathBuf::from(&a[2]), PathBuf::from(&a[3]), PathBuf::from(&a[4]));
    let t = target(&mut Rng::new(seed));
    let mut r = Rng::new(seed ^ 0x5555).fork(h as u64);
    if HISTORIES[h] == "other time" {
        crate::sys::CLOCK_SHIFT.store([1, 61, 3601, 86_400, 40_000_000, -1_000_000_000][r.below(6) as usize], Ordering::Relaxed);
    }
    let res = match HISTORIES[h] {
        x @ ("other threads writing" | "other threads reading") => {
            let stop = AtomicBool::new(false);
            let started = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|s| {
                for k in 0..4u64 {
                    let mut r = r.fork(k);
                    let (stop, started, dir, repo) = (&stop, &started, &dir, &repo);
                    let hs: &[usize] = if x == "other threads writing" { &[9, 10, 11, 12, 13] } else { &[4, 5, 6, 7, 8] };
                    s.spawn(move || loop {
                        started.fetch_add(1, Ordering::Relaxed);
                        history(*r.pick(hs), &mut r, dir, repo);
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                    });
                }
                while started.load(Ordering::Relaxed) < 6 {
                    std::thread::yield_now();
                }
                let w = write(&path, &t);
                stop.store(true, Ordering::Relaxed);
                w
            })
        }
        "written while another tree is being written" => {
            let out = std::rc::Rc::new(std::cell::RefCell::new(Err("never written".to_string())));
            let (o2, p) = (out.clone(), path.clone());
            let outer = dir.join("outer.root");
            let at = r.range(0, 9000);
            let by_callback = r.chance(1, 2);
            let mut t = Some(t);
            let mut n = 0;
            let mut go = move || {
                n += 1;
                if n == at + 1 {
                    *o2.borrow_mut() = write(&p, &t.take().unwrap());
                }
            };
            let w = (|| -> Result<(), String> {
                let mut f = RootFile::create(&outer).map_err(|e| e.to_string())?;
                let mut w = WriterTree::new("t");
                w.new_branch("v", (0..9001usize).map(|i| vec![i as i32; i % 5]));
                if by_callback {
                    w.new_branch("x", 0..9001i64);
                    w.add_callback(Box::new(move |s: StateCallBack| {
                        if let StateCallBack::Before = s {
                            go()
                        }
                    }));
                } else {
                    w.new_branch(
                        "x",
                        (0..9001i64).map(move |i| {
                            go();
                            i
                        }),
                    );
                }
                w.write(&mut f).map_err(|e| e.to_string())?;
                f.close().map_err(|e| e.to_string())
            })();
            let _ = std::fs::remove_file(&outer);
            let w = w.and(out.borrow().clone());
            w
        }
        "other outputs open" => {
            let mut open = vec![];
            for k in 0..5 {
                let q = dir.join(format!("open{k}.root"));
                if let Ok(mut f) = RootFile::create(&q) {
                    let mut t = WriterTree::new("t");
                    t.new_branch("x", 0..r.range(0, 9000) as i32);
                    if k % 2 == 0 {
                        let _ = t.write(&mut f);
                    }
                    open.push((f, q));
                }
            }
            let w = write(&path, &t);
            for (f, q) in open {
                drop(f);
                let _ = std::fs::remove_file(q);
            }
            w
        }
        _ => {
            history(h, &mut r, &dir, &repo);
            write(&path, &t)
        }
    };
    if let Err(e) = res {
        eprintln!("{e}");
        std::process::exit(3);
    }
}

fn child(cx: &Ctx, seed: u64, h: usize, path: &Path, dir: &Path) -> Result<Vec<u8>, String> {
    let mut c = Command::new(std::env::current_exe().expect("harness: exe"));
    c.arg("--same").arg(seed.to_string()).arg(h.to_string());
    // the file is named relatively to the directory
    let rel = path.file_name().unwrap();
    c.arg(rel).arg(dir).arg(&cx.repo).stdout(Stdio::null()).stderr(Stdio::piped()).stdin(Stdio::null());
    let mut wd = path.parent().unwrap().to_path_buf();
    match HISTORIES[h] {
        "other environment" => {
            c.env_clear().env("TZ", "Pacific/Kiritimati").env("LC_ALL", "tr_TR.UTF-8").env("HOME", "/nonexistent").env("USER", "u").env("SOURCE_DATE_EPOCH", "12345");
        }
        "other directory" => {
            wd = dir.join("elsewhere");
            let _ = std::fs::create_dir_all(&wd);
        }
        _ => {}
    }
    c.current_dir(&wd);
    let out = c.output().map_err(|e| format!("harness: {e}"))?;
    let file = wd.join(rel);
    let b = std::fs::read(&file);
    let _ = std::fs::remove_file(&file);
    if !out.status.success() {
        return Err(format!("{:?} {}", out.status, clip(&String::from_utf8_lossy(&out.stderr), 300)));
    }
    b.map_err(|e| e.to_string())
}

pub fn histories(cx: &Ctx, o: &mut Out, seed: u64, i: u64) {
    let h = i as usize % HISTORIES.len();
    let dir = cx.path("");
    if std::fs::create_dir_all(&dir).is_err() {
        o.error("harness: scratch");
        return;
    }
    let path = dir.join("out.root");
    o.case(format!("fresh process, and one with a history: {} (seed {seed:#x})", HISTORIES[h]));
    let a = child(cx, seed, 0, &path, &dir);
    let b = child(cx, seed, h, &path, &dir);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            o.eval();
            o.seen(("history", h, i));
            o.count(HISTORIES[h], 1);
            o.count("bytes_compared", a.len() as u64);
            if a != b {
                let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                o.viol("bytes-differ-from-fresh-process", format!("{}: {} and {} bytes, first difference at {at}", HISTORIES[h], a.len(), b.len()));
            }
        }
        (a, b) => {
            let e = |x: &Result<Vec<u8>, String>| x.as_ref().err().cloned().unwrap_or_default();
            o.viol("write-failed", format!("{}: fresh {:?}, with history {:?}", HISTORIES[h], e(&a), e(&b)));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
