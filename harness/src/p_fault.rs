//! C14: failures of the output, injected into the system calls of the writer.
//! C15: what a reader makes of every state the file goes through while it is written.
use crate::cols::*;
use crate::core::*;
use crate::gen::{any_type, Len, Spec};
use crate::io;
use crate::rng::Rng;
use crate::sys::{self, Ev, Fault, Kind, Tap};
use oxyroot::{RootFile, WriterTree};
use std::path::{Path, PathBuf};

type Trees = Vec<(String, Vec<Spec>)>;

fn scenario(r: &mut Rng, k: u64) -> Trees {
    let nt = match k % 8 {
        0 => 0,
        1 | 2 => 2,
        3 => 3,
        _ => 1,
    };
    (0..nt)
        .map(|t| {
            let cols = (0..r.range(if k % 5 == 4 { 0 } else { 1 }, 4))
                .map(|c| {
                    let n = match r.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => r.range(1000, 9000),
                        _ => r.range(0, 400),
                    };
                    let len = match r.below(4) {
                        0 => Len::Rare { short: 3, long: 20_000, every: 40 },
                        1 => Len::Fix(100),
                        _ => Len::Uni(0, 20),
                    };
                    let n = if matches!(len, Len::Rare { .. }) { n.min(300) } else { n };
                    Spec::new(&format!("c{c}"), any_type(r), n, r.next()).len(len)
                })
                .collect();
            (format!("t{t}"), cols)
        })
        .collect()
}

fn desc(t: &Trees) -> String {
    t.iter()
        .map(|(n, c)| format!("{n}({})", c.iter().map(|s| format!("{} n={} {:?}", s.ty.label(), s.n, s.len)).collect::<Vec<_>>().join(", ")))
        .collect::<Vec<_>>()
        .join(" ")
}

/// The writing sequence up to the first error: the step it occurred in, and its text.
fn write(path: &Path, trees: &Trees, keep: &mut Option<RootFile>) -> Result<(), String> {
    let mut f = RootFile::create(path).map_err(|e| format!("create: {e}"))?;
    for (name, cols) in trees {
        let mut t = WriterTree::new(name);
        for c in cols {
            c.add_to(&mut t);
        }
        if let Err(e) = t.write(&mut f) {
            *keep = Some(f);
            return Err(format!("write {name}: {e}"));
        }
    }
    if let Err(e) = f.close() {
        *keep = Some(f);
        return Err(format!("close: {e}"));
    }
    *keep = Some(f);
    Ok(())
}

struct Ref {
    bytes: Vec<u8>,
    events: Vec<Ev>,
    calls: u64,
}

fn reference(path: &Path, trees: &Trees, o: &mut Out) -> Option<Ref> {
    let mut tap = Tap { keep_data: true, ..Default::default() };
    let mut keep = None;
    let r = sys::tapped(&mut tap, || guard_res(|| write(path, trees, &mut keep)));
    if let Err(e) = r {
        o.viol("write-failed", format!("without any fault: {e}"));
        return None;
    }
    // the file is still open here
    let bytes = std::fs::read(path).unwrap_or_default();
    drop(keep);
    Some(Ref { bytes, events: tap.events, calls: tap.calls })
}

const ERRS: [i32; 4] = [libc::ENOSPC, libc::EIO, libc::EFBIG, libc::EDQUOT];

fn one_fault(path: &Path, trees: &Trees, re: &Ref, f: Fault, o: &mut Out) {
    let mut tap = Tap { fault: Some(f), ..Default::default() };
    let mut keep = None;
    let r = sys::tapped(&mut tap, || guard(|| write(path, trees, &mut keep)));
    // what is on the file system when the sequence has ended, the file object still there
    let now = std::fs::read(path).unwrap_or_default();
    // no failure may come out of dropping it either
    let mut off = Tap { ..Default::default() };
    let d = sys::tapped(&mut off, || guard(|| drop(keep.take())));
    o.eval();
    let hit = tap.events.iter().find_map(|e| if let Ev::Fault(w, e) = e { Some((*w, *e)) } else { None });
    let Some((what, errno)) = hit else {
        o.count("faults which do not apply to the call", 1);
        return;
    };
    o.count(&format!("injected into {what}"), 1);
    o.seen((what, errno, f.kind == Kind::Short, f.lasting, f.at, re.calls));
    if let Err(p) = d {
        o.viol("panic-on-drop", format!("{f:?} in {what}: {}", p.text()));
    }
    match r {
        Err(p) => o.viol("panic", format!("{f:?} in {what}: {}", p.text())),
        Ok(Ok(())) if tap.failed > 0 => o.viol(
            "failure-not-reported",
            format!(
                "errno {errno} on {what} (call {} of {}, lasting {}): every step of the writing sequence succeeded; the file {}",
                f.at,
                re.calls,
                f.lasting,
                if now == re.bytes { "is complete".to_string() } else { format!("has {} of {} bytes, or others", now.len(), re.bytes.len()) }
            ),
        ),
        Ok(Ok(())) => {
            o.count("disturbances without failure", 1);
            o.check(now == re.bytes, "incomplete-after-success", || {
                format!(
                    "{f:?} in {what}: success, but the file has {} bytes of {} (first difference at {:?})",
                    now.len(),
                    re.bytes.len(),
                    now.iter().zip(&re.bytes).position(|(a, b)| a != b)
                )
            });
        }
        Ok(Err(e)) if tap.failed == 0 => {
            o.viol("spurious-failure", format!("{f:?} in {what} is no failure, but: {e}"));
        }
        Ok(Err(e)) => {
            o.count(&format!("reported by {}", e.split([' ', ':']).next().unwrap_or("")), 1);
            if o.samples.is_empty() {
                o.sample(format!("errno {errno} on {what} {} of {}: {e}", f.at, re.calls));
            }
        }
    }
}

fn faults(cx: &Ctx, o: &mut Out, r: &mut Rng, k: u64) {
    let path = cx.path(".root");
    let trees = scenario(r, k);
    o.case(desc(&trees));
    let Some(re) = reference(&path, &trees, o) else { return };
    o.count("scenarios", 1);
    o.eval();
    // success means that the file is there, before the object is dropped
    let end = std::fs::read(&path).unwrap_or_default();
    o.check(end == re.bytes, "incomplete-after-success", || format!("{} bytes when close() returned, {} when the file was dropped", re.bytes.len(), end.len()));
    o.check(verify(&path, &trees).is_ok(), "incomplete-after-success", || format!("{:?}", verify(&path, &trees)));
    // every call of short sequences; of long ones the first and last, and some between
    let room = (300_000_000 / 6 / (re.bytes.len() as u64 + 20_000)).max(20);
    let mut points: Vec<u64> = (0..re.calls).collect();
    if re.calls > room {
        points = (0..room).map(|_| r.below(re.calls)).chain(0..room / 4).chain(re.calls - room / 4..re.calls).collect();
        points.sort();
        points.dedup();
    } else {
        o.count("scenarios with faults at every call", 1);
    }
    for at in points {
        let e = *r.pick(&ERRS);
        for (kind, lasting) in [
            (Kind::Errno(e), true),
            (Kind::Errno(*r.pick(&ERRS)), false),
            (Kind::Errno(libc::EINTR), false),
            (Kind::Short, false),
            (Kind::ShortThen(e), true),
            (Kind::ShortThen(e), false),
        ] {
            one_fault(&path, &trees, &re, Fault { at, kind, lasting }, o);
            if !o.viols.is_empty() {
                let _ = std::fs::remove_file(&path);
                return;
            }
        }
    }
    one_fault(&path, &trees, &re, Fault { at: 0, kind: Kind::Short, lasting: true }, o);
    let _ = std::fs::remove_file(&path);
}

/// The file holds what was written.
fn verify(path: &Path, trees: &Trees) -> Result<(), String> {
    let mut f = RootFile::open(path).map_err(|e| format!("open: {e}"))?;
    for (n, cols) in trees {
        let t = f.get_tree(n).map_err(|e| format!("get_tree {n}: {e}"))?;
        for c in cols {
            let b = t.branch(&c.name).ok_or(format!("{n}: no column {}", c.name))?;
            c.compare(b).map_err(|(s, e)| format!("{n}.{}: {s} {e}", c.name))?;
        }
    }
    Ok(())
}

/// Outputs which cannot be created or written, for real.
fn outputs(cx: &Ctx, o: &mut Out) {
    let dir = cx.path(".d");
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("file");
    std::fs::write(&file, b"x").unwrap();
    let _ = std::os::unix::fs::symlink(dir.join("no/such"), dir.join("dangling"));
    let _ = std::os::unix::fs::symlink("/dev/full", dir.join("full"));
    let cases: Vec<(&str, PathBuf)> = vec![
        ("missing directory", dir.join("a/b/c.root")),
        ("directory", dir.clone()),
        ("below a file", file.join("x.root")),
        ("dangling link", dir.join("dangling")),
        ("too long a name", dir.join("x".repeat(300))),
        ("too long a path", dir.join("y/".repeat(3000)).join("x")),
        ("empty", PathBuf::from("")),
        ("NUL in the path", dir.join("a\0b")),
        ("full device", PathBuf::from("/dev/full")),
        ("full device behind a link", dir.join("full")),
        ("trailing slash", PathBuf::from(format!("{}/new.root/", dir.display()))),
    ];
    let small: Trees = vec![("t".into(), vec![Spec::new("c", Ty::Scalar(P::I32), 10, 1)])];
    let large: Trees = vec![("t".into(), vec![Spec::new("c", Ty::Scalar(P::I64), 100_000, 1)])];
    for (what, p) in cases {
        for t in [&vec![], &small, &large] {
            o.case(format!("{what}: {}", clip(&p.display().to_string(), 200)));
            let mut keep = None;
            let r = guard(|| write(&p, t, &mut keep));
            o.eval();
            o.seen(("output", what, t.len(), t.first().map_or(0, |t| t.1[0].n)));
            match r {
                Ok(Ok(())) => o.viol("failure-not-reported", format!("writing to {what} succeeded")),
                Ok(Err(e)) => o.sample(format!("{what}: {e}")),
                Err(p) => o.viol("panic", format!("{what}: {}", p.text())),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Helper process: the same scenario under limits on the size of files.
pub fn limited(seed: u64, k: u64, path: &str, limits: &[u64]) {
    install_hook();
    let trees = scenario(&mut Rng::new(seed), k);
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
    for l in limits {
        let lim = libc::rlimit { rlim_cur: *l, rlim_max: libc::RLIM_INFINITY };
        unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &lim) };
        let mut keep = None;
        let r = guard(|| write(Path::new(path), &trees, &mut keep));
        let len = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
        drop(keep);
        let t = match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("err {e}"),
            Err(p) => format!("panic {}", p.text()),
        };
        println!("{l} {len} {}", t.replace('\n', " "));
    }
}

fn limits(cx: &Ctx, o: &mut Out, r: &mut Rng, k: u64) {
    let path = cx.path(".root");
    let seed = r.next();
    let trees = scenario(&mut Rng::new(seed), k);
    o.case(format!("size limits: {}", desc(&trees)));
    let Some(re) = reference(&path, &trees, o) else { return };
    let n = re.bytes.len() as u64;
    let mut l: Vec<u64> = (0..25).map(|_| r.below(n)).collect();
    l.extend([0, 1, 99, 100, 101, n / 2, n - 1, n - 2, n.saturating_sub(60), n.saturating_sub(200), n, n + 1]);
    // where the calls begin and end
    for e in &re.events {
        if let Ev::Write { at, data, .. } = e {
            if l.len() < 80 {
                l.extend([*at as u64, *at as u64 + data.len() as u64 - 1]);
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--limited")
        .arg(seed.to_string())
        .arg(k.to_string())
        .arg(&path)
        .args(l.iter().map(|x| x.to_string()))
        .output();
    let Ok(out) = out else {
        o.error("harness: cannot start the helper");
        return;
    };
    let text = String::from_utf8_lossy(&out.stdout);
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != l.len() {
        o.viol("process-died", format!("after {} of {} limits: {:?} {}", lines.len(), l.len(), out.status, clip(&String::from_utf8_lossy(&out.stderr), 300)));
        return;
    }
    for (lim, line) in l.iter().zip(lines) {
        let mut it = line.splitn(3, ' ');
        let (_, len, res) = (it.next(), it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0), it.next().unwrap_or(""));
        o.eval();
        o.count("real size limits", 1);
        o.seen(("limit", *lim >= n, res.starts_with("ok"), len == n, res.split(':').next().unwrap_or("").to_string()));
        if *lim < n {
            o.check(res.starts_with("err "), "failure-not-reported", || {
                format!("files limited to {lim} of the {n} bytes needed: {res}; the file has {len} bytes")
            });
        } else {
            o.check(res == "ok" && len == n, "spurious-failure", || format!("limit {lim}, {n} bytes needed: {res}, {len} bytes"));
        }
    }
    let _ = std::fs::remove_file(&path);
}

pub fn c14(cx: &Ctx) {
    cx.set_rule("distinct = (call on the output, errno or disturbance, lasting or not, index of the call, number of calls of the scenario)");
    cx.assume("faults are injected at the boundary of the C library (open, write, lseek, …) of this process, and for real by file size limits, full devices and impossible paths");
    cx.assume("interrupted calls (EINTR) and partial writes are not failures: the sequence has to succeed with the same file");
    let g = cx.rng("calls");
    cx.par("calls", cx.n(120, 4000), |i, o| faults(cx, o, &mut g.fork(i), i));
    cx.seq("outputs", 1, |_, o| outputs(cx, o));
    let g = cx.rng("limits");
    cx.par("limits", cx.n(40, 1500), |i, o| limits(cx, o, &mut g.fork(i), i));
}

// ---------------------------------------------------------------- C15

/// What a reader gets from an unfinished file.
#[derive(Debug, PartialEq, Clone, Copy, Hash)]
enum Got {
    Refused,
    NoTree,
    Complete,
}

fn look(path: &Path, trees: &Trees) -> Result<Got, (&'static str, String)> {
    let r = guard(|| {
        let Ok(mut f) = RootFile::open(path) else { return Ok(Got::Refused) };
        let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        let mut yes = 0;
        let mut no = vec![];
        for (n, cols) in trees {
            let t = match f.get_tree(n) {
                Ok(t) => t,
                Err(e) => {
                    no.push(format!("{n}: {e}"));
                    continue;
                }
            };
            yes += 1;
            let want = cols.iter().map(|c| c.n).max().unwrap_or(0) as i64;
            if t.entries() != want {
                return Err(("partial", format!("tree {n} has {} entries of {want}", t.entries())));
            }
            for c in cols {
                let Some(b) = t.branch(&c.name) else { return Err(("partial", format!("tree {n} has no column {}", c.name))) };
                c.compare(b).map_err(|(s, e)| (if s == "missing-entries" { "partial" } else { "wrong" }, format!("{n}.{}: {s}: {e}", c.name)))?;
            }
        }
        if yes > 0 && !no.is_empty() {
            return Err(("partial", format!("{yes} of the trees can be read, but {no:?}")));
        }
        if trees.is_empty() {
            return Ok(if names.is_empty() { Got::Complete } else { Got::NoTree });
        }
        Ok(if yes > 0 { Got::Complete } else { Got::NoTree })
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(("panic", p.text())),
    }
}

fn report(o: &mut Out, what: &str, torn: bool, r: Result<Got, (&'static str, String)>) {
    o.eval();
    match r {
        Ok(g) => {
            o.count(&format!("{what}: {g:?}"), 1);
        }
        // half a write is damage: refusing it by a panic gives no wrong value
        Err(("panic", _)) if torn => o.count(&format!("{what}: panic"), 1),
        Err((s, e)) => o.viol(format!("{s}{}", if torn { "-torn" } else { "" }), e),
    }
}

fn crashes(cx: &Ctx, o: &mut Out, r: &mut Rng, k: u64, over: bool) {
    let path = cx.path(".root");
    let trees = scenario(r, k);
    o.case(desc(&trees));
    if over {
        // a complete file is being replaced
        let old: Trees = vec![("t0".into(), vec![Spec::new("c0", Ty::Scalar(P::I32), 3000, 5)]), ("t1".into(), vec![])];
        let _ = crate::gen::write_specs(&path, &old);
    }
    let Some(re) = reference(&path, &trees, o) else { return };
    let img = cx.path(".img");
    let mut state: Vec<u8> = vec![];
    let mut n = 0;
    let total = re.events.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
    let opened = re.events.iter().any(|e| matches!(e, Ev::Open { path: p, flags, .. } if Path::new(p) == path && flags & libc::O_TRUNC != 0));
    if !opened {
        o.error("harness: the trace has no truncating open of the output");
        return;
    }
    let put = |s: &mut Vec<u8>, at: usize, d: &[u8]| {
        if s.len() < at + d.len() {
            s.resize(at + d.len(), 0);
        }
        s[at..at + d.len()].copy_from_slice(d);
    };
    let show = |s: &[u8], o: &mut Out, what: &str, torn: bool| {
        let _ = std::fs::write(&img, s);
        report(o, what, torn, look(&img, &trees));
        if !o.viols.is_empty() {
            let v = o.viols.last_mut().unwrap();
            if !v.detail.starts_with("image") {
                v.detail = format!("image {what}: {}", v.detail);
            }
        }
    };
    show(&state, o, "empty", false);
    for e in &re.events {
        match e {
            Ev::Write { at, data, .. } => {
                n += 1;
                // the write torn at some bytes
                let every = data.len() <= 128 || n + 3 > total;
                let mut cuts: Vec<usize> = if every && data.len() <= 400 { (1..data.len()).collect() } else { (0..6).map(|_| r.range(1, data.len().max(2) - 1)).collect() };
                if cuts.len() > 60 && cx.quick() && n + 1 < total {
                    cuts = (0..20).map(|_| *r.pick(&cuts)).collect();
                }
                for c in cuts {
                    if c >= data.len() {
                        continue;
                    }
                    let mut s = state.clone();
                    put(&mut s, *at as usize, &data[..c]);
                    show(&s, o, &format!("{} write torn", if n == total { "last".into() } else { format!("{}. quarter,", (n * 4) / total + 1) }), true);
                    if !o.viols.is_empty() {
                        let v = o.viols.last_mut().unwrap();
                        v.detail = format!("write {n} of {total} (at {at}, {} bytes) torn after {c}: {}", data.len(), v.detail);
                        let _ = std::fs::remove_file(&img);
                        let _ = std::fs::remove_file(&path);
                        return;
                    }
                }
                put(&mut state, *at as usize, data);
                o.seen((n, total, state.len(), hash_of(&state)));
                show(&state, o, if n == total { "after the last write" } else { "after a write" }, false);
                if !o.viols.is_empty() {
                    let v = o.viols.last_mut().unwrap();
                    v.detail = format!("after write {n} of {total}: {}", v.detail);
                    break;
                }
            }
            Ev::Truncate { .. } | Ev::Change(..) => o.count("other changes", 1),
            _ => {}
        }
    }
    o.count("crash points", n as u64);
    if o.viols.is_empty() && total > 0 {
        // the trace is what happened
        if state != re.bytes {
            o.error("harness: the recorded writes do not add up to the file");
        }
        o.check(look(&img, &trees) == Ok(Got::Complete), "not-readable", || format!("{:?}", look(&img, &trees)));
    }
    o.sample(format!("{total} writes, {} bytes: {}", re.bytes.len(), clip(&desc(&trees), 200)));
    let _ = std::fs::remove_file(&img);
    let _ = std::fs::remove_file(&path);
}

/// Writing given up in the middle: the objects are dropped, in either order, or a provider panics.
fn abandoned(cx: &Ctx, o: &mut Out, r: &mut Rng, k: u64) {
    let path = cx.path(".root");
    let mut trees = scenario(r, k);
    if trees.is_empty() {
        trees = scenario(r, 3);
    }
    let stage = r.below(5);
    let stop = r.below(trees.len() as u64) as usize;
    o.case(format!("abandoned at stage {stage}, tree {stop}: {}", desc(&trees)));
    let panic_at = r.below(300) as usize;
    let res = guard(|| {
        let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
        for (j, (name, cols)) in trees.iter().enumerate() {
            let mut t = WriterTree::new(name);
            for c in cols {
                c.add_to(&mut t);
            }
            if j == stop {
                match stage {
                    0 => return Ok(()),
                    1 => {
                        drop(f);
                        drop(t);
                        return Ok(());
                    }
                    2 => {
                        // a provider which panics
                        let mut n = 0;
                        io::add_branch_it(
                            &mut t,
                            "boom",
                            Ty::Scalar(P::U8),
                            std::iter::from_fn(move || {
                                n += 1;
                                if n > panic_at {
                                    panic!("provider");
                                }
                                Some(Cell::N(vec![1]))
                            }),
                        );
                        let _ = guard(|| t.write(&mut f).map_err(|e| e.to_string()));
                        return Ok(());
                    }
                    _ => {}
                }
            }
            t.write(&mut f).map_err(|e| e.to_string())?;
            if j == stop && stage == 3 {
                return Ok(());
            }
        }
        // all written, not closed
        if stage == 4 {
            std::mem::forget(f);
        }
        Ok::<(), String>(())
    });
    match res {
        Err(p) => o.viol("panic", p.text()),
        Ok(Err(e)) => o.viol("write-failed", e),
        Ok(Ok(())) => {
            o.seen(("abandoned", stage, stop, trees.len(), std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0)));
            report(o, &format!("abandoned at stage {stage}"), false, look(&path, &trees));
        }
    }
    let _ = std::fs::remove_file(&path);
}

/// Helper process: writes, and is killed meanwhile.
pub fn writer(seed: u64, k: u64, path: &str) {
    let trees = scenario(&mut Rng::new(seed), k);
    let mut keep = None;
    let _ = write(Path::new(path), &trees, &mut keep);
}

fn killed(cx: &Ctx, o: &mut Out, r: &mut Rng, k: u64) {
    let path = cx.path(".root");
    let seed = r.next();
    let trees = scenario(&mut Rng::new(seed), k);
    o.case(format!("killed while writing {}", desc(&trees)));
    let mut child = match std::process::Command::new(std::env::current_exe().unwrap()).arg("--writer").arg(seed.to_string()).arg(k.to_string()).arg(&path).spawn() {
        Ok(c) => c,
        Err(e) => {
            o.error(format!("harness: {e}"));
            return;
        }
    };
    let until = std::time::Instant::now() + std::time::Duration::from_micros(200 + r.below(6000));
    while std::time::Instant::now() < until {
        std::hint::spin_loop();
    }
    let _ = child.kill();
    let st = child.wait().ok();
    let done = st.is_some_and(|s| s.code() == Some(0));
    let len = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
    let g = look(&path, &trees);
    o.seen(("killed", done, len));
    if done {
        o.check(g == Ok(Got::Complete), "not-readable", || format!("the writer ended, but {g:?}"));
    }
    report(o, if done { "writer ended" } else { "writer killed" }, false, g);
    let _ = std::fs::remove_file(&path);
}

pub fn c15(cx: &Ctx) {
    cx.set_rule("distinct = images (content hash) of the file between two writes; for abandoned and killed writers, stage and length");
    cx.assume("a crash leaves a prefix of the sequence of writes made, the last one possibly torn at any byte; writes are not reordered");
    let g = cx.rng("prefixes");
    cx.par("prefixes", cx.n(150, 5000), |i, o| crashes(cx, o, &mut g.fork(i), i, false));
    let g = cx.rng("replaced");
    cx.par("replaced", cx.n(40, 800), |i, o| crashes(cx, o, &mut g.fork(i), i, true));
    let g = cx.rng("abandoned");
    cx.par("abandoned", cx.n(400, 20_000), |i, o| abandoned(cx, o, &mut g.fork(i), i));
    let g = cx.rng("killed");
    cx.par("killed", cx.n(150, 4000), |i, o| killed(cx, o, &mut g.fork(i), i));
}
