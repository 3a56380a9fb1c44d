//! C17: damaged files cannot corrupt the process which reads them.
//!
//! The worker makes damaged files and never reads them itself; two reader processes do: one
//! built as a debug build with limited memory, one as a release build (no overflow checks)
//! with AddressSanitizer in the library and in the C decompressors. The monitors: how the
//! reader ends, the allocations it makes, the CPU time it takes.
use crate::core::*;
use crate::gen::{any_type, write_specs, Len, Spec, Val};
use crate::p_lay::{self, REAL};
use crate::p_meta;
use crate::rng::Rng;
use crate::rootfmt::{self as rf, InfoM};
use crate::synth::{self, Algo, Layout};
use crate::val;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

const CPU_S: u64 = 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Plain,
    Asan,
}

struct Reader {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    log: PathBuf,
}

thread_local! {
    static READERS: RefCell<[Option<Reader>; 2]> = const { RefCell::new([None, None]) };
}

fn asan_exe(cx: &Ctx) -> PathBuf {
    cx.verif.join("target/asan/x86_64-unknown-linux-gnu/debug/vasan")
}

fn start(cx: &Ctx, k: Kind) -> Reader {
    let log = cx.path(".err");
    let err = std::fs::File::create(&log).expect("harness: log");
    let mut c = match k {
        Kind::Plain => {
            let mut c = Command::new(std::env::current_exe().expect("harness: exe"));
            // 2 MB of stack: what a thread has by default
            c.args(["--read", &CPU_S.to_string(), "3000", "2048"]);
            c
        }
        Kind::Asan => {
            let mut c = Command::new(asan_exe(cx));
            // its frames are larger
            c.args([&CPU_S.to_string(), "0", "8192"]);
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=1500:hard_rss_limit_mb=3000:allocator_may_return_null=0:quarantine_size_mb=16:detect_stack_use_after_return=0");
            c
        }
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err).spawn().expect("harness: cannot start a reader");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Reader { child, to, from, log }
}

enum Ended {
    Line(String),
    Died { how: String, log: String },
}

fn ask(cx: &Ctx, k: Kind, path: &Path, salt: u64) -> Ended {
    READERS.with(|r| {
        let slot = &mut r.borrow_mut()[k as usize];
        let rd = slot.get_or_insert_with(|| start(cx, k));
        let mut line = String::new();
        let sent = writeln!(rd.to, "{salt} {}", path.display()).and_then(|_| rd.to.flush());
        if sent.is_ok() && matches!(rd.from.read_line(&mut line), Ok(n) if n > 0) && line.ends_with('\n') {
            return Ended::Line(line.trim_end_matches('\n').to_string());
        }
        let mut rd = slot.take().unwrap();
        let st = rd.child.wait().expect("harness: wait");
        let log = String::from_utf8_lossy(&std::fs::read(&rd.log).unwrap_or_default()).into_owned();
        let _ = std::fs::remove_file(&rd.log);
        let how = match (st.signal(), st.code()) {
            (Some(s), _) => format!("signal {s}"),
            (_, c) => format!("exit status {c:?}"),
        };
        Ended::Died { how, log }
    })
}

/// Kind of the report of a reader which died.
fn verdict(how: &str, log: &str) -> String {
    if log.contains("has overflowed its stack") || log.contains("stack-overflow") {
        return "stack-overflow".into();
    }
    if log.contains("memory allocation of") || log.contains("allocation-size-too-big") || log.contains("out-of-memory") || log.contains("hard rss limit exhausted") {
        return "allocation-failed".into();
    }
    if let Some(p) = log.find("ERROR: AddressSanitizer: ") {
        let w: String = log[p + 25..].chars().take_while(|c| !c.is_whitespace()).collect();
        return format!("asan-{w}");
    }
    if how == "signal 24" {
        return "cpu-time".into();
    }
    format!("died-{}", how.replace(' ', "-"))
}

/// Allocations in proportion: decompression multiplies by at most 1032 (deflate); the rest
/// is read-ahead, tables and the 64 MB the highest level of lzma needs.
fn allowed(len: usize) -> u64 {
    (40 << 20) + 1100 * len as u64
}

fn judge(cx: &Ctx, o: &mut Out, d: &[u8], salt: u64, what: &str) {
    let p = cx.path(".root");
    std::fs::write(&p, d).expect("harness: scratch file");
    for k in [Kind::Plain, Kind::Asan] {
        o.eval();
        match ask(cx, k, &p, salt) {
            Ended::Died { how, log } => {
                if how == "signal 9" {
                    o.error(format!("{what}: a reader was killed"));
                    continue;
                }
                let keep = cx.verif.join("replays").join(format!("C17-{:016x}.root", hash_of(d)));
                let _ = std::fs::create_dir_all(cx.verif.join("replays"));
                let _ = std::fs::write(&keep, d);
                o.viol(verdict(&how, &log), format!("{what}: the reader ({k:?}) ended with {how}; file {}; {}", keep.display(), clip(&log, 3000)));
            }
            Ended::Line(l) => {
                let v: Vec<&str> = l.split('\t').collect();
                if v.len() != 5 || v[0] != "ok" {
                    o.viol("panic-not-caught", format!("{what}: {l}"));
                    continue;
                }
                let (big, peak): (u64, u64) = (v[1].parse().unwrap_or(0), v[2].parse().unwrap_or(0));
                if big.max(peak) > allowed(d.len()) {
                    let keep = cx.verif.join("replays").join(format!("C17-{:016x}.root", hash_of(d)));
                    let _ = std::fs::create_dir_all(cx.verif.join("replays"));
                    let _ = std::fs::write(&keep, d);
                    o.viol(
                        "allocation",
                        format!("{what}: a file of {} bytes made the reader ({k:?}) allocate {peak} bytes (largest request {big}); file {}; {l}", d.len(), keep.display()),
                    );
                }
                let mut opened = false;
                for c in v[3].split('|') {
                    if let Some((n, x)) = c.split_once('=') {
                        o.count(n, x.parse().unwrap_or(0));
                        opened |= n == "opened";
                    }
                }
                if opened {
                    o.count("files opened", 1);
                }
                for e in v[4].split('|').filter(|e| !e.is_empty()) {
                    o.seen(("end", k == Kind::Asan, e));
                }
                o.seen(("counts", v[3]));
            }
        }
    }
    let _ = std::fs::remove_file(&p);
}

// ---------------------------------------------------------------- bases

struct Base {
    name: String,
    d: Vec<u8>,
    f: rf::File,
}

fn base(name: impl Into<String>, d: Vec<u8>) -> Option<Base> {
    let f = rf::File::parse(d.clone()).ok()?;
    Some(Base { name: name.into(), d, f })
}

fn written(cx: &Ctx, r: &mut Rng) -> Vec<u8> {
    let p = cx.path(".root");
    let trees: Vec<(String, Vec<Spec>)> = (0..r.range(1, 3))
        .map(|k| {
            let n = *r.pick(&[0, 1, 5, 40, 200]);
            (format!("t{k}"), (0..r.range(1, 5)).map(|j| Spec { name: format!("b{j}"), ty: any_type(r), n, len: Len::Uni(0, 6), seed: r.next(), val: Val::Mix }).collect())
        })
        .collect();
    write_specs(&p, &trees).expect("harness: base");
    let d = std::fs::read(&p).expect("harness: base");
    let _ = std::fs::remove_file(&p);
    d
}

fn bases(cx: &Ctx) -> Vec<Base> {
    let mut r = cx.rng("bases");
    let mut v = vec![];
    for n in REAL {
        let Ok(d) = std::fs::read(cx.repo.join(n)) else { continue };
        let short = n.rsplit('/').next().unwrap().to_string();
        if let Some(l) = rf::File::parse(d.clone()).ok().and_then(|f| synth::lift(&f).ok()) {
            if d.len() < 100_000 {
                v.extend(base(format!("{short}, uncompressed"), synth::build(&l, &Layout::plain()).0));
                v.extend(base(format!("{short}, other layout"), synth::build(&l, &Layout::random(&mut r)).0));
            }
        }
        if d.len() < 250_000 {
            v.extend(base(short, d));
        }
    }
    for k in 0..cx.n(60, 200) {
        let (mut fs, _) = p_lay::random_content(&mut r);
        if k % 3 == 0 {
            let mut b = 40;
            fs.trees[0].info = Some(p_meta::list(&mut r, 0, 4, &mut b));
        }
        let l = if k % 4 == 0 { Layout::plain() } else { Layout::random(&mut r) };
        let d = synth::build(&fs, &l).0;
        if d.len() < 120_000 {
            v.extend(base(format!("synthetic {k}"), d));
        }
    }
    for k in 0..cx.n(20, 60) {
        v.extend(base(format!("written {k}"), written(cx, &mut r)));
    }
    v
}

// ---------------------------------------------------------------- damage

const EXTREME: [i64; 26] = [
    0,
    1,
    2,
    -1,
    -2,
    i32::MAX as i64,
    i32::MIN as i64,
    i32::MAX as i64 - 1,
    i64::MAX,
    i64::MIN,
    0x4000_0000,
    0x4000_0001,
    0x8000_0000,
    0xffff_ffff,
    0x7f00_0000,
    0x0100_0000,
    0x1000_0000,
    0x0001_0000,
    0xffff,
    0x7fff,
    0x8000,
    255,
    1000,
    1001,
    1_000_000,
    1_000_001,
];

fn put(d: &mut [u8], p: usize, n: usize, v: i64) {
    for (i, x) in v.to_be_bytes()[8 - n..].iter().enumerate() {
        if let Some(b) = d.get_mut(p + i) {
            *b = *x;
        }
    }
}
fn get(d: &[u8], p: usize, n: usize) -> i64 {
    d[p.min(d.len())..(p + n).min(d.len())].iter().fold(0, |a, b| a << 8 | *b as i64)
}

/// A place worth damaging.
fn place(b: &Base, d: &[u8], r: &mut Rng) -> usize {
    let f = &b.f;
    let rec = |r: &mut Rng| f.recs[r.below(f.recs.len().max(1) as u64) as usize].clone();
    let tree = |r: &mut Rng| {
        let k: Vec<&rf::Rec> = f.recs.iter().filter(|x| x.class == "TTree" || x.class.starts_with("TNtuple")).collect();
        if k.is_empty() {
            None
        } else {
            Some((*r.pick(&k)).clone())
        }
    };
    let within = |r: &mut Rng, p: usize, n: usize| p + r.below(n.max(1) as u64) as usize;
    let p = match r.below(16) {
        0 => within(r, 0, f.h.len),
        1 => within(r, f.h.begin as usize, f.h.nbytes_name as usize + f.dir.len),
        2 => within(r, f.dir.seek_keys as usize, f.dir.nbytes_keys as usize),
        3 => within(r, f.h.seek_info as usize, f.h.nbytes_info as usize),
        4 | 5 => {
            // the key of a record
            let x = rec(r);
            within(r, x.pos, x.keylen as usize)
        }
        6 => {
            // the beginning of a payload
            let x = rec(r);
            within(r, x.pos + x.keylen as usize, 24)
        }
        7 => {
            // the end of a payload: tables of offsets
            let x = rec(r);
            let n = (x.nbytes as usize).min(40);
            within(r, x.pos + x.nbytes as usize - n, n)
        }
        8..=12 => match tree(r) {
            Some(x) => within(r, x.pos, x.nbytes as usize),
            None => within(r, 0, d.len()),
        },
        13 | 14 => {
            let k: Vec<&rf::Rec> = f.recs.iter().filter(|x| x.class == "TBasket").collect();
            if k.is_empty() {
                within(r, 0, d.len())
            } else {
                let x = (*r.pick(&k)).clone();
                within(r, x.pos, x.nbytes as usize)
            }
        }
        _ => within(r, 0, d.len()),
    };
    p.min(d.len().saturating_sub(1))
}

fn hurt(b: &Base, d: &mut Vec<u8>, r: &mut Rng) {
    if d.is_empty() {
        return;
    }
    let p = place(b, d, r);
    match r.below(14) {
        0 => d[p] ^= 1 << r.below(8),
        1 => d[p] = r.next() as u8,
        2..=4 => {
            let n = *r.pick(&[1usize, 2, 4, 4, 4, 8]);
            let v = *r.pick(&EXTREME);
            put(d, p, n, v);
        }
        5 | 6 => {
            let n = *r.pick(&[1usize, 2, 4, 4, 8]);
            let v = get(d, p, n);
            let w = match r.below(8) {
                0 => v + 1,
                1 => v - 1,
                2 => v.wrapping_mul(2),
                3 => -v,
                4 => v + r.below(100) as i64,
                5 => v - r.below(100) as i64,
                6 => v ^ 1 << r.below(8 * n as u64),
                _ => v / 2,
            };
            put(d, p, n, w);
        }
        7 => {
            // the position of some record, or of what is being read
            let v = if r.chance(1, 2) { b.f.recs[r.below(b.f.recs.len() as u64) as usize].pos as i64 } else { r.below(d.len() as u64) as i64 };
            let n = *r.pick(&[4usize, 4, 8]);
            put(d, p, n, v);
        }
        8 => {
            // a copy of another part
            let q = place(b, d, r);
            let n = r.range(1, *r.clone().pick(&[4usize, 16, 200])).min(d.len() - p).min(d.len() - q);
            let c = d[q..q + n].to_vec();
            d[p..p + n].copy_from_slice(&c);
        }
        9 => {
            let n = r.range(1, 40).min(d.len() - p);
            let x = *r.pick(&[0u8, 0xff, 0x40, 0x80]);
            d[p..p + n].fill(x);
        }
        10 => {
            let n = r.range(1, 16).min(d.len() - p);
            d.drain(p..p + n);
        }
        11 => {
            let n = r.range(1, 16);
            let x: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            d.splice(p..p, x);
        }
        12 => {
            // tags of objects and classes
            let q = place(b, d, r);
            let n = r.below(300) as u32;
            let v = *r.pick(&[0xffff_ffffu32, 0x8000_0000 | q as u32 & 0xfff, 0x4000_0000 | n, q as u32 & 0xfff]);
            put(d, p, 4, v as i64);
        }
        _ => {
            // names of classes, exchanged
            let names: [&[u8]; 14] = [b"TList", b"TMap", b"TObjArray", b"TBranch", b"TLeafI", b"TLeafC", b"TTree", b"TObjString", b"TLeafElement", b"TBranchElement", b"TBasket", b"TStreamerInfo", b"TNtuple", b"TLeafD"];
            let n = *r.pick(&names);
            let from = p;
            for q in from..d.len() {
                if let Some(w) = names.iter().find(|w| d[q..].starts_with(w)) {
                    let (w, q2) = (w.len(), q + w_len(d, q, w));
                    if r.chance(1, 2) || n.len() == w {
                        let m = n.len().min(w);
                        d[q..q + m].copy_from_slice(&n[..m]);
                    } else {
                        d.splice(q..q2, n.iter().copied());
                        if q > 0 {
                            d[q - 1] = n.len() as u8;
                        }
                    }
                    break;
                }
            }
        }
    }
}

fn w_len(d: &[u8], q: usize, w: &[u8]) -> usize {
    w.len().min(d.len() - q)
}

/// Damage the content of a compressed record, not its compressed form.
fn hurt_inside(b: &Base, d: &mut [u8], r: &mut Rng) -> bool {
    let c: Vec<&rf::Rec> = b.f.recs.iter().filter(|x| x.is_compressed()).collect();
    if c.is_empty() {
        return false;
    }
    for _ in 0..4 {
        let x = *r.pick(&c);
        let Ok(mut p) = b.f.payload(x) else { continue };
        for _ in 0..r.range(1, 4) {
            let q = r.below(p.len() as u64) as usize;
            let n = *r.pick(&[1usize, 2, 4, 4, 4, 8]);
            let v = if r.chance(2, 3) { *r.pick(&EXTREME) } else { get(&p, q, n) + r.below(5) as i64 - 2 };
            put(&mut p, q, n, v);
        }
        let algo = *r.pick(&[Algo::Zlib, Algo::Zlib, Algo::Lzma, Algo::Lz4]);
        if let Some((z, ..)) = synth::pack(&p, &[algo], 0, 9, r) {
            let room = (x.nbytes - x.keylen) as usize;
            if z.len() <= room {
                let at = x.pos + x.keylen as usize;
                d[at..at + z.len()].copy_from_slice(&z);
                return true;
            }
        }
    }
    false
}

fn mutants(cx: &Ctx, o: &mut Out, bs: &[Base], r: &mut Rng) {
    let b = r.pick(bs);
    o.case(format!("damaged versions of {}", b.name));
    for k in 0..20 {
        let mut d = b.d.clone();
        let how = if r.chance(1, 5) && hurt_inside(b, &mut d, r) {
            o.count("damage inside of compressed records", 1);
            "inside"
        } else {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8, 30]) {
                hurt(b, &mut d, r);
            }
            "outside"
        };
        if d == b.d {
            continue;
        }
        judge(cx, o, &d, r.next() % 1000, &format!("{} mutant {k} ({how})", b.name));
    }
    o.sample(format!("20 damaged versions of {} ({} bytes)", b.name, b.d.len()));
}

/// Every field of a file replaced by every extreme value.
fn sweep(cx: &Ctx, o: &mut Out, b: &Base, parts: usize, part: usize, stride: usize) {
    o.case(format!("every position of {}, part {part} of {parts}", b.name));
    let mut skip = part;
    for p in 0..b.d.len() {
        for (k, v) in EXTREME.iter().enumerate() {
            for n in [2usize, 4, 8] {
                if n == 2 && !(-2..=0xffff).contains(v) || n == 8 && k % 3 > 0 && k > 12 {
                    continue;
                }
                skip += 1;
                if skip % (parts * stride) != 0 {
                    continue;
                }
                let mut d = b.d.clone();
                put(&mut d, p, n, *v);
                if d != b.d {
                    judge(cx, o, &d, skip as u64 % 1000, &format!("{}: {n} bytes at {p} set to {v:#x}", b.name));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- constructions

fn nested_list(depth: usize, wide: usize, map: bool, r: &mut Rng) -> InfoM {
    let mut x = InfoM::Str("end".into());
    for k in 0..depth {
        let mut v = vec![x];
        for _ in 0..wide {
            v.push(InfoM::Str(String::new()));
        }
        r.shuffle(&mut v);
        x = if map && k % 2 == 0 { InfoM::Map(String::new(), v.into_iter().enumerate().map(|(i, x)| (InfoM::Str(format!("{i}")), x)).collect()) } else { InfoM::List(String::new(), v) };
    }
    InfoM::List(String::new(), vec![x])
}

fn deep(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let depth = *r.pick(&[100usize, 500, 2000, 5000, 20_000, 60_000]);
    let kind = i % 4;
    o.case(format!("{} nested {depth} deep", ["lists", "lists and maps", "branches", "branches of elements"][kind as usize]));
    let mut r2 = r.fork(7);
    // the writer recurses, too
    let d = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let r = &mut r2;
            let (mut fs, _) = p_lay::random_content(r);
            fs.trees.truncate(1);
            if kind < 2 {
                fs.trees[0].info = Some(nested_list(depth, r.range(0, 2), kind == 1, r));
            } else {
                let t = &mut fs.trees[0];
                let n = t.cols.first().map(|c| c.entries.len()).unwrap_or(0);
                let ct = val::Ct::Pr(crate::cols::P::I32);
                let vs = p_lay::values(&ct, n, r);
                let mut c = synth::col_of("leaf", &ct, &vs, false, None, r);
                for k in 0..depth.min(5000) {
                    let vs = p_lay::values(&ct, n, r);
                    let mut up = synth::col_of(&format!("b{k}"), &ct, &vs, kind == 3, None, r);
                    up.kids.push(c);
                    c = up;
                }
                t.cols.push(c);
            }
            let d = synth::build(&fs, &Layout::plain()).0;
            std::mem::forget(fs);
            d
        })
        .expect("harness: thread")
        .join();
    let Ok(d) = d else {
        o.error("the maker of nested objects failed");
        return;
    };
    o.count("nested objects", depth as u64);
    judge(cx, o, &d, i, &format!("{} levels (kind {kind})", depth));
    o.seen(("deep", kind, depth));
}

/// A column with one compressed record whose compressed form is damaged in many ways.
fn streams(cx: &Ctx, o: &mut Out, r: &mut Rng, i: u64) {
    let algo = [Algo::Zlib, Algo::Lzma, Algo::Lz4][(i % 3) as usize];
    let n = *r.pick(&[64usize, 300, 2000, 9000]);
    let ct = val::Ct::Pr(*r.pick(&[crate::cols::P::I32, crate::cols::P::U8, crate::cols::P::F64]));
    let period = *r.pick(&[1usize, 3, 7, 50, 1000]);
    let pool = p_lay::values(&ct, period, r);
    let vs: Vec<val::V> = (0..n).map(|k| pool[if r.chance(1, 30) { r.below(period as u64) as usize } else { k % period }].clone()).collect();
    let def = p_lay::Def::new("x", ct, vs);
    let (t, _) = p_lay::make_tree("t", &[def], r);
    let mut l = Layout::plain();
    l.algos = vec![algo];
    l.seed = r.next();
    l.block = *r.pick(&[0, 0, 100, 1000]);
    l.level = r.range(0, 9);
    let d = synth::build(&p_lay::file_of(vec![t]), &l).0;
    let Some(b) = base("stream", d) else {
        o.error("a file with compressed records can not be parsed");
        return;
    };
    let c: Vec<rf::Rec> = b.f.recs.iter().filter(|x| x.is_compressed() && x.class == "TBasket").cloned().collect();
    o.case(format!("compressed streams ({algo:?}), {} records", c.len()));
    if c.is_empty() {
        return;
    }
    for k in 0..30 {
        let x = r.pick(&c).clone();
        let at = x.pos + x.keylen as usize;
        let len = (x.nbytes - x.keylen) as usize;
        let mut d = b.d.clone();
        for _ in 0..*r.pick(&[1, 1, 2, 5, 20]) {
            match r.below(8) {
                // sizes announced by the header of the block
                0 => {
                    let v = *r.pick(&[0u32, 1, 0xff_ffff, 0x80_0000, len as u32, x.objlen as u32, x.objlen as u32 + 1, x.objlen as u32 - 1, len as u32 - 9, len as u32 - 10]);
                    let q = at + *r.pick(&[3usize, 6]);
                    d[q] = v as u8;
                    d[q + 1] = (v >> 8) as u8;
                    d[q + 2] = (v >> 16) as u8;
                }
                // announced by the key
                1 => {
                    let v = *r.pick(&[0i64, 1, x.objlen as i64 * 2, x.objlen as i64 - 1, x.objlen as i64 + 1, i32::MAX as i64, -1, 1 << 24]);
                    put(&mut d, x.pos + 6, 4, v);
                }
                2 => {
                    let a: &[u8] = *r.pick(&[b"ZL", b"XZ", b"L4", b"ZS", b"CS", b"ZZ"]);
                    d[at..at + 2].copy_from_slice(a);
                }
                3 => {
                    let q = at + 9 + r.below((len - 9).max(1) as u64) as usize;
                    let v = *r.pick(&EXTREME);
                    put(&mut d[..at + len], q, *r.pick(&[1usize, 2, 4]), v);
                }
                4 => {
                    let q = at + 9 + r.below((len - 9).max(1) as u64) as usize;
                    let e = (q + r.range(1, 30)).min(at + len);
                    let x = *r.pick(&[0u8, 0xff, 0xf0, 0x0f]);
                    d[q..e].fill(x);
                }
                _ => {
                    let q = at + 9 + r.below((len - 9).max(1) as u64) as usize;
                    d[q] = r.next() as u8;
                }
            }
        }
        judge(cx, o, &d, r.next() % 1000, &format!("{algo:?} stream {k}"));
    }
    o.count(&format!("streams damaged ({algo:?})"), 30);
}

/// Small contradictory files made from the parts of a valid one.
fn loops(cx: &Ctx, o: &mut Out, bs: &[Base], r: &mut Rng) {
    let b = r.pick(bs);
    o.case(format!("records of {} exchanged", b.name));
    for k in 0..10 {
        let mut d = b.d.clone();
        for _ in 0..r.range(1, 4) {
            // all positions of one record become those of another one
            let from = r.pick(&b.f.recs).pos;
            let to = r.pick(&b.f.recs).pos;
            let n = if r.chance(3, 4) { 4 } else { 8 };
            let pat = (from as u64).to_be_bytes();
            let pat = &pat[8 - n..];
            let mut q = 0;
            while q + n <= d.len() {
                if &d[q..q + n] == pat {
                    put(&mut d, q, n, to as i64);
                    q += n;
                } else {
                    q += 1;
                }
            }
            if r.chance(1, 3) {
                hurt(b, &mut d, r);
            }
        }
        if d != b.d {
            judge(cx, o, &d, r.next() % 1000, &format!("{} exchanged {k}", b.name));
        }
    }
}

pub fn c17(cx: &Ctx) {
    cx.set_rule("distinct = (place in the library where the reading of a damaged file stopped, build), what could be read of it, (kind of nesting, depth)");
    cx.assume("an allocation is in proportion to the file if it is below 40 MB plus 1100 times the size of the file");
    cx.assume("20 s of CPU time are enough for any file of the size of those used (intact ones take milliseconds)");
    if !asan_exe(cx).exists() {
        panic!("harness: the reader with AddressSanitizer is missing");
    }
    let bs = Arc::new(bases(cx));
    let mut small: Vec<&Base> = bs.iter().filter(|b| b.d.len() < 6000).collect();
    small.sort_by_key(|b| b.d.len());
    // intact files have to pass: the monitors are right about them
    cx.par("intact", bs.len(), |i, o| {
        let b = &bs[i as usize];
        o.case(b.name.clone());
        judge(cx, o, &b.d, i, &b.name);
    });
    let g = cx.rng("deep");
    cx.par("deep", cx.n(24, 120), |i, o| deep(cx, o, &mut g.fork(i), i));
    let g = cx.rng("streams");
    cx.par("streams", cx.n(240, 6000), |i, o| streams(cx, o, &mut g.fork(i), i));
    let g = cx.rng("exchanged");
    cx.par("exchanged", cx.n(120, 3000), |i, o| loops(cx, o, &bs, &mut g.fork(i)));
    let g = cx.rng("mutants");
    cx.par("mutants", cx.n(700, 30_000), |i, o| mutants(cx, o, &bs, &mut g.fork(i)));
    let parts = 16;
    let stride = cx.n(40, 1);
    let few = cx.n(6, 12).min(small.len());
    cx.par("fields", few * parts, |i, o| {
        let b = small[(i as usize / parts) * small.len() / few];
        sweep(cx, o, b, parts, i as usize % parts, stride)
    });
}
