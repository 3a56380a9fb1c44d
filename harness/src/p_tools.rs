//! C19: the command line tools, run as processes on the current build of them.
//!
//! The monitors read what they print (the tables of columns, the values of every entry) and
//! how they end; the oracle is the content given to the encoder, or what the library returns
//! for existing files.
use crate::cols::*;
use crate::core::*;
use crate::gen;
use crate::obs::{self, Data};
use crate::p_lay::{self, make_tree, values, Def};
use crate::p_meta;
use crate::rng::Rng;
use crate::synth::*;
use crate::val::{self, *};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A column as a tool has to show it.
struct ColX {
    name: String,
    cpp: String,
    rust: String,
    /// type and values, where these are known
    data: Option<(Ct, Vec<V>)>,
}
struct TreeX {
    name: String,
    title: Option<String>,
    entries: i64,
    cols: Vec<ColX>,
}

#[derive(Debug)]
struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}

fn tool(cx: &Ctx, name: &str, path: &Path) -> Result<Ran, String> {
    let exe = cx.verif.join("target/tools/debug").join(name);
    let (so, se) = (cx.path(".out"), cx.path(".err"));
    let file = |p: &PathBuf| std::fs::File::create(p).map_err(|e| format!("harness: {p:?}: {e}"));
    let mut c = Command::new(exe)
        .arg("--file")
        .arg(path)
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(file(&so)?)
        .stderr(file(&se)?)
        .current_dir(&cx.scratch)
        .spawn()
        .map_err(|e| format!("harness: cannot start {name}: {e}"))?;
    let t0 = Instant::now();
    let mut nap = 200;
    let st = loop {
        match c.try_wait().map_err(|e| format!("harness: wait: {e}"))? {
            Some(s) => break Some(s),
            None if t0.elapsed() > Duration::from_secs(120) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(nap)),
        }
        nap = (nap * 2).min(5000);
    };
    let read = |p: &PathBuf| {
        let s = String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
        let _ = std::fs::remove_file(p);
        s
    };
    let (out, err) = (read(&so), read(&se));
    match st {
        None => Err(format!("{name} does not end")),
        Some(s) => Ok(Ran { code: s.code(), out, err }),
    }
}

// ---------------------------------------------------------------- what is printed

/// The types the dumping tool is written for.
fn supported(t: &Ct) -> bool {
    let narrow = |t: &Ct| match t {
        Ct::Pr(p) => !matches!(p, P::I64 | P::U64),
        Ct::S(s) => *s != Sk::Chars,
        _ => false,
    };
    let key = |t: &Ct| narrow(t) && !matches!(t, Ct::Pr(P::F32 | P::F64));
    match t {
        Ct::Pr(_) | Ct::S(_) | Ct::Arr(..) => true,
        Ct::Sl(p) => narrow(&Ct::Pr(*p)),
        Ct::Vc(x) => match &**x {
            Ct::Vc(y) => narrow(y),
            Ct::Set(y) => key(y),
            y => narrow(y),
        },
        Ct::Set(x) => key(x),
        Ct::Map(k, x) => key(k) && (narrow(x) || matches!(&**x, Ct::Vc(_) | Ct::Set(_)) && supported(x)),
    }
}

fn all_supported() -> Vec<Ct> {
    let mut base: Vec<Ct> = PRIMS.iter().map(|p| Ct::Pr(*p)).collect();
    base.extend([Ct::S(Sk::Std), Ct::S(Sk::TString)]);
    let mut v = base.clone();
    for b in &base {
        v.extend([vec_of(b.clone()), vec_of(vec_of(b.clone())), set_of(b.clone()), vec_of(set_of(b.clone()))]);
    }
    let inner = v.clone();
    for k in &base {
        v.extend(inner.iter().map(|x| map_of(k.clone(), x.clone())));
    }
    v.push(Ct::S(Sk::Chars));
    for p in PRIMS {
        v.push(Ct::Sl(p));
        v.extend(ARR_N.iter().map(|n| Ct::Arr(p, *n)));
        v.extend([33, 100].map(|n| Ct::Arr(p, n)));
    }
    v.retain(supported);
    v
}

fn lit(v: &V, p: P) -> String {
    let V::N(b) = v else { panic!("harness: scalar expected") };
    let b = *b;
    match p {
        P::I8 => format!("{:?}", b as i8),
        P::U8 => format!("{:?}", b as u8),
        P::I16 => format!("{:?}", b as i16),
        P::U16 => format!("{:?}", b as u16),
        P::I32 => format!("{:?}", b as i32),
        P::U32 => format!("{:?}", b as u32),
        P::I64 => format!("{:?}", b as i64),
        P::U64 => format!("{b:?}"),
        P::F32 => format!("{:?}", f32::from_bits(b as u32)),
        P::F64 => format!("{:?}", f64::from_bits(b)),
        P::Bool => format!("{:?}", b != 0),
    }
}

fn seq<'a>(mut s: &'a str, n: usize, open: &str, close: &str, mut item: impl FnMut(usize, &'a str) -> Option<&'a str>) -> Option<&'a str> {
    s = s.strip_prefix(open)?;
    for i in 0..n {
        if i > 0 {
            s = s.strip_prefix(", ")?;
        }
        s = item(i, s)?;
    }
    s.strip_prefix(close)
}

/// What follows the value at the beginning of `s`; sets and maps in any order.
fn eat<'a>(t: &Ct, v: &V, s: &'a str) -> Option<&'a str> {
    let ends = |r: &str| r.starts_with([',', ']', '}', '\n', ':']);
    match (t, v) {
        (Ct::Pr(p), v) => s.strip_prefix(lit(v, *p).as_str()),
        (Ct::S(_), V::S(x)) => s.strip_prefix(format!("{x:?}").as_str()),
        (Ct::Arr(p, _) | Ct::Sl(p), V::L(l)) => seq(s, l.len(), "[", "]", |i, s| s.strip_prefix(lit(&l[i], *p).as_str())),
        (Ct::Vc(x), V::L(l)) => seq(s, l.len(), "[", "]", |i, s| eat(x, &l[i], s)),
        (Ct::Set(x), V::Set(l)) => {
            let mut left: Vec<&V> = l.iter().collect();
            seq(s, l.len(), "{", "}", |_, s| {
                let k = left.iter().position(|v| eat(x, v, s).is_some_and(ends))?;
                eat(x, left.remove(k), s)
            })
        }
        (Ct::Map(k, x), V::M(m)) => {
            let mut left: Vec<&(V, V)> = m.iter().collect();
            seq(s, m.len(), "{", "}", |_, s| {
                let j = left.iter().position(|v| eat(k, &v.0, s).is_some_and(ends))?;
                let (a, b) = left.remove(j);
                eat(x, b, eat(k, a, s)?.strip_prefix(": ")?)
            })
        }
        _ => panic!("harness: {v:?} is no {}", t.cpp()),
    }
}

type R<'a> = Result<&'a str, (&'static str, String)>;

fn here(s: &str) -> String {
    clip(&format!("{:?}", s.chars().take(160).collect::<String>()), 400)
}

fn bar(s: &str) -> Option<&str> {
    s.trim_start_matches(' ').strip_prefix('|').map(|s| s.trim_start_matches(' '))
}

/// The table of columns: two lines above it, then every column once, in order.
fn table<'a>(mut s: &'a str, t: &TreeX) -> R<'a> {
    for _ in 0..2 {
        s = s.split_once('\n').ok_or(("table", format!("no table for {:?}", t.name)))?.1;
    }
    for c in &t.cols {
        let bad = |s: &str| ("table", format!("tree {:?}: column {:?} {:?} {:?} expected at {}", t.name, c.name, c.cpp, c.rust, here(s)));
        let line = || {
            let r = bar(s.strip_prefix(c.name.as_str())?)?;
            let k = c.cpp.char_indices().zip(r.chars()).take_while(|((_, a), b)| a == b).map(|((i, a), _)| i + a.len_utf8()).last().unwrap_or(0);
            if k < c.cpp.len() && c.cpp[..k].chars().count() < 30 && k < 30 - 4 {
                return None;
            }
            let r = bar(&r[k..])?;
            r.strip_prefix(c.rust.as_str())?.trim_start_matches(' ').strip_prefix('\n')
        };
        s = line().ok_or_else(|| bad(s))?;
    }
    Ok(s)
}

/// The entries; `shown`: number of values compared.
fn entries<'a>(mut s: &'a str, t: &TreeX, shown: &mut u64) -> R<'a> {
    for i in 0..t.entries {
        for c in &t.cols {
            let begin = format!("[{i}][{}]: ", c.name);
            let must = c.data.as_ref().is_some_and(|d| supported(&d.0));
            let Some(r) = s.strip_prefix(begin.as_str()) else {
                if must {
                    return Err(("missing", format!("tree {:?}: {begin:?} ({}) expected at {}", t.name, c.cpp, here(s))));
                }
                continue;
            };
            // a column of another type may be shown, too: then correctly
            let Some((ct, vals)) = &c.data else {
                if c.data.is_none() && !must {
                    s = r.split_once('\n').map_or("", |x| x.1);
                }
                continue;
            };
            let r = match vals.get(i as usize) {
                None => r.strip_prefix("None"),
                Some(v) => eat(ct, v, r),
            };
            *shown += 1;
            s = r.and_then(|r| r.strip_prefix('\n')).ok_or_else(|| {
                let w = vals.get(i as usize);
                ("value", format!("tree {:?}: entry {i} of {:?} ({}) is {}: printed {}", t.name, c.name, c.cpp, clip(&format!("{w:?}"), 300), here(s)))
            })?;
        }
    }
    Ok(s)
}

/// Both tools on a file with this content (every tree once, in any order).
fn both(cx: &Ctx, o: &mut Out, path: &Path, want: &[TreeX], others: &[String], what: &str) -> bool {
    let mut good = true;
    for dump in [false, true] {
        let name = if dump { "oxyroot-dump" } else { "oxyroot-ls" };
        o.eval();
        let mut shown = 0;
        let r = match tool(cx, name, path) {
            Err(e) if e.starts_with("harness") => {
                o.error(e);
                return false;
            }
            Err(e) => Err(("hang", e)),
            Ok(r) if r.code != Some(0) => Err(("status", format!("status {:?}; {}; {}", r.code, clip(&r.err, 600), here(&r.out)))),
            Ok(r) => {
                o.count(&format!("runs of {name}"), 1);
                o.count("bytes printed", r.out.len() as u64);
                read_output(&r, want, others, dump, &mut shown)
            }
        };
        o.count("values compared", shown);
        if let Err((s, d)) = r {
            o.viol(format!("{what}:{name}:{s}"), d);
            good = false;
        }
    }
    good
}

fn read_output(r: &Ran, want: &[TreeX], others: &[String], dump: bool, shown: &mut u64) -> Result<(), (&'static str, String)> {
    let mut seen = vec![false; want.len()];
    let mut s = r.out.split_once('\n').map_or("", |x| x.1);
    while !s.is_empty() {
        let next: Vec<(usize, &str)> = want.iter().enumerate().filter_map(|(k, t)| {
            if dump {
                return s.strip_prefix(format!(">>> tree: {:?}\n", t.name).as_str()).map(|s| (k, s));
            }
            let r = s.strip_prefix("> ")?;
            // the class, then the name
            let r = r.split_once(" name='").filter(|c| !c.0.contains('\n'))?.1;
            let r = r.strip_prefix(t.name.as_str())?.strip_prefix('\'')?;
            let r = match &t.title {
                Some(x) => r.trim_start().strip_prefix(format!("(title='{x}')").as_str())?,
                None => &r[r.find("\n> Data in ")?..],
            };
            r.strip_prefix(format!("\n> Data in {}:\n", t.name).as_str()).map(|s| (k, s))
        })
        .collect();
        // a line about an object which is no tree
        if let (true, Some((l, rest))) = (next.is_empty(), s.split_once('\n')) {
            if others.iter().any(|n| l.contains(n.as_str())) && !l.starts_with('[') {
                s = rest;
                continue;
            }
        }
        if next.is_empty() {
            return Err(("trees", format!("a tree of {:?} expected at {}", want.iter().map(|t| &t.name).collect::<Vec<_>>(), here(s))));
        }
        // several trees may have one name: each is shown once
        let mut next: Vec<_> = next.into_iter().map(|(k, rest)| {
            let mut n = 0;
            let r = table(rest, &want[k]).and_then(|s| if dump { entries(s, &want[k], &mut n) } else { Ok(s) });
            // what follows must be another tree, or nothing
            let good = r.as_ref().is_ok_and(|s| s.is_empty() || s.starts_with('>'));
            (!good, seen[k], k, n, r)
        })
        .collect();
        next.sort_by_key(|x| (x.0, x.1));
        let (_, again, k, n, r) = next.swap_remove(0);
        s = r?;
        if again {
            return Err(("trees", format!("the tree {:?} is shown again, before {}", want[k].name, here(s))));
        }
        seen[k] = true;
        *shown += n;
    }
    match seen.iter().position(|s| !s) {
        Some(k) => Err(("trees", format!("the tree {:?} is not shown", want[k].name))),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- files

fn expect(e: &p_lay::ExpT, title: String) -> TreeX {
    TreeX {
        name: e.name.clone(),
        title: Some(title),
        entries: e.entries,
        cols: e.cols.iter().map(|c| ColX { name: c.name.clone(), cpp: c.ct.cpp(), rust: c.ct.rust(), data: Some((c.ct.clone(), c.vals.clone())) }).collect(),
    }
}

fn of_obs(t: &obs::TreeO) -> TreeX {
    let cols = t.cols.iter().map(|c| {
        let data = match &c.data {
            Data::Values(v) => val::parse(&c.cpp).map(|t| (t, v.clone())),
            _ => None,
        };
        ColX { name: c.name.clone(), cpp: c.cpp.clone(), rust: c.rust.clone(), data }
    });
    TreeX { name: t.name.clone(), title: None, entries: t.entries, cols: cols.collect() }
}

/// A path a user may give.
fn odd_path(cx: &Ctx, r: &mut Rng) -> PathBuf {
    let n = cx.path("").file_name().unwrap().to_string_lossy().into_owned();
    let mut b = match r.below(6) {
        0 => format!("{n} with spaces and 'quotes\".root").into_bytes(),
        1 => format!("{n}-é日本.root").into_bytes(),
        2 => [n.as_bytes(), b"-\xff\xfe.root"].concat(),
        3 => format!("{n}.txt").into_bytes(),
        _ => format!("{n}.root").into_bytes(),
    };
    if r.chance(1, 8) {
        b.extend_from_slice(b".with.dots");
    }
    cx.scratch.join(std::ffi::OsString::from_vec(b))
}

pub fn all_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        let hidden = p.file_name().is_some_and(|n| n.to_string_lossy().starts_with('.') || n == "target");
        if p.is_dir() && !p.is_symlink() && !hidden {
            all_files(&p, out);
        } else if p.extension().is_some_and(|e| e == "root") {
            out.push(p);
        }
    }
}

pub fn c19(cx: &Ctx) {
    cx.set_rule("one case = a file and a tool, run as a process; monitored: exit status, the table of columns of every tree, every value of every entry of the columns of supported types; for unreadable files that the status tells of an error; non-trivial = at least one tree");
    cx.assume("supported types: scalars, strings, arrays, counted arrays, vectors (of vectors, of sets), sets and maps of them, except containers of 64 bits integers; every tree is shown once, also those which share a name; the types of a nested object of an undescribed class cannot be asked for");
    let r0 = cx.rng("c19");
    // the encoder's files: every type, every layout
    let mut cat = all_supported();
    let n_supported = cat.len();
    cat.extend(p_lay::catalogue().into_iter().filter(|t| !supported(t)));
    let per = 12;
    let reps = cx.n(1, 12);
    let lots = cat.len().div_ceil(per);
    cx.par("types", lots * reps, |i, o| {
        let mut r = r0.fork(i);
        let k = i as usize % lots;
        let n = *r.pick(&[1usize, 2, 9, 40]);
        let defs: Vec<Def> = cat[k * per..((k + 1) * per).min(cat.len())]
            .iter()
            .enumerate()
            .map(|(j, ct)| {
                let mut d = Def::new(&format!("c{j}"), ct.clone(), values(ct, n, &mut r));
                d.member = r.chance(1, 3);
                d
            })
            .collect();
        let (t, e) = make_tree("tree", &defs, &mut r);
        let mut l = Layout::plain();
        l.seed = r.next();
        l.chunk = *r.pick(&[Chunk::All, Chunk::Each, Chunk::Uni(1, 7)]);
        o.case(format!("types {}.. {n} entries", defs[0].ct.cpp()));
        let w = [expect(&e, t.title.clone())];
        file(cx, o, &mut r, &p_lay::file_of(vec![t]), &l, &w, "types");
        for d in &defs {
            o.seen((d.ct.cpp(), i / lots as u64));
        }
        if i == 0 {
            o.count("types of the dumping tool", n_supported as u64);
        }
    });
    cx.par("files", cx.n(250, 6000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let (fs, exp) = p_lay::random_content(&mut r);
        let mut l = Layout::random(&mut r);
        l.algos.retain(|a| *a != Algo::Lzma);
        l.algos.push(Algo::None);
        l.far = 0;
        o.case(format!("{:?} {l:?}", exp.iter().map(|e| &e.name).collect::<Vec<_>>()));
        let w: Vec<TreeX> = exp.iter().map(|e| expect(e, fs.trees.iter().find(|t| t.name == e.name).unwrap().title.clone())).collect();
        if file(cx, o, &mut r, &fs, &l, &w, "files") {
            o.seen(i);
            o.sample(clip(&format!("{:?}", exp.iter().map(|e| (&e.name, e.cols.len(), e.entries)).collect::<Vec<_>>()), 200));
        }
    });
    // objects which are no trees among the trees
    cx.par("objects", cx.n(80, 2000), |i, o| {
        let mut r = r0.fork(7_000_000 + i);
        let (mut fs, exp) = p_lay::random_content(&mut r);
        let w: Vec<TreeX> = exp.iter().map(|e| expect(e, fs.trees.iter().find(|t| t.name == e.name).unwrap().title.clone())).collect();
        let others = p_lay::others(&mut fs, &mut r);
        let mut l = Layout::plain();
        l.keys_shuffled = r.chance(1, 2);
        l.seed = r.next();
        o.case(format!("{others:?} among {:?}", exp.iter().map(|e| &e.name).collect::<Vec<_>>()));
        if file(cx, o, &mut r, &fs, &l, &w, "objects") {
            o.seen(i);
        }
    });
    // trees, and other objects, which share a name
    cx.par("cycles", cx.n(80, 2000), |i, o| {
        let mut r = r0.fork(8_000_000 + i);
        let mut fs = p_lay::file_of(vec![]);
        let mut w = vec![];
        let names = [gen::name(&mut r, 0).replace(['/', ';', '\n', '\''], "_") + "t", "u".to_string()];
        let mut last = [0; 2];
        for _ in 0..r.range(2, 5) {
            let (part, exp) = p_lay::random_content(&mut r);
            for (mut t, e) in part.trees.into_iter().zip(exp) {
                let k = r.below(3) as usize / 2;
                last[k] += *r.pick(&[1i16, 1, 2, 7]);
                (t.name, t.cycle) = (names[k].clone(), last[k]);
                w.push(TreeX { name: t.name.clone(), ..expect(&e, t.title.clone()) });
                fs.trees.push(t);
            }
        }
        if r.chance(1, 2) {
            let n = fs.trees.len();
            let others = p_lay::others(&mut fs, &mut r);
            for t in fs.trees.iter_mut().filter(|t| others.iter().any(|x| x.0 == t.name)) {
                let k = r.below(3) as usize;
                if k < 2 {
                    last[k] += 1;
                    (t.name, t.cycle) = (names[k].clone(), last[k]);
                }
            }
            o.count("other objects", (fs.trees.len() - n) as u64);
        }
        let mut l = Layout::plain();
        l.keys_shuffled = r.chance(1, 2);
        l.seed = r.next();
        o.case(format!("{:?}", fs.trees.iter().map(|t| (&t.name, t.cycle, t.other.is_some())).collect::<Vec<_>>()));
        if file(cx, o, &mut r, &fs, &l, &w, "cycles") {
            o.seen(i);
        }
    });
    // hierarchies, long and unusual names
    cx.par("hierarchies", cx.n(150, 4000), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let n = *r.pick(&[0usize, 1, 3, 20]);
        let left = *r.pick(&[1usize, 4, 12, 40]);
        let (cols, flat) = p_meta::random_hierarchy(&mut r, n, left);
        let name = gen::name(&mut r, 0);
        let name = if name.is_empty() || name.contains('/') { "t".into() } else { name };
        let t = TreeS { name: name.clone(), title: "a title".into(), cycle: 1, entries: n as i64, cols, info: None, other: None };
        let rust = |cpp: &str, d: &Option<(Ct, Vec<V>)>| d.as_ref().map_or(cpp.to_string(), |d| d.0.rust());
        let w = [TreeX {
            name,
            title: Some("a title".into()),
            entries: n as i64,
            cols: flat.iter().map(|(n, c, d)| ColX { name: n.clone(), cpp: c.clone(), rust: rust(c, d), data: d.clone() }).collect(),
        }];
        let mut l = Layout::plain();
        l.seed = r.next();
        l.chunk = *r.pick(&[Chunk::All, Chunk::Uni(1, 7)]);
        o.case(clip(&format!("{:?} {n} entries", flat.iter().map(|f| &f.0).collect::<Vec<_>>()), 1000));
        if file(cx, o, &mut r, &p_lay::file_of(vec![t]), &l, &w, "hierarchies") {
            o.seen(i);
        }
    });
    // classes of the user, with names of any length and script
    cx.par("classes", cx.n(60, 1500), |i, o| {
        let mut r = r0.fork(3_000_000 + i);
        let k = r.range(1, 8);
        let mut cols = vec![];
        let mut w = vec![];
        for j in 0..k {
            let len = r.range(1, 60);
            let word: String = (0..len).map(|_| *r.pick(&['a', 'Z', '_', '7', 'é', 'ß', '日', '𝔘'])).collect();
            let class = format!("C{word}");
            let name = format!("b{j}");
            let leaf = format!("x{j}");
            let ct = Ct::Pr(P::I32);
            let vals = values(&ct, 3, &mut r);
            cols.push(ColS {
                name: name.clone(),
                title: name.clone(),
                n: 3,
                elem: Some(ElemS { class_name: class.clone(), stype: -1, id: -1, clsver: 1, btype: 1, ..Default::default() }),
                kids: vec![col_of(&leaf, &ct, &vals, false, None, &mut r)],
                ..Default::default()
            });
            w.push(ColX { name, cpp: class.clone(), rust: class, data: None });
            w.push(ColX { name: leaf, cpp: ct.cpp(), rust: ct.rust(), data: Some((ct, vals)) });
        }
        let t = TreeS { name: "t".into(), title: "a title".into(), cycle: 1, entries: 3, cols, info: None, other: None };
        let w = [TreeX { name: "t".into(), title: Some("a title".into()), entries: 3, cols: w }];
        o.case(clip(&format!("{:?}", w[0].cols.iter().map(|c| &c.cpp).collect::<Vec<_>>()), 1000));
        if file(cx, o, &mut r, &p_lay::file_of(vec![t]), &Layout::plain(), &w, "classes") {
            o.seen(i);
        }
    });
    // files the library wrote
    cx.par("written", cx.n(60, 1500), |i, o| {
        let mut r = r0.fork(4_000_000 + i);
        let p = odd_path(cx, &mut r);
        let nt = r.range(1, 3);
        let same = r.chance(1, 3);
        let trees: Vec<(String, Vec<gen::Spec>)> = (0..nt)
            .map(|k| {
                let n = *r.pick(&[0usize, 1, 30, 2000]);
                let c = r.range(1, 6);
                let specs = (0..c).map(|j| gen::Spec::new(&format!("c{j}"), gen::any_type(&mut r), n, r.next()).len(gen::Len::Uni(0, 9))).collect();
                // also several with one name
                (format!("tree{}", if same { 0 } else { k }), specs)
            })
            .collect();
        o.case(format!("{p:?} {:?}", trees.iter().map(|t| (&t.0, t.1.iter().map(|s| s.desc()).collect::<Vec<_>>())).collect::<Vec<_>>()));
        if let Err(e) = gen::write_specs(&p, &trees) {
            o.viol("written:write", e);
            return;
        }
        match obs::observe_with(&p, 1 << 20, true) {
            Err(e) => o.viol("written:unreadable", e),
            Ok(v) => {
                let w: Vec<TreeX> = v.iter().map(of_obs).collect();
                if both(cx, o, &p, &w, &[], "written") {
                    o.seen(i);
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    // the files of the repository
    let mut real = vec![];
    all_files(&cx.repo, &mut real);
    cx.par("real", real.len(), |i, o| {
        let p = &real[i as usize];
        o.case(format!("{}", p.display()));
        match obs::observe_with(p, 1 << 20, true) {
            Err(_) => o.count("files of the repository the library cannot read", 1),
            Ok(v) if v.iter().map(|t| t.entries * t.cols.len() as i64).sum::<i64>() > cx.n(150_000, 3_000_000) as i64 => o.count("files of the repository left out", 1),
            Ok(v) => {
                let w: Vec<TreeX> = v.iter().map(of_obs).collect();
                if both(cx, o, p, &w, &obs::other_names(p), "real") {
                    o.seen(p);
                }
            }
        }
    });
    // files which cannot be read
    cx.par("unreadable", cx.n(120, 3000), |i, o| {
        let mut r = r0.fork(5_000_000 + i);
        let p = odd_path(cx, &mut r);
        let kind = i % 8;
        let (fs, exp) = p_lay::random_content(&mut r);
        let d = build(&fs, &Layout::plain()).0;
        let mut is_dir = false;
        let bytes = match kind {
            0 => None,
            1 => Some(vec![]),
            2 => {
                is_dir = true;
                None
            }
            3 => Some((0..r.range(1, 5000)).map(|_| r.next() as u8).collect()),
            4 => Some(b"this is a text, not a file with trees\n".repeat(r.range(1, 20))),
            5 => Some([b"toor", &d[4..]].concat()),
            // cut anywhere
            6 => Some(d[..r.below(d.len() as u64) as usize].to_vec()),
            _ => Some(d[..r.range(0, 100)].to_vec()),
        };
        o.case(format!("{p:?} kind {kind} {} bytes", bytes.as_ref().map_or(0, |b| b.len())));
        if is_dir {
            let _ = std::fs::create_dir(&p);
        } else if let Some(b) = &bytes {
            std::fs::write(&p, b).expect("harness: scratch file");
        }
        for name in ["oxyroot-ls", "oxyroot-dump"] {
            o.eval();
            match tool(cx, name, &p) {
                Err(e) if e.starts_with("harness") => o.error(e),
                Err(e) => o.viol(format!("unreadable:{name}:hang"), e),
                Ok(r) => {
                    o.check(matches!(r.code, Some(c) if c != 0), &format!("unreadable:{name}:status"), || format!("kind {kind}: status {:?}, {}", r.code, here(&r.out)));
                }
            }
        }
        o.seen((kind, exp.len(), bytes.map_or(0, |b| b.len())));
        let _ = if is_dir { std::fs::remove_dir(&p) } else { std::fs::remove_file(&p) };
    });
    // a column which cannot be read: no success
    cx.par("damaged", cx.n(80, 2000), |i, o| {
        let mut r = r0.fork(6_000_000 + i);
        let (fs, _) = p_lay::random_content(&mut r);
        let mut l = Layout::plain();
        l.seed = r.next();
        l.algos = vec![*r.pick(&[Algo::Zlib, Algo::Lz4, Algo::None])];
        let mut d = build(&fs, &l).0;
        for _ in 0..r.range(1, 3) {
            let at = r.range(60, d.len() - 1);
            d[at] ^= 1 << r.below(8);
        }
        let p = cx.path(".root");
        std::fs::write(&p, &d).expect("harness: scratch file");
        o.case(format!("{l:?}"));
        let v = obs::observe_with(&p, 1 << 16, true);
        let fails = match &v {
            Err(_) => true,
            Ok(v) => v.iter().flat_map(|t| &t.cols).any(|c| matches!(&c.data, Data::Panic(_)) && val::parse(&c.cpp).is_some_and(|t| supported(&t))),
        };
        // a count which was damaged may leave the tree without the entry which fails
        let all = v.as_ref().is_ok_and(|v| v.iter().all(|t| t.cols.iter().all(|c| c.entries <= t.entries)));
        if fails && (v.is_err() || all) {
            o.eval();
            o.seen((i, d.len()));
            match tool(cx, "oxyroot-dump", &p) {
                Err(e) if e.starts_with("harness") => o.error(e),
                Err(e) => o.viol("damaged:hang", e),
                Ok(r) => {
                    o.check(r.code != Some(0), "damaged:status", || format!("the library fails ({}), the tool ends with {:?}: {}", clip(&format!("{:?}", v.as_ref().err()), 300), r.code, here(&r.out)));
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    });
}

fn file(cx: &Ctx, o: &mut Out, r: &mut Rng, fs: &FileS, l: &Layout, w: &[TreeX], what: &str) -> bool {
    let others: Vec<String> = fs.trees.iter().filter(|t| t.other.is_some()).map(|t| t.name.clone()).collect();
    let p = odd_path(cx, r);
    std::fs::write(&p, build(fs, l).0).expect("harness: scratch file");
    let ok = both(cx, o, &p, w, &others, what);
    let _ = std::fs::remove_file(&p);
    ok
}
