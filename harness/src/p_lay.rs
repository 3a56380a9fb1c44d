//! Reading: C07 (typed access), C08 (compression), C09 (physical layout), C18 (type names),
//! C20 (hierarchies, lookup, metadata), C21 (jagged columns and containers).
//!
//! The files come from the independent encoder (`synth.rs`) or are existing files taken apart by
//! the independent parser and put together again in another layout; the oracle is the content
//! given to the encoder (or what the independent decoder reads), never the library itself.
use crate::cols::*;
use crate::core::*;
use crate::obs::{self, Data};
use crate::rng::Rng;
use crate::rootfmt as rf;
use crate::rootfmt::InfoM;
use crate::synth::*;
use crate::val::{self, *};
use oxyroot::{ReaderTree, RootFile};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- content

pub struct Exp {
    pub name: String,
    pub ct: Ct,
    pub class: &'static str,
    pub vals: Vec<V>,
}
pub struct ExpT {
    pub name: String,
    pub entries: i64,
    pub cols: Vec<Exp>,
}

pub struct Def {
    pub name: String,
    pub ct: Ct,
    pub member: bool,
    pub class_name: Option<String>,
    pub vals: Vec<V>,
}

impl Def {
    pub fn new(name: &str, ct: Ct, vals: Vec<V>) -> Def {
        Def { name: name.into(), ct, member: false, class_name: None, vals }
    }
}

pub fn make_tree(name: &str, defs: &[Def], r: &mut Rng) -> (TreeS, ExpT) {
    let mut t = TreeS { name: name.into(), title: format!("title of {name}"), cycle: 1, ..Default::default() };
    let mut e = ExpT { name: name.into(), entries: 0, cols: vec![] };
    for d in defs {
        if let Ct::Sl(_) = d.ct {
            t.cols.push(count_col(&d.name, &d.vals, r));
            let vals = d.vals.iter().map(|v| if let V::L(l) = v { V::N(l.len() as u64) } else { unreachable!() }).collect();
            e.cols.push(Exp { name: format!("n_{}", d.name), ct: Ct::Pr(P::I32), class: "TBranch", vals });
        }
        let c = col_of(&d.name, &d.ct, &d.vals, d.member, d.class_name.clone(), r);
        let class = if c.elem.is_some() { "TBranchElement" } else { "TBranch" };
        e.entries = e.entries.max(d.vals.len() as i64);
        e.cols.push(Exp { name: d.name.clone(), ct: d.ct.clone(), class, vals: d.vals.clone() });
        t.cols.push(c);
    }
    t.entries = e.entries;
    (t, e)
}

pub fn file_of(trees: Vec<TreeS>) -> FileS {
    FileS { trees, sinfo: empty_sinfo(), sinfo_keylen: 0, sinfo_title: "Doubly linked list".into() }
}

/// A distribution of sizes over the entries.
pub fn values(ct: &Ct, n: usize, r: &mut Rng) -> Vec<V> {
    let size = *r.pick(&[0usize, 1, 2, 3, 5, 12]);
    let mode = r.below(6);
    let spike = r.below(n.max(1) as u64) as usize;
    (0..n)
        .map(|i| match mode {
            // one huge entry
            0 if i == spike && ct.fixed_size().is_none() => val::random(ct, r, 40),
            // alternately empty
            1 if i % 2 == 0 => val::random(ct, r, 0),
            // a long tail of empty entries, or a long head
            2 if i > spike => val::random(ct, r, 0),
            3 if i < spike => val::random(ct, r, 0),
            // as many elements as entries in total (one each)
            4 => match ct {
                Ct::Sl(p) => V::L(vec![val::random(&Ct::Pr(*p), r, 1)]),
                _ => val::random(ct, r, 1),
            },
            _ => val::random(ct, r, size),
        })
        .collect()
}

pub fn random_defs(r: &mut Rng, max_cols: usize, n: usize) -> Vec<Def> {
    let k = r.range(1, max_cols);
    (0..k)
        .map(|j| {
            let ct = val::any(r);
            let mut d = Def::new(&format!("c{j}"), ct.clone(), values(&ct, n, r));
            d.member = r.chance(1, 3);
            d
        })
        .collect()
}

pub fn random_content(r: &mut Rng) -> (FileS, Vec<ExpT>) {
    let nt = *r.pick(&[1, 1, 1, 2, 3]);
    let mut ts = vec![];
    let mut es = vec![];
    for k in 0..nt {
        let n = *r.pick(&[0usize, 1, 2, 7, 30, 100]);
        let defs = random_defs(r, 6, n);
        let name = if k > 0 && r.chance(1, 4) { format!("longer_{}", "n".repeat(r.range(1, 260))) } else { format!("tree{k}") };
        let name = format!("{name}{k}");
        let (t, e) = make_tree(&name, &defs, r);
        ts.push(t);
        es.push(e);
    }
    (file_of(ts), es)
}

/// Put objects which are no trees among the trees; their names and classes.
pub fn others(fs: &mut FileS, r: &mut Rng) -> Vec<(String, String)> {
    let mut v = vec![];
    for k in 0..r.range(1, 5) {
        let name = match r.below(3) {
            0 => format!("object{k}"),
            1 => format!("tree{k}x"),
            _ => format!("{}{k}", crate::gen::string_of(r, 6).replace(['/', ';', '\n', '\''], "_")),
        };
        if fs.trees.iter().any(|t| t.name == name) {
            continue;
        }
        let text = crate::gen::string_of(r, 20);
        let len = r.range(0, 400);
        let noise: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        let (class, body) = match r.below(6) {
            0 => {
                // version, and of the base: version, id, bits
                let mut b = vec![0, 1, 0, 1, 0, 0, 0, 0, 3, 0, 0, 0];
                val::put_tstr(&mut b, text.as_bytes());
                let mut o = (0x4000_0000 | b.len() as u32).to_be_bytes().to_vec();
                o.extend_from_slice(&b);
                ("TObjString".to_string(), o)
            }
            1 => ("TH1F".into(), noise),
            2 => ("TGraph".into(), noise),
            3 => ("TDirectoryFile".into(), noise),
            4 => ("TTreeIndex".into(), noise),
            _ => (format!("My::Cl\u{e9}ss{k}"), noise),
        };
        let at = r.range(0, fs.trees.len());
        v.push((name.clone(), class.clone()));
        fs.trees.insert(at, TreeS { name, title: "no tree".into(), cycle: 1, other: Some((class, body)), ..Default::default() });
    }
    v
}

// ---------------------------------------------------------------- oracle

type E = Option<(String, String)>;

/// First difference between what the library reports and what was encoded.
pub fn compare(seen: &Result<Vec<obs::TreeO>, String>, exp: &[ExpT]) -> E {
    let seen = match seen {
        Err(e) => return Some(("unreadable".into(), e.clone())),
        Ok(s) => s,
    };
    let (mut a, mut b): (Vec<_>, Vec<_>) = (seen.iter().map(|t| &t.name).collect(), exp.iter().map(|t| &t.name).collect());
    a.sort();
    b.sort();
    if a != b {
        return Some(("trees".into(), format!("{a:?} instead of {b:?}")));
    }
    for e in exp {
        let t = seen.iter().find(|t| t.name == e.name).unwrap();
        if t.entries != e.entries {
            return Some(("tree-entries".into(), format!("{:?}: {} instead of {}", t.name, t.entries, e.entries)));
        }
        let (a, b): (Vec<_>, Vec<_>) = (t.cols.iter().map(|c| &c.name).collect(), e.cols.iter().map(|c| &c.name).collect());
        if a != b {
            return Some(("columns".into(), clip(&format!("{a:?} instead of {b:?}"), 500)));
        }
        for (c, x) in t.cols.iter().zip(&e.cols) {
            let at = |w: String| format!("tree {:?} column {:?} ({}): {w}", t.name, x.name, x.ct.cpp());
            if c.class != x.class {
                return Some(("class".into(), at(format!("{} instead of {}", c.class, x.class))));
            }
            if c.cpp != x.ct.cpp() {
                return Some(("type".into(), at(format!("reported as {:?}", c.cpp))));
            }
            if c.rust != x.ct.rust() {
                return Some(("rust-type".into(), at(format!("interpreted as {:?} instead of {:?}", c.rust, x.ct.rust()))));
            }
            if c.entries != x.vals.len() as i64 {
                return Some(("entries".into(), at(format!("{} entries instead of {}", c.entries, x.vals.len()))));
            }
            match &c.data {
                Data::Values(v) => {
                    if let Some(w) = obs::values_diff(v, &x.vals) {
                        return Some((format!("values:{}", shape(&x.ct)), at(w)));
                    }
                }
                d => return Some((format!("{}:{}", d.kind(), shape(&x.ct)), at(clip(&format!("{d:?}"), 400)))),
            }
        }
    }
    None
}

pub fn shape(t: &Ct) -> String {
    match t {
        Ct::Pr(_) => "scalar".into(),
        Ct::S(s) => format!("{s:?}"),
        Ct::Arr(..) => "array".into(),
        Ct::Sl(_) => "slice".into(),
        Ct::Vc(t) => format!("vector-{}", shape(t)),
        Ct::Set(t) => format!("set-{}", shape(t)),
        Ct::Map(k, v) => format!("map-{}-{}", shape(k), shape(v)),
    }
}

pub fn limit(exp: &[ExpT]) -> usize {
    exp.iter().map(|e| e.entries).max().unwrap_or(0) as usize * 2 + 100
}

/// Build, write, observe, compare; `what` begins the signature.
pub fn run(cx: &Ctx, o: &mut Out, fs: &FileS, exp: &[ExpT], l: &Layout, what: &str) -> bool {
    let p = cx.path(".root");
    let st = if l.far > 0 {
        match write_sparse(&p, fs, l) {
            Ok(s) => s,
            Err(e) => {
                let _ = std::fs::remove_file(&p);
                o.error(format!("sparse file: {e}"));
                return false;
            }
        }
    } else {
        let (b, st) = build(fs, l);
        if let Err(e) = std::fs::write(&p, &b) {
            o.error(format!("{p:?}: {e}"));
            return false;
        }
        st
    };
    let seen = obs::observe(&p, limit(exp));
    let _ = std::fs::remove_file(&p);
    o.eval();
    count(o, &st, exp);
    match compare(&seen, exp) {
        None => true,
        Some((s, d)) => {
            o.viol(format!("{what}:{s}"), format!("{d}; layout {l:?}"));
            false
        }
    }
}

fn count(o: &mut Out, st: &Stats, exp: &[ExpT]) {
    o.count("records read", st.records);
    o.count("baskets read", st.baskets);
    o.count("embedded baskets", st.embedded);
    o.count("table slots without basket", st.empty_baskets);
    o.count("gaps", st.gaps);
    o.count("compressed blocks", st.blocks);
    o.count("64 bits keys", st.wide_keys);
    o.count("holes of gigabytes", st.far);
    for (a, n) in &st.compressed {
        o.count(&format!("records compressed with {a}"), *n);
    }
    o.count("values compared", exp.iter().flat_map(|e| &e.cols).map(|c| c.vals.len() as u64).sum());
}

// ---------------------------------------------------------------- existing files

pub const REAL: [&str; 18] = [
    "oxyroot/examples/from_uproot/data/HZZ.root",
    "oxyroot/examples/from_uproot/data/simple.root",
    "oxyroot/examples/from_uproot/data/small-evnt-tree-fullsplit.root",
    "oxyroot/examples/from_uproot/data/tree_with_jagged_array.root",
    "oxyroot/tests/stl_containers/stl_containers.root",
    "oxyroot/tests/7_userinfo/tree_with_user_info_with_map.root",
    "oxyroot/tests_data/doc/struct_sd.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-lz4.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-lzma.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-uncompressed.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-zlib.root",
    "oxyroot/tests_data/g4/g4-ntuples.root",
    "oxyroot/tests_data/from_groot/g4-like.root",
    "test_suite/create_root_files_with_root/t04_01_write_tree_points.root",
    "test_suite/create_root_files_with_root/t04_02_write_tree_points_prefix.root",
    "test_suite/create_root_files_with_root/t04_03_write_tree_pointsvector.root",
    "test_suite/create_root_files_with_root/t04_04_write_twopoints.root",
    "test_suite/create_root_files_with_root/t04_05_write_severalpoints.root",
];

pub struct Real {
    pub name: String,
    pub path: PathBuf,
    pub content: FileS,
    pub seen: Vec<obs::TreeO>,
}

/// Files of the repository the independent parser can take apart.
pub fn real_files(cx: &Ctx, o: &mut Out) -> Vec<Real> {
    let mut v = vec![];
    for n in REAL {
        let path = cx.repo.join(n);
        let Ok(d) = std::fs::read(&path) else { continue };
        let Ok(content) = rf::File::parse(d).and_then(|f| lift(&f)) else { continue };
        match obs::observe(&path, 1 << 20) {
            Ok(seen) => v.push(Real { name: n.rsplit('/').next().unwrap().into(), path, content, seen }),
            Err(e) => o.viol("real:unreadable", format!("{n}: {e}")),
        }
    }
    o.count("files of the repository taken apart", v.len() as u64);
    v
}

/// Values of a column of an existing file, by the independent decoder.
pub fn decode_col(c: &ColS, ct: &Ct) -> Result<Vec<V>, String> {
    c.entries
        .iter()
        .enumerate()
        .map(|(i, e)| val::decode(ct, e, c.elem.is_some()).map_err(|x| format!("entry {i}: {x}")))
        .collect()
}

fn preorder<'a>(cs: &'a [ColS], out: &mut Vec<&'a ColS>) {
    for c in cs {
        out.push(c);
        preorder(&c.kids, out);
    }
}

/// Type of a column, from its leaf and class names alone.
pub fn type_of(c: &ColS) -> Option<Ct> {
    if !c.kids.is_empty() || c.leaves.len() != 1 {
        return None;
    }
    let l = &c.leaves[0];
    let dims: Vec<&str> = l.title.split('[').skip(1).map(|d| d.trim_end_matches(']')).collect();
    let shape = |p: P| {
        let n: Option<usize> = dims.iter().try_fold(1usize, |a, d| d.parse::<usize>().ok().map(|n| a * n));
        match (dims.is_empty(), n) {
            (true, _) => Ct::Pr(p),
            (_, Some(n)) => Ct::Arr(p, n),
            _ => Ct::Sl(p),
        }
    };
    let u = |a, b| if l.unsigned { a } else { b };
    match l.class.as_str() {
        "TLeafB" => Some(shape(u(P::U8, P::I8))),
        "TLeafS" => Some(shape(u(P::U16, P::I16))),
        "TLeafI" => Some(shape(u(P::U32, P::I32))),
        "TLeafL" => Some(shape(u(P::U64, P::I64))),
        "TLeafF" => Some(shape(P::F32)),
        "TLeafD" => Some(shape(P::F64)),
        "TLeafO" => Some(shape(P::Bool)),
        "TLeafC" => Some(Ct::S(Sk::Chars)),
        "TLeafElement" => {
            let base = if l.ltype > 0 && l.ltype < 60 { l.ltype % 20 } else { return None };
            let p = match base {
                1 => P::I8,
                2 => P::I16,
                3 => P::I32,
                4 | 16 => P::I64,
                5 => P::F32,
                8 => P::F64,
                11 => P::U8,
                12 => P::U16,
                13 => P::U32,
                14 | 17 => P::U64,
                18 => P::Bool,
                _ => return None,
            };
            Some(shape(p))
        }
        _ => None,
    }
}

/// What the library reports about the existing files is what they contain.
fn real_values(o: &mut Out, f: &Real) {
    o.case(&f.name);
    for (t, s) in f.content.trees.iter().zip(&f.seen) {
        let mut cs = vec![];
        preorder(&t.cols, &mut cs);
        o.eval();
        if cs.len() != s.cols.len() {
            o.viol("real:columns", format!("{}: {} columns instead of {}", f.name, s.cols.len(), cs.len()));
            continue;
        }
        for (c, x) in cs.iter().zip(&s.cols) {
            let at = |w: String| format!("{} {:?} ({}): {w}", f.name, c.name, x.cpp);
            if c.name != x.name {
                o.viol("real:columns", at(format!("instead of {:?}", c.name)));
                continue;
            }
            if let Some(t) = type_of(c) {
                o.check(t.cpp() == x.cpp, "real:type", || at(format!("a {}", t.cpp())));
            }
            let (Some(ct), Data::Values(v)) = (val::parse(&x.cpp), &x.data) else { continue };
            if !c.kids.is_empty() {
                continue;
            }
            o.eval();
            o.seen((&f.name, &c.name));
            match decode_col(c, &ct) {
                Err(e) => o.viol("real:not-of-the-type", at(e)),
                Ok(w) => {
                    o.count("values compared", w.len() as u64);
                    if let Some(d) = obs::values_diff(v, &w) {
                        o.viol("real:values", at(d));
                    }
                }
            }
        }
    }
}

/// An existing file in another layout reads as the original.
fn relay(cx: &Ctx, o: &mut Out, f: &Real, l: &Layout) {
    let (b, st) = build(&f.content, l);
    let p = cx.path(".root");
    if let Err(e) = std::fs::write(&p, &b) {
        return o.error(format!("{p:?}: {e}"));
    }
    let r = obs::observe(&p, 1 << 20);
    let _ = std::fs::remove_file(&p);
    o.eval();
    count(o, &st, &[]);
    match r {
        Err(e) => o.viol("relaid:unreadable", format!("{}: {e}; layout {l:?}", f.name)),
        Ok(mut s) => {
            // the order of the keys is part of the layout
            s.sort_by_key(|t| f.seen.iter().position(|u| u.name == t.name));
            o.count("values compared", s.iter().flat_map(|t| &t.cols).map(|c| c.data.values().map_or(0, |v| v.len()) as u64).sum());
            if let Some((s, d)) = obs::diff(&f.seen, &s) {
                o.viol(format!("relaid:{s}"), format!("{}: {d}; layout {l:?}", f.name));
            }
        }
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(cx: &Ctx) {
    cx.set_rule("one case = the same content stored with given algorithms, levels and block sizes; monitored: every tree, column, type and value read equals the content; non-trivial = at least one record actually stored compressed");
    let r0 = cx.rng("c08");
    let sets: Vec<Vec<Algo>> = vec![
        vec![Algo::None],
        vec![Algo::Zlib],
        vec![Algo::Lzma],
        vec![Algo::Lz4],
        vec![Algo::Zlib, Algo::Lzma, Algo::Lz4, Algo::None],
    ];
    // every algorithm x level x block size on the same content
    cx.par("levels", cx.n(500, 30000), |i, o| {
        let mut r = r0.fork(i);
        let (fs, exp) = random_content(&mut r);
        let mut l = Layout::plain();
        l.seed = r.next();
        l.algos = sets[i as usize % sets.len()].clone();
        l.level = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9][r.below(10) as usize];
        if l.algos.contains(&Algo::Lzma) && (cx.quick() || l.level > 6) {
            l.level = l.level.min(r.range(1, 3));
        }
        l.block = *r.pick(&[0, 0, 8, 30, 100, 1000, 4000]);
        l.chunk = *r.pick(&[Chunk::All, Chunk::Uni(1, 10), Chunk::Uni(20, 60)]);
        o.case(format!("{l:?}"));
        if run(cx, o, &fs, &exp, &l, "compressed") {
            o.seen((i % sets.len() as u64, l.level, l.block, i / 5));
        }
        o.sample(format!("{:?} level {} blocks of {}", l.algos, l.level, l.block));
    });
    // payloads around the limits of a block and of the counters
    let sizes: &[usize] = if cx.quick() { &[0xff_fffe, 0xff_ffff, 0x100_0000, 0x200_0010] } else { &[0xff_fff0, 0xff_fffe, 0xff_ffff, 0x100_0000, 0x100_0001, 0x1ff_fffe, 0x1ff_ffff, 0x200_0000, 0x300_0000, 0x600_0000] };
    let algos = [Algo::Zlib, Algo::Lz4, Algo::Lzma];
    cx.par_n("large", sizes.len() * 3, 4, |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let (size, a) = (sizes[i as usize / 3], algos[i as usize % 3]);
        o.case(format!("a vector<uint8_t> entry of {size} bytes with {a:?}"));
        // compressible but not trivially so
        let mut x = r.next() | 1;
        let v: Vec<V> = (0..size - 10)
            .map(|k| {
                if k % 61 == 0 {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                }
                V::N((x >> 33) & 0xff)
            })
            .collect();
        let d = Def::new("big", Ct::Vc(Box::new(Ct::Pr(P::U8))), vec![V::L(v), V::L(vec![V::N(7)])]);
        let (t, e) = make_tree("tree", &[d], &mut r);
        let mut l = Layout::plain();
        l.algos = vec![a];
        l.level = 1;
        if run(cx, o, &file_of(vec![t]), &[e], &l, "large") {
            o.seen((size, i % 3));
        }
    });
    // thousands of blocks; incompressible data; blocks of one byte
    cx.par("blocks", cx.n(40, 1000), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let ct = Ct::Pr(*r.pick(&PRIMS));
        let n = *r.pick(&[1000usize, 3000]);
        let noise = r.chance(1, 3);
        let vals = (0..n).map(|k| if noise { val::random(&ct, &mut r, 1) } else { V::N((k / 700) as u64 & 1) }).collect();
        let (t, e) = make_tree("tree", &[Def::new("x", ct, vals)], &mut r);
        let mut l = Layout::plain();
        l.algos = sets[1 + i as usize % 4].clone();
        l.block = *r.pick(&[40, 300, 5000, 0]);
        l.seed = r.next();
        o.case(format!("{l:?}"));
        if run(cx, o, &file_of(vec![t]), &[e], &l, "blocks") {
            o.seen((i, l.block));
        }
    });
    // existing files, compressed anew
    let reals = std::sync::Mutex::new(vec![]);
    cx.seq("real", 1, |_, o| {
        let v = real_files(cx, o);
        v.iter().for_each(|f| real_values(o, f));
        // the four samples have the same content
        let s: Vec<&Real> = v.iter().filter(|f| f.name.starts_with("sample-")).collect();
        for w in s.windows(2) {
            o.eval();
            if let Some((s, d)) = obs::diff(&w[0].seen, &w[1].seen) {
                o.viol(format!("samples:{s}"), format!("{} and {}: {d}", w[0].name, w[1].name));
            }
        }
        *reals.lock().unwrap() = v;
    });
    let reals = if cx.only.is_some() { real_files(cx, &mut Out::default()) } else { reals.into_inner().unwrap() };
    cx.par("real-anew", reals.len() * cx.n(4, 60), |i, o| {
        let mut r = r0.fork(3_000_000 + i);
        let f = &reals[i as usize % reals.len()];
        let k = i as usize / reals.len();
        let mut l = Layout::plain();
        l.algos = sets[(k + 1) % sets.len()].clone();
        l.block = *r.pick(&[0, 0, 500, 5000]);
        l.level = r.range(0, 2);
        l.chunk = Chunk::Uni(50, 1000);
        l.seed = r.next();
        o.case(format!("{} {l:?}", f.name));
        relay(cx, o, f, &l);
        o.seen((&f.name, k));
    });
}

// ---------------------------------------------------------------- C09

/// Layouts which differ from the plain one in one respect.
fn single_changes() -> Vec<(&'static str, Layout)> {
    let p = Layout::plain;
    let mut v: Vec<(&'static str, Layout)> = vec![
        ("plain", p()),
        ("one entry per basket", Layout { chunk: Chunk::Each, ..p() }),
        ("small baskets", Layout { chunk: Chunk::Uni(1, 5), ..p() }),
        ("empty slots", Layout { chunk: Chunk::Holes(1, 6), ..p() }),
        ("shuffled", Layout { shuffle: true, chunk: Chunk::Uni(2, 9), ..p() }),
        ("gaps", Layout { gaps: true, chunk: Chunk::Uni(2, 9), ..p() }),
        ("64 bits header", Layout { wide_header: true, ..p() }),
        ("64 bits directory", Layout { wide_dir: true, ..p() }),
        ("64 bits keys", Layout { wide_keys: 1, chunk: Chunk::Uni(2, 9), ..p() }),
        ("mixed keys", Layout { wide_keys: 2, chunk: Chunk::Uni(2, 9), ..p() }),
        ("no spare room", Layout { spare: 0, chunk: Chunk::Uni(2, 9), ..p() }),
        ("much spare room", Layout { spare: 1000, ..p() }),
        ("spare room with remains", Layout { spare: 12, dirty_spare: true, chunk: Chunk::Uni(2, 9), ..p() }),
        ("objects referred to", Layout { refs: 1, ..p() }),
        ("some objects referred to", Layout { refs: 3, chunk: Chunk::Uni(2, 9), ..p() }),
        ("embedded only", Layout { embed: 1, ..p() }),
        ("last basket embedded", Layout { embed: 1, chunk: Chunk::Uni(2, 9), ..p() }),
        ("embedded with null slots", Layout { embed: 1, null_slots: true, chunk: Chunk::Uni(2, 9), ..p() }),
        ("begin elsewhere", Layout { begin: 300, ..p() }),
        ("keys in reverse", Layout { keys_shuffled: true, ..p() }),
        ("old tables of 32 bits", Layout { branch_ver: 8, tree_ver: 5, chunk: Chunk::Uni(2, 9), ..p() }),
        ("old tables of 64 bits", Layout { branch_ver: 9, old_wide: true, chunk: Chunk::Uni(2, 9), ..p() }),
    ];
    for t in 16..=20 {
        v.push(("tree version", Layout { tree_ver: t, ..p() }));
    }
    for b in 6..=13 {
        v.push(("branch version", Layout { branch_ver: b, chunk: Chunk::Uni(2, 9), ..p() }));
    }
    v
}

pub fn c09(cx: &Ctx) {
    cx.set_rule("one case = the same logical content (values of the harness, files of the repository taken apart, files written by the library) put into another physical layout; monitored: every tree, column, type and value read equals the content; non-trivial = a layout other than the plain one");
    let r0 = cx.rng("c09");
    let singles = single_changes();
    cx.par("single", singles.len() * cx.n(12, 300), |i, o| {
        let mut r = r0.fork(i);
        let (fs, exp) = random_content(&mut r);
        let (w, mut l) = singles[i as usize % singles.len()].clone();
        l.seed = r.next();
        o.case(format!("{w}: {l:?}"));
        if run(cx, o, &fs, &exp, &l, w) {
            o.seen((w, l.tree_ver, l.branch_ver, i));
        }
        o.sample(w);
    });
    cx.par("random", cx.n(1500, 100_000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let (fs, exp) = random_content(&mut r);
        let l = Layout::random(&mut r);
        o.case(format!("{l:?}"));
        if run(cx, o, &fs, &exp, &l, "random") {
            o.seen(format!("{l:?}"));
        }
    });
    // the same content in several layouts, the columns in any order of reading
    let reals = std::sync::Mutex::new(vec![]);
    cx.seq("real", 1, |_, o| {
        let v = real_files(cx, o);
        v.iter().for_each(|f| real_values(o, f));
        *reals.lock().unwrap() = v;
    });
    let reals = if cx.only.is_some() { real_files(cx, &mut Out::default()) } else { reals.into_inner().unwrap() };
    cx.par("relaid", reals.len() * cx.n(14, 400), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let f = &reals[i as usize % reals.len()];
        let mut l = Layout::random(&mut r);
        if cx.quick() && r.chance(3, 4) {
            l.algos.retain(|a| *a != Algo::Lzma);
            l.algos.push(Algo::None);
            if l.chunk == Chunk::Each {
                l.chunk = Chunk::Uni(1, 30);
            }
        }
        o.case(format!("{} {l:?}", f.name));
        relay(cx, o, f, &l);
        o.seen((&f.name, format!("{l:?}")));
    });
    // files written by the library itself
    cx.par("own", cx.n(250, 20_000), |i, o| {
        let mut r = r0.fork(3_000_000 + i);
        let specs = crate::p_round::random_tree(&mut r, 6, 400, true);
        let p = cx.path(".root");
        o.case(clip(&format!("{specs:?}"), 800));
        if let Err(e) = crate::gen::write_specs(&p, &[("tree".into(), specs)]) {
            return o.viol("own:write-failed", e);
        }
        let seen = obs::observe(&p, 10_000);
        let data = std::fs::read(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        let content = match rf::File::parse(data).and_then(|f| lift(&f)) {
            Ok(c) => c,
            Err(e) => return o.viol("own:not-understood", e),
        };
        match seen {
            Err(e) => o.viol("own:unreadable", e),
            Ok(seen) => {
                let f = Real { name: "own".into(), path: p, content, seen };
                real_values(o, &f);
                for _ in 0..3 {
                    let l = Layout::random(&mut r);
                    relay(cx, o, &f, &l);
                    o.seen(format!("{l:?}"));
                }
            }
        }
    });
    // positions beyond 2, 4 GB and 2 TB
    cx.par("far", cx.n(60, 1500), |i, o| {
        let mut r = r0.fork(4_000_000 + i);
        let (fs, exp) = random_content(&mut r);
        let mut l = Layout::random(&mut r);
        l.gaps = false;
        l.far = *r.pick(&[3, 10, 30]);
        // the old tables have a fixed width, to know the size of the tree before the positions
        l.old_wide = true;
        if l.chunk == Chunk::Each {
            l.chunk = Chunk::Uni(1, 10);
        }
        o.case(format!("{l:?}"));
        if run(cx, o, &fs, &exp, &l, "far") {
            o.seen(format!("{l:?}"));
        }
    });
}

// ---------------------------------------------------------------- C21

/// Every type a reader of the harness exists for.
pub fn catalogue() -> Vec<Ct> {
    let mut v = vec![];
    let strs = [Ct::S(Sk::Std), Ct::S(Sk::TString)];
    let prims: Vec<Ct> = PRIMS.iter().map(|p| Ct::Pr(*p)).collect();
    v.extend(prims.clone());
    v.push(Ct::S(Sk::Chars));
    v.extend(strs.clone());
    for p in PRIMS {
        v.push(Ct::Sl(p));
        for n in ARR_N {
            v.push(Ct::Arr(p, n));
        }
    }
    let base: Vec<Ct> = prims.iter().chain(&strs).cloned().collect();
    for b in &base {
        v.push(vec_of(b.clone()));
        v.push(vec_of(vec_of(b.clone())));
        v.push(vec_of(vec_of(vec_of(b.clone()))));
        v.push(set_of(b.clone()));
        v.push(vec_of(set_of(b.clone())));
        v.push(vec_of(vec_of(set_of(b.clone()))));
    }
    let mut inner = base.clone();
    for b in &base {
        inner.push(vec_of(b.clone()));
        inner.push(set_of(b.clone()));
        inner.push(vec_of(vec_of(b.clone())));
        inner.push(vec_of(set_of(b.clone())));
    }
    for k in &base {
        for x in &inner {
            v.push(map_of(k.clone(), x.clone()));
        }
    }
    v.retain(|t| val::reader(t).is_some());
    v
}

pub fn c21(cx: &Ctx) {
    cx.set_rule("one case = a column of one of the catalogue of types (scalars, arrays, counted arrays, vectors, sets, maps, strings, nested) with a distribution of sizes over entries and a fragmentation into baskets; monitored: type names, number of entries and every value; non-trivial = at least one entry");
    let r0 = cx.rng("c21");
    let cat = catalogue();
    let reps = cx.n(40, 400);
    cx.par("catalogue", cat.len() * reps, |i, o| {
        let mut r = r0.fork(i);
        let ct = cat[i as usize % cat.len()].clone();
        let n = *r.pick(&[1usize, 2, 3, 10, 40, 150]);
        let vals = values(&ct, n, &mut r);
        let mut d = Def::new("x", ct.clone(), vals);
        d.member = r.chance(1, 2);
        let mut l = Layout::plain();
        l.seed = r.next();
        l.chunk = *r.pick(&[Chunk::All, Chunk::Each, Chunk::Uni(1, 7), Chunk::Uni(5, 50), Chunk::Holes(1, 8)]);
        l.embed = *r.pick(&[0, 0, 1]);
        l.null_slots = r.chance(1, 2);
        if r.chance(1, 4) {
            l.algos = vec![*r.pick(&[Algo::Zlib, Algo::Lz4])];
        }
        o.case(format!("{} member {} {n} entries {:?} embed {}", ct.cpp(), d.member, l.chunk, l.embed));
        let (t, e) = make_tree("tree", &[d], &mut r);
        if run(cx, o, &file_of(vec![t]), &[e], &l, "decode") {
            o.seen((ct.cpp(), n, l.embed, i / cat.len() as u64));
        }
        o.sample(format!("{} in {:?}", ct.cpp(), l.chunk));
    });
    // entries which are themselves large: counts and sizes around powers of 256
    let var: Vec<Ct> = cat.iter().filter(|c| c.fixed_size().is_none()).cloned().collect();
    let counts = [255usize, 256, 257, 8191, 8192, 8193, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 131_072];
    cx.par("long", var.len() * cx.n(2, counts.len()), |i, o| {
        let mut r = r0.fork(5_000_000 + i);
        let ct = var[i as usize % var.len()].clone();
        let k = if cx.quick() { *r.pick(&counts) } else { counts[i as usize / var.len()] };
        let n = r.range(1, 4);
        let at = r.below(n as u64) as usize;
        let vals: Vec<V> = (0..n).map(|j| if j == at { val::long(&ct, k, &mut r) } else { val::random(&ct, &mut r, 3) }).collect();
        let mut d = Def::new("x", ct.clone(), vals);
        d.member = r.chance(1, 2);
        let mut l = Layout::plain();
        l.seed = r.next();
        l.chunk = *r.pick(&[Chunk::All, Chunk::Each]);
        if r.chance(1, 3) {
            l.algos = vec![*r.pick(&[Algo::Zlib, Algo::Lz4])];
        }
        o.case(format!("{} member {} entry {at} of {n} with {k} elements", ct.cpp(), d.member));
        let (t, e) = make_tree("tree", &[d], &mut r);
        if run(cx, o, &file_of(vec![t]), &[e], &l, "decode") {
            o.seen((ct.cpp(), k));
        }
    });
    // several columns with the same counter, jagged columns in company
    cx.par("company", cx.n(1500, 40_000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let n = *r.pick(&[1usize, 5, 50, 200]);
        let k = r.range(2, 8);
        let defs: Vec<Def> = (0..k)
            .map(|j| {
                let ct = if r.chance(1, 2) { Ct::Sl(*r.pick(&PRIMS)) } else { val::any(&mut r) };
                let mut d = Def::new(&format!("c{j}"), ct.clone(), values(&ct, n, &mut r));
                d.member = r.chance(1, 2);
                d
            })
            .collect();
        let l = Layout::random(&mut r);
        o.case(format!("{:?} {l:?}", defs.iter().map(|d| d.ct.cpp()).collect::<Vec<_>>()));
        let (t, e) = make_tree("tree", &defs, &mut r);
        if run(cx, o, &file_of(vec![t]), &[e], &l, "company") {
            o.seen(i);
        }
    });
    // arrays with several dimensions
    cx.par("dimensions", cx.n(800, 20_000), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let p = *r.pick(&PRIMS);
        let dims: Vec<usize> = (0..r.range(1, 3)).map(|_| r.range(1, 3)).collect();
        let total: usize = dims.iter().product();
        let jagged = r.chance(1, 3);
        let n = *r.pick(&[1usize, 4, 60]);
        let text: String = dims.iter().map(|d| format!("[{d}]")).collect();
        let (ct, vals, title) = if jagged {
            // the count is that of the first dimension
            let vals: Vec<V> = (0..n)
                .map(|_| {
                    let k = r.below(4) as usize * total;
                    V::L((0..k).map(|_| val::random(&Ct::Pr(p), &mut r, 1)).collect())
                })
                .collect();
            (Ct::Sl(p), vals, format!("x[n_x]{text}"))
        } else {
            let ct = Ct::Arr(p, total);
            let vals = (0..n).map(|_| val::random(&ct, &mut r, 1)).collect();
            (ct, vals, format!("x{text}"))
        };
        if val::reader(&ct).is_none() {
            return;
        }
        let mut d = Def::new("x", ct, vals);
        d.member = r.chance(1, 2);
        o.case(format!("{title} of {p:?}, member {}", d.member));
        let (mut t, e) = make_tree("tree", &[d], &mut r);
        let c = t.cols.last_mut().unwrap();
        c.leaves[0].title = title;
        let l = Layout::random(&mut r);
        if run(cx, o, &file_of(vec![t]), &[e], &l, "dimensions") {
            o.seen((p, dims, jagged, n));
        }
    });
    cx.seq("real", 1, |_, o| {
        for f in real_files(cx, o) {
            real_values(o, &f);
        }
    });
}

// ---------------------------------------------------------------- C18

fn open_with(cx: &Ctx, fs: &FileS) -> Result<(RootFile, PathBuf), String> {
    let p = cx.path(".root");
    std::fs::write(&p, build(fs, &Layout::plain()).0).map_err(|e| format!("harness: {e}"))?;
    let f = RootFile::open(&p).map_err(|e| e.to_string());
    Ok((f?, p))
}

/// A type of any depth: its spelling, normalised C++ name and Rust name.
fn deep(r: &mut Rng, depth: usize) -> (String, String, String) {
    if depth == 0 || r.chance(1, 5) {
        return match r.below(8) {
            0 => ("TString".into(), "TString".into(), "TString".into()),
            1 => {
                let p = if r.chance(1, 2) { "std::" } else { "" };
                (format!("{p}string"), "string".into(), "String".into())
            }
            2 => {
                let n = user_class(r);
                (n.clone(), n.clone(), n)
            }
            _ => {
                let p = *r.pick(&PRIMS);
                let mut s = p_spell(p, r);
                let (mut c, mut u) = (p.cpp().to_string(), p.rust().to_string());
                if r.chance(1, 6) {
                    let k = r.range(1, 99);
                    s.push_str(&format!("[{k}]"));
                    c.push_str(&format!("[{k}]"));
                    u = format!("[{u};{k}]");
                }
                (s, c, u)
            }
        };
    }
    let pre = if r.chance(1, 2) { "std::" } else { "" };
    let sp = |r: &mut Rng| " ".repeat(if r.chance(1, 3) { r.range(1, 2) } else { 0 });
    let (kind, args) = *r.pick(&[("vector", 1), ("vector", 1), ("set", 1), ("map", 2)]);
    let parts: Vec<_> = (0..args).map(|_| deep(r, depth - 1)).collect();
    let spelled: Vec<String> = parts.iter().map(|p| format!("{}{}{}", sp(r), p.0, sp(r))).collect();
    let rust = match kind {
        "vector" => "Vec",
        "set" => "HashSet",
        _ => "HashMap",
    };
    let j = |i: usize| parts.iter().map(|p| if i == 1 { p.1.clone() } else { p.2.clone() }).collect::<Vec<_>>().join(",");
    (format!("{pre}{kind}<{}>", spelled.join(",")), format!("{kind}<{}>", j(1)), format!("{rust}<{}>", j(2)))
}

/// Names of classes which contain the names of types.
fn user_class(r: &mut Rng) -> String {
    let pre = ["Point", "Dataset", "Bitmap", "Vectors", "TVector3", "IntList", "Printer", "ushorts", "Longitude", "Character", "BoolMap", "floats", "Doubles", "Setup", "Mapper", "MyString", "intern", "reset", "constexpr_", "long_track", "vector_", "int_", "Hit", "nuint8_tx"];
    let mut s = r.pick(&pre).to_string();
    if r.chance(1, 4) {
        s = format!("{s}{}", r.below(100));
    }
    s
}

pub fn c18(cx: &Ctx) {
    cx.set_rule("one case = a C++ type recorded in a file (leaf class and title, element code or class name), spelled in one of the ways found in files; monitored: the C++ and Rust names reported; non-trivial = every case");
    let r0 = cx.rng("c18");
    // class names, nested to any depth
    cx.par("nested", cx.n(4000, 80_000), |i, o| {
        let mut r = r0.fork(i);
        // many columns in one file
        let mut want = vec![];
        let mut t = TreeS { name: "t".into(), cycle: 1, ..Default::default() };
        for k in 0..20 {
            let depth = r.range(1, 6);
            let (s, c, u) = loop {
                let x = deep(&mut r, depth);
                if x.1.contains('<') {
                    break x;
                }
            };
            let mut col = col_of(&format!("c{k}"), &vec_of(Ct::Pr(P::I32)), &[], false, Some(s.clone()), &mut r);
            if r.chance(1, 3) {
                // a member of a class without description
                let e = col.elem.as_mut().unwrap();
                e.stype = 300;
                col.leaves[0].ltype = 300;
            }
            t.cols.push(col);
            want.push((s, c, u));
        }
        o.case(clip(&format!("{:?}", want.iter().map(|w| &w.0).collect::<Vec<_>>()), 1500));
        names(cx, o, &file_of(vec![t]), &want);
        o.sample(want[0].0.clone());
    });
    // scalars, arrays and counted arrays as leaves of every kind
    cx.par("leaves", cx.n(300, 4000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let mut want = vec![];
        let mut t = TreeS { name: "t".into(), cycle: 1, ..Default::default() };
        for (k, p) in PRIMS.iter().enumerate() {
            for member in [false, true] {
                for form in 0..4 {
                    let n = r.range(1, 99);
                    let ct = match form {
                        0 => Ct::Pr(*p),
                        1 | 3 => Ct::Arr(*p, n),
                        _ => Ct::Sl(*p),
                    };
                    let name = format!("c{k}_{member}_{form}");
                    if form == 2 {
                        t.cols.push(count_col(&name, &[], &mut r));
                        want.push(("count".to_string(), "int32_t".to_string(), "i32".to_string()));
                    }
                    let mut c = col_of(&name, &ct, &[], member, None, &mut r);
                    let (mut cpp, mut rust) = (ct.cpp(), ct.rust());
                    if form == 3 {
                        let m = r.range(1, 20);
                        c.leaves[0].title = format!("{name}[{n}][{m}]");
                        cpp = format!("{}[{}]", p.cpp(), n * m);
                        rust = format!("[{};{}]", p.rust(), n * m);
                    }
                    want.push((c.leaves[0].title.clone(), cpp, rust));
                    t.cols.push(c);
                }
            }
        }
        for (s, cpp, rust) in [(Sk::Std, "string", "String"), (Sk::TString, "TString", "TString"), (Sk::Chars, "char*", "String")] {
            t.cols.push(col_of(&format!("{s:?}"), &Ct::S(s), &[], false, None, &mut r));
            want.push((format!("{s:?}"), cpp.into(), rust.into()));
        }
        o.case("all leaves");
        names(cx, o, &file_of(vec![t]), &want);
    });
    // what is read follows the reported type whatever the spelling
    cx.par("read", cx.n(3000, 60_000), |i, o| {
        let mut r = r0.fork(2_000_000 + i);
        let cat = [vec_of(Ct::Pr(*r.pick(&PRIMS))), set_of(Ct::Pr(P::I64)), vec_of(Ct::S(Sk::Std)), val::any_map(&mut r), vec_of(vec_of(Ct::Pr(*r.pick(&PRIMS))))];
        let defs: Vec<Def> = cat
            .iter()
            .enumerate()
            .map(|(k, ct)| {
                let vals = values(ct, 8, &mut r);
                Def { class_name: Some(ct.spell(&mut r, true)), ..Def::new(&format!("c{k}"), ct.clone(), vals) }
            })
            .collect();
        o.case(format!("{:?}", defs.iter().map(|d| d.class_name.clone().unwrap()).collect::<Vec<_>>()));
        let (t, e) = make_tree("t", &defs, &mut r);
        if run(cx, o, &file_of(vec![t]), &[e], &Layout::plain(), "read") {
            o.seen(i);
        }
    });
    cx.seq("real", 1, |_, o| {
        for f in real_files(cx, o) {
            real_values(o, &f);
            for c in f.seen.iter().flat_map(|t| &t.cols) {
                if let Some(ct) = val::parse(&c.cpp) {
                    o.eval();
                    o.check(c.rust == ct.rust(), "real:rust-type", || format!("{} {:?}: {:?} interpreted as {:?}", f.name, c.name, c.cpp, c.rust));
                }
            }
        }
    });
}

fn names(cx: &Ctx, o: &mut Out, fs: &FileS, want: &[(String, String, String)]) {
    let (mut f, p) = match open_with(cx, fs) {
        Ok(x) => x,
        Err(e) => return o.viol("unreadable", e),
    };
    match f.get_tree("t") {
        Err(e) => o.viol("unreadable", e.to_string()),
        Ok(t) => {
            let n = t.branches().count();
            o.check(n == want.len(), "columns", || format!("{n} columns instead of {}", want.len()));
            for (b, (s, c, u)) in t.branches().zip(want) {
                o.eval();
                match guard(|| (b.item_type_name(), b.interpretation())) {
                    Err(e) => o.viol("panic", format!("{s:?}: {}", e.text())),
                    Ok((gc, gu)) => {
                        o.check(gc == *c, "cpp-name", || format!("{s:?} reported as {gc:?} instead of {c:?}"));
                        o.check(gu == *u, "rust-name", || format!("{s:?} interpreted as {gu:?} instead of {u:?}"));
                        o.seen(s);
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(&p);
}

// ---------------------------------------------------------------- C07

/// The type as far as requests can tell: the kinds of strings are one.
fn unified(t: &Ct) -> String {
    t.cpp().replace("TString", "string").replace("char*", "string")
}

pub fn c07(cx: &Ctx) {
    cx.set_rule("one case = one column and one requested type; monitored: accepted exactly if the requested type is the one stored (any kind of string being a String), and then with the values stored; non-trivial = every pair");
    let r0 = cx.rng("c07");
    let cat = catalogue();
    cx.assume("requests are made for the types of the catalogue (all scalars, arrays of 12 lengths, slices, vectors, sets and maps nested), and for types no column can have");
    // each case: one column type against all requests
    let reps = cx.n(6, 40);
    cx.par("pairs", cat.len() * reps, |i, o| {
        let mut r = r0.fork(i);
        let ct = &cat[i as usize % cat.len()];
        let vals = values(ct, 5, &mut r);
        let mut d = Def::new("x", ct.clone(), vals.clone());
        d.member = r.chance(1, 2);
        o.case(format!("{} member {}", ct.cpp(), d.member));
        let (t, _) = make_tree("t", &[d], &mut r);
        let (mut f, p) = match open_with(cx, &file_of(vec![t])) {
            Ok(x) => x,
            Err(e) => return o.viol("unreadable", e),
        };
        match f.get_tree("t") {
            Err(e) => o.viol("unreadable", e.to_string()),
            Ok(t) => match t.branch("x") {
                None => o.viol("missing-column", ""),
                Some(b) => requests(o, b, ct, &cat, &vals),
            },
        }
        let _ = std::fs::remove_file(&p);
    });
    // columns written by the library
    cx.par("own", cx.n(300, 3000), |i, o| {
        let mut r = r0.fork(1_000_000 + i);
        let specs = crate::p_round::random_tree(&mut r, 8, 30, true);
        let p = cx.path(".root");
        o.case(clip(&format!("{specs:?}"), 800));
        if let Err(e) = crate::gen::write_specs(&p, &[("t".into(), specs.clone())]) {
            return o.viol("own:write-failed", e);
        }
        match crate::io::open_tree(&p, "t") {
            Err(e) => o.viol("unreadable", e),
            Ok((_f, t)) => {
                for s in &specs {
                    let (Some(b), Some(ct)) = (t.branch(&s.name), val::parse(&s.ty.cpp())) else {
                        o.viol("missing-column", &s.name);
                        continue;
                    };
                    let Some(rd) = val::reader(&ct) else { continue };
                    let vals: Vec<V> = match guard(|| (rd.unchecked)(b).collect()) {
                        Ok(v) => v,
                        Err(e) => return o.viol("panic", e.text()),
                    };
                    requests(o, b, &ct, &cat, &vals);
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    // files of the repository
    cx.par("real", REAL.len(), |i, o| {
        let path = cx.repo.join(REAL[i as usize]);
        o.case(REAL[i as usize]);
        let Ok(mut f) = RootFile::open(&path) else { return };
        let names: Vec<String> = f.keys_name().map(String::from).collect();
        for n in names {
            let Ok(t) = f.get_tree(&n) else { continue };
            for b in t.branches_r() {
                let Ok(cpp) = guard(|| b.item_type_name()) else { continue };
                let ct = val::parse(&cpp);
                for q in &cat {
                    let rd = val::reader(q).unwrap();
                    let ok = (rd.iter)(b).is_ok();
                    let want = ct.as_ref().is_some_and(|c| unified(c) == unified(q));
                    o.eval();
                    o.check(ok == want, if want { "refused" } else { "accepted" }, || format!("{:?} ({cpp}) as {}", b.name(), (rd.rust)()));
                    o.seen((&cpp, q.cpp()));
                }
            }
        }
    });
}

fn requests(o: &mut Out, b: &oxyroot::Branch, ct: &Ct, cat: &[Ct], vals: &[V]) {
    use oxyroot::{SizedSlice, Slice};
    use std::collections::{HashMap, HashSet};
    for q in cat {
        let rd = val::reader(q).unwrap();
        o.eval();
        o.seen((ct.cpp(), q.cpp()));
        let want = unified(ct) == unified(q);
        match (guard(|| (rd.iter)(b).map(|i| if want { i.take(vals.len() + 5).collect::<Vec<V>>() } else { vec![] })), want) {
            (Err(e), _) => o.viol("panic", format!("{} as {}: {}", ct.cpp(), (rd.rust)(), e.text())),
            (Ok(Err(_)), false) => o.count("requests refused", 1),
            (Ok(Err(e)), true) => o.viol(format!("refused:{}", shape(ct)), format!("{} as {}: {e}", ct.cpp(), (rd.rust)())),
            (Ok(Ok(_)), false) => o.viol(format!("accepted:{}-as-{}", shape(ct), shape(q)), format!("{} as {}", ct.cpp(), (rd.rust)())),
            (Ok(Ok(v)), true) => {
                o.count("requests granted", 1);
                if let Some(d) = obs::values_diff(&v, vals) {
                    o.viol(format!("values:{}", shape(ct)), format!("{} as {}: {d}", ct.cpp(), (rd.rust)()));
                }
            }
        }
    }
    // types no column can have
    macro_rules! never {
        ($($t:ty),*) => {$(
            o.eval();
            if b.as_iter::<$t>().is_ok() {
                o.viol(format!("accepted:{}-as-other", shape(ct)), format!("{} as {}", ct.cpp(), stringify!($t)));
            }
        )*};
    }
    never!(
        SizedSlice<i32>,
        SizedSlice<String>,
        Slice<String>,
        Slice<Vec<i32>>,
        [String; 2],
        [Vec<i32>; 3],
        Vec<[i32; 3]>,
        Vec<Slice<i32>>,
        HashSet<Vec<i32>>,
        HashMap<i32, Slice<f32>>,
        HashMap<Vec<u8>, i32>,
        HashMap<i32, HashMap<i32, i32>>,
        Vec<HashMap<i32, i32>>
    );
}

