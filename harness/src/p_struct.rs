//! C05: the file is a well-formed ROOT file, decoded by an independent reader.
//! C06: the bytes written are a function of the path and of the data.
use crate::cols::*;
use crate::core::*;
use crate::gen::*;
use crate::p_round::random_tree;
use crate::rng::Rng;
use crate::rootfmt::*;
use std::collections::{HashMap, HashSet};
use std::path::Path;

type E = Result<(), (&'static str, String)>;

fn leaf_class(p: P) -> (&'static str, i32, bool) {
    match p {
        P::I8 => ("TLeafB", 1, false),
        P::U8 => ("TLeafB", 1, true),
        P::I16 => ("TLeafS", 2, false),
        P::U16 => ("TLeafS", 2, true),
        P::I32 => ("TLeafI", 4, false),
        P::U32 => ("TLeafI", 4, true),
        P::I64 => ("TLeafL", 8, false),
        P::U64 => ("TLeafL", 8, true),
        P::F32 => ("TLeafF", 4, false),
        P::F64 => ("TLeafD", 8, false),
        P::Bool => ("TLeafO", 1, false),
    }
}

/// Structure of the container: header, records, directory, free list, streamers.
pub fn container(f: &File, path: &str, names: &[String]) -> E {
    let h = &f.h;
    let v = |s: &'static str, d: String| -> E { Err((s, d)) };
    if h.end as usize != f.d.len() {
        return v("header-end", format!("header end {} in a file of {} bytes", h.end, f.d.len()));
    }
    let big = h.end > 2_000_000_000;
    if h.begin != 100 || h.units != if big { 8 } else { 4 } || h.wide != big {
        return v("header-fields", format!("{h:?}"));
    }
    if !f.gaps.is_empty() {
        return v("unexpected-gap", format!("{:?}", f.gaps));
    }
    // every record is where its own header says, with a header of the announced length
    for r in &f.recs {
        if r.seek_key != r.pos as i64 {
            return v("record-position", format!("record {:?} at {} says {}", r.name, r.pos, r.seek_key));
        }
        let extra = if r.class == "TBasket" { 19 } else { 0 };
        if r.hdr_len + extra != r.keylen as usize {
            return v("record-header-length", format!("record {:?} {:?} at {}: header of {} bytes, {} announced", r.class, r.name, r.pos, r.hdr_len + extra, r.keylen));
        }
        let (mon, day, hour, min, sec) = ((r.datime >> 22) & 15, (r.datime >> 17) & 31, (r.datime >> 12) & 31, (r.datime >> 6) & 63, r.datime & 63);
        if !(1..=12).contains(&mon) || day == 0 || hour > 23 || min > 59 || sec > 59 {
            return v("record-time", format!("record {:?} at {}: {:#x} is no time", r.name, r.pos, r.datime));
        }
        if r.ver != 4 && r.ver != 1004 {
            return v("record-version", format!("record {:?} at {}: version {}", r.name, r.pos, r.ver));
        }
        if r.objlen + r.keylen != r.nbytes {
            return v("record-length", format!("record {:?} at {}: {} bytes for a content of {} and a header of {}", r.name, r.pos, r.nbytes, r.objlen, r.keylen));
        }
        if r.nbytes < r.keylen || r.objlen < 0 {
            return v("record-length", format!("record {:?} at {}: {} bytes with a header of {}", r.name, r.pos, r.nbytes, r.keylen));
        }
        if r.pos != h.begin as usize && r.seek_pdir != h.begin {
            return v("record-parent", format!("record {:?} {:?} at {}: directory at {}", r.class, r.name, r.pos, r.seek_pdir));
        }
    }
    let root = f.recs.first().ok_or(("no-records", String::new()))?;
    if root.class != "TFile" || root.name != path {
        return v("first-record", format!("{root:?}"));
    }
    // TNamed written after the key, then the directory
    let nb = root.keylen + 1 + 1 + path.len() as i32 + if path.len() > 254 { 4 } else { 0 };
    if h.nbytes_name != nb || f.dir.nbytes_name != nb {
        return v("name-length", format!("{} in the header, {} in the directory, {nb} expected", h.nbytes_name, f.dir.nbytes_name));
    }
    if f.dir.seek_dir != h.begin || f.dir.seek_parent != 0 || (f.dir.ver != 5 && f.dir.ver != 1005) {
        return v("directory", format!("{:?}", f.dir));
    }
    if h.uuid != f.dir.uuid || h.uuid[..2] != [0, 1] {
        return v("uuid", format!("{:?} in the header, {:?} in the directory", h.uuid, f.dir.uuid));
    }
    match f.rec_at(f.dir.seek_keys) {
        Some(r) if r.nbytes == f.dir.nbytes_keys && r.class == "TDirectory" => {}
        r => return v("key-list-record", format!("{r:?} for {} bytes at {}", f.dir.nbytes_keys, f.dir.seek_keys)),
    }
    match f.rec_at(h.seek_free) {
        Some(r) if r.nbytes == h.nbytes_free => {
            let pl = f.payload(r).map_err(|e| ("free-list", e))?;
            let mut c = Cur::new(&pl, 0);
            let mut last = (0, 0);
            let mut n = 0;
            while c.p < pl.len() {
                let p = (|| -> R<(i64, i64)> {
                    let ver = c.i16()?;
                    Ok((c.seek(ver > 1000)?, c.seek(ver > 1000)?))
                })()
                .map_err(|e| ("free-list", e))?;
                last = p;
                n += 1;
            }
            if n != h.nfree {
                return v("free-list", format!("{n} segments, {} announced", h.nfree));
            }
            let to = if big { last.1 > h.end } else { last.1 == 2_000_000_000 };
            if !to || last.0 > h.end || last.0 < h.seek_free {
                return v("free-list", format!("last segment {last:?}, end {}", h.end));
            }
        }
        r => return v("free-list-record", format!("{r:?} for {} bytes at {}", h.nbytes_free, h.seek_free)),
    }
    match f.rec_at(h.seek_info) {
        Some(r) if r.nbytes == h.nbytes_info && r.class == "TList" && r.name == "StreamerInfo" => {}
        r => return v("streamer-record", format!("{r:?} for {} bytes at {}", h.nbytes_info, h.seek_info)),
    }
    // keys: copies of the headers of records, in order
    if f.keys.len() != names.len() {
        return v("keys", format!("{} keys for {} trees", f.keys.len(), names.len()));
    }
    let mut cycles: HashMap<&str, i16> = HashMap::new();
    for (k, n) in f.keys.iter().zip(names) {
        let c = cycles.entry(n).or_insert(0);
        *c += 1;
        if &k.name != n || k.class != "TTree" || k.cycle != *c {
            return v("keys", format!("{:?} {:?} cycle {} for {n:?} cycle {c}", k.class, k.name, k.cycle));
        }
        match f.rec_at(k.seek_key) {
            Some(r) => {
                let a = Rec { pos: 0, ..r.clone() };
                let b = Rec { pos: 0, ..k.clone() };
                if a != b {
                    return v("key-differs-from-record", format!("{a:?} and {b:?}"));
                }
            }
            None => return v("key-without-record", format!("{k:?}")),
        }
    }
    Ok(())
}

/// Tree header, branches, leaves, baskets; `owned` collects the baskets referred to.
pub fn tree(f: &File, key: &Rec, specs: &[Spec], owned: &mut HashSet<i64>, content: bool) -> E {
    let v = |s: &'static str, d: String| -> E { Err((s, d)) };
    let t = f.tree(key).map_err(|e| ("tree-record", format!("{:?}: {e}", key.name)))?;
    if t.consumed != key.objlen as usize {
        return v("tree-record", format!("{} of {} bytes used", t.consumed, key.objlen));
    }
    if t.name != key.name || t.title != key.title {
        return v("tree-name", format!("{:?} {:?} under the key {:?}", t.name, t.title, key.name));
    }
    let max = specs.iter().map(|s| s.n).max().unwrap_or(0) as i64;
    if t.entries != max {
        return v("tree-entries", format!("{} instead of {max}", t.entries));
    }
    // what a reader of ROOT takes as the range and the weight of the entries
    if t.weight != 1.0 || t.max_entries < max || t.max_entry_loop < max || t.saved_bytes < 0 {
        return v("tree-fields", format!("weight {}, at most {} entries, loops over at most {}, {} bytes saved", t.weight, t.max_entries, t.max_entry_loop, t.saved_bytes));
    }
    let (tot, zip) = t.branches.iter().fold((0, 0), |s, b| (s.0 + b.tot_bytes, s.1 + b.zip_bytes));
    if t.tot_bytes != tot || t.zip_bytes != zip {
        return v("tree-bytes", format!("{} {} announced, {tot} {zip} in its branches", t.tot_bytes, t.zip_bytes));
    }
    if t.branches.len() != specs.len() || t.nleaves != specs.len() {
        return v("tree-branches", format!("{} branches, {} leaves, {} columns", t.branches.len(), t.nleaves, specs.len()));
    }
    let mut tags = vec![];
    for (b, s) in t.branches.iter().zip(specs) {
        let d = || s.desc();
        if b.name != s.name {
            return v("branch-name", format!("{:?} for {}", b.name, d()));
        }
        if b.class != s.ty.class() {
            return v("branch-class", format!("{} for {}", b.class, d()));
        }
        if b.entries != s.n as i64 || b.first_entry != 0 {
            return v("branch-entries", format!("{} from {} for {}", b.entries, b.first_entry, d()));
        }
        if b.embedded != 0 || !b.children.is_empty() {
            return v("branch-content", format!("{} baskets, {} sub-branches in {}", b.embedded, b.children.len(), d()));
        }
        if b.leaves.len() != 1 {
            return v("branch-leaves", format!("{} for {}", b.leaves.len(), d()));
        }
        let l = &b.leaves[0];
        tags.push(l.tag_pos);
        let var = matches!(s.ty, Ty::Vec(_) | Ty::Str);
        if b.entry_number != b.entries || b.offset != 0 || b.basket_size <= 0 || b.max_baskets < b.write_basket || var != (b.entry_offset_len > 0) || !b.fname.is_empty() {
            return v("branch-fields", format!("{:?} for {}", BranchM { basket_bytes: vec![], basket_entry: vec![], basket_seek: vec![], ..b.clone() }, d()));
        }
        if matches!(s.ty, Ty::Vec(_)) && (!b.parent.is_empty() || !b.clones.is_empty() || (b.id, b.btype, b.stype, b.fmax) != (-1, 0, -1, 0)) {
            return v("branch-element-fields", format!("{:?} for {}", (&b.parent, &b.clones, b.id, b.btype, b.stype, b.fmax), d()));
        }
        let title = if let Ty::Arr(_, n) = s.ty { format!("{}[{n}]", s.name) } else { s.name.clone() };
        if l.name != s.name || l.title != title || l.offset != 0 || l.has_range || matches!(s.ty, Ty::Vec(_)) && (l.id, l.ltype) != (-1, -1) {
            return v("leaf-fields", format!("{l:?} for {}", d()));
        }
        let ok = match s.ty {
            Ty::Scalar(p) | Ty::Arr(p, _) => {
                let (c, sz, uns) = leaf_class(p);
                let n = if let Ty::Arr(_, n) = s.ty { n as i32 } else { 1 };
                l.class == c && l.etype == sz && l.unsigned == uns && l.len == n && !l.count
            }
            Ty::Str => l.class == "TLeafC" && !l.count,
            Ty::Vec(_) => l.class == "TLeafElement" && b.class_name == s.ty.cpp() && !l.count,
        };
        if !ok {
            return v("leaf", format!("{l:?} class {:?} for {}", b.class_name, d()));
        }
        // the baskets
        let n = b.write_basket as usize;
        if n > b.basket_seek.len() || n > b.basket_bytes.len() || n + 1 > b.basket_entry.len() && n > 0 {
            return v("basket-tables", format!("{n} baskets, {} slots for {}", b.max_baskets, d()));
        }
        let mut sum = 0i64;
        let (mut btot, mut bzip) = (0i64, 0i64);
        for i in 0..n {
            let seek = b.basket_seek[i];
            let Some(r) = f.rec_at(seek) else {
                return v("basket-position", format!("basket {i} at {seek} for {}", d()));
            };
            if r.class != "TBasket" || r.nbytes != b.basket_bytes[i] {
                return v("basket-record", format!("basket {i} at {seek}: {:?} of {} bytes, {} announced, for {}", r.class, r.nbytes, b.basket_bytes[i], d()));
            }
            if r.name != b.name || r.title != t.name {
                return v("basket-label", format!("basket {i} of {:?} in {:?} is labelled {:?} {:?}", b.name, t.name, r.name, r.title));
            }
            if !owned.insert(seek) {
                return v("basket-shared", format!("basket {i} at {seek} for {}", d()));
            }
            let bk = basket(f, seek).map_err(|e| ("basket", format!("{i} of {}: {e}", d())))?;
            if b.basket_entry[i] != sum {
                return v("basket-first-entry", format!("basket {i} starts at entry {} instead of {sum}, {}", b.basket_entry[i], d()));
            }
            if var != !bk.raw_table.is_empty() {
                return v("basket-offsets", format!("basket {i}: table of {} for {}", bk.raw_table.len(), d()));
            }
            if var && (bk.raw_table[0] != bk.hdr.nevbuf + 1 || bk.raw_table.len() != bk.hdr.nevbuf as usize + 2) {
                return v("basket-offsets", format!("basket {i}: table {:?}.. of {} for {} entries", bk.raw_table[0], bk.raw_table.len(), bk.hdr.nevbuf));
            }
            // size of an entry (other readers compute positions by it), or room in the table of offsets
            let unit = match s.ty {
                Ty::Scalar(p) => p.size() as i32,
                Ty::Arr(p, n) => (p.size() * n) as i32,
                _ => 0,
            };
            let ok = if var { bk.hdr.nevsize >= bk.hdr.nevbuf } else { bk.hdr.nevsize == unit || bk.hdr.nevbuf == 0 };
            if !ok {
                return v("basket-unit", format!("basket {i}: {} for {} entries of {unit} bytes, {}", bk.hdr.nevsize, bk.hdr.nevbuf, d()));
            }
            sum += bk.hdr.nevbuf as i64;
            btot += (r.objlen + r.keylen) as i64;
            bzip += r.nbytes as i64;
        }
        if n > 0 && b.basket_entry[n] != b.entries && b.basket_entry[n] != 0 {
            return v("basket-last-entry", format!("{} instead of {} for {}", b.basket_entry[n], b.entries, d()));
        }
        if sum != s.n as i64 {
            return v("basket-entries", format!("{sum} entries in the baskets for {}", d()));
        }
        if b.tot_bytes != btot || b.zip_bytes != bzip {
            return v("branch-bytes", format!("{} {} announced, {btot} {bzip} counted, for {}", b.tot_bytes, b.zip_bytes, d()));
        }
        if !content && s.name == "w" {
            continue;
        }
        let cells = decode_column(f, b, s.ty).map_err(|e| ("decode", format!("{}: {e}", d())))?;
        if s.ty == Ty::Str && s.n > 0 {
            // other readers make room for the longest string by it
            let longest = cells.iter().map(|c| if let Cell::S(x) = c { x.len() } else { 0 }).max().unwrap_or(0) as i32;
            if l.len <= longest || l.max as i32 <= longest {
                return v("leaf-length", format!("{l:?} with a string of {longest} bytes in {}", d()));
            }
        }
        s.compare_iter(cells.into_iter()).map_err(|(x, e)| (x, format!("{}: {e}", d())))?;
    }
    for (i, r) in t.leaf_refs.iter().enumerate() {
        if let Some(r) = r {
            if *r != tags[i] {
                return v("leaf-reference", format!("leaf {i} of the tree refers to {r}, the leaf of the branch is {}", tags[i]));
            }
        }
    }
    Ok(())
}

fn whole(d: Vec<u8>, path: &Path, trees: &[(String, Vec<Spec>)], o: &mut Out) -> E {
    whole_but(d, path, trees, o, None)
}

/// `skip`: tree whose column `w` has other values than its specification (they are not looked at).
fn whole_but(d: Vec<u8>, path: &Path, trees: &[(String, Vec<Spec>)], o: &mut Out, skip: Option<usize>) -> E {
    let f = File::parse(d).map_err(|e| ("container", e))?;
    let names: Vec<String> = trees.iter().map(|t| t.0.clone()).collect();
    container(&f, path.to_str().unwrap_or(""), &names)?;
    let mut owned = HashSet::new();
    for (i, (k, (_, specs))) in f.keys.iter().zip(trees).enumerate() {
        tree(&f, k, specs, &mut owned, Some(i) != skip)?;
    }
    let baskets = f.recs.iter().filter(|r| r.class == "TBasket").count();
    if baskets != owned.len() {
        return Err(("orphan-basket", format!("{baskets} baskets in the file, {} referred to", owned.len())));
    }
    // nothing else than: root record, baskets, trees, key list, streamers, free list
    let others = f.recs.len() - baskets - names.len();
    if others != 4 {
        return Err(("extra-records", format!("{others} administrative records: {:?}", f.recs.iter().map(|r| &r.class).collect::<Vec<_>>())));
    }
    streamers(&f, trees)?;
    o.count("records", f.recs.len() as u64);
    o.count("baskets", baskets as u64);
    Ok(())
}

/// Names of the classes described by the file.
pub fn streamer_names(f: &File) -> R<Vec<(String, i32)>> {
    let r = f.rec_at(f.h.seek_info).ok_or("no streamer record")?;
    let pl = f.payload(r)?;
    // TList: header, TObject, name, n, then objects with byte counts, each followed by an option
    let mut c = Cur::new(&pl, 0);
    c.u32()?;
    c.u16()?;
    c.take(10)?;
    c.tstr()?;
    let n = c.i32()?;
    let mut out = vec![];
    for _ in 0..n {
        let at = c.p;
        let bc = c.u32()?;
        if bc & KBC == 0 {
            return Err(format!("streamer at {at} without byte count"));
        }
        let end = at + 4 + (bc & !KBC) as usize;
        let tag = c.u32()?;
        if tag == KNEW {
            let cl = c.cstr()?;
            if cl != "TStreamerInfo" {
                return Err(format!("{cl} in the list of streamers"));
            }
        }
        // TStreamerInfo: header, TNamed, checksum, version
        c.u32()?;
        c.u16()?;
        let b = c.u32()?;
        let e = c.p + (b & !KBC) as usize;
        c.u16()?;
        c.take(10)?;
        let name = c.tstr()?;
        c.p = e;
        c.u32()?;
        let ver = c.i32()?;
        out.push((name, ver));
        if end > pl.len() {
            return Err("streamer ends outside the record".into());
        }
        c.p = end;
        let opt = c.u8()? as usize;
        c.take(opt)?;
    }
    if c.p != pl.len() {
        return Err(format!("{} of {} bytes of the list used", c.p, pl.len()));
    }
    Ok(out)
}

fn streamers(f: &File, trees: &[(String, Vec<Spec>)]) -> E {
    let names = streamer_names(f).map_err(|e| ("streamers", e))?;
    let set: HashSet<&str> = names.iter().map(|n| n.0.as_str()).collect();
    if set.len() != names.len() {
        return Err(("streamers", format!("duplicates in {names:?}")));
    }
    if trees.is_empty() {
        return Ok(());
    }
    let need: HashSet<&str> = ["TTree", "TNamed", "TAttLine", "TAttFill", "TAttMarker", "TBranch"].into();
    let mut missing: Vec<_> = need.iter().filter(|n| !set.contains(**n)).collect();
    missing.sort();
    if !missing.is_empty() {
        return Err(("streamers-missing", format!("{missing:?} among {names:?}")));
    }
    Ok(())
}

pub fn random_file(r: &mut Rng) -> Vec<(String, Vec<Spec>)> {
    let nt = *r.pick(&[0usize, 1, 1, 1, 2, 3, 5]);
    let (mc, mn) = *r.pick(&[(3, 6000), (8, 900), (25, 60), (4, 20000)]);
    (0..nt)
        .map(|k| {
            let n = match r.below(4) {
                0 => "t".to_string(),
                1 => format!("tree_{}", "n".repeat(r.range(0, 300))),
                2 => format!("τ{k}"),
                _ => format!("t{k}"),
            };
            let eq = r.chance(1, 3);
            (n, random_tree(r, mc, mn, eq))
        })
        .collect()
}

fn path_of(cx: &Ctx, r: &mut Rng) -> std::path::PathBuf {
    let p = cx.path("");
    if r.chance(1, 4) {
        let l = r.range(1, 200);
        let d = p.clone();
        let _ = std::fs::create_dir_all(&d);
        d.join("p".repeat(l))
    } else {
        p.with_extension("root")
    }
}

pub fn c05(cx: &Ctx) {
    cx.set_rule("one case = a file of random trees, parsed from its bytes by an independent reader of the ROOT container format: records tile the file, header, directory, key list, free list, streamer list agree with them, every basket belongs to one branch, tables, counts and byte totals agree, and every column decodes to what was written; non-trivial = at least one tree");
    let r0 = cx.rng("c05");
    cx.par("random", cx.n(2000, 80000), |i, o| {
        let mut r = r0.fork(i);
        let trees = random_file(&mut r);
        one(cx, o, &mut r, trees);
    });
    // number of baskets around the growth of the tables
    let counts: Vec<usize> = if cx.quick() { vec![0, 1, 2, 8, 9, 10, 11, 12, 19, 20, 21, 39, 40, 41, 81] } else { (0..130).chain([199, 200, 320, 321, 500]).collect() };
    cx.par("tables", counts.len(), |i, o| {
        let mut r = r0.fork(50_000 + i);
        let n = counts[i as usize];
        let trees = vec![(
            "t".to_string(),
            vec![
                Spec::new("a", Ty::Scalar(P::F64), n * 4096 + r.range(0, 2), r.next()).val(Val::Rand),
                Spec::new("s", Ty::Str, n * 8 + r.range(0, 2), r.next()).len(Len::Uni(3900, 4095)),
                Spec::new("v", Ty::Vec(P::U16), n * 8, r.next()).len(Len::Uni(1990, 2043)),
            ],
        )];
        one(cx, o, &mut r, trees);
    });
    // every type
    let mut types = scalar_types();
    for p in PRIMS {
        for n in ARR_N {
            types.push(Ty::Arr(p, n));
        }
    }
    types.extend(crate::p_round::var_types());
    cx.par("types", types.len(), |i, o| {
        let mut r = r0.fork(60_000 + i);
        for n in [0, 1, 1000] {
            let trees = vec![("t".to_string(), vec![Spec::new("x", types[i as usize], n, r.next())])];
            one(cx, o, &mut r, trees);
        }
    });
    let dir = std::env::temp_dir().join(format!("vharness-c05big.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    cx.seq("big", cx.n(1, 4), |i, o| big(o, &mut r0.fork(70_000 + i), &dir, [2_000_100_000, 1_999_990_000, 2_200_000_000, 4_300_000_000][i as usize % 4]));
    cx.seq("edges", 1, |_, o| {
        let mut places = vec![(3, 0.5), (2, 0.5), (1, 0.1)];
        if !cx.quick() {
            for k in 0..4 {
                for part in [0.0, 0.02, 0.3, 0.7, 0.98, 1.0] {
                    places.push((k, part));
                }
            }
        }
        edges(o, &dir, &places, &|| cx.over())
    });
    let _ = std::fs::remove_dir_all(&dir);
}

const BULK: usize = 31_000;

/// Columns next to the bulk: their blocks are begun before the boundary and written behind it.
pub fn beside(n: usize) -> Vec<Spec> {
    let s = |name: &str, ty, n, k| Spec::new(name, ty, n, k);
    vec![
        s("few", Ty::Str, 700, 1).len(Len::Uni(0, 9)),
        s("s", Ty::Str, n, 2).len(Len::Uni(0, 5)),
        s("v", Ty::Vec(P::I16), n, 3).len(Len::Uni(0, 3)),
        s("i", Ty::Scalar(P::I32), n, 4),
        s("a", Ty::Arr(P::F64, 3), n, 5),
        s("fewer", Ty::Vec(P::F32), 90, 6).len(Len::Uni(0, 9)),
        s("long", Ty::Vec(P::U8), n, 7).len(Len::Rare { short: 1, long: 40_000, every: 9000 }),
    ]
}

/// A tree of `n` large strings and small columns, then other trees.
fn write_big(path: &Path, n: usize, side: &[Spec], rest: &[(String, Vec<Spec>)]) -> Result<(), String> {
    let text = "0123456789abcdefghijklmnopqrstuvwxyz".repeat(BULK / 36 + 1);
    let mut f = oxyroot::RootFile::create(path).map_err(|e| format!("create: {e}"))?;
    let mut t = oxyroot::WriterTree::new("bulk");
    t.new_branch("w", (0..n).map(move |_| text[..BULK].to_string()));
    for c in side {
        c.add_to(&mut t);
    }
    t.write(&mut f).map_err(|e| format!("write: {e}"))?;
    append_specs(&mut f, rest)?;
    f.close().map_err(|e| format!("close: {e}"))
}

/// Parses a file written by `write_big`; None if there is no room for it.
fn big_file(o: &mut Out, path: &Path, n: usize, side: &[Spec], rest: &[(String, Vec<Spec>)]) -> Option<Vec<u8>> {
    match write_big(path, n, side, rest) {
        Err(e) if e.contains("No space left") => o.count("skipped_no_space", 1),
        Err(e) => o.viol("write-failed", e),
        Ok(()) => match std::fs::read(path) {
            Err(e) => o.error(format!("read: {e}")),
            Ok(d) => {
                o.count("bytes", d.len() as u64);
                return Some(d);
            }
        },
    }
    None
}

fn with_bulk(n: usize, side: &[Spec], rest: &[(String, Vec<Spec>)]) -> Vec<(String, Vec<Spec>)> {
    let mut v = vec![("bulk".to_string(), vec![Spec::new("w", Ty::Str, n, 0)])];
    v[0].1.extend(side.iter().cloned());
    v.extend(rest.iter().map(|(n, s)| (n.clone(), s.clone())));
    v
}

/// A file of more than two gigabytes: one tree lies across the boundary, the others behind it.
fn big(o: &mut Out, r: &mut Rng, dir: &Path, from: usize) {
    let path = dir.join("big.root");
    let n = from / (BULK + 77) + 1;
    let mut rest = random_file(r);
    rest.extend(random_file(r));
    o.case(format!("{n} strings of {BULK} bytes, then {:?}", rest.iter().map(|t| &t.0).collect::<Vec<_>>()));
    let side = beside(n);
    if let Some(d) = big_file(o, &path, n, &side, &rest) {
        o.eval();
        o.seen(&o.desc.clone());
        o.check(d.len() > 2_000_000_000 || from < 2_000_000_000, "harness", || format!("{} bytes only", d.len()));
        if let Err((s, e)) = whole_but(d, &path, &with_bulk(n, &side, &rest), o, Some(0)) {
            o.viol(s, e);
        }
    }
    let _ = std::fs::remove_file(&path);
}

/// The boundary of two gigabytes falls on a given record at the end of the file.
fn edges(o: &mut Out, dir: &Path, places: &[(usize, f64)], over: &dyn Fn() -> bool) {
    let path = dir.join("edge.root");
    let tail = |len: usize| vec![("tail".to_string(), vec![Spec::new("s", Ty::Str, 1, 0).len(Len::Fix(len))])];
    let n = (2_000_000_000 - 1_500_000) / (BULK + 77);
    let base = 2000usize;
    o.case("the layout before the boundary");
    let Some(d) = big_file(o, &path, n, &[], &tail(base)) else { return };
    let f = match File::parse(d) {
        Ok(f) => f,
        Err(e) => return o.viol("container", e),
    };
    let last: Vec<(String, usize, usize)> = f.recs[f.recs.len() - 4..].iter().map(|r| (r.class.clone(), r.pos, r.nbytes as usize)).collect();
    drop(f);
    for (k, part) in places {
        if over() {
            break;
        }
        let (class, pos, len) = &last[*k];
        // the record begins (part 0), ends (part 1) at the boundary, or lies across it
        let at = 2_000_000_000 - (*part * *len as f64).round() as usize;
        let Some(len) = (base + at).checked_sub(*pos) else { return o.error(format!("record {k} is at {pos} already")) };
        o.case(format!("{class} record across the boundary ({part} of it before)"));
        let t = tail(len);
        if let Some(d) = big_file(o, &path, n, &[], &t) {
            o.eval();
            o.seen(&o.desc.clone());
            match parse_header(&d) {
                Ok(h) => o.count("files ending behind the boundary", (h.end > 2_000_000_000) as u64),
                Err(e) => o.viol("container", e),
            }
            if let Err((s, e)) = whole_but(d, &path, &with_bulk(n, &[], &t), o, Some(0)) {
                o.viol(s, e);
            }
        }
    }
    let _ = std::fs::remove_file(&path);
}

fn one(cx: &Ctx, o: &mut Out, r: &mut Rng, trees: Vec<(String, Vec<Spec>)>) {
    let p = path_of(cx, r);
    o.case(clip(&trees.iter().map(|(n, s)| format!("{n:?}: {}", s.iter().map(|s| s.desc()).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(" | "), 1500));
    o.sample(clip(&o.desc, 300));
    if let Err(e) = write_specs(&p, &trees) {
        o.viol("write-failed", e);
        return;
    }
    o.eval();
    if !trees.is_empty() {
        o.seen(&o.desc.clone());
    }
    match std::fs::read(&p) {
        Err(e) => o.error(format!("read: {e}")),
        Ok(d) => {
            o.count("bytes", d.len() as u64);
            if let Err((s, e)) = whole(d, &p, &trees, o) {
                o.viol(s, e);
            }
        }
    }
    let _ = std::fs::remove_file(&p);
}

pub fn c06(cx: &Ctx) {
    cx.set_rule("one case = the same trees written again to the same path after other work, from another thread, while other threads write other files, or after a failed or abandoned file, or by a fresh process and by one with a history (files read, damaged, failed, abandoned, concurrent, another environment, directory or time); monitored: the bytes are the same; non-trivial = a file with at least one tree and entry");
    let r0 = cx.rng("c06");
    cx.par("random", cx.n(1000, 40000), |i, o| {
        let mut r = r0.fork(i);
        let p = path_of(cx, &mut r);
        let trees = random_file(&mut r);
        o.case(clip(&format!("{trees:?}"), 1000));
        let w = |o: &mut Out| -> Option<Vec<u8>> {
            if let Err(e) = write_specs(&p, &trees) {
                o.viol("write-failed", e);
                return None;
            }
            std::fs::read(&p).ok()
        };
        let Some(a) = w(o) else { return };
        for step in 0..3 {
            // something else in between
            match r.below(5) {
                0 => {
                    let other = random_file(&mut r);
                    let q = cx.path(".root");
                    let _ = write_specs(&q, &other);
                    if let Ok(mut f) = oxyroot::RootFile::open(&q) {
                        for (n, _) in &other {
                            let _ = f.get_tree(n).map(|t| t.branches().count());
                        }
                    }
                    let _ = std::fs::remove_file(&q);
                }
                1 => {
                    // a file which is never closed
                    let q = cx.path(".root");
                    if let Ok(mut f) = oxyroot::RootFile::create(&q) {
                        let mut t = oxyroot::WriterTree::new("zz");
                        t.new_branch("x", 0..10i32);
                        let _ = t.write(&mut f);
                    }
                    let _ = std::fs::remove_file(&q);
                }
                2 => {
                    let _ = oxyroot::RootFile::create("/nonexistent-directory/x.root").is_err();
                    let mut t = oxyroot::WriterTree::new("never-written");
                    t.new_branch("x", 0..10i64);
                }
                3 => {
                    let _ = std::fs::write(&p, vec![0x5A; r.range(0, 200_000)]);
                }
                _ => {
                    let _ = std::fs::remove_file(&p);
                }
            }
            let b = if r.chance(1, 2) {
                std::thread::scope(|s| {
                    s.spawn(|| write_specs(&p, &trees).ok().and_then(|_| std::fs::read(&p).ok())).join().ok().flatten()
                })
            } else {
                w(o)
            };
            o.eval();
            if trees.iter().any(|t| t.1.iter().any(|s| s.n > 0)) {
                o.seen((i, step));
            }
            match b {
                None => o.viol("second-write-failed", format!("step {step}")),
                Some(b) => {
                    if a != b {
                        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        o.viol("bytes-differ", format!("step {step}: {} and {} bytes, first difference at {at}", a.len(), b.len()));
                        break;
                    }
                }
            }
            o.count("bytes_compared", a.len() as u64);
        }
        o.sample(clip(&o.desc, 200));
        let _ = std::fs::remove_file(&p);
    });
    let h = cx.rng("c06-histories");
    let k = crate::p_same::HISTORIES.len();
    cx.par("histories", cx.n(16, 600) * k, |i, o| crate::p_same::histories(cx, o, h.fork(i).next(), i));
}

