//! An independent encoder of ROOT files: a logical content (trees, columns, entries as bytes) and
//! a physical layout (positions, gaps, compression, fragmentation, widths, versions) give a file.
use crate::rng::Rng;
use crate::rootfmt as rf;
use crate::rootfmt::InfoM;
use crate::val::{self, put_tstr, Ct, Sk, V};
use std::collections::HashMap;
use std::io::Write as _;

// ---------------------------------------------------------------- logical content

#[derive(Clone, Debug, Default)]
pub struct LeafS {
    pub class: String,
    pub name: String,
    pub title: String,
    pub len: i32,
    pub etype: i32,
    pub offset: i32,
    pub range: bool,
    pub unsigned: bool,
    /// name of the (earlier) leaf which holds the number of elements
    pub count: Option<String>,
    pub id: i32,
    pub ltype: i32,
    pub min: i64,
    pub max: i64,
}

#[derive(Clone, Debug, Default)]
pub struct ElemS {
    pub class_name: String,
    pub parent: String,
    pub clones: String,
    pub checksum: u32,
    pub clsver: u16,
    pub id: i32,
    pub btype: i32,
    pub stype: i32,
    pub fmax: i32,
}

#[derive(Clone, Debug, Default)]
pub struct ColS {
    pub name: String,
    pub title: String,
    pub elem: Option<ElemS>,
    pub leaves: Vec<LeafS>,
    /// bytes of each entry
    pub entries: Vec<Vec<u8>>,
    /// whether baskets carry a table of entry offsets
    pub table: bool,
    pub nevsize: i32,
    pub split: i32,
    pub kids: Vec<ColS>,
    /// number of entries (of a column without data of its own)
    pub n: i64,
}

#[derive(Clone, Debug, Default)]
pub struct TreeS {
    pub name: String,
    pub title: String,
    pub cols: Vec<ColS>,
    pub info: Option<InfoM>,
    pub cycle: i16,
    pub entries: i64,
    /// an object of another class, with this content
    pub other: Option<(String, Vec<u8>)>,
}

impl TreeS {
    pub fn class(&self) -> String {
        self.other.as_ref().map_or("TTree".into(), |o| o.0.clone())
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileS {
    pub trees: Vec<TreeS>,
    /// payload of the streamer info record
    pub sinfo: Vec<u8>,
    /// key length the payload was written for (its references count from there)
    pub sinfo_keylen: usize,
    pub sinfo_title: String,
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo {
    None,
    Zlib,
    Lzma,
    Lz4,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Chunk {
    /// all entries in one basket
    All,
    Each,
    Uni(usize, usize),
    /// like Uni, with baskets without entries in between
    Holes(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub seed: u64,
    pub algos: Vec<Algo>,
    /// sizes of the compressed blocks (0: as large as allowed)
    pub block: usize,
    pub chunk: Chunk,
    pub shuffle: bool,
    pub gaps: bool,
    pub wide_header: bool,
    pub wide_dir: bool,
    /// one key in `wide_keys` is wide (0: none)
    pub wide_keys: u64,
    pub spare: usize,
    /// one column in `embed` keeps its last basket in the tree record (0: none)
    pub embed: u64,
    pub tree_ver: i16,
    pub branch_ver: i16,
    pub begin: usize,
    /// offset tables without the trailing slot etc.: how the unused tail of a table is filled
    pub dirty_spare: bool,
    pub keys_shuffled: bool,
    /// the array of embedded baskets has null slots for the baskets on file
    pub null_slots: bool,
    /// 64 bits positions in the tables of old branches
    pub old_wide: bool,
    /// one record in `far` is preceded by a hole of gigabytes (0: none); for `build_places`
    pub far: u64,
    /// level of compression (0: random)
    pub level: usize,
    /// the list of free segments is not the last record (not for `far`)
    pub free_inside: bool,
    /// one object in `refs` has been referred to by a TRef (0: none), and carries two bytes more
    pub refs: u32,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout {
            seed: 1,
            algos: vec![Algo::None],
            block: 0,
            chunk: Chunk::All,
            shuffle: false,
            gaps: false,
            wide_header: false,
            wide_dir: false,
            wide_keys: 0,
            spare: 10,
            embed: 0,
            tree_ver: 20,
            branch_ver: 13,
            begin: 100,
            dirty_spare: false,
            keys_shuffled: false,
            null_slots: false,
            old_wide: false,
            far: 0,
            level: 0,
            free_inside: false,
            refs: 0,
        }
    }
    pub fn random(r: &mut Rng) -> Layout {
        let mut l = Layout::plain();
        l.seed = r.next();
        l.algos = match r.below(5) {
            0 => vec![Algo::None],
            1 => vec![*r.pick(&[Algo::Zlib, Algo::Lzma, Algo::Lz4])],
            _ => vec![Algo::None, Algo::Zlib, Algo::Lzma, Algo::Lz4],
        };
        l.block = *r.pick(&[0, 0, 64, 200, 1000]);
        l.chunk = match r.below(5) {
            0 => Chunk::All,
            1 => Chunk::Each,
            2 => Chunk::Uni(1, 10),
            3 => Chunk::Uni(3, 40),
            _ => Chunk::Holes(1, 8),
        };
        l.shuffle = r.chance(1, 2);
        l.gaps = r.chance(1, 2);
        l.wide_header = r.chance(1, 3);
        l.wide_dir = r.chance(1, 3);
        l.wide_keys = *r.pick(&[0, 1, 2, 3]);
        l.spare = *r.pick(&[0, 1, 1, 2, 10, 50]);
        l.embed = *r.pick(&[0, 0, 1, 2]);
        l.tree_ver = *r.pick(&[5, 16, 17, 18, 19, 20, 20]);
        l.branch_ver = *r.pick(&[6, 7, 8, 9, 10, 11, 12, 13, 13, 13]);
        l.begin = *r.pick(&[100, 100, 100, 64 + 36, 128, 300]);
        l.dirty_spare = r.chance(1, 3);
        l.keys_shuffled = r.chance(1, 3);
        l.null_slots = r.chance(1, 2);
        l.old_wide = r.chance(1, 2);
        l.free_inside = r.chance(1, 3);
        l.refs = *r.pick(&[0, 0, 1, 3]);
        l
    }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub records: u64,
    pub baskets: u64,
    pub embedded: u64,
    pub empty_baskets: u64,
    pub gaps: u64,
    pub blocks: u64,
    pub compressed: HashMap<&'static str, u64>,
    pub wide_keys: u64,
    pub far: u64,
}

// ---------------------------------------------------------------- byte writer

pub const KBC: u32 = 0x4000_0000;

#[derive(Default)]
pub struct W {
    pub b: Vec<u8>,
    /// references count from the start of the key
    pub off: usize,
    classes: HashMap<String, u32>,
    /// one object in so many is written as one that was referred to
    refs: u32,
    objs: u32,
}

impl W {
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn i32(&mut self, v: i32) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn i64(&mut self, v: i64) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn f64(&mut self, v: f64) {
        self.b.extend_from_slice(&v.to_be_bytes())
    }
    pub fn tstr(&mut self, s: &str) {
        put_tstr(&mut self.b, s.as_bytes())
    }
    pub fn seek(&mut self, v: i64, wide: bool) {
        if wide {
            self.i64(v)
        } else {
            self.i32(v as i32)
        }
    }
    /// an object with byte count and version
    fn obj(&mut self, ver: i16, f: impl FnOnce(&mut W)) {
        let at = self.b.len();
        self.u32(0);
        self.u16(ver as u16);
        f(self);
        let n = (self.b.len() - at - 4) as u32 | KBC;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
    fn tobject(&mut self) {
        self.u16(1);
        self.objs += 1;
        if self.refs > 0 && self.objs.wrapping_mul(0x9E37_79B1) >> 8 & 0xffff < 0x10000 / self.refs {
            self.u32(0x0100_0000 + self.objs);
            self.u32(0x0300_0010 | (self.objs % 2) << 3);
            self.u16((self.objs % 3) as u16);
        } else {
            self.u32(0);
            self.u32(0x0300_0000);
        }
    }
    fn tnamed(&mut self, n: &str, t: &str) {
        self.obj(1, |w| {
            w.tobject();
            w.tstr(n);
            w.tstr(t);
        })
    }
    /// an object with its class; returns the position references to it use
    fn any(&mut self, class: &str, f: impl FnOnce(&mut W)) -> u32 {
        let at = self.b.len();
        self.u32(0);
        let tag = self.b.len();
        match self.classes.get(class) {
            Some(id) => {
                let id = *id | 0x8000_0000;
                self.u32(id)
            }
            None => {
                self.u32(0xFFFF_FFFF);
                self.b.extend_from_slice(class.as_bytes());
                self.u8(0);
                self.classes.insert(class.to_string(), (tag + self.off + 2) as u32);
            }
        }
        f(self);
        let n = (self.b.len() - at - 4) as u32 | KBC;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
        (at + self.off + 2) as u32
    }
    fn nil(&mut self) {
        self.u32(0)
    }
    fn objarray(&mut self, n: usize, f: impl FnOnce(&mut W)) {
        self.obj(3, |w| {
            w.tobject();
            w.tstr("");
            w.i32(n as i32);
            w.i32(0);
            f(w)
        })
    }
}

// ---------------------------------------------------------------- compression

fn xxh64(d: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let rd8 = |p: usize| u64::from_le_bytes(d[p..p + 8].try_into().unwrap());
    let rd4 = |p: usize| u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as u64;
    let round = |a: u64, x: u64| a.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let (mut p, n) = (0, d.len());
    let mut h;
    if n >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while p + 32 <= n {
            for (i, a) in v.iter_mut().enumerate() {
                *a = round(*a, rd8(p + 8 * i));
            }
            p += 32;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for a in v {
            h = (h ^ round(0, a)).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = P5;
    }
    h = h.wrapping_add(n as u64);
    while p + 8 <= n {
        h = (h ^ round(0, rd8(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        p += 8;
    }
    if p + 4 <= n {
        h = (h ^ rd4(p).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p += 4;
    }
    while p < n {
        h = (h ^ (d[p] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        p += 1;
    }
    h = (h ^ (h >> 33)).wrapping_mul(P2);
    h = (h ^ (h >> 29)).wrapping_mul(P3);
    h ^ (h >> 32)
}

fn block(d: &[u8], a: Algo, level: usize, r: &mut Rng) -> Option<Vec<u8>> {
    let lev = |r: &mut Rng, a: usize, b: usize| if level > 0 { level.min(b) } else { r.range(a, b) };
    let (tag, method, body): (&[u8; 2], u8, Vec<u8>) = match a {
        Algo::None => return None,
        Algo::Zlib => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(lev(r, 1, 9) as u32));
            e.write_all(d).ok()?;
            (b"ZL", 8, e.finish().ok()?)
        }
        Algo::Lzma => {
            let mut e = xz2::write::XzEncoder::new(vec![], if level > 0 { level as u32 } else { r.range(0, 3) as u32 });
            e.write_all(d).ok()?;
            (b"XZ", 0, e.finish().ok()?)
        }
        Algo::Lz4 => {
            let mode = if r.chance(1, 2) {
                lz4::block::CompressionMode::DEFAULT
            } else {
                lz4::block::CompressionMode::HIGHCOMPRESSION(lev(r, 1, 12) as i32)
            };
            let c = lz4::block::compress(d, Some(mode), false).ok()?;
            let mut o = xxh64(&c).to_be_bytes().to_vec();
            o.extend(c);
            (b"L4", 1, o)
        }
    };
    if body.len() > 0xff_ffff {
        return None;
    }
    let mut o = tag.to_vec();
    o.push(method);
    o.extend_from_slice(&(body.len() as u32).to_le_bytes()[..3]);
    o.extend_from_slice(&(d.len() as u32).to_le_bytes()[..3]);
    o.extend(body);
    Some(o)
}

/// Compressed form of a payload, or None when it would not be smaller. (blocks, algorithm mixture)
pub fn pack(d: &[u8], algos: &[Algo], size: usize, level: usize, r: &mut Rng) -> Option<(Vec<u8>, usize, Algo)> {
    let a = *r.pick(algos);
    if a == Algo::None || d.is_empty() {
        return None;
    }
    let mut o = vec![];
    let mut n = 0;
    let mut p = 0;
    while p < d.len() {
        let max = if size == 0 { 0xff_ffff } else { r.range(size / 2 + 1, size * 2) };
        let e = (p + max).min(d.len());
        // a later block may use another algorithm: each has its own header
        let a = if n > 0 && r.chance(1, 4) { *r.pick(algos) } else { a };
        let a = if a == Algo::None { Algo::Zlib } else { a };
        o.extend(block(&d[p..e], a, level, r)?);
        n += 1;
        p = e;
    }
    // ROOT stores the compressed form only if it is smaller
    if o.len() >= d.len() {
        return None;
    }
    Some((o, n, a))
}

// ---------------------------------------------------------------- assembling

struct KeyS {
    class: String,
    name: String,
    title: String,
    cycle: i16,
    wide: bool,
}

impl KeyS {
    fn len(&self, extra: usize) -> usize {
        let mut v = vec![];
        for s in [&self.class, &self.name, &self.title] {
            put_tstr(&mut v, s.as_bytes());
        }
        (if self.wide { 34 } else { 26 }) + v.len() + extra
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&self, w: &mut W, nbytes: usize, objlen: usize, keylen: usize, seek: i64, pdir: i64) {
        w.i32(nbytes as i32);
        w.u16(if self.wide { 1004 } else { 4 });
        w.i32(objlen as i32);
        w.u32(1_700_000_000);
        w.u16(keylen as u16);
        w.u16(self.cycle as u16);
        w.seek(seek, self.wide);
        w.seek(pdir, self.wide);
        w.tstr(&self.class);
        w.tstr(&self.name);
        w.tstr(&self.title);
    }
}

/// a basket of a column: range of entries
#[derive(Clone, Debug)]
struct Bk {
    from: usize,
    to: usize,
    seek: i64,
    nbytes: i32,
}

/// layout of one column (children in `kids`)
#[derive(Clone, Debug, Default)]
struct Plan {
    baskets: Vec<Bk>,
    /// first entry of the embedded basket
    embed: Option<usize>,
    kids: Vec<Plan>,
}

fn plan(c: &ColS, l: &Layout, r: &mut Rng, st: &mut Stats) -> Plan {
    let n = c.entries.len();
    let mut p = Plan::default();
    let mut i = 0;
    while i < n {
        let k = match l.chunk {
            Chunk::All => n,
            Chunk::Each => 1,
            Chunk::Uni(a, b) | Chunk::Holes(a, b) => r.range(a, b),
        };
        let e = (i + k).min(n);
        p.baskets.push(Bk { from: i, to: e, seek: 0, nbytes: 0 });
        i = e;
    }
    if l.embed > 0 && !p.baskets.is_empty() && r.chance(1, l.embed) {
        p.embed = p.baskets.pop().map(|b| b.from);
        st.embedded += 1;
    }
    if let Chunk::Holes(..) = l.chunk {
        // a table slot without a basket: no bytes, no entries
        let mut v = vec![];
        for b in p.baskets {
            if r.chance(1, 4) {
                v.push(Bk { from: b.from, to: b.from, seek: 0, nbytes: 0 });
                st.empty_baskets += 1;
            }
            v.push(b);
        }
        p.baskets = v;
    }
    p.kids = c.kids.iter().map(|k| plan(k, l, r, st)).collect();
    p
}

fn basket_body(c: &ColS, from: usize, to: usize, keylen: usize) -> (Vec<u8>, Vec<i32>) {
    let mut d = vec![];
    let mut offs = vec![];
    for e in &c.entries[from..to] {
        offs.push((keylen + d.len()) as i32);
        d.extend_from_slice(e);
    }
    (d, offs)
}

struct Place {
    pos: usize,
    bytes: Vec<u8>,
}

struct Asm<'a> {
    l: &'a Layout,
    r: Rng,
    st: Stats,
    at: usize,
    out: Vec<Place>,
    gaps: Vec<(usize, usize)>,
    begin: usize,
}

impl Asm<'_> {
    /// Decides the width of the key of the next record, placed right after.
    fn wide(&mut self) -> bool {
        self.gap();
        let w = self.at > 2_000_000_000 || self.l.wide_keys > 0 && self.r.chance(1, self.l.wide_keys);
        self.st.wide_keys += w as u64;
        w
    }
    fn gap(&mut self) {
        if self.l.far > 0 && self.r.chance(1, self.l.far) {
            let n = *self.r.pick(&[1_999_999_000usize, 0x7fff_ff00, 0xffff_fe00, 3_000_000_000, 40_000_000_000, 1 << 41]);
            self.at += n;
            self.st.far += 1;
        }
        if self.l.gaps && self.r.chance(1, 2) {
            let n = self.r.range(4, 200);
            self.force_gap(n);
        }
    }
    fn force_gap(&mut self, n: usize) {
        let mut b = vec![0xEEu8; n];
        b[..4].copy_from_slice(&(-(n as i32)).to_be_bytes());
        self.gaps.push((self.at, n));
        self.out.push(Place { pos: self.at, bytes: b });
        self.at += n;
        self.st.gaps += 1;
    }
    fn packed(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        let (v, n, a) = pack(d, &self.l.algos, self.l.block, self.l.level, &mut self.r)?;
        self.st.blocks += n as u64;
        *self
            .st
            .compressed
            .entry(match a {
                Algo::Zlib => "zlib",
                Algo::Lzma => "lzma",
                _ => "lz4",
            })
            .or_insert(0) += 1;
        Some(v)
    }
    /// place a record; returns its position and size
    fn record(&mut self, k: &KeyS, keylen: usize, extra: &[u8], payload: &[u8]) -> (i64, i32) {
        let body = self.packed(payload);
        let objlen = payload.len();
        let body = body.as_deref().unwrap_or(payload);
        let mut w = W::default();
        let pos = self.at;
        k.put(&mut w, keylen + body.len(), objlen, keylen, pos as i64, self.begin as i64);
        w.b.extend_from_slice(extra);
        assert_eq!(w.b.len(), keylen, "harness: key length");
        w.b.extend_from_slice(body);
        let n = w.b.len();
        self.out.push(Place { pos, bytes: w.b });
        self.at += n;
        self.st.records += 1;
        (pos as i64, n as i32)
    }
    fn basket(&mut self, c: &ColS, tree: &TreeS, from: usize, to: usize, cycle: i16) -> (i64, i32) {
        let wide = self.wide();
        let k = KeyS { class: "TBasket".into(), name: c.name.clone(), title: tree.name.clone(), cycle, wide };
        let keylen = k.len(19);
        let (mut d, offs) = basket_body(c, from, to, keylen);
        let last = keylen + d.len();
        if c.table {
            d.extend_from_slice(&((offs.len() + 1) as i32).to_be_bytes());
            for o in &offs {
                d.extend_from_slice(&o.to_be_bytes());
            }
            d.extend_from_slice(&0i32.to_be_bytes());
        }
        let mut w = W::default();
        w.u16(3);
        w.i32(32000.max(last as i32));
        w.i32(c.nevsize);
        w.i32((to - from) as i32);
        w.i32(last as i32);
        w.u8(0);
        let extra = w.b;
        self.st.baskets += 1;
        self.record(&k, keylen, &extra, &d)
    }
}

struct TreeW<'a> {
    l: &'a Layout,
    r: Rng,
    leaf_ids: HashMap<String, u32>,
    leaf_order: Vec<u32>,
    tree: &'a TreeS,
}

impl TreeW<'_> {
    fn leaf(&mut self, w: &mut W, f: &LeafS) {
        let count = f.count.as_ref().map(|c| *self.leaf_ids.get(c).expect("harness: count leaf after its user"));
        let id = w.any(&f.class, |w| {
            w.obj(1, |w| {
                w.obj(2, |w| {
                    w.tnamed(&f.name, &f.title);
                    w.i32(f.len);
                    w.i32(f.etype);
                    w.i32(f.offset);
                    w.u8(f.range as u8);
                    w.u8(f.unsigned as u8);
                    w.u32(count.unwrap_or(0));
                });
                let sz = match f.class.as_str() {
                    "TLeafElement" => {
                        w.i32(f.id);
                        w.i32(f.ltype);
                        0
                    }
                    "TLeafB" | "TLeafO" => 1,
                    "TLeafS" => 2,
                    "TLeafL" | "TLeafD" => 8,
                    _ => 4,
                };
                for v in [f.min, f.max] {
                    w.b.extend_from_slice(&v.to_be_bytes()[8 - sz..]);
                }
            })
        });
        self.leaf_ids.insert(f.name.clone(), id);
        self.leaf_order.push(id);
    }
    fn branch(&mut self, w: &mut W, c: &ColS, p: &Plan) {
        let class = if c.elem.is_some() { "TBranchElement" } else { "TBranch" };
        w.any(class, |w| match &c.elem {
            None => self.tbranch(w, c, p),
            Some(e) => w.obj(10, |w| {
                self.tbranch(w, c, p);
                w.tstr(&e.class_name);
                w.tstr(&e.parent);
                w.tstr(&e.clones);
                w.u32(e.checksum);
                w.u16(e.clsver);
                w.i32(e.id);
                w.i32(e.btype);
                w.i32(e.stype);
                w.i32(e.fmax);
                w.nil();
                w.nil();
            }),
        });
    }
    fn tbranch(&mut self, w: &mut W, c: &ColS, p: &Plan) {
        let l = self.l;
        w.obj(l.branch_ver, |w| {
            let n = if c.kids.is_empty() || !c.entries.is_empty() { c.entries.len() as i64 } else { c.n };
            let nb = p.baskets.len();
            let cap = nb + l.spare.max(if p.embed.is_some() { 1 } else { 0 });
            w.tnamed(&c.name, &c.title);
            if l.branch_ver > 7 {
                w.obj(2, |w| {
                    w.u16(0);
                    w.u16(1001);
                });
            }
            w.i32(1);
            w.i32(32000);
            w.i32(if c.table { 1000 } else { 0 });
            w.i32(nb as i32);
            let old = l.branch_ver < 10;
            if old {
                w.i32(n as i32);
            } else {
                w.i64(n);
            }
            if l.branch_ver >= 13 {
                w.obj(1, |w| w.u8(0));
            }
            w.i32(0);
            w.i32(cap as i32);
            if l.branch_ver > 6 {
                w.i32(c.split);
            }
            let tot: i64 = c.entries.iter().map(|e| e.len() as i64).sum();
            let zip: i64 = p.baskets.iter().map(|b| b.nbytes as i64).sum();
            if old {
                for v in [n, tot, zip] {
                    w.f64(v as f64);
                }
            } else {
                w.i64(n);
                if l.branch_ver >= 11 {
                    w.i64(0);
                }
                w.i64(tot);
                w.i64(zip);
            }
            w.objarray(c.kids.len(), |w| {
                for (k, q) in c.kids.iter().zip(&p.kids) {
                    self.branch(w, k, q);
                }
            });
            w.objarray(c.leaves.len(), |w| {
                for f in &c.leaves {
                    self.leaf(w, f);
                }
            });
            // the slots before the embedded basket are null pointers; ROOT stores them when
            // the basket is not in the first slot, unless the array has been compacted
            let slots = if l.null_slots { nb } else { 0 };
            w.objarray(if p.embed.is_some() { slots + 1 } else { 0 }, |w| {
                if let Some(from) = p.embed {
                    for _ in 0..slots {
                        w.nil();
                    }
                    self.embedded(w, c, from, nb);
                }
            });
            let junk = |i: usize, on: bool| if on { (i as i64 + 7) * 1000 } else { 0 };
            w.u8(1);
            for i in 0..cap {
                // beyond the last basket ROOT leaves zeros; the flushed ones carry their size
                w.i32(p.baskets.get(i).map(|b| b.nbytes).unwrap_or(0));
            }
            w.u8(1);
            for i in 0..cap {
                let v = match p.baskets.get(i) {
                    Some(b) => b.from as i64,
                    None if i == nb => p.embed.map(|e| e as i64).unwrap_or(n),
                    None => junk(i, l.dirty_spare),
                };
                if old {
                    w.i32(v as i32);
                } else {
                    w.i64(v);
                }
            }
            let wide = old && (l.old_wide || p.baskets.iter().any(|b| b.seek > i32::MAX as i64));
            w.u8(if wide { 2 } else { 1 });
            for i in 0..cap {
                let v = p.baskets.get(i).map(|b| b.seek).unwrap_or(junk(i, l.dirty_spare && i > nb));
                if old && !wide {
                    w.i32(v as i32);
                } else {
                    w.i64(v);
                }
            }
            w.tstr("");
        })
    }
    fn embedded(&mut self, w: &mut W, c: &ColS, from: usize, _nb: usize) {
        let wide = self.r.chance(1, 3);
        let k = KeyS { class: "TBasket".into(), name: c.name.clone(), title: self.tree.name.clone(), cycle: 1, wide };
        let keylen = k.len(19);
        let (d, offs) = basket_body(c, from, c.entries.len(), keylen);
        let last = keylen + d.len();
        w.any("TBasket", |w| {
            // not on file: no position of its own
            k.put(w, keylen, d.len(), keylen, 0, 100);
            w.u16(3);
            w.i32(32000.max(last as i32));
            w.i32(c.nevsize);
            w.i32(offs.len() as i32);
            w.i32(last as i32);
            if c.table {
                w.u8(11);
                w.i32(offs.len() as i32);
                for o in &offs {
                    w.i32(*o);
                }
            } else {
                w.u8(12);
            }
            // the buffer begins with room for the key
            w.b.extend(std::iter::repeat(0u8).take(keylen));
            w.b.extend_from_slice(&d);
        });
    }
    fn info(&mut self, w: &mut W, i: &InfoM) {
        match i {
            InfoM::Str(s) => {
                w.any("TObjString", |w| {
                    w.obj(1, |w| {
                        w.tobject();
                        w.tstr(s);
                    })
                });
            }
            InfoM::List(n, v) => {
                w.any("TList", |w| {
                    w.obj(5, |w| {
                        w.tobject();
                        w.tstr(n);
                        w.i32(v.len() as i32);
                        for x in v {
                            self.info(w, x);
                            w.tstr("");
                        }
                    })
                });
            }
            InfoM::Map(n, v) => {
                w.any("TMap", |w| {
                    w.obj(3, |w| {
                        w.tobject();
                        w.tstr(n);
                        w.i32(v.len() as i32);
                        for (k, x) in v {
                            self.info(w, k);
                            self.info(w, x);
                        }
                    })
                });
            }
        }
    }
}

fn tree_payload(t: &TreeS, plans: &[Plan], l: &Layout, keylen: usize, seed: u64) -> Vec<u8> {
    if let Some((_, b)) = &t.other {
        return b.clone();
    }
    let mut w = W { off: keylen, refs: l.refs, ..Default::default() };
    let mut tw = TreeW { l, r: Rng::new(seed), leaf_ids: HashMap::new(), leaf_order: vec![], tree: t };
    // trees of version 5 have no user info
    let v = if l.tree_ver == 5 && t.info.is_some() { 16 } else { l.tree_ver };
    w.obj(v, |w| {
        w.tnamed(&t.name, &t.title);
        w.obj(2, |w| (0..3).for_each(|_| w.u16(1)));
        w.obj(2, |w| (0..2).for_each(|_| w.u16(1)));
        w.obj(2, |w| (0..4).for_each(|_| w.u16(1)));
        let old = v == 5;
        if old {
            w.f64(t.entries as f64);
            for _ in 0..3 {
                w.f64(12345.0);
            }
        } else {
            w.i64(t.entries);
            for _ in 0..3 {
                w.i64(12345);
            }
            if v >= 18 {
                w.i64(0);
            }
            w.f64(1.0);
        }
        w.i32(0);
        w.i32(25);
        w.i32(0);
        if v >= 17 {
            w.i32(1000);
        }
        let ncl = if v >= 19 { tw.r.below(3) as i32 } else { 0 };
        if v >= 19 {
            w.i32(ncl);
        }
        if old {
            for v in [1_000_000_000, 0, 10_000_000, 1_000_000] {
                w.i32(v);
            }
        } else {
            w.i64(1_000_000_000_000);
            for _ in 0..3 {
                w.i64(-300_000_000);
            }
            if v >= 18 {
                w.i64(-30_000_000);
            }
            w.i64(1_000_000);
        }
        if v >= 19 {
            for _ in 0..2 {
                w.u8(1);
                for i in 0..ncl {
                    w.i64(i as i64 * 100 + 99);
                }
            }
        }
        if v >= 20 {
            w.obj(1, |w| w.u8(0));
        }
        w.objarray(t.cols.len(), |w| {
            for (c, p) in t.cols.iter().zip(plans) {
                tw.branch(w, c, p);
            }
        });
        let leaves = tw.leaf_order.clone();
        w.objarray(leaves.len(), |w| {
            for id in leaves {
                w.u32(id);
            }
        });
        if old {
            w.i32(0);
            w.i32(0);
            return;
        }
        w.nil();
        w.i32(0);
        w.i32(0);
        w.nil();
        w.nil();
        match &t.info {
            None => w.nil(),
            Some(i) => tw.info(w, i),
        }
        w.nil();
    });
    w.b
}

/// Bytes of a file with this content and layout.
pub fn build(fs: &FileS, l: &Layout) -> (Vec<u8>, Stats) {
    assert!(l.far == 0);
    let (places, end, st) = build_places(fs, l);
    let mut out = vec![0u8; end];
    for p in &places {
        out[p.pos..p.pos + p.bytes.len()].copy_from_slice(&p.bytes);
    }
    (out, st)
}

/// The same written to a path, with holes where there is nothing.
pub fn write_sparse(path: &std::path::Path, fs: &FileS, l: &Layout) -> std::io::Result<Stats> {
    use std::os::unix::fs::FileExt;
    let (places, end, st) = build_places(fs, l);
    let f = std::fs::File::create(path)?;
    f.set_len(end as u64)?;
    for p in &places {
        f.write_all_at(&p.bytes, p.pos as u64)?;
    }
    Ok(st)
}

fn build_places(fs: &FileS, l: &Layout) -> (Vec<Place>, usize, Stats) {
    let mut r = Rng::new(l.seed);
    let mut st = Stats::default();
    let mut plans: Vec<Vec<Plan>> =
        fs.trees.iter().map(|t| t.cols.iter().map(|c| plan(c, l, &mut r, &mut st)).collect()).collect();

    let begin = l.begin;
    let mut a = Asm { l, r: r.fork(7), st, at: begin, out: vec![], gaps: vec![], begin };

    // first record: the directory of the file; its contents are filled in at the end
    let fname = "synthetic.root";
    let root_key = KeyS { class: "TFile".into(), name: fname.into(), title: "made".into(), cycle: 1, wide: l.wide_keys == 1 };
    let root_keylen = root_key.len(0);
    let mut nm = W::default();
    nm.tstr(fname);
    nm.tstr("made");
    let nbytes_name = root_keylen + nm.b.len();
    // the directory record has room for the wide form
    let dir_len = 60;
    a.at += nbytes_name + dir_len;

    #[derive(Clone)]
    enum Job {
        Basket(usize, Vec<usize>, usize),
        Tree(usize),
        Keys,
        Sinfo,
        Free,
    }
    // jobs: path of a column = indices from the top
    let mut jobs = vec![];
    fn paths(cs: &[ColS], pre: &[usize], out: &mut Vec<Vec<usize>>) {
        for (i, c) in cs.iter().enumerate() {
            let mut p = pre.to_vec();
            p.push(i);
            out.push(p.clone());
            paths(&c.kids, &p, out);
        }
    }
    fn col<'a>(cs: &'a [ColS], p: &[usize]) -> &'a ColS {
        if p.len() == 1 {
            &cs[p[0]]
        } else {
            col(&cs[p[0]].kids, &p[1..])
        }
    }
    fn pl<'a>(ps: &'a mut [Plan], p: &[usize]) -> &'a mut Plan {
        if p.len() == 1 {
            &mut ps[p[0]]
        } else {
            pl(&mut ps[p[0]].kids, &p[1..])
        }
    }
    for (ti, t) in fs.trees.iter().enumerate() {
        let mut v = vec![];
        paths(&t.cols, &[], &mut v);
        for p in v {
            let n = pl(&mut plans[ti], &p).baskets.len();
            for b in 0..n {
                jobs.push(Job::Basket(ti, p.clone(), b));
            }
        }
        jobs.push(Job::Tree(ti));
    }
    jobs.push(Job::Sinfo);
    jobs.push(Job::Keys);
    let free_inside = l.free_inside && l.far == 0;
    if free_inside {
        let k = r.fork(11).below(jobs.len() as u64 + 1) as usize;
        jobs.insert(k, Job::Free);
    }
    if l.shuffle {
        let mut sr = r.fork(9);
        for i in (1..jobs.len()).rev() {
            jobs.swap(i, sr.below(i as u64 + 1) as usize);
        }
    }

    // trees and the key list are only known once all baskets have their place: what is placed
    // before that reserves room, filled in afterwards
    struct Reserved {
        pos: usize,
        room: usize,
        keylen: usize,
        key: KeyS,
        ti: Option<usize>,
        seed: u64,
    }
    let mut reserved: Vec<Reserved> = vec![];
    let (mut seek_info, mut nbytes_info) = (0i64, 0i32);
    let free_key = KeyS { class: "TFile".into(), name: fname.into(), title: "made".into(), cycle: 1, wide: false };
    // (position, room) for as many gaps as there may be
    let mut free_place: Option<(usize, usize)> = None;
    let max_gaps = 4 * jobs.len() + 16;
    for j in &jobs {
        match j {
            Job::Basket(ti, p, b) => {
                let t = &fs.trees[*ti];
                let c = col(&t.cols, p);
                let bk = pl(&mut plans[*ti], p).baskets[*b].clone();
                if bk.to == bk.from {
                    continue;
                }
                let (s, n) = a.basket(c, t, bk.from, bk.to, (*b as i16).wrapping_add(1));
                let q = &mut pl(&mut plans[*ti], p).baskets[*b];
                q.seek = s;
                q.nbytes = n;
            }
            Job::Tree(ti) => {
                let t = &fs.trees[*ti];
                let wide = a.wide();
                let key = KeyS { class: t.class(), name: t.name.clone(), title: t.title.clone(), cycle: t.cycle, wide };
                let keylen = key.len(0);
                let seed = a.r.next();
                let room = keylen + tree_payload(t, &plans[*ti], l, keylen, seed).len();
                reserved.push(Reserved { pos: a.at, room, keylen, key, ti: Some(*ti), seed });
                a.at += room;
            }
            Job::Keys => {
                let key = KeyS { class: "TFile".into(), name: fname.into(), title: "made".into(), cycle: 1, wide: a.wide() };
                let keylen = key.len(0);
                // every key of the list, in its widest form
                let mut room = keylen + 4;
                for t in &fs.trees {
                    room += KeyS { class: t.class(), name: t.name.clone(), title: t.title.clone(), cycle: 1, wide: true }.len(0);
                }
                reserved.push(Reserved { pos: a.at, room, keylen, key, ti: None, seed: 0 });
                a.at += room;
            }
            Job::Free => {
                let room = free_key.len(0) + max_gaps * 10;
                free_place = Some((a.at, room));
                a.at += room;
            }
            Job::Sinfo => {
                let key = KeyS { class: "TList".into(), name: "StreamerInfo".into(), title: fs.sinfo_title.clone(), cycle: 1, wide: false };
                let keylen = key.len(0);
                // the references in the payload count from the start of a key of 32 bits
                let wide = a.wide();
                let (key, keylen) = if a.at > 2_000_000_000 && wide && fs.sinfo_keylen == 0 {
                    let k = KeyS { wide: true, ..key };
                    let n = k.len(0);
                    (k, n)
                } else {
                    (key, keylen)
                };
                assert!(fs.sinfo_keylen == 0 || fs.sinfo_keylen == keylen, "harness: streamer key {} {keylen}", fs.sinfo_keylen);
                (seek_info, nbytes_info) = a.record(&key, keylen, &[], &fs.sinfo);
            }
        }
    }
    let mut keyrecs: Vec<(usize, Vec<u8>)> = vec![];
    let mut tail_gaps = vec![];
    let (mut seek_keys, mut nbytes_keys) = (0usize, 0usize);
    for res in reserved.iter().filter(|r| r.ti.is_some()) {
        let ti = res.ti.unwrap();
        let t = &fs.trees[ti];
        let payload = tree_payload(t, &plans[ti], l, res.keylen, res.seed);
        assert_eq!(payload.len() + res.keylen, res.room, "harness: tree record size");
        let packed = a.packed(&payload).filter(|p| p.len() + 4 <= payload.len());
        let body = packed.as_deref().unwrap_or(&payload);
        let mut w = W::default();
        res.key.put(&mut w, res.keylen + body.len(), payload.len(), res.keylen, res.pos as i64, begin as i64);
        // the entry in the key list is the same key
        keyrecs.push((ti, w.b.clone()));
        w.b.extend_from_slice(body);
        let n = w.b.len();
        a.out.push(Place { pos: res.pos, bytes: w.b });
        a.st.records += 1;
        if n < res.room {
            tail_gaps.push((res.pos + n, res.room - n));
        }
    }
    keyrecs.sort_by_key(|k| k.0);
    if l.keys_shuffled {
        // the newest cycle of a name first, as ROOT lists them
        keyrecs.reverse();
    }
    {
        let res = reserved.iter().find(|r| r.ti.is_none()).unwrap();
        let mut payload = (keyrecs.len() as i32).to_be_bytes().to_vec();
        for k in &keyrecs {
            payload.extend_from_slice(&k.1);
        }
        let mut room = res.room - res.keylen - payload.len();
        if room > 0 && room < 4 {
            panic!("harness: key list room");
        }
        let mut w = W::default();
        res.key.put(&mut w, res.keylen + payload.len(), payload.len(), res.keylen, res.pos as i64, begin as i64);
        w.b.extend_from_slice(&payload);
        seek_keys = res.pos.max(seek_keys);
        nbytes_keys = w.b.len().max(nbytes_keys);
        if room > 0 {
            tail_gaps.push((res.pos + w.b.len(), room));
            room = 0;
        }
        let _ = room;
        a.st.records += 1;
        a.out.push(Place { pos: res.pos, bytes: w.b });
    }
    // the record of the free segments counts itself
    if let Some((pos, room)) = free_place {
        let mut n = a.gaps.len() + tail_gaps.len() + 1;
        if n + 2 < max_gaps {
            n += 1;
            let used = free_key.len(0) + n * 10;
            tail_gaps.push((pos + used, room - used));
        } else {
            assert!(n == max_gaps, "harness: {n} free segments, room for {max_gaps}");
        }
    }
    for (p, n) in tail_gaps {
        let mut b = vec![0xEEu8; n];
        b[..4].copy_from_slice(&(-(n as i32)).to_be_bytes());
        a.gaps.push((p, n));
        a.st.gaps += 1;
        a.out.push(Place { pos: p, bytes: b });
    }

    // free segments: last record
    a.gaps.sort();
    let key = free_key;
    let keylen = key.len(0);
    let nfree = a.gaps.len() + 1;
    let seek_free = free_place.map_or(a.at, |p| p.0);
    let wide = a.at > 1_990_000_000 && free_place.is_none();
    let (wide_header, wide_dir) = (l.wide_header || wide, l.wide_dir || wide);
    let key = KeyS { wide, ..key };
    let keylen = if wide { key.len(0) } else { keylen };
    let fsz = if wide { 18 } else { 10 };
    let nbytes_free = keylen + nfree * fsz;
    let end = if free_place.is_some() { a.at } else { seek_free + nbytes_free };
    assert!(free_place.is_none() || !wide);
    let mut w = W::default();
    key.put(&mut w, nbytes_free, nfree * fsz, keylen, seek_free as i64, begin as i64);
    for (p, n) in &a.gaps {
        w.u16(if wide { 1001 } else { 1 });
        w.seek(*p as i64, wide);
        w.seek((*p + *n - 1) as i64, wide);
    }
    w.u16(if wide { 1001 } else { 1 });
    w.seek(end as i64, wide);
    w.seek(if wide { end as i64 + 1_000_000_000 } else { 2_000_000_000 }, wide);
    a.out.push(Place { pos: seek_free, bytes: w.b });
    a.st.records += 1;

    // the file's own record
    let mut w = W::default();
    root_key.put(&mut w, nbytes_name + dir_len, nm.b.len() + dir_len, root_keylen, begin as i64, 0);
    w.b.extend_from_slice(&nm.b);
    w.u16(if wide_dir { 1005 } else { 5 });
    w.u32(1_700_000_000);
    w.u32(1_700_000_001);
    w.i32(nbytes_keys as i32);
    w.i32(nbytes_name as i32);
    w.seek(begin as i64, wide_dir);
    w.seek(0, wide_dir);
    w.seek(seek_keys as i64, wide_dir);
    w.u16(1);
    for i in 0..16 {
        w.u8(i);
    }
    w.b.resize(nbytes_name + dir_len, 0);
    a.out.push(Place { pos: begin, bytes: w.b });
    a.st.records += 1;

    let mut w = W::default();
    w.b.extend_from_slice(b"root");
    w.i32(62406 + if wide_header { 1_000_000 } else { 0 });
    w.i32(begin as i32);
    w.seek(end as i64, wide_header);
    w.seek(seek_free as i64, wide_header);
    w.i32(nbytes_free as i32);
    w.i32(nfree as i32);
    w.i32(nbytes_name as i32);
    w.u8(if wide_header { 8 } else { 4 });
    w.i32(*r.pick(&[0, 1, 101, 207, 404]));
    w.seek(seek_info, wide_header);
    w.i32(nbytes_info);
    w.u16(1);
    for i in 0..16 {
        w.u8(i);
    }
    a.out.push(Place { pos: 0, bytes: w.b });
    (a.out, end, a.st)
}

// ---------------------------------------------------------------- columns from values

/// payload of a streamer record without streamers
pub fn empty_sinfo() -> Vec<u8> {
    let mut w = W::default();
    w.obj(5, |w| {
        w.tobject();
        w.tstr("");
        w.i32(0);
    });
    w.b
}

fn leaf_class(p: crate::cols::P) -> (&'static str, bool) {
    use crate::cols::P::*;
    match p {
        I8 => ("TLeafB", false),
        U8 => ("TLeafB", true),
        I16 => ("TLeafS", false),
        U16 => ("TLeafS", true),
        I32 => ("TLeafI", false),
        U32 => ("TLeafI", true),
        I64 => ("TLeafL", false),
        U64 => ("TLeafL", true),
        F32 => ("TLeafF", false),
        F64 => ("TLeafD", false),
        Bool => ("TLeafO", false),
    }
}

/// type code of a scalar member (EReadWrite)
fn rw_code(p: crate::cols::P) -> i32 {
    use crate::cols::P::*;
    match p {
        I8 => 1,
        U8 => 11,
        I16 => 2,
        U16 => 12,
        I32 => 3,
        U32 => 13,
        I64 => 4,
        U64 => 14,
        F32 => 5,
        F64 => 8,
        Bool => 18,
    }
}

/// A column of a type as ROOT writes it. Slices need a column `count_name` before them.
/// `member`: stored as member of a class (TBranchElement) where that is possible.
pub fn col_of(name: &str, t: &Ct, vs: &[V], member: bool, class_name: Option<String>, r: &mut Rng) -> ColS {
    let leaf = |class: &str, title: String| LeafS {
        class: class.into(),
        name: name.into(),
        title,
        len: 1,
        ..Default::default()
    };
    let mut c = ColS { name: name.into(), title: name.into(), ..Default::default() };
    let mut elem = ElemS { class_name: String::new(), stype: -1, id: -1, clsver: 6, checksum: 0, ..Default::default() };
    match t {
        Ct::Pr(p) | Ct::Arr(p, _) | Ct::Sl(p) => {
            let title = match t {
                Ct::Arr(_, n) => format!("{name}[{n}]"),
                Ct::Sl(_) => format!("{name}[n_{name}]"),
                _ => name.to_string(),
            };
            // there is no boolean code in the table of the reader
            let member = member && *p != crate::cols::P::Bool;
            let (lc, uns) = leaf_class(*p);
            let mut l = leaf(if member { "TLeafElement" } else { lc }, title.clone());
            l.etype = p.size() as i32;
            l.unsigned = uns;
            if let Ct::Arr(_, n) = t {
                l.len = *n as i32;
            }
            if let Ct::Sl(_) = t {
                l.count = Some(format!("n_{name}"));
                c.table = true;
                c.nevsize = 1000;
            } else {
                c.nevsize = (p.size() as i32) * l.len;
            }
            c.title = format!("{title}/{}", "X");
            if member {
                let base = rw_code(*p);
                let code = match t {
                    Ct::Arr(..) => base + 20,
                    Ct::Sl(_) => base + 40,
                    _ => base,
                };
                l.id = 0;
                l.ltype = code;
                elem.class_name = "NotDescribed".into();
                elem.stype = code;
                elem.id = 0;
                c.elem = Some(elem);
            }
            c.leaves = vec![l];
            c.entries = vs.iter().map(|v| val::encode(t, v, c.elem.is_some(), r)).collect();
        }
        Ct::S(Sk::Chars) => {
            let mut l = leaf("TLeafC", name.to_string());
            l.etype = 1;
            l.len = 10;
            c.leaves = vec![l];
            c.table = true;
            c.nevsize = 1000;
            c.entries = vs.iter().map(|v| val::encode(t, v, false, r)).collect();
        }
        _ => {
            let mut l = leaf("TLeafElement", name.to_string());
            l.id = -1;
            l.ltype = -1;
            elem.class_name = class_name.unwrap_or_else(|| t.spell(r, false));
            if let Ct::S(Sk::TString) = t {
                // a member of type TString
                elem.stype = 65;
                elem.id = 0;
                l.ltype = 65;
                l.id = 0;
            }
            if member && matches!(t, Ct::Vc(_) | Ct::Set(_)) {
                // a member which is a collection
                elem.stype = 300;
                elem.id = 0;
                l.ltype = 300;
                l.id = 0;
            }
            c.elem = Some(elem);
            c.leaves = vec![l];
            c.table = true;
            c.nevsize = 1000;
            c.entries = vs.iter().map(|v| val::encode(t, v, true, r)).collect();
        }
    }
    c
}

/// The counter column of a jagged column.
pub fn count_col(name: &str, vs: &[V], r: &mut Rng) -> ColS {
    let ns: Vec<V> = vs.iter().map(|v| if let V::L(l) = v { V::N(l.len() as u64) } else { V::N(0) }).collect();
    col_of(&format!("n_{name}"), &Ct::Pr(crate::cols::P::I32), &ns, false, None, r)
}

// ---------------------------------------------------------------- content of an existing file

fn lift_col(f: &rf::File, b: &rf::BranchM, names: &HashMap<u32, String>) -> rf::R<ColS> {
    let mut c = ColS {
        name: b.name.clone(),
        title: b.title.clone(),
        split: b.split,
        n: b.entries,
        ..Default::default()
    };
    if b.class == "TBranchElement" {
        c.elem = Some(ElemS {
            class_name: b.class_name.clone(),
            parent: b.parent.clone(),
            clones: b.clones.clone(),
            checksum: b.checksum,
            clsver: b.clsver,
            id: b.id,
            btype: b.btype,
            stype: b.stype,
            fmax: b.fmax,
        });
    }
    for l in &b.leaves {
        c.leaves.push(LeafS {
            class: l.class.clone(),
            name: l.name.clone(),
            title: l.title.clone(),
            len: l.len,
            etype: l.etype,
            offset: l.offset,
            range: l.has_range,
            unsigned: l.unsigned,
            count: if l.count { Some(names.get(&l.count_ref).cloned().ok_or("count leaf not found")?) } else { None },
            id: l.id,
            ltype: l.ltype,
            min: l.min,
            max: l.max,
        });
    }
    let mut cut = |data: &[u8], offs: &[usize], nev: usize| -> rf::R<()> {
        if offs.is_empty() {
            if nev == 0 {
                return Ok(());
            }
            if data.len() % nev != 0 {
                return Err(format!("{}: {} bytes for {nev} entries", b.name, data.len()));
            }
            c.entries.extend(data.chunks((data.len() / nev).max(1)).map(|x| x.to_vec()));
        } else {
            for w in offs.windows(2) {
                c.entries.push(data.get(w[0]..w[1]).ok_or("entry outside of the basket")?.to_vec());
            }
        }
        Ok(())
    };
    let mut table = false;
    let mut nevsize = 0;
    for i in 0..b.write_basket as usize {
        if b.basket_bytes[i] == 0 {
            continue;
        }
        let k = rf::basket(f, b.basket_seek[i])?;
        table |= !k.offsets.is_empty();
        nevsize = k.hdr.nevsize;
        cut(&k.data, &k.offsets, k.hdr.nevbuf as usize)?;
    }
    for e in &b.emb {
        table |= !e.offsets.is_empty();
        nevsize = e.nevsize;
        let data = e.buf.get(e.keylen as usize..).ok_or("embedded basket too short")?;
        let mut offs: Vec<usize> = e.offsets.iter().take(e.nev as usize).map(|o| (*o - e.keylen) as usize).collect();
        if !offs.is_empty() {
            offs.push(data.len());
        }
        cut(data, &offs, e.nev as usize)?;
    }
    c.table = table;
    c.nevsize = nevsize;
    for k in &b.children {
        c.kids.push(lift_col(f, k, names)?);
    }
    Ok(c)
}

/// The content of an existing file, as far as the independent decoder understands it.
pub fn lift(f: &rf::File) -> rf::R<FileS> {
    let mut out = FileS::default();
    if f.h.seek_info > 0 {
        let r = f.rec_at(f.h.seek_info).ok_or("no streamer record")?.clone();
        out.sinfo = f.payload(&r)?;
        out.sinfo_keylen = r.keylen as usize;
        out.sinfo_title = r.title.clone();
    } else {
        out.sinfo = empty_sinfo();
    }
    for k in &f.keys {
        if k.class != "TTree" {
            return Err(format!("object of class {}", k.class));
        }
        let t = f.tree(k)?;
        let mut names = HashMap::new();
        for b in t.all() {
            for l in &b.leaves {
                names.insert(l.tag_pos, l.name.clone());
            }
        }
        let mut ts = TreeS {
            name: t.name.clone(),
            title: t.title.clone(),
            info: t.info.clone(),
            cycle: k.cycle,
            entries: t.entries,
            ..Default::default()
        };
        for b in &t.branches {
            ts.cols.push(lift_col(f, b, &names)?);
        }
        out.trees.push(ts);
    }
    Ok(out)
}
