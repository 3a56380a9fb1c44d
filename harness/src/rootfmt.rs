//! Independent reader of the ROOT container format (no code shared with oxyroot).
//!
//! It parses a file into records, directory, key list, streamer list and trees, and
//! keeps the exact byte position of everything it meets, so that other modules can
//! check the structure (C05), decode columns (C05) or re-encode files (C08, C09).
#![allow(dead_code)]
use crate::cols::*;
use std::collections::HashMap;
use std::io::Read;

pub type R<T> = Result<T, String>;

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8], p: usize) -> Self {
        Cur { d, p }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.p + n > self.d.len() {
            return Err(format!("read of {n} bytes at {} past the end {}", self.p, self.d.len()));
        }
        let s = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn i16(&mut self) -> R<i16> {
        Ok(self.u16()? as i16)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> R<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.u64()? as i64)
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_bits(self.u64()?))
    }
    pub fn seek(&mut self, wide: bool) -> R<i64> {
        if wide {
            self.i64()
        } else {
            Ok(self.i32()? as i64)
        }
    }
    pub fn tstr_bytes(&mut self) -> R<Vec<u8>> {
        let n = self.u8()? as usize;
        let n = if n == 255 { self.u32()? as usize } else { n };
        Ok(self.take(n)?.to_vec())
    }
    pub fn tstr(&mut self) -> R<String> {
        String::from_utf8(self.tstr_bytes()?).map_err(|_| format!("string before {} is not UTF-8", self.p))
    }
    pub fn cstr(&mut self) -> R<String> {
        let s = self.p;
        while self.u8()? != 0 {}
        Ok(String::from_utf8_lossy(&self.d[s..self.p - 1]).into_owned())
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec {
    pub pos: usize,
    pub nbytes: i32,
    pub ver: i16,
    pub objlen: i32,
    pub datime: u32,
    pub keylen: i32,
    pub cycle: i16,
    pub seek_key: i64,
    pub seek_pdir: i64,
    pub class: String,
    pub name: String,
    pub title: String,
    /// length of the fields parsed (a basket has more of them in its key)
    pub hdr_len: usize,
}

impl Rec {
    pub fn parse(d: &[u8], p: usize) -> R<Rec> {
        let mut c = Cur::new(d, p);
        let nbytes = c.i32()?;
        if nbytes <= 0 {
            return Err(format!("record at {p} has {nbytes} bytes"));
        }
        let ver = c.i16()?;
        let objlen = c.i32()?;
        let datime = c.u32()?;
        let keylen = c.i16()? as i32;
        let cycle = c.i16()?;
        let wide = ver > 1000;
        let seek_key = c.seek(wide)?;
        let seek_pdir = c.seek(wide)?;
        let class = c.tstr()?;
        let name = c.tstr()?;
        let title = c.tstr()?;
        Ok(Rec {
            pos: p,
            nbytes,
            ver,
            objlen,
            datime,
            keylen,
            cycle,
            seek_key,
            seek_pdir,
            class,
            name,
            title,
            hdr_len: c.p - p,
        })
    }
    pub fn is_compressed(&self) -> bool {
        self.objlen != self.nbytes - self.keylen
    }
}

pub fn inflate(block: &[u8], objlen: usize) -> R<Vec<u8>> {
    let mut out = Vec::with_capacity(objlen);
    let mut p = 0;
    while out.len() < objlen {
        if p + 9 > block.len() {
            return Err("compressed payload too short".into());
        }
        let h = &block[p..p + 9];
        let src = h[3] as usize | (h[4] as usize) << 8 | (h[5] as usize) << 16;
        let dst = h[6] as usize | (h[7] as usize) << 8 | (h[8] as usize) << 16;
        p += 9;
        let b = block.get(p..p + src).ok_or("compressed block too long")?;
        p += src;
        let mut v = vec![0u8; dst];
        match &h[..2] {
            b"ZL" => flate2::read::ZlibDecoder::new(b).read_exact(&mut v).map_err(|e| e.to_string())?,
            b"XZ" => xz2::read::XzDecoder::new(b).read_exact(&mut v).map_err(|e| e.to_string())?,
            b"L4" => {
                v = lz4::block::decompress(&b[8..], Some(dst as i32)).map_err(|e| e.to_string())?;
            }
            o => return Err(format!("unknown compression {o:?}")),
        }
        out.extend_from_slice(&v);
    }
    Ok(out)
}

#[derive(Clone, Debug, Default)]
pub struct Header {
    pub version: i32,
    pub wide: bool,
    pub begin: i64,
    pub end: i64,
    pub seek_free: i64,
    pub nbytes_free: i32,
    pub nfree: i32,
    pub nbytes_name: i32,
    pub units: u8,
    pub compress: i32,
    pub seek_info: i64,
    pub nbytes_info: i32,
    pub len: usize,
    /// its version, then its bytes
    pub uuid: [u8; 18],
}

#[derive(Clone, Debug, Default)]
pub struct DirRec {
    pub pos: usize,
    pub ver: i16,
    pub nbytes_keys: i32,
    pub nbytes_name: i32,
    pub seek_dir: i64,
    pub seek_parent: i64,
    pub seek_keys: i64,
    pub len: usize,
    pub uuid: [u8; 18],
}

impl DirRec {
    pub fn parse(d: &[u8], p: usize) -> R<DirRec> {
        let mut c = Cur::new(d, p);
        let ver = c.i16()?;
        c.u32()?;
        c.u32()?;
        let nbytes_keys = c.i32()?;
        let nbytes_name = c.i32()?;
        let wide = ver > 1000;
        let seek_dir = c.seek(wide)?;
        let seek_parent = c.seek(wide)?;
        let seek_keys = c.seek(wide)?;
        let uuid = c.take(18)?.try_into().unwrap();
        Ok(DirRec { uuid, pos: p, ver, nbytes_keys, nbytes_name, seek_dir, seek_parent, seek_keys, len: c.p - p })
    }
}

pub fn parse_header(d: &[u8]) -> R<Header> {
    let mut c = Cur::new(d, 0);
    if c.take(4)? != b"root" {
        return Err("no magic".into());
    }
    let v = c.i32()?;
    let wide = v >= 1000000;
    let begin = c.i32()? as i64;
    let end = c.seek(wide)?;
    let seek_free = c.seek(wide)?;
    let nbytes_free = c.i32()?;
    let nfree = c.i32()?;
    let nbytes_name = c.i32()?;
    let units = c.u8()?;
    let compress = c.i32()?;
    let seek_info = c.seek(wide)?;
    let nbytes_info = c.i32()?;
    let uuid = c.take(18)?.try_into().unwrap();
    Ok(Header {
        uuid,
        version: v,
        wide,
        begin,
        end,
        seek_free,
        nbytes_free,
        nfree,
        nbytes_name,
        units,
        compress,
        seek_info,
        nbytes_info,
        len: c.p,
    })
}

pub struct File {
    pub d: Vec<u8>,
    pub h: Header,
    pub recs: Vec<Rec>,
    pub gaps: Vec<(usize, usize)>,
    pub dir: DirRec,
    pub keys: Vec<Rec>,
}

impl File {
    /// Walk all records between `begin` and `end`; they must tile the file.
    pub fn parse(d: Vec<u8>) -> R<File> {
        let h = parse_header(&d)?;
        if h.end as usize > d.len() {
            return Err(format!("header end {} beyond file length {}", h.end, d.len()));
        }
        let mut recs = vec![];
        let mut gaps = vec![];
        let mut p = h.begin as usize;
        while p < h.end as usize {
            let n = Cur::new(&d, p).i32()?;
            if n < 0 {
                gaps.push((p, (-n) as usize));
                p += (-n) as usize;
                continue;
            }
            let r = Rec::parse(&d, p)?;
            p += r.nbytes as usize;
            recs.push(r);
        }
        if p != h.end as usize {
            return Err(format!("records end at {p}, header says {}", h.end));
        }
        let dir = DirRec::parse(&d, h.begin as usize + h.nbytes_name as usize)?;
        let mut f = File { d, h, recs, gaps, dir, keys: vec![] };
        f.keys = f.parse_keys()?;
        Ok(f)
    }
    fn parse_keys(&self) -> R<Vec<Rec>> {
        let kl = Rec::parse(&self.d, self.dir.seek_keys as usize)?;
        let mut c = Cur::new(&self.d, self.dir.seek_keys as usize + kl.keylen as usize);
        let n = c.i32()?;
        let mut v = vec![];
        for _ in 0..n {
            let r = Rec::parse(&self.d, c.p)?;
            c.p += r.hdr_len;
            v.push(r);
        }
        Ok(v)
    }
    pub fn rec_at(&self, pos: i64) -> Option<&Rec> {
        // in the order of the file
        let i = self.recs.partition_point(|r| (r.pos as i64) < pos);
        self.recs.get(i).filter(|r| r.pos as i64 == pos)
    }
    pub fn payload(&self, r: &Rec) -> R<Vec<u8>> {
        let b = self
            .d
            .get(r.pos + r.keylen as usize..r.pos + r.nbytes as usize)
            .ok_or("record outside the file")?;
        if r.is_compressed() {
            inflate(b, r.objlen as usize)
        } else {
            Ok(b.to_vec())
        }
    }
    pub fn tree(&self, key: &Rec) -> R<TreeM> {
        let pl = self.payload(&Rec { pos: key.seek_key as usize, ..key.clone() })?;
        TreeM::parse(&pl, key.keylen as usize)
    }
    pub fn tree_named(&self, name: &str) -> R<TreeM> {
        let k = self
            .keys
            .iter()
            .filter(|k| k.name == name)
            .max_by_key(|k| k.cycle)
            .ok_or_else(|| format!("no key {name}"))?;
        self.tree(k)
    }
}

/// Basket fields following the key.
#[derive(Clone, Debug, Default)]
pub struct BasketHdr {
    pub key: Rec,
    pub ver: i16,
    pub bufsize: i32,
    pub nevsize: i32,
    pub nevbuf: i32,
    pub last: i32,
    pub flag: u8,
}

impl BasketHdr {
    pub fn parse(d: &[u8], pos: usize) -> R<BasketHdr> {
        let key = Rec::parse(d, pos)?;
        let mut c = Cur::new(d, pos + key.hdr_len);
        let ver = c.i16()?;
        let bufsize = c.i32()?;
        let nevsize = c.i32()?;
        let nevbuf = c.i32()?;
        let last = c.i32()?;
        let flag = c.u8()?;
        Ok(BasketHdr { key, ver, bufsize, nevsize, nevbuf, last, flag })
    }
}

pub const KBC: u32 = 0x4000_0000;
pub const KNEW: u32 = 0xFFFF_FFFF;
pub const KCLASS: u32 = 0x8000_0000;

#[derive(Clone, Debug, Default)]
pub struct LeafM {
    pub class: String,
    pub name: String,
    pub title: String,
    pub len: i32,
    pub etype: i32,
    pub offset: i32,
    pub has_range: bool,
    pub unsigned: bool,
    pub count: bool,
    /// position of the object referred to as the leaf with the count
    pub count_ref: u32,
    pub tag_pos: u32,
    pub id: i32,
    pub ltype: i32,
    pub min: i64,
    pub max: i64,
}

#[derive(Clone, Debug, Default)]
pub struct BranchM {
    /// a version before 10: 32 bits tables
    pub old: bool,
    pub class: String,
    pub name: String,
    pub title: String,
    pub compress: i32,
    pub basket_size: i32,
    pub entry_offset_len: i32,
    pub write_basket: i32,
    pub entry_number: i64,
    pub offset: i32,
    pub max_baskets: i32,
    pub split: i32,
    pub entries: i64,
    pub first_entry: i64,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub children: Vec<BranchM>,
    pub leaves: Vec<LeafM>,
    pub embedded: usize,
    pub emb: Vec<EmbM>,
    pub basket_bytes: Vec<i32>,
    pub basket_entry: Vec<i64>,
    pub basket_seek: Vec<i64>,
    /// positions of the three tables in the (uncompressed) payload
    pub pos_bytes: usize,
    pub pos_entry: usize,
    pub pos_seek: usize,
    pub fname: String,
    pub class_name: String,
    pub parent: String,
    pub clones: String,
    pub checksum: u32,
    pub clsver: u16,
    pub id: i32,
    pub btype: i32,
    pub stype: i32,
    pub fmax: i32,
}

/// A basket stored within the tree record.
#[derive(Clone, Debug, Default)]
pub struct EmbM {
    pub keylen: i32,
    pub nev: i32,
    pub nevsize: i32,
    pub last: i32,
    pub flag: u8,
    pub offsets: Vec<i32>,
    /// the buffer, which begins with room for the key
    pub buf: Vec<u8>,
}

/// Objects attached to a tree.
#[derive(Clone, Debug, PartialEq)]
pub enum InfoM {
    Str(String),
    List(String, Vec<InfoM>),
    Map(String, Vec<(InfoM, InfoM)>),
}

#[derive(Clone, Debug, Default)]
pub struct TreeM {
    pub ver: i16,
    pub name: String,
    pub title: String,
    pub entries: i64,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub saved_bytes: i64,
    pub weight: f64,
    pub max_entries: i64,
    pub max_entry_loop: i64,
    pub branches: Vec<BranchM>,
    pub nleaves: usize,
    /// leaves of the tree's own list: either re-serialised objects or references
    pub leaf_refs: Vec<Option<u32>>,
    pub classes: Vec<String>,
    pub user_info: bool,
    pub info: Option<InfoM>,
    pub consumed: usize,
}

enum Obj {
    Nil,
    Ref(u32),
    Branch(BranchM),
    Leaf(LeafM),
    Info(InfoM),
    Basket(EmbM),
}

/// Parser of a streamed object tree with class/object references.
struct P<'a> {
    c: Cur<'a>,
    /// key length: references count from the start of the key
    off: usize,
    classes: HashMap<u32, String>,
    objects: HashMap<u32, String>,
    order: Vec<String>,
}

impl<'a> P<'a> {
    /// (version, end) where end is known only if a byte count is present
    fn header(&mut self, what: &str) -> R<(i16, Option<usize>)> {
        let at = self.c.p;
        let bc = self.c.u32()?;
        if bc & KBC != 0 && bc != KNEW {
            let end = at + 4 + (bc & !KBC) as usize;
            if end > self.c.d.len() {
                return Err(format!("{what} at {at}: byte count leads to {end} > {}", self.c.d.len()));
            }
            let v = self.c.i16()?;
            Ok((v, Some(end)))
        } else {
            self.c.p = at;
            Ok((self.c.i16()?, None))
        }
    }
    fn close(&mut self, what: &str, end: Option<usize>) -> R<()> {
        if let Some(e) = end {
            if e != self.c.p {
                return Err(format!("{what}: byte count ends at {e}, content at {}", self.c.p));
            }
        }
        Ok(())
    }
    fn tobject(&mut self) -> R<()> {
        let v = self.c.i16()?;
        if v as u16 as u32 & 0x4000 != 0 {
            self.c.take(4)?;
        }
        self.c.u32()?;
        let bits = self.c.u32()?;
        if bits & (1 << 4) != 0 {
            self.c.u16()?;
        }
        Ok(())
    }
    fn tnamed(&mut self) -> R<(String, String)> {
        let (_, e) = self.header("TNamed")?;
        self.tobject()?;
        let n = self.c.tstr()?;
        let t = self.c.tstr()?;
        self.close("TNamed", e)?;
        Ok((n, t))
    }
    fn skip_att(&mut self, what: &str, size: usize) -> R<()> {
        let (_, e) = self.header(what)?;
        self.c.take(size)?;
        self.close(what, e)
    }
    fn iofeatures(&mut self) -> R<()> {
        let (_, e) = self.header("TIOFeatures")?;
        let b = self.c.u8()?;
        if b != 0 {
            self.c.take(4)?;
        }
        self.close("TIOFeatures", e)
    }
    fn objarray(&mut self) -> R<Vec<Obj>> {
        let (v, e) = self.header("TObjArray")?;
        if v > 2 {
            self.tobject()?;
        }
        if v > 1 {
            self.c.tstr()?;
        }
        let n = self.c.i32()?;
        self.c.i32()?;
        let mut out = vec![];
        for _ in 0..n {
            out.push(self.object_any()?);
        }
        self.close("TObjArray", e)?;
        Ok(out)
    }
    fn object_any(&mut self) -> R<Obj> {
        let beg = self.c.p;
        let w = self.c.u32()?;
        let (bc, tag, tagpos);
        if w & KBC == 0 || w == KNEW {
            bc = None;
            tag = w;
            tagpos = beg;
        } else {
            bc = Some(beg + 4 + (w & !KBC) as usize);
            tagpos = self.c.p;
            tag = self.c.u32()?;
        }
        if tag & KCLASS == 0 {
            if tag == 0 {
                return Ok(Obj::Nil);
            }
            if let Some(e) = bc {
                if e != self.c.p {
                    return Err(format!("reference at {beg}: byte count ends at {e}, content at {}", self.c.p));
                }
            }
            if !self.objects.contains_key(&tag) {
                return Err(format!("reference at {beg} to object {tag}, which does not exist"));
            }
            return Ok(Obj::Ref(tag));
        }
        let class = if tag == KNEW {
            let n = self.c.cstr()?;
            let id = (tagpos + self.off + 2) as u32;
            self.classes.insert(id, n.clone());
            self.order.push(n.clone());
            n
        } else {
            let id = tag & !KCLASS;
            self.classes
                .get(&id)
                .cloned()
                .ok_or_else(|| format!("reference at {beg} to class {id}, which does not exist"))?
        };
        let objid = (beg + self.off + 2) as u32;
        self.objects.insert(objid, class.clone());
        let o = match class.as_str() {
            "TBranch" => Obj::Branch(self.tbranch()?),
            "TBranchElement" => Obj::Branch(self.tbranchelement()?),
            c if c.starts_with("TLeaf") => {
                let mut l = self.leaf(c)?;
                l.tag_pos = objid;
                Obj::Leaf(l)
            }
            "TList" => {
                let (_, e) = self.header("TList")?;
                self.tobject()?;
                let name = self.c.tstr()?;
                let n = self.c.i32()?;
                let mut v = vec![];
                for _ in 0..n {
                    match self.object_any()? {
                        Obj::Info(i) => v.push(i),
                        _ => return Err("unexpected object in a TList".into()),
                    }
                    self.c.tstr()?;
                }
                self.close("TList", e)?;
                Obj::Info(InfoM::List(name, v))
            }
            "TMap" => {
                let (_, e) = self.header("TMap")?;
                self.tobject()?;
                let name = self.c.tstr()?;
                let n = self.c.i32()?;
                let mut v = vec![];
                for _ in 0..n {
                    match (self.object_any()?, self.object_any()?) {
                        (Obj::Info(k), Obj::Info(x)) => v.push((k, x)),
                        _ => return Err("unexpected object in a TMap".into()),
                    }
                }
                self.close("TMap", e)?;
                Obj::Info(InfoM::Map(name, v))
            }
            "TObjString" => {
                let (_, e) = self.header("TObjString")?;
                self.tobject()?;
                let s = self.c.tstr()?;
                self.close("TObjString", e)?;
                Obj::Info(InfoM::Str(s))
            }
            "TBasket" => Obj::Basket(self.tbasket()?),
            o => return Err(format!("class {o} at {beg} not handled")),
        };
        if let Some(e) = bc {
            if e != self.c.p {
                return Err(format!("{class} at {beg}: byte count ends at {e}, content at {}", self.c.p));
            }
        }
        Ok(o)
    }
    fn tbasket(&mut self) -> R<EmbM> {
        let mut b = EmbM::default();
        self.c.i32()?;
        let kver = self.c.i16()?;
        self.c.i32()?;
        self.c.u32()?;
        b.keylen = self.c.i16()? as i32;
        self.c.i16()?;
        self.c.seek(kver > 1000)?;
        self.c.seek(kver > 1000)?;
        for _ in 0..3 {
            self.c.tstr()?;
        }
        let v = self.c.i16()?;
        if v < 2 {
            return Err(format!("TBasket version {v} not handled"));
        }
        self.c.i32()?;
        b.nevsize = self.c.i32()?;
        b.nev = self.c.i32()?;
        b.last = self.c.i32()?;
        b.flag = self.c.u8()?;
        if b.flag != 0 && b.flag % 10 != 2 && b.nev > 0 {
            let n = self.c.i32()?;
            for _ in 0..n {
                b.offsets.push(self.c.i32()?);
            }
        }
        if b.flag == 1 || b.flag > 10 {
            b.buf = self.c.take(b.last as usize)?.to_vec();
        }
        Ok(b)
    }
    fn leaf(&mut self, class: &str) -> R<LeafM> {
        let (_, e) = self.header(class)?;
        let (_, e2) = self.header("TLeaf")?;
        let (name, title) = self.tnamed()?;
        let len = self.c.i32()?;
        let etype = self.c.i32()?;
        let offset = self.c.i32()?;
        let has_range = self.c.u8()? != 0;
        let unsigned = self.c.u8()? != 0;
        let count = self.object_any()?;
        let count_ref = match &count {
            Obj::Ref(r) => *r,
            Obj::Leaf(l) => l.tag_pos,
            _ => 0,
        };
        let count = !matches!(count, Obj::Nil);
        self.close("TLeaf", e2)?;
        let mut l = LeafM {
            class: class.into(),
            name,
            title,
            len,
            etype,
            offset,
            has_range,
            unsigned,
            count,
            count_ref,
            ..Default::default()
        };
        let sz = match class {
            "TLeafElement" => {
                l.id = self.c.i32()?;
                l.ltype = self.c.i32()?;
                0
            }
            "TLeafI" | "TLeafF" | "TLeafC" => 4,
            "TLeafS" => 2,
            "TLeafB" | "TLeafO" => 1,
            "TLeafL" | "TLeafD" => 8,
            o => return Err(format!("unknown leaf {o}")),
        };
        let rd = |c: &mut Cur| -> R<i64> {
            Ok(match sz {
                0 => 0,
                1 => c.u8()? as i64,
                2 => c.i16()? as i64,
                4 => c.i32()? as i64,
                _ => c.i64()?,
            })
        };
        l.min = rd(&mut self.c)?;
        l.max = rd(&mut self.c)?;
        self.close(class, e)?;
        Ok(l)
    }
    fn tbranch(&mut self) -> R<BranchM> {
        let (v, e) = self.header("TBranch")?;
        if v < 6 {
            return Err(format!("TBranch version {v} not handled"));
        }
        let old = v < 10;
        let mut b = BranchM { class: "TBranch".into(), old, ..Default::default() };
        (b.name, b.title) = self.tnamed()?;
        if v > 7 {
            self.skip_att("TAttFill", 4)?;
        }
        b.compress = self.c.i32()?;
        b.basket_size = self.c.i32()?;
        b.entry_offset_len = self.c.i32()?;
        b.write_basket = self.c.i32()?;
        b.entry_number = if old { self.c.i32()? as i64 } else { self.c.i64()? };
        if v >= 13 {
            self.iofeatures()?;
        }
        b.offset = self.c.i32()?;
        b.max_baskets = self.c.i32()?;
        if v > 6 {
            b.split = self.c.i32()?;
        }
        if old {
            b.entries = self.c.f64()? as i64;
            b.tot_bytes = self.c.f64()? as i64;
            b.zip_bytes = self.c.f64()? as i64;
        } else {
            b.entries = self.c.i64()?;
            if v >= 11 {
                b.first_entry = self.c.i64()?;
            }
            b.tot_bytes = self.c.i64()?;
            b.zip_bytes = self.c.i64()?;
        }
        for o in self.objarray()? {
            match o {
                Obj::Branch(x) => b.children.push(x),
                _ => return Err("child of a branch which is not a branch".into()),
            }
        }
        for o in self.objarray()? {
            match o {
                Obj::Leaf(x) => b.leaves.push(x),
                Obj::Ref(_) => {}
                _ => return Err("leaf which is not a leaf".into()),
            }
        }
        for o in self.objarray()? {
            if let Obj::Basket(e) = o {
                b.embedded += 1;
                b.emb.push(e);
            }
        }
        if b.max_baskets < 0 || b.write_basket < 0 {
            return Err("negative number of baskets".into());
        }
        self.c.u8()?;
        b.pos_bytes = self.c.p;
        for _ in 0..b.max_baskets {
            b.basket_bytes.push(self.c.i32()?);
        }
        self.c.u8()?;
        b.pos_entry = self.c.p;
        for _ in 0..b.max_baskets {
            b.basket_entry.push(if old { self.c.i32()? as i64 } else { self.c.i64()? });
        }
        let wide = self.c.u8()? == 2 || !old;
        b.pos_seek = self.c.p;
        for _ in 0..b.max_baskets {
            b.basket_seek.push(if wide { self.c.i64()? } else { self.c.i32()? as i64 });
        }
        b.fname = self.c.tstr()?;
        self.close("TBranch", e)?;
        Ok(b)
    }
    fn tbranchelement(&mut self) -> R<BranchM> {
        let (v, e) = self.header("TBranchElement")?;
        let mut b = self.tbranch()?;
        b.class = "TBranchElement".into();
        if v < 8 {
            return Err(format!("TBranchElement version {v} not handled"));
        }
        b.class_name = self.c.tstr()?;
        b.parent = self.c.tstr()?;
        b.clones = self.c.tstr()?;
        b.checksum = self.c.u32()?;
        b.clsver = if v >= 10 { self.c.u16()? } else { self.c.u32()? as u16 };
        b.id = self.c.i32()?;
        b.btype = self.c.i32()?;
        b.stype = self.c.i32()?;
        b.fmax = self.c.i32()?;
        self.object_any()?;
        self.object_any()?;
        self.close("TBranchElement", e)?;
        Ok(b)
    }
    fn ttree(&mut self) -> R<TreeM> {
        let (v, e) = self.header("TTree")?;
        if v < 16 && v != 5 {
            return Err(format!("TTree version {v} not handled"));
        }
        let old = v == 5;
        let mut t = TreeM { ver: v, ..Default::default() };
        (t.name, t.title) = self.tnamed()?;
        self.skip_att("TAttLine", 6)?;
        self.skip_att("TAttFill", 4)?;
        self.skip_att("TAttMarker", 8)?;
        if old {
            t.entries = self.c.f64()? as i64;
            t.tot_bytes = self.c.f64()? as i64;
            t.zip_bytes = self.c.f64()? as i64;
            self.c.f64()?;
            self.c.take(12)?;
        } else {
            t.entries = self.c.i64()?;
            t.tot_bytes = self.c.i64()?;
            t.zip_bytes = self.c.i64()?;
            t.saved_bytes = self.c.i64()?;
            if v >= 18 {
                self.c.i64()?;
            }
            t.weight = self.c.f64()?;
            self.c.take(12)?;
        }
        if v >= 17 {
            self.c.i32()?;
        }
        let nclus = if v >= 19 { self.c.i32()? } else { 0 };
        if old {
            self.c.take(4 * 4)?;
        } else {
            t.max_entries = self.c.i64()?;
            t.max_entry_loop = self.c.i64()?;
            self.c.take(8 * 2)?;
            if v >= 18 {
                self.c.i64()?;
            }
            self.c.i64()?;
        }
        if v >= 19 {
            self.c.u8()?;
            self.c.take(8 * nclus as usize)?;
            self.c.u8()?;
            self.c.take(8 * nclus as usize)?;
        }
        if v >= 20 {
            self.iofeatures()?;
        }
        for o in self.objarray()? {
            match o {
                Obj::Branch(b) => t.branches.push(b),
                _ => return Err("branch which is not a branch".into()),
            }
        }
        for o in self.objarray()? {
            t.nleaves += 1;
            match o {
                Obj::Leaf(_) => t.leaf_refs.push(None),
                Obj::Ref(r) => t.leaf_refs.push(Some(r)),
                _ => return Err("leaf which is not a leaf".into()),
            }
        }
        // aliases, index values, index, tree index, friends, user info, branch ref
        let mut last = vec![];
        for i in 0..7 {
            if old && i != 1 && i != 2 {
                continue;
            }
            if i == 1 || i == 2 {
                let n = self.c.i32()?;
                self.c.take(n as usize * if i == 1 { 8 } else { 4 })?;
            } else {
                let o = self.object_any()?;
                last.push((i, !matches!(o, Obj::Nil)));
                if let (5, Obj::Info(x)) = (i, o) {
                    t.info = Some(x);
                }
            }
        }
        t.user_info = last.iter().any(|(i, b)| *i == 5 && *b);
        self.close("TTree", e)?;
        t.classes = self.order.clone();
        t.consumed = self.c.p;
        Ok(t)
    }
}

impl TreeM {
    pub fn parse(payload: &[u8], keylen: usize) -> R<TreeM> {
        let mut p = P {
            c: Cur::new(payload, 0),
            off: keylen,
            classes: HashMap::new(),
            objects: HashMap::new(),
            order: vec![],
        };
        p.ttree()
    }
    pub fn all(&self) -> Vec<&BranchM> {
        fn rec<'a>(b: &'a BranchM, v: &mut Vec<&'a BranchM>) {
            v.push(b);
            for c in &b.children {
                rec(c, v);
            }
        }
        let mut v = vec![];
        for b in &self.branches {
            rec(b, &mut v);
        }
        v
    }
}

/// The data part and the offsets of a basket.
pub struct BasketData {
    pub hdr: BasketHdr,
    pub data: Vec<u8>,
    /// entry offsets relative to the data, with the end appended; empty when absent
    pub offsets: Vec<usize>,
    pub raw_table: Vec<i32>,
}

pub fn basket(f: &File, seek: i64) -> R<BasketData> {
    let hdr = BasketHdr::parse(&f.d, seek as usize)?;
    let pl = f.payload(&hdr.key)?;
    let border = hdr.last - hdr.key.keylen;
    if border < 0 || border as usize > pl.len() {
        return Err(format!("basket at {seek}: last {} outside the payload", hdr.last));
    }
    let data = pl[..border as usize].to_vec();
    let rest = &pl[border as usize..];
    let mut offsets = vec![];
    let mut raw_table = vec![];
    if !rest.is_empty() {
        if rest.len() % 4 != 0 {
            return Err(format!("basket at {seek}: offset table of {} bytes", rest.len()));
        }
        raw_table = rest.chunks(4).map(|c| i32::from_be_bytes(c.try_into().unwrap())).collect();
        if raw_table.len() < 1 + hdr.nevbuf as usize {
            return Err(format!("basket at {seek}: offset table too short"));
        }
        for i in 0..hdr.nevbuf as usize {
            offsets.push((raw_table[1 + i] - hdr.key.keylen) as usize);
        }
        offsets.push(border as usize);
        for w in offsets.windows(2) {
            if w[0] > w[1] || w[1] > data.len() {
                return Err(format!("basket at {seek}: offsets not increasing within the data"));
            }
        }
    }
    Ok(BasketData { hdr, data, offsets, raw_table })
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| a << 8 | *x as u64)
}

/// Decode the column of a branch written by oxyroot.
pub fn decode_column(f: &File, b: &BranchM, ty: Ty) -> R<Vec<Cell>> {
    let mut out = vec![];
    for i in 0..b.write_basket as usize {
        let bk = basket(f, b.basket_seek[i])?;
        let n = bk.hdr.nevbuf as usize;
        let d = &bk.data;
        match ty {
            Ty::Scalar(p) | Ty::Arr(p, _) => {
                let k = if let Ty::Arr(_, n) = ty { n } else { 1 };
                let sz = p.size() * k;
                if d.len() != n * sz {
                    return Err(format!("basket {i}: {} bytes for {n} entries of {sz}", d.len()));
                }
                for e in d.chunks(sz) {
                    out.push(Cell::N(e.chunks(p.size()).map(be).collect()));
                }
            }
            Ty::Str => {
                let mut c = Cur::new(d, 0);
                for j in 0..n {
                    if !bk.offsets.is_empty() && bk.offsets[j] != c.p {
                        return Err(format!("basket {i} entry {j}: offset {} but data at {}", bk.offsets[j], c.p));
                    }
                    out.push(Cell::S(c.tstr()?));
                }
                if c.p != d.len() {
                    return Err(format!("basket {i}: {} of {} bytes used", c.p, d.len()));
                }
            }
            Ty::Vec(p) => {
                if bk.offsets.len() != n + 1 {
                    return Err(format!("basket {i}: no offset table"));
                }
                for j in 0..n {
                    let e = &d[bk.offsets[j]..bk.offsets[j + 1]];
                    let mut c = Cur::new(e, 0);
                    let bc = c.u32()?;
                    if bc & KBC == 0 || (bc & !KBC) as usize + 4 != e.len() {
                        return Err(format!("basket {i} entry {j}: byte count {bc:#x} for {} bytes", e.len()));
                    }
                    c.u16()?;
                    let k = c.u32()? as usize;
                    if c.p + k * p.size() != e.len() {
                        return Err(format!("basket {i} entry {j}: {k} elements in {} bytes", e.len()));
                    }
                    out.push(Cell::N(e[c.p..].chunks(p.size()).map(be).collect()));
                }
            }
        }
    }
    Ok(out)
}
