//! C12: the byte reader in lock step with a reference model.
use crate::cols::*;
use crate::core::*;
use crate::gen::{any_type, Len, Spec};
use crate::rng::Rng;
use oxyroot::{RBuffer, RootFile};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// a primitive through its reader, or as an object
    Prim(P, bool),
    U8Into(usize),
    U8s(usize),
    I16s(usize),
    I32s(usize),
    I64s(usize),
    Str,
    CStr(usize),
    Skip(i64),
    Rewind(i64),
    SetPos(i64),
    SetHdr(Option<i32>),
    DoHdr,
    Obj(Kind),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Str,
    VecU16,
    VecF64,
    VecStr,
    ArrI32,
    ArrU8,
    SetI16,
    MapI32Str,
    VecVecU8,
}
const KINDS: [Kind; 9] = [
    Kind::Str,
    Kind::VecU16,
    Kind::VecF64,
    Kind::VecStr,
    Kind::ArrI32,
    Kind::ArrU8,
    Kind::SetI16,
    Kind::MapI32Str,
    Kind::VecVecU8,
];

/// What an operation returns, in a form that can be compared.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Unit,
    N(Vec<u64>),
    S(Vec<String>),
    Refused,
}

/// The reference: big-endian values at a cursor.
struct Model<'a> {
    d: &'a [u8],
    /// may be beyond the end after a skip
    c: i64,
    off: i64,
    hdr: Option<i32>,
    /// a read may as well have been refused (text that is not UTF-8, C string without its end)
    lax: bool,
    /// the text read is not UTF-8: an empty one is given
    ambiguous: bool,
}

struct Short;

impl Model<'_> {
    fn left(&self) -> i64 {
        self.d.len() as i64 - self.c
    }
    fn take(&mut self, n: u64) -> Result<Vec<u8>, Short> {
        if self.c < 0 || self.left() < 0 || n > self.left() as u64 {
            return Err(Short);
        }
        let b = self.d[self.c as usize..self.c as usize + n as usize].to_vec();
        self.c += n as i64;
        Ok(b)
    }
    fn num(&mut self, n: usize) -> Result<u64, Short> {
        Ok(self.take(n as u64)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    fn prim(&mut self, p: P) -> Result<u64, Short> {
        let v = self.num(p.size())?;
        Ok(if p == P::Bool { (v != 0) as u64 } else { v })
    }
    fn text(&mut self, b: Vec<u8>) -> String {
        match String::from_utf8(b) {
            Ok(s) => s,
            Err(_) => {
                self.lax = true;
                self.ambiguous = true;
                String::new()
            }
        }
    }
    fn string(&mut self) -> Result<String, Short> {
        let mut n = self.num(1)?;
        if n == 255 {
            n = self.num(4)?;
        }
        let b = self.take(n)?;
        Ok(self.text(b))
    }
    fn header(&mut self) {
        if let Some(s) = self.hdr {
            let s = s as i64;
            if self.left() < s {
                return;
            }
            if s > 1 {
                let Some(b) = (self.c >= 0 && self.left() >= 4).then(|| &self.d[self.c as usize..]) else { return };
                let w = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
                if w & 0xC000_0000 != 0x4000_0000 || (w & 0x3fff_ffff) as i64 > self.left() - 4 {
                    return;
                }
            }
            self.c += s;
        }
    }
    fn count(&mut self) -> Result<usize, Short> {
        let n = self.num(4)? as u32 as i32;
        usize::try_from(n).map_err(|_| Short)
    }
    fn obj(&mut self, k: Kind) -> Result<Val, Short> {
        Ok(match k {
            Kind::Str => {
                self.header();
                Val::S(vec![self.string()?])
            }
            Kind::VecU16 | Kind::VecF64 => {
                self.header();
                let n = self.count()?;
                self.hdr = None;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.num(if k == Kind::VecU16 { 2 } else { 8 })?);
                }
                Val::N(v)
            }
            Kind::VecStr => {
                self.header();
                let n = self.count()?;
                self.hdr = None;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.string()?);
                }
                Val::S(v)
            }
            Kind::VecVecU8 => {
                self.header();
                let n = self.count()?;
                self.hdr = None;
                let mut v = vec![];
                for _ in 0..n {
                    let m = self.count()?;
                    v.push(m as u64);
                    for _ in 0..m {
                        v.push(self.num(1)?);
                    }
                }
                Val::N(v)
            }
            Kind::ArrI32 => {
                let mut v = vec![];
                for _ in 0..3 {
                    v.push(self.num(4)?);
                }
                Val::N(v)
            }
            Kind::ArrU8 => {
                let mut v = vec![];
                for _ in 0..7 {
                    v.push(self.num(1)?);
                }
                Val::N(v)
            }
            Kind::SetI16 => {
                self.header();
                let n = self.count()?;
                self.hdr = None;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.num(2)?);
                }
                v.sort();
                v.dedup();
                Val::N(v)
            }
            Kind::MapI32Str => {
                self.header();
                let n = self.count()?;
                let (mut ks, mut vs) = (vec![], vec![]);
                self.hdr = Some(6);
                for _ in 0..n {
                    ks.push(self.num(4)?);
                    self.hdr = Some(0);
                }
                self.hdr = Some(6);
                for _ in 0..n {
                    self.header();
                    vs.push(self.string()?);
                    self.hdr = Some(0);
                }
                // the last value of a key wins
                let m: HashMap<u64, String> = ks.into_iter().zip(vs).collect();
                let mut v: Vec<String> = m.into_iter().map(|(k, s)| format!("{k:08x}={s}")).collect();
                v.sort();
                Val::S(v)
            }
        })
    }
    fn run(&mut self, op: &Op) -> Val {
        self.lax = false;
        self.ambiguous = false;
        let r = (|| -> Result<Val, Short> {
            let many = |m: &mut Self, n: usize, w: usize| -> Result<Val, Short> {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(m.num(w)?);
                }
                Ok(Val::N(v))
            };
            let goto = |m: &mut Self, to: i64| {
                if to < 0 {
                    return Err(Short);
                }
                m.c = to;
                Ok(Val::Unit)
            };
            match op {
                Op::Prim(p, _) => Ok(Val::N(vec![self.prim(*p)?])),
                Op::U8Into(n) => many(self, *n, 1),
                Op::U8s(n) => Ok(Val::N(self.take(*n as u64)?.into_iter().map(|b| b as u64).collect())),
                Op::I16s(n) => many(self, *n, 2),
                Op::I32s(n) => many(self, *n, 4),
                Op::I64s(n) => many(self, *n, 8),
                Op::Str => Ok(Val::S(vec![self.string()?])),
                Op::CStr(n) => {
                    let beg = self.c.clamp(0, self.d.len() as i64) as usize;
                    let end = beg.saturating_add(*n).min(self.d.len());
                    let w = &self.d[beg..end];
                    let s = match w.iter().position(|b| *b == 0) {
                        Some(i) => {
                            self.c += i as i64 + 1;
                            w[..i].to_vec()
                        }
                        None => {
                            // neither its end nor as many bytes as asked for
                            let cut = w.len() < *n;
                            self.c += w.len() as i64;
                            let w = w.to_vec();
                            let s = self.text(w);
                            self.lax |= cut;
                            return Ok(Val::S(vec![s]));
                        }
                    };
                    Ok(Val::S(vec![self.text(s)]))
                }
                Op::Skip(n) => goto(self, self.c + n),
                Op::Rewind(n) => goto(self, self.c - n),
                Op::SetPos(p) => goto(self, p - self.off),
                Op::SetHdr(h) => {
                    self.hdr = *h;
                    Ok(Val::Unit)
                }
                Op::DoHdr => {
                    self.header();
                    Ok(Val::Unit)
                }
                Op::Obj(k) => self.obj(*k),
            }
        })();
        r.unwrap_or(Val::Refused)
    }
}

fn real(b: &mut RBuffer, op: &Op) -> Result<Val, PanicInfo> {
    fn n1<T: Elt, E>(r: Result<T, E>) -> Val {
        r.map(|v| Val::N(vec![v.bits()])).unwrap_or(Val::Refused)
    }
    fn unit<E>(r: Result<(), E>) -> Val {
        r.map(|_| Val::Unit).unwrap_or(Val::Refused)
    }
    fn obj<T: oxyroot::UnmarshalerInto<Item = T>>(b: &mut RBuffer, f: impl FnOnce(T) -> Val) -> Val {
        b.read_object_into::<T>().map(f).unwrap_or(Val::Refused)
    }
    guard(|| match op {
        Op::Prim(p, false) => match p {
            P::I8 => n1(b.read_i8()),
            P::U8 => n1(b.read_u8()),
            P::I16 => n1(b.read_i16()),
            P::U16 => n1(b.read_u16()),
            P::I32 => n1(b.read_i32()),
            P::U32 => n1(b.read_u32()),
            P::I64 => n1(b.read_i64()),
            P::U64 => n1(b.read_u64()),
            P::F32 => n1(b.read_f32()),
            P::F64 => n1(b.read_f64()),
            P::Bool => n1(b.read_bool()),
        },
        Op::Prim(p, true) => crate::with_prim!(*p, T => obj::<T>(b, |v| Val::N(vec![v.bits()]))),
        Op::U8Into(n) => {
            let mut a = vec![0xA5u8; *n];
            match b.read_array_u8_into(&mut a) {
                Ok(()) => Val::N(a.into_iter().map(|x| x as u64).collect()),
                Err(_) => Val::Refused,
            }
        }
        Op::U8s(n) => match b.read_array_u8(*n) {
            Ok(a) => Val::N(a.iter().map(|x| *x as u64).collect()),
            Err(_) => Val::Refused,
        },
        Op::I16s(n) => {
            let mut a = vec![0x5A5Ai16; *n];
            match b.read_array_i16_into(&mut a) {
                Ok(()) => Val::N(a.into_iter().map(|x| x as u16 as u64).collect()),
                Err(_) => Val::Refused,
            }
        }
        Op::I32s(n) => {
            let mut a = vec![0x5A5Ai32; *n];
            match b.read_array_i32(&mut a) {
                Ok(()) => Val::N(a.into_iter().map(|x| x as u32 as u64).collect()),
                Err(_) => Val::Refused,
            }
        }
        Op::I64s(n) => {
            let mut a = vec![0x5A5Ai64; *n];
            match b.read_array_i64(&mut a) {
                Ok(()) => Val::N(a.into_iter().map(|x| x as u64).collect()),
                Err(_) => Val::Refused,
            }
        }
        Op::Str => b.read_string().map(|s| Val::S(vec![s.to_string()])).unwrap_or(Val::Refused),
        Op::CStr(n) => b.read_cstring(*n).map(|s| Val::S(vec![s.to_string()])).unwrap_or(Val::Refused),
        Op::Skip(n) => unit(b.skip(*n)),
        Op::Rewind(n) => unit(b.rewind(*n)),
        Op::SetPos(p) => {
            b.set_pos(*p);
            Val::Unit
        }
        Op::SetHdr(h) => {
            b.set_skip_header(*h);
            Val::Unit
        }
        Op::DoHdr => unit(b.do_skip_header()),
        Op::Obj(k) => match k {
            Kind::Str => obj::<String>(b, |s| Val::S(vec![s])),
            Kind::VecU16 => obj::<Vec<u16>>(b, |v| Val::N(v.into_iter().map(|x| x as u64).collect())),
            Kind::VecF64 => obj::<Vec<f64>>(b, |v| Val::N(v.into_iter().map(|x| x.to_bits()).collect())),
            Kind::VecStr => obj::<Vec<String>>(b, Val::S),
            Kind::VecVecU8 => obj::<Vec<Vec<u8>>>(b, |v| {
                Val::N(v.into_iter().flat_map(|x| std::iter::once(x.len() as u64).chain(x.into_iter().map(|y| y as u64)).collect::<Vec<_>>()).collect())
            }),
            Kind::ArrI32 => obj::<[i32; 3]>(b, |v| Val::N(v.iter().map(|x| *x as u32 as u64).collect())),
            Kind::ArrU8 => obj::<[u8; 7]>(b, |v| Val::N(v.iter().map(|x| *x as u64).collect())),
            Kind::SetI16 => obj::<HashSet<i16>>(b, |v| {
                let mut v: Vec<u64> = v.into_iter().map(|x| x as u16 as u64).collect();
                v.sort();
                Val::N(v)
            }),
            Kind::MapI32Str => obj::<HashMap<i32, String>>(b, |v| {
                let mut v: Vec<String> = v.into_iter().map(|(k, s)| format!("{:08x}={s}", k as u32)).collect();
                v.sort();
                Val::S(v)
            }),
        },
    })
}

struct Lock<'a> {
    m: Model<'a>,
    b: RBuffer<'a>,
    hist: Vec<Op>,
}

impl<'a> Lock<'a> {
    fn new(d: &'a [u8], off: u32) -> Lock<'a> {
        Lock { m: Model { d, c: 0, off: off as i64, hdr: None, lax: false, ambiguous: false }, b: RBuffer::new(d, off), hist: vec![] }
    }
    fn where_(&self, op: &Op, was: i64) -> String {
        let d = self.m.d;
        let at = was.clamp(0, d.len() as i64) as usize;
        format!(
            "{op:?} at {was} of {} bytes (offset {}), bytes there {:02x?}, header to skip {:?}, after {:?}",
            d.len(),
            self.m.off,
            &d[at..(at + 24).min(d.len())],
            self.m.hdr,
            &self.hist[self.hist.len().saturating_sub(6)..]
        )
    }
    /// One operation on both. False: they differ.
    fn step(&mut self, op: &Op, o: &mut Out) -> bool {
        let (was, hdr) = (self.m.c, self.m.hdr);
        let want = self.m.run(op);
        let lax = self.m.lax;
        let got = real(&mut self.b, op);
        o.eval();
        let moves = matches!(op, Op::Skip(_) | Op::Rewind(_) | Op::SetPos(_));
        let got = match got {
            Ok(v) => v,
            // the only way set_pos can refuse
            Err(_) if moves && want == Val::Refused => Val::Refused,
            Err(p) => {
                let text = self.where_(op, was);
                o.viol("panic", format!("{}: {text}", p.text()));
                return false;
            }
        };
        let mut ok = true;
        if got != want && !(got == Val::Refused && lax) {
            let sig = match (&want, &got) {
                (Val::Refused, _) if moves => "move-before-the-beginning-accepted",
                (Val::Refused, _) => "read-past-the-end-accepted",
                (_, Val::Refused) => "refused",
                _ => "value",
            };
            let text = self.where_(op, was);
            o.viol(sig, format!("returned {} instead of {}: {text}", clip(&format!("{got:x?}"), 300), clip(&format!("{want:x?}"), 300)));
            ok = false;
        }
        let now = self.b.pos() - self.m.off;
        if got == Val::Refused {
            // where in the value it gave up is not specified
            let end = (self.m.d.len() as i64).max(was);
            let fine = if moves { now == was } else { now >= was && now <= end };
            if !fine {
                let text = self.where_(op, was);
                o.viol("cursor-after-refusal", format!("the cursor went from {was} to {now}: {text}"));
                ok = false;
            }
            self.m.c = now;
            if matches!(op, Op::Obj(_)) {
                // the state of the header to skip within a broken container is not specified either
                self.b.set_skip_header(hdr);
                self.m.hdr = hdr;
            }
        } else if now != self.m.c {
            let text = self.where_(op, was);
            o.viol("cursor", format!("the cursor is at {now} instead of {}: {text}", self.m.c));
            ok = false;
        }
        if self.b.len() != self.m.left() || self.b.is_empty() != (self.m.left() <= 0) {
            let text = self.where_(op, was);
            o.viol("length", format!("len() = {}, is_empty() = {} with {} bytes left: {text}", self.b.len(), self.b.is_empty(), self.m.left()));
            ok = false;
        }
        if self.b.skip_header() != self.m.hdr {
            let text = self.where_(op, was);
            o.viol("header-to-skip", format!("skip_header() = {:?} instead of {:?}: {text}", self.b.skip_header(), self.m.hdr));
            ok = false;
        }
        o.seen((
            std::mem::discriminant(op),
            match op {
                Op::Prim(p, f) => (Some(*p), *f as usize),
                Op::Obj(k) => (None, *k as usize),
                _ => (None, 0),
            },
            got == Val::Refused,
            self.m.left().clamp(-1, 9),
            self.m.off != 0,
        ));
        if got == Val::Refused {
            o.count("refusals", 1);
        } else {
            o.count("values compared", 1);
        }
        self.hist.push(op.clone());
        ok
    }
}

fn rand_op(r: &mut Rng, len: usize, c: i64, off: i64) -> Op {
    let n = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => 1,
        2 => len,
        3 => (len as i64 - c).max(0) as usize,
        _ => r.range(0, 12),
    };
    match r.below(30) {
        0..=9 => Op::Prim(*r.pick(&PRIMS), r.chance(1, 3)),
        10 => Op::U8Into(n(r)),
        11 => Op::U8s(if r.chance(1, 20) { *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32]) } else { n(r) }),
        12 => Op::I16s(n(r) / 2),
        13 => Op::I32s(n(r) / 4),
        14 => Op::I64s(n(r) / 8),
        15..=17 => Op::Str,
        18 | 19 => Op::CStr(if r.chance(1, 10) { usize::MAX } else { n(r) }),
        20 => Op::Skip(match r.below(5) {
            0 => 0,
            1 => -(r.range(0, len + 3) as i64),
            2 => r.range(0, len + 20) as i64,
            _ => r.range(0, 9) as i64,
        }),
        21 | 22 => Op::Rewind(match r.below(5) {
            0 => c,
            1 => c + 1 + r.below(9) as i64,
            2 => -(r.below(6) as i64),
            _ => r.below(c.max(1) as u64 + 1) as i64,
        }),
        23 | 24 => Op::SetPos(
            off + match r.below(8) {
                0 => -1 - r.below(4) as i64,
                1 => len as i64,
                2 => len as i64 + 1 + r.below(30) as i64,
                3 => 0,
                _ => r.range(0, len) as i64,
            },
        ),
        25 => Op::SetHdr(*r.pick(&[None, Some(0), Some(1), Some(2), Some(4), Some(6), Some(10), Some(40)])),
        26 | 27 => Op::DoHdr,
        _ => Op::Obj(*r.pick(&KINDS)),
    }
}

/// Bytes in which prefixes, counts and headers often make sense.
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    while d.len() < n {
        match r.below(9) {
            0 => d.push(r.next() as u8),
            1 => {
                let k = r.range(0, 20);
                d.push(k as u8);
                d.extend(crate::gen::string_of(r, k).into_bytes());
            }
            2 => {
                let k = r.range(0, 300);
                d.push(255);
                d.extend((k as u32).to_be_bytes());
                d.extend(crate::gen::string_of(r, k).into_bytes());
            }
            3 => {
                let k = r.range(0, 4);
                d.extend((k as u32).to_be_bytes());
                for _ in 0..k * 4 {
                    d.push(r.next() as u8);
                }
            }
            4 => {
                let k = r.below(30) as u32;
                d.extend((k | *r.pick(&[0x4000_0000, 0x4000_0000, 0x8000_0000, 0xC000_0000, 0x4100_0000])).to_be_bytes());
                d.extend([0, 9]);
            }
            5 => d.extend([0, 0, 0, r.below(3) as u8]),
            6 => d.extend(*r.pick(&[[255, 255, 255, 255], [127, 255, 255, 255], [128, 0, 0, 0]])),
            7 => {
                // map<int,string>
                let k = r.range(0, 3);
                d.extend((k as u32).to_be_bytes());
                for _ in 0..k {
                    d.extend((r.below(5) as u32).to_be_bytes());
                }
                if r.chance(1, 2) {
                    d.extend([0x40, 0, 0, 4, 0, 9]);
                }
                for _ in 0..k {
                    d.extend([2, b'a' + r.below(9) as u8, b'z']);
                }
            }
            _ => d.extend(crate::gen::string_of(r, 6).into_bytes()),
        }
    }
    d.truncate(n);
    d
}

fn sequences(o: &mut Out, r: &mut Rng, nops: usize) {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(250, 600),
        _ => r.range(1, 120),
    };
    let d = bytes(r, n);
    let off = *r.pick(&[0u32, 0, 1, 17, 1000, 1 << 31, u32::MAX]);
    o.case(format!("{nops} operations on {} bytes, offset {off}: {}", d.len(), clip(&format!("{d:02x?}"), 1200)));
    let mut l = Lock::new(&d, off);
    for _ in 0..nops {
        let op = rand_op(r, n, l.m.c, off as i64);
        // far beyond the end only skips back help
        if !l.step(&op, o) {
            return;
        }
        if l.m.left() < -3 || (l.m.left() == 0 && r.chance(1, 3)) {
            let back = Op::SetPos(off as i64 + r.range(0, n) as i64);
            if !l.step(&back, o) {
                return;
            }
        }
    }
    o.sample(format!("{} bytes, last operations {:?}", n, &l.hist[l.hist.len().saturating_sub(4)..]));
}

/// Every operation with every number of bytes left around its size.
fn boundaries(o: &mut Out, r: &mut Rng, off: u32) {
    let mut ops: Vec<(Op, usize)> = vec![];
    for p in PRIMS {
        ops.push((Op::Prim(p, false), p.size()));
        ops.push((Op::Prim(p, true), p.size()));
    }
    for n in 0..4 {
        ops.push((Op::U8Into(n), n));
        ops.push((Op::U8s(n), n));
        ops.push((Op::I16s(n), 2 * n));
        ops.push((Op::I32s(n), 4 * n));
        ops.push((Op::I64s(n), 8 * n));
        ops.push((Op::CStr(n), n));
        ops.push((Op::Skip(n as i64), n));
        ops.push((Op::Rewind(n as i64), 0));
    }
    ops.push((Op::Obj(Kind::ArrI32), 12));
    ops.push((Op::Obj(Kind::ArrU8), 7));
    o.case(format!("operation × bytes left × position, offset {off}"));
    for (op, size) in &ops {
        for left in 0..=size + 1 {
            for lead in [0usize, 1, 5] {
                for fill in [0u8, 1, 0x7f, 0x80, 0xff, 0x41] {
                    let mut d: Vec<u8> = (0..lead + left).map(|_| r.next() as u8).collect();
                    if fill != 1 {
                        d.iter_mut().for_each(|b| *b = fill);
                    }
                    let mut l = Lock::new(&d, off);
                    if !l.step(&Op::Skip(lead as i64), o) || !l.step(op, o) {
                        return;
                    }
                    // the buffer is still usable
                    if !l.step(&Op::SetPos(off as i64), o) || !l.step(&Op::U8s(lead + left), o) {
                        return;
                    }
                }
            }
        }
    }
    // strings and containers cut at every byte
    let mut whole: Vec<(Op, Vec<u8>)> = vec![];
    for n in [0usize, 1, 2, 253, 254, 255, 256, 1000] {
        let s = crate::gen::string_of(r, n);
        for long in [n >= 255, true] {
            let mut d = vec![];
            if long {
                d.push(255);
                d.extend((n as u32).to_be_bytes());
            } else {
                d.push(n as u8);
            }
            d.extend(s.as_bytes());
            whole.push((Op::Str, d.clone()));
            whole.push((Op::Obj(Kind::Str), d));
        }
    }
    let cnt = |n: u32| n.to_be_bytes().to_vec();
    whole.push((Op::Obj(Kind::VecU16), [cnt(3), vec![1, 2, 3, 4, 5, 6]].concat()));
    whole.push((Op::Obj(Kind::VecF64), [cnt(2), vec![7; 16]].concat()));
    whole.push((Op::Obj(Kind::VecStr), [cnt(2), vec![1, b'a', 0]].concat()));
    whole.push((Op::Obj(Kind::SetI16), [cnt(3), vec![0, 1, 0, 1, 255, 255]].concat()));
    whole.push((Op::Obj(Kind::MapI32Str), [cnt(2), cnt(1), cnt(9), vec![1, b'x', 2, b'y', b'z']].concat()));
    whole.push((Op::Obj(Kind::MapI32Str), [cnt(1), cnt(1), vec![0x40, 0, 0, 4, 0, 9, 1, b'x']].concat()));
    whole.push((Op::Obj(Kind::VecVecU8), [cnt(2), cnt(1), vec![5], cnt(0)].concat()));
    for bad in [u32::MAX, 0x8000_0000, 0x7fff_ffff, 1 << 30, 1000] {
        for k in [Kind::VecU16, Kind::VecF64, Kind::VecStr, Kind::SetI16, Kind::MapI32Str, Kind::VecVecU8] {
            whole.push((Op::Obj(k), [cnt(bad), vec![0; 40]].concat()));
        }
    }
    for (op, d) in &whole {
        for cut in 0..=d.len() {
            if cut > 20 && cut + 6 < d.len() && cut % 97 != 0 {
                continue;
            }
            let mut l = Lock::new(&d[..cut], off);
            if !l.step(op, o) || !l.step(&Op::Prim(P::U8, false), o) {
                return;
            }
        }
    }
}

fn be(o: &mut Vec<u8>, p: P, v: u64) {
    o.extend_from_slice(&v.to_be_bytes()[8 - p.size()..]);
}

/// Blocks of a written column, read as the user reads them: through get_basket.
fn baskets(cx: &Ctx, o: &mut Out, r: &mut Rng) {
    let path = cx.path(".root");
    let n = *r.pick(&[0usize, 1, 2, 50, 3000]);
    let ty = any_type(r);
    let spec = Spec::new("c", ty, n, r.next()).len(match r.below(3) {
        0 => Len::Edge,
        1 => Len::Uni(0, 50),
        _ => Len::Rare { short: 3, long: 500, every: 7 },
    });
    o.case(format!("get_basket on {}", spec.desc()));
    let res: Result<(), String> = (|| {
        crate::gen::write_specs(&path, &[("t".into(), vec![spec.clone()])])?;
        let mut f = RootFile::open(&path).map_err(|e| e.to_string())?;
        let t = f.get_tree("t").map_err(|e| e.to_string())?;
        let b = t.branch("c").ok_or("no column")?;
        // the bytes of an entry; those of containers after their header
        let raw: Vec<Vec<u8>> = (0..n)
            .map(|i| {
                let mut d = vec![];
                match (spec.at(i), ty) {
                    (Cell::S(s), _) => crate::val::put_tstr(&mut d, s.as_bytes()),
                    (Cell::N(v), Ty::Scalar(p) | Ty::Arr(p, _)) => v.iter().for_each(|x| be(&mut d, p, *x)),
                    (Cell::N(v), Ty::Vec(p)) => {
                        d.extend((v.len() as u32).to_be_bytes());
                        v.iter().for_each(|x| be(&mut d, p, *x));
                    }
                    _ => {}
                }
                d
            })
            .collect();
        // these have a buffer for each entry; the others follow each other in that of the block
        let own = matches!(ty, Ty::Vec(_));
        for pass in 0..4 {
            let mut rr = r.fork(pass);
            let mut i = 0usize;
            // whether each entry came out right
            let raw = &raw;
            let all: Vec<Result<(u64, i64), String>> = b
                .get_basket(move |rb| {
                    let k = i;
                    i += 1;
                    let Some(want) = raw.get(k) else { return Err(format!("a call for entry {k} of {}", raw.len())) };
                    if own {
                        rb.do_skip_header().map_err(|e| e.to_string())?;
                        if rb.len() != want.len() as i64 {
                            return Err(format!("entry {k}: the buffer holds {} bytes, the entry {}", rb.len(), want.len()));
                        }
                    }
                    let start = rb.pos();
                    let (mut at, mut ops) = (0usize, 0u64);
                    // any decomposition of the entry
                    while at < want.len() {
                        ops += 1;
                        let left = want.len() - at;
                        let fits: Vec<P> = PRIMS.iter().copied().filter(|p| p.size() <= left && *p != P::Bool).collect();
                        let w = &want[at..];
                        let num = |k: usize| w[..k].iter().fold(0u64, |a, b| a << 8 | *b as u64);
                        match rr.below(9) {
                            0 => {
                                let m = rr.range(1, left);
                                let g = rb.read_array_u8(m).map_err(|e| e.to_string())?;
                                if g != &w[..m] {
                                    return Err(format!("entry {k} byte {at}: read_array_u8({m}) gave {:02x?} instead of {:02x?}", g, &w[..m]));
                                }
                                at += m;
                            }
                            1 => {
                                let m = rr.range(1, left);
                                rb.skip(m as i64).map_err(|e| e.to_string())?;
                                at += m;
                            }
                            2 if at > 0 => {
                                let m = rr.range(1, at);
                                rb.rewind(m as i64).map_err(|e| e.to_string())?;
                                at -= m;
                            }
                            3 => {
                                at = rr.range(0, want.len());
                                rb.set_pos(start + at as i64);
                            }
                            _ => {
                                let p = *rr.pick(&fits);
                                match real(rb, &Op::Prim(p, rr.chance(1, 2))) {
                                    Ok(Val::N(g)) if g[0] == num(p.size()) => at += p.size(),
                                    g => return Err(format!("entry {k} byte {at}: {p:?} gave {g:x?} instead of {:x}", num(p.size()))),
                                }
                            }
                        }
                        if rb.pos() - start != at as i64 {
                            return Err(format!("entry {k}: the cursor is at {} instead of {at}", rb.pos() - start));
                        }
                        if ops > 400 {
                            rb.set_pos(start + want.len() as i64);
                            break;
                        }
                    }
                    if own {
                        // nothing beyond the entry
                        match real(rb, &Op::Prim(P::U8, false)) {
                            Ok(Val::Refused) if rb.is_empty() => {}
                            g => return Err(format!("entry {k}: a read beyond its end gave {g:?}")),
                        }
                    }
                    Ok((ops, rb.pos()))
                })
                .collect();
            o.evals(all.len() as u64);
            let bad = all.iter().find_map(|r| r.as_ref().err());
            if let Some(e) = bad {
                o.viol("block", e.clone());
                break;
            }
            o.count("operations on blocks", all.iter().map(|r| r.as_ref().unwrap().0).sum());
            if !o.check(all.len() == n, "block-entries", || format!("get_basket gave {} entries of {n}", all.len())) {
                break;
            }
        }
        o.seen(("basket", ty, n));
        Ok(())
    })();
    if let Err(e) = res {
        o.viol("failed", e);
    }
    let _ = std::fs::remove_file(&path);
}

pub fn c12(cx: &Ctx) {
    cx.set_rule("distinct = operation (with its type) × refused or not × bytes left afterwards (capped) × whether the buffer has an offset; for blocks: column type × number of entries");
    cx.assume("after a refused read the cursor is only required to stay between where it was and the end of the buffer: where in a composite value the read stops is not specified");
    cx.assume("text which is not UTF-8 may be refused or given as empty; a C string which is cut by the end of the buffer may be refused or given as far as it goes");
    let g = cx.rng("boundaries");
    cx.par("boundaries", cx.n(24, 400), |i, o| boundaries(o, &mut g.fork(i), *[0u32, 1, 17, 1 << 31, u32::MAX, 1000].get(i as usize % 6).unwrap()));
    let g = cx.rng("sequences");
    cx.par("sequences", cx.n(150_000, 6_000_000), |i, o| sequences(o, &mut g.fork(i), 60));
    let g = cx.rng("large");
    cx.par("large", cx.n(40, 400), |i, o| {
        let mut r = g.fork(i);
        let n = *r.pick(&[65_535usize, 65_536, 70_000, 1 << 20, (1 << 24) + 5]);
        let mut d = vec![255u8];
        d.extend((n as u32).to_be_bytes());
        d.extend(std::iter::repeat(b'x').take(n));
        d.extend([1, 2, 3, 4]);
        o.case(format!("string of {n} bytes"));
        let mut l = Lock::new(&d, 9);
        let _ = l.step(&Op::Str, o) && l.step(&Op::Prim(P::U32, false), o) && l.step(&Op::Prim(P::U8, false), o)
            && l.step(&Op::SetPos(9 + 5), o) && l.step(&Op::CStr(n + 2), o) && l.step(&Op::Rewind(n as i64 / 2), o) && l.step(&Op::U8s(n / 2), o);
    });
    let g = cx.rng("blocks");
    cx.par("blocks", cx.n(1500, 60_000), |i, o| baskets(cx, o, &mut g.fork(i)));
}
