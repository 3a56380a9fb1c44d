//! Columns as functions of (seed, index): nothing has to be kept to know what was written.
use crate::cols::*;
use crate::io;
use crate::rng::Rng;
use oxyroot::{Branch, WriterTree};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Len {
    Fix(usize),
    Uni(usize, usize),
    /// mostly short, one entry in n long
    Rare { short: usize, long: usize, every: usize },
    /// exactly one long entry at an index
    Spike { short: usize, long: usize, at: usize },
    /// length = index / div, wrapped at max
    Grow { div: usize, max: usize },
    /// length prefix boundaries of strings and powers of two
    Edge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Mix,
    Ramp,
    Rand,
    Small,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub ty: Ty,
    pub n: usize,
    pub seed: u64,
    pub len: Len,
    pub val: Val,
}

pub const EDGES: [usize; 20] =
    [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 100, 127, 128, 253, 254, 255, 256, 257, 511, 1000];

pub fn prim_bits(r: &mut Rng, p: P, v: Val, i: usize) -> u64 {
    let w = p.size() as u32 * 8;
    let raw = match v {
        Val::Ramp => i as u64,
        Val::Rand => r.next(),
        Val::Small => r.below(7),
        Val::Mix => match r.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << (w - 1),
            4 => (1 << (w - 1)) - 1,
            5 => i as u64,
            6 => (i as u64).wrapping_neg(),
            7 => match p {
                P::F32 => *r.pick(&[0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x80000000, 1, 0x007fffff]),
                P::F64 => *r.pick(&[
                    0x7ff0000000000000,
                    0xfff0000000000000,
                    0x7ff8000000000000,
                    0x7ff0000000000001,
                    0xfff8000012345678,
                    0x8000000000000000,
                    1,
                    0x000fffffffffffff,
                ]),
                _ => 0x0102030405060708,
            },
            8 => 1u64 << r.below(w as u64),
            _ => r.next(),
        },
    };
    p.mask(raw)
}

pub fn string_of(r: &mut Rng, len: usize) -> String {
    let mode = r.below(5);
    let mut s = String::with_capacity(len + 4);
    while s.len() < len {
        let left = len - s.len();
        let c = match mode {
            0 | 1 => (b'!' + r.below(94) as u8) as char,
            2 => *r.pick(&['a', ' ', '\t', '\n', '"', '\\', '/', ';', '[', ']', '.', '\u{1}', '\u{7f}', '_']),
            3 => *r.pick(&['é', 'ß', '中', '𝔘', '🦀', '\u{0}', 'z', '\u{feff}', '\u{202e}', '\u{10ffff}']),
            _ => char::from_u32(r.below(0x2000) as u32).unwrap_or('x'),
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s
}

impl Spec {
    pub fn new(name: &str, ty: Ty, n: usize, seed: u64) -> Spec {
        Spec { name: name.into(), ty, n, seed, len: Len::Uni(0, 5), val: Val::Mix }
    }
    pub fn len(mut self, l: Len) -> Spec {
        self.len = l;
        self
    }
    pub fn val(mut self, v: Val) -> Spec {
        self.val = v;
        self
    }
    pub fn length_at(&self, i: usize) -> usize {
        let mut r = Rng::new(self.seed ^ 0x5555).fork(i as u64);
        match self.len {
            Len::Fix(n) => n,
            Len::Uni(a, b) => r.range(a, b),
            Len::Rare { short, long, every } => {
                if i % every == every - 1 {
                    long
                } else {
                    r.range(0, short)
                }
            }
            Len::Spike { short, long, at } => {
                if i == at {
                    long
                } else {
                    short
                }
            }
            Len::Grow { div, max } => (i / div) % (max + 1),
            Len::Edge => *r.pick(&EDGES),
        }
    }
    pub fn at(&self, i: usize) -> Cell {
        let mut r = Rng::new(self.seed).fork(i as u64);
        match self.ty {
            Ty::Scalar(p) => Cell::N(vec![prim_bits(&mut r, p, self.val, i)]),
            Ty::Arr(p, n) => Cell::N((0..n).map(|k| prim_bits(&mut r, p, self.val, i * n + k)).collect()),
            Ty::Vec(p) => {
                let n = self.length_at(i);
                Cell::N((0..n).map(|k| prim_bits(&mut r, p, self.val, i + k)).collect())
            }
            Ty::Str => Cell::S(string_of(&mut r, self.length_at(i))),
        }
    }
    pub fn cells(&self) -> Vec<Cell> {
        (0..self.n).map(|i| self.at(i)).collect()
    }
    pub fn iter(&self) -> impl Iterator<Item = Cell> + 'static {
        let s = self.clone();
        (0..self.n).map(move |i| s.at(i))
    }
    pub fn add_to(&self, t: &mut WriterTree) {
        io::add_branch_it(t, &self.name, self.ty, self.iter())
    }
    pub fn desc(&self) -> String {
        format!("{}:{} n={} seed={:#x} len={:?} val={:?}", self.name.escape_debug(), self.ty.label(), self.n, self.seed, self.len, self.val)
    }
    /// Compare what a branch yields with the column; the text tells the first difference.
    pub fn compare(&self, b: &Branch) -> Result<(), (&'static str, String)> {
        let it = io::read_iter(b, self.ty).map_err(|e| ("typed-access-refused", e))?;
        self.compare_iter(it)
    }
    pub fn compare_iter(&self, it: impl Iterator<Item = Cell>) -> Result<(), (&'static str, String)> {
        let mut n = 0;
        for (i, c) in it.take(self.n + 1).enumerate() {
            if i >= self.n {
                return Err(("extra-entries", format!("more than the {} entries written", self.n)));
            }
            let w = self.at(i);
            if c != w {
                return Err((
                    "value-differs",
                    format!(
                        "entry {i}: wrote {} read {}",
                        crate::core::clip(&format!("{w:x?}"), 300),
                        crate::core::clip(&format!("{c:x?}"), 300)
                    ),
                ));
            }
            n += 1;
        }
        if n != self.n {
            return Err(("missing-entries", format!("{n} entries read, {} written", self.n)));
        }
        Ok(())
    }
}

pub fn write_specs(path: &std::path::Path, trees: &[(String, Vec<Spec>)]) -> Result<(), String> {
    let mut f = oxyroot::RootFile::create(path).map_err(|e| format!("create: {e}"))?;
    append_specs(&mut f, trees)?;
    f.close().map_err(|e| format!("close: {e}"))?;
    Ok(())
}

pub fn append_specs(f: &mut oxyroot::RootFile, trees: &[(String, Vec<Spec>)]) -> Result<(), String> {
    for (name, cols) in trees {
        let mut t = WriterTree::new(name);
        for c in cols {
            c.add_to(&mut t);
        }
        t.write(f).map_err(|e| format!("write: {e}"))?;
    }
    Ok(())
}

/// All scalar types, or arrays of them, that can be written.
pub fn scalar_types() -> Vec<Ty> {
    PRIMS.iter().map(|p| Ty::Scalar(*p)).collect()
}
pub fn any_type(r: &mut Rng) -> Ty {
    let p = *r.pick(&PRIMS);
    match r.below(4) {
        0 => Ty::Scalar(p),
        1 => Ty::Arr(p, *r.pick(&ARR_N)),
        2 => Ty::Vec(if p == P::Bool { P::U8 } else { p }),
        _ => Ty::Str,
    }
}

pub fn name(r: &mut Rng, k: usize) -> String {
    match r.below(12) {
        0 => format!("b{k}"),
        1 => format!("branch_with_a_rather_long_name_{k}_{}", "x".repeat(r.range(0, 300))),
        2 => format!("b.{k}.c"),
        3 => format!("β_{k}_中"),
        4 => format!("with space {k}"),
        5 => format!("_{k}"),
        6 => format!("{k}"),
        7 => format!("B{k}:x"),
        8 => format!("{}{k}", "y".repeat(*r.pick(&[250, 252, 253, 254, 255, 256]))),
        _ => format!("x{k}"),
    }
}
