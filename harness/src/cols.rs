//! Column model: a typed column is a list of cells; a cell is canonicalised to
//! bit patterns so that comparison is bit-exact (NaN payloads included).
use oxyroot::{Marshaler, UnmarshalerInto};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cell {
    N(Vec<u64>),
    S(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
    Bool,
}

pub const PRIMS: [P; 11] = [
    P::I8,
    P::U8,
    P::I16,
    P::U16,
    P::I32,
    P::U32,
    P::I64,
    P::U64,
    P::F32,
    P::F64,
    P::Bool,
];

impl P {
    pub fn size(self) -> usize {
        match self {
            P::I8 | P::U8 | P::Bool => 1,
            P::I16 | P::U16 => 2,
            P::I32 | P::U32 | P::F32 => 4,
            P::I64 | P::U64 | P::F64 => 8,
        }
    }
    pub fn cpp(self) -> &'static str {
        match self {
            P::I8 => "int8_t",
            P::U8 => "uint8_t",
            P::I16 => "int16_t",
            P::U16 => "uint16_t",
            P::I32 => "int32_t",
            P::U32 => "uint32_t",
            P::I64 => "int64_t",
            P::U64 => "uint64_t",
            P::F32 => "float",
            P::F64 => "double",
            P::Bool => "bool",
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            P::I8 => "i8",
            P::U8 => "u8",
            P::I16 => "i16",
            P::U16 => "u16",
            P::I32 => "i32",
            P::U32 => "u32",
            P::I64 => "i64",
            P::U64 => "u64",
            P::F32 => "f32",
            P::F64 => "f64",
            P::Bool => "bool",
        }
    }
    pub fn mask(self, v: u64) -> u64 {
        match self {
            P::Bool => v & 1,
            _ if self.size() == 8 => v,
            _ => v & ((1u64 << (8 * self.size())) - 1),
        }
    }
}

pub trait Elt: Marshaler + UnmarshalerInto<Item = Self> + Copy + Default + std::fmt::Debug + 'static {
    const P: P;
    fn from_bits(v: u64) -> Self;
    fn bits(self) -> u64;
}

macro_rules! elt_int {
    ($t:ty,$u:ty,$p:ident) => {
        impl Elt for $t {
            const P: P = P::$p;
            fn from_bits(v: u64) -> Self {
                v as $u as $t
            }
            fn bits(self) -> u64 {
                self as $u as u64
            }
        }
    };
}
elt_int!(i8, u8, I8);
elt_int!(u8, u8, U8);
elt_int!(i16, u16, I16);
elt_int!(u16, u16, U16);
elt_int!(i32, u32, I32);
elt_int!(u32, u32, U32);
elt_int!(i64, u64, I64);
elt_int!(u64, u64, U64);
impl Elt for f32 {
    const P: P = P::F32;
    fn from_bits(v: u64) -> Self {
        f32::from_bits(v as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Elt for f64 {
    const P: P = P::F64;
    fn from_bits(v: u64) -> Self {
        f64::from_bits(v)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Elt for bool {
    const P: P = P::Bool;
    fn from_bits(v: u64) -> Self {
        v & 1 == 1
    }
    fn bits(self) -> u64 {
        self as u64
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Scalar(P),
    Arr(P, usize),
    Vec(P),
    Str,
}

/// Array extents for which a typed `[T; N]` dispatch exists.
pub const ARR_N: [usize; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 24, 31, 32];

impl Ty {
    /// C++ type name a reader must report for this column.
    pub fn cpp(&self) -> String {
        match self {
            Ty::Scalar(p) => p.cpp().into(),
            Ty::Arr(p, n) => format!("{}[{}]", p.cpp(), n),
            Ty::Vec(p) => format!("vector<{}>", p.cpp()),
            Ty::Str => "char*".into(),
        }
    }
    pub fn rust(&self) -> String {
        match self {
            Ty::Scalar(p) => p.rust().into(),
            Ty::Arr(p, n) => format!("[{};{}]", p.rust(), n),
            Ty::Vec(p) => format!("Vec<{}>", p.rust()),
            Ty::Str => "String".into(),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Ty::Vec(_) => "TBranchElement",
            _ => "TBranch",
        }
    }
    pub fn label(&self) -> String {
        self.rust()
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub cells: Vec<Cell>,
}

#[macro_export]
macro_rules! with_prim {
    ($p:expr, $T:ident => $body:expr) => {
        match $p {
            $crate::cols::P::I8 => { type $T = i8; $body }
            $crate::cols::P::U8 => { type $T = u8; $body }
            $crate::cols::P::I16 => { type $T = i16; $body }
            $crate::cols::P::U16 => { type $T = u16; $body }
            $crate::cols::P::I32 => { type $T = i32; $body }
            $crate::cols::P::U32 => { type $T = u32; $body }
            $crate::cols::P::I64 => { type $T = i64; $body }
            $crate::cols::P::U64 => { type $T = u64; $body }
            $crate::cols::P::F32 => { type $T = f32; $body }
            $crate::cols::P::F64 => { type $T = f64; $body }
            $crate::cols::P::Bool => { type $T = bool; $body }
        }
    };
}

#[macro_export]
macro_rules! with_n {
    ($n:expr, $N:ident => $body:expr) => {
        match $n {
            1 => { const $N: usize = 1; $body }
            2 => { const $N: usize = 2; $body }
            3 => { const $N: usize = 3; $body }
            4 => { const $N: usize = 4; $body }
            5 => { const $N: usize = 5; $body }
            6 => { const $N: usize = 6; $body }
            7 => { const $N: usize = 7; $body }
            8 => { const $N: usize = 8; $body }
            10 => { const $N: usize = 10; $body }
            12 => { const $N: usize = 12; $body }
            15 => { const $N: usize = 15; $body }
            16 => { const $N: usize = 16; $body }
            17 => { const $N: usize = 17; $body }
            24 => { const $N: usize = 24; $body }
            31 => { const $N: usize = 31; $body }
            32 => { const $N: usize = 32; $body }
            other => panic!("harness: no array extent {other}"),
        }
    };
}
