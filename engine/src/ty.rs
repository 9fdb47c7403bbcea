//! The fixed-size sample types, independently of the code under test: codes, sizes, byte layout.
use labview_interop::types::timestamp::LVTime;
use tedium::TdmsStorageType;
use tedium::types::{Complex, ExtendedRaw};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ty {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Ext,
    F32U,
    F64U,
    ExtU,
    Bool,
    Time,
    C32,
    C64,
    // Types whose samples cannot be stored through the API.
    Str,
}

/// Types a raw channel can have.
pub const SAMPLE_TYS: [Ty; 18] = [
    Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Ext, Ty::F32U,
    Ty::F64U, Ty::ExtU, Ty::Bool, Ty::Time, Ty::C32, Ty::C64,
];
/// Types with a Rust sample type whose natural type it is (what the writer can produce).
pub const NATURAL_TYS: [Ty; 15] = [
    Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Ext, Ty::Bool,
    Ty::Time, Ty::C32, Ty::C64,
];

impl Ty {
    pub fn code(self) -> u32 {
        match self {
            Ty::I8 => 1,
            Ty::I16 => 2,
            Ty::I32 => 3,
            Ty::I64 => 4,
            Ty::U8 => 5,
            Ty::U16 => 6,
            Ty::U32 => 7,
            Ty::U64 => 8,
            Ty::F32 => 9,
            Ty::F64 => 10,
            Ty::Ext => 11,
            Ty::F32U => 0x19,
            Ty::F64U => 0x1A,
            Ty::ExtU => 0x1B,
            Ty::Str => 0x20,
            Ty::Bool => 0x21,
            Ty::Time => 0x44,
            Ty::C32 => 0x0008_000c,
            Ty::C64 => 0x0010_000d,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        SAMPLE_TYS.iter().copied().chain([Ty::Str]).find(|t| t.code() == c)
    }
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 | Ty::Bool => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 | Ty::F32U => 4,
            Ty::I64 | Ty::U64 | Ty::F64 | Ty::F64U | Ty::C32 => 8,
            Ty::Ext | Ty::ExtU => 10,
            Ty::Time | Ty::C64 => 16,
            Ty::Str => 0,
        }
    }
    /// The Rust sample type this stored type is naturally read as, named by its natural stored type.
    pub fn natural(self) -> Ty {
        match self {
            Ty::F32U => Ty::F32,
            Ty::F64U => Ty::F64,
            Ty::ExtU => Ty::Ext,
            t => t,
        }
    }
    /// Can the Rust type with natural type `self` read samples stored as `stored`?
    pub fn reads(self, stored: Ty) -> bool {
        self == stored || self == stored.natural() || (self == Ty::Bool && stored == Ty::U8)
    }
    pub fn mask(self, bits: u128) -> u128 {
        if self == Ty::Bool {
            return bits & 1;
        }
        let n = self.size() * 8;
        if n >= 128 { bits } else { bits & ((1u128 << n) - 1) }
    }
    /// The bytes a value with these bits has in the file.
    pub fn encode(self, bits: u128, big: bool, out: &mut Vec<u8>) {
        let n = self.size();
        let le = bits.to_le_bytes();
        if !big {
            out.extend_from_slice(&le[..n]);
            return;
        }
        match self {
            // two components, real part first, each in the byte order
            Ty::C32 | Ty::C64 => {
                let h = n / 2;
                out.extend(le[..h].iter().rev());
                out.extend(le[h..n].iter().rev());
            }
            _ => out.extend(le[..n].iter().rev()),
        }
    }
    pub fn decode(self, b: &[u8], big: bool) -> u128 {
        let n = self.size();
        let mut le = [0u8; 16];
        if !big {
            le[..n].copy_from_slice(&b[..n]);
        } else {
            match self {
                Ty::C32 | Ty::C64 => {
                    let h = n / 2;
                    for i in 0..h {
                        le[i] = b[h - 1 - i];
                        le[h + i] = b[n - 1 - i];
                    }
                }
                _ => {
                    for i in 0..n {
                        le[i] = b[n - 1 - i];
                    }
                }
            }
        }
        u128::from_le_bytes(le)
    }
}

/// A Rust sample type.
pub trait Samp: TdmsStorageType + Clone + std::fmt::Debug {
    const TY: Ty;
    fn from_bits128(bits: u128) -> Self;
    fn same(&self, bits: u128) -> bool;
}
macro_rules! samp_int {
    ($t:ty, $ty:expr) => {
        impl Samp for $t {
            const TY: Ty = $ty;
            fn from_bits128(b: u128) -> Self {
                b as $t
            }
            fn same(&self, b: u128) -> bool {
                *self == b as $t
            }
        }
    };
}
samp_int!(i8, Ty::I8);
samp_int!(i16, Ty::I16);
samp_int!(i32, Ty::I32);
samp_int!(i64, Ty::I64);
samp_int!(u8, Ty::U8);
samp_int!(u16, Ty::U16);
samp_int!(u32, Ty::U32);
samp_int!(u64, Ty::U64);
impl Samp for f32 {
    const TY: Ty = Ty::F32;
    fn from_bits128(b: u128) -> Self {
        f32::from_bits(b as u32)
    }
    fn same(&self, b: u128) -> bool {
        self.to_bits() == b as u32
    }
}
impl Samp for f64 {
    const TY: Ty = Ty::F64;
    fn from_bits128(b: u128) -> Self {
        f64::from_bits(b as u64)
    }
    fn same(&self, b: u128) -> bool {
        self.to_bits() == b as u64
    }
}
impl Samp for bool {
    const TY: Ty = Ty::Bool;
    fn from_bits128(b: u128) -> Self {
        b & 0xFF != 0
    }
    fn same(&self, b: u128) -> bool {
        *self == (b & 0xFF != 0)
    }
}
impl Samp for ExtendedRaw {
    const TY: Ty = Ty::Ext;
    fn from_bits128(b: u128) -> Self {
        ExtendedRaw::new(Ty::Ext.mask(b))
    }
    fn same(&self, b: u128) -> bool {
        *self == Self::from_bits128(b)
    }
}
impl Samp for LVTime {
    const TY: Ty = Ty::Time;
    fn from_bits128(b: u128) -> Self {
        LVTime::from_parts((b >> 64) as i64, b as u64)
    }
    fn same(&self, b: u128) -> bool {
        self.to_parts() == ((b >> 64) as i64, b as u64)
    }
}
impl Samp for Complex<f32> {
    const TY: Ty = Ty::C32;
    fn from_bits128(b: u128) -> Self {
        Complex::new(f32::from_bits(b as u32), f32::from_bits((b >> 32) as u32))
    }
    fn same(&self, b: u128) -> bool {
        self.real.to_bits() == b as u32 && self.imaginary.to_bits() == (b >> 32) as u32
    }
}
impl Samp for Complex<f64> {
    const TY: Ty = Ty::C64;
    fn from_bits128(b: u128) -> Self {
        Complex::new(f64::from_bits(b as u64), f64::from_bits((b >> 64) as u64))
    }
    fn same(&self, b: u128) -> bool {
        self.real.to_bits() == b as u64 && self.imaginary.to_bits() == (b >> 64) as u64
    }
}

/// Run a generic expression for the Rust type with the given natural type.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty.natural() {
            $crate::ty::Ty::I8 => { type $T = i8; $e }
            $crate::ty::Ty::I16 => { type $T = i16; $e }
            $crate::ty::Ty::I32 => { type $T = i32; $e }
            $crate::ty::Ty::I64 => { type $T = i64; $e }
            $crate::ty::Ty::U8 => { type $T = u8; $e }
            $crate::ty::Ty::U16 => { type $T = u16; $e }
            $crate::ty::Ty::U32 => { type $T = u32; $e }
            $crate::ty::Ty::U64 => { type $T = u64; $e }
            $crate::ty::Ty::F32 => { type $T = f32; $e }
            $crate::ty::Ty::F64 => { type $T = f64; $e }
            $crate::ty::Ty::Bool => { type $T = bool; $e }
            $crate::ty::Ty::Ext => { type $T = tedium::types::ExtendedRaw; $e }
            $crate::ty::Ty::Time => { type $T = labview_interop::types::timestamp::LVTime; $e }
            $crate::ty::Ty::C32 => { type $T = tedium::types::Complex<f32>; $e }
            $crate::ty::Ty::C64 => { type $T = tedium::types::Complex<f64>; $e }
            _ => unreachable!(),
        }
    };
}
