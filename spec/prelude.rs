// User-side types and constants used by the definitions of the corpus.
#![allow(dead_code, unused_imports)]
pub use crate::nd::*;
pub use crate::spec::*;
pub use bitfields::{bitfield, bitflag};

/// enum with an unused code: 3 is read as C
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E2 { A = 0, B = 1, C = 2 }
impl E2 {
    pub const fn from_bits(b: u8) -> Self { match b { 0 => Self::A, 1 => Self::B, _ => Self::C } }
    pub const fn into_bits(self) -> u8 { self as u8 }
}
impl Default for E2 { fn default() -> Self { E2::C } }
/// enum without a zero code: raw zero is read as One
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Odd { One = 1, Three = 3, Five = 5 }
impl Odd {
    pub const fn from_bits(b: u8) -> Self { match b { 3 => Self::Three, 5 => Self::Five, _ => Self::One } }
    pub const fn into_bits(self) -> u8 { self as u8 }
}
macro_rules! raw { ($($n:ident $t:ty;)*) => { $(
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct $n(pub $t);
    impl $n {
        pub const fn from_bits(b: $t) -> Self { Self(b) }
        pub const fn into_bits(self) -> $t { self.0 }
    }
)* } }
raw! { Raw8 u8; Raw16 u16; Raw32 u32; Raw64 u64; Raw128 u128; }

pub const K_U8: u8 = 0x2A;
pub const K_U16: u16 = 0x1BCD;
pub const K_U32: u32 = 0x00C0_FFEE;
pub const K_U64: u64 = 0x0123_4567_89AB_CDEF;
pub const K_I8: i8 = -3;
pub const K_I16: i16 = -300;
pub const K_I32: i32 = -70_000;
pub const K_I64: i64 = -5_000_000_000;
pub const K_BOOL: bool = true;
pub const K_RAW8: Raw8 = Raw8(0x15);
pub const fn f_u8() -> u8 { 9 }
pub const fn f_i16() -> i16 { -17 }

#[bitflag(u8)]
#[derive(PartialEq, Eq, Debug)]
pub enum Fl { A = 0, B = 2, #[base] C = 5 }

#[bitfield(u8)]
pub struct N8 { #[bits(3)] pub lo: u8, #[bits(5)] pub hi: u8 }

#[bitfield(u16, order = msb)]
pub struct N16 { #[bits(4)] pub a: u8, pub b: bool, #[bits(11)] pub c: i16 }
