// Specification vocabulary (pure functions).  Included in every harness crate.
// The abstract view of a bitfield value is a bit vector: a `u128` for storages
// of up to 128 bits, a `W256` for larger ones; bit i of an array storage is
// bit i%8 of byte i/8.
#![allow(dead_code)]

pub trait View: Copy + PartialEq + core::fmt::Debug {
    const W: u32;
    fn from128(x: u128) -> Self;
    fn lo128(self) -> u128;
    fn and(self, o: Self) -> Self;
    fn or(self, o: Self) -> Self;
    fn not(self) -> Self;
    /// logical shifts; a shift of W or more gives zero
    fn shl(self, n: u32) -> Self;
    fn shr(self, n: u32) -> Self;
}

impl View for u128 {
    const W: u32 = 128;
    fn from128(x: u128) -> Self { x }
    fn lo128(self) -> u128 { self }
    fn and(self, o: Self) -> Self { self & o }
    fn or(self, o: Self) -> Self { self | o }
    fn not(self) -> Self { !self }
    fn shl(self, n: u32) -> Self { if n >= 128 { 0 } else { self << n } }
    fn shr(self, n: u32) -> Self { if n >= 128 { 0 } else { self >> n } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W256 { pub lo: u128, pub hi: u128 }

impl View for W256 {
    const W: u32 = 256;
    fn from128(x: u128) -> Self { W256 { lo: x, hi: 0 } }
    fn lo128(self) -> u128 { self.lo }
    fn and(self, o: Self) -> Self { W256 { lo: self.lo & o.lo, hi: self.hi & o.hi } }
    fn or(self, o: Self) -> Self { W256 { lo: self.lo | o.lo, hi: self.hi | o.hi } }
    fn not(self) -> Self { W256 { lo: !self.lo, hi: !self.hi } }
    fn shl(self, n: u32) -> Self {
        if n >= 256 { W256 { lo: 0, hi: 0 } }
        else if n >= 128 { W256 { lo: 0, hi: self.lo << (n - 128) } }
        else if n == 0 { self }
        else { W256 { lo: self.lo << n, hi: (self.hi << n) | (self.lo >> (128 - n)) } }
    }
    fn shr(self, n: u32) -> Self {
        if n >= 256 { W256 { lo: 0, hi: 0 } }
        else if n >= 128 { W256 { lo: self.hi >> (n - 128), hi: 0 } }
        else if n == 0 { self }
        else { W256 { lo: (self.lo >> n) | (self.hi << (128 - n)), hi: self.hi >> n } }
    }
}

/// any number of limbs, least significant first
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Wn<const L: usize>(pub [u128; L]);

impl<const L: usize> Wn<L> {
    fn limb(&self, i: usize) -> u128 { if i < L { self.0[i] } else { 0 } }
}

impl<const L: usize> View for Wn<L> {
    const W: u32 = 128 * L as u32;
    fn from128(x: u128) -> Self { let mut a = [0u128; L]; a[0] = x; Wn(a) }
    fn lo128(self) -> u128 { self.0[0] }
    fn and(self, o: Self) -> Self { let mut a = self.0; let mut i = 0; while i < L { a[i] &= o.0[i]; i += 1; } Wn(a) }
    fn or(self, o: Self) -> Self { let mut a = self.0; let mut i = 0; while i < L { a[i] |= o.0[i]; i += 1; } Wn(a) }
    fn not(self) -> Self { let mut a = self.0; let mut i = 0; while i < L { a[i] = !a[i]; i += 1; } Wn(a) }
    fn shl(self, n: u32) -> Self {
        let (q, r) = ((n / 128) as usize, n % 128);
        let mut a = [0u128; L];
        let mut i = 0;
        while i < L {
            if i >= q {
                a[i] = self.limb(i - q) << r;
                if r > 0 && i > q { a[i] |= self.limb(i - q - 1) >> (128 - r); }
            }
            i += 1;
        }
        Wn(a)
    }
    fn shr(self, n: u32) -> Self {
        let (q, r) = ((n / 128) as usize, n % 128);
        let mut a = [0u128; L];
        let mut i = 0;
        while i < L {
            if q < L {
                a[i] = self.limb(i + q) >> r;
                if r > 0 { a[i] |= self.limb(i + q + 1) << (128 - r); }
            }
            i += 1;
        }
        Wn(a)
    }
}

/// the w lowest bits
pub fn mask<V: View>(w: u32) -> V {
    if w == 0 { V::from128(0) } else if w >= V::W { V::from128(0).not() } else { V::from128(0).not().shr(V::W - w) }
}
/// bits o..o+w
pub fn get<V: View>(v: V, o: u32, w: u32) -> V { v.shr(o).and(mask(w)) }
/// v with bits o..o+w replaced by the low w bits of x
pub fn put<V: View>(v: V, o: u32, w: u32, x: V) -> V {
    let m: V = mask::<V>(w).shl(o);
    v.and(m.not()).or(x.shl(o).and(m))
}
pub fn bit<V: View>(v: V, i: u32) -> bool { v.shr(i).lo128() & 1 == 1 }
/// bit i set to b (i < W)
pub fn with_bit<V: View>(v: V, i: u32, b: bool) -> V {
    let one = V::from128(1).shl(i);
    if b { v.or(one) } else { v.and(one.not()) }
}
/// bits of `a` where m is 0, of `b` where m is 1
pub fn sel<V: View>(a: V, b: V, m: V) -> V { a.and(m.not()).or(b.and(m)) }

pub fn le<V: View, const N: usize>(a: [u8; N]) -> V {
    let mut v = V::from128(0);
    let mut i = 0;
    while i < N { v = v.or(V::from128(a[i] as u128).shl(8 * i as u32)); i += 1; }
    v
}
pub fn to_le<V: View, const N: usize>(v: V) -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N { a[i] = v.shr(8 * i as u32).lo128() as u8; i += 1; }
    a
}
pub fn rev<const N: usize>(a: [u8; N]) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N { b[i] = a[N - 1 - i]; i += 1; }
    b
}
/// bit i of a byte array
pub fn abit<const N: usize>(a: &[u8; N], i: u32) -> bool { (a[(i / 8) as usize] >> (i % 8)) & 1 == 1 }
/// two's complement value of the w low bits
pub fn sext(x: u128, w: u32) -> i128 { ((x << (128 - w)) as i128) >> (128 - w) }
/// does the signed number fit in w bits
pub fn sfits(x: i128, w: u32) -> bool { sext(x as u128, w) == x }
/// does the unsigned vector fit in w bits
pub fn ufits<V: View>(x: V, w: u32) -> bool { x == x.and(mask(w)) }
/// the value stored for a custom field: its raw bits, possibly normalised by the type
pub fn pick<V: View>(got: V, raw: V, norm: V) -> V { if got == raw { raw } else { norm } }
/// are all bits of the array at or above w zero
pub fn afits<const K: usize>(a: [u8; K], w: u32) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < K {
        let lo = 8 * i as u32;
        if lo >= w { if a[i] != 0 { ok = false; } }
        else if w - lo < 8 && (a[i] >> (w - lo)) != 0 { ok = false; }
        i += 1;
    }
    ok
}
