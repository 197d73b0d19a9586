// Nondeterministic values.  Under Kani every `nd` is an unconstrained symbolic
// value; natively the bytes come from a recorded counterexample (or, for
// development, from a pseudo-random stream).
#![allow(dead_code)]
#[cfg(kani)]
pub fn nd<T: kani::Arbitrary>() -> T { kani::any() }
#[cfg(kani)]
pub fn assume(c: bool) { kani::assume(c) }
#[cfg(not(kani))]
pub use native::*;
#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    pub enum Feed { Rec(Vec<u8>, usize), Rng(u64, u32) }
    thread_local! {
        pub static FEED: RefCell<Feed> = RefCell::new(Feed::Rng(1, 0));
        pub static FAILED: RefCell<Vec<String>> = RefCell::new(Vec::new());
        pub static LOG: RefCell<Vec<u8>> = RefCell::new(Vec::new());
    }
    pub struct AssumeFailed;
    pub trait Nd: Sized { fn draw() -> Self; }
    fn rnd() -> u64 {
        FEED.with(|f| match &mut *f.borrow_mut() {
            Feed::Rng(s, _) => { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; s.wrapping_mul(0x2545F4914F6CDD1D) >> 8 }
            _ => 0,
        })
    }
    pub fn bytes(n: usize) -> Vec<u8> {
        let rec = FEED.with(|f| match &mut *f.borrow_mut() {
            Feed::Rec(v, p) => {
                let r: Vec<u8> = (0..n).map(|i| v.get(*p + i).copied().unwrap_or(0)).collect();
                *p += n;
                Some(r)
            }
            _ => None,
        });
        if let Some(r) = rec { return r; }
        let mode = rnd() % 14;
        let mut v: Vec<u8> = (0..n).map(|_| rnd() as u8).collect();
        let k = (rnd() % (8 * n.max(1) as u64)) as usize;
        // byte i of the number 2^k - 1
        let ones = |i: usize| if 8 * i + 8 <= k { 0xffu8 } else if 8 * i >= k { 0 } else { (1u8 << (k - 8 * i)) - 1 };
        match mode {
            0 => { for b in v.iter_mut() { *b = 0; } }
            1 => { for b in v.iter_mut() { *b = 0xff; } }
            2 | 3 | 4 => { for b in v.iter_mut().skip(1) { *b = 0; } }
            5 | 6 => { for (i, b) in v.iter_mut().enumerate() { *b = if i == k / 8 { 1 << (k % 8) } else { 0 }; } }
            7 | 8 => { for (i, b) in v.iter_mut().enumerate() { *b = ones(i); } }
            9 => { for (i, b) in v.iter_mut().enumerate() { *b = !ones(i); } }
            10 => { for (i, b) in v.iter_mut().enumerate() { *b &= ones(i); } }
            _ => {}
        }
        LOG.with(|l| l.borrow_mut().extend(&v));
        v
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Nd for $t { fn draw() -> Self {
        let b = bytes(core::mem::size_of::<$t>());
        let mut a = [0u8; core::mem::size_of::<$t>()];
        a.copy_from_slice(&b);
        <$t>::from_le_bytes(a)
    } })* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Nd for bool { fn draw() -> Self { bytes(1)[0] & 1 == 1 } }
    impl<const N: usize> Nd for [u8; N] { fn draw() -> Self {
        let b = bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&b); a
    } }
    pub fn nd<T: Nd>() -> T { T::draw() }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(AssumeFailed) } }
}
/// a contract clause; natively a failed clause is recorded and execution goes on
#[cfg(kani)]
macro_rules! ensures { ($c:expr, $m:literal) => { assert!($c, $m) } }
#[cfg(not(kani))]
macro_rules! ensures { ($c:expr, $m:literal) => { if !($c) {
    crate::nd::native::FAILED.with(|f| f.borrow_mut().push($m.to_string()));
} } }
#[cfg(kani)]
macro_rules! reached { () => { kani::cover!(true, "reached") } }
#[cfg(not(kani))]
macro_rules! reached { () => { {} } }
