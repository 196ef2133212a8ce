//! Stand-in for `rand`: the random source is either a known stream (`script(seed)`) or unconstrained
//! (`symbolic()`). Only what rsasl and plausible changes of it use is offered.
pub mod ctl {
    pub static mut MODE: u8 = 0; // 0: known stream, 1: unconstrained
    pub static mut STATE: u64 = 1;
    pub static mut DRAWS: u64 = 0;
    pub fn script(seed: u64) { unsafe { MODE = 0; STATE = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678; DRAWS = 0; } }
    pub fn symbolic() { unsafe { MODE = 1; DRAWS = 0; LOG.clear(); } }
    static mut LOG: Vec<(u64, u64)> = Vec::new();
    static mut POS: usize = 0;
    /// Every draw gives the same value.
    pub fn constant() { unsafe { MODE = 3; DRAWS = 0; } }
    /// Every draw gives another value than the corresponding draw since `symbolic`.
    pub fn shifted() { unsafe { MODE = 2; DRAWS = 0; POS = 0; } }
    fn shift(n: u64) -> u64 { unsafe { let r = if POS < LOG.len() && LOG[POS].1 == n { let v = LOG[POS].0.wrapping_add(1); if n != 0 && v == n { 0 } else { v } } else { mix(&mut STATE) % if n == 0 { u64::MAX } else { n } }; POS += 1; r } }
    pub fn draws() -> u64 { unsafe { DRAWS } }
    pub(crate) fn next() -> u64 {
        unsafe {
            DRAWS += 1;
            if MODE == 1 { let mut b = [0u8; 8]; symrt::fill(&mut b); let v = u64::from_le_bytes(b); LOG.push((v, 0)); return v; }
            if MODE == 2 { return shift(0); }
            if MODE == 3 { return 0x0123_4567_89ab_cdef; }
            mix(&mut STATE)
        }
    }
    pub(crate) fn mix(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// a value below n
    pub(crate) fn below(n: u64) -> u64 {
        unsafe {
            if MODE == 1 && n <= 256 {
                DRAWS += 1;
                let b = symrt::byte();
                symrt::assume((b as u64) < n);
                LOG.push((b as u64, n));
                return b as u64;
            }
            if MODE == 2 && n <= 256 { DRAWS += 1; return shift(n); }
        }
        next() % n
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("rand") } }
impl std::error::Error for Error {}
pub trait CryptoRng {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
    #[doc(hidden)]
    fn index(&mut self, n: u64) -> u64 { self.next_u64() % n }
}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { (**self).fill_bytes(d) }
    fn index(&mut self, n: u64) -> u64 { (**self).index(n) }
}
impl<'a, R: CryptoRng + ?Sized> CryptoRng for &'a mut R {}
pub trait SampleRange<T> { fn one(self, r: &mut dyn FnMut(u64) -> u64) -> T; }
macro_rules! ints { ($($t:ty),*) => { $(
    impl SampleRange<$t> for std::ops::Range<$t> { fn one(self, r: &mut dyn FnMut(u64) -> u64) -> $t { self.start.wrapping_add(r((self.end as u64).wrapping_sub(self.start as u64)) as $t) } }
    impl SampleRange<$t> for std::ops::RangeInclusive<$t> { fn one(self, r: &mut dyn FnMut(u64) -> u64) -> $t { self.start().wrapping_add(r((*self.end() as u64).wrapping_sub(*self.start() as u64).wrapping_add(1)) as $t) } }
    impl distributions::Distribution<$t> for distributions::Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $t { r.next_u64() as $t } }
)* } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl distributions::Distribution<bool> for distributions::Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> bool { r.next_u64() & 1 == 1 } }
impl distributions::Distribution<u128> for distributions::Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u128 { (r.next_u64() as u128) << 64 | r.next_u64() as u128 } }
impl<T, const N: usize> distributions::Distribution<[T; N]> for distributions::Standard where distributions::Standard: distributions::Distribution<T> {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> [T; N] { [(); N].map(|_| r.gen()) }
}
pub trait Fill { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R); }
impl Fill for [u8] { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) { r.fill_bytes(self) } }
impl<const N: usize> Fill for [u8; N] { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) { r.fill_bytes(self) } }
pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T> { distributions::Distribution::sample(&distributions::Standard, self) }
    fn gen_range<T, S: SampleRange<T>>(&mut self, s: S) -> T { s.one(&mut |n| self.index(n)) }
    fn gen_bool(&mut self, _p: f64) -> bool { self.gen() }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) { d.fill_from(self) }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::Iter<D, Self, T> where Self: Sized { d.sample_iter(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait SeedableRng: Sized {
    type Seed: Default + AsMut<[u8]>;
    fn from_seed(s: Self::Seed) -> Self;
    fn seed_from_u64(s: u64) -> Self;
    fn from_entropy() -> Self { Self::seed_from_u64(ctl::next()) }
    fn from_rng<R: RngCore>(mut r: R) -> Result<Self, Error> { Ok(Self::seed_from_u64(r.next_u64())) }
}
pub mod rngs {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng;
    impl RngCore for ThreadRng { fn next_u64(&mut self) -> u64 { ctl::next() } fn index(&mut self, n: u64) -> u64 { ctl::below(n) } }
    impl CryptoRng for ThreadRng {}
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl RngCore for OsRng { fn next_u64(&mut self) -> u64 { ctl::next() } fn index(&mut self, n: u64) -> u64 { ctl::below(n) } }
    impl CryptoRng for OsRng {}
    #[derive(Clone, Debug)]
    pub struct StdRng(u64);
    impl RngCore for StdRng { fn next_u64(&mut self) -> u64 { ctl::mix(&mut self.0) } }
    impl CryptoRng for StdRng {}
    impl SeedableRng for StdRng {
        type Seed = [u8; 32];
        fn from_seed(s: [u8; 32]) -> Self { StdRng(s.chunks(8).fold(7, |a, c| a.wrapping_mul(31) ^ u64::from_le_bytes(c.try_into().unwrap()))) }
        fn seed_from_u64(s: u64) -> Self { StdRng(s) }
    }
    pub type SmallRng = StdRng;
}
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }
pub mod distributions {
    use super::*;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T;
        fn sample_iter<R: Rng>(self, r: R) -> Iter<Self, R, T> where Self: Sized { Iter { d: self, r, p: std::marker::PhantomData } }
    }
    impl<'a, T, D: Distribution<T> + ?Sized> Distribution<T> for &'a D { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T { (**self).sample(r) } }
    pub struct Iter<D, R, T> { d: D, r: R, p: std::marker::PhantomData<T> }
    impl<D: Distribution<T>, R: Rng, T> Iterator for Iter<D, R, T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.d.sample(&mut self.r)) } }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Standard;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Alphanumeric;
    impl Distribution<u8> for Alphanumeric { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u8 { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.index(62) as usize] } }
    #[derive(Clone, Copy, Debug)]
    pub struct Slice<'a, T> { s: &'a [T] }
    #[derive(Clone, Copy, Debug)]
    pub struct EmptySlice;
    impl std::fmt::Display for EmptySlice { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("empty slice") } }
    impl std::error::Error for EmptySlice {}
    impl<'a, T> Slice<'a, T> { pub fn new(s: &'a [T]) -> Result<Self, EmptySlice> { if s.is_empty() { Err(EmptySlice) } else { Ok(Slice { s }) } } }
    impl<'a, T> Distribution<&'a T> for Slice<'a, T> { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> &'a T { &self.s[r.index(self.s.len() as u64) as usize] } }
    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<T> { lo: T, n: u64 }
    macro_rules! uni { ($($t:ty),*) => { $(
        impl Uniform<$t> { pub fn new(a: $t, b: $t) -> Self { Uniform { lo: a, n: b as u64 - a as u64 } } pub fn new_inclusive(a: $t, b: $t) -> Self { Uniform { lo: a, n: b as u64 - a as u64 + 1 } } }
        impl Distribution<$t> for Uniform<$t> { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $t { self.lo + r.index(self.n) as $t } }
    )* } }
    uni!(u8);
    impl Uniform<usize> { pub fn from(r: std::ops::Range<usize>) -> Self { Uniform { lo: r.start, n: (r.end - r.start) as u64 } } }
    impl Distribution<usize> for Uniform<usize> { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> usize { self.lo + r.index(self.n) as usize } }
}
pub mod seq {
    use super::*;
    pub trait SliceRandom { type Item; fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>; fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R); }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[r.index(self.len() as u64) as usize]) } }
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R) { for i in (1..self.len()).rev() { let j = r.index(i as u64 + 1) as usize; self.swap(i, j); } }
    }
}
pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::{StdRng, ThreadRng};
    pub use crate::seq::SliceRandom;
    pub use crate::{random, thread_rng, CryptoRng, Rng, RngCore, SeedableRng};
}
