//! Interface between the harnesses and the symbolic executor (or, in a replay, symrt.c).
extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: u64);
    fn __sym_check(c: u64, id: u64);
    fn __sym_concretize(x: u64) -> u64;
    fn __sym_observe(tag: u64, v: u64);
    fn __sym_observe_bytes(tag: u64, p: *const u8, n: usize);
    fn __sym_cover(id: u64);
    fn __sym_param(i: u64) -> u64;
}
/// Bound `i` of this run (quick or thorough).
#[inline(always)]
pub fn param(i: u64) -> usize { unsafe { __sym_param(i) as usize } }
#[inline(always)]
pub fn byte() -> u8 { let mut b = 0u8; unsafe { __sym_bytes(&mut b, 1) }; b }
pub fn fill(b: &mut [u8]) { unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) } }
/// Exactly `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }
/// One of 0..n, explored separately.
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0; }
    let b = byte();
    assume((b as usize) < n);
    unsafe { __sym_concretize(b as u64) as usize }
}
pub fn flag() -> bool { choose(2) == 1 }
/// 0 to `max` unconstrained bytes.
pub fn upto(max: usize) -> Vec<u8> { let n = choose(max + 1); bytes(n) }
/// `min` to `max` unconstrained bytes.
pub fn between(min: usize, max: usize) -> Vec<u8> { let n = min + choose(max + 1 - min); bytes(n) }
#[inline(always)]
pub fn assume(c: bool) { unsafe { __sym_assume(c as u64) } }
#[inline(always)]
pub fn check(id: u64, c: bool) { unsafe { __sym_check(c as u64, id) } }
#[inline(always)]
pub fn cover(id: u64) { unsafe { __sym_cover(id) } }
#[inline(always)]
pub fn obs(tag: u64, v: u64) { unsafe { __sym_observe(tag, v) } }
#[inline(always)]
pub fn obs_bytes(tag: u64, b: &[u8]) { unsafe { __sym_observe_bytes(tag, b.as_ptr(), b.len()) } }
#[inline(always)]
pub fn concrete(x: u64) -> u64 { unsafe { __sym_concretize(x) } }
