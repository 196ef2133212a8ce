// Replaced: one call per block of the function the symbolic executor models.
use digest::{generic_array::GenericArray, typenum::U128};
extern "C" { fn __sym_sha512(state: *mut u64, block: *const u8); }
/// Raw SHA-512 compression function.
pub fn compress512(state: &mut [u64; 8], blocks: &[GenericArray<u8, U128>]) {
    for b in blocks { unsafe { __sym_sha512(state.as_mut_ptr(), b.as_ptr()) } }
}
