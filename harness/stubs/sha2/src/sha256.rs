// Replaced: one call per block of the function the symbolic executor models.
use digest::{generic_array::GenericArray, typenum::U64};
extern "C" { fn __sym_sha256(state: *mut u32, block: *const u8); }
/// Raw SHA-256 compression function.
pub fn compress256(state: &mut [u32; 8], blocks: &[GenericArray<u8, U64>]) {
    for b in blocks { unsafe { __sym_sha256(state.as_mut_ptr(), b.as_ptr()) } }
}
