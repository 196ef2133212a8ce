// Replaced: one call per block of the function the symbolic executor models.
use crate::{Block, Sha1Core};
extern "C" { fn __sym_sha1(state: *mut u32, block: *const u8); }
/// SHA-1 compression function
pub fn compress(state: &mut [u32; 5], blocks: &[Block<Sha1Core>]) {
    for b in blocks { unsafe { __sym_sha1(state.as_mut_ptr(), b.as_ptr()) } }
}
