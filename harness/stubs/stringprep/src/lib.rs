//! Stand-in for `stringprep`: exact for ASCII; a string with other characters is refused, kept or
//! changed, unconstrained but the same every time, and recorded for the harness.
use std::borrow::Cow;
#[allow(static_mut_refs)]
pub mod ctl {
    /// decisions for the non-ASCII strings of this run: 0 refused, 1 kept, 2 changed to "x", 3 changed to ""
    pub static mut LOG: Vec<(Vec<u8>, u8)> = Vec::new();
    pub fn reset() { unsafe { LOG = Vec::new(); } }
    /// What preparing `s` gives, without recording a new decision.
    pub fn known(s: &[u8]) -> Option<Result<Vec<u8>, ()>> {
        let mut ascii = true;
        let mut ctl = false;
        for &b in s { ascii &= b < 128; ctl |= (b < 32) | (b == 127); }
        if ascii { return Some(if ctl { Err(()) } else { Ok(s.to_vec()) }); }
        unsafe { for (k, d) in &LOG { if k == s { return Some(apply(s, *d)); } } }
        None
    }
    pub(crate) fn apply(s: &[u8], d: u8) -> Result<Vec<u8>, ()> { match d { 0 => Err(()), 1 => Ok(s.to_vec()), 2 => Ok(b"x".to_vec()), _ => Ok(Vec::new()) } }
    /// Whether `s` stays as it is.
    pub(crate) fn same(s: &[u8]) -> bool { if s.is_ascii() { return true; } unsafe { for (k, d) in &LOG { if k == s { return *d == 1; } } } false }
    /// What preparing `s` gives.
    pub fn of(s: &[u8]) -> Result<Vec<u8>, ()> {
        if let Some(r) = known(s) { return r; }
        let d = symrt::choose(4) as u8;
        unsafe { LOG.push((s.to_vec(), d)); }
        apply(s, d)
    }
}
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("prohibited") } }
impl std::error::Error for Error {}
fn prep(s: &str) -> Result<Cow<'_, str>, Error> {
    match ctl::of(s.as_bytes()) {
        Err(()) => Err(Error(())),
        Ok(v) => Ok(if ctl::same(s.as_bytes()) { Cow::Borrowed(s) } else { Cow::Owned(unsafe { String::from_utf8_unchecked(v) }) }),
    }
}
pub fn saslprep(s: &str) -> Result<Cow<'_, str>, Error> { prep(s) }
pub fn nodeprep(s: &str) -> Result<Cow<'_, str>, Error> { prep(s) }
pub fn nameprep(s: &str) -> Result<Cow<'_, str>, Error> { prep(s) }
pub fn resourceprep(s: &str) -> Result<Cow<'_, str>, Error> { prep(s) }
