//! Stand-in for `libgssapi`: what the Kerberos library answers is unconstrained and recorded.
#![allow(static_mut_refs)]
pub mod ctl {
    #[derive(Clone, Debug, PartialEq)]
    pub enum Ev { Acquire { initiate: bool }, Name(Vec<u8>), New { client: bool, flags: u32 }, Step { input: Option<Vec<u8>>, ok: bool, out: Option<Vec<u8>>, complete: bool }, Unwrap { input: Vec<u8>, ok: bool, out: Vec<u8>, complete: bool }, Wrap { encrypt: bool, msg: Vec<u8>, ok: bool, complete: bool } }
    pub static mut LOG: Vec<Ev> = Vec::new();
    pub static mut FLAGS: u32 = 0;
    pub static mut MAXLEN: usize = 5;
    /// Which calls may fail: bit 0 acquire/name, 1 step, 2 wrap.
    pub static mut FAIL: u32 = 7;
    pub fn reset() { unsafe { LOG = Vec::new(); FLAGS = 0; MAXLEN = 5; FAIL = 7; } }
    pub fn log() -> Vec<Ev> { unsafe { LOG.clone() } }
    pub(crate) fn push(e: Ev) { unsafe { LOG.push(e) } }
    pub(crate) fn may(bit: u32) -> bool { if unsafe { FAIL } >> bit & 1 == 1 { symrt::flag() } else { false } }
}
pub mod error {
    #[derive(Debug, Clone, Copy)]
    pub struct Error { pub major: u32, pub minor: u32 }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("gssapi error") } }
    impl std::error::Error for Error {}
    pub(crate) fn err() -> Error { Error { major: 1, minor: 2 } }
}
pub mod util {
    #[derive(Debug)]
    pub struct Buf(pub(crate) Vec<u8>);
    impl std::ops::Deref for Buf { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    impl std::ops::DerefMut for Buf { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
    impl AsRef<[u8]> for Buf { fn as_ref(&self) -> &[u8] { &self.0 } }
}
pub mod oid {
    use crate::error::Error;
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]
    pub struct Oid(&'static [u8]);
    impl std::ops::Deref for Oid { type Target = [u8]; fn deref(&self) -> &[u8] { self.0 } }
    pub static GSS_NT_HOSTBASED_SERVICE: Oid = Oid(b"hostbased");
    pub static GSS_NT_USER_NAME: Oid = Oid(b"user");
    pub static GSS_NT_KRB5_PRINCIPAL: Oid = Oid(b"principal");
    pub static GSS_MECH_KRB5: Oid = Oid(b"krb5");
    pub static GSS_MECH_SPNEGO: Oid = Oid(b"spnego");
    #[derive(Debug)]
    pub struct OidSet(Vec<Oid>);
    impl OidSet {
        pub fn new() -> Result<OidSet, Error> { Ok(OidSet(Vec::new())) }
        pub fn add(&mut self, id: &Oid) -> Result<(), Error> { self.0.push(*id); Ok(()) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn contains(&self, id: &Oid) -> Result<bool, Error> { Ok(self.0.contains(id)) }
    }
}
pub mod name {
    use crate::{ctl, error::*, oid::Oid};
    #[derive(Debug)]
    pub struct Name(Vec<u8>);
    impl Name { pub fn new(s: &[u8], _kind: Option<&Oid>) -> Result<Self, Error> { ctl::push(ctl::Ev::Name(s.to_vec())); if ctl::may(0) { Err(err()) } else { Ok(Name(s.to_vec())) } } }
}
pub mod credential {
    use crate::{ctl, error::*, name::Name, oid::OidSet};
    use std::time::Duration;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum CredUsage { Accept, Initiate, Both }
    #[derive(Debug)]
    pub struct Cred(());
    impl Cred { pub fn acquire(_n: Option<&Name>, _t: Option<Duration>, u: CredUsage, _m: Option<&OidSet>) -> Result<Cred, Error> { ctl::push(ctl::Ev::Acquire { initiate: u != CredUsage::Accept }); if ctl::may(0) { Err(err()) } else { Ok(Cred(())) } } }
}
pub mod context {
    use crate::{credential::Cred, ctl, ctl::Ev, error::*, name::Name, oid::Oid, util::Buf};
    bitflags::bitflags! {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct CtxFlags: u32 {
            const GSS_C_DELEG_FLAG = 1;
            const GSS_C_MUTUAL_FLAG = 2;
            const GSS_C_REPLAY_FLAG = 4;
            const GSS_C_SEQUENCE_FLAG = 8;
            const GSS_C_CONF_FLAG = 16;
            const GSS_C_INTEG_FLAG = 32;
            const GSS_C_ANON_FLAG = 64;
            const GSS_C_PROT_READY_FLAG = 128;
            const GSS_C_TRANS_FLAG = 256;
            const GSS_C_DELEG_POLICY_FLAG = 32768;
        }
    }
    pub trait SecurityContext {
        fn wrap(&mut self, encrypt: bool, msg: &[u8]) -> Result<Buf, Error>;
        fn unwrap(&mut self, msg: &[u8]) -> Result<Buf, Error>;
        fn flags(&mut self) -> Result<CtxFlags, Error>;
        fn is_complete(&self) -> bool;
        fn open(&mut self) -> Result<bool, Error>;
    }
    #[derive(Debug)]
    struct Ctx { complete: bool }
    impl Ctx {
        fn new(client: bool) -> Ctx {
            let mut b = [0u8; 2];
            symrt::fill(&mut b);
            let f = (b[0] as u32) | ((b[1] as u32 & 1) << 8) | ((b[1] as u32 >> 1 & 1) << 15);
            unsafe { ctl::FLAGS = f; }
            ctl::push(Ev::New { client, flags: f });
            Ctx { complete: false }
        }
        fn step(&mut self, input: Option<&[u8]>) -> Result<Option<Buf>, Error> {
            if self.complete { return Ok(None); }
            if ctl::may(1) { ctl::push(Ev::Step { input: input.map(|x| x.to_vec()), ok: false, out: None, complete: false }); return Err(err()); }
            let out = match symrt::choose(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![b'T']) };
            let complete = symrt::flag();
            self.complete = complete;
            ctl::push(Ev::Step { input: input.map(|x| x.to_vec()), ok: true, out: out.clone(), complete });
            Ok(out.map(Buf))
        }
        fn wrap(&mut self, encrypt: bool, msg: &[u8]) -> Result<Buf, Error> {
            let bad = !self.complete || ctl::may(2);
            ctl::push(Ev::Wrap { encrypt, msg: msg.to_vec(), ok: !bad, complete: self.complete });
            if bad { return Err(err()); }
            let mut v = vec![if encrypt { b'E' } else { b'W' }];
            v.extend_from_slice(msg);
            Ok(Buf(v))
        }
        fn unwrap(&mut self, msg: &[u8]) -> Result<Buf, Error> {
            // the token authenticates, with unconstrained content, or it does not
            let bad = !self.complete || symrt::flag();
            let out = if bad { vec![] } else { symrt::upto(unsafe { ctl::MAXLEN }) };
            ctl::push(Ev::Unwrap { input: msg.to_vec(), ok: !bad, out: out.clone(), complete: self.complete });
            if bad { Err(err()) } else { Ok(Buf(out)) }
        }
        fn flags(&self) -> CtxFlags { CtxFlags::from_bits_truncate(unsafe { ctl::FLAGS }) }
    }
    #[derive(Debug)]
    pub struct ServerCtx(Ctx);
    impl ServerCtx {
        pub fn new(_c: Cred) -> ServerCtx { ServerCtx(Ctx::new(false)) }
        pub fn step(&mut self, tok: &[u8]) -> Result<Option<Buf>, Error> { self.0.step(Some(tok)) }
    }
    #[derive(Debug)]
    pub struct ClientCtx(Ctx);
    impl ClientCtx {
        pub fn new(_c: Option<Cred>, _t: Name, _f: CtxFlags, _m: Option<&'static Oid>) -> ClientCtx { ClientCtx(Ctx::new(true)) }
        pub fn step(&mut self, tok: Option<&[u8]>, _cb: Option<&[u8]>) -> Result<Option<Buf>, Error> { self.0.step(tok) }
    }
    macro_rules! sc { ($t:ty) => { impl SecurityContext for $t {
        fn wrap(&mut self, encrypt: bool, msg: &[u8]) -> Result<Buf, Error> { self.0.wrap(encrypt, msg) }
        fn unwrap(&mut self, msg: &[u8]) -> Result<Buf, Error> { self.0.unwrap(msg) }
        fn flags(&mut self) -> Result<CtxFlags, Error> { Ok(self.0.flags()) }
        fn is_complete(&self) -> bool { self.0.complete }
        fn open(&mut self) -> Result<bool, Error> { Ok(self.0.complete) }
    } } }
    sc!(ServerCtx);
    sc!(ClientCtx);
}
