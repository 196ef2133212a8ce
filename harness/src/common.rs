//! What every harness shares: the application (callback), its log, and the writer.
#![allow(static_mut_refs)]
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::{Validate, Validation, ValidationError};
use rsasl::mechanisms::{oauthbearer::properties::{OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate}, xoauth2::properties::{XOAuth2Error, XOAuth2Validate}};
use rsasl::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword};
use std::sync::Arc;
pub use symrt::*;
pub type Server = Session<Val, Cb>;
pub type Client = Session<rsasl::validate::NoValidation, Cb>;

/// Branch-free: is `b` valid UTF-8?
pub fn is_utf8(b: &[u8]) -> bool {
    let n = b.len();
    // ok[k]: the suffix that starts k bytes after the current position is valid
    let mut ok = [true, false, false, false, false];
    let at = |i: usize| if i < n { b[i] } else { 0 };
    let mut i = n;
    while i > 0 {
        i -= 1;
        let (x, y, z, w) = (b[i], at(i + 1), at(i + 2), at(i + 3));
        let c = |v: u8| (v & 0xC0) == 0x80;
        let v = ((x < 0x80) & ok[0])
            | ((x >= 0xC2) & (x <= 0xDF) & c(y) & ok[1])
            | (((x == 0xE0) & (y >= 0xA0) & (y <= 0xBF) | (x >= 0xE1) & (x <= 0xEC) & c(y) | (x == 0xED) & (y >= 0x80) & (y <= 0x9F) | (x >= 0xEE) & (x <= 0xEF) & c(y)) & c(z) & ok[2])
            | (((x == 0xF0) & (y >= 0x90) & (y <= 0xBF) | (x >= 0xF1) & (x <= 0xF3) & c(y) | (x == 0xF4) & (y >= 0x80) & (y <= 0x8F)) & c(z) & c(w) & ok[3]);
        ok = [v, ok[0], ok[1], ok[2], ok[3]];
    }
    ok[0]
}
/// Every UTF-8 string of exactly `n` bytes.
pub fn string(n: usize) -> String {
    let v = bytes(n);
    assume(is_utf8(&v));
    unsafe { String::from_utf8_unchecked(v) }
}
/// Every UTF-8 string of `min` to `max` bytes.
pub fn string_between(min: usize, max: usize) -> String { let n = min + choose(max + 1 - min); string(n) }
/// Branch-free comparison.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = 0u8;
    for i in 0..a.len() { r |= a[i] ^ b[i]; }
    r == 0
}
pub fn same_opt(a: &Option<Vec<u8>>, b: Option<&[u8]>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } }
/// Branch-free search.
pub fn has(a: &[u8], c: u8) -> bool { let mut r = false; for &x in a { r |= x == c; } r }

/// The validation type of the server sessions.
pub struct Val;
impl Validation for Val { type Value = u64; }

pub type CbFn = fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError>;
/// What the application answers and what it saw.
pub struct World {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Vec<(String, String)>,
    pub trace: Option<String>,
    pub cbinding: Option<Vec<u8>>,
    pub enable_cb: bool,
    pub hook: Option<CbFn>,
    /// verdict of the validation callback: 0 ok with value, 1 error, 2 ok without value, 3 value and error
    pub verdict: u8,
    pub validates: Vec<Seen>,
    pub asked: u32,
    /// answer to OAuthBearerValidate/XOAuth2Validate: 0 none, 1 accepted, 2 refused with `oerr`
    pub oans: u8,
    pub oerr: [Option<String>; 3],
    /// what the OAuth validation request saw
    pub oseen: Vec<Seen>,
    /// errors a client's application was given
    pub reported: Vec<[Option<Vec<u8>>; 3]>,
    /// whether a client's application takes the errors
    pub take: bool,
    /// SCRAM: iterations, salt, stored key, server key
    pub stored: Option<(u32, Vec<u8>, Vec<u8>, Vec<u8>)>,
    /// SCRAM: client key, server key
    pub cached: Option<(Vec<u8>, Vec<u8>)>,
    pub salted: Option<Vec<u8>>,
    /// what requests for the stored SCRAM credential could see
    pub stored_seen: Vec<Seen>,
    /// keys that a client's application was asked to save
    pub saved: Vec<(Vec<u8>, Vec<u8>)>,
    /// salt and iterations the client's requests could see
    pub salt_seen: Vec<(Option<Vec<u8>>, Option<u32>)>,
    /// channel binding names the application was asked for
    pub cb_asked: Vec<Option<Vec<u8>>>,
    pub cbtype: Option<String>,
    /// value that validation stores
    pub value: u64,
    /// mechanism and side of the session that is stepped: what the callbacks must be told
    pub told: Option<(&'static str, rsasl::registry::Side)>,
}
#[derive(Clone, Default)]
pub struct Seen { pub authid: Option<Vec<u8>>, pub authzid: Option<Vec<u8>>, pub password: Option<Vec<u8>>, pub token: Option<Vec<u8>>, pub trace: Option<Vec<u8>>, pub kv: Option<Vec<(Vec<u8>, Vec<u8>)>> }
pub static mut W: Option<World> = None;
pub fn w() -> &'static mut World { unsafe { W.as_mut().unwrap_unchecked() } }
/// Start of every harness.
pub fn reset() {
    rand::ctl::script(1);
    stringprep::ctl::reset();
    libgssapi::ctl::reset();
    unsafe { W = Some(World { authid: None, authzid: None, password: None, token: None, kv: Vec::new(), trace: None, cbinding: None, enable_cb: false, hook: None, verdict: 0, validates: Vec::new(), asked: 0, oans: 0, oerr: [None, None, None], oseen: Vec::new(), reported: Vec::new(), take: true, stored: None, cached: None, salted: None, stored_seen: Vec::new(), saved: Vec::new(), salt_seen: Vec::new(), cb_asked: Vec::new(), cbtype: None, value: VALUE, told: None }); }
}
pub fn seen(c: &Context) -> Seen {
    Seen {
        authid: c.get_ref::<AuthId>().map(|x| x.as_bytes().to_vec()),
        authzid: c.get_ref::<AuthzId>().map(|x| x.as_bytes().to_vec()),
        password: c.get_ref::<Password>().map(|x| x.to_vec()),
        token: c.get_ref::<OAuthBearerToken>().map(|x| x.as_bytes().to_vec()),
        trace: c.get_ref::<rsasl::mechanisms::anonymous::AnonymousToken>().map(|x| x.as_bytes().to_vec()),
        kv: c.get_ref::<OAuthBearerKV>().map(|x| x.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect()),
    }
}
fn told(sd: &SessionData) {
    if let Some((n, side)) = w().told { check(3101, same(sd.mechanism().mechanism.as_bytes(), n.as_bytes())); check(3102, sd.side() == side); cover(31); } // the mechanism and the side that ask
}
pub const VALUE: u64 = 0x5eed;
pub struct App;
impl SessionCallback for App {
    fn callback(&self, sd: &SessionData, ctx: &Context, req: &mut Request) -> Result<(), SessionError> {
        let w = w();
        w.asked += 1;
        told(sd);
        if let Some(h) = w.hook { return h(sd, ctx, req); }
        if req.is::<XOAuth2Validate>() || req.is::<OAuthBearerValidate>() {
            w.oseen.push(seen(ctx));
            let o = |i: usize| w.oerr[i].as_deref();
            if w.oans == 1 { req.satisfy::<XOAuth2Validate>(&Ok(()))?; req.satisfy::<OAuthBearerValidate>(&Ok(()))?; }
            if w.oans == 2 { req.satisfy::<XOAuth2Validate>(&Err(o(0).unwrap_or("")))?; req.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new(o(0).unwrap_or(""), o(1), o(2))))?; }
            return Ok(());
        }
        if w.take {
            if let Some(e) = req.get_action::<XOAuth2Error>() { w.reported.push([Some(e.as_bytes().to_vec()), None, None]); return Ok(()); }
            if let Some(e) = req.get_action::<OAuthBearerErrored>() { w.reported.push([Some(e.status.as_bytes().to_vec()), e.scope.map(|x| x.as_bytes().to_vec()), e.openid_config.map(|x| x.as_bytes().to_vec())]); return Ok(()); }
        }
        if req.is::<Password>() { w.salt_seen.push((ctx.get_ref::<Salt>().map(|x| x.to_vec()), ctx.get_ref::<Iterations>().copied())); }
        if let Some(x) = &w.authid { req.satisfy::<AuthId>(x)?; }
        if let Some(x) = &w.authzid { req.satisfy::<AuthzId>(x)?; }
        if let Some(x) = &w.password { req.satisfy::<Password>(x)?; }
        if let Some(x) = &w.token { req.satisfy::<OAuthBearerToken>(x)?; }
        if let Some(x) = &w.trace { req.satisfy::<rsasl::mechanisms::anonymous::AnonymousToken>(x)?; }
        if req.is::<ChannelBindings>() { w.cb_asked.push(ctx.get_ref::<ChannelBindingName>().map(|x| x.as_bytes().to_vec())); }
        if let Some(x) = &w.cbinding { req.satisfy::<ChannelBindings>(x)?; }
        if let Some(x) = &w.cbtype { req.satisfy::<OverrideCBType>(x)?; }
        if req.is::<ScramStoredPassword>() {
            w.stored_seen.push(seen(ctx));
            if let Some((i, s, a, b)) = &w.stored { req.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(*i, s, a, b))?; }
        }
        if let Some(k) = req.get_action::<ScramCachedPassword>() { w.saved.push((k.client_key.to_vec(), k.server_key.to_vec())); return Ok(()); }
        if let Some((a, b)) = &w.cached { if let Some(k) = cached(a, b) { req.satisfy::<ScramCachedPassword>(&k)?; } }
        if let Some(x) = &w.salted { req.satisfy::<SaltedPassword>(x)?; }
        if !w.kv.is_empty() && req.is::<OAuthBearerKV>() {
            let v: Vec<(&str, &str)> = w.kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            req.satisfy::<OAuthBearerKV>(&v[..])?;
        }
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool { w().enable_cb }
    fn validate(&self, sd: &SessionData, ctx: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let w = w();
        told(sd);
        w.validates.push(seen(ctx));
        match w.verdict {
            0 => { v.finalize::<Val>(w.value); Ok(()) }
            1 => Err(ValidationError::MissingRequiredProperty),
            3 => { v.finalize::<Val>(w.value); Err(ValidationError::MissingRequiredProperty) }
            _ => Ok(()),
        }
    }
}
/// Channel binding data of the protocol implementation.
pub struct Cb(pub Option<(&'static str, Vec<u8>)>);
impl ChannelBindingCallback for Cb {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> { match &self.0 { Some((k, v)) if *k == n => Some(v), _ => None } }
}
pub fn config(m: &'static [Mechanism]) -> Arc<SASLConfig> {
    match SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(App) { Ok(c) => c, Err(_) => loop { assume(false) } }
}
pub fn name(n: &'static str) -> &'static Mechname { match Mechname::parse(n.as_bytes()) { Ok(m) => m, Err(_) => loop { assume(false) } } }
pub fn client_cb(m: &'static [Mechanism], n: &'static str, cb: Cb) -> Client {
    client_of(config(m), n, cb)
}
pub fn client_of(c: Arc<SASLConfig>, n: &'static str, cb: Cb) -> Client {
    match SASLClient::<Cb>::with_cb(c, cb).start_suggested(&[name(n)]) { Ok(s) => s, Err(_) => { check(1, false); loop { assume(false) } } }
}
pub fn server_cb(m: &'static [Mechanism], n: &'static str, cb: Cb) -> Server {
    server_of(config(m), n, cb)
}
pub fn server_of(c: Arc<SASLConfig>, n: &'static str, cb: Cb) -> Server {
    match SASLServer::<Val, Cb>::with_cb(c, cb).start_suggested(name(n)) { Ok(s) => s, Err(_) => { check(1, false); loop { assume(false) } } }
}
pub fn client(m: &'static [Mechanism], n: &'static str) -> Client { client_cb(m, n, Cb(None)) }
pub fn server(m: &'static [Mechanism], n: &'static str) -> Server { server_cb(m, n, Cb(None)) }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St { Running, Sent, Quiet, Need, Done, Err }
pub fn st(r: &Result<State, SessionError>) -> St {
    match r {
        Ok(State::Running) => St::Running,
        Ok(State::Finished(MessageSent::Yes)) => St::Sent,
        Ok(State::Finished(MessageSent::No)) => St::Quiet,
        Err(SessionError::InputDataRequired) => St::Need,
        Err(SessionError::MechanismDone) => St::Done,
        Err(_) => St::Err,
    }
}
impl St { pub fn finished(self) -> bool { matches!(self, St::Sent | St::Quiet) } pub fn ok(self) -> bool { matches!(self, St::Running | St::Sent | St::Quiet) } }
/// One step: what it returned and wrote. Both are part of the trace that replays must reproduce.
pub fn step<V: Validation>(s: &mut Session<V, Cb>, input: Option<&[u8]>) -> (St, Vec<u8>) {
    let mut out = Vec::new();
    let r = s.step(input, &mut out);
    let k = st(&r);
    if let Ok(x) = &r { // what the state says about itself
        check(2491, x.is_running() == (k == St::Running) && x.is_finished() == k.finished()); // running or finished
        check(2492, x.has_sent_message() == (k == St::Running || k == St::Sent)); // with or without a message
    }
    check(2493, !matches!(k, St::Quiet | St::Need) || out.is_empty()); // finished without a message, or input needed: nothing written
    core::mem::forget(r);
    obs(1, k as u64);
    obs_bytes(2, &out);
    (k, out)
}
pub fn no_callback(e: &SessionError) -> bool { matches!(e, SessionError::CallbackError(CallbackError::NoCallback(_))) }
/// Applications have no other way of building this value.
pub fn cached<'a>(c: &'a [u8], s: &'a [u8]) -> Option<ScramCachedPassword<'a>> {
    let mut k = core::mem::MaybeUninit::<ScramCachedPassword<'a>>::uninit();
    unsafe {
        core::ptr::addr_of_mut!((*k.as_mut_ptr()).client_key).write(c);
        core::ptr::addr_of_mut!((*k.as_mut_ptr()).server_key).write(s);
        Some(k.assume_init())
    }
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> { let mut v = Vec::new(); for x in p { v.extend_from_slice(x); } v }
