//! Properties that hold for every mechanism: approval, robustness, retries, independence.
use crate::common::*;
use crate::scram::{b64, hi, hmac, keys, proofs, B, BARE, NONCE, P, PLUS, S};
use rsasl::mechanisms::{anonymous::ANONYMOUS, external::EXTERNAL, gssapi::GSSAPI, login::LOGIN, oauthbearer::OAUTHBEARER, plain::PLAIN, xoauth2::XOAUTH2};
use rsasl::mechanisms::scram::{SCRAM_SHA1, SCRAM_SHA1_PLUS, SCRAM_SHA256, SCRAM_SHA256_PLUS, SCRAM_SHA512, SCRAM_SHA512_PLUS};
use rsasl::prelude::{Mechanism, SASLConfig};
use std::sync::Arc;
static ONE: [[Mechanism; 1]; 7] = [[PLAIN], [LOGIN], [ANONYMOUS], [EXTERNAL], [XOAUTH2], [OAUTHBEARER], [GSSAPI]];
static NAMES: [&str; 7] = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "GSSAPI"];
pub const KINDS: usize = 13; // 0..7 as above, 7 SCRAM-SHA-1, 8 SCRAM-SHA-1-PLUS, 9 SCRAM-SHA-256, 10 SCRAM-SHA-512, 11 SCRAM-SHA-256-PLUS, 12 SCRAM-SHA-512-PLUS
pub const GSS: usize = 6;
pub const ALG: [usize; 6] = [0, 0, 1, 2, 1, 2];
pub fn is_scram(kind: usize) -> bool { kind >= 7 }
pub fn is_plus(kind: usize) -> bool { kind == 8 || kind >= 11 }
fn cb() -> Cb { Cb(Some(("tls-unique", b"chan".to_vec()))) }
pub fn new_server(kind: usize) -> Server {
    w().told = Some((name_of(kind), rsasl::registry::Side::Server));
    if kind < 7 { return server(&ONE[kind], NAMES[kind]); }
    let a = ALG[kind - 7];
    if is_plus(kind) { server_cb(&P[a], PLUS[a], cb()) } else { server(&S[a], BARE[a]) }
}
pub fn new_client(kind: usize) -> Client {
    w().told = Some((name_of(kind), rsasl::registry::Side::Client));
    if kind < 7 { return client(&ONE[kind], NAMES[kind]); }
    let a = ALG[kind - 7];
    if is_plus(kind) { client_cb(&P[a], PLUS[a], cb()) } else { client(&S[a], BARE[a]) }
}
static ALL: [Mechanism; 13] = [PLAIN, LOGIN, ANONYMOUS, EXTERNAL, XOAUTH2, OAUTHBEARER, GSSAPI, SCRAM_SHA1, SCRAM_SHA1_PLUS, SCRAM_SHA256, SCRAM_SHA512, SCRAM_SHA256_PLUS, SCRAM_SHA512_PLUS];
pub fn all() -> Arc<SASLConfig> { config(&ALL) }
pub fn name_of(kind: usize) -> &'static str { if kind < 7 { NAMES[kind] } else { let a = ALG[kind - 7]; if is_plus(kind) { PLUS[a] } else { BARE[a] } } }
fn cb_of(kind: usize) -> Cb { if is_plus(kind) { cb() } else { Cb(None) } }
/// Somebody's credentials.
pub struct Who { user: &'static str, pw: &'static str, salt: &'static str, token: &'static str, trace: &'static str }
pub static WHO: [Who; 4] = [
    Who { user: "user", pw: "pencil", salt: "salt", token: "tok", trace: "me" },
    Who { user: "other", pw: "secret7", salt: "pepper", token: "another", trace: "them" },
    Who { user: "user", pw: "pencil", salt: "pepper", token: "tok", trace: "me" },
    Who { user: "user", pw: "pencils", salt: "salt", token: "toks", trace: "mine" },
];
/// An application with every credential.
pub fn equip(kind: usize) { equip_as(kind, &WHO[0]) }
pub fn equip_as(kind: usize, who: &Who) {
    let w = w();
    w.authid = Some(who.user.into());
    w.authzid = Some("zid".into());
    w.password = Some(who.pw.as_bytes().to_vec());
    w.token = Some(who.token.into());
    w.trace = Some(who.trace.into());
    w.oans = 1;
    w.enable_cb = is_plus(kind);
    if is_scram(kind) {
        let a = ALG[kind - 7];
        let k = keys(a, &hi(a, who.pw.as_bytes(), who.salt.as_bytes(), 2));
        w.stored = Some((2, who.salt.as_bytes().to_vec(), k.stored, k.server));
    }
    if kind == GSS { crate::gss::setup(Some(1)); }
}
/// What a well-behaved client sends in step `i` after it got `prev` (messages so far: `log`).
pub struct Peer { kind: usize, who: &'static Who, first: Vec<u8>, nonce: Vec<u8>, sf: Vec<u8> }
impl Peer {
    pub fn new(kind: usize) -> Peer { Peer::of(kind, &WHO[0]) }
    pub fn of(kind: usize, who: &'static Who) -> Peer { Peer { kind, who, first: Vec::new(), nonce: Vec::new(), sf: Vec::new() } }
    pub fn client(&mut self, i: usize, prev: &[u8]) -> Option<Vec<u8>> {
        let (user, pw) = (self.who.user.as_bytes(), self.who.pw.as_bytes());
        Some(match (self.kind, i) {
            (0, 0) => cat(&[b"zid\0", user, b"\0", pw]),
            (1, 0) => Vec::new(),
            (1, 1) => user.to_vec(),
            (1, 2) => pw.to_vec(),
            (2, 0) => self.who.trace.as_bytes().to_vec(),
            (3, 0) => b"zid".to_vec(),
            (4, 0) => cat(&[b"user=", user, b"\x01auth=Bearer ", self.who.token.as_bytes(), b"\x01\x01"]),
            (5, 0) => cat(&[b"n,a=zid,\x01auth=Bearer ", self.who.token.as_bytes(), b"\x01\x01"]),
            (4, 1) | (5, 1) => b"\x01".to_vec(),
            (GSS, _) => b"t".to_vec(),
            (k, 0) if is_scram(k) => { self.first = cat(&[if is_plus(k) { b"p=tls-unique" } else { b"n" }, b",a=zid,n=", user, b",r=abc"]); self.first.clone() }
            (k, 1) if is_scram(k) && prev.len() > 5 + NONCE => {
                let a = ALG[k - 7];
                let gs2 = cat(&[if is_plus(k) { b"p=tls-unique" } else { b"n" }, b",a=zid,"]);
                self.nonce = prev[2..5 + NONCE].to_vec();
                let wp = cat(&[b"c=", &b64(&cat(&[&gs2, if is_plus(k) { b"chan" } else { b"" }])), b",r=", &self.nonce]);
                let ks = keys(a, &hi(a, self.who.pw.as_bytes(), self.who.salt.as_bytes(), 2));
                let (p, _) = proofs(a, &ks, &cat(&[b"n=", user, b",r=abc"]), prev, &wp);
                cat(&[&wp, b",p=", &b64(&p)])
            }
            _ => return None,
        })
    }
}
impl Peer {
    /// What a well-behaved server sends before the client's step `i`, `prev`: the client's last message.
    pub fn server(&mut self, i: usize, prev: &[u8]) -> Option<Vec<u8>> {
        Some(match (self.kind, i) {
            (1, 0) => b"User Name\0".to_vec(),
            (1, 1) => b"Password\0".to_vec(),
            (4, 1) => b"error".to_vec(),
            (5, 1) => b"{\"status\":\"no\",\"scope\":\"s\"}".to_vec(),
            (GSS, 1) | (GSS, 2) => b"t".to_vec(),
            (k, 1) if is_scram(k) => {
                let h = if is_plus(k) { 19 } else { 8 }; // gs2 header with authorization identity
                if prev.len() < h + 9 + NONCE { return None; }
                self.first = prev[h..].to_vec();
                self.nonce = cat(&[&prev[prev.len() - NONCE..], b"ext"]);
                self.sf = cat(&[b"r=", &self.nonce, b",s=", &b64(self.who.salt.as_bytes()), b",i=2"]);
                self.sf.clone()
            }
            (k, 2) if is_scram(k) => {
                let a = ALG[k - 7];
                let ks = keys(a, &hi(a, self.who.pw.as_bytes(), self.who.salt.as_bytes(), 2));
                let gs2 = cat(&[if is_plus(k) { b"p=tls-unique" } else { b"n" }, b",a=zid,"]);
                let wp = cat(&[b"c=", &b64(&cat(&[&gs2, if is_plus(k) { b"chan" } else { b"" }])), b",r=", &self.nonce]);
                cat(&[b"v=", &b64(&proofs(a, &ks, &self.first, &self.sf, &wp).1)])
            }
            _ => return None,
        })
    }
}
/// JSON numbers need floating point, which is outside.
fn no_digit(m: Vec<u8>, kind: usize, g: &[u8]) -> Vec<u8> { if kind == 5 { let mut d = false; for (i, &c) in m.iter().enumerate() { d |= (c >= b'0') & (c <= b'9') & (g.get(i).copied() != Some(c)); } assume(!d); } m }
fn one_byte(g: &[u8]) -> Vec<u8> { let mut g = g.to_vec(); if !g.is_empty() { let at = crate::scram::choose16(g.len()); g[at] = byte(); } g }
/// C02: any history of messages at a client: none, the well-behaved server's, with one byte changed, or any short message (SCRAM: at most one that is not the well-behaved server's). param 0: mechanism, 1: steps, 2: longest arbitrary message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_client_history() {
    reset();
    let kind = param(0);
    equip(kind);
    let w = w();
    w.take = flag();
    let mut s = new_client(kind);
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    let mut n = 0;
    let mut deviated = false;
    for _ in 0..param(1) {
        let good = peer.server(n, &prev);
        let m = if n == 0 && s.are_we_first() { None } else { match choose(if good.is_none() { 2 } else if deviated && is_scram(kind) { 1 } else { 4 }) {
            0 if good.is_some() => good,
            0 => { deviated = true; None }
            1 => { deviated = true; Some(no_digit(upto(param(2)), kind, b"")) }
            2 => { deviated = true; None }
            _ => { deviated = true; let g = good.unwrap_or_default(); Some(no_digit(one_byte(&g), kind, &g)) }
        } };
        let (k, out) = step(&mut s, m.as_deref());
        check(1810, w.validates.is_empty()); // a client validates nobody
        if k == St::Need { check(201, m.is_none() && out.is_empty()); cover(3); continue; } // says so only if there was none [C24]
        if k == St::Quiet { check(2403, out.is_empty()); } // nothing written if it says so
        if k == St::Running { n += 1; prev = out; continue; }
        if k.finished() { cover(1); } else { cover(2); }
        return;
    }
}
/// What one step did, as far as anybody can see it.
pub struct Done { pub k: St, pub out: Vec<u8>, seen: Vec<Seen>, reported: usize, saved: usize, value: Option<u64> }
pub enum Sess { S(Server), C(Client) }
impl Sess {
    pub fn new(kind: usize, side: usize) -> Sess { if side == 0 { Sess::S(new_server(kind)) } else { Sess::C(new_client(kind)) } }
    fn of(c: Arc<SASLConfig>, kind: usize, side: usize) -> Sess { if side == 0 { Sess::S(server_of(c, name_of(kind), cb_of(kind))) } else { Sess::C(client_of(c, name_of(kind), cb_of(kind))) } }
    pub fn first(&self) -> bool { match self { Sess::S(s) => s.are_we_first(), Sess::C(s) => s.are_we_first() } }
    pub fn step(&mut self, m: Option<&[u8]>) -> Done {
        let w = w();
        let (v, r, s) = (w.validates.len() + w.stored_seen.len(), w.reported.len(), w.saved.len());
        let vs = w.validates.len();
        let (k, out) = match self { Sess::S(s) => step(s, m), Sess::C(s) => step(s, m) };
        let value = match self { Sess::S(s) if k.finished() => s.validation(), _ => None };
        Done { k, out, seen: if w.validates.len() + w.stored_seen.len() > v { w.validates[vs..].to_vec() } else { Vec::new() }, reported: w.reported.len() - r, saved: w.saved.len() - s, value }
    }
}
pub fn same_seen(a: &[Seen], b: &[Seen]) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() {
        let f = |x: &Option<Vec<u8>>, y: &Option<Vec<u8>>| same_opt(x, y.as_deref());
        if !(f(&a[i].authid, &b[i].authid) && f(&a[i].authzid, &b[i].authzid) && f(&a[i].password, &b[i].password) && f(&a[i].token, &b[i].token) && f(&a[i].trace, &b[i].trace)) { return false; }
    }
    true
}
fn same_done(a: &Done, b: &Done) -> bool { a.k == b.k && same(&a.out, &b.out) && same_seen(&a.seen, &b.seen) && a.reported == b.reported && a.saved == b.saved && a.value == b.value }
/// Must a step without input say so in this state?
fn needs(kind: usize, side: usize, n: usize) -> bool {
    if side == 0 { match kind { 1 => n > 0, 2 | 3 => false, 4 | 5 => n == 0, _ => true } } else { is_scram(kind) && n > 0 }
}
/// A message for step `n`: the well-behaved peer's, or with one byte changed, or any short one.
fn message(peer: &mut Peer, side: usize, n: usize, prev: &[u8], len: usize, free: &mut bool) -> Vec<u8> {
    let good = if side == 0 { peer.client(n, prev) } else { peer.server(n, prev) };
    let kind = if side == 1 { peer.kind } else { 0 };
    let scram = is_scram(peer.kind);
    let c = if *free { choose(3) } else { 0 };
    if scram && c > 0 { *free = false; }
    match (good, c) { (Some(g), 0) => g, (Some(g), 1) => no_digit(one_byte(&g), kind, &g), _ => no_digit(upto(len), kind, b"") }
}
/// C25: a step without input changes nothing. param 0: mechanism, 1: side, 2: steps, 3: longest arbitrary message, 4: 1: the application has the salted password
#[no_mangle] #[inline(never)]
pub extern "C" fn h_retry() {
    reset();
    let (kind, side) = (param(0), param(1));
    equip(kind);
    let w = w();
    w.verdict = choose(2) as u8;
    if side == 0 && (kind == 4 || kind == 5) { w.oans = choose(3) as u8; w.oerr = [Some("no".into()), None, None]; }
    if param(4) == 1 && is_scram(kind) { w.salted = Some(hi(ALG[kind - 7], b"pencil", b"salt", 2)); }
    rand::ctl::constant();
    let (mut a, mut b) = (Sess::new(kind, side), Sess::new(kind, side));
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    let mut free = true;
    for n in 0..param(2) {
        let starts = n == 0 && a.first();
        let m = if starts { None } else {
            Some(message(&mut peer, side, n, &prev, param(3), &mut free))
        };
        // one session is stepped without input before, one or two times
        if !starts && needs(kind, side, n) {
            let (asked, v) = (w.asked, w.validates.len());
            for _ in 0..1 + choose(2) {
                let d = b.step(None);
                check(2501, d.k == St::Need); // it says that it needs input
                check(2502, d.out.is_empty()); // sends nothing
                check(2503, w.asked == asked && w.validates.len() == v); // and asks nobody
            }
            cover(1);
        }
        let x = a.step(m.as_deref());
        let y = b.step(m.as_deref());
        check(2504, same_done(&x, &y)); // then everything goes on as if the call had not been made
        if x.k != St::Running { cover(2); return; }
        prev = x.out;
    }
}
/// C27: two sessions of one configuration, in every interleaving. param 0: mechanism of the first, 1: of the second, 2: side, 3: steps of each, 4: longest arbitrary message, 5: 1: the application has the salted password, 6: 1: messages of the second session are free, too
#[no_mangle] #[inline(never)]
pub extern "C" fn h_two() {
    reset();
    let kinds = [param(0), param(1)];
    let side = param(2);
    // the second session is somebody else's, or the same person's with another salt or another password
    let whos = [&WHO[0], &WHO[1 + choose(3)]];
    let set = |i: usize| {
        let w = crate::common::w();
        w.stored = None;
        equip_as(kinds[i], whos[i]);
        w.value = VALUE + i as u64;
        w.told = Some((name_of(kinds[i]), if side == 0 { rsasl::registry::Side::Server } else { rsasl::registry::Side::Client }));
        w.salted = if param(5) == 1 && is_scram(kinds[i]) { Some(hi(ALG[kinds[i] - 7], whos[i].pw.as_bytes(), whos[i].salt.as_bytes(), 2)) } else { None };
    };
    // every step has its own randomness, the same alone and together
    let random = |i: usize, n: usize| rand::ctl::script(1 + 16 * i as u64 + n as u64);
    // alone
    let mut logs: [Vec<(Option<Vec<u8>>, Done)>; 2] = [Vec::new(), Vec::new()];
    for i in 0..2 {
        set(i);
        random(i, 15);
        let mut s = Sess::of(all(), kinds[i], side);
        let mut peer = Peer::of(kinds[i], whos[i]);
        let mut prev = Vec::new();
        let mut free = param(6) < 2 && (i == 0 || param(6) == 1);
        let well = !free;
        let mut done = false;
        for n in 0..param(3) {
            let m = if n == 0 && s.first() { None } else { Some(message(&mut peer, side, n, &prev, param(4), &mut free)) };
            random(i, n);
            let d = s.step(m.as_deref());
            if well { check(2702, d.k.ok()); check(2703, d.value.map_or(true, |v| v == VALUE + i as u64)); } // a session with a well-behaved peer goes well, whatever the one before it did
            let go = d.k == St::Running;
            done = d.k.finished();
            prev = d.out.clone();
            logs[i].push((m, d));
            if !go { break; }
        }
        if well && done { cover(2); }
    }
    // together, from one configuration
    let c = all();
    set(0);
    random(0, 15);
    let mut s = [Sess::of(c.clone(), kinds[0], side), { set(1); random(1, 15); Sess::of(c, kinds[1], side) }];
    let mut at = [0, 0];
    while at[0] < logs[0].len() || at[1] < logs[1].len() {
        let i = if at[0] == logs[0].len() { 1 } else if at[1] == logs[1].len() { 0 } else { choose(2) };
        set(i);
        let (m, want) = &logs[i][at[i]];
        random(i, at[i]);
        let d = s[i].step(m.as_deref());
        check(2701, same_done(&d, want)); // each step as if the session were alone
        at[i] += 1;
    }
    cover(1);
}
/// C18, C01: any history of messages at a server: none, the well-behaved client's, with one byte changed, or any short message (SCRAM: at most one message that is not the well-behaved client's). param 0: mechanism, 1: steps, 2: longest arbitrary message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_server_history() {
    reset();
    let kind = param(0);
    equip(kind);
    let w = w();
    w.verdict = choose(4) as u8;
    if kind == 4 || kind == 5 { w.oans = choose(3) as u8; w.oerr = [Some("no".into()), None, None]; }
    if is_scram(kind) && flag() { w.stored = None; }
    let mut s = new_server(kind);
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    let mut n = 0;
    let mut deviated = false;
    check(1801, s.validation().is_none()); // nothing before the exchange
    for _ in 0..param(1) {
        let good = peer.client(n, &prev);
        let m = match choose(if good.is_none() { 2 } else if deviated && is_scram(kind) { 1 } else { 4 }) {
            0 if good.is_some() => good,
            0 => { deviated = true; None }
            1 => { deviated = true; Some(upto(param(2))) }
            2 => { deviated = true; None }
            _ => { deviated = true; let mut g = good.unwrap_or_default(); if !g.is_empty() { let at = crate::scram::choose16(g.len()); g[at] = byte(); } Some(g) }
        };
        let before = w.validates.len();
        let (k, out) = step(&mut s, m.as_deref());
        let v = w.validates.len();
        check(1802, v <= 1); // at most one validation
        check(1803, !(v == 1 && before == 0 && w.verdict % 2 == 1) || k == St::Err); // a refusal is an error
        let report = k.finished() && (is_scram(kind) && out.len() > 2 && out[0] == b'e' && out[1] == b'=' || (kind == 4 || kind == 5) && w.oans == 2 && n > 0);
        if k.finished() && !report && kind != GSS {
            check(1804, v == 1 && w.verdict % 2 == 0); // success only with the application's approval
            cover(1);
        }
        if !k.ok() || k.finished() {
            let got = s.validation();
            check(1805, got == if v == 1 && (w.verdict == 0 || w.verdict == 3) { Some(VALUE) } else { None }); // exactly the stored value
            check(1806, s.validation().is_none()); // once
        }
        if k == St::Need { check(101, m.is_none()); cover(3); continue; } // says so only if there was none [C24]
        if k == St::Running { n += 1; prev = out; continue; }
        cover(2);
        return;
    }
}

/// C30: no security layer before, during and after an exchange that does not negotiate one. param 0: mechanism, 1: side, 2: steps, 3: longest data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_no_layer() {
    use rsasl::prelude::SessionError;
    reset();
    let (kind, side) = (param(0), param(1));
    equip(kind);
    let w = w();
    w.verdict = choose(2) as u8;
    if side == 0 && (kind == 4 || kind == 5) { w.oans = choose(3) as u8; w.oerr = [Some("no".into()), None, None]; }
    let at = choose(param(2) + 1);
    let mut s = Sess::new(kind, side);
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    for n in 0..param(2) + 1 {
        if n == at {
            for enc in [true, false] {
                let data = upto(param(3));
                let mut out = Vec::new();
                let asked = w.asked;
                let r = match &mut s { Sess::S(s) => if enc { s.encode(&data, &mut out) } else { s.decode(&data, &mut out) }, Sess::C(s) => if enc { s.encode(&data, &mut out) } else { s.decode(&data, &mut out) } };
                let none = matches!(r, Err(SessionError::NoSecurityLayer));
                core::mem::forget(r);
                check(3011, none && out.is_empty() && w.asked == asked); // the dedicated error, nothing written, nobody asked
                check(3012, !match &s { Sess::S(s) => s.has_security_layer(), Sess::C(s) => s.has_security_layer() }); // no layer is reported
                cover(1);
            }
        }
        let m = if n == 0 && s.first() { None } else { Some(if side == 0 { peer.client(n, &prev) } else { peer.server(n, &prev) }.unwrap_or_default()) };
        let d = s.step(m.as_deref());
        if d.k != St::Running {
            // after the end, whether good or bad
            if n < at { check(3013, !match &s { Sess::S(s) => s.has_security_layer(), Sess::C(s) => s.has_security_layer() }); let mut out = Vec::new(); let data = upto(param(3)); let r = match &mut s { Sess::S(s) => s.encode(&data, &mut out), Sess::C(s) => s.encode(&data, &mut out) }; check(3014, matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty()); core::mem::forget(r); let mut out = Vec::new(); let r = match &mut s { Sess::S(s) => s.decode(&data, &mut out), Sess::C(s) => s.decode(&data, &mut out) }; check(3015, matches!(r, Err(SessionError::NoSecurityLayer)) && out.is_empty()); core::mem::forget(r); } // neither after the end
            if d.k.finished() { cover(2); }
            if n >= at && side == 0 && w.verdict == 0 && w.oans == 1 { check(3016, d.k.finished()); cover(3); } // and the calls do not disturb the exchange
            return;
        }
        prev = d.out;
    }
}
/// C24: a client and a server of one mechanism that are connected to each other. param 0: mechanism, 1: longest credential
#[no_mangle] #[inline(never)]
pub extern "C" fn h_connected() {
    reset();
    let (kind, n) = (param(0), param(1));
    equip(kind);
    let w = w();
    let text = |min: usize| { let s = string_between(min, n); let mut ok = true; for &c in s.as_bytes() { ok &= (c >= 0x20) & (c < 0x7f); } assume(ok); s };
    match choose(5) {
        0 => w.authid = Some(text(1)),
        1 => { w.authzid = Some(text(1)); }
        2 => { w.authzid = None; w.trace = Some(text(0)); }
        3 => { let t = text(1); w.token = Some(t); }
        _ => if !is_scram(kind) { w.password = Some(text(1).into_bytes()) },
    }
    // refused by the application's check of the token: the exchange takes its full length
    if kind == 4 || kind == 5 { w.oans = 1 + choose(2) as u8; w.oerr = [Some("no".into()), None, None]; }
    let (mut c, mut s) = (new_client(kind), new_server(kind));
    w.told = None;
    let first = c.are_we_first();
    check(2411, first != s.are_we_first()); // exactly one side goes first
    check(2412, first == (kind != 1)); // the one that the mechanism says
    let (mut cd, mut sd) = (false, false);
    let mut m: Option<Vec<u8>> = None;
    let mut turn = first;
    for _ in 0..6 {
        let (k, out) = if turn { step(&mut c, m.as_deref()) } else { step(&mut s, m.as_deref()) };
        check(2413, k.ok()); // every message of one side is accepted by the other one
        if !k.ok() { return; }
        if turn { cd = k.finished(); } else { sd = k.finished(); }
        if k == St::Quiet { break; }
        if cd && sd { break; }
        m = Some(out);
        turn = !turn;
    }
    // the server was content without a message: the protocol tells the client
    if sd && !cd && matches!(kind, 4 | 5) { let (k, _) = step(&mut c, None); cd = k == St::Quiet; cover(2); }
    check(2414, cd && sd); // both finish
    cover(1);
}

/// An application that answers nothing.
struct Nothing;
impl rsasl::callback::SessionCallback for Nothing {}
/// C18, C19: what the default callbacks of an application lead to. param 0: mechanism, 1: side, 2: longest message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_default_app() {
    use rsasl::callback::CallbackError;
    use rsasl::prelude::{Registry, SASLClient, SASLServer, SessionError};
    reset();
    let (kind, side) = (param(0), param(1));
    let c = match SASLConfig::builder().with_registry(Registry::with_mechanisms(&ALL)).with_callback(Nothing) { Ok(c) => c, Err(_) => loop { assume(false) } };
    if side == 0 {
        let mut s = match SASLServer::<Val, Cb>::with_cb(c, cb_of(kind)).start_suggested(name(name_of(kind))) { Ok(s) => s, Err(_) => { check(1811, is_plus(kind)); cover(1); return; } };
        let mut peer = Peer::new(kind);
        let mut prev = Vec::new();
        for n in 0..4 {
            let m = match peer.client(n, &prev) { Some(g) if flag() => g, _ => upto(param(2)) };
            let (k, out) = step(&mut s, Some(&m));
            check(1812, s.validation().is_none()); // nobody stored a value
            if kind > 3 && kind != GSS { check(1813, k != St::Quiet); if k == St::Sent { check(1814, is_scram(kind) && out.len() > 2 && same(&out[..2], b"e=")); } } // nobody checked the token or had the password
            if k != St::Running { cover(1); return; }
            prev = out;
        }
        return;
    }
    let mut s = match SASLClient::<Cb>::with_cb(c, cb_of(kind)).start_suggested(&[name(name_of(kind))]) { Ok(s) => s, Err(_) => { check(921, is_plus(kind)); cover(1); return; } }; // channel binding is off by default
    check(922, !is_plus(kind));
    let mut out = Vec::new();
    let m: Option<&[u8]> = if s.are_we_first() { None } else { Some(b"User Name") };
    let r = s.step(m, &mut out);
    if kind == 2 || kind == 3 { check(1912, st(&r) == St::Sent && out.is_empty()); } // optional values: nothing
    else { check(1913, matches!(&r, Err(SessionError::CallbackError(CallbackError::NoCallback(n))) if kind == GSS || n.ends_with(if kind == 5 { "OAuthBearerToken" } else { "AuthId" }))); } // needed ones: an error that names the property
    core::mem::forget(r);
    cover(1);
}
