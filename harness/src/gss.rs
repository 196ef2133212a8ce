//! GSSAPI against a library whose every answer is unconstrained.
use crate::common::*;
use libgssapi::ctl::{self, Ev};
use rsasl::callback::{Context, Request, SessionData};
use rsasl::mechanisms::gssapi::{properties::{GssSecurityLayer, GssService, SecurityLayer}, GSSAPI};
use rsasl::prelude::{Mechanism, SessionError};
use rsasl::property::Hostname;
pub static G: [Mechanism; 1] = [GSSAPI];
/// security layers the application accepts
pub static mut ACCEPT: Option<u8> = None;
static mut SERVICE: bool = true;
fn hook(_: &SessionData, _: &Context, req: &mut Request) -> Result<(), SessionError> {
    if unsafe { SERVICE } { req.satisfy::<GssService>("imap")?; }
    req.satisfy::<Hostname>("mail.example")?;
    if let Some(x) = unsafe { ACCEPT } { req.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_truncate(x))?; }
    Ok(())
}
pub fn setup(accept: Option<u8>) { unsafe { ACCEPT = accept; SERVICE = true; } w().hook = Some(hook); }
const MUTUAL: u32 = 2;
const CONF: u32 = 16;
const INTEG: u32 = 32;
struct Log { complete: bool, unwrap: Option<(bool, Vec<u8>, bool)>, wrap: Option<(bool, Vec<u8>, bool, bool)>, steps: usize, failed: bool, after_fail: bool }
/// The last of each kind of call to the library.
fn log() -> Log {
    let mut l = Log { complete: false, unwrap: None, wrap: None, steps: 0, failed: false, after_fail: false };
    for e in ctl::log() {
        l.after_fail |= l.failed;
        match e {
            Ev::Step { ok, complete, .. } => { l.complete = complete; l.steps += 1; l.failed |= !ok; }
            Ev::Unwrap { ok, out, complete, .. } => { l.unwrap = Some((ok, out, complete)); l.failed |= !ok; }
            Ev::Wrap { encrypt, msg, ok, complete } => { l.wrap = Some((encrypt, msg, ok, complete)); l.failed |= !ok; }
            _ => {}
        }
    }
    l
}
fn flags() -> u32 { unsafe { ctl::FLAGS } }
/// The layers out of `accept` that the context has in the strictest reading.
fn usable(accept: u8) -> u8 { accept & if flags() & (CONF | MUTUAL | INTEG) == CONF | MUTUAL | INTEG { 7 } else if flags() & INTEG != 0 { 3 } else { 1 } }
/// Every layer in `l` is one that the context has.
fn has_layers(l: u8) -> bool { ((l & 4 == 0) | (flags() & CONF != 0)) & ((l & 2 == 0) | (flags() & INTEG != 0)) }
fn single(l: u8) -> bool { (l == 1) | (l == 2) | (l == 4) }
/// With a security layer everything goes through it, without one nothing does.
fn layer<V: rsasl::validate::Validation>(s: &mut rsasl::prelude::Session<V, Cb>, on: bool, conf: bool) {
    check(2901, s.has_security_layer() == on); // reported exactly if negotiated
    let n = ctl::log().len();
    let m = upto(1);
    let mut out = Vec::new();
    let r = s.encode(&m, &mut out);
    let ok = r.is_ok();
    core::mem::forget(r);
    if !on { check(2902, !ok && out.is_empty() && ctl::log().len() == n); return; } // nothing is sent through a layer that is not there
    match &ctl::log()[n] {
        Ev::Wrap { encrypt, msg, ok: k, .. } => {
            check(2903, *encrypt == conf && same(msg, &m)); // the data, encrypted if that was negotiated
            check(2904, ok == *k && if ok { same(&out, &cat(&[if conf { b"E" } else { b"W" }, &m])) } else { out.is_empty() });
        }
        _ => check(2905, false),
    }
    let n = ctl::log().len();
    let mut out = Vec::new();
    let r = s.decode(b"data", &mut out);
    let ok = r.is_ok();
    core::mem::forget(r);
    match &ctl::log()[n] {
        Ev::Unwrap { input, ok: k, out: o, .. } => check(2906, same(input, b"data") && ok == *k && if ok { same(&out, o) } else { out.is_empty() }), // only authenticated data is let through
        _ => check(2907, false),
    }
}
/// C29, C01, C18: a server; every answer of the library, every message. param 0: steps, 1: longest content of an unwrapped message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_gss_server() {
    reset();
    let w = w();
    let a = choose(9);
    setup(if a == 8 { None } else { Some(a as u8) });
    unsafe { ctl::MAXLEN = param(1); }
    let accept = if a == 8 { 7 } else { a as u8 };
    w.verdict = choose(2) as u8;
    let mut s = server(&G, "GSSAPI");
    w.told = Some(("GSSAPI", rsasl::registry::Side::Server));
    check(2402, !s.are_we_first());
    let mut offer: Option<u8> = None;
    let mut retry = false;
    for _ in 0..param(0) {
        let i: Option<&[u8]> = if flag() { Some(&b"tok"[..choose(2) * 3]) } else { None };
        let (before, events) = (log(), ctl::log().len());
        let (k, out) = step(&mut s, i);
        let l = log();
        if i.is_none() && !(before.complete && before.wrap.is_none()) { check(2513, k == St::Need); } // says that it needs input
        if retry && i.is_some() { check(2514, ctl::log().len() > events); } // and goes on when it gets it
        retry = k == St::Need;
        check(2911, !l.after_fail); // after an error of the library nothing more is asked of it
        if i.is_some() && !before.complete && before.steps > 0 { check(2426, l.steps == before.steps + 1); } // as long as the context is not established every message is handed to the library
        if before.complete && before.wrap.is_none() { check(2427, l.wrap.is_some()); } // an established context is followed by the offer
        if l.complete && !before.complete && !l.failed && usable(accept) != 0 { check(2941, k == St::Running); } // there is a layer to offer: the exchange goes on [C29 C24]
        if l.wrap.is_some() && before.wrap.is_none() {
            let (enc, m, ok, complete) = l.wrap.clone().unwrap();
            check(2912, !enc && m.len() == 4 && complete); // offers after the context is established
            let o = m.get(0).copied().unwrap_or(0xff);
            check(2913, o != 0 && o & !accept == 0 && has_layers(o)); // only layers that the application accepts and the context has
            check(2914, o & 6 != 0 || m[1] == 0 && m[2] == 0 && m[3] == 0); // no buffer size without a layer
            offer = Some(o);
            check(2915, ok == (k == St::Running) && (!ok || same(&out[..1], b"W"))); // and sends it
        }
        if k.finished() {
            let (ok, o, complete) = l.unwrap.clone().unwrap_or((false, vec![], false));
            let o0 = o.get(0).copied().unwrap_or(0);
            check(2916, l.complete && complete && before.unwrap.is_none() && ok); // context established, message authenticated
            check(2917, k == St::Quiet && out.is_empty());
            check(2918, o.len() == 4 && single(o0) && offer.map_or(false, |x| x & o0 != 0)); // one of the layers that were offered
            cover(1);
            layer(&mut s, o0 & 6 != 0, o0 & 4 != 0);
            check(1852, (s.validation() == Some(VALUE)) == (w.verdict == 0 && w.validates.len() == 1)); // a value only from the application
            check(1850, w.validates.len() == 1); // the application approved
            return;
        }
        if let (None, Some((true, o, _))) = (&before.unwrap, &l.unwrap) {
            let o0 = o.get(0).copied().unwrap_or(0);
            check(2919, !(o.len() == 4 && single(o0) && offer.map_or(false, |x| x & o0 != 0))); // a valid choice is accepted
            cover(3);
        }
        check(2920, !s.has_security_layer());
        if i.is_none() && k == St::Need { check(2511, out.is_empty() && l.steps == before.steps && l.unwrap.is_some() == before.unwrap.is_some()); continue; }
        if k != St::Running { cover(2); layer(&mut s, false, false); return; }
        check(2923, !l.failed); // failures of the library are errors
    }
}
/// C29, C02: a client; every answer of the library, every message. param 0: steps, 1: longest content of an unwrapped message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_gss_client() {
    reset();
    let a = choose(9);
    setup(if a == 8 { None } else { Some(a as u8) });
    unsafe { ctl::MAXLEN = param(1); SERVICE = flag(); }
    let accept = if a == 8 { 7 } else { a as u8 };
    let mut s = client(&G, "GSSAPI");
    crate::common::w().told = Some(("GSSAPI", rsasl::registry::Side::Client));
    check(2401, s.are_we_first());
    let mut first = true;
    let mut retry = false;
    for _ in 0..param(0) {
        let i: Option<&[u8]> = if !first && flag() { Some(&b"tok"[..choose(2) * 3]) } else { None };
        let (before, events) = (log(), ctl::log().len());
        let (k, out) = step(&mut s, i);
        let l = log();
        if i.is_none() && before.complete { check(2515, k == St::Need); } // says that it needs input
        if retry && i.is_some() { check(2516, ctl::log().len() > events); } // and goes on when it gets it
        retry = k == St::Need;
        if first && unsafe { !SERVICE } { check(2930, k == St::Err && out.is_empty() && ctl::log().is_empty()); return; } // no service: an error
        if first { for e in ctl::log() { if let Ev::Name(n) = e { check(2931, same(&n, b"imap@mail.example")); } } } // the service and host of the application
        first = false;
        check(2932, !l.after_fail);
        if !before.complete && before.steps > 0 && k != St::Need { check(2428, l.steps == before.steps + 1); } // as long as the context is not established every message is handed to the library
        if let (None, Some((enc, m, ok, complete))) = (&before.wrap, &l.wrap) {
            // the server's message
            let (uok, o, ucomplete) = l.unwrap.clone().unwrap_or((false, vec![], false));
            let o0 = o.get(0).copied().unwrap_or(0);
            let m0 = m.get(0).copied().unwrap_or(0);
            check(2933, *complete && ucomplete && uok && o.len() == 4); // chooses only after the context is established and the offer authenticated
            check(2934, !*enc && m.len() == 4 && single(m0) && o0 & m0 != 0); // one layer that the server offers
            check(2935, accept & m0 != 0 && has_layers(m0)); // that the application accepts and the context has
            check(2936, m0 & 6 != 0 || m[1] == 0 && m[2] == 0 && m[3] == 0);
            check(2937, *ok == (k == St::Sent) && if *ok { same(&out, &cat(&[b"W", m])) } else { out.is_empty() }); // and sends the choice
            if k.finished() { cover(1); layer(&mut s, m0 & 6 != 0, m0 & 4 != 0); } else { cover(4); layer(&mut s, false, false); }
            return;
        }
        check(2938, !k.finished()); // not finished otherwise
        check(2939, !s.has_security_layer());
        if let (None, Some((true, o, _))) = (&before.unwrap, &l.unwrap) {
            cover(3);
            let o0 = o.get(0).copied().unwrap_or(0);
            check(2940, !(o.len() == 4 && o0 & !7 == 0 && o0 & usable(accept) != 0)); // a usable offer is accepted
        }
        if k == St::Need { check(2512, i.is_none() && out.is_empty() && l.steps == before.steps && l.unwrap.is_some() == before.unwrap.is_some()); continue; }
        if k != St::Running { cover(2); layer(&mut s, false, false); return; }
        check(2942, !l.failed);
    }
}

/// C30: application data after the exchange, every sequence of operations. param 0: side, 1: operations, 2: longest data, 3: deviations of the writer
#[no_mangle] #[inline(never)]
pub extern "C" fn h_layer() {
    use crate::writer::Faulty;
    reset();
    setup(Some(7));
    unsafe { ctl::MAXLEN = 4; ctl::FAIL = 0; }
    let side = param(0);
    let mut s = crate::servers::Sess::new(crate::servers::GSS, side);
    let mut fin = false;
    let mut agreed = 0;
    for n in 0..3 {
        let d = s.step(if side == 1 && n == 0 { None } else { Some(b"tok") });
        if d.k.finished() { fin = true; break; }
        if d.k != St::Running { return; }
    }
    if !fin { return; }
    for e in ctl::log() { match e { Ev::Wrap { msg, .. } if side == 1 => agreed = msg[0], Ev::Unwrap { out, .. } if side == 0 => agreed = out[0], _ => {} } }
    let (on, conf) = (agreed & 6 != 0, agreed & 4 != 0);
    unsafe { ctl::FAIL = 4; ctl::MAXLEN = param(2); }
    for _ in 0..param(1) {
        let enc = flag();
        let data = upto(param(2));
        let n = ctl::log().len();
        let mut f = Faulty::new(param(3));
        let r = match &mut s { crate::servers::Sess::S(s) => if enc { s.encode(&data, &mut f) } else { s.decode(&data, &mut f) }, crate::servers::Sess::C(s) => if enc { s.encode(&data, &mut f) } else { s.decode(&data, &mut f) } };
        let none = matches!(r, Err(SessionError::NoSecurityLayer));
        let got = r.as_ref().ok().copied();
        core::mem::forget(r);
        obs(7, got.map_or(99, |x| x as u64));
        let on_now = match &s { crate::servers::Sess::S(s) => s.has_security_layer(), crate::servers::Sess::C(s) => s.has_security_layer() };
        check(3001, on_now == on); // the layer is there exactly if it was negotiated, and stays
        if !on { cover(1); check(3002, none && f.data.is_empty() && f.calls == 0 && ctl::log().len() == n); continue; } // without a layer: the dedicated error, nothing written
        check(3003, ctl::log().len() == n + 1); // one call of the library for every operation
        let want = match &ctl::log()[n] {
            Ev::Wrap { encrypt, msg, ok, .. } if enc => { check(3004, *encrypt == conf && same(msg, &data)); if *ok { Some(cat(&[if conf { b"E" } else { b"W" }, &data])) } else { None } } // exactly the data, encrypted if confidentiality was agreed
            Ev::Unwrap { input, ok, out, .. } if !enc => { check(3005, same(input, &data)); if *ok { Some(out.clone()) } else { None } } // exactly the received bytes
            _ => { check(3006, false); None }
        };
        match want {
            None => { cover(2); check(3007, got.is_none() && f.data.is_empty() && f.calls == 0); } // what the library refuses is an error and nothing is let through
            Some(_) if f.failed => { cover(3); check(3008, got.is_none()); } // a failing writer is an error
            Some(x) => { cover(4); check(3009, got == Some(data.len()) && same(&f.data, &x)); } // all of it, and the number of bytes taken from the input
        }
    }
}
