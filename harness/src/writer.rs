//! Writers that misbehave, and base64 framing.
use crate::common::*;
use crate::scram::{b64, proofs, P, PLUS};
use crate::servers::{equip, is_plus, is_scram, Peer, Sess, ALG, GSS};
use core2::io::{self, IoSlice, Write};
use rsasl::prelude::*;

/// A writer that accepts, in every way a writer can, up to a number of deviations from taking everything.
pub struct Faulty { pub data: Vec<u8>, pub left: usize, pub vectored: bool, pub failed: bool, pub calls: usize, pub flushed: usize, pub coarse: bool }
impl Faulty {
    pub fn new(left: usize) -> Faulty { Faulty { data: Vec::new(), left, vectored: flag(), failed: false, calls: 0, flushed: 0, coarse: false } }
    /// how many of `n` bytes are taken
    fn take(&mut self, n: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.left == 0 || n == 0 { return Ok(n); }
        match choose(5) {
            0 => Ok(n),
            1 => { if n == 1 { return Ok(1); } self.left -= 1; if self.coarse { let p = [1, n / 2, n - 1, 255.min(n - 1), 1024.min(n - 1), 4096.min(n - 1)]; let i = choose(6); assume(p[i] > 0 && !p[..i].contains(&p[i])); return Ok(p[i]); } Ok(1 + crate::scram::choose16(n - 1)) }
            2 => { self.left -= 1; Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")) }
            3 => { self.left = 0; self.failed = true; Ok(0) }
            _ => { self.left = 0; self.failed = true; Err(io::Error::new(if flag() { io::ErrorKind::Other } else { io::ErrorKind::UnexpectedEof }, "failed")) }
        }
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = self.take(b.len())?; self.data.extend_from_slice(&b[..n]); Ok(n) }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.vectored { return match bufs.iter().find(|b| !b.is_empty()) { Some(b) => self.write(b), None => self.write(&[]) }; }
        let mut n = 0;
        for b in bufs { n += b.len(); }
        let mut k = self.take(n)?;
        let all = k;
        for b in bufs { let x = if b.len() < k { b.len() } else { k }; self.data.extend_from_slice(&b[..x]); k -= x; }
        Ok(all)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed += 1; Ok(()) }
}
fn raw(s: &mut Sess, m: Option<&[u8]>, w: &mut Faulty) -> St { let r = match s { Sess::S(s) => s.step(m, w), Sess::C(s) => s.step(m, w) }; let k = st(&r); core::mem::forget(r); obs(5, k as u64); k }
fn raw64(s: &mut Sess, m: Option<&[u8]>, w: &mut Faulty) -> (St, bool) { let r = match s { Sess::S(s) => s.step64(m, w), Sess::C(s) => s.step64(m, w) }; let k = st(&r); let b = matches!(r, Err(SessionError::Base64 { .. })); core::mem::forget(r); obs(6, k as u64); (k, b) }
/// Messages that lead to every kind of reply.
fn stimulus(kind: usize, side: usize, n: usize, prev: &[u8], peer: &mut Peer) -> Vec<u8> {
    let good = if side == 0 { peer.client(n, prev) } else { peer.server(n, prev) };
    if side == 0 && is_scram(kind) && flag() {
        return if n == 0 { if is_plus(kind) { b"n,,n=user,r=abc".to_vec() } else { b"n,,m=x,n=user,r=abc".to_vec() } }
            else { let mut g = good.unwrap_or_default(); let l = g.len(); if l > 8 { g[l - 5] = if g[l - 5] == b'A' { b'B' } else { b'A' }; } g };
    }
    good.unwrap_or_default()
}
fn prepare(kind: usize, side: usize) {
    reset();
    equip(kind);
    let w = w();
    w.authid = Some(string_between(1, 1));
    if kind == 6 { unsafe { libgssapi::ctl::MAXLEN = 4; } }
    if is_scram(kind) { w.authid = Some("user".into()); w.salted = Some(crate::scram::hi(ALG[kind - 7], b"pencil", b"salt", 2)); if side == 0 && flag() { w.stored = None; } }
    if side == 1 && !is_scram(kind) && flag() { w.authzid = None; w.trace = None; }
    if side == 0 && (kind == 4 || kind == 5) { w.oans = 1 + choose(2) as u8; w.oerr = [Some("no".into()), if flag() { Some("s".into()) } else { None }, None]; }
    rand::ctl::constant();
}
/// C22. param 0: mechanism, 1: side, 2: steps, 3: deviations of the writer
#[no_mangle] #[inline(never)]
pub extern "C" fn h_writer() {
    let (kind, side) = (param(0), param(1));
    prepare(kind, side);
    let (mut a, mut b) = (Sess::new(kind, side), Sess::new(kind, side));
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    for n in 0..param(2) {
        let m = if n == 0 && a.first() { None } else { Some(stimulus(kind, side, n, &prev, &mut peer)) };
        let x = a.step(m.as_deref());
        let mut f = Faulty::new(if n + 1 == param(2) || flag() { param(3) } else { 0 });
        let k = raw(&mut b, m.as_deref(), &mut f);
        if f.failed { check(2203, k == St::Err); cover(1); return; } // a failing writer is an error
        check(2204, k == x.k); // otherwise the result is the same
        check(2205, !k.ok() || same(&f.data, &x.out)); // and exactly the complete message is written
        if k != St::Running { cover(2); return; }
        cover(3);
        prev = x.out;
    }
}
/// The message, if `t` is its base64 text (RFC 4648, with padding).
fn decode(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 { return None; }
    let mut v = Vec::new();
    let mut ok = true;
    for (i, q) in t.chunks(4).enumerate() {
        let last = (i + 1) * 4 == t.len();
        let pad = if last { if q[3] == b'=' { if q[2] == b'=' { 2 } else { 1 } } else { 0 } } else { 0 };
        let mut x = 0u32;
        for j in 0..4 { let d = digit(q[j]); ok &= (d < 64) | (j >= 4 - pad); x = x << 6 | if j >= 4 - pad { 0 } else { d }; }
        v.push((x >> 16) as u8);
        if pad < 2 { v.push((x >> 8) as u8); } else { ok &= x & 0xffff == 0; }
        if pad < 1 { v.push(x as u8); } else { ok &= x & 0xff == 0; }
    }
    if ok { Some(v) } else { None }
}
/// Branch-free value of a base64 character, 64 if it is none.
fn digit(c: u8) -> u32 {
    let r = |lo: u8, hi: u8, base: u8| if (c >= lo) & (c <= hi) { (c - lo + base) as u32 + 1 } else { 0 };
    let d = r(b'A', b'Z', 0) | r(b'a', b'z', 26) | r(b'0', b'9', 52) | r(b'+', b'+', 62) | r(b'/', b'/', 63);
    if d == 0 { 64 } else { d - 1 }
}
/// C23: the well-behaved peer's messages, and every writer. param 0: mechanism, 1: side, 2: steps, 3: deviations of the writer
#[no_mangle] #[inline(never)]
pub extern "C" fn h_step64() {
    let (kind, side) = (param(0), param(1));
    prepare(kind, side);
    let (mut a, mut b) = (Sess::new(kind, side), Sess::new(kind, side));
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    for n in 0..param(2) {
        let m = if n == 0 && a.first() { None } else { Some(stimulus(kind, side, n, &prev, &mut peer)) };
        let t = m.as_ref().map(|m| b64(m));
        let x = a.step(m.as_deref());
        let want = b64(&x.out);
        let mut f = Faulty::new(if n + 1 == param(2) || flag() { param(3) } else { 0 });
        let (k, bad) = raw64(&mut b, t.as_deref(), &mut f);
        check(2301, !bad); // the text of a message is decoded
        if f.failed { check(2302, k == St::Err); cover(1); return; } // a failing writer is an error
        check(2303, k == x.k); // the same result
        check(2304, same(&f.data, if k.ok() { &want } else { b"" })); // exactly the text of the message
        if k != St::Running { cover(2); return; }
        cover(3);
        prev = x.out;
    }
}
/// C23: any text. param 0: mechanism, 1: side, 2: longest text, 3: steps of the well-behaved peer before it
#[no_mangle] #[inline(never)]
pub extern "C" fn h_step64_any() {
    let (kind, side) = (param(0), param(1));
    prepare(kind, side);
    let w = w();
    let (mut a, mut b) = (Sess::new(kind, side), Sess::new(kind, side));
    let mut peer = Peer::new(kind);
    let mut prev = Vec::new();
    for n in 0..param(3) {
        let m = if n == 0 && a.first() { None } else { Some(if side == 0 { peer.client(n, &prev) } else { peer.server(n, &prev) }.unwrap_or_default()) };
        let x = a.step(m.as_deref());
        b.step(m.as_deref());
        if x.k != St::Running { return; }
        prev = x.out;
    }
    let t = upto(param(2));
    let (asked, v) = (w.asked, w.validates.len());
    let mut f = Faulty::new(0);
    let (k, bad) = raw64(&mut b, Some(&t), &mut f);
    match decode(&t) {
        None => {
            check(2305, bad && k == St::Err && f.data.is_empty()); // refused
            check(2306, w.asked == asked && w.validates.len() == v); // before anybody sees it
            // the session goes on with the valid message
            let m = if side == 0 { peer.client(param(3), &prev) } else { peer.server(param(3), &prev) }.unwrap_or_default();
            let x = a.step(Some(&m));
            let y = b.step(Some(&m));
            check(2307, x.k == y.k && same(&x.out, &y.out));
            cover(1);
        }
        Some(m) => {
            check(2308, !bad); // accepted
            let n = w.validates.len();
            let x = a.step(Some(&m));
            check(2309, x.k == k && same(&f.data, &if k.ok() { b64(&x.out) } else { Vec::new() })); // as the plain step
            check(2310, w.validates.len() - n == n - v && (n == v || crate::servers::same_seen(&w.validates[n..], &w.validates[v..n]))); // which gets the same message
            cover(2);
        }
    }
}
/// C22, C23: GSSAPI: what the library produces reaches the writer. param 0: side, 1: steps, 2: deviations, 3: 1 base64
#[no_mangle] #[inline(never)]
pub extern "C" fn h_writer_gss() {
    use libgssapi::ctl::{self, Ev};
    let side = param(0);
    reset();
    equip(GSS);
    crate::gss::setup(Some(7));
    unsafe { ctl::MAXLEN = 4; ctl::FAIL = 0; }
    let mut s = Sess::new(GSS, side);
    let produced = |from: usize| { let mut v = Vec::new(); for e in &ctl::log()[from..] { match e { Ev::Step { ok: true, out: Some(o), .. } => v.extend_from_slice(o), Ev::Wrap { encrypt, msg, ok: true, .. } => { v.push(if *encrypt { b'E' } else { b'W' }); v.extend_from_slice(msg); } _ => {} } } v };
    for n in 0..param(1) {
        let m: Option<&[u8]> = if n == 0 && side == 1 { None } else if param(3) == 1 { Some(b"dG9r") } else { Some(b"tok") };
        let from = ctl::log().len();
        let mut f = Faulty::new(if flag() { param(2) } else { 0 });
        let k = if param(3) == 1 { raw64(&mut s, m, &mut f).0 } else { raw(&mut s, m, &mut f) };
        let want = produced(from);
        let want = if param(3) == 1 { b64(&want) } else { want };
        if f.failed { check(2207, k == St::Err); check(2311, k == St::Err); cover(1); return; } // a failing writer is an error
        check(2208, !k.ok() || same(&f.data, &want)); // otherwise the token is complete
        check(2312, !k.ok() || same(&f.data, &want)); // otherwise the text of the token is complete
        if k.finished() {
            let secure = match &s { Sess::S(s) => s.has_security_layer(), Sess::C(s) => s.has_security_layer() };
            if secure && param(3) == 0 {
                let data = upto(2);
                let from = ctl::log().len();
                let mut f = Faulty::new(param(2));
                let r = match &mut s { Sess::S(s) => s.encode(&data, &mut f), Sess::C(s) => s.encode(&data, &mut f) };
                let ok = r.is_ok();
                core::mem::forget(r);
                let want = produced(from);
                check(2209, ok != f.failed); // protected data is written completely, or it is an error
                check(2210, !ok || same(&f.data, &want));
                cover(4);
            }
            cover(2); return;
        }
        if k != St::Running { return; }
        cover(3);
    }
}

/// C22, C23: long messages. param 0: 0 PLAIN, 1 LOGIN, 2 ANONYMOUS, 3 EXTERNAL, 4 XOAUTH2, 5 OAUTHBEARER, 1: number of lengths, 2: deviations of the writer, 3: 1 base64
#[no_mangle] #[inline(never)]
pub extern "C" fn h_long_writer() {
    let (kind, n, dev, text) = (param(0), param(1), param(2), param(3) == 1);
    reset();
    equip(kind);
    let w = w();
    unsafe { crate::long::FREE = param(4) == 1; }
    let x = crate::long::long_string(n);
    w.authid = Some(x.clone());
    w.authzid = Some(x.clone());
    w.trace = Some(x.clone());
    let (mut a, mut b, mut c) = (Sess::new(kind, 1), Sess::new(kind, 1), Sess::new(kind, 0));
    w.told = None; // both sides are stepped
    let p = if kind == 1 { Some(c.step(None).out) } else { None };
    let x = a.step(p.as_deref());
    let mut f = Faulty::new(dev);
    f.coarse = true;
    let k = if text { let t = p.as_ref().map(|p| b64(p)); raw64(&mut b, t.as_deref(), &mut f).0 } else { raw(&mut b, p.as_deref(), &mut f) };
    if f.failed { check(2220, k == St::Err); check(2320, k == St::Err); cover(1); return; } // a failing writer is an error
    check(2221, text || k == x.k && same(&f.data, &x.out)); // the whole message
    check(2321, !text || k == x.k && same(&f.data, &b64(&x.out))); // the text of the whole message
    if !text { cover(2); return; }
    // and back
    let mut d = Sess::new(kind, 0);
    w.told = None;
    if kind == 1 { d.step(None); }
    w.validates.clear();
    w.oseen.clear();
    let y = c.step(Some(&x.out));
    let (v1, o1) = (w.validates.clone(), w.oseen.clone());
    w.validates.clear();
    w.oseen.clear();
    let mut f = Faulty::new(0);
    let (k, bad) = raw64(&mut d, Some(&b64(&x.out)), &mut f);
    check(2322, !bad && k == y.k && same(&f.data, &b64(&y.out)) && crate::servers::same_seen(&v1, &w.validates) && crate::servers::same_seen(&o1, &w.oseen)); // the mechanism gets the whole message
    cover(2);
}
