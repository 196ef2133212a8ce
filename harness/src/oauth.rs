//! XOAUTH2, OAUTHBEARER.
use crate::common::*;
use rsasl::mechanisms::{oauthbearer::OAUTHBEARER, xoauth2::XOAUTH2};
use rsasl::prelude::Mechanism;
static X: [Mechanism; 1] = [XOAUTH2];
static O: [Mechanism; 1] = [OAUTHBEARER];


/// C16: client message, and what a server makes of it. param 0: longest user, 1: longest token.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_xoauth2_pair() {
    reset();
    let w = w();
    if flag() { w.authid = Some(string_between(0, param(0))); }
    if flag() { w.token = Some(string_between(0, param(1))); }
    let mut c = client(&X, "XOAUTH2");
    check(1601, c.are_we_first()); // the client goes first
    let (k, m) = step(&mut c, None);
    if w.authid.is_none() || w.token.is_none() { cover(1); check(1602, k == St::Err); return; } // both are needed
    let (u, t) = (w.authid.clone().unwrap(), w.token.clone().unwrap());
    let bad = has(u.as_bytes(), 1) | has(t.as_bytes(), 1);
    check(1603, (k == St::Running) != bad); // refused exactly if it can not be represented
    if k != St::Running { cover(2); check(1604, k == St::Err); return; } // an error
    check(1605, same(&m, &cat(&[b"user=", u.as_bytes(), b"\x01auth=Bearer ", t.as_bytes(), b"\x01\x01"]))); // the message is user=U^Aauth=Bearer T^A^A
    let mut s = server(&X, "XOAUTH2");
    w.oans = 1;
    let (k, out) = step(&mut s, Some(&m));
    cover(3);
    check(1606, k == St::Quiet && out.is_empty()); // the server accepts
    check(1607, w.oseen.len() == 1 && same_opt(&w.oseen[0].authid, Some(u.as_bytes())) && same_opt(&w.oseen[0].token, Some(t.as_bytes()))); // and saw exactly user and token
    let (k, out) = step(&mut c, if flag() { Some(b"") } else { None });
    check(1608, k == St::Quiet && out.is_empty()); // without an error the client is done
}
/// C16: raw messages. param 0: longest message.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_xoauth2_server() {
    reset();
    let w = w();
    w.verdict = choose(3) as u8;
    w.oans = choose(3) as u8;
    w.oerr[0] = Some(string_between(0, 2));
    let m = upto(param(0));
    let mut s = server(&X, "XOAUTH2");
    let (k, out) = step(&mut s, Some(&m));
    if k.ok() { check(114, m.len() >= 20 && is_utf8(&m)); } // truncated or not UTF-8: an error
    let (pre, mid, end): (&[u8], &[u8], &[u8]) = (b"user=", b"\x01auth=Bearer ", b"\x01\x01");
    // the first ^A ends the user
    let mut at = m.len();
    for i in 0..m.len() { if m[i] == 1 { at = i; break; } }
    let good = at < m.len() && m.len() >= at + mid.len() + end.len() && at >= pre.len() && same(&m[..pre.len()], pre) && same(&m[at..at + mid.len()], mid) && same(&m[m.len() - 2..], end);
    let mut fields = None;
    if good { let (u, t) = (&m[pre.len()..at], &m[at + mid.len()..m.len() - 2]); if is_utf8(u) && is_utf8(t) { fields = Some((u, t)); } }
    let (u, t) = match fields { Some(x) => x, None => { cover(1); check(1611, k == St::Err && out.is_empty() && w.oseen.is_empty() && w.validates.is_empty()); return; } }; // malformed: refused without asking
    check(1612, w.oseen.len() == 1 && same_opt(&w.oseen[0].authid, Some(u)) && same_opt(&w.oseen[0].token, Some(t))); // the application sees user and token
    for v in &w.validates { check(1613, same_opt(&v.authid, Some(u)) && same_opt(&v.token, Some(t))); } // so does validation
    match w.oans {
        0 => { cover(2); check(1614, k == St::Err && out.is_empty() && s.validation().is_none()); } // no answer: an error
        1 => {
            cover(3);
            check(1615, w.validates.len() == 1 && out.is_empty() && if w.verdict == 1 { k == St::Err } else { k == St::Quiet }); // accepted: finished without a message if validated
            check(1616, s.validation() == if w.verdict == 0 { Some(VALUE) } else { None });
        }
        _ => {
            check(1617, same(&out, w.oerr[0].as_ref().unwrap().as_bytes())); // refused: exactly the application's error is sent
            check(1618, if w.verdict == 1 { k == St::Err } else { k == St::Running }); // and the server waits for the reply
            if k == St::Running { cover(4); let r = upto(1); let (k, out) = step(&mut s, Some(&r)); check(1619, !matches!(k, St::Running | St::Sent) && out.is_empty()); } // the exchange then ends without another message
        }
    }
}
/// C16: client and server error. param 0: longest error.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_xoauth2_client_error() {
    reset();
    let w = w();
    w.authid = Some("u".into());
    w.token = Some("t".into());
    w.take = flag();
    let mut c = client(&X, "XOAUTH2");
    let (k, _) = step(&mut c, None);
    check(1621, k == St::Running);
    let e = between(1, param(0));
    let (k, _) = step(&mut c, Some(&e));
    if !is_utf8(&e) { cover(1); check(1622, k == St::Err && w.reported.is_empty()); } // not UTF-8: an error
    else if w.take { cover(2); check(1623, k.finished() || k == St::Err); check(1624, w.reported.len() == 1 && same_opt(&w.reported[0][0], Some(&e))); } // the application gets exactly the error, before the client finishes
    else { cover(3); check(1625, k == St::Err); } // an error nobody takes is an error
}

fn unesc(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'=' { v.push(b[i]); i += 1; continue; }
        if i + 2 >= b.len() { return None; }
        if b[i + 1] == b'2' && b[i + 2] == b'C' { v.push(b','); } else if b[i + 1] == b'3' && b[i + 2] == b'D' { v.push(b'='); } else { return None; }
        i += 3;
    }
    Some(v)
}
/// C17: what a client sends a server exposes. param 0: longest authzid, 1: token, 2: pairs, 3: key/value.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_oauthbearer_pair() {
    reset();
    let w = w();
    if flag() { w.authzid = Some(string_between(0, param(0))); }
    if flag() { w.token = Some(string_between(0, param(1))); }
    let n = choose(param(2) + 1);
    for _ in 0..n { let k = if n == 1 && flag() { "auth".into() } else { string_between(0, param(3)) }; let v = string_between(0, param(3)); w.kv.push((k, v)); }
    let mut c = client(&O, "OAUTHBEARER");
    check(1701, c.are_we_first()); // the client goes first
    let (k, m) = step(&mut c, None);
    let t = match &w.token { None => { cover(1); check(1702, k == St::Err); return; } Some(t) => t.clone() }; // a token is needed
    let mut bad = has(t.as_bytes(), 1);
    for (a, b) in &w.kv { bad |= has(a.as_bytes(), 1) | has(b.as_bytes(), 1) | has(a.as_bytes(), b'=') | same(a.as_bytes(), b"auth"); }
    if let Some(z) = &w.authzid { bad |= has(z.as_bytes(), 1); }
    if !bad { check(1703, k == St::Running); } // what can be represented is sent
    if k != St::Running { cover(2); check(1704, k == St::Err); return; } // refused with an error
    let mut s = server(&O, "OAUTHBEARER");
    w.oans = 1;
    let (k, out) = step(&mut s, Some(&m));
    cover(3);
    check(1705, k == St::Quiet && out.is_empty()); // the server accepts
    check(1706, w.oseen.len() == 1); // the application is asked once
    if let Some(v) = w.oseen.get(0) {
        check(1707, same_opt(&v.token, Some(t.as_bytes()))); // exactly the token
        check(1708, same_opt(&v.authzid, w.authzid.as_ref().map(|x| x.as_bytes()))); // exactly the authorization identity
        let got: &[(Vec<u8>, Vec<u8>)] = v.kv.as_deref().unwrap_or(&[]);
        check(1709, got.len() == w.kv.len()); // as many pairs
        for (g, x) in got.iter().zip(&w.kv) { check(1710, same(&g.0, x.0.as_bytes()) && same(&g.1, x.1.as_bytes())); } // exactly the pairs, in order
    }
}
/// C17: raw messages. param 0: longest message. param 1: 1 to start with "n," and 2 to also fix "auth=".
#[no_mangle] #[inline(never)]
pub extern "C" fn h_oauthbearer_server() {
    reset();
    let w = w();
    w.verdict = choose(2) as u8;
    w.oans = choose(3) as u8;
    w.oerr[0] = Some("e".into());
    let mut m = match param(1) { 0 => vec![], _ => b"n,".to_vec() };
    m.extend(upto(param(0)));
    if param(1) == 2 { m.extend_from_slice(b"\x01auth="); m.extend(upto(param(2))); m.extend_from_slice(b"\x01\x01"); }
    let mut s = server(&O, "OAUTHBEARER");
    let (k, out) = step(&mut s, Some(&m));
    if k.ok() { check(115, m.len() >= 11 && is_utf8(&m)); } // truncated or not UTF-8: an error
    let p = parse(&m);
    if p.skip { return; }
    let p = match p.ok { true => p, false => { cover(1); check(1711, k == St::Err && out.is_empty() && w.oseen.is_empty() && w.validates.is_empty()); return; } }; // malformed: refused without asking
    check(1712, w.oseen.len() == 1); // the application is asked once
    if let Some(v) = w.oseen.get(0) {
        check(1713, same_opt(&v.token, Some(&p.token))); // it sees the token
        check(1714, same_opt(&v.authzid, p.zid.as_deref())); // the authorization identity
        let got: &[(Vec<u8>, Vec<u8>)] = v.kv.as_deref().unwrap_or(&[]);
        check(1715, got.len() == p.kv.len()); // and the pairs
        for (g, x) in got.iter().zip(&p.kv) { check(1716, same(&g.0, &x.0) && same(&g.1, &x.1)); }
    }
    match w.oans {
        0 => { cover(2); check(1717, k == St::Err && out.is_empty()); } // no answer: an error
        1 => { cover(3); check(1718, w.validates.len() == 1 && out.is_empty() && if w.verdict == 1 { k == St::Err } else { k == St::Quiet }); } // accepted
        _ => {
            check(1719, same(&out, b"{\"status\":\"e\"}")); // refused: the application's error is sent
            check(1720, if w.verdict == 1 { k == St::Err } else { k == St::Running }); // and the server waits for the reply
            if k == St::Running { cover(4); let r = upto(1); let (k, out) = step(&mut s, Some(&r)); check(1721, !matches!(k, St::Running | St::Sent) && out.is_empty()); } // the exchange then ends without another message
        }
    }
}
struct Msg { ok: bool, skip: bool, token: Vec<u8>, zid: Option<Vec<u8>>, kv: Vec<(Vec<u8>, Vec<u8>)> }
fn parse(m: &[u8]) -> Msg {
    let mut r = Msg { ok: false, skip: false, token: vec![], zid: None, kv: vec![] };
    let l = m.len();
    if l < 2 || m[l - 2] != 1 || m[l - 1] != 1 { return r; }
    let m = &m[..l - 2];
    let mut parts: Vec<&[u8]> = Vec::new();
    let mut b = 0;
    for i in 0..m.len() { if m[i] == 1 { parts.push(&m[b..i]); b = i + 1; } }
    parts.push(&m[b..]);
    let g = parts[0];
    // n,[a=saslname],
    if g.len() < 3 || g[0] != b'n' || g[1] != b',' || g[g.len() - 1] != b',' { return r; }
    let z = &g[2..g.len() - 1];
    if !z.is_empty() {
        if z.len() < 2 || z[0] != b'a' || z[1] != b'=' || has(z, b',') || !is_utf8(&z[2..]) { return r; }
        match unesc(&z[2..]) { None => return r, Some(x) => r.zid = Some(x) }
    }
    let mut toks = 0;
    for p in &parts[1..] {
        let mut e = p.len();
        for i in 0..p.len() { if p[i] == b'=' { e = i; break; } }
        if e == p.len() { return r; }
        let (k, v) = (&p[..e], &p[e + 1..]);
        if !is_utf8(k) || !is_utf8(v) { return r; }
        if same(k, b"auth") {
            toks += 1;
            r.token = if v.len() >= 7 && same(&v[..7], b"Bearer ") { v[7..].to_vec() } else { v.to_vec() };
        } else { r.kv.push((k.to_vec(), v.to_vec())); }
    }
    if toks == 0 { return r; }
    if toks > 1 { r.skip = true; } // which of several tokens counts is not specified
    r.ok = true;
    r
}
/// C17: errors travel to the client's application. param 0: longest text.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_oauthbearer_error() {
    reset();
    let w = w();
    w.oans = 2;
    w.oerr[0] = Some(string_between(0, param(0)));
    if flag() { w.oerr[1] = Some(string_between(0, param(1))); }
    if flag() { w.oerr[2] = Some(string_between(0, param(1))); }
    w.token = Some("t".into());
    let mut c = client(&O, "OAUTHBEARER");
    let (k, m) = step(&mut c, None);
    check(1731, k == St::Running);
    let mut s = server(&O, "OAUTHBEARER");
    let (k, e) = step(&mut s, Some(&m));
    check(1732, k == St::Running); // a refusal is sent
    w.oans = 0;
    let (k, r) = step(&mut c, Some(&e));
    check(1733, k.finished() || k == St::Err);
    check(1734, w.reported.len() == 1); // the client's application gets it once
    if let Some(x) = w.reported.get(0) { for i in 0..3 { check(1735, same_opt(&x[i], w.oerr[i].as_ref().map(|x| x.as_bytes()))); } } // exactly as given
    cover(1);
    if k == St::Sent { let (k, _) = step(&mut s, Some(&r)); check(1736, k == St::Quiet || k == St::Err); } // and the server ends the exchange
}
/// C17: raw server messages. param 0: longest.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_oauthbearer_client_raw() {
    reset();
    let w = w();
    w.token = Some("t".into());
    w.take = flag();
    let mut c = client(&O, "OAUTHBEARER");
    step(&mut c, None);
    let e = if param(1) == 0 { upto(param(0)) } else { let mut v = b"{\"status\":".to_vec(); v.extend(upto(param(0))); v.push(b'}'); v };
    let mut digit = false;
    for &b in &e { digit |= (b >= b'0') & (b <= b'9'); }
    assume(!digit); // numbers are floating point arithmetic
    let (k, _) = step(&mut c, Some(&e));
    if e.is_empty() { cover(1); check(1741, k == St::Quiet); } // nothing: done
    else if k.ok() { cover(2); check(1742, k.finished() && w.take && w.reported.len() == 1); } // finishes only after handing the error over
    else { cover(3); check(1743, k == St::Err); }
}
