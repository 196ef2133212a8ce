//! Long values: lengths around the sizes of buffers, hash blocks and length fields, with some of the bytes free.
use crate::common::*;
use crate::scram::{b64, esc, hi, keys, proofs, BARE, NONCE, P, PLUS, S};
use rsasl::mechanisms::{anonymous::ANONYMOUS, external::EXTERNAL, login::LOGIN, oauthbearer::OAUTHBEARER, plain::PLAIN, xoauth2::XOAUTH2};
use rsasl::prelude::Mechanism;
static ONE: [[Mechanism; 1]; 6] = [[PLAIN], [LOGIN], [ANONYMOUS], [EXTERNAL], [XOAUTH2], [OAUTHBEARER]];
static NAMES: [&str; 6] = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"];
/// Lengths and positions at which something might change.
pub static AT: [usize; 33] = [8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, 2048, 4096, 8192, 65536];
/// A value of one of the first `n` lengths, distinct letters by position, with one free byte at the start, the end or one of the positions.
pub fn long(n: usize) -> Vec<u8> {
    let len = AT[if n > 16 { crate::scram::choose16(n) } else { choose(n) }];
    let mut v: Vec<u8> = (0..len).map(|i| b'a' + (i * 7 % 26) as u8 - if i % 3 == 0 { 32 } else { 0 }).collect();
    if unsafe { FREE } {
        let at = match choose(3) { 0 => 0, 1 => len - 1, _ => len / 2 };
        v[at] = byte();
    }
    v
}
pub static mut FREE: bool = true;
/// A control character that long strings may contain.
static mut SEP: u16 = 256;
/// The same as ASCII without control characters.
pub fn long_string(n: usize) -> String {
    let v = long(n);
    let mut ok = true;
    for &c in &v { ok &= (c >= 32) & (c < 127) | (c as u16 == unsafe { SEP }); }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
fn some(on: bool, n: usize, other: &str) -> String { if on { long_string(n) } else { other.into() } }
fn some_bytes(on: bool, n: usize, other: &[u8]) -> Vec<u8> { if on { long(n) } else { other.to_vec() } }
/// C12..C17: one long value at a time. param 0: mechanism (0 PLAIN, 1 LOGIN, 2 ANONYMOUS, 3 EXTERNAL, 4 XOAUTH2, 5 OAUTHBEARER), 1: number of lengths
#[no_mangle] #[inline(never)]
pub extern "C" fn h_long() {
    reset();
    let (kind, n) = (param(0), param(1));
    let w = w();
    w.oans = 1;
    unsafe { SEP = [0, 256, 256, 256, 1, 1][kind]; }
    let id = 100 * (12 + [0u64, 2, 3, 3, 4, 5][kind]);
    let which = choose([3, 2, 1, 1, 3, 5][kind]);
    let user = some(which == 1, n, "user");
    let zid = some(which == 0, n, "zid");
    let tok = some(which == 2, n, "tok");
    let pw = some_bytes(kind < 2 && (which == 2 || kind == 1 && which == 0), n, b"pencil");
    if kind > 3 && which == 3 { w.kv.push((long_string(n), "v".into())); assume(!has(w.kv[0].0.as_bytes(), b'=')); }
    if kind > 3 && which == 4 { w.kv.push(("k".into(), long_string(n))); }
    w.authid = Some(user.clone());
    w.authzid = Some(zid.clone());
    w.token = Some(tok.clone());
    w.trace = Some(zid.clone());
    w.password = Some(pw.clone());
    let (mut c, mut s) = (client(&ONE[kind], NAMES[kind]), server(&ONE[kind], NAMES[kind]));
    let mut prompt = Vec::new();
    if kind == 1 { prompt = step(&mut s, None).1; }
    let sp = |x: &[u8]| if kind == 0 && is_utf8(x) { stringprep::ctl::of(x) } else { Ok(x.to_vec()) };
    let (k, m) = step(&mut c, if kind == 1 { Some(&prompt) } else { None });
    let sep = |x: &[u8]| matches!(kind, 0 | 4 | 5) && has(x, unsafe { SEP } as u8);
    let bad = (kind != 5 && sep(user.as_bytes())) | (kind != 4 && sep(zid.as_bytes())) | (kind == 0 && sep(&pw)) | (kind > 3 && sep(tok.as_bytes())) | w.kv.iter().any(|(a, b)| sep(a.as_bytes()) | sep(b.as_bytes()));
    check(id + 90, k.ok() != bad); // values of any length are sent, separators at any place are refused
    if bad {
        check(id + 97, k == St::Err); // with an error
        if kind == 0 { let (k, out) = step(&mut s, Some(&cat(&[zid.as_bytes(), b"\0", user.as_bytes(), b"\0", &pw]))); check(1384, k == St::Err && out.is_empty() && w.validates.is_empty()); } // a fourth field
        cover(3);
        return;
    }
    let want = match kind { 0 => cat(&[zid.as_bytes(), b"\0", user.as_bytes(), b"\0", &pw]), 1 => user.as_bytes().to_vec(), 2 | 3 => zid.as_bytes().to_vec(), 4 => cat(&[b"user=", user.as_bytes(), b"\x01auth=Bearer ", tok.as_bytes(), b"\x01\x01"]), _ => m.clone() };
    check(id + 91, same(&m, &want)); // completely
    let (mut k, mut out) = step(&mut s, Some(&m));
    if kind == 1 {
        check(id + 92, k == St::Running);
        let (_, m) = step(&mut c, Some(&out));
        check(id + 93, same(&m, &pw)); // completely
        (k, out) = step(&mut s, Some(&m));
    }
    let seen_pw = match sp(&pw) { Ok(p) if !p.is_empty() => p, _ => { cover(2); check(1385, k == St::Err && w.validates.is_empty()); return; } }; // refused by SASLprep
    check(id + 94, k == St::Quiet && out.is_empty()); // and accepted
    let v = if kind > 3 { &w.oseen } else { &w.validates };
    check(id + 95, v.len() == 1);
    if v.is_empty() { return; }
    let v = &v[0];
    let ok = match kind {
        0 => same_opt(&v.authzid, Some(zid.as_bytes())) && same_opt(&v.authid, Some(user.as_bytes())) && same_opt(&v.password, Some(&seen_pw)),
        1 => same_opt(&v.authid, Some(user.as_bytes())) && same_opt(&v.password, Some(&pw)),
        2 => same_opt(&v.trace, Some(zid.as_bytes())),
        3 => same_opt(&v.authzid, Some(zid.as_bytes())),
        4 => same_opt(&v.authid, Some(user.as_bytes())) && same_opt(&v.token, Some(tok.as_bytes())),
        _ => same_opt(&v.authzid, Some(zid.as_bytes())) && same_opt(&v.token, Some(tok.as_bytes())) && v.kv.as_ref().map_or(w.kv.is_empty(), |x| x.len() == w.kv.len() && (x.is_empty() || same(&x[0].0, w.kv[0].0.as_bytes()) && same(&x[0].1, w.kv[0].1.as_bytes()))),
    };
    check(id + 96, ok); // the application sees the whole value
    cover(1);
}
/// C16, C17: long errors. param 0: mechanism (4, 5), 1: number of lengths
#[no_mangle] #[inline(never)]
pub extern "C" fn h_long_error() {
    reset();
    let (kind, n) = (param(0), param(1));
    let w = w();
    w.authid = Some("u".into());
    w.token = Some("t".into());
    w.oans = 2;
    let which = if kind == 4 { 0 } else { choose(3) };
    for i in 0..3 { w.oerr[i] = Some(some(which == i, n, "invalid")); }
    let (mut c, mut s) = (client(&ONE[kind], NAMES[kind]), server(&ONE[kind], NAMES[kind]));
    let (_, m) = step(&mut c, None);
    let (k, m) = step(&mut s, Some(&m));
    let id = 100 * (kind as u64 + 12);
    check(id + 80, k == St::Running);
    if kind == 4 { check(id + 81, same(&m, w.oerr[0].as_ref().unwrap().as_bytes())); } // the whole error is sent
    let (k, m) = step(&mut c, Some(&m));
    check(id + 82, k.ok());
    check(id + 83, w.reported.len() == 1 && (0..if kind == 4 { 1 } else { 3 }).all(|i| same_opt(&w.reported[0][i], w.oerr[i].as_ref().map(|x| x.as_bytes())))); // and the application gets the whole error
    let (k, _) = step(&mut s, Some(&m));
    check(id + 84, !k.ok() || k == St::Quiet);
    cover(1);
}
/// C05..C08: a SCRAM exchange with one long value. param 0: algorithm, 1: number of lengths, 2: 0 user name, 1 authorization identity, 2 password, 3 salt, 4 server's nonce, 5 binding data, 6 client's nonce (server only), 7 many iterations, 3: 1: with a free byte
#[no_mangle] #[inline(never)]
pub extern "C" fn h_long_scram() {
    reset();
    let (alg, n, which) = (param(0), param(1), param(2));
    unsafe { FREE = param(3) == 1; }
    let w = w();
    let user = some(which == 0, n, "us=er");
    let zid = some(which == 1, n, "z,id");
    let pw = some_bytes(which == 2, n, b"pencil");
    let salt = some_bytes(which == 3, n, b"salt,");
    let data = some_bytes(which == 5, n, b"\x00chan\xff");
    let it: u32 = if which == 7 { [1, 7, 100, 255, 256, 257, 1000][choose(n)] } else { 2 };
    let plus = flag();
    w.enable_cb = plus;
    w.authid = Some(user.clone());
    w.authzid = Some(zid.clone());
    w.password = Some(pw.clone());
    let ks = keys(alg, &hi(alg, &pw, &salt, it));
    w.stored = Some((it, salt.clone(), ks.stored.clone(), ks.server.clone()));
    let cb = || Cb(Some(("tls-unique", data.clone())));
    let gs2 = cat(&[if plus { b"p=tls-unique," } else { b"n," }, b"a=", &esc(zid.as_bytes()), b","]);
    let bound = b64(&if plus { cat(&[&gs2, &data]) } else { gs2.clone() });
    let name = cat(&[b"n=", &esc(user.as_bytes()), b",r="]);
    // the client
    let mut c = if plus { client_cb(&P[alg], PLUS[alg], cb()) } else { client(&S[alg], BARE[alg]) };
    let (k, m) = step(&mut c, None);
    let head = gs2.len() + name.len();
    check(890, k == St::Running && m.len() == head + NONCE && same(&m[..head], &cat(&[&gs2, &name]))); // names of any length are sent completely
    if k != St::Running || m.len() != head + NONCE { return; }
    let nonce = m[head..].to_vec();
    let ext = if which == 4 { let x = long(n); assume(crate::scram::printable(&x)); x } else { b"ext".to_vec() };
    let sf = cat(&[b"r=", &nonce, &ext, b",s=", &b64(&salt), b",i=", format!("{it}").as_bytes()]);
    let (k, m) = step(&mut c, Some(&sf));
    check(690, k == St::Running); // any length is accepted
    let wp = cat(&[b"c=", &bound, b",r=", &nonce, &ext]);
    let (p, sig) = proofs(alg, &ks, &cat(&[&name, &nonce]), &sf, &wp);
    check(691, same(&m, &cat(&[&wp, b",p=", &b64(&p)]))); // proof over everything
    check(795, m.len() > wp.len() && same(&m[..2 + bound.len()], &wp[..2 + bound.len()])); // the whole channel binding
    check(590, m.len() > wp.len() && same(&m[..wp.len()], &wp)); // the whole nonce
    let (k, _) = step(&mut c, Some(&cat(&[b"v=", &b64(&sig)])));
    check(490, k == St::Quiet); // the right signature is accepted
    // the server
    let mut s = if plus { server_cb(&P[alg], PLUS[alg], cb()) } else { server(&S[alg], BARE[alg]) };
    let nonce = if which == 6 { let x = long(n); assume(crate::scram::printable(&x)); x } else { b"abc".to_vec() };
    let (k, sf) = step(&mut s, Some(&cat(&[&gs2, &name, &nonce])));
    check(891, k == St::Running && w.stored_seen.len() == 1 && same_opt(&w.stored_seen[0].authid, Some(user.as_bytes())) && same_opt(&w.stored_seen[0].authzid, Some(zid.as_bytes()))); // the application sees the whole names
    let tail = cat(&[b",s=", &b64(&salt), b",i=", format!("{it}").as_bytes()]);
    let l = 2 + nonce.len() + NONCE;
    check(591, sf.len() == l + tail.len() && same(&sf[..2 + nonce.len()], &cat(&[b"r=", &nonce]))); // the whole nonce, extended
    if sf.len() != l + tail.len() { return; }
    check(692, same(&sf[l..], &tail)); // the whole salt
    let wp = cat(&[b"c=", &bound, b",", &sf[..l]]);
    let (p, sig) = proofs(alg, &ks, &cat(&[&name, &nonce]), &sf, &wp);
    // the right proof, or one made for a channel, a nonce or a name that differs in one byte
    let wrong = which >= 4 && which != 7 && flag();
    let wp2 = if !wrong { wp.clone() } else {
        let mut x = wp.clone();
        let (a, b) = if which == 5 { (2, bound.len()) } else { (3 + bound.len() + 2, l - 2) };
        let at = a + match choose(3) { 0 => 0, 1 => b - 1 - 2 * (which == 5) as usize, _ => b / 2 };
        x[at] = if x[at] == b'A' { b'B' } else { b'A' };
        x
    };
    let p = if wrong { proofs(alg, &ks, &cat(&[&name, &nonce]), &sf, &wp2).0 } else { p };
    let (k, out) = step(&mut s, Some(&cat(&[&wp2, b",p=", &b64(&p)])));
    if wrong && !same(&wp, &wp2) {
        cover(2);
        check(if which == 5 { 796 } else { 592 }, w.validates.is_empty() && s.validation().is_none() && (k == St::Err || k == St::Sent && out.len() > 2 && out[0] == b'e')); // refused
        return;
    }
    check(390, k == St::Sent && w.validates.len() == 1 && s.validation() == Some(VALUE)); // accepted
    check(693, same(&out, &cat(&[b"v=", &b64(&sig)]))); // signature over everything
    if w.validates.len() == 1 { check(892, same_opt(&w.validates[0].authid, Some(user.as_bytes())) && same_opt(&w.validates[0].authzid, Some(zid.as_bytes()))); }
    cover(1);
}
/// A text of up to `n` pieces that matter to the escaping of names, or any character.
pub fn pieces(n: usize) -> String {
    let mut s = Vec::new();
    for _ in 0..choose(n + 1) {
        match choose(8) { 0 => s.push(b','), 1 => s.push(b'='), 2 => s.extend_from_slice(b"=2C"), 3 => s.extend_from_slice(b"=3D"), 4 => s.extend_from_slice("\u{e9}".as_bytes()), 5 => s.extend_from_slice("\u{1d11e}".as_bytes()), 6 => s.extend_from_slice(b"a= ,"), _ => { let c = byte(); assume(c < 0x80); s.push(c) } }
    }
    unsafe { String::from_utf8_unchecked(s) }
}
/// C08: names with many escapes, from the client to the server. param 0: algorithm, 1: pieces, 2: 0 user name, 1 authorization identity
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_pieces() {
    reset();
    let (alg, n, zid) = (param(0), param(1), param(2) == 1);
    let w = w();
    let x = pieces(n);
    assume(!has(x.as_bytes(), 0));
    if x.is_empty() { return; }
    w.authid = Some(if zid { "user".into() } else { x.clone() });
    if zid { w.authzid = Some(x.clone()); }
    w.password = Some(b"p".to_vec());
    let mut c = client(&S[alg], BARE[alg]);
    let (k, m) = step(&mut c, None);
    check(831, k == St::Running); // every name is sent
    let head = if zid { cat(&[b"n,a=", &esc(x.as_bytes()), b",n=user,r="]) } else { cat(&[b"n,,n=", &esc(x.as_bytes()), b",r="]) };
    check(832, m.len() == head.len() + NONCE && same(&m[..head.len()], &head)); // escaped
    let mut s = server(&S[alg], BARE[alg]);
    let (k, _) = step(&mut s, Some(&m));
    check(833, k == St::Running && w.stored_seen.len() == 1); // and accepted
    if w.stored_seen.len() == 1 { check(834, same_opt(&w.stored_seen[0].authid, w.authid.as_ref().map(|x| x.as_bytes())) && same_opt(&w.stored_seen[0].authzid, w.authzid.as_ref().map(|x| x.as_bytes()))); } // the application sees the name
    cover(1);
}
/// C17: values with many escapes and up to three pairs. param 0: pieces of the authorization identity, 1: pieces of one key or value, 2: pairs
#[no_mangle] #[inline(never)]
pub extern "C" fn h_oauthbearer_pieces() {
    reset();
    let w = w();
    w.oans = 1;
    w.token = Some("tok==".into());
    if param(0) > 0 { w.authzid = Some(pieces(param(0))); }
    let n = choose(param(2) + 1);
    let at = choose(3);
    for i in 0..n { w.kv.push((if i == at && param(1) > 0 && flag() { pieces(param(1)) } else { ["host", "port", "auth2"][i].into() }, if i == at { pieces(param(1)) } else { ["a", "", "=x,"][i].into() })); }
    let mut ok = true;
    for (k, v) in &w.kv { ok &= !has(k.as_bytes(), b'=') & !has(k.as_bytes(), 1) & !has(v.as_bytes(), 1); }
    if let Some(z) = &w.authzid { ok &= !has(z.as_bytes(), 1); }
    let (mut c, mut s) = (client(&ONE[5], NAMES[5]), server(&ONE[5], NAMES[5]));
    let (k, m) = step(&mut c, None);
    if !ok { check(1751, k == St::Err); cover(2); return; } // refused if it can not be represented
    check(1752, k == St::Running); // every other value is sent
    let (k, out) = step(&mut s, Some(&m));
    check(1753, k == St::Quiet && out.is_empty() && w.oseen.len() == 1); // and accepted
    if let Some(v) = w.oseen.get(0) {
        check(1754, same_opt(&v.authzid, w.authzid.as_ref().map(|x| x.as_bytes())) && same_opt(&v.token, Some(b"tok=="))); // exactly the authorization identity and the token
        let got: &[(Vec<u8>, Vec<u8>)] = v.kv.as_deref().unwrap_or(&[]);
        check(1755, got.len() == w.kv.len()); // as many pairs
        for (g, x) in got.iter().zip(&w.kv) { check(1756, same(&g.0, x.0.as_bytes()) && same(&g.1, x.1.as_bytes())); } // exactly the pairs, in order
    }
    cover(1);
}
/// C11, C10: long mechanism names: valid ones with any bytes at one place. param 0: free bytes, 1: number of lengths
#[no_mangle] #[inline(never)]
pub extern "C" fn h_mechname_long() {
    use rsasl::prelude::Mechname;
    reset();
    let lens = [8, 9, 12, 15, 16, 17, 18, 19, 20, 21, 22, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000];
    let len = lens[crate::scram::choose16(param(1))];
    let mut n: Vec<u8> = (0..len).map(|i| b"SCRAM-SHA_256XYZ0BDEFGIJKLNOPQTUVW134789"[i % 40]).collect();
    let at = if len > 65 { [0, 1, 19, 20, 31, 32, 63, 64, len / 2, len - 2, len - 1][choose(11)] } else { crate::scram::choose16(len) };
    for i in at..(at + param(0)).min(len) { n[i] = byte(); }
    let mut bad = len;
    for i in (0..len).rev() { let c = n[i]; if !((c >= b'A') & (c <= b'Z') | (c >= b'0') & (c <= b'9') | (c == b'-') | (c == b'_')) { bad = i; } }
    let r = Mechname::parse(&n);
    match &r {
        Ok(m) => { check(1131, bad == len); check(1132, same(m.as_bytes(), &n)); check(1133, **m == n[..] && same(format!("{}", m).as_bytes(), &n)); let mut x = n.clone(); x[at] = byte(); check(1134, (**m == x[..]) == same(&x, &n)); check(1135, !(**m == n[..len - 1])); cover(1); } // a valid name of any length is accepted unaltered
        Err(e) => { check(1136, bad < len && matches!(*e, rsasl::mechname::MechanismNameError::InvalidChar { index, value } if index == bad && value == n[bad])); cover(2); } // the first invalid character is named
    }
}
/// C06: every notable iteration count. param 0: algorithm
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_iterations() {
    use rsasl::callback::{Context, Request, SessionData};
    use rsasl::mechanisms::scram::properties::*;
    use rsasl::prelude::SessionError;
    reset();
    let alg = param(0);
    let w = w();
    fn hook(_: &SessionData, ctx: &Context, req: &mut Request) -> Result<(), SessionError> {
        let w = crate::common::w();
        req.satisfy::<rsasl::property::AuthId>("u")?;
        if req.is::<SaltedPassword>() { w.salt_seen.push((None, ctx.get_ref::<Iterations>().copied())); req.satisfy::<SaltedPassword>(b"0123456789")?; }
        if req.is::<ScramStoredPassword>() { if let Some((i, s, a, b)) = &w.stored { req.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(*i, s, a, b))?; } }
        Ok(())
    }
    w.hook = Some(hook);
    let all: [u64; 24] = [1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 4096, 9999, 10000, 15000, 32767, 32768, 65535, 65536, 65537, 99999, 600000, 1 << 24, (1 << 31) + 5, (1 << 32) - 1];
    let over: [u64; 6] = [1 << 32, (1 << 32) + 1, (1 << 32) + 4096, 9999999999, (1 << 63) + 4096, u64::MAX];
    let i = crate::scram::choose16(30);
    let v = if i < 24 { all[i] } else { over[i - 24] };
    let mut c = client(&S[alg], BARE[alg]);
    let (_, m) = step(&mut c, None);
    let (_, n) = m.split_at(m.len() - NONCE);
    let sf = cat(&[b"r=", n, b"x,s=c2FsdA==,i=", format!("{v}").as_bytes()]);
    let (k, _) = step(&mut c, Some(&sf));
    if i >= 24 { check(641, k == St::Err); cover(2); return; } // a count that is no 32 bit number is refused
    check(642, k == St::Running && w.salt_seen.len() == 1 && w.salt_seen[0].1 == Some(v as u32)); // the application sees the iteration count
    let ks = keys(alg, b"0123456789");
    w.stored = Some((v as u32, b"salt".to_vec(), ks.stored.clone(), ks.server.clone()));
    let mut s = server(&S[alg], BARE[alg]);
    let (k, sf) = step(&mut s, Some(b"n,,n=u,r=abc"));
    let tail = cat(&[b",s=c2FsdA==,i=", format!("{v}").as_bytes()]);
    check(643, k == St::Running && sf.len() == 5 + NONCE + tail.len() && same(&sf[5 + NONCE..], &tail)); // the server sends the iteration count of the credential
    let wp = cat(&[b"c=biws,", &sf[..sf.len().min(5 + NONCE)]]);
    let (p, sig) = proofs(alg, &ks, b"n=u,r=abc", &sf, &wp);
    let (k, out) = step(&mut s, Some(&cat(&[&wp, b",p=", &b64(&p)])));
    check(644, k == St::Sent && same(&out, &cat(&[b"v=", &b64(&sig)]))); // and completes the exchange
    cover(1);
}
