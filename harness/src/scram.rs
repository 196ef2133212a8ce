//! SCRAM: an independent implementation of RFC 5802's formulas, and the harnesses that compare both sides with it.
use crate::common::*;
use rsasl::mechanisms::scram::*;
use rsasl::prelude::Mechanism;
pub static S: [[Mechanism; 1]; 3] = [[SCRAM_SHA1], [SCRAM_SHA256], [SCRAM_SHA512]];
pub static P: [[Mechanism; 1]; 3] = [[SCRAM_SHA1_PLUS], [SCRAM_SHA256_PLUS], [SCRAM_SHA512_PLUS]];
pub static B: [[Mechanism; 2]; 3] = [[SCRAM_SHA1, SCRAM_SHA1_PLUS], [SCRAM_SHA256, SCRAM_SHA256_PLUS], [SCRAM_SHA512, SCRAM_SHA512_PLUS]];
pub const BARE: [&str; 3] = ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"];
pub const PLUS: [&str; 3] = ["SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"];
pub const NONCE: usize = 24;

pub fn digest(alg: usize, p: &[&[u8]]) -> Vec<u8> {
    use sha1::Digest;
    fn go<D: Digest>(p: &[&[u8]]) -> Vec<u8> { let mut d = D::new(); for x in p { d.update(x); } d.finalize().to_vec() }
    match alg { 0 => go::<sha1::Sha1>(p), 1 => go::<sha2::Sha256>(p), _ => go::<sha2::Sha512>(p) }
}
pub fn hmac(alg: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let bs = if alg == 2 { 128 } else { 64 };
    let mut k = if key.len() > bs { digest(alg, &[key]) } else { key.to_vec() };
    k.resize(bs, 0);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let d = digest(alg, &[&i, msg]);
    digest(alg, &[&o, &d])
}
pub fn hi(alg: usize, pw: &[u8], salt: &[u8], n: u32) -> Vec<u8> {
    let mut u = hmac(alg, pw, &cat(&[salt, &[0, 0, 0, 1]]));
    let mut r = u.clone();
    for _ in 1..n { u = hmac(alg, pw, &u); for i in 0..r.len() { r[i] ^= u[i]; } }
    r
}
static T64: [u8; 64] = *b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(x: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < x.len() {
        let n = x.len() - i;
        let at = |k: usize| if k < n { x[i + k] as u32 } else { 0 };
        let v = at(0) << 16 | at(1) << 8 | at(2);
        o.push(T64[(v >> 18 & 63) as usize]);
        o.push(T64[(v >> 12 & 63) as usize]);
        o.push(if n > 1 { T64[(v >> 6 & 63) as usize] } else { b'=' });
        o.push(if n > 2 { T64[(v & 63) as usize] } else { b'=' });
        i += 3;
    }
    o
}
/// Escaped name.
pub fn esc(x: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for &c in x { if c == b',' { o.extend_from_slice(b"=2C") } else if c == b'=' { o.extend_from_slice(b"=3D") } else { o.push(c) } }
    o
}
/// The name an escaped one represents.
pub fn unesc(x: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < x.len() {
        if x[i] == b'=' {
            if i + 2 >= x.len() { return None; }
            if x[i + 1] == b'2' && x[i + 2] == b'C' { o.push(b',') } else if x[i + 1] == b'3' && x[i + 2] == b'D' { o.push(b'=') } else { return None; }
            i += 3;
        } else { o.push(x[i]); i += 1; }
    }
    Some(o)
}
pub struct Keys { pub client: Vec<u8>, pub stored: Vec<u8>, pub server: Vec<u8> }
pub fn keys(alg: usize, salted: &[u8]) -> Keys {
    let client = hmac(alg, salted, b"Client Key");
    let stored = digest(alg, &[&client]);
    Keys { client, stored, server: hmac(alg, salted, b"Server Key") }
}
/// (proof, server signature) for the literal messages
pub fn proofs(alg: usize, k: &Keys, first_bare: &[u8], server_first: &[u8], without_proof: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let am = cat(&[first_bare, b",", server_first, b",", without_proof]);
    let mut p = hmac(alg, &k.stored, &am);
    for i in 0..p.len() { p[i] ^= k.client[i]; }
    (p, hmac(alg, &k.server, &am))
}
pub fn printable(x: &[u8]) -> bool { let mut ok = true; for &c in x { ok &= (c >= 0x21) & (c <= 0x7e) & (c != b','); } ok }
/// Every edit of `m` of one of `kinds`: 0 nothing, 1 replace up to k bytes anywhere, 2 truncate anywhere, 3 insert up to k bytes anywhere, 4 delete up to k bytes anywhere.
pub fn edit(m: &[u8], k: usize, kinds: &[u8]) -> Vec<u8> {
    let kind = kinds[choose(kinds.len())];
    let at = if kind == 0 { 0 } else { choose16(m.len() + 1) };
    match kind {
        0 => m.to_vec(),
        1 => { let n = k.min(m.len() - at); cat(&[&m[..at], &bytes(n), &m[at + n..]]) }
        2 => m[..at].to_vec(),
        3 => { let n = 1 + choose(k); cat(&[&m[..at], &bytes(n), &m[at..]]) }
        _ => { let n = (1 + choose(k)).min(m.len() - at); cat(&[&m[..at], &m[at + n..]]) }
    }
}
pub fn choose16(n: usize) -> usize { let a = choose((n + 15) / 16); let b = choose(16); let r = a * 16 + b; assume(r < n); r }
/// Take a client's first message apart that has the expected gs2 header and name; gives the nonce.
fn nonce_of(m: &[u8], head: &[u8]) -> Option<Vec<u8>> {
    if m.len() < head.len() || !same(&m[..head.len()], head) { return None; }
    Some(m[head.len()..].to_vec())
}
fn opt_str(on: bool, n: usize) -> Option<String> { if on && flag() { Some(string_between(0, n)) } else { None } }

/// C05, C08, C24: the client's first message. param 0: algorithm, 1: longest name, 2: longest authorization identity, 3: 1: -PLUS
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client_first() {
    reset();
    let (alg, plus) = (param(0), param(3) == 1);
    let w = w();
    w.authid = opt_str(true, param(1));
    w.authzid = opt_str(true, param(2));
    w.enable_cb = plus;
    let mut c = if plus { client_cb(&P[alg], PLUS[alg], Cb(Some(("tls-unique", b"data".to_vec())))) } else { client(&S[alg], BARE[alg]) };
    check(2401, c.are_we_first()); // the client goes first
    let (k, m) = step(&mut c, None);
    let bad = |x: &Option<String>| x.as_ref().map_or(false, |x| x.is_empty() | has(x.as_bytes(), 0));
    if w.authid.is_none() || bad(&w.authid) || bad(&w.authzid) { cover(1); check(801, k == St::Err && m.is_empty()); return; } // missing or not representable: an error and nothing sent
    check(802, k == St::Running); // every representable identity is accepted
    if k != St::Running { return; }
    let zid = w.authzid.as_ref().map_or(Vec::new(), |x| cat(&[b"a=", &esc(x.as_bytes())]));
    let head = cat(&[if plus { b"p=tls-unique," } else { b"n," }, &zid, b",n=", &esc(w.authid.as_ref().unwrap().as_bytes()), b",r="]);
    let n = nonce_of(&m, &head);
    check(803, n.is_some()); // gs2 header, authorization identity and name exactly
    if let Some(n) = n { cover(2); check(501, n.len() == NONCE && printable(&n)); } // then the nonce
}
/// C05: both sides draw a fresh nonce. param 0: algorithm, 1: 0 client, 1 server
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_fresh() {
    reset();
    let alg = param(0);
    let w = w();
    w.authid = Some("u".into());
    w.stored = Some((1, b"salt".to_vec(), vec![1; digest(alg, &[]).len()], vec![2; digest(alg, &[]).len()]));
    let one = || {
        if param(1) == 0 {
            let (k, m) = step(&mut client(&S[alg], BARE[alg]), None);
            check(502, k == St::Running);
            nonce_of(&m, b"n,,n=u,r=").unwrap_or_default()
        } else {
            let (k, m) = step(&mut server(&S[alg], BARE[alg]), Some(b"n,,n=u,r=client"));
            check(502, k == St::Running);
            let mut n = nonce_of(&m, b"r=client").unwrap_or_default();
            // up to the next attribute
            if let Some(e) = n.iter().position(|x| *x == b',') { n.truncate(e); }
            n
        }
    };
    rand::ctl::symbolic();
    let a = one();
    check(503, rand::ctl::draws() > 0); // drawn from the random source
    rand::ctl::shifted(); // every draw gives another value than in the first exchange
    let b = one();
    check(504, a.len() == NONCE && printable(&a)); // printable, without comma
    check(505, b.len() == NONCE && printable(&b));
    let mut differ = a.len() == b.len();
    for i in 0..a.len().min(b.len()) { differ &= a[i] != b[i]; }
    check(506, differ); // every character depends on the draws of its own exchange
    let runs: Vec<Vec<u8>> = (1..=6).map(|s| { rand::ctl::script(s); one() }).collect();
    let mut copy = runs.iter().any(|r| r.len() != NONCE);
    if !copy { for i in 0..NONCE { for j in 0..i { copy |= runs.iter().all(|r| r[i] == r[j]); } } }
    check(507, !copy); // and no character is a copy of another one
    cover(1);
}
fn pick_salt() -> Vec<u8> { [&b"s"[..], b"sa", b"sal", b"\x00\xff,=salt-of-16by"][choose(4)].to_vec() }

/// C06, C04, C24: the whole exchange on the client side. param 0: algorithm, 1: longest password, 2: longest name, 3: longest nonce extension, 4: most iterations, 5: kinds of credential (1 password, 2 +salted password, 3 +keys)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client() {
    reset();
    let alg = param(0);
    let w = w();
    let src = choose(param(5));
    let pw = upto(param(1));
    w.authid = Some(string_between(1, param(2)));
    if flag() { w.authzid = Some("z=,".into()); }
    assume(!has(w.authid.as_ref().unwrap().as_bytes(), 0));
    let plus = flag();
    w.enable_cb = plus;
    let iters = 1 + choose(param(4)) as u32;
    let salt = pick_salt();
    let salted = hi(alg, &pw, &salt, iters);
    let ks = keys(alg, &salted);
    match src { 0 => w.password = Some(pw), 1 => w.salted = Some(salted), _ => w.cached = Some((ks.client.clone(), ks.server.clone())) }
    let cbdata = b"\x00binding\xff,".to_vec();
    let mut c = if plus { client_cb(&P[alg], PLUS[alg], Cb(Some(("tls-exporter", cbdata.clone())))) } else { client(&S[alg], BARE[alg]) };
    let (k, m) = step(&mut c, None);
    check(601, k == St::Running);
    let zid = w.authzid.as_ref().map_or(Vec::new(), |x| cat(&[b"a=", &esc(x.as_bytes())]));
    let gs2 = cat(&[if plus { b"p=tls-exporter," } else { b"n," }, &zid, b","]);
    let bare = cat(&[b"n=", &esc(w.authid.as_ref().unwrap().as_bytes()), b",r="]);
    let n = match nonce_of(&m, &cat(&[&gs2, &bare])) { Some(n) => n, None => { check(602, false); return; } }; // the first message
    let bare = cat(&[&bare, &n]);
    let ext = between(1, param(3));
    assume(printable(&ext));
    let sf = cat(&[b"r=", &n, &ext, b",s=", &b64(&salt), b",i=", format!("{iters}").as_bytes()]);
    let (k, m) = step(&mut c, Some(&sf));
    check(603, k == St::Running); // every valid first message of the server is accepted
    if k != St::Running { return; }
    let wp = cat(&[b"c=", &b64(&if plus { cat(&[&gs2, &cbdata]) } else { gs2.clone() }), b",r=", &n, &ext]);
    let (proof, sig) = proofs(alg, &ks, &bare, &sf, &wp);
    check(604, same(&m, &cat(&[&wp, b",p=", &b64(&proof)]))); // channel binding, nonce and proof exactly
    if src == 0 { check(606, w.salt_seen.len() == 1 && same_opt(&w.salt_seen[0].0, Some(&salt)) && w.salt_seen[0].1 == Some(iters)); } // the password request can see salt and iterations
    let (k, m) = step(&mut c, Some(&cat(&[b"v=", &b64(&sig)])));
    check(605, k == St::Quiet && m.is_empty()); // the right signature completes the exchange [C04]
    cover(1 + src as u64);
    check(607, w.saved.len() == 1 && same(&w.saved[0].0, &ks.client) && same(&w.saved[0].1, &ks.server)); // and the keys can be saved
}
/// C05, C02, C06: the server's first message, edited. param 0: algorithm, 1: longest edit, 2: 1: only within the nonce
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client_challenge() {
    reset();
    let alg = param(0);
    let w = w();
    w.authid = Some("u".into());
    w.salted = Some(vec![7; 20]);
    let mut c = client(&S[alg], BARE[alg]);
    let (_, m) = step(&mut c, None);
    let n = match nonce_of(&m, b"n,,n=u,r=") { Some(n) => n, None => { check(602, false); return; } };
    let x = [&b"r="[..], &n, b"ext,s=c2FsdA==,i=4096"];
    let sf = match param(2) {
        1 => cat(&[b"r=", &edit(&n, param(1), &[0, 1, 2, 3, 4]), b"ext,s=c2FsdA==,i=4096"]),
        2 => cat(&[b"r=", &n, &edit(b"ext", param(1), &[1, 2, 3, 4]), b",s=c2FsdA==,i=4096"]),
        _ => { let m = cat(&x); cat(&[&m[..2 + n.len()], &edit(&m[2 + n.len()..], param(1), &[0, 1, 2, 3, 4])]) }
    };
    let (k, out) = step(&mut c, Some(&sf));
    // first attribute, up to the first comma
    let mut e = sf.len();
    for i in 0..sf.len() { if sf[i] == b',' { e = i; break; } }
    let good = e > 2 + n.len() && same(&sf[..2], b"r=") && same(&sf[2..2 + n.len()], &n);
    if k == St::Running {
        cover(1);
        check(511, good); // continues only if the nonce starts with its own and is longer
        check(512, !has(&sf[e..], 0)); // and never with a NUL in the salt or iteration count
        // what it sends repeats the nonce
        let p = cat(&[b"c=biws,", &sf[..e], b",p="]);
        check(513, out.len() > p.len() && same(&out[..p.len()], &p));
    } else { cover(2); check(514, k == St::Err && out.is_empty()); } // an error, nothing sent
}
/// C06: iteration counts and salts as the client parses them. param 0: algorithm, 1: longest iteration count, 2: longest salt attribute
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client_params() {
    reset();
    let alg = param(0);
    let w = w();
    w.authid = Some("u".into());
    w.password = Some(Vec::new());
    fn hook(_: &rsasl::callback::SessionData, ctx: &rsasl::callback::Context, req: &mut rsasl::callback::Request) -> Result<(), rsasl::prelude::SessionError> {
        use rsasl::mechanisms::scram::properties::*;
        let w = crate::common::w();
        req.satisfy::<rsasl::property::AuthId>("u")?;
        if req.is::<SaltedPassword>() {
            w.salt_seen.push((ctx.get_ref::<Salt>().map(|x| x.to_vec()), ctx.get_ref::<Iterations>().copied()));
            req.satisfy::<SaltedPassword>(b"0123456789")?;
        }
        Ok(())
    }
    w.hook = Some(hook);
    let mut c = client(&S[alg], BARE[alg]);
    let (_, m) = step(&mut c, None);
    let n = match nonce_of(&m, b"n,,n=u,r=") { Some(n) => n, None => { check(602, false); return; } };
    let (it, s64) = if flag() { (upto(param(1)), b"c2FsdA==".to_vec()) } else { (b"12".to_vec(), upto(param(2))) };
    assume(!has(&it, b',') & !has(&s64, b','));
    let sf = cat(&[b"r=", &n, b"x,s=", &s64, b",i=", &it]);
    let (k, out) = step(&mut c, Some(&sf));
    // decimal, below 2^32, not zero
    let mut v = 0u64;
    let mut num = !it.is_empty();
    for (i, &d) in it.iter().enumerate() { let dig = (d >= b'0') & (d <= b'9'); num &= dig | (i == 0 && it.len() > 1) & (d == b'+'); v = v * 10 + if dig { (d - b'0') as u64 } else { 0 }; }
    let plain = num && !has(&it, b'+');
    num &= (v > 0) & (v < 1 << 32);
    let b = spec64(&s64);
    let ok = num && b.is_some();
    if ok && plain { check(611, k == St::Running); } // accepted if valid
    if !ok { cover(2); check(612, k == St::Err && out.is_empty()); return; } // refused otherwise
    if k == St::Running {
        cover(1);
        check(613, w.salt_seen.len() == 1 && w.salt_seen[0].1 == Some(v as u32)); // and the application sees the iteration count
        check(614, w.salt_seen.len() == 1 && same_opt(&w.salt_seen[0].0, b.as_deref())); // and the salt
        let ks = keys(alg, b"0123456789");
        let wp = cat(&[b"c=biws,r=", &n, b"x"]);
        let (proof, _) = proofs(alg, &ks, &cat(&[b"n=u,r=", &n]), &sf, &wp);
        check(615, same(&out, &cat(&[&wp, b",p=", &b64(&proof)]))); // proof over the literal messages
    }
}
/// What canonical base64 with padding stands for.
pub fn spec64(x: &[u8]) -> Option<Vec<u8>> {
    if x.len() % 4 != 0 { return None; }
    let val = |c: u8| -> u32 {
        let r = |a: u8, b: u8| (c >= a) & (c <= b);
        if r(b'A', b'Z') { (c - b'A') as u32 } else if r(b'a', b'z') { (c - b'a') as u32 + 26 } else if r(b'0', b'9') { (c - b'0') as u32 + 52 } else if c == b'+' { 62 } else if c == b'/' { 63 } else { 64 }
    };
    let mut o = Vec::new();
    for q in 0..x.len() / 4 {
        let c = &x[4 * q..4 * q + 4];
        let last = 4 * q + 4 == x.len();
        let pad = if last && c[3] == b'=' { if c[2] == b'=' { 2 } else { 1 } } else { 0 };
        let mut v = 0u32;
        for i in 0..4 { let d = if i < 4 - pad { val(c[i]) } else { 0 }; if d > 63 { return None; } v = v << 6 | d; }
        if pad == 2 && v & 0xffff != 0 || pad == 1 && v & 0xff != 0 { return None; }
        o.push((v >> 16) as u8);
        if pad < 2 { o.push((v >> 8) as u8); }
        if pad < 1 { o.push(v as u8); }
    }
    Some(o)
}
/// A client that waits for the server's final message, and that message.
fn until_final(alg: usize) -> Option<(Client, Vec<u8>)> {
    let w = w();
    w.authid = Some("user".into());
    w.password = Some(b"pencil".to_vec());
    let mut c = client(&S[alg], BARE[alg]);
    let (_, m) = step(&mut c, None);
    let n = nonce_of(&m, b"n,,n=user,r=")?;
    let sf = cat(&[b"r=", &n, b"3rfcNHYJY1ZVvWVs7j,s=QSXCR+Q6sek8bf92,i=2"]);
    let (k, _) = step(&mut c, Some(&sf));
    if k != St::Running { return None; }
    let ks = keys(alg, &hi(alg, b"pencil", &spec64(b"QSXCR+Q6sek8bf92")?, 2));
    let (_, sig) = proofs(alg, &ks, &cat(&[b"n=user,r=", &n]), &sf, &cat(&[b"c=biws,r=", &n, b"3rfcNHYJY1ZVvWVs7j"]));
    Some((c, cat(&[b"v=", &b64(&sig)])))
}
const ERRORS: [&[u8]; 14] = [b"invalid-encoding", b"extensions-not-supported", b"invalid-proof", b"channel-bindings-dont-match", b"server-does-support-channel-binding", b"channel-binding-not-supported",
    b"unsupported-channel-binding-type", b"unknown-user", b"invalid-username-encoding", b"no-resources", b"other-error", b"", b"ok", b"\xff"];
/// C04: the server's final message: 0 every message of the right length's signature, 1 edited, 2 any short message, 3 none, 4 any verifier, 5 any error, 6 every error of RFC 5802, 7 several attributes. param 0: algorithm, 1: mode, 2: length
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client_verify() {
    reset();
    let (alg, mode, n) = (param(0), param(1), param(2));
    let (mut c, good) = match until_final(alg) { Some(x) => x, None => { check(401, false); return; } };
    if mode == 3 {
        let (k, out) = step(&mut c, None);
        check(402, k == St::Need && out.is_empty()); // no message: not done [C24 C25]
        let (k, _) = step(&mut c, Some(&good));
        check(403, k == St::Quiet);
        cover(1);
        return;
    }
    let m = match mode { 0 => cat(&[b"v=", &bytes(good.len() - 2)]), 1 => edit(&good, n, &[0, 1, 2, 3, 4]), 4 => cat(&[b"v=", &upto(n)]), 5 => cat(&[b"e=", &upto(n)]),
        6 => { let m = cat(&[b"e=", ERRORS[choose(ERRORS.len())], &upto(n)]); if flag() { cat(&[&m, b",", &good]) } else { m } }
        7 => { let bad = cat(&[b"v=", &bytes(good.len() - 2)]); match choose(7) {
            0 => cat(&[&bad, b",", &good]), 1 => cat(&[b"e=", &upto(n), b",", &good]), 2 => cat(&[b"m=", &upto(n), b",", &good]), 3 => cat(&[b",", &good]),
            4 => cat(&[&good, b",", &good]), 5 => cat(&[&good, b",e=", ERRORS[choose(ERRORS.len())]]), _ => cat(&[&upto(n), b",", &good]) } }
        _ => upto(n) };
    let right = same(&m, &good);
    let right_ext = right || m.len() > good.len() && same(&m[..good.len()], &good) && m[good.len()] == b','; // extensions may follow it
    let (k, out) = step(&mut c, Some(&m));
    check(404, if k.finished() { right_ext } else { !right }); // completes exactly for the right signature
    check(405, out.is_empty()); // and never sends anything more
    check(406, w().saved.len() == k.finished() as usize); // keys are offered only then
    if right_ext && k.finished() { cover(1); check(407, k == St::Quiet); } else { cover(2); check(408, k == St::Err); } // anything else is an error
}

/// What RFC 5802 says about a client's first message: flag, authorization identity, name, nonce, length of the gs2 header.
pub struct First<'a> { pub flag: &'a [u8], pub zid: Option<Vec<u8>>, pub name: Vec<u8>, pub raw_name: &'a [u8], pub nonce: &'a [u8], pub gs2: usize }
fn name_ok(x: &[u8]) -> bool { !x.is_empty() && !has(x, 0) && is_utf8(x) }
pub fn first(m: &[u8]) -> Option<First<'_>> {
    let mut cut = Vec::new();
    for i in 0..m.len() { if m[i] == b',' { cut.push(i); } }
    if cut.len() < 3 { return None; }
    cut.push(m.len());
    let f = &m[..cut[0]];
    let z = &m[cut[0] + 1..cut[1]];
    let n = &m[cut[1] + 1..cut[2]];
    let r = &m[cut[2] + 1..cut[3]];
    let flag_ok = f.len() == 1 && (f[0] == b'n' || f[0] == b'y') || f.len() > 2 && f[0] == b'p' && f[1] == b'=' && f[2..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'.' || *c == b'-');
    if !flag_ok { return None; }
    let zid = if z.is_empty() { None } else {
        if z.len() < 2 || z[0] != b'a' || z[1] != b'=' { return None; }
        let v = unesc(&z[2..])?;
        if !name_ok(&v) { return None; }
        Some(v)
    };
    if n.len() < 2 || n[0] != b'n' || n[1] != b'=' || r.len() < 3 || r[0] != b'r' || r[1] != b'=' || !printable(&r[2..]) { return None; }
    let name = unesc(&n[2..])?;
    if !name_ok(&name) { return None; }
    Some(First { flag: f, zid, name, raw_name: &n[2..], nonce: &r[2..], gs2: cut[1] + 1 })
}
/// A credential for a client with these keys.
fn credential(alg: usize) -> (Keys, u32, Vec<u8>) {
    let ks = keys(alg, &hi(alg, b"pencil", b"salt,\x00\xff", 2));
    w().stored = Some((2, b"salt,\x00\xff".to_vec(), ks.stored.clone(), ks.server.clone()));
    (ks, 2, b"salt,\x00\xff".to_vec())
}
/// lower case hexadecimal digits in escape sequences are neither required nor forbidden
fn lower(m: &[u8]) -> bool { let mut r = false; for i in 0..m.len().saturating_sub(2) { r |= (m[i] == b'=') & ((m[i + 1] == b'2') & (m[i + 2] == b'c') | (m[i + 1] == b'3') & (m[i + 2] == b'd')); } r }
/// C01, C05, C07, C08: the client's first message at a server without channel binding. param 0: algorithm, 1: longest, 2: 0 any message, 1 any name, 2 any authorization identity, 3 any nonce, 4 any flag, 5 any edit of a valid message
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_server_first() {
    reset();
    let alg = param(0);
    let known = flag();
    let (_, it, salt) = credential(alg);
    if !known { w().stored = None; }
    let m = match param(2) {
        0 => upto(param(1)),
        1 => cat(&[b"n,,n=", &upto(param(1)), b",r=x"]),
        2 => cat(&[b"n,a=", &upto(param(1)), b",n=u,r=x"]),
        3 => cat(&[b"n,,n=u,r=", &upto(param(1))]),
        4 => cat(&[&upto(param(1)), b",,n=u,r=x"]),
        6 => cat(&[b"n,", &upto(param(1)), b",n=u,r=x"]),
        7 => cat(&[b"n,,", &upto(param(1)), b",r=x"]),
        _ => edit(b"y,a=z=2C,n=u=3D,r=abc", param(1), &[1, 2, 3, 4]),
    };
    assume(!lower(&m));
    let mut s = server(&S[alg], BARE[alg]);
    check(2402, !s.are_we_first()); // the client goes first
    let (k, out) = step(&mut s, Some(&m));
    if k.ok() { // truncated or not UTF-8: an error (extensions after the four attributes are ignored)
        let (mut n, mut e) = (0, m.len());
        for i in 0..m.len() { if m[i] == b',' { n += 1; if n == 4 { e = i; break; } } }
        check(111, n >= 3 && e >= 8 && is_utf8(&m[..e])); // truncated or not UTF-8: an error
    }
    let w = w();
    let f = first(&m);
    let bound = f.as_ref().map_or(false, |f| f.flag[0] == b'p');
    if k.ok() {
        check(740, m.len() > 2 && (m[0] == b'n' || m[0] == b'y') && m[1] == b','); // only without channel binding
        let mut e = out.len();
        for i in 0..e { if out[i] == b',' { e = i; break; } }
        check(522, e > 2 + NONCE && printable(&out[2..e])); // nonces are printable and without comma
    } else { check(741, out.is_empty()); }
    if f.is_none() || bound { cover(1); check(811, k == St::Err && out.is_empty() && w.stored_seen.is_empty()); return; } // malformed, or bound to a channel without one: an error, nothing sent, nobody asked
    let f = f.unwrap();
    cover(2);
    check(812, k == St::Running && w.stored_seen.len() == 1); // every valid message is accepted [C06]
    if w.stored_seen.is_empty() { return; }
    check(813, same_opt(&w.stored_seen[0].authid, Some(&f.name)) && same_opt(&w.stored_seen[0].authzid, f.zid.as_deref())); // the application sees exactly the names the client sent
    let p = cat(&[b"r=", f.nonce]);
    let good = out.len() > p.len() + NONCE && same(&out[..p.len()], &p);
    check(521, good && printable(&out[p.len()..p.len() + NONCE])); // the client's nonce extended by its own
    if !good { return; }
    let rest = &out[p.len() + NONCE..];
    if known { check(620, same(rest, &cat(&[b",s=", &b64(&salt), b",i=", format!("{it}").as_bytes()]))); } // salt and iteration count as stored
    else { cover(3); check(301, rest.len() == 3 + 44 + 8 && same(&rest[..3], b",s=") && same(&rest[47..], b",i=16384") && spec64(&rest[3..47]).is_some()); } // an answer that does not tell
    check(302, w.validates.is_empty()); // nobody is authenticated yet
}
/// A server that waits for the client's final message after `m`; the server's message.
fn to_final(s: &mut Server, m: &[u8], nonce: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (k, out) = step(s, Some(m));
    if k != St::Running || out.len() < 2 + nonce.len() + NONCE { return None; }
    let n = out[2..2 + nonce.len() + NONCE].to_vec();
    Some((out, n))
}
/// What must hold after the client's final message at a server.
fn verdict(s: &mut Server, k: St, out: &[u8], right: bool, sig: &[u8], id: &[u8], zid: Option<&[u8]>) {
    let w = w();
    let v = cat(&[b"v=", &b64(sig)]);
    if right {
        cover(1);
        check(311, w.validates.len() == 1 && same_opt(&w.validates[0].authid, Some(id)) && same_opt(&w.validates[0].authzid, zid)); // right: validated, with the names that were proven
        check(312, same(out, &v) || w.verdict == 1 && out.is_empty()); // the server proves itself [C06]
        check(313, (k == St::Sent) == (w.verdict != 1) && (k == St::Err) == (w.verdict == 1)); // the verdict of the application counts [C06]
        check(314, s.validation() == if w.verdict == 0 { Some(VALUE) } else { None });
    } else {
        cover(2);
        check(315, w.validates.is_empty() && s.validation().is_none()); // wrong: never validated
        let e = out.len() > 2 && same(&out[..2], b"e=");
        check(316, k == St::Err && (out.is_empty() || e) || k == St::Sent && e); // an error, and no signature
        check(317, w.saved.is_empty());
    }
}
/// C03, C01: the client's final message. param 0: algorithm, 1: mode, 2: length
/// modes: 0 any proof, 1 any text in place of the proof, 2 any edit of the right message, 3 any short message, 4 any stored keys and any proof, 5 any channel binding attribute with the right proof for it, 6 any nonce with the right proof for it, 7 unknown user, 10 any edit of the stored key with the right proof for it
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_server_final() {
    reset();
    let (alg, mode, len) = (param(0), param(1), param(2));
    let (mut ks, _, _) = credential(alg);
    let w = w();
    w.verdict = choose(3) as u8;
    if mode == 4 {
        ks.stored = bytes(ks.stored.len());
        ks.server = bytes(ks.server.len());
        w.stored = Some((2, b"salt".to_vec(), ks.stored.clone(), ks.server.clone()));
    }
    if mode == 7 { w.stored = None; }
    if mode == 10 {
        ks.stored = edit(&ks.stored, len, &[0, 1]);
        w.stored = Some((2, b"salt".to_vec(), ks.stored.clone(), ks.server.clone()));
    }
    let mut s = server(&S[alg], BARE[alg]);
    let mut cn = b"client+nonce".to_vec();
    if mode == 6 { // the client's nonce ends with the characters with which the server's will start
        if let Some((_, n)) = to_final(&mut server(&S[alg], BARE[alg]), b"n,,n=u,r=x", b"x") { cn = cat(&[&cn, &n[1..3]]); }
        rand::ctl::script(1);
        w.stored_seen.clear();
    }
    let first = &cat(&[b"n,a=zid=3D,n=us=2Cer,r=", &cn])[..];
    let (bare, gs2) = (&first[11..], &first[..11]);
    let (sf, n) = match to_final(&mut s, first, &cn) { Some(x) => x, None => { check(303, false); return; } };
    let mut c = cat(&[b"c=", &b64(gs2)]);
    let mut r = n.clone();
    match mode { 5 => c = cat(&[b"c=", &upto(len)]), 6 => r = edit(&n, len, &[0, 1, 2, 3, 4]), 8 => c = cat(&[b"c=", &edit(&b64(gs2), len, &[0, 1, 2, 3, 4])]), 9 => c = cat(&[b"c=", &b64(&edit(gs2, len, &[0, 1, 2, 3, 4]))]), _ => {} }
    if mode >= 5 && mode < 10 { assume(!has(&c, b',') & !has(&r, b',')); }
    let wp = cat(&[&c, b",r=", &r]);
    // the proof is for the message as it is, or for the one that the server expects
    let (proof, sig) = if matches!(mode, 5 | 6 | 8 | 9) && flag() { proofs(alg, &ks, bare, &sf, &cat(&[b"c=", &b64(gs2), b",r=", &n])) } else { proofs(alg, &ks, bare, &sf, &wp) };
    let good = cat(&[&wp, b",p=", &b64(&proof)]);
    let full = if matches!(mode, 2 | 3) { good.len() } else { 0 };
    let (m, right) = match mode {
        0 => { let p = bytes(proof.len()); let eq = same(&p, &proof); (cat(&[&wp, b",p=", &b64(&p)]), eq) }
        1 => { let p = bytes(b64(&proof).len()); let m = cat(&[&wp, b",p=", &p]); let eq = same(&m, &good); (m, eq) }
        2 => { let m = edit(&good, len, &[0, 1, 2, 3, 4]); let eq = same(&m, &good); (m, eq) }
        3 => (upto(len), false),
        4 => {
            let p = bytes(proof.len());
            let mut key = proof.clone();
            // proof is client key ^ signature with the placeholder client key of `ks`
            for i in 0..p.len() { key[i] ^= ks.client[i] ^ p[i]; }
            let eq = same(&digest(alg, &[&key]), &ks.stored);
            (cat(&[&wp, b",p=", &b64(&p)]), eq)
        }
        5 | 8 | 9 => { let eq = same(&c, &cat(&[b"c=", &b64(gs2)])); (good, eq) }
        6 => { let eq = same(&r, &n); (good, eq) }
        10 => { let eq = same(&digest(alg, &[&ks.client]), &ks.stored); (good, eq) }
        _ => (if flag() { good } else { cat(&[&wp, b",p=", &upto(len)]) }, false),
    };
    let wz = Some(&b"zid="[..]);
    let (k, out) = step(&mut s, Some(&m));
    verdict(&mut s, k, &out, right, &sig, b"us,er", wz);
    let refused = w.validates.is_empty() && s.validation().is_none() && (k == St::Err && out.is_empty() || out.len() > 2 && same(&out[..2], b"e="));
    if mode == 2 { let want = cat(&[b",r=", &n, b","]); check(532, refused || (0..m.len()).any(|i| m.len() - i >= want.len() && same(&m[i..i + want.len()], &want))); } // the nonce is in every message that is accepted
    if mode == 6 { check(531, right || refused); } // a nonce that is not the concatenation of both is refused
    if matches!(mode, 5 | 8 | 9) { check(731, right || refused); } // another gs2 header or other data is refused
    if m.len() < full { check(131, refused); } // shorter than expected: an error
}
/// Every part of `ext` (which starts with a comma) is an attribute with a value
fn extensions(ext: &[u8]) -> bool {
    let mut r = true;
    for p in ext[1..].split(|b| *b == b',') { r &= p.len() >= 3 && p[0].is_ascii_alphabetic() && p[1] == b'=' && p[0] != b'm' && p[0] != b'p' && !has(p, 0) && is_utf8(&p[2..]); }
    r
}
/// C03, C08: messages of a client with extensions. param 0: algorithm, 1: 0 in its first message, 1 in its final message, 2: longest
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_server_ext() {
    reset();
    let (alg, place, len) = (param(0), param(1), param(2));
    let (ks, _, _) = credential(alg);
    let ext = cat(&[b",", &upto(len)]);
    let formed = extensions(&ext);
    let none = Vec::new();
    let (e1, e2) = if place == 0 { (&ext, &none) } else { (&none, &ext) };
    let bare = cat(&[b"n=us=2Cer,r=client+nonce", e1]);
    let mut s = server(&S[alg], BARE[alg]);
    let x = to_final(&mut s, &cat(&[b"n,a=zid=3D,", &bare]), b"client+nonce");
    check(821, x.is_some() || place == 0 && !formed); // optional extensions do no harm
    let (sf, n) = match x { Some(x) => x, None => return };
    let wp = cat(&[b"c=", &b64(b"n,a=zid=3D,"), b",r=", &n]);
    let covered = flag();
    let (proof, sig) = if covered { proofs(alg, &ks, &bare, &sf, &cat(&[&wp, e2])) } else { proofs(alg, &ks, b"n=us=2Cer,r=client+nonce", &sf, &wp) };
    let (k, out) = step(&mut s, Some(&cat(&[&wp, e2, b",p=", &b64(&proof)])));
    let w = w();
    if !covered { // inserted on the way: the proof is over other messages than those that arrived
        cover(3);
        check(341, w.validates.is_empty() && s.validation().is_none() && (k == St::Err && out.is_empty() || out.len() > 2 && same(&out[..2], b"e="))); // inserted on the way: refused
    } else if formed || !w.validates.is_empty() { verdict(&mut s, k, &out, true, &sig, b"us,er", Some(&b"zid="[..])); }
}
const UNIQUE: &str = "tls-unique";
/// C07: the server and channel binding. param 0: algorithm, 1: 0 plain mechanism only, 1 plain mechanism and -PLUS offered, 2 -PLUS, 2: longest binding data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_server_cb() {
    reset();
    let (alg, mech, len) = (param(0), param(1), param(2));
    let (ks, _, _) = credential(alg);
    let w = w();
    let data = upto(len);
    let src = choose(3);
    let cb = Cb(if src == 1 { Some((UNIQUE, data.clone())) } else { None });
    if src == 2 { w.cbinding = Some(data.clone()); }
    let f = choose(4);
    let flag: &[u8] = [&b"n"[..], b"y", b"p=tls-unique", b"p=Other-1.x"][f];
    let zid = choose(2) == 1;
    let gs2 = cat(&[flag, if zid { b",a=z," } else { b",," }]);
    let mut s = match mech { 0 => server_cb(&S[alg], BARE[alg], cb), 1 => server_cb(&B[alg], BARE[alg], cb), _ => server_cb(&P[alg], PLUS[alg], cb) };
    let (k, sf) = step(&mut s, Some(&cat(&[&gs2, b"n=user,r=abc"])));
    let available = f == 2 && src == 1 || f >= 2 && src == 2;
    if f == 0 { check(701, (k == St::Running) == (mech < 2)); } // no binding: only without -PLUS
    if f == 1 { check(702, (k == St::Running) == (mech == 0)); } // client believes the server can not: only if it really can not
    if f >= 2 && !available { check(703, k == St::Err); } // no data: refused
    if f >= 2 && available && mech == 2 { check(704, k == St::Running); }
    if f >= 2 && src == 2 && !w.cb_asked.is_empty() { check(705, same_opt(&w.cb_asked[0], Some(&flag[2..]))); } // the application is asked for the name the client uses [C26]
    if k != St::Running { cover(1); check(706, k == St::Err && sf.is_empty() && w.stored_seen.is_empty()); return; } // refused: nothing sent
    check(707, sf.len() > 2 + 3 + NONCE);
    if sf.len() <= 2 + 3 + NONCE { return; }
    let n = sf[2..2 + 3 + NONCE].to_vec();
    // the client's view of the header and of the channel
    let theirs = upto(len);
    let hdr = match choose(3) { 0 => gs2.clone(), 1 => cat(&[b"n", &gs2[flag.len()..]]), _ => cat(&[b"p=tls-unique", &gs2[flag.len()..]]) };
    let bound = cat(&[&hdr, &theirs]);
    let wp = cat(&[b"c=", &b64(&bound), b",r=", &n]);
    let (proof, sig) = proofs(alg, &ks, b"n=user,r=abc", &sf, &wp);
    let right = same(&bound, &if f >= 2 { cat(&[&gs2, &data]) } else { gs2.clone() });
    let (k, out) = step(&mut s, Some(&cat(&[&wp, b",p=", &b64(&proof)])));
    if right {
        cover(2);
        check(711, w.validates.len() == 1 && k == St::Sent && same(&out, &cat(&[b"v=", &b64(&sig)])) && s.validation() == Some(VALUE)); // same header and same channel: accepted [C06 C03]
    } else {
        cover(3);
        check(712, w.validates.is_empty() && s.validation().is_none()); // otherwise never validated
        check(713, k == St::Err && out.is_empty() || k == St::Sent && out.len() > 2 && same(&out[..2], b"e=")); // and an error
    }
}
/// C07: the client and channel binding. param 0: algorithm, 1: longest binding data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_client_cb() {
    reset();
    let (alg, len) = (param(0), param(1));
    let w = w();
    w.enable_cb = true;
    w.authid = Some("user".into());
    w.salted = Some(vec![9; 20]);
    let (d1, d2) = (upto(len), upto(len));
    let proto = choose(4);
    let cb = Cb(match proto { 0 => None, 1 => Some((UNIQUE, d1.clone())), 2 => Some(("tls-exporter", d1.clone())), _ => Some(("my-own", d1.clone())) });
    let over = choose(3);
    match over { 1 => w.cbtype = Some("my-own".into()), 2 => w.cbtype = Some(UNIQUE.into()), _ => {} }
    let app = flag();
    if app { w.cbinding = Some(d2.clone()); }
    let mut c = client_cb(&P[alg], PLUS[alg], cb);
    let (k, m) = step(&mut c, None);
    let pname = ["", UNIQUE, "tls-exporter", "my-own"][proto];
    // an explicit type is the only one; otherwise exporter before unique; protocol before application
    let mut pick = None;
    for t in match over { 1 => &["my-own"][..], 2 => &[UNIQUE], _ => &["tls-exporter", UNIQUE] } {
        if pick.is_some() { break; }
        if *t == pname { pick = Some((*t, &d1)); } else if app { pick = Some((*t, &d2)); }
    }
    let (t, d) = match pick { None => { cover(1); check(721, k == St::Err && m.is_empty()); return; } Some(x) => x }; // no binding data: nothing is sent [C26]
    check(722, k == St::Running);
    let gs2 = cat(&[b"p=", t.as_bytes(), b",,"]);
    let n = match nonce_of(&m, &cat(&[&gs2, b"n=user,r="])) { Some(n) => n, None => { check(723, false); return; } }; // names the type of the data
    let (k, m) = step(&mut c, Some(&cat(&[b"r=", &n, b"x,s=c2FsdA==,i=1"])));
    check(724, k == St::Running);
    let p = cat(&[b"c=", &b64(&cat(&[&gs2, d])), b",r=", &n, b"x,p="]);
    check(725, m.len() > p.len() && same(&m[..p.len()], &p)); // header and data exactly
    cover(2);
}
/// C06, C07, C08, C24: a client and a server. param 0: algorithm, 1: longest name, 2: longest authorization identity, 3: length of passwords, 4: length of binding data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_pair() {
    reset();
    let alg = param(0);
    let w = w();
    let plus = flag();
    w.enable_cb = plus;
    // every name, password and binding data that both sides agree on, every difference in binding data, or two different passwords
    let agree = flag();
    let id = if agree { string_between(1, param(1)) } else { "us=er".into() };
    let zid = if !agree || flag() { None } else { Some(string_between(1, param(2))) };
    assume(!has(id.as_bytes(), 0) && zid.as_ref().map_or(true, |z| !has(z.as_bytes(), 0)));
    let (mine, theirs) = if agree { let p = bytes(param(3)); (p.clone(), p) } else { (b"pencil".to_vec(), b"pencil2".to_vec()) };
    let n = if plus && agree { param(4) } else { 0 };
    let (d1, d2) = (bytes(n), bytes(n));
    let ks = keys(alg, &hi(alg, &theirs, b"salt", 2));
    w.stored = Some((2, b"salt".to_vec(), ks.stored.clone(), ks.server.clone()));
    w.authid = Some(id.clone());
    w.authzid = zid.clone();
    w.password = Some(mine.clone());
    w.verdict = choose(2) as u8;
    let mut c = if plus { client_cb(&P[alg], PLUS[alg], Cb(Some((UNIQUE, d1.clone())))) } else { client(&S[alg], BARE[alg]) };
    let mut s = if plus { server_cb(&P[alg], PLUS[alg], Cb(Some((UNIQUE, d2.clone())))) } else { server(&S[alg], BARE[alg]) };
    let (k, m) = step(&mut c, None);
    check(631, k == St::Running); // [C24]
    let (k, m) = step(&mut s, Some(&m));
    check(632, k == St::Running); // [C24]
    let z = zid.as_ref().map(|z| z.as_bytes());
    check(821, w.stored_seen.len() == 1 && same_opt(&w.stored_seen[0].authid, Some(id.as_bytes())) && same_opt(&w.stored_seen[0].authzid, z)); // exactly the names the client has
    let (k, m) = step(&mut c, Some(&m));
    check(633, k == St::Running); // [C24]
    let (k, m) = step(&mut s, Some(&m));
    let right = same(&mine, &theirs) & same(&d1, &d2);
    if right {
        cover(1);
        check(634, w.validates.len() == 1 && (k == St::Sent) == (w.verdict == 0)); // same password and channel: authenticated [C24 C07]
        if w.validates.len() == 1 { check(822, same_opt(&w.validates[0].authid, Some(id.as_bytes())) && same_opt(&w.validates[0].authzid, z)); }
        check(635, (s.validation() == Some(VALUE)) == (w.verdict == 0));
    } else {
        cover(2);
        check(636, w.validates.is_empty() && s.validation().is_none() && (k == St::Sent || k == St::Err)); // otherwise not [C07]
    }
    let (k, m) = step(&mut c, Some(&m));
    let right = right && (w.verdict == 0 || k == St::Quiet); // a server whose application refuses may keep its signature
    check(637, m.is_empty() && (k == St::Quiet) == right && (right || k == St::Err)); // and the client agrees [C07]
    check(2405, k == St::Quiet || !right); // both finish
}

/// C03: stored keys of impossible lengths. param 0: algorithm
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scram_bad_keys() {
    reset();
    let alg = param(0);
    let (ks, _, _) = credential(alg);
    let n = ks.stored.len();
    let w = w();
    let lens = [0, 1, n - 1, n, n + 1, 2 * n];
    let (a, b) = (lens[choose(6)], lens[choose(6)]);
    let cut = |k: &[u8], l: usize| -> Vec<u8> { (0..l).map(|i| k[i % n]).collect() };
    w.stored = Some((2, b"salt".to_vec(), cut(&ks.stored, a), cut(&ks.server, b)));
    let mut s = server(&S[alg], BARE[alg]);
    let first = b"n,,n=user,r=abc";
    let (k, sf) = step(&mut s, Some(first));
    if a == n && b == n { cover(1); check(304, k == St::Running); return; }
    cover(2);
    if k != St::Running { check(305, k == St::Err && w.validates.is_empty() && s.validation().is_none()); return; } // impossible keys: an error
    // or at the latest with the proof
    let nonce = if sf.len() > 5 + NONCE { sf[2..5 + NONCE].to_vec() } else { Vec::new() };
    let wp = cat(&[b"c=biws,r=", &nonce]);
    let p = if flag() { proofs(alg, &ks, &first[3..], &sf, &wp).0 } else { upto(2) };
    let (k, _) = step(&mut s, Some(&cat(&[&wp, b",p=", &b64(&p)])));
    check(306, w.validates.is_empty() && s.validation().is_none() && k != St::Running); // never accepted
}
