//! LOGIN, ANONYMOUS, EXTERNAL.
use crate::common::*;
use rsasl::mechanisms::{anonymous::ANONYMOUS, external::EXTERNAL, login::LOGIN};
use rsasl::prelude::Mechanism;
static L: [Mechanism; 1] = [LOGIN];
static A: [Mechanism; 1] = [ANONYMOUS];
static E: [Mechanism; 1] = [EXTERNAL];

fn input(n: usize) -> Option<Vec<u8>> { if flag() { Some(upto(n)) } else { None } }

/// C14. param 0: longest credential, 1: longest challenge.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_login_client() {
    reset();
    let w = w();
    let n = param(0);
    if flag() { w.authid = Some(string_between(0, n)); }
    if flag() { w.password = Some(upto(n)); }
    w.authzid = Some("zid".into());
    let mut s = client(&L, "LOGIN");
    check(1401, !s.are_we_first()); // the server goes first
    let c1 = upto(param(1));
    let (k, out) = step(&mut s, Some(&c1));
    match &w.authid {
        None => { cover(1); check(1402, k == St::Err && out.is_empty()); } // no authid: an error
        Some(id) => {
            check(1403, k == St::Running && same(&out, id.as_bytes())); // the first answer is the authid
            let c2 = upto(param(1));
            let (k, out) = step(&mut s, Some(&c2));
            match &w.password {
                None => { cover(2); check(1404, k == St::Err && out.is_empty()); } // no password: an error
                Some(p) => { cover(3); check(1405, k == St::Sent && same(&out, p)); } // the second answer is the password
            }
        }
    }
}
/// C14. param 0: longest message.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_login_server() {
    reset();
    let w = w();
    w.verdict = choose(3) as u8;
    let mut s = server(&L, "LOGIN");
    check(1411, s.are_we_first()); // the server goes first
    let i = input(1);
    let (k, out) = step(&mut s, i.as_deref());
    check(1412, k == St::Running && !out.is_empty() && w.validates.is_empty()); // first prompt
    let u = upto(param(0));
    let (k, out) = step(&mut s, Some(&u));
    if !is_utf8(&u) { cover(1); check(1413, k == St::Err && w.validates.is_empty()); return; } // an authid that is not UTF-8 is refused [C01] [C01]
    check(1414, k == St::Running && !out.is_empty() && w.validates.is_empty()); // second prompt
    let p = upto(param(0));
    let (k, out) = step(&mut s, Some(&p));
    check(1415, out.is_empty()); // nothing more is sent
    check(1416, w.validates.len() == 1); // validated once
    if let Some(v) = w.validates.get(0) {
        check(1417, same_opt(&v.authid, Some(&u))); // the callback sees the authid received first
        check(1418, same_opt(&v.password, Some(&p))); // the callback sees the password received second
        check(1419, v.authzid.is_none()); // and no authorization identity
    }
    check(1420, if w.verdict == 1 { k == St::Err } else { k == St::Quiet }); // the verdict decides
    check(1421, s.validation() == if w.verdict == 0 { Some(VALUE) } else { None }); // the validation value
    cover(2);
}

/// C15. param 0: longest token.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token_client() {
    reset();
    let w = w();
    let anon = flag();
    let t = if flag() { Some(string_between(0, param(0))) } else { None };
    // the value of another property must not leak
    if anon { w.trace = t.clone(); w.authzid = Some("other".into()); } else { w.authzid = t.clone(); w.trace = Some("other".into()); }
    w.authid = Some("other".into());
    w.password = Some(b"other".to_vec());
    let mut s = if anon { client(&A, "ANONYMOUS") } else { client(&E, "EXTERNAL") };
    check(1501, s.are_we_first()); // the client goes first
    let (k, out) = step(&mut s, None);
    check(1502, k == St::Sent); // finished with a message
    check(1503, same(&out, t.as_ref().map_or(b"", |x| x.as_bytes()))); // exactly the token, nothing without one
    cover(1);
}
/// C15. param 0: longest message.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_token_server() {
    reset();
    let w = w();
    w.verdict = choose(3) as u8;
    let anon = flag();
    let m = upto(param(0));
    let mut s = if anon { server(&A, "ANONYMOUS") } else { server(&E, "EXTERNAL") };
    let (k, out) = step(&mut s, Some(&m));
    if k.ok() { check(113, is_utf8(&m)); } // not UTF-8: an error
    check(1511, out.is_empty()); // the server sends nothing
    if is_utf8(&m) {
        cover(1);
        check(1512, w.validates.len() == 1); // validated once
        if let Some(v) = w.validates.get(0) {
            check(1513, same_opt(if anon { &v.trace } else { &v.authzid }, Some(&m))); // the callback sees exactly the message
            check(1514, (if anon { &v.authzid } else { &v.trace }).is_none() && v.authid.is_none() && v.password.is_none()); // and nothing else
        }
        check(1515, if w.verdict == 1 { k == St::Err } else { k == St::Quiet }); // the verdict decides
        check(1516, s.validation() == if w.verdict == 0 { Some(VALUE) } else { None }); // the validation value
    } else { cover(2); check(1517, k == St::Err && w.validates.is_empty()); } // not UTF-8: refused, not validated
}
