use crate::common::*;
use rsasl::mechanisms::plain::PLAIN;
static M: [rsasl::prelude::Mechanism; 1] = [PLAIN];

/// C12. param 0: longest field.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plain_client() {
    reset();
    let n = param(0);
    let w = w();
    if flag() { w.authzid = Some(string_between(0, n)); }
    if flag() { w.authid = Some(string_between(0, n)); }
    if flag() { w.password = Some(upto(n)); }
    let mut s = client(&M, "PLAIN");
    check(1201, s.are_we_first()); // the PLAIN client goes first
    let (st, out) = step(&mut s, None);
    let nul = |x: Option<&[u8]>| x.map_or(false, |x| has(x, 0));
    let zid = w.authzid.as_ref().map(|x| x.as_bytes());
    let id = w.authid.as_ref().map(|x| x.as_bytes());
    let pw = w.password.as_ref().map(|x| &x[..]);
    let bad = nul(zid) | nul(id) | nul(pw) | id.map_or(true, |x| x.is_empty()) | pw.map_or(true, |x| x.is_empty());
    check(1202, st.ok() != bad); // completes exactly if all values can be sent
    if st.ok() {
        cover(1);
        let mut want = zid.unwrap_or(b"").to_vec();
        want.push(0);
        want.extend_from_slice(id.unwrap());
        want.push(0);
        want.extend_from_slice(pw.unwrap());
        check(1203, same(&out, &want)); // writes authzid NUL authid NUL password
        check(1204, st == St::Sent); // finished with a message
    } else { cover(2); check(1205, st == St::Err); } // a real error
}

/// C13. param 0: longest message.
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plain_server() {
    reset();
    let w = w();
    w.verdict = choose(2) as u8;
    let m = upto(param(0));
    let mut s = server(&M, "PLAIN");
    let (st, out) = step(&mut s, Some(&m));
    if st.ok() { check(112, m.len() >= 4); } // shorter than any valid message: an error
    check(1301, out.is_empty()); // the server sends nothing
    // what the message says
    let mut f: Vec<&[u8]> = Vec::new();
    let mut b = 0;
    for i in 0..m.len() { if m[i] == 0 { f.push(&m[b..i]); b = i + 1; } }
    f.push(&m[b..]);
    let mut want: Option<(Vec<u8>, Vec<u8>, Vec<u8>)> = None;
    if f.len() == 3 && is_utf8(f[0]) && is_utf8(f[1]) {
        if let Ok(id) = stringprep::ctl::of(f[1]) {
            let pw = if is_utf8(f[2]) { stringprep::ctl::of(f[2]) } else { Ok(f[2].to_vec()) };
            if let Ok(pw) = pw { if !id.is_empty() && !pw.is_empty() { want = Some((f[0].to_vec(), id, pw)); } }
        }
    }
    match want {
        None => { cover(3); check(1302, w.validates.is_empty()); check(1303, st == St::Err); } // malformed: never validated; an error
        Some((zid, id, pw)) => {
            check(1304, w.validates.len() == 1); // well-formed: validated once
            if w.validates.len() == 1 {
                let v = &w.validates[0];
                check(1305, same_opt(&v.authid, Some(&id))); // the callback sees the authid
                check(1306, same_opt(&v.password, Some(&pw))); // the callback sees the password
                check(1307, same_opt(&v.authzid, Some(&zid)) || zid.is_empty() && v.authzid.is_none()); // the callback sees the authzid
            }
            if w.verdict == 0 { cover(1); check(1308, st == St::Quiet); } else { cover(2); check(1309, st == St::Err); } // finished; refused
        }
    }
}
