//! Which mechanism gets started.
use crate::common::*;
use crate::scram::{b64, hi, keys, proofs, NONCE};
use core::cmp::Ordering;
use rsasl::callback::SessionCallback;
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::mechanisms::{anonymous::ANONYMOUS, external::EXTERNAL, gssapi::GSSAPI, login::LOGIN, oauthbearer::OAUTHBEARER, plain::PLAIN, scram::{SCRAM_SHA1, SCRAM_SHA1_PLUS, SCRAM_SHA256, SCRAM_SHA256_PLUS, SCRAM_SHA512, SCRAM_SHA512_PLUS}, xoauth2::XOAUTH2};
use rsasl::prelude::*;
use rsasl::registry::{Matches, Named, Selection, Side};
use std::convert::TryFrom;
use std::sync::Arc;

/// A mechanism that only says which one it is, and on which side.
struct Id(u8, u8);
impl Authentication for Id {
    fn step(&mut self, _: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        w.write_all(&[self.0, self.1])?;
        Ok(State::Finished(MessageSent::Yes))
    }
}
const N: usize = 7;
static mut POOL: Vec<Mechanism> = Vec::new();
#[allow(static_mut_refs)]
fn pool(i: usize) -> &'static Mechanism { unsafe { &POOL[i] } }
macro_rules! ids { ($($t:ident $i:expr),*) => { $(struct $t; impl Named for $t { fn mech() -> &'static Mechanism { pool($i) } })* } }
ids!(N0 0, N1 1, N2 2, N3 3, N4 4, N5 5, N6 6);
const NAMES: [&str; N] = ["A", "AB", "A-P", "B", "A", "A-", "C"];
const CLIENT: [bool; N] = [true, true, true, false, false, true, false];
const SERVER: [bool; N] = [true, false, true, true, true, true, false];
const CBONLY: [bool; N] = [false, false, true, false, false, false, false];
static mut PRIO: [u8; N] = [0; N];
macro_rules! mech { ($i:expr, $n:ident) => { Mechanism::build(Mechname::const_new_unchecked(NAMES[$i].as_bytes()), unsafe { PRIO[$i] } as usize,
    if CLIENT[$i] { Some(|| Ok(Box::new(Id(b'0' + $i, b'c')))) } else { None }, if SERVER[$i] { Some(|_| Ok(Box::new(Id(b'0' + $i, b's')))) } else { None },
    Side::Client, |cb| if CBONLY[$i] && !cb { None } else { Some(Matches::<$n>::name()) }, |_| true) } }
#[allow(static_mut_refs)]
fn fill_pool() { unsafe { POOL = vec![mech!(0, N0), mech!(1, N1), mech!(2, N2), mech!(3, N3), mech!(4, N4), mech!(5, N5), mech!(6, N6)]; } }
/// Any `n` different ones in any order.
fn some(n: usize, all: usize) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for _ in 0..choose(n + 1) { let i = choose(all); assume(!v.contains(&i)); v.push(i); }
    v
}
fn leak(v: &[usize]) -> &'static [Mechanism] { Vec::leak(v.iter().map(|&i| *pool(i)).collect::<Vec<_>>()) }
fn valid(c: u8) -> bool { (c >= b'A') & (c <= b'Z') | (c >= b'0') & (c <= b'9') | (c == b'-') | (c == b'_') }
/// Every name of 1..=`max` characters.
fn any_name(max: usize) -> Vec<u8> {
    let v = between(1, max);
    let mut ok = true;
    for &c in &v { ok &= valid(c); }
    assume(ok);
    v
}
fn mn(v: &[u8]) -> &Mechname { match Mechname::parse(v) { Ok(m) => m, Err(_) => { check(1101, false); loop { assume(false) } } } }
/// Ranks of the application, 0: not acceptable.
static mut RANK: [u8; N] = [0; N];
static mut BYPRIO: bool = false;
static mut CAND: [bool; N] = [false; N];
struct Ranked;
fn index(m: &Mechanism) -> usize { let n = m.mechanism.as_bytes(); (0..N).find(|&i| n == NAMES[i].as_bytes()).unwrap_or(0) }
struct ByPriority;
impl SessionCallback for ByPriority { fn enable_channel_binding(&self) -> bool { w().enable_cb } }
impl SessionCallback for Ranked {
    fn enable_channel_binding(&self) -> bool { w().enable_cb }
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        let r = |i: usize| unsafe { RANK[i] };
        let j = index(b);
        check(901, unsafe { CAND[j] }); // the application is only asked about mechanisms that both sides have
        if let Some(a) = a { check(902, unsafe { CAND[index(a)] }); }
        if r(j) == 0 { return Ordering::Greater; }
        match a { None => Ordering::Less, Some(a) => r(index(a)).cmp(&r(j)) }
    }
}
fn conf<C: SessionCallback + 'static>(m: &'static [Mechanism], c: C) -> Arc<SASLConfig> { match SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(c) { Ok(c) => c, Err(_) => loop { assume(false) } } }
/// C09: param 0: 0 the application ranks, 1 priorities; 1: most mechanisms, 2: most offered names, 3: longest name
#[no_mangle] #[inline(never)]
pub extern "C" fn h_select() {
    reset();
    let byprio = param(0) == 1;
    w().enable_cb = flag();
    let mut ranks = [0u8; N];
    for i in 0..N { ranks[i] = byte(); }
    unsafe { if byprio { PRIO = ranks; } RANK = ranks; }
    fill_pool();
    let reg = some(param(1), 6);
    let offer: Vec<Vec<u8>> = (0..choose(param(2) + 1)).map(|_| any_name(param(3))).collect();
    let mut cand = [false; N];
    for &i in &reg {
        let mut hit = false;
        for o in &offer { hit |= same(o, NAMES[i].as_bytes()); }
        cand[i] = hit & CLIENT[i] & (!CBONLY[i] | w().enable_cb);
    }
    unsafe { CAND = cand; }
    let mut best: Option<u8> = None;
    let mut any = false;
    for i in 0..N { any |= cand[i] & (byprio | (ranks[i] != 0)); }
    let names: Vec<&Mechname> = offer.iter().map(|o| mn(o)).collect();
    let c = if byprio { conf(leak(&reg), ByPriority) } else { conf(leak(&reg), Ranked) };
    let r = SASLClient::<Cb>::with_cb(c, Cb(None)).start_suggested(&names);
    match r {
        Ok(mut s) => {
            check(903, any); // only if there is a common acceptable mechanism
            let (k, out) = step(&mut s, None);
            check(904, k == St::Sent && out.len() == 2 && out[1] == b'c'); // the client side of a mechanism runs
            let i = (out[0] - b'0') as usize;
            check(905, i < N && cand[i]); // one that is enabled, has a client side, and was offered
            check(906, s.get_mechname().as_bytes() == NAMES[i].as_bytes()); // the one it says
            for j in 0..N { check(907, !cand[j] | (ranks[j] <= ranks[i])); } // none ranks higher
            check(908, byprio | (ranks[i] != 0)); // acceptable to the application
            best = Some(i as u8);
            cover(1);
        }
        Err(e) => { check(909, !any); check(910, matches!(e, SASLError::NoSharedMechanism)); cover(2); }
    }
    obs(3, best.map_or(99, |x| x as u64));
}
static POOL2: [Mechanism; 9] = [SCRAM_SHA1, SCRAM_SHA1_PLUS, SCRAM_SHA256, SCRAM_SHA256_PLUS, SCRAM_SHA512, SCRAM_SHA512_PLUS, PLAIN, LOGIN, ANONYMOUS];
/// preference order of the built-in mechanisms: strength
const ORDER: [u8; 9] = [3, 4, 5, 6, 5, 6, 2, 1, 0];
/// A name of the pool, or one that is almost one of them.
fn offered(all: usize) -> Vec<u8> {
    let mut v = POOL2[choose(all)].mechanism.as_bytes().to_vec();
    match choose(4) {
        0 => {}
        1 => { v.pop(); }
        2 => { let at = crate::scram::choose16(v.len()); let c = byte(); assume(valid(c)); v[at] = c; }
        _ => { let c = byte(); assume(valid(c)); v.push(c); }
    }
    v
}
/// C09, C07: the built-in mechanisms with the default preference. param 0: mechanisms to choose from, 1: most enabled, 2: most offered
#[no_mangle] #[inline(never)]
pub extern "C" fn h_select_builtin() {
    reset();
    let w = w();
    w.enable_cb = flag();
    let all = param(0);
    let reg = some(param(1), all);
    let m: &'static [Mechanism] = Vec::leak(reg.iter().map(|&i| POOL2[i]).collect::<Vec<_>>());
    let exact = param(3) == 1; // the offered names are right
    let offer: Vec<Vec<u8>> = (0..choose(param(2) + 1)).map(|_| if exact { POOL2[choose(all)].mechanism.as_bytes().to_vec() } else { offered(all) }).collect();
    let has = |n: &str| { let mut hit = false; for o in &offer { hit |= same(o, n.as_bytes()); } hit };
    let plus = |i: usize| i < 6 && i % 2 == 1;
    let names: Vec<&Mechname> = offer.iter().map(|o| mn(o)).collect();
    w.authid = Some("u".into());
    w.password = Some(b"p".to_vec());
    let mut any = false;
    for &i in &reg { any |= has(POOL2[i].mechanism.as_str()) & (!plus(i) | w.enable_cb); }
    match SASLClient::<Cb>::with_cb(config(m), Cb(Some(("tls-unique", b"x".to_vec())))).start_suggested(&names) {
        Ok(mut s) => {
            let got = s.get_mechname().as_str();
            let i = match reg.iter().position(|&i| POOL2[i].mechanism.as_str() == got) { Some(p) => reg[p], None => { check(911, false); return; } }; // enabled
            check(912, has(got)); // offered
            check(913, !plus(i) || w.enable_cb); // -PLUS only with channel binding
            for &j in &reg { check(914, !(has(POOL2[j].mechanism.as_str()) & (!plus(j) | w.enable_cb)) | (ORDER[j] <= ORDER[i])); } // nothing stronger is available
            if i != 7 {
                let (k, out) = step(&mut s, None);
                check(915, k.ok()); // it runs
                let head = out.iter().position(|&c| c == b',').unwrap_or(0);
                if i < 6 {
                    if plus(i) { check(916, same(&out[..head], b"p=tls-unique")); cover(1); }
                    else {
                        let y = w.enable_cb & !has(POOL2[i + 1].mechanism.as_str());
                        check(790, same(&out[..head], if y { b"y" } else { b"n" })); // claims a server without channel binding exactly if it did not offer it
                        cover(if y { 2 } else { 3 });
                    }
                } else { check(917, same(&out, if i == 6 { b"\0u\0p" } else { b"" })); cover(4); }
            } else { cover(5); }
        }
        Err(e) => { check(918, !any); check(919, matches!(e, SASLError::NoSharedMechanism)); cover(6); }
    }
}
/// C10: param 0: most mechanisms, 1: longest name
#[no_mangle] #[inline(never)]
pub extern "C" fn h_server_start() {
    reset();
    fill_pool();
    let reg = some(param(0), N);
    let n = any_name(param(1));
    let c = conf(leak(&reg), ByPriority);
    let sv = SASLServer::<Val, Cb>::with_cb(c, Cb(None));
    let have: Vec<&[u8]> = sv.get_available().into_iter().map(|m| m.mechanism.as_bytes()).collect();
    let want: Vec<&[u8]> = reg.iter().filter(|&&i| SERVER[i]).map(|&i| NAMES[i].as_bytes()).collect();
    check(1001, have.len() == want.len()); // exactly the mechanisms with a server side are available
    for x in &want { check(1002, have.iter().filter(|y| *y == x).count() == want.iter().filter(|y| *y == x).count()); }
    let mut any = false;
    for &i in &reg { any |= SERVER[i] & same(&n, NAMES[i].as_bytes()); }
    match sv.start_suggested(mn(&n)) {
        Ok(mut s) => {
            check(1003, any); // only the exact name of a mechanism with a server side
            let (k, out) = step(&mut s, Some(b""));
            check(1004, k == St::Sent && out.len() == 2 && out[1] == b's'); // its server side
            let i = (out[0] - b'0') as usize;
            check(1005, reg.contains(&i) && SERVER[i] && same(&n, NAMES[i].as_bytes())); // of that very mechanism
            check(1006, same(s.get_mechname().as_bytes(), &n));
            cover(1);
        }
        Err(e) => { check(1007, !any); check(1008, matches!(e, SASLError::NoSharedMechanism)); cover(2); }
    }
}
static BUILTIN: [Mechanism; 13] = [PLAIN, LOGIN, ANONYMOUS, EXTERNAL, XOAUTH2, OAUTHBEARER, GSSAPI, SCRAM_SHA1, SCRAM_SHA1_PLUS, SCRAM_SHA256, SCRAM_SHA256_PLUS, SCRAM_SHA512, SCRAM_SHA512_PLUS];
const FIRST: [bool; 13] = [true, false, true, true, true, true, true, true, true, true, true, true, true];
/// C09, C10: long registries and long offers. param 0: most others
#[no_mangle] #[inline(never)]
pub extern "C" fn h_many() {
    reset();
    w().enable_cb = true;
    fill_pool();
    let n = crate::scram::choose16(param(0) + 1);
    let t = BUILTIN[choose(13)];
    let (first, before) = (flag(), flag());
    let mut reg = vec![*pool(1); n];
    reg.insert(if first { 0 } else { n }, t);
    let reg: &'static [Mechanism] = Vec::leak(reg);
    let mut names: Vec<String> = (0..n).map(|i| format!("X-{i}")).collect();
    names.insert(if before { 0 } else { n }, t.mechanism.as_str().into());
    let offer: Vec<&Mechname> = names.iter().map(|x| mn(x.as_bytes())).collect();
    match SASLClient::<Cb>::with_cb(config(reg), Cb(None)).start_suggested(&offer) {
        Ok(s) => { cover(1); check(920, s.get_mechname().as_str() == t.mechanism.as_str()); } // the only shared one, wherever it is
        Err(_) => check(921, false), // found however many others there are
    }
    let sv = SASLServer::<Val, Cb>::with_cb(config(reg), Cb(None));
    check(1020, sv.get_available().into_iter().filter(|m| m.mechanism.as_str() == t.mechanism.as_str()).count() == 1); // listed however many others there are
    match sv.start_suggested(t.mechanism) {
        Ok(s) => { cover(2); check(1021, s.get_mechname().as_str() == t.mechanism.as_str()); } // the requested one, wherever it is
        Err(_) => check(1022, false), // found however many others there are
    }
}
/// C10: the built-in mechanisms: the requested name with up to one character replaced, removed or added. param 0: 1: all enabled, 0: one or all
#[no_mangle] #[inline(never)]
pub extern "C" fn h_server_builtin() {
    reset();
    let w = w();
    w.verdict = 0; w.oans = 1;
    let only = choose(14);
    let m: &'static [Mechanism] = if only == 13 { &BUILTIN } else { &BUILTIN[only..only + 1] };
    let i = choose(13);
    let mut n = BUILTIN[i].mechanism.as_bytes().to_vec();
    match choose(4) {
        0 => {}
        1 => { n.pop(); if n.is_empty() { return; } }
        2 => { let at = crate::scram::choose16(n.len()); let c = byte(); assume(valid(c)); n[at] = c; }
        _ => { let c = byte(); assume(valid(c)); n.push(c); }
    }
    let mut hit = None;
    for (j, x) in m.iter().enumerate() { if same(&n, x.mechanism.as_bytes()) { hit = Some(j); } }
    let sv = SASLServer::<Val, Cb>::with_cb(config(m), Cb(Some(("tls-unique", b"x".to_vec()))));
    let have: Vec<&str> = sv.get_available().into_iter().map(|m| m.mechanism.as_str()).collect();
    check(1011, have.len() == m.len() && (0..have.len()).all(|j| have.contains(&m[j].mechanism.as_str()))); // all are available
    match sv.start_suggested(mn(&n)) {
        Ok(s) => {
            check(1012, hit.is_some());
            let j = hit.unwrap_or(0);
            let g = s.get_mechname().as_str();
            check(1013, g == m[j].mechanism.as_str());
            let k = BUILTIN.iter().position(|x| x.mechanism.as_str() == g).unwrap_or(0);
            check(1014, s.are_we_first() == !FIRST[k]); // the client goes first except in LOGIN
            cover(1);
        }
        Err(e) => { check(1015, hit.is_none() && matches!(e, SASLError::NoSharedMechanism)); cover(2); }
    }
}
/// C09, C10: configurations that name no mechanisms. param 0: most offered names
#[no_mangle] #[inline(never)]
pub extern "C" fn h_default_config() {
    reset();
    let w = w();
    w.enable_cb = flag();
    let b = SASLConfig::builder();
    let b = match choose(3) { 0 => b.with_defaults(), 1 => b.with_default_mechanisms(), _ => b.with_registry(Registry::default()) };
    let c = match b.with_callback(App) { Ok(c) => c, Err(_) => { check(931, false); return; } };
    // -PLUS and GSSAPI may or may not be in the default set
    let sure = |k: usize| k < 6 || matches!(k, 7 | 9 | 11);
    let rank = [300, 200, 100, 100, 300, 300, 300, 400, 500, 600, 700, 600, 700];
    let sv = SASLServer::<Val, Cb>::with_cb(c.clone(), Cb(Some(("tls-unique", b"x".to_vec()))));
    let have: Vec<&str> = sv.get_available().into_iter().map(|m| m.mechanism.as_str()).collect();
    for k in 0..13 { let n = have.iter().filter(|x| **x == BUILTIN[k].mechanism.as_str()).count(); check(1031, if sure(k) { n == 1 } else { n <= 1 }); } // a server offers every mechanism once
    check(1032, have.iter().all(|n| BUILTIN.iter().any(|m| m.mechanism.as_str() == *n))); // and nothing else
    if flag() {
        let k = choose(13);
        let n = BUILTIN[k].mechanism.as_str();
        match sv.start_suggested(BUILTIN[k].mechanism) {
            Ok(s) => { check(1033, have.contains(&n) && s.get_mechname().as_str() == n); cover(1); } // what is offered can be started
            Err(e) => { check(1034, !have.contains(&n) && matches!(e, SASLError::NoSharedMechanism)); cover(2); }
        }
        return;
    }
    core::mem::forget(sv);
    let offer: Vec<usize> = (0..choose(param(0) + 1)).map(|_| choose(13)).collect();
    let names: Vec<&Mechname> = offer.iter().map(|&i| BUILTIN[i].mechanism).collect();
    match SASLClient::<Cb>::with_cb(c, Cb(Some(("tls-unique", b"x".to_vec())))).start_suggested(&names) {
        Ok(s) => {
            let g = s.get_mechname().as_str();
            let k = match BUILTIN.iter().position(|x| x.mechanism.as_str() == g) { Some(k) => k, None => { check(932, false); return; } };
            check(933, offer.contains(&k) && (w.enable_cb || k < 7 || k % 2 == 1)); // offered; -PLUS only with channel binding
            check(934, offer.iter().all(|&j| !sure(j) || rank[j] <= rank[k])); // nothing stronger was offered
            check(935, s.are_we_first() == FIRST[k]);
            cover(3);
        }
        Err(e) => { check(936, !offer.iter().any(|&j| sure(j)) && matches!(e, SASLError::NoSharedMechanism)); cover(4); }
    }
}
/// C11. param 0: longest name
#[no_mangle] #[inline(never)]
pub extern "C" fn h_mechname() {
    reset();
    let n = upto(param(0));
    let mut bad = n.len();
    for i in (0..n.len()).rev() { if !valid(n[i]) { bad = i; } }
    let r = Mechname::parse(&n);
    match &r {
        Ok(m) => {
            check(1111, !n.is_empty() && bad == n.len()); // only valid names
            check(1112, same(m.as_bytes(), &n) && same(m.as_str().as_bytes(), &n) && m.len() == n.len()); // unaltered
            check(1113, **m == n[..] && n[..] == **m && **m == *unsafe { core::str::from_utf8_unchecked(&n) } && *unsafe { core::str::from_utf8_unchecked(&n) } == **m); // equals its text
            let d = format!("{}", m);
            check(1114, same(d.as_bytes(), &n)); // displays as its text
            let x = upto(param(0));
            let eq = same(&x, &n);
            check(1115, (**m == x[..]) == eq && (x[..] == **m) == eq); // and equals nothing else
            if let Ok(y) = Mechname::parse(&x) { check(1116, (*y == **m) == eq); cover(3); }
            cover(1);
        }
        Err(e) => {
            check(1117, n.is_empty() || bad < n.len()); // every valid name is accepted
            use rsasl::mechname::MechanismNameError as E;
            match *e {
                E::TooShort => check(1118, n.is_empty()),
                E::InvalidChar { index, value } => check(1119, !n.is_empty() && index == bad && value == n[index]), // the first invalid character
                _ => check(1120, false),
            }
            cover(2);
        }
    }
    let t = <&Mechname>::try_from(&n[..]);
    check(1121, match (&t, &r) { (Ok(a), Ok(b)) => same(a.as_bytes(), b.as_bytes()), (Err(a), Err(b)) => a == b, _ => false }); // conversions agree
    if let Ok(s) = core::str::from_utf8(&n) { let t = <&Mechname>::try_from(s); check(1122, match (&t, &r) { (Ok(a), Ok(b)) => same(a.as_bytes(), b.as_bytes()), (Err(a), Err(b)) => a == b, _ => false }); }
}
/// C28. param 0: longest of authid and password, 1: longest authzid, 2: most offered names, 3: 1: offers of PLAIN and LOGIN only
#[no_mangle] #[inline(never)]
pub extern "C" fn h_credentials() {
    reset();
    let zid = if flag() { Some(string_between(0, param(1))) } else { None };
    let id = string_between(0, param(0));
    let pw = string_between(0, param(0));
    w().enable_cb = true;
    let c = match SASLConfig::with_credentials(zid.clone(), id.clone(), pw.clone()) { Ok(c) => c, Err(_) => { check(2801, false); return; } };
    let sv = SASLServer::<Val, Cb>::with_cb(c.clone(), Cb(None));
    // PLAIN, LOGIN and SCRAM
    for m in sv.get_available() { let n = m.mechanism.as_str(); check(2802, n == "PLAIN" || n.starts_with("SCRAM-") || n == "LOGIN" && zid.is_none()); } // only password mechanisms, none that can not carry the authorization identity
    core::mem::forget(sv);
    let offer: Vec<usize> = (0..choose(param(2) + 1)).map(|_| choose(if param(3) == 1 { 2 } else { 13 })).collect();
    let names: Vec<&Mechname> = offer.iter().map(|&i| BUILTIN[i].mechanism).collect();
    // the strongest one
    let order = [9, 11, 7, 0, 1];
    let usable = |k: usize| offer.contains(&k) && (k != 1 || zid.is_none());
    let r = SASLClient::<Cb>::with_cb(c, Cb(Some(("tls-unique", b"x".to_vec())))).start_suggested(&names);
    let mut s = match r { Ok(s) => s, Err(_) => { check(2803, !order.iter().any(|&k| usable(k))); cover(1); return; } };
    let n = s.get_mechname().as_str();
    let k = match BUILTIN.iter().position(|x| x.mechanism.as_str() == n) { Some(k) => k, None => { check(2804, false); return; } };
    check(2805, order.contains(&k) && usable(k)); // a password mechanism that was offered
    let rank = |k: usize| match k { 9 | 11 => 3, 7 => 2, 0 => 1, _ => 0 };
    check(2806, order.iter().all(|&j| !usable(j) || rank(j) <= rank(k)));
    let z = zid.as_deref().unwrap_or("").as_bytes();
    let nul = |b: &[u8]| { let mut x = false; for &c in b { x |= c == 0; } x };
    match k {
        0 => {
            let (k, out) = step(&mut s, None);
            if k.finished() { check(2807, same(&out, &cat(&[z, b"\0", id.as_bytes(), b"\0", pw.as_bytes()]))); cover(2); } // exactly the credentials
            else { check(2808, nul(z) | nul(id.as_bytes()) | nul(pw.as_bytes()) | id.is_empty() | pw.is_empty()); }
        }
        1 => {
            let (k, out) = step(&mut s, Some(b"User Name\0"));
            check(2809, k == St::Running && same(&out, id.as_bytes()));
            let (k, out) = step(&mut s, Some(b"Password\0"));
            check(2810, k == St::Sent && same(&out, pw.as_bytes()));
            cover(3);
        }
        _ => {
            let a = match k { 7 => 0, 9 => 1, _ => 2 };
            let esc = |b: &[u8]| { let mut v = Vec::new(); for &c in b { match c { b',' => v.extend_from_slice(b"=2C"), b'=' => v.extend_from_slice(b"=3D"), c => v.push(c) } } v };
            let (k, out) = step(&mut s, None);
            if k != St::Running { check(2811, id.is_empty() | nul(id.as_bytes()) | nul(z) | (zid.is_some() & z.is_empty())); return; } // what SCRAM can not represent
            let gs2 = if zid.is_some() { cat(&[b"n,a=", &esc(z), b","]) } else { b"n,,".to_vec() };
            let head = cat(&[&gs2, b"n=", &esc(id.as_bytes()), b",r="]);
            check(2812, out.len() == head.len() + NONCE && same(&out[..head.len()], &head)); // exactly the identities
            let nonce = cat(&[&out[out.len() - NONCE..], b"x"]);
            let sf = cat(&[b"r=", &nonce, b",s=c2FsdA==,i=2"]);
            let (k, fin) = step(&mut s, Some(&sf));
            check(2813, k == St::Running);
            let wp = cat(&[b"c=", &b64(&gs2), b",r=", &nonce]);
            let ks = keys(a, &hi(a, pw.as_bytes(), b"salt", 2));
            let (p, _) = proofs(a, &ks, &out[gs2.len()..], &sf, &wp);
            check(2814, same(&fin, &cat(&[&wp, b",p=", &b64(&p)]))); // the proof of exactly this password
            cover(4);
        }
    }
}
