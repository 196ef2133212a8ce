//! What mechanisms and the application's callback tell each other: requests, actions, contexts, channel bindings, validation.
use crate::common::*;
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Authentication, Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::{Matches, Named, Selection, Side};
use rsasl::validate::{Validate, Validation, ValidationError};
use std::any::type_name;

// Four properties: two sized ones of the same value type, two unsized ones.
struct A; struct B; struct S; struct Y;
impl SizedProperty<'_> for A { type Value = u64; }
impl SizedProperty<'_> for B { type Value = u64; }
impl Property<'_> for S { type Value = str; }
impl Property<'_> for Y { type Value = [u8]; }
const P: usize = 4;
fn pname(p: usize) -> &'static str { match p { 0 => type_name::<A>(), 1 => type_name::<B>(), 2 => type_name::<S>(), _ => type_name::<Y>() } }

/// Errors that the application or the mechanism raise, and how they look afterwards.
#[derive(Clone, Copy, PartialEq, Eq)]
enum E { None, NoValue, NoCallback(&'static str), Needs, Layer, Early, Other }
fn make(i: usize) -> SessionError { match i { 0 => SessionError::CallbackError(CallbackError::NoCallback("x")), 1 => SessionError::InputDataRequired, 2 => SessionError::NoSecurityLayer, _ => SessionError::CallbackError(CallbackError::NoValue) } }
fn made(i: usize) -> E { match i { 0 => E::NoCallback("x"), 1 => E::Needs, 2 => E::Layer, _ => E::NoValue } }
fn code(e: &SessionError) -> E {
    match e {
        SessionError::CallbackError(CallbackError::NoValue) => E::NoValue,
        SessionError::CallbackError(CallbackError::NoCallback(n)) => E::NoCallback(n),
        SessionError::CallbackError(CallbackError::EarlyReturn(_)) => E::Early,
        SessionError::InputDataRequired => E::Needs,
        SessionError::NoSecurityLayer => E::Layer,
        _ => E::Other,
    }
}
fn code_of<T>(r: &Result<T, SessionError>) -> E { match r { Ok(_) => E::None, Err(e) => code(e) } }
fn same_e(a: E, b: E) -> bool { match (a, b) { (E::NoCallback(x), E::NoCallback(y)) => x == y, _ => a == b } }

/// What the mechanism asks for.
#[derive(Clone, Copy, PartialEq)]
enum Ask { Maybe(usize), Need(usize), Action(usize) }
impl Ask { fn p(self) -> usize { match self { Ask::Maybe(p) | Ask::Need(p) | Ask::Action(p) => p } } fn action(self) -> bool { matches!(self, Ask::Action(_)) } }
struct G {
    props: usize,
    asks: Vec<Ask>,
    /// operations the application makes for each request
    len: usize,
    /// model of the current request: value not yet delivered / not yet taken
    cur: usize,
    open: bool,
    /// what the model says the mechanism's closure got / was reported
    want: Option<(u64, bool)>,
    /// what it really got
    got: Vec<u64>,
    /// error of the closure of this request, 9: none
    fail: usize,
    /// how the callback ended
    end: E,
    bad: bool,
    value: u64,
}
static mut GS: Option<G> = None;
#[allow(static_mut_refs)]
fn g() -> &'static mut G { unsafe { GS.as_mut().unwrap() } }
const STR: [&str; 3] = ["", "s", "st"];
fn num(v: u64) -> u64 { v }
struct Prog;
impl Prog {
    fn run(&self, req: &mut Request) -> Result<(), SessionError> {
        let s = g();
        let ask = s.asks[s.cur];
        s.open = true;
        for _ in 0..choose(s.len + 1) {
            let p = choose(s.props);
            let hit = p == ask.p();
            match choose(4) {
                0 => { // a value
                    let v = byte() as u64;
                    let st = [v as u8 & 0x7f; 1];
                    let first = hit && !ask.action() && s.open;
                    let st = if first && p >= 2 && flag() { &st[..0] } else { &st[..] }; // also an empty one
                    if first { s.open = false; s.want = Some((if p < 2 { v } else if st.is_empty() { 1000 } else { v & 0x7f }, s.fail == 9)); }
                    let n = s.got.len();
                    let r = match p { 0 => req.satisfy::<A>(&v), 1 => req.satisfy::<B>(&v), 2 => req.satisfy::<S>(unsafe { core::str::from_utf8_unchecked(st) }), _ => req.satisfy::<Y>(st) }.map(|_| ());
                    check(1901, s.got.len() == n + first as usize); // the mechanism gets it at once, if it is the first one for this property
                    let want = if !first { E::None } else if s.fail == 9 { E::Early } else { made(s.fail) };
                    check(1902, same_e(code_of(&r), want)); // the application is told
                    if flag() { r?; } else { core::mem::forget(r); }
                }
                1 => { // a value if asked for it
                    let v = byte() as u64;
                    let e = if flag() { Some(choose(3)) } else { None };
                    let first = hit && !ask.action() && s.open && p < 2;
                    if first && e.is_none() { s.open = false; s.want = Some((v, s.fail == 9)); }
                    let mut ran = 0;
                    let n = s.got.len();
                    let f = || { ran += 1; match e { None => Ok(v), Some(i) => Err(make(i)) } };
                    let r = match p { 0 => req.satisfy_with::<A, _>(f).map(|_| ()), 1 => req.satisfy_with::<B, _>(f).map(|_| ()), _ => Ok(()) };
                    check(1903, ran == first as usize); // made only if it is wanted
                    check(1904, s.got.len() == n + (first && e.is_none()) as usize);
                    let want = if !first { E::None } else if let Some(i) = e { made(i) } else if s.fail == 9 { E::Early } else { made(s.fail) };
                    check(1905, same_e(code_of(&r), want));
                    if flag() { r?; } else { core::mem::forget(r); }
                }
                2 => { // what is asked?
                    let is = match p { 0 => req.is::<A>(), 1 => req.is::<B>(), 2 => req.is::<S>(), _ => req.is::<Y>() };
                    check(1906, is == hit); // exactly the property of the request
                }
                _ => { // take the action
                    let v = match p { 0 => req.get_action::<A>().copied(), 1 => req.get_action::<B>().copied(), 2 => req.get_action::<S>().map(|x| x.len() as u64), _ => req.get_action::<Y>().map(|x| x.len() as u64) };
                    let first = hit && ask.action() && s.open;
                    if first { s.open = false; check(2001, v == Some(s.value)); } // its value
                    else { check(2002, v.is_none()); } // only for this property, only once
                }
            }
        }
        match choose(3) { 0 => Ok(()), 1 => Err(make(if s.asks.len() > 1 { 1 } else { choose(3) })), _ => Err(make(3)) }
    }
}
impl SessionCallback for Prog {
    fn callback(&self, _: &SessionData, _: &Context, req: &mut Request) -> Result<(), SessionError> {
        let r = self.run(req);
        g().end = code_of(&r);
        r
    }
}
struct Asker;
impl Authentication for Asker {
    fn step(&mut self, d: &mut MechanismData, _: Option<&[u8]>, _: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        let s = g();
        for i in 0..s.asks.len() {
            s.cur = i; s.want = None; s.got.clear(); s.end = E::Other;
            s.fail = if s.asks[i].action() { 9 } else { let n = if s.asks.len() > 1 { 2 } else { 5 }; let f = choose(n); if f + 1 == n { 9 } else { f } };
            let len = if matches!(s.asks[i], Ask::Action(2 | 3)) { choose(3) } else { 0 };
            s.value = if s.asks[i].action() && s.asks[i].p() >= 2 { len as u64 } else { byte() as u64 };
            let n = |v: u64| -> Result<u64, SessionError> { let s = g(); s.got.push(v); if s.fail == 9 { Ok(num(v)) } else { Err(make(s.fail)) } };
            let first = |b: &[u8]| b.first().map_or(1000, |&x| x as u64);
            let e = EmptyProvider;
            let mut val: Option<u64> = None;
            let r = match s.asks[i] {
                Ask::Maybe(p) => match p { 0 => d.maybe_need_with::<A, _, _>(&e, |v| n(*v)), 1 => d.maybe_need_with::<B, _, _>(&e, |v| n(*v)), 2 => d.maybe_need_with::<S, _, _>(&e, |v| n(first(v.as_bytes()))), _ => d.maybe_need_with::<Y, _, _>(&e, |v| n(first(v))) }.map(|x| val = x),
                Ask::Need(p) => match p { 0 => d.need_with::<A, _, _>(&e, |v| n(*v)), 1 => d.need_with::<B, _, _>(&e, |v| n(*v)), 2 => d.need_with::<S, _, _>(&e, |v| n(first(v.as_bytes()))), _ => d.need_with::<Y, _, _>(&e, |v| n(first(v))) }.map(|x| val = Some(x)),
                Ask::Action(p) => match p { 0 => d.action::<A>(&e, &s.value), 1 => d.action::<B>(&e, &s.value), 2 => d.action::<S>(&e, STR[len]), _ => d.action::<Y>(&e, &b"ab"[..len]) },
            };
            let got = code_of(&r);
            core::mem::forget(r);
            let passed = if s.end == E::Early || s.end == E::None { E::None } else { s.end };
            if s.asks[i].action() {
                let want = if passed != E::None { passed } else if s.open { E::NoCallback(pname(s.asks[i].p())) } else { E::None };
                check(2003, same_e(got, want)); // handled exactly if the value was taken; an error of the application is passed on
                check(2004, s.got.is_empty());
                cover(if want == E::None { 1 } else { 2 });
            } else {
                check(1907, s.got.len() == s.want.is_some() as usize); // evaluated at most once
                if let Some((v, _)) = s.want { check(1908, s.got[0] == v); } // with the first value provided for this property
                let value = match s.want { Some((v, true)) => Some(v), _ => None };
                let passed = if passed == E::NoValue { E::None } else { passed };
                let need = matches!(s.asks[i], Ask::Need(_));
                let want = if passed != E::None { passed } else if need && value.is_none() { E::NoCallback(pname(s.asks[i].p())) } else { E::None };
                check(1909, same_e(got, want)); // errors are passed on, a missing value is an error naming the property if it is needed
                check(1910, val == if want == E::None { value } else { None }); // the value, or none
                cover(if want != E::None { 3 } else if val.is_some() { 4 } else { 5 });
            }
        }
        Ok(State::Finished(MessageSent::No))
    }
}
macro_rules! one { ($t:ident, $s:ident, $m:ident, $name:expr, $auth:expr) => {
    struct $t;
    impl Named for $t { fn mech() -> &'static Mechanism { &$s[0] } }
    static $s: [Mechanism; 1] = [Mechanism::build(Mechname::const_new_unchecked($name), 1, Some(|| Ok(Box::new($auth))), Some(|_| Ok(Box::new($auth))), Side::Client, |_| Some(Matches::<$t>::name()), |_| true)];
    fn $m<C: SessionCallback + 'static>(c: C, cb: Cb) -> (Client, Server) {
        let c = match SASLConfig::builder().with_registry(Registry::with_mechanisms(&$s)).with_callback(c) { Ok(c) => c, Err(_) => loop { assume(false) } };
        (client_of(c.clone(), unsafe { core::str::from_utf8_unchecked($name) }, cb), server_of(c, unsafe { core::str::from_utf8_unchecked($name) }, Cb(None)))
    }
} }
one!(AskerT, ASKER, asker, b"ASK", Asker);
/// C19, C20. param 0: requests, 1: most operations of the application for each, 2: 0 requests for values, 1 actions, 2 both, 3: number of properties
#[no_mangle] #[inline(never)]
pub extern "C" fn h_requests() {
    reset();
    let props = if param(3) == 0 { P } else { param(3) };
    let mut asks = Vec::new();
    for _ in 0..param(0) {
        let p = choose(props);
        asks.push(match if param(2) == 2 { choose(3) } else if param(2) == 1 { 2 } else { choose(2) } { 0 => Ask::Maybe(p), 1 => Ask::Need(p), _ => Ask::Action(p) });
    }
    unsafe { GS = Some(G { props, asks, len: param(1), cur: 0, open: false, want: None, got: Vec::new(), fail: 9, end: E::Other, bad: false, value: 0 }); }
    let (mut c, _s) = asker(Prog, Cb(None));
    let (k, out) = step(&mut c, None);
    check(1911, k == St::Quiet && out.is_empty());
}

// ---- contexts
#[derive(Clone)]
enum Leaf { Empty, A(u64), B(u64), S(&'static str), Y(Vec<u8>), Two(u64, u64), Names(&'static str, &'static str) }
struct L<'a>(&'a Leaf);
impl<'a> Provider<'a> for L<'a> {
    fn provide(&self, req: &mut Demand<'a>) -> DemandReply<()> {
        let l: &'a Leaf = self.0;
        match l {
            Leaf::Empty => EmptyProvider.provide(req),
            Leaf::A(v) => ThisProvider::<A>::with(v).provide(req),
            Leaf::B(v) => ThisProvider::<B>::with(v).provide(req),
            Leaf::S(v) => ThisProvider::<S>::with(v).provide(req),
            Leaf::Y(v) => ThisProvider::<Y>::with(v).provide(req),
            Leaf::Two(a, b) => req.provide_ref::<A>(a)?.provide_ref::<B>(b)?.done(),
            Leaf::Names(i, z) => req.provide_ref::<AuthId>(i)?.provide_ref::<AuthzId>(z)?.done(),
        }
    }
}
fn leaf() -> Leaf { match choose(7) { 0 => Leaf::Empty, 1 => Leaf::A(byte() as u64), 2 => Leaf::B(byte() as u64), 3 => Leaf::S(STR[choose(3)]), 4 => Leaf::Y(upto(1)), 5 => Leaf::Two(byte() as u64, byte() as u64), _ => Leaf::Names("id", "zid") } }
struct Tree { leaves: Vec<Leaf>, shape: usize, queries: usize, asked: usize, cbname: Option<String> }
static mut TREE: Option<Tree> = None;
#[allow(static_mut_refs)]
fn tree() -> &'static mut Tree { unsafe { TREE.as_mut().unwrap() } }
fn queries(ctx: &Context) {
    let t = tree();
    t.asked += 1;
    let mut last: Option<(usize, Option<u64>)> = None;
    for _ in 0..t.queries {
        let q = choose(6);
        let l = &t.leaves;
        match q {
            0 => check(2101, ctx.get_ref::<A>().copied() == l.iter().find_map(|x| match x { Leaf::A(v) | Leaf::Two(v, _) => Some(*v), _ => None })), // the first value of this property
            1 => check(2102, ctx.get_ref::<B>().copied() == l.iter().find_map(|x| match x { Leaf::B(v) | Leaf::Two(_, v) => Some(*v), _ => None })),
            2 => check(2103, ctx.get_ref::<S>() == l.iter().find_map(|x| match x { Leaf::S(v) => Some(*v), _ => None })),
            3 => check(2104, match (ctx.get_ref::<Y>(), l.iter().find_map(|x| match x { Leaf::Y(v) => Some(v), _ => None })) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false }),
            4 => check(2105, ctx.get_ref::<AuthId>() == l.iter().find_map(|x| match x { Leaf::Names(v, _) => Some(*v), _ => None })),
            _ => check(2106, ctx.get_ref::<AuthzId>() == l.iter().find_map(|x| match x { Leaf::Names(_, v) => Some(*v), _ => None })),
        }
        if q == 0 { let v = ctx.get_ref::<A>().copied(); if let Some((0, w)) = last { check(2107, v == w); } last = Some((0, v)); }
        check(2108, ctx.get_ref::<Password>().is_none()); // nothing for what nobody provides
    }
    cover(1);
}
struct Query;
impl SessionCallback for Query {
    fn callback(&self, _: &SessionData, ctx: &Context, _: &mut Request) -> Result<(), SessionError> { queries(ctx); Ok(()) }
    fn validate(&self, _: &SessionData, ctx: &Context, _: &mut Validate<'_>) -> Result<(), ValidationError> { queries(ctx); Ok(()) }
}
struct Contexts;
impl Authentication for Contexts {
    fn step(&mut self, d: &mut MechanismData, _: Option<&[u8]>, _: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        let t = tree();
        let v = t.leaves.clone();
        let how = choose(3);
        let mut go = |p: &dyn Provider| match how { 0 => { let _ = d.maybe_need_with::<A, _, ()>(p, |_| Ok(())); } 1 => { let r = d.action::<A>(p, &1); core::mem::forget(r); } _ => { let _ = d.validate(p); } };
        match (v.len(), t.shape) {
            (0, _) => go(&EmptyProvider),
            (1, _) => go(&L(&v[0])),
            (2, _) => go(&L(&v[0]).and(L(&v[1]))),
            (3, 0) => go(&L(&v[0]).and(L(&v[1])).and(L(&v[2]))),
            (3, _) => go(&L(&v[0]).and(L(&v[1]).and(L(&v[2])))),
            (_, 0) => go(&L(&v[0]).and(L(&v[1])).and(L(&v[2])).and(L(&v[3]))),
            _ => go(&L(&v[0]).and(L(&v[1])).and(L(&v[2]).and(L(&v[3])))),
        }
        Ok(State::Finished(MessageSent::No))
    }
}
one!(ContextsT, CONTEXTS, contexts, b"CONTEXT", Contexts);
/// C21. param 0: most providers (up to 4), 1: queries
#[no_mangle] #[inline(never)]
pub extern "C" fn h_context() {
    reset();
    let n = choose(param(0) + 1);
    let leaves: Vec<Leaf> = (0..n).map(|_| leaf()).collect();
    unsafe { TREE = Some(Tree { leaves, shape: choose(if n > 2 { 2 } else { 1 }), queries: param(1), asked: 0, cbname: None }); }
    let (mut c, mut s) = contexts(Query, Cb(None));
    let (k, _) = if flag() { step(&mut c, None) } else { step(&mut s, None) };
    check(2109, k == St::Quiet && tree().asked == 1);
}

// ---- channel bindings
struct Data { name: String, fail: usize, leaf: Option<Leaf>, need: bool, protocol: Option<(String, Vec<u8>)>, answer: usize, data: Vec<u8>, got: Vec<Vec<u8>>, asked: usize }
static mut DATA: Option<Data> = None;
#[allow(static_mut_refs)]
fn data() -> &'static mut Data { unsafe { DATA.as_mut().unwrap() } }
struct Proto;
impl ChannelBindingCallback for Proto {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> { match &data().protocol { Some((k, v)) if same(k.as_bytes(), n.as_bytes()) => Some(v), _ => None } }
}
struct CbApp;
impl SessionCallback for CbApp {
    fn callback(&self, _: &SessionData, ctx: &Context, req: &mut Request) -> Result<(), SessionError> {
        let d = data();
        d.asked += 1;
        check(2601, req.is::<ChannelBindings>()); // asked for channel bindings
        check(2602, match ctx.get_ref::<ChannelBindingName>() { Some(n) => same(n.as_bytes(), d.name.as_bytes()), None => false }); // told the name
        if let Some(Leaf::A(v)) = &d.leaf { check(2603, ctx.get_ref::<A>() == Some(v)); } // and what else the mechanism knows
        req.satisfy::<AuthId>("x")?;
        match d.answer { 0 => Ok(()), 1 => { req.satisfy::<ChannelBindings>(&d.data)?; Ok(()) } 2 => Err(make(3)), _ => Err(make(1)) }
    }
}
struct Binder;
impl Authentication for Binder {
    fn step(&mut self, m: &mut MechanismData, _: Option<&[u8]>, _: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        let d = data();
        let f = |x: &[u8]| -> Result<usize, SessionError> { let d = data(); d.got.push(x.to_vec()); if d.fail == 9 { Ok(x.len()) } else { Err(make(d.fail)) } };
        let name = d.name.clone();
        let leaf = d.leaf.clone();
        let from = match &d.protocol { Some((k, v)) if same(k.as_bytes(), name.as_bytes()) => Some(v.clone()), _ => None };
        let r = match (&leaf, d.need) {
            (None, true) => m.need_cb_data(&name, EmptyProvider, f).map(Some),
            (None, false) => m.maybe_need_cb_data(&name, EmptyProvider, f),
            (Some(l), true) => m.need_cb_data(&name, L(l), f).map(Some),
            (Some(l), false) => m.maybe_need_cb_data(&name, L(l), f),
        };
        let want = match &from { Some(v) => Some(v.clone()), None if d.answer == 1 => Some(d.data.clone()), None => None };
        check(2604, d.asked == from.is_none() as usize); // the application is asked only if the protocol has nothing
        check(2605, match &want { Some(v) => d.got.len() == 1 && same(&d.got[0], v), None => d.got.is_empty() }); // exactly this data
        let missing = matches!(&r, Err(SessionError::MissingChannelBindingData(n)) if same(n.as_bytes(), name.as_bytes()));
        match (&want, from.is_none() && d.answer == 3) {
            (_, true) => { check(2606, same_e(code_of(&r), E::Needs)); cover(3); } // the application's error
            (None, _) => { check(2607, if d.need { missing } else { matches!(&r, Ok(None)) }); cover(2); } // nobody has it: an error naming the binding
            (Some(v), _) => { check(2608, if d.fail == 9 { matches!(&r, Ok(Some(n)) if *n == v.len()) } else { same_e(code_of(&r), if made(d.fail) == E::NoValue && from.is_none() { if d.need { E::Other } else { E::None } } else { made(d.fail) }) }); cover(1); }
        }
        core::mem::forget(r);
        Ok(State::Finished(MessageSent::No))
    }
}
struct BinderT;
impl Named for BinderT { fn mech() -> &'static Mechanism { &BINDER[0] } }
static BINDER: [Mechanism; 1] = [Mechanism::build(Mechname::const_new_unchecked(b"BIND"), 1, Some(|| Ok(Box::new(Binder))), Some(|_| Ok(Box::new(Binder))), Side::Client, |_| Some(Matches::<BinderT>::name()), |_| true)];
/// C26. param 0: longest name, 1: longest data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_cbdata() {
    reset();
    let name = string_between(0, param(0));
    let protocol = if flag() { Some((if flag() { name.clone() } else { string_between(0, param(0)) }, upto(param(1)))) } else { None };
    let fail = choose(5);
    unsafe { DATA = Some(Data { name, fail: if fail == 4 { 9 } else { fail }, leaf: match choose(3) { 0 => None, 1 => Some(Leaf::A(7)), _ => Some(Leaf::Empty) }, need: flag(), protocol, answer: choose(4), data: upto(param(1)), got: Vec::new(), asked: 0 }); }
    let c = match SASLConfig::builder().with_registry(Registry::with_mechanisms(&BINDER)).with_callback(CbApp) { Ok(c) => c, Err(_) => loop { assume(false) } };
    if data().protocol.is_none() && flag() { // sessions without any channel
        let n = [crate::common::name("BIND")];
        if flag() { match SASLClient::new(c).start_suggested(&n) { Ok(mut s) => check(2611, st(&s.step(None, &mut Vec::new())) == St::Quiet), Err(_) => check(1, false) } }
        else { match SASLServer::<Val>::new(c).start_suggested(n[0]) { Ok(mut s) => check(2612, st(&s.step(None, &mut Vec::new())) == St::Quiet), Err(_) => check(1, false) } }
        cover(4);
    } else if flag() {
        let mut s = match SASLClient::with_cb(c, Proto).start_suggested(&[crate::common::name("BIND")]) { Ok(s) => s, Err(_) => { check(1, false); return; } };
        check(2609, st(&s.step(None, &mut Vec::new())) == St::Quiet);
    } else {
        let mut s = match SASLServer::<Val, Proto>::with_cb(c, Proto).start_suggested(crate::common::name("BIND")) { Ok(s) => s, Err(_) => { check(1, false); return; } };
        check(2610, st(&s.step(None, &mut Vec::new())) == St::Quiet);
    }
}

// ---- validation
struct Other;
impl Validation for Other { type Value = u64; }
struct Steps { calls: usize, ops: usize, stored: Option<u64>, failed: bool, ends: Vec<bool> }
static mut STEPS: Option<Steps> = None;
#[allow(static_mut_refs)]
fn steps() -> &'static mut Steps { unsafe { STEPS.as_mut().unwrap() } }
struct Judge;
impl Judge {
    fn run(&self, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let s = steps();
        for _ in 0..choose(s.ops + 1) {
            let x = byte() as u64;
            match choose(6) {
                0 => { v.finalize::<Val>(x); if s.stored.is_none() { s.stored = Some(x); } }
                1 => v.finalize::<Other>(x),
                2 => { let mut ran = false; let r = v.with::<Val, _>(|| { ran = true; Ok(x) }).is_ok(); check(1861, r && ran == s.stored.is_none()); if s.stored.is_none() { s.stored = Some(x); } }
                3 => { let mut ran = false; let r = v.with::<Val, _>(|| { ran = true; Err(ValidationError::MissingRequiredProperty) }).map(|_| ()); check(1862, ran == s.stored.is_none() && r.is_err() == ran); if flag() { r?; } }
                4 => { let mut ran = false; let r = v.with::<Other, _>(|| { ran = true; Ok(x) }).is_ok(); check(1863, r && !ran); }
                _ => check(1864, v.is::<Val>() && !v.is::<Other>()),
            }
        }
        if flag() { Ok(()) } else { Err(ValidationError::MissingRequiredProperty) }
    }
}
impl SessionCallback for Judge {
    fn validate(&self, _: &SessionData, _: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> { let r = self.run(v); steps().ends.push(r.is_ok()); r }
}
struct Asks;
impl Authentication for Asks {
    fn step(&mut self, d: &mut MechanismData, _: Option<&[u8]>, _: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        let n = steps().ends.len();
        let r = d.validate(&EmptyProvider);
        check(1865, steps().ends.len() == n + 1 && r.is_ok() == steps().ends[n]); // the callback's verdict
        r?;
        Ok(if steps().calls == n + 1 { State::Finished(MessageSent::No) } else { State::Running })
    }
}
one!(AsksT, ASKS, asks, b"ASKS", Asks);
/// C18: what the callback stores is what the session returns, once. param 0: steps that validate, 1: operations in each
#[no_mangle] #[inline(never)]
pub extern "C" fn h_validation() {
    reset();
    unsafe { STEPS = Some(Steps { calls: param(0), ops: param(1), stored: None, failed: false, ends: Vec::new() }); }
    let (_c, mut s) = asks(Judge, Cb(None));
    for i in 0..param(0) {
        let (k, _) = step(&mut s, Some(b""));
        let ok = steps().ends[i];
        check(1866, k == if !ok { St::Err } else if i + 1 == param(0) { St::Quiet } else { St::Running });
        if !ok || i + 1 == param(0) || flag() {
            check(1867, s.validation() == steps().stored); // exactly the first value stored
            check(1868, s.validation().is_none()); // once
            steps().stored = None;
            cover(if ok { 1 } else { 2 });
            if !ok { return; }
        }
    }
}
