//! Symbolic executor for the LLVM IR of the real code.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop { Viol(String, String), Internal(String), Assumed, Done }
pub type R<T> = Result<T, Stop>;
fn internal<T>(s: impl Into<String>) -> R<T> { Err(Stop::Internal(s.into())) }
fn viol<T>(k: &str, s: impl Into<String>) -> R<T> { Err(Stop::Viol(k.into(), s.into())) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Const, Global, Stack, Heap }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E>, pub kind: Kind }

const FN_BASE: u64 = 0x1000_0000;
const G_BASE: u64 = 0x2000_0000;
const M_BASE: u64 = 0x1_0000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Ob { Val(u64, Val), Bytes(u64, Rc<Vec<(u8, E)>>) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub facts: Rc<HashMap<E, bool>>,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub multi: Rc<Vec<E>>,
    pub mvars: Rc<HashSet<u32>>,
    pub model: Rc<Vec<u8>>,
    pub model_id: u64,
    pub obs: Rc<Vec<Ob>>,
    pub covers: Rc<BTreeSet<u64>>,
    pub instrs: u64,
    pub depth: u32,
    /// applications of hash compression functions on this path
    pub apps: Rc<Vec<App>>,
    pub hvars: Rc<HashSet<u32>>,
}

/// One application of a compression function; `first` is the first of its output variables (symbolic ones only).
pub struct App { pub alg: u8, pub ins: Rc<Vec<E>>, pub outs: Rc<Vec<E>>, pub first: Option<u32> }
impl Clone for App { fn clone(&self) -> Self { App { alg: self.alg, ins: self.ins.clone(), outs: self.outs.clone(), first: self.first } } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    SymHash(u8), SymParam, SymBytes, SymAssume, SymCheck, SymConc, SymObs, SymObsBytes, SymCover,
    Memcpy, Memset, Memcmp, Bcmp, Strlen, Malloc, Calloc, Realloc, Free, RAlloc, RAllocZ, RDealloc, RRealloc,
    UMin, UMax, SMin, SMax, Abs, Bswap, BitRev, Ctlz, Cttz, Ctpop, Fshl, Fshr, Ov(char, bool), Sat(char, bool),
    Assume, Nop, NopRet0, Expect, IsConst, Trap, LoadRel, Tls, Memalign, PMemalign, Errno, Getrandom, Memchr, Ucmp(bool),
}

#[derive(Clone)]
enum Target { Lazy(Rc<str>), Fun(&'static Func), Bi(Bi, Rc<str>), Panic(Rc<str>), Unsup(Rc<str>) }

#[derive(Clone)]
pub struct Violation { pub kind: String, pub msg: String, pub input: Vec<u8>, pub stack: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub decisions: u64,
    pub dom_unsat: u64,
    pub dom_sat: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub checks_proved: u64,
    pub certified: u64,
    pub max_path_instrs: u64,
    pub max_depth: u32,
    pub hash_apps: u64,
    pub hash_sym: u64,
    pub lemmas: u64,
    pub refuted: u64,
    pub abstract_paths: u64,
    pub cached: u64,
}

pub struct Ex {
    pub m: Module,
    pub ctx: Ctx,
    pub z3: Z3,
    gaddr: HashMap<Rc<str>, u64>,
    gobjs: BTreeMap<u64, Rc<Obj>>,
    gnext: u64,
    fns: Vec<Rc<str>>,
    fn_addr: HashMap<Rc<str>, u64>,
    targets: Vec<Target>,
    target_id: HashMap<Rc<str>, u32>,
    pub work: Vec<State>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    /// the assertions to decide (none: all)
    pub only: Option<std::collections::HashSet<u64>>,
    pub internal: BTreeMap<String, u64>,
    pub cov: Vec<bool>,
    pub covers: BTreeMap<u64, u64>,
    pub samples: Vec<(Vec<u8>, String)>,
    pub max_samples: usize,
    eval_cache: (u64, HashMap<E, u128>),
    model_ids: u64,
    dom_expr: HashMap<(u32, [u64; 4]), E>,
    pub limit: u64,
    pub certify: bool,
    pub trace: bool,
    pub seed: u64,
    pub params: Vec<u64>,
    lemmas: Vec<E>,
    /// verdicts of literals on their own, up to renaming of variables
    alone: HashMap<Vec<u64>, Option<Vec<u8>>>,
    alone_size: usize,
}

fn m64(bits: u16) -> u64 { if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 } }
fn sx(v: u64, bits: u16) -> i64 { let s = 64 - bits as u32; ((v << s) as i64) >> s }

impl Ex {
    pub fn new(m: Module, timeout_ms: u32) -> Self {
        let mut ctx = Ctx::new();
        ctx.konst(1, 0);
        Ex {
            m, ctx, z3: Z3::new(timeout_ms), gaddr: HashMap::new(), gobjs: BTreeMap::new(), gnext: G_BASE, fns: vec![], fn_addr: HashMap::new(),
            targets: vec![], target_id: HashMap::new(), work: vec![], st: Stats::default(), violations: vec![], only: None, internal: BTreeMap::new(), cov: vec![],
            covers: BTreeMap::new(), samples: vec![], max_samples: 200, eval_cache: (0, HashMap::new()), model_ids: 1, dom_expr: HashMap::new(),
            limit: 50_000_000, certify: false, trace: false, seed: 1, params: vec![], lemmas: vec![], alone: HashMap::new(), alone_size: 0,
        }
    }

    // ---- constants, globals, functions ------------------------------------
    fn faddr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.fn_addr.get(n) { return a; }
        let n: Rc<str> = n.into();
        let a = FN_BASE + 16 * self.fns.len() as u64;
        self.fns.push(n.clone());
        self.fn_addr.insert(n, a);
        a
    }
    fn global(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) { return a; }
        if self.m.is_func_symbol(n) { return self.faddr(n); }
        if let Some(k) = self.m.resolve_alias(n) {
            let K::Global(g) = k else { unreachable!() };
            let a = self.global(&g);
            self.gaddr.insert(n.into(), a);
            return a;
        }
        let g = self.m.global(n).unwrap_or_else(|| panic!("unknown global {n}"));
        let size = g.ty.alloc();
        let a = up(self.gnext, g.align.max(16));
        self.gnext = a + size + 32;
        self.gaddr.insert(n.into(), a);
        let mut data = vec![0u8; size as usize];
        if let Some(k) = &g.init { self.kwrite(&mut data, 0, &g.ty, k); }
        self.gobjs.insert(a, Rc::new(Obj { data, sym: vec![], kind: if g.constant { Kind::Const } else { Kind::Global } }));
        a
    }
    fn kwrite(&mut self, d: &mut [u8], off: usize, ty: &Ty, k: &K) {
        match k {
            K::Undef | K::Zero | K::Null => {}
            K::Str(s) => d[off..off + s.len()].copy_from_slice(s),
            K::Agg(v) => for (i, (t, k)) in v.iter().enumerate() { let o = off + ty.field_off(i) as usize; self.kwrite(d, o, t, k); },
            K::Splat(x) => { let Ty::Vec(n, _) = ty else { panic!() }; for i in 0..*n as usize { self.kwrite(d, off + i * x.0.alloc() as usize, &x.0, &x.1); } }
            K::F(f) => { if *ty == Ty::Float { d[off..off + 4].copy_from_slice(&(*f as f32).to_le_bytes()) } else { d[off..off + 8].copy_from_slice(&f.to_le_bytes()) } }
            _ => {
                let v = match self.kval(ty, k) { Val::I(x) => x as u128, Val::W(x) => *x, _ => panic!("constant initialiser") };
                let n = ty.size() as usize;
                d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Float | Ty::Double => Val::F(0.0),
            Ty::Int(b) if *b > 64 => Val::W(Rc::new(0)),
            _ => Val::I(0),
        }
    }
    fn kval(&mut self, ty: &Ty, k: &K) -> Val {
        match k {
            K::Int(v) => if ty.bits() > 64 { Val::W(Rc::new(*v)) } else { Val::I(*v as u64 & m64(ty.bits() as u16)) },
            K::F(f) => Val::F(*f),
            K::Null => Val::I(0),
            K::Undef | K::Zero => Self::zero(ty),
            K::Str(s) => Val::A(Rc::new(s.iter().map(|b| Val::I(*b as u64)).collect())),
            K::Agg(v) => { let v: Vec<Val> = v.iter().map(|(t, k)| self.kval(t, k)).collect(); Val::A(Rc::new(v)) }
            K::Splat(x) => { let v = self.kval(&x.0, &x.1); let Ty::Vec(n, _) = ty else { panic!() }; Val::A(Rc::new(vec![v; *n as usize])) }
            K::Global(g) => Val::I(self.global(g)),
            K::Gep(t, ops) => {
                let Val::I(mut a) = self.kval(&ops[0].0, &ops[0].1) else { panic!() };
                let mut t = t.clone();
                for (i, (it, ik)) in ops[1..].iter().enumerate() {
                    let Val::I(x) = self.kval(it, ik) else { panic!() };
                    let x = sx(x, it.bits() as u16);
                    if i == 0 { a = a.wrapping_add((x * t.alloc() as i64) as u64); } else { a = a.wrapping_add(if let Ty::Struct(..) = t { t.field_off(x as usize) } else { (x * t.elem(0).alloc() as i64) as u64 }); t = t.elem(if let Ty::Struct(..) = t { x as usize } else { 0 }); }
                }
                Val::I(a)
            }
            K::Cast(op, x, to) => {
                let Val::I(v) = self.kval(&x.0, &x.1) else { panic!() };
                match op.as_str() { "trunc" => Val::I(v & m64(to.bits() as u16)), _ => Val::I(v) }
            }
            K::Bin(op, x, y) => {
                let (Val::I(a), Val::I(b)) = (self.kval(&x.0, &x.1), self.kval(&y.0, &y.1)) else { panic!() };
                let bits = x.0.bits() as u16;
                let o = match op.as_str() { "sub" => Op::Sub, "add" => Op::Add, "xor" => Op::Xor, "mul" => Op::Mul, "and" => Op::And, "or" => Op::Or, "shl" => Op::Shl, _ => panic!() };
                Val::I(fold(o, bits, a as u128, b as u128) as u64)
            }
        }
    }
    fn lo(&mut self, ty: &Ty, o: &Opd) -> Opd { match o { Opd::Const(k) => Opd::V(self.kval(ty, k)), o => o.clone() } }
    fn lower(&mut self, f: &mut Func) {
        let i64t = Ty::Int(64);
        for b in f.blocks.iter_mut() {
            for (_, ty, inc) in b.phis.iter_mut() { for (_, o) in inc.iter_mut() { *o = self.lo(ty, o); } }
            for (ins, _) in b.ins.iter_mut() {
                let n = match &*ins {
                    Ins::Alloca { d, ty, count, align } => Ins::Alloca { d: *d, ty: ty.clone(), count: count.as_ref().map(|(t, o)| (t.clone(), self.lo(t, o))), align: *align },
                    Ins::Load { d, ty, p } => { let p = self.lo(&Ty::Ptr, p); match ty { Ty::Int(_) | Ty::Ptr => Ins::LoadI { d: *d, bits: ty.bits() as u16, p }, _ => Ins::Load { d: *d, ty: ty.clone(), p } } }
                    Ins::Store { ty, v, p } => { let (v, p) = (self.lo(ty, v), self.lo(&Ty::Ptr, p)); match ty { Ty::Int(_) | Ty::Ptr => Ins::StoreI { bits: ty.bits() as u16, v, p }, _ => Ins::Store { ty: ty.clone(), v, p } } }
                    Ins::Gep { d, base, off, idx } => {
                        let base = self.lo(&Ty::Ptr, base);
                        let mut off = *off;
                        let mut ix = vec![];
                        for (o, b, s) in idx { match self.lo(&Ty::Int(*b), o) { Opd::V(Val::I(v)) => off = off.wrapping_add(sx(v, *b as u16).wrapping_mul(*s)), o => ix.push((o, *b, *s)) } }
                        Ins::Gep { d: *d, base, off, idx: ix }
                    }
                    Ins::Bin { d, op, ty, a, b } => {
                        let (a, b) = (self.lo(ty, a), self.lo(ty, b));
                        match (ty, bop(op)) { (Ty::Int(w), Some(o)) => Ins::BinI { d: *d, op: o, bits: *w as u16, a, b }, _ => Ins::Bin { d: *d, op, ty: ty.clone(), a, b } }
                    }
                    Ins::ICmp { d, pred, ty, a, b } => {
                        let (a, b) = (self.lo(ty, a), self.lo(ty, b));
                        let (op, swap, neg) = cop(pred);
                        match ty { Ty::Int(_) | Ty::Ptr => Ins::CmpI { d: *d, op, swap, neg, bits: ty.bits() as u16, a, b }, _ => Ins::ICmp { d: *d, pred, ty: ty.clone(), a, b } }
                    }
                    Ins::Cast { d, op, from, to, a } => {
                        let a = self.lo(from, a);
                        let scal = |t: &Ty| matches!(t, Ty::Int(_) | Ty::Ptr);
                        match *op {
                            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" if scal(from) && scal(to) =>
                                Ins::CastI { d: *d, op: if *op == "sext" { 1 } else { 0 }, from: from.bits() as u16, to: to.bits() as u16, a },
                            _ => Ins::Cast { d: *d, op, from: from.clone(), to: to.clone(), a },
                        }
                    }
                    Ins::Select { d, cty, c, ty, a, b } => Ins::Select { d: *d, cty: cty.clone(), c: self.lo(cty, c), ty: ty.clone(), a: self.lo(ty, a), b: self.lo(ty, b) },
                    Ins::Call { d, callee, ret, args, normal, noret } => {
                        let args = args.iter().map(|(t, o)| (t.clone(), if *t == Ty::Other { Opd::V(Val::I(0)) } else { self.lo(t, o) })).collect();
                        let callee = match callee { Callee::Direct(n) => Callee::Id(self.tid(n)), Callee::Indirect(o) => Callee::Indirect(self.lo(&Ty::Ptr, o)), c => c.clone() };
                        Ins::Call { d: *d, callee, ret: ret.clone(), args, normal: *normal, noret: *noret }
                    }
                    Ins::ExtractValue { d, a, ty, idx } => Ins::ExtractValue { d: *d, a: self.lo(ty, a), ty: ty.clone(), idx: idx.clone() },
                    Ins::InsertValue { d, a, ty, v, vty, idx } => Ins::InsertValue { d: *d, a: self.lo(ty, a), ty: ty.clone(), v: self.lo(vty, v), vty: vty.clone(), idx: idx.clone() },
                    Ins::ExtractElement { d, ty, a, i } => Ins::ExtractElement { d: *d, ty: ty.clone(), a: self.lo(ty, a), i: self.lo(&i64t, i) },
                    Ins::InsertElement { d, ty, a, v, i } => Ins::InsertElement { d: *d, ty: ty.clone(), a: self.lo(ty, a), v: self.lo(&ty.elem(0), v), i: self.lo(&i64t, i) },
                    Ins::Shuffle { d, ty, a, b, mask, mty } => Ins::Shuffle { d: *d, ty: ty.clone(), a: self.lo(ty, a), b: self.lo(ty, b), mask: self.lo(mty, mask), mty: mty.clone() },
                    Ins::CondBr(c, t, f) => Ins::CondBr(self.lo(&Ty::Int(1), c), *t, *f),
                    Ins::Switch(ty, v, c, d) => Ins::Switch(ty.clone(), self.lo(ty, v), c.clone(), *d),
                    Ins::Ret(Some((t, o))) => Ins::Ret(Some((t.clone(), self.lo(t, o)))),
                    Ins::CmpXchg { d, ty, p, c, n } => Ins::CmpXchg { d: *d, ty: ty.clone(), p: self.lo(&Ty::Ptr, p), c: self.lo(ty, c), n: self.lo(ty, n) },
                    Ins::AtomicRmw { d, op, ty, p, v } => Ins::AtomicRmw { d: *d, op: op.clone(), ty: ty.clone(), p: self.lo(&Ty::Ptr, p), v: self.lo(ty, v) },
                    Ins::Freeze { d, ty, a } => Ins::Freeze { d: *d, ty: ty.clone(), a: self.lo(ty, a) },
                    Ins::FNeg { d, ty, a } => Ins::FNeg { d: *d, ty: ty.clone(), a: self.lo(ty, a) },
                    _ => continue,
                };
                *ins = n;
            }
        }
    }
    fn tid(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.target_id.get(n) { return i; }
        let n: Rc<str> = n.into();
        let i = self.targets.len() as u32;
        self.targets.push(Target::Lazy(n.clone()));
        self.target_id.insert(n, i);
        i
    }
    fn target(&mut self, i: u32) -> Target {
        match &self.targets[i as usize] {
            Target::Lazy(n) => {
                let n = n.clone();
                let t = self.resolve(&n);
                self.targets[i as usize] = t.clone();
                t
            }
            t => t.clone(),
        }
    }
    fn resolve(&mut self, n: &Rc<str>) -> Target {
        if let Some(b) = builtin_of(n) { return Target::Bi(b, n.clone()); }
        let dm = demangle(n);
        if is_panic(&dm) { return Target::Panic(dm.into()); }
        if let Some(mut f) = self.m.func(n) {
            self.lower(&mut f);
            return Target::Fun(Box::leak(Box::new(f)));
        }
        if let Some(K::Global(g)) = self.m.resolve_alias(n) { return self.resolve(&g); }
        Target::Unsup(n.clone())
    }
    pub fn entry(&mut self, n: &str) -> Option<&'static Func> { let i = self.tid(n); match self.target(i) { Target::Fun(f) => Some(f), _ => None } }

    pub fn initial(&mut self, f: &'static Func) -> State {
        State {
            frames: vec![Rc::new(Frame { f, block: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![], ret: None, normal: None })],
            mem: BTreeMap::new(), next: M_BASE, facts: Rc::new(HashMap::new()), dom: Rc::new(vec![]), multi: Rc::new(vec![]), mvars: Rc::new(HashSet::new()),
            model: Rc::new(vec![]), model_id: 1, obs: Rc::new(vec![]), covers: Rc::new(BTreeSet::new()), instrs: 0, depth: 0, apps: Rc::new(vec![]), hvars: Rc::new(HashSet::new()),
        }
    }

    // ---- values -----------------------------------------------------------
    fn e(&mut self, v: &Val, bits: u16) -> E {
        match v {
            Val::I(x) => self.ctx.konst(bits, *x as u128),
            Val::W(x) => self.ctx.konst(bits, **x),
            Val::S(e) => { debug_assert_eq!(self.ctx.bits(*e), bits); *e }
            _ => panic!("not an integer"),
        }
    }
    fn v(&self, e: E) -> Val {
        let n = self.ctx.n(e);
        if n.op == Op::Const { if n.bits > 64 { Val::W(Rc::new(n.k)) } else { Val::I(n.k as u64) } } else { Val::S(e) }
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        if let Some(k) = self.ctx.cv(e) { return k; }
        if self.eval_cache.0 != st.model_id || self.eval_cache.1.len() > 2_000_000 { self.eval_cache = (st.model_id, HashMap::new()); }
        let model = &st.model;
        self.ctx.eval(e, &|i| model[i as usize], &mut self.eval_cache.1)
    }
    fn evalv(&mut self, st: &State, v: &Val) -> u64 { match v { Val::I(x) => *x, Val::W(x) => **x as u64, Val::S(e) => self.eval(st, *e) as u64, _ => 0 } }

    // ---- path condition ---------------------------------------------------
    fn assume(&mut self, st: &mut State, lit: E, val: bool) {
        let lit = if val { lit } else { self.ctx.not(lit) };
        if self.ctx.cv(lit).is_some() { return; }
        if st.facts.get(&lit) == Some(&true) { return; }
        let n = self.ctx.n(lit);
        let neg = self.ctx.not(lit);
        let f = Rc::make_mut(&mut st.facts);
        f.insert(lit, true);
        f.insert(neg, false);
        if n.op == Op::And { self.assume(st, n.a, true); self.assume(st, n.b, true); return; }
        if n.op == Op::Xor && self.ctx.cv(n.b) == Some(1) {
            let o = self.ctx.n(n.a);
            if o.op == Op::Or { self.assume(st, o.a, false); self.assume(st, o.b, false); return; }
        }
        match self.ctx.sup(lit) {
            Sup::One(v) => {
                let t = self.ctx.table(lit);
                let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
                for i in 0..4 { d[i] &= t[i]; }
                if st.mvars.contains(&v) { self.prune_multi(st); }
            }
            Sup::Many => {
                Rc::make_mut(&mut st.multi).push(lit);
                let s = self.ctx.support(lit);
                Rc::make_mut(&mut st.mvars).extend(s.iter());
            }
            Sup::None => {}
        }
    }
    /// Drops clauses that the byte domains already imply.
    fn prune_multi(&mut self, st: &mut State) {
        let keep: Vec<E> = st.multi.iter().copied().filter(|&c| !self.clause_implied(st, c)).collect();
        if keep.len() != st.multi.len() {
            let mut mv = HashSet::new();
            for &c in &keep { mv.extend(self.ctx.support(c).iter()); }
            st.multi = Rc::new(keep);
            st.mvars = Rc::new(mv);
        }
    }
    fn clause_implied(&mut self, st: &State, c: E) -> bool {
        let (c, neg) = self.strip(c, false);
        let n = self.ctx.n(c);
        match (n.op, neg) {
            (Op::Or, false) | (Op::And, true) => self.lit_implied(st, n.a, neg) || self.lit_implied(st, n.b, neg),
            _ => false,
        }
    }
    fn lit_implied(&mut self, st: &State, c: E, neg: bool) -> bool {
        let (c, neg) = self.strip(c, neg);
        match self.ctx.sup(c) {
            Sup::One(v) => { let t = self.ctx.table(c); let d = st.dom[v as usize]; (0..4).all(|i| d[i] & (if neg { t[i] } else { !t[i] }) == 0) }
            Sup::Many => {
                let n = self.ctx.n(c);
                match (n.op, neg) {
                    (Op::Or, false) | (Op::And, true) => self.lit_implied(st, n.a, neg) || self.lit_implied(st, n.b, neg),
                    (Op::And, false) | (Op::Or, true) => self.lit_implied(st, n.a, neg) && self.lit_implied(st, n.b, neg),
                    _ => false,
                }
            }
            _ => false,
        }
    }
    fn strip(&self, mut c: E, mut neg: bool) -> (E, bool) {
        loop { let n = self.ctx.n(c); if n.op == Op::Xor && n.bits == 1 && self.ctx.cv(n.b) == Some(1) { c = n.a; neg = !neg; } else { return (c, neg); } }
    }
    fn dom_e(&mut self, v: u32, d: [u64; 4]) -> Option<E> {
        if d == [u64::MAX; 4] { return None; }
        if let Some(&e) = self.dom_expr.get(&(v, d)) { return Some(e); }
        let x = self.ctx.var(v);
        let has = |i: u32| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        let mut acc = self.ctx.konst(1, 0);
        let mut i = 0;
        while i < 256 {
            if !has(i) { i += 1; continue; }
            let lo = i;
            while i < 256 && has(i) { i += 1; }
            let hi = i - 1;
            let (l, h) = (self.ctx.konst(8, lo as u128), self.ctx.konst(8, hi as u128));
            let r = if lo == hi { self.ctx.cmp(Op::Eq, x, l) } else { let a = self.ctx.cmp(Op::Ule, l, x); let b = self.ctx.cmp(Op::Ule, x, h); self.ctx.bin(Op::And, a, b) };
            acc = self.ctx.bin(Op::Or, acc, r);
        }
        self.dom_expr.insert((v, d), acc);
        Some(acc)
    }
    /// The verdict on `lit` and the domains of its variables only, shared by all literals that differ in the names of
    /// variables. Decides if that is unsatisfiable, or if its model happens to satisfy the whole path condition.
    fn solve_alone(&mut self, st: &State, lit: E) -> R<Option<Option<State2>>> {
        let Some((r, vs)) = self.alone(st, lit, 20_000)? else { return Ok(None) };
        let Some(x) = r else { return Ok(Some(None)) };
        let mut m = (*st.model).clone();
        for (v, x) in vs.iter().zip(x) { m[*v as usize] = x; }
        if st.apps.iter().any(|a| a.first.is_some()) {
            return Ok(self.real(st, &m, &[lit]).map(|m| Some(Rc::new(m))));
        }
        let mut memo = HashMap::new();
        for &c in st.multi.iter().chain([&lit]) { if self.ctx.eval(c, &|i| m[i as usize], &mut memo) != 1 { return Ok(None); } }
        Ok(Some(Some(Rc::new(m))))
    }
    fn alone(&mut self, st: &State, lit: E, max: usize) -> R<Option<(Option<Vec<u8>>, Vec<u32>)>> {
        if self.certify { return Ok(None); }
        let Some((key, vs)) = self.canonical(st, lit, max) else { return Ok(None) };
        if let Some(r) = self.alone.get(&key) { self.st.cached += 1; return Ok(Some((r.clone(), vs))); }
        let mut cs = vec![lit];
        for &v in &vs { if let Some(e) = self.dom_e(v, st.dom[v as usize]) { cs.push(e); } }
        let r = match self.z3.check(&self.ctx, &cs, &vs) {
            Res::Sat(mv) => { let mv: HashMap<u32, u8> = mv.into_iter().collect(); Some(vs.iter().map(|v| mv[v]).collect::<Vec<u8>>()) }
            Res::Unsat => None,
            Res::Unknown => return internal("solver gave no answer"),
        };
        self.alone_size += key.len();
        if self.alone_size > 40_000_000 { self.alone.clear(); self.alone_size = 0; }
        self.alone.insert(key, r.clone());
        Ok(Some((r, vs)))
    }
    fn canonical(&self, st: &State, lit: E, max: usize) -> Option<(Vec<u64>, Vec<u32>)> {
        let mut ids: HashMap<E, u32> = HashMap::new();
        let mut vs: Vec<u32> = vec![];
        let mut key: Vec<u64> = vec![];
        let mut stack = vec![(lit, false)];
        while let Some((e, done)) = stack.pop() {
            if ids.contains_key(&e) { continue; }
            let n = self.ctx.n(e);
            let kids: &[E] = match n.op { Op::Const | Op::Var => &[], Op::Ite => &[n.a, n.b, n.c], Op::ZExt | Op::SExt | Op::Extract => &[n.a], _ => &[n.a, n.b] };
            if !done && !kids.is_empty() {
                stack.push((e, true));
                for &k in kids.iter().rev() { stack.push((k, false)); }
                continue;
            }
            if ids.len() >= max { return None; }
            key.push((n.op as u64) << 32 | (n.bits as u64) << 40 | kids.len() as u64);
            for k in kids { key.push(ids[k] as u64); }
            match n.op {
                Op::Var => { let v = n.k as u32; vs.push(v); let d = st.dom[v as usize]; key.extend(d); }
                Op::Const if n.bits > 64 => { key.push(n.k as u64); key.push((n.k >> 64) as u64); }
                _ => key.push(n.k as u64),
            }
            ids.insert(e, ids.len() as u32);
        }
        Some((key, vs))
    }
    /// Z3 on the part of the path condition connected to `lit`. Applications of hash functions are
    /// uninterpreted and injective: the instances of these two axioms that a model violates are added
    /// to the query until it is unsatisfiable or the model respects them.
    fn solve(&mut self, st: &State, lit: E) -> R<Option<State2>> {
        self.lemmas.clear();
        match self.solve_alone(st, lit)? {
            Some(None) => return Ok(None),
            Some(Some(m)) => return Ok(Some(m)),
            None => {}
        }
        let mut extra: Vec<E> = vec![lit];
        for _ in 0..200 {
            let mut vars: BTreeSet<u32> = BTreeSet::new();
            for &e in &extra { vars.extend(self.ctx.support(e).iter()); }
            let mut used = vec![false; st.multi.len()];
            let mut cs = extra.clone();
            loop {
                let mut ch = false;
                for (i, &c) in st.multi.iter().enumerate() {
                    if used[i] { continue; }
                    let s = self.ctx.support(c);
                    if s.iter().any(|v| vars.contains(v)) { used[i] = true; cs.push(c); vars.extend(s.iter()); ch = true; }
                }
                if !ch { break; }
            }
            for &v in &vars { if let Some(e) = self.dom_e(v, st.dom[v as usize]) { cs.push(e); } }
            let vs: Vec<u32> = vars.into_iter().collect();
            let m = match self.z3.check(&self.ctx, &cs, &vs) {
                Res::Sat(mv) => {
                    let mut m = (*st.model).clone();
                    for (v, x) in mv { m[v as usize] = x; }
                    m
                }
                Res::Unsat => return Ok(None),
                Res::Unknown => return internal("solver gave no answer"),
            };
            if st.apps.iter().all(|a| a.first.is_none()) { return Ok(Some(Rc::new(m))); }
            if let Some(m) = self.real(st, &m, &extra) { return Ok(Some(Rc::new(m))); }
            let l = self.violated_axioms(st, &m)?;
            let n = extra.len();
            for e in l { if !extra.contains(&e) { extra.push(e); self.lemmas.push(e); self.st.lemmas += 1; } }
            if extra.len() == n { return Ok(Some(Rc::new(m))); }
        }
        internal("hash axioms did not converge")
    }
    /// `m` with every hash output replaced by the value the real function has, if that satisfies the path condition.
    fn real(&mut self, st: &State, m: &[u8], extra: &[E]) -> Option<Vec<u8>> {
        let mut m = m.to_vec();
        let mut memo = HashMap::new();
        for a in st.apps.clone().iter() {
            let Some(f) = a.first else { continue };
            let ins: Vec<u8> = a.ins.iter().map(|&e| self.ctx.eval(e, &|i| m[i as usize], &mut memo) as u8).collect();
            let n = crate::hash::ALGS[a.alg as usize].0;
            let out = crate::hash::compress(a.alg as usize, &ins[..n], &ins[n..]);
            let mut ch = false;
            for (i, x) in out.iter().enumerate() { let j = f as usize + i; if m[j] != *x { m[j] = *x; ch = true; } }
            if ch { memo.clear(); }
        }
        memo.clear();
        for (v, d) in st.dom.iter().enumerate() { if d[(m[v] >> 6) as usize] >> (m[v] & 63) & 1 == 0 { return None; } }
        for &c in st.multi.iter().chain(extra) { if self.ctx.eval(c, &|i| m[i as usize], &mut memo) != 1 { return None; } }
        Some(m)
    }
    fn violated_axioms(&mut self, st: &State, m: &[u8]) -> R<Vec<E>> {
        let mut memo = HashMap::new();
        let mut inv: Vec<(HashMap<Vec<u8>, usize>, HashMap<Vec<u8>, usize>)> = (0..3).map(|_| Default::default()).collect();
        let mut out = vec![];
        let apps = st.apps.clone();
        for (i, a) in apps.iter().enumerate() {
            let x: Vec<u8> = a.ins.iter().map(|&e| self.ctx.eval(e, &|i| m[i as usize], &mut memo) as u8).collect();
            let y: Vec<u8> = a.outs.iter().map(|&e| self.ctx.eval(e, &|i| m[i as usize], &mut memo) as u8).collect();
            let (ix, iy) = &mut inv[a.alg as usize];
            let jx = *ix.entry(x).or_insert(i);
            let jy = *iy.entry(y).or_insert(i);
            if jx == jy { continue; }
            for j in [jx, jy] {
                if j == i { continue; }
                let e = self.axiom(st, &apps[j], a)?;
                if self.ctx.cv(e) != Some(1) { out.push(e); }
            }
        }
        Ok(out)
    }
    fn eq_all(&mut self, st: &State, a: &[E], b: &[E]) -> R<E> {
        let mut acc = self.ctx.konst(1, 1);
        let mut cs = vec![];
        for (x, y) in a.iter().zip(b) {
            let c = self.ctx.cmp(Op::Eq, *x, *y);
            match self.ctx.cv(c) { Some(0) => return Ok(c), Some(_) => {} None => cs.push(c) }
        }
        for c in cs {
            // equal whatever the variables are?
            if self.ctx.sup(c) == Sup::Many {
                let n = self.ctx.not(c);
                if let Some((None, _)) = self.alone(st, n, 2000)? { continue; }
            }
            acc = self.ctx.bin(Op::And, acc, c);
        }
        Ok(acc)
    }
    fn axiom(&mut self, st: &State, a: &App, b: &App) -> R<E> {
        let x = self.eq_all(st, &a.ins, &b.ins)?;
        let y = self.eq_all(st, &a.outs, &b.outs)?;
        Ok(self.ctx.cmp(Op::Eq, x, y))
    }
    /// A model in which every hash output is the real one, found by fixing the inputs of one application after the other.
    fn realize(&mut self, st: &State) -> R<Option<Vec<u8>>> {
        if st.apps.iter().all(|a| a.first.is_none()) { return Ok(Some((*st.model).clone())); }
        if let Some(m) = self.real(st, &st.model, &[]) { return Ok(Some(m)); }
        let mut st = st.clone();
        let t = self.ctx.konst(1, 1);
        let mut k = self.multi_all(&mut st);
        if self.ctx.cv(k).is_none() {
            match self.solve(&st, k)? { Some(m) => st.model = m, None => return Ok(None) }
        } else { k = t; }
        let apps = st.apps.clone();
        for a in apps.iter() {
            if a.first.is_none() { continue; }
            if let Some(m) = self.real(&st, &st.model, &[k]) { return Ok(Some(m)); }
            // fix this application
            let m = st.model.clone();
            let mut memo = HashMap::new();
            let ins: Vec<u8> = a.ins.iter().map(|&e| self.ctx.eval(e, &|i| m[i as usize], &mut memo) as u8).collect();
            let n = crate::hash::ALGS[a.alg as usize].0;
            let out = crate::hash::compress(a.alg as usize, &ins[..n], &ins[n..]);
            for (e, x) in a.ins.iter().zip(&ins).chain(a.outs.iter().zip(&out)) {
                let kx = self.ctx.konst(8, *x as u128);
                let c = self.ctx.cmp(Op::Eq, *e, kx);
                k = self.ctx.bin(Op::And, k, c);
            }
            match self.solve(&st, k)? { Some(m) => st.model = m, None => return internal("counterexample depends on an unrealizable hash value") }
        }
        match self.real(&st, &st.model, &[k]) { Some(m) => Ok(Some(m)), None => internal("counterexample depends on an unrealizable hash value") }
    }
    fn multi_all(&mut self, st: &mut State) -> E {
        let mut k = self.ctx.konst(1, 1);
        for &c in st.multi.clone().iter() { k = self.ctx.bin(Op::And, k, c); }
        k
    }
    /// The input the replay reads: everything except hash outputs.
    fn input_of(st: &State, m: &[u8]) -> Vec<u8> {
        let mut skip = vec![false; m.len()];
        for a in st.apps.iter() { if let Some(f) = a.first { for i in 0..a.outs.len() { skip[f as usize + i] = true; } } }
        m.iter().zip(skip).filter(|x| !x.1).map(|x| *x.0).collect()
    }
    fn pick(d: &[u64; 4], pref: u8) -> u8 {
        let has = |i: u8| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        if has(pref) { return pref; }
        for r in [(b'a', b'z'), (b'0', b'9'), (b'!', b'~')] { for i in r.0..=r.1 { if has(i) { return i; } } }
        (0..=255).find(|&i| has(i)).unwrap()
    }
    /// A model of the path condition that also satisfies `lit`, if there is one.
    fn feasible(&mut self, st: &State, lit: E) -> R<Option<State2>> {
        self.lemmas.clear();
        if let Some(r) = self.feasible_dom(st, lit) {
            if r.is_none() {
                self.st.dom_unsat += 1;
                if self.certify {
                    self.st.certified += 1;
                    if self.solve(st, lit)?.is_some() { return internal("domain reasoning and solver disagree"); }
                }
            } else { self.st.dom_sat += 1; }
            return Ok(r);
        }
        self.solve(st, lit)
    }
    fn feasible_dom(&mut self, st: &State, lit: E) -> Option<Option<State2>> {
        let mut conj = vec![];
        self.flatten(lit, false, &mut conj);
        let mut masks: HashMap<u32, [u64; 4]> = HashMap::new();
        let mut ors = vec![];
        for &(c, neg) in &conj {
            match self.ctx.sup(c) {
                Sup::One(v) => {
                    let t = self.ctx.table(c);
                    let d = masks.entry(v).or_insert(st.dom[v as usize]);
                    for i in 0..4 { d[i] &= if neg { !t[i] } else { t[i] }; }
                    if *d == [0; 4] { return Some(None); }
                }
                _ => ors.push((c, neg)),
            }
        }
        if !ors.is_empty() {
            // a single clause of unary literals over free variables
            if conj.len() != 1 { return None; }
            let (c, neg) = ors[0];
            let n = self.ctx.n(c);
            if !matches!((n.op, neg), (Op::Or, false) | (Op::And, true)) { return None; }
            let mut dis = vec![];
            self.flatten(c, !neg, &mut dis);
            let mut all_unary = true;
            for &(x, xn) in &dis {
                // x with sign !xn is the disjunct
                let Sup::One(v) = self.ctx.sup(x) else { all_unary = false; continue };
                let t = self.ctx.table(x);
                let mut d = st.dom[v as usize];
                for i in 0..4 { d[i] &= if xn { t[i] } else { !t[i] }; }
                if d == [0; 4] { continue; }
                if st.mvars.contains(&v) || st.hvars.contains(&v) { all_unary = false; continue; }
                let mut m = (*st.model).clone();
                m[v as usize] = Self::pick(&d, m[v as usize]);
                return Some(Some(Rc::new(m)));
            }
            return if all_unary { Some(None) } else { None };
        }
        if masks.keys().any(|v| st.mvars.contains(v) || st.hvars.contains(v)) { return None; }
        let mut m = (*st.model).clone();
        for (v, d) in masks { m[v as usize] = Self::pick(&d, m[v as usize]); }
        Some(Some(Rc::new(m)))
    }
    /// conjuncts of `c` (negated if `neg`), as (expr, negated)
    fn flatten(&self, c: E, neg: bool, out: &mut Vec<(E, bool)>) {
        let mut stack = vec![(c, neg)];
        while let Some((c, neg)) = stack.pop() {
            let (c, neg) = self.strip(c, neg);
            let n = self.ctx.n(c);
            match (n.op, neg) {
                (Op::And, false) | (Op::Or, true) if n.bits == 1 && self.ctx.sup(c) == Sup::Many => { stack.push((n.a, neg)); stack.push((n.b, neg)); }
                _ => out.push((c, neg)),
            }
        }
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ctx.cv(c) { return Ok(k == 1); }
        if let Some(&b) = st.facts.get(&c) { return Ok(b); }
        self.st.decisions += 1;
        let mv = self.eval(st, c) == 1;
        let other = if mv { self.ctx.not(c) } else { c };
        match self.feasible(st, other)? {
            None => {
                let nc = self.ctx.not(c);
                let f = Rc::make_mut(&mut st.facts);
                f.insert(c, mv);
                f.insert(nc, !mv);
                Ok(mv)
            }
            Some(model) => {
                self.st.forks += 1;
                st.depth += 1;
                let mut k = st.clone();
                k.model = model;
                self.model_ids += 1;
                k.model_id = self.model_ids;
                if !self.lemmas.is_empty() {
                    let l = std::mem::take(&mut self.lemmas);
                    for &e in &l { self.assume(&mut k, e, true); if self.eval(st, e) == 1 { self.assume(st, e, true); } }
                }
                self.assume(&mut k, c, !mv);
                self.work.push(k);
                self.assume(st, c, mv);
                Ok(mv)
            }
        }
    }
    fn concretize(&mut self, st: &mut State, v: &Val, bits: u16) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => loop {
                let k = self.eval(st, *e);
                let kk = self.ctx.konst(bits, k);
                let c = self.ctx.cmp(Op::Eq, *e, kk);
                if self.decide(st, c)? { return Ok(k as u64); }
            },
            _ => internal("concretize aggregate"),
        }
    }

    // ---- memory -----------------------------------------------------------
    fn find<'a>(&'a self, st: &'a State, a: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if a >= M_BASE {
            let (b, o) = st.mem.range(..=a).next_back()?;
            return Some((*b, o));
        }
        let (b, o) = self.gobjs.range(..=a).next_back()?;
        Some((*b, st.mem.get(b).unwrap_or(o)))
    }
    fn inb(&self, st: &State, a: u64, n: u64) -> R<(u64, usize)> {
        match self.find(st, a) {
            Some((b, o)) if a - b + n <= o.data.len() as u64 => Ok((b, (a - b) as usize)),
            _ => viol("memory", format!("access of {n} bytes at {a:#x} is outside every live object")),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: u8) -> u64 {
        let a = up(st.next, align.max(16));
        st.next = a + size + 32;
        st.mem.insert(a, Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], kind }));
        a
    }
    fn load_int(&mut self, st: &State, a: u64, bits: u16) -> R<Val> {
        let n = (bits as u64 + 7) / 8;
        let (b, off) = self.inb(st, a, n)?;
        let n = n as usize;
        let o = self.find(st, b).unwrap().1;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0) {
            let d = &o.data[off..off + n];
            if bits <= 64 {
                let mut x = [0u8; 8];
                x[..n].copy_from_slice(d);
                return Ok(Val::I(u64::from_le_bytes(x) & m64(bits)));
            }
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(d);
            return Ok(Val::W(Rc::new(u128::from_le_bytes(x) & mask(bits))));
        }
        let o = o.clone();
        let mut acc: Option<E> = None;
        for i in 0..n {
            let x = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.ctx.konst(8, o.data[off + i] as u128) };
            acc = Some(match acc { None => x, Some(l) => self.ctx.concat(x, l) });
        }
        let e = self.ctx.extract(acc.unwrap(), 0, bits);
        Ok(self.v(e))
    }
    fn wobj<'a>(&'a mut self, st: &'a mut State, b: u64) -> R<&'a mut Obj> {
        if b < M_BASE && !st.mem.contains_key(&b) {
            let o = self.gobjs[&b].clone();
            if o.kind == Kind::Const { return viol("memory", "write to a constant"); }
            st.mem.insert(b, o);
        }
        Ok(Rc::make_mut(st.mem.get_mut(&b).unwrap()))
    }
    fn store_int(&mut self, st: &mut State, a: u64, bits: u16, v: &Val) -> R<()> {
        let n = ((bits as u64 + 7) / 8) as usize;
        let (b, off) = self.inb(st, a, n as u64)?;
        match v {
            Val::I(x) => {
                let o = self.wobj(st, b)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() { o.sym[off..off + n].fill(0); }
            }
            Val::W(x) => {
                let o = self.wobj(st, b)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() { o.sym[off..off + n].fill(0); }
            }
            Val::S(e) => {
                let e = self.ctx.zext(*e, n as u16 * 8);
                let bs: Vec<E> = (0..n).map(|i| self.ctx.extract(e, 8 * i as u16, 8)).collect();
                self.store_syms(st, b, off, &bs)?;
            }
            _ => return internal("store of a non-integer"),
        }
        Ok(())
    }
    fn store_syms(&mut self, st: &mut State, b: u64, off: usize, bs: &[E]) -> R<()> {
        let cs: Vec<Option<u128>> = bs.iter().map(|&e| self.ctx.cv(e)).collect();
        let o = self.wobj(st, b)?;
        if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        for (i, &e) in bs.iter().enumerate() {
            match cs[i] { Some(k) => { o.data[off + i] = k as u8; o.sym[off + i] = 0; } None => o.sym[off + i] = e }
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Int(b) => self.load_int(st, a, *b as u16)?,
            Ty::Ptr => self.load_int(st, a, 64)?,
            Ty::Float => match self.load_int(st, a, 32)? { Val::I(x) => Val::F(f32::from_bits(x as u32) as f64), _ => return internal("symbolic float") },
            Ty::Double => match self.load_int(st, a, 64)? { Val::I(x) => Val::F(f64::from_bits(x)), _ => return internal("symbolic float") },
            Ty::Struct(f, _) => { let mut v = vec![]; for (i, t) in f.iter().enumerate() { v.push(self.load_ty(st, a + ty.field_off(i), t)?); } Val::A(Rc::new(v)) }
            Ty::Vec(n, t) if matches!(**t, Ty::Int(b) if b % 8 != 0) => {
                let Ty::Int(b) = **t else { unreachable!() };
                let w = self.load_int(st, a, *n as u16 * b as u16)?;
                let e = self.e(&w, *n as u16 * b as u16);
                let mut v = vec![];
                for i in 0..*n as u16 { let x = self.ctx.extract(e, i * b as u16, b as u16); v.push(self.v(x)); }
                Val::A(Rc::new(v))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => { let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(st, a + i * t.alloc(), t)?); } Val::A(Rc::new(v)) }
            _ => return internal("load type"),
        })
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Int(b), _) => self.store_int(st, a, *b as u16, v),
            (Ty::Ptr, _) => self.store_int(st, a, 64, v),
            (Ty::Float, Val::F(f)) => self.store_int(st, a, 32, &Val::I((*f as f32).to_bits() as u64)),
            (Ty::Double, Val::F(f)) => self.store_int(st, a, 64, &Val::I(f.to_bits())),
            (Ty::Vec(n, t), Val::A(x)) if matches!(**t, Ty::Int(b) if b % 8 != 0) => {
                let Ty::Int(b) = **t else { unreachable!() };
                let x = x.clone();
                let mut e = self.e(&x[0], b as u16);
                for i in 1..*n as usize { let h = self.e(&x[i], b as u16); e = self.ctx.concat(h, e); }
                let w = self.v(e);
                self.store_int(st, a, *n as u16 * b as u16, &w)
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Val::A(x)) => {
                for (i, v) in x.clone().iter().enumerate() { self.store_ty(st, a + ty.field_off(i), &ty.elem(i), v)?; }
                Ok(())
            }
            _ => internal("store type"),
        }
    }
    fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 { return Ok(vec![]); }
        let (b, off) = self.inb(st, a, n)?;
        let o = self.find(st, b).unwrap().1;
        let n = n as usize;
        Ok((0..n).map(|i| (o.data[off + i], if o.sym.is_empty() { 0 } else { o.sym[off + i] })).collect())
    }
    fn bytes_e(&mut self, b: &(u8, E)) -> E { if b.1 != 0 { b.1 } else { self.ctx.konst(8, b.0 as u128) } }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sb, so) = self.inb(st, s, n)?;
        let (db, dof) = self.inb(st, d, n)?;
        let n = n as usize;
        let src = self.find(st, sb).unwrap().1.clone();
        let has = !src.sym.is_empty() && src.sym[so..so + n].iter().any(|&e| e != 0);
        let o = self.wobj(st, db)?;
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if has {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !o.sym.is_empty() { o.sym[dof..dof + n].fill(0); }
        Ok(())
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        match st.mem.get(&a) {
            Some(o) if o.kind == Kind::Heap => { st.mem.remove(&a); Ok(()) }
            _ => viol("memory", format!("free of {a:#x}, which is not a live heap object")),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, e: E, bits: u16) -> R<Val> {
        let n = (bits as u64 + 7) / 8;
        let a0 = self.eval(st, e) as u64;
        let (base, _) = self.inb(st, a0, n)?;
        let size = self.find(st, base).unwrap().1.data.len() as u64;
        let be = self.ctx.konst(64, base as u128);
        let off = self.ctx.bin(Op::Sub, e, be);
        let lim = self.ctx.konst(64, (size - n) as u128);
        let c = self.ctx.cmp(Op::Ule, off, lim);
        if !self.decide(st, c)? { return internal("address left its object"); }
        let mut offs: Vec<u64> = vec![];
        if let Sup::One(v) = self.ctx.sup(off) {
            let d = st.dom[v as usize];
            let mut set = BTreeSet::new();
            for x in 0..256u32 {
                if d[(x >> 6) as usize] >> (x & 63) & 1 == 0 { continue; }
                let o = self.ctx.eval(off, &|_| x as u8, &mut HashMap::new()) as u64;
                if o + n <= size { set.insert(o); }
            }
            offs.extend(set);
        } else {
            let tz = self.tz(off);
            let max = (self.ctx.umax(off) as u64).min(size - n);
            let step = 1u64 << tz;
            if max / step > 4096 {
                let a = self.concretize(st, &Val::S(e), 64)?;
                return self.load_int(st, a, bits);
            }
            let mut o = 0;
            while o <= max { offs.push(o); o += step; }
        }
        let step = offs.windows(2).map(|w| w[1] - w[0]).min().unwrap_or(1).max(1);
        let mut vals = vec![];
        for &o in &offs { let v = self.load_int(st, base + o, bits)?; vals.push(self.e(&v, bits)); }
        // runs of equal or affine values
        let mut runs: Vec<(u64, E)> = vec![]; // (last offset of the run, value)
        let mut i = 0;
        let idx = { let s = self.ctx.konst(64, step.trailing_zeros() as u128); if step.is_power_of_two() { self.ctx.bin(Op::LShr, off, s) } else { off } };
        let sh = if step.is_power_of_two() { step.trailing_zeros() } else { 0 };
        while i < offs.len() {
            let mut j = i;
            while j + 1 < offs.len() && vals[j + 1] == vals[i] { j += 1; }
            let mut j2 = i;
            if let Some(v0) = self.ctx.cv(vals[i]) {
                let d0 = v0.wrapping_sub((offs[i] >> sh) as u128) & mask(bits);
                while j2 + 1 < offs.len() {
                    match self.ctx.cv(vals[j2 + 1]) { Some(v) if v.wrapping_sub((offs[j2 + 1] >> sh) as u128) & mask(bits) == d0 => j2 += 1, _ => break }
                }
                if j2 > j {
                    let x = if bits <= 64 { self.ctx.extract(idx, 0, bits) } else { self.ctx.zext(idx, bits) };
                    let k = self.ctx.konst(bits, d0);
                    let v = self.ctx.bin(Op::Add, x, k);
                    runs.push((offs[j2], v));
                    i = j2 + 1;
                    continue;
                }
            }
            runs.push((offs[j], vals[i]));
            i = j + 1;
        }
        let mut acc = runs.pop().unwrap().1;
        while let Some((hi, v)) = runs.pop() {
            let k = self.ctx.konst(64, hi as u128);
            let c = self.ctx.cmp(Op::Ule, off, k);
            acc = self.ctx.ite(c, v, acc);
        }
        Ok(self.v(acc))
    }
    fn tz(&self, e: E) -> u32 {
        let n = self.ctx.n(e);
        match n.op {
            Op::Const => if n.k == 0 { 16 } else { n.k.trailing_zeros() },
            Op::Concat => { let z = self.tz(n.b); if self.ctx.cv(n.b) == Some(0) { self.ctx.bits(n.b) as u32 + self.tz(n.a) } else { z.min(self.ctx.bits(n.b) as u32) } }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Add | Op::Sub | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }.min(16)
    }

    // ---- scalar operations --------------------------------------------------
    fn bini(&mut self, op: Op, bits: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if bits <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(bits);
                let r = match op {
                    Op::Add => x.wrapping_add(y),
                    Op::Sub => x.wrapping_sub(y),
                    Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => if y >= bits as u64 { 0 } else { x << y },
                    Op::LShr => if y >= bits as u64 { 0 } else { x >> y },
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => return viol("ub", "division by zero"),
                    Op::UDiv => x / y,
                    Op::URem => x % y,
                    _ => fold(op, bits, x as u128, y as u128) as u64,
                };
                return Ok(Val::I(r & m));
            }
        }
        let (x, y) = (self.e(a, bits), self.e(b, bits));
        let r = self.ctx.bin(op, x, y);
        Ok(self.v(r))
    }
    fn cmpi(&mut self, op: Op, neg: bool, bits: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let r = match op {
                Op::Eq => x == y,
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sx(*x, bits) < sx(*y, bits),
                _ => sx(*x, bits) <= sx(*y, bits),
            };
            return Val::I((r != neg) as u64);
        }
        let (x, y) = (self.e(a, bits), self.e(b, bits));
        let mut r = self.ctx.cmp(op, x, y);
        if neg { r = self.ctx.not(r); }
        self.v(r)
    }
    fn casti(&mut self, sext: bool, from: u16, to: u16, a: &Val) -> Val {
        match a {
            Val::I(x) if to <= 64 => Val::I(if to <= from { x & m64(to) } else if sext { sx(*x, from) as u64 & m64(to) } else { *x }),
            _ => {
                let x = self.e(a, from);
                let r = if to <= from { self.ctx.extract(x, 0, to) } else if sext { self.ctx.sext(x, to) } else { self.ctx.zext(x, to) };
                self.v(r)
            }
        }
    }

    // ---- interpreter ----------------------------------------------------------
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> Val {
        match o { Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::V(v) => v.clone(), Opd::Const(_) => unreachable!() }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[d as usize] = v;
        f.ip += 1;
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.block;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vs = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let Some((_, o)) = inc.iter().find(|(p, _)| *p == from) else { return internal("phi without predecessor") };
                vs.push((*d, self.op(st, o)));
            }
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vs { fr.regs[d as usize] = v; }
            fr.block = to;
            fr.ip = 0;
        } else {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.block = to;
            fr.ip = 0;
        }
        Ok(())
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v { Val::I(x) => Ok(*x & 1 == 1), Val::S(e) => self.decide(st, *e), _ => internal("condition") }
    }
    fn next(&self, st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }

    pub fn stack(&mut self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.block as usize];
            let dbg = b.ins.get(fr.ip as usize).map(|x| x.1).unwrap_or(0);
            let l = self.m.location(dbg);
            if l.is_empty() { out.push(demangle(&fr.f.name)); }
            for (sp, line) in l { out.push(format!("{} ({}:{})", sp.0, sp.1, line)); }
        }
        out
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, block, ip) = { let fr = st.frames.last().unwrap(); (fr.f, fr.block, fr.ip) };
        let (ins, dbg) = &f.blocks[block as usize].ins[ip as usize];
        st.instrs += 1;
        self.st.instrs += 1;
        let di = *dbg as usize;
        if di >= self.cov.len() { self.cov.resize(di + 1024, false); }
        self.cov[di] = true;
        match ins {
            Ins::BinI { d, op, bits, a, b } => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.bini(*op, *bits, &x, &y)?; self.set(st, *d, r); }
            Ins::CmpI { d, op, swap, neg, bits, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *swap { self.cmpi(*op, *neg, *bits, &y, &x) } else { self.cmpi(*op, *neg, *bits, &x, &y) };
                self.set(st, *d, r);
            }
            Ins::CastI { d, op, from, to, a } => { let x = self.op(st, a); let r = self.casti(*op == 1, *from, *to, &x); self.set(st, *d, r); }
            Ins::LoadI { d, bits, p } => {
                let r = match self.op(st, p) { Val::I(a) => self.load_int(st, a, *bits)?, Val::S(e) => self.load_sym(st, e, *bits)?, _ => return internal("pointer") };
                self.set(st, *d, r);
            }
            Ins::StoreI { bits, v, p } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)?;
                let v = self.op(st, v);
                self.store_int(st, a, *bits, &v)?;
                self.next(st);
            }
            Ins::Gep { d, base, off, idx } => {
                let mut acc = self.op(st, base);
                if idx.is_empty() {
                    if let Val::I(x) = acc { self.set(st, *d, Val::I(x.wrapping_add(*off as u64))); return Ok(()); }
                }
                for (o, bits, scale) in idx {
                    let i = self.op(st, o);
                    let i = self.casti(true, *bits as u16, 64, &i);
                    let t = self.bini(Op::Mul, 64, &i, &Val::I(*scale as u64))?;
                    acc = self.bini(Op::Add, 64, &acc, &t)?;
                }
                if *off != 0 { acc = self.bini(Op::Add, 64, &acc, &Val::I(*off as u64))?; }
                self.set(st, *d, acc);
            }
            Ins::Br(t) => self.jump(st, *t)?,
            Ins::CondBr(c, t, e) => { let v = self.op(st, c); let b = self.cond(st, &v)?; self.jump(st, if b { *t } else { *e })?; }
            Ins::Switch(ty, v, cases, def) => {
                let v = self.op(st, v);
                let bits = ty.bits() as u16;
                let to = match &v {
                    Val::I(x) => cases.iter().find(|c| c.0 as u64 == *x).map(|c| c.1).unwrap_or(*def),
                    Val::W(x) => cases.iter().find(|c| c.0 == **x).map(|c| c.1).unwrap_or(*def),
                    Val::S(e) => {
                        let e = *e;
                        let k = self.eval(st, e);
                        let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        // condition under which this target is taken
                        let mut conds: Vec<E> = vec![];
                        let same = |t: u32| t == to;
                        let c = if same(*def) {
                            for c in cases.iter().filter(|c| !same(c.1)) { let kk = self.ctx.konst(bits, c.0); let q = self.ctx.cmp(Op::Eq, e, kk); conds.push(self.ctx.not(q)); }
                            let mut acc = self.ctx.konst(1, 1);
                            for c in conds { acc = self.ctx.bin(Op::And, acc, c); }
                            acc
                        } else {
                            for c in cases.iter().filter(|c| same(c.1)) { let kk = self.ctx.konst(bits, c.0); conds.push(self.ctx.cmp(Op::Eq, e, kk)); }
                            let mut acc = self.ctx.konst(1, 0);
                            for c in conds { acc = self.ctx.bin(Op::Or, acc, c); }
                            acc
                        };
                        if !self.decide(st, c)? { return internal("switch"); }
                        to
                    }
                    _ => return internal("switch value"),
                };
                self.jump(st, to)?;
            }
            Ins::Select { d, cty, c, ty, a, b } => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if cty.lanes().is_some() {
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (cv, x, y) else { return internal("vector select") };
                    let bits = ty.elem(0).bits() as u16;
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(match &cs[i] { Val::I(k) => if k & 1 == 1 { xs[i].clone() } else { ys[i].clone() }, Val::S(e) => { let (p, q) = (self.e(&xs[i], bits), self.e(&ys[i], bits)); let r = self.ctx.ite(*e, p, q); self.v(r) } _ => return internal("select") });
                    }
                    self.set(st, *d, Val::A(Rc::new(out)));
                    return Ok(());
                }
                let r = match (&cv, ty) {
                    (Val::I(k), _) => if k & 1 == 1 { x } else { y },
                    (Val::S(e), Ty::Int(bits)) => { let (p, q) = (self.e(&x, *bits as u16), self.e(&y, *bits as u16)); let r = self.ctx.ite(*e, p, q); self.v(r) }
                    (Val::S(e), _) => if self.decide(st, *e)? { x } else { y },
                    _ => return internal("select"),
                };
                self.set(st, *d, r);
            }
            Ins::Call { d, callee, ret, args, normal, noret } => return self.call(st, *d, callee, ret, args, *normal, *noret),
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { st.mem.remove(a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                let top = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (fr.ret, v) { top.regs[d as usize] = v; }
                match fr.normal { Some(b) => self.jump(st, b)?, None => top.ip += 1 }
            }
            Ins::Alloca { d, ty, count, align } => {
                let n = match count { Some((_, o)) => { let v = self.op(st, o); self.concretize(st, &v, 64)? } None => 1 };
                let a = self.alloc(st, ty.alloc() * n, *align, Kind::Stack, 0);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                self.set(st, *d, Val::I(a));
            }
            Ins::Load { d, ty, p } => { let pv = self.op(st, p); let a = self.concretize(st, &pv, 64)?; let r = self.load_ty(st, a, ty)?; self.set(st, *d, r); }
            Ins::Store { ty, v, p } => { let pv = self.op(st, p); let a = self.concretize(st, &pv, 64)?; let v = self.op(st, v); self.store_ty(st, a, ty, &v)?; self.next(st); }
            Ins::Bin { d, op, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = self.bin_any(op, ty, &x, &y)?;
                self.set(st, *d, r);
            }
            Ins::ICmp { d, pred, ty, a, b } => {
                let (Val::A(x), Val::A(y)) = (self.op(st, a), self.op(st, b)) else { return internal("vector compare") };
                let (op, swap, neg) = cop(pred);
                let bits = ty.elem(0).bits() as u16;
                let v = (0..x.len()).map(|i| if swap { self.cmpi(op, neg, bits, &y[i], &x[i]) } else { self.cmpi(op, neg, bits, &x[i], &y[i]) }).collect();
                self.set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::Cast { d, op, from, to, a } => { let x = self.op(st, a); let r = self.cast_any(op, from, to, &x)?; self.set(st, *d, r); }
            Ins::ExtractValue { d, a, idx, .. } => {
                let mut v = self.op(st, a);
                for i in idx { let Val::A(x) = &v else { return internal("extractvalue") }; v = x[*i].clone(); }
                self.set(st, *d, v);
            }
            Ins::InsertValue { d, a, v, idx, .. } => {
                let base = self.op(st, a);
                let v = self.op(st, v);
                fn ins(b: &Val, idx: &[usize], v: Val) -> Val {
                    if idx.is_empty() { return v; }
                    let Val::A(x) = b else { panic!("insertvalue") };
                    let mut x = (**x).clone();
                    x[idx[0]] = ins(&x[idx[0]], &idx[1..], v);
                    Val::A(Rc::new(x))
                }
                let r = ins(&base, idx, v);
                self.set(st, *d, r);
            }
            Ins::ExtractElement { d, a, i, .. } => {
                let iv = self.op(st, i);
                let k = self.concretize(st, &iv, 64)?;
                let Val::A(x) = self.op(st, a) else { return internal("extractelement") };
                let v = x[k as usize].clone();
                self.set(st, *d, v);
            }
            Ins::InsertElement { d, a, v, i, .. } => {
                let iv = self.op(st, i);
                let k = self.concretize(st, &iv, 64)?;
                let Val::A(x) = self.op(st, a) else { return internal("insertelement") };
                let mut x = (*x).clone();
                x[k as usize] = self.op(st, v);
                self.set(st, *d, Val::A(Rc::new(x)));
            }
            Ins::Shuffle { d, a, b, mask, .. } => {
                let (Val::A(x), Val::A(y), Val::A(m)) = (self.op(st, a), self.op(st, b), self.op(st, mask)) else { return internal("shuffle") };
                let n = x.len();
                let v = m.iter().map(|k| { let Val::I(k) = k else { panic!() }; let k = *k as usize; if k < n { x[k].clone() } else if k < 2 * n { y[k - n].clone() } else { x[0].clone() } }).collect();
                self.set(st, *d, Val::A(Rc::new(v)));
            }
            Ins::Freeze { d, a, .. } => { let v = self.op(st, a); self.set(st, *d, v); }
            Ins::Fence => self.next(st),
            Ins::FNeg { d, a, .. } => { let Val::F(x) = self.op(st, a) else { return internal("fneg") }; self.set(st, *d, Val::F(-x)); }
            Ins::CmpXchg { d, ty, p, c, n } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)?;
                let bits = ty.bits() as u16;
                let old = self.load_int(st, a, bits)?;
                let (c, n) = (self.op(st, c), self.op(st, n));
                let eq = self.cmpi(Op::Eq, false, bits, &old, &c);
                let b = self.cond(st, &eq)?;
                if b { self.store_int(st, a, bits, &n)?; }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(b as u64)])));
            }
            Ins::AtomicRmw { d, op, ty, p, v } => {
                let pv = self.op(st, p);
                let a = self.concretize(st, &pv, 64)?;
                let bits = ty.bits() as u16;
                let old = self.load_int(st, a, bits)?;
                let v = self.op(st, v);
                let n = match op.as_str() { "xchg" => v, "add" => self.bini(Op::Add, bits, &old, &v)?, "sub" => self.bini(Op::Sub, bits, &old, &v)?, "and" => self.bini(Op::And, bits, &old, &v)?, "or" => self.bini(Op::Or, bits, &old, &v)?, "xor" => self.bini(Op::Xor, bits, &old, &v)?, o => return internal(format!("atomicrmw {o}")) };
                self.store_int(st, a, bits, &n)?;
                self.set(st, *d, old);
            }
            Ins::Unreachable => return viol("ub", "unreachable code reached"),
            i => return internal(format!("instruction {:?}", i)),
        }
        Ok(())
    }
    fn bin_any(&mut self, op: &'static str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Some((_, et)), Val::A(xs), Val::A(ys)) = (ty.lanes(), x, y) {
            let mut out = vec![];
            for i in 0..xs.len() {
                out.push(match (bop(op), &et) { (Some(o), Ty::Int(b)) => self.bini(o, *b as u16, &xs[i], &ys[i])?, _ => self.bin_any(op, &et, &xs[i], &ys[i])? });
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let (Val::F(a), Val::F(b)) = (x, y) else { return internal(format!("operation {op} on {:?}", ty)) };
        let (a, b) = (*a, *b);
        let r = match op { "fadd" => a + b, "fsub" => a - b, "fmul" => a * b, "fdiv" => a / b, "frem" => a % b, _ => {
            let t = match op { "oeq" => a == b, "une" => a != b, "olt" => a < b, "ole" => a <= b, "ogt" => a > b, "oge" => a >= b, "one" => a < b || a > b, "uno" => a.is_nan() || b.is_nan(), "ord" => !(a.is_nan() || b.is_nan()), _ => return internal(format!("fcmp {op}")) };
            return Ok(Val::I(t as u64));
        } };
        Ok(Val::F(if *ty == Ty::Float { r as f32 as f64 } else { r }))
    }
    fn cast_any(&mut self, op: &'static str, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        if op == "bitcast" {
            // through a bit string
            let total = (from.size() * 8) as u16;
            if total > 128 { return self.bitcast_big(from, to, x); }
            let e = self.to_bits(from, x)?;
            let _ = total;
            return self.from_bits(to, e);
        }
        if let (Some((_, fe)), Some((_, te)), Val::A(xs)) = (from.lanes(), to.lanes(), x) {
            let mut out = vec![];
            for v in xs.iter() { out.push(match (&fe, &te) { (Ty::Int(a), Ty::Int(b)) => self.casti(op == "sext", *a as u16, *b as u16, v), _ => self.cast_any(op, &fe, &te, v)? }); }
            return Ok(Val::A(Rc::new(out)));
        }
        match (op, x) {
            ("uitofp", Val::I(v)) => Ok(Val::F(if *to == Ty::Float { *v as f32 as f64 } else { *v as f64 })),
            ("sitofp", Val::I(v)) => Ok(Val::F(sx(*v, from.bits() as u16) as f64)),
            ("fptoui", Val::F(f)) => Ok(Val::I(*f as u64 & m64(to.bits() as u16))),
            ("fptosi", Val::F(f)) => Ok(Val::I(*f as i64 as u64 & m64(to.bits() as u16))),
            ("fpext" | "fptrunc", Val::F(f)) => Ok(Val::F(if *to == Ty::Float { *f as f32 as f64 } else { *f })),
            _ => internal(format!("cast {op} {:?} -> {:?}", from, to)),
        }
    }
    fn bitcast_big(&mut self, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        let (Some((fnn, fe)), Some((tn, te)), Val::A(xs)) = (from.lanes(), to.lanes(), x) else { return internal("wide bitcast") };
        let (fb, tb) = (fe.bits() as u16, te.bits() as u16);
        let mut out = vec![];
        for i in 0..tn as u16 {
            let lo = i * tb;
            let e = if tb >= fb {
                let k = tb / fb;
                let mut acc = self.e(&xs[(lo / fb) as usize], fb);
                for j in 1..k { let h = self.e(&xs[(lo / fb + j) as usize], fb); acc = self.ctx.concat(h, acc); }
                acc
            } else { let w = self.e(&xs[(lo / fb) as usize], fb); self.ctx.extract(w, lo % fb, tb) };
            out.push(self.v(e));
        }
        let _ = fnn;
        Ok(Val::A(Rc::new(out)))
    }
    fn to_bits(&mut self, ty: &Ty, x: &Val) -> R<E> {
        Ok(match (ty, x) {
            (Ty::Int(_) | Ty::Ptr, _) => self.e(x, ty.bits() as u16),
            (Ty::Float, Val::F(f)) => self.ctx.konst(32, (*f as f32).to_bits() as u128),
            (Ty::Double, Val::F(f)) => self.ctx.konst(64, f.to_bits() as u128),
            (Ty::Vec(_, t), Val::A(xs)) => {
                let mut acc = self.to_bits(t, &xs[0])?;
                for v in xs[1..].iter() { let h = self.to_bits(t, v)?; acc = self.ctx.concat(h, acc); }
                acc
            }
            _ => return internal("to_bits"),
        })
    }
    fn from_bits(&mut self, ty: &Ty, e: E) -> R<Val> {
        Ok(match ty {
            Ty::Int(_) | Ty::Ptr => self.v(e),
            Ty::Float => match self.ctx.cv(e) { Some(k) => Val::F(f32::from_bits(k as u32) as f64), None => return internal("symbolic float") },
            Ty::Double => match self.ctx.cv(e) { Some(k) => Val::F(f64::from_bits(k as u64)), None => return internal("symbolic float") },
            Ty::Vec(n, t) => {
                let b = t.bits() as u16;
                let mut out = vec![];
                for i in 0..*n as u16 { let x = self.ctx.extract(e, i * b, b); out.push(self.from_bits(t, x)?); }
                Val::A(Rc::new(out))
            }
            _ => return internal("from_bits"),
        })
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &'static Callee, ret: &'static Ty, args: &'static [(Ty, Opd)], normal: Option<u32>, noret: bool) -> R<()> {
        let tid = match callee {
            Callee::Id(i) => *i,
            Callee::Indirect(o) => {
                let p = self.op(st, o);
                let a = self.concretize(st, &p, 64)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.fns.len() as u64 || a % 16 != 0 { return viol("memory", format!("call through an invalid function pointer {a:#x}")); }
                let n = self.fns[((a - FN_BASE) / 16) as usize].clone();
                self.tid(&n)
            }
            Callee::Asm(s, c) => {
                if s.contains("cpuid") {
                    let v = Self::zero(ret);
                    if let Some(d) = d { self.set(st, d, v); } else { self.next(st); }
                    return Ok(());
                }
                if s.is_empty() {
                    // compiler barrier; with a tied operand it returns its argument
                    let _ = c;
                    match (d, ret) {
                        (Some(d), Ty::Void) => { let _ = d; self.next(st) }
                        (Some(d), _) => { let v = args.first().map(|a| self.op(st, &a.1)).unwrap_or(Self::zero(ret)); self.set(st, d, v); }
                        _ => self.next(st),
                    }
                    return Ok(());
                }
                return internal(format!("inline asm {s}"));
            }
            Callee::Direct(_) => unreachable!(),
        };
        // fast path without cloning the target
        if let Target::Fun(f) = &self.targets[tid as usize] {
            let f: &'static Func = f;
            if noret { return viol("panic", demangle(&f.name)); }
            let mut regs = vec![Val::I(0); f.nregs as usize];
            for (i, (r, _)) in f.params.iter().enumerate() { regs[*r as usize] = self.op(st, &args[i].1); }
            st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: d, normal }));
            if st.frames.len() > 4000 { return viol("panic", "stack overflow"); }
            return Ok(());
        }
        match self.target(tid) {
            Target::Fun(f) => {
                if noret { return viol("panic", demangle(&f.name)); }
                let mut regs = vec![Val::I(0); f.nregs as usize];
                for (i, (r, _)) in f.params.iter().enumerate() { regs[*r as usize] = self.op(st, &args[i].1); }
                st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: d, normal }));
                Ok(())
            }
            Target::Panic(n) => viol("panic", n.to_string()),
            Target::Unsup(n) => if noret { viol("panic", n.to_string()) } else { internal(format!("call of external function {n}")) },
            Target::Bi(b, n) => {
                let vals: Vec<Val> = args.iter().map(|a| self.op(st, &a.1)).collect();
                let r = self.builtin(st, b, &n, ret, args, &vals)?;
                if let (Some(d), Some(v)) = (d, r) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; }
                match normal { Some(b) => self.jump(st, b), None => { self.next(st); Ok(()) } }
            }
            Target::Lazy(_) => unreachable!(),
        }
    }

    fn lanewise(&mut self, st: &mut State, b: Bi, n: &str, ret: &Ty, tys: &[(Ty, Opd)], vals: &[Val]) -> R<Option<Val>> {
        let (cnt, et) = ret.lanes().unwrap();
        let mut out = vec![];
        for i in 0..cnt as usize {
            let vs: Vec<Val> = vals.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
            let ts: Vec<(Ty, Opd)> = tys.iter().map(|(t, o)| (t.lanes().map(|x| x.1).unwrap_or(t.clone()), o.clone())).collect();
            out.push(self.builtin(st, b, n, &et, &ts, &vs)?.unwrap());
        }
        Ok(Some(Val::A(Rc::new(out))))
    }

    fn builtin(&mut self, st: &mut State, b: Bi, n: &str, ret: &Ty, tys: &[(Ty, Opd)], vals: &[Val]) -> R<Option<Val>> {
        if ret.lanes().is_some() && !matches!(b, Bi::Nop | Bi::NopRet0) { return self.lanewise(st, b, n, ret, tys, vals); }
        let bits = ret.bits() as u16;
        macro_rules! conc { ($i:expr) => {{ let v = vals[$i].clone(); self.concretize(st, &v, 64)? }}; }
        Ok(match b {
            Bi::SymBytes => {
                let a = conc!(0);
                let k = conc!(1);
                if k == 0 { return Ok(None); }
                let (base, off) = self.inb(st, a, k)?;
                let start = st.dom.len() as u32;
                let es: Vec<E> = (0..k as u32).map(|i| self.ctx.var(start + i)).collect();
                let seed = self.seed;
                let m = Rc::make_mut(&mut st.model);
                let d = Rc::make_mut(&mut st.dom);
                for i in 0..k { d.push([u64::MAX; 4]); m.push(b'a' + ((start as u64 + i + seed) % 26) as u8); }
                self.store_syms(st, base, off, &es)?;
                None
            }
            Bi::SymParam => { let i = conc!(0) as usize; Some(Val::I(self.params.get(i).copied().unwrap_or(0))) }
            Bi::SymHash(alg) => {
                let (a, p) = (conc!(0), conc!(1));
                let (ns, nb) = crate::hash::ALGS[alg as usize];
                let mut ins = self.bytes_at(st, a, ns as u64)?;
                ins.extend(self.bytes_at(st, p, nb as u64)?);
                self.st.hash_apps += 1;
                let ie: Vec<E> = ins.iter().map(|b| self.bytes_e(b)).collect();
                let (base, off) = self.inb(st, a, ns as u64)?;
                let vals: Option<Vec<u8>> = ie.iter().map(|&e| self.ctx.cv(e).map(|x| x as u8)).collect();
                if let Some(v) = vals {
                    let out = crate::hash::compress(alg as usize, &v[..ns], &v[ns..]);
                    let outs: Vec<E> = out.iter().map(|&x| self.ctx.konst(8, x as u128)).collect();
                    self.store_syms(st, base, off, &outs)?;
                    if st.apps.len() < 600 { Rc::make_mut(&mut st.apps).push(App { alg, ins: Rc::new(ie), outs: Rc::new(outs), first: None }); }
                    return Ok(None);
                }
                if let Some(x) = st.apps.clone().iter().find(|x| x.alg == alg && *x.ins == ie) { let o = x.outs.clone(); self.store_syms(st, base, off, &o)?; return Ok(None); }
                self.st.hash_sym += 1;
                let m = st.model.clone();
                let mut memo = HashMap::new();
                let v: Vec<u8> = ie.iter().map(|&e| self.ctx.eval(e, &|i| m[i as usize], &mut memo) as u8).collect();
                let out = crate::hash::compress(alg as usize, &v[..ns], &v[ns..]);
                let start = st.dom.len() as u32;
                let outs: Vec<E> = (0..ns as u32).map(|i| self.ctx.var(start + i)).collect();
                { let m = Rc::make_mut(&mut st.model); let d = Rc::make_mut(&mut st.dom); for x in out { d.push([u64::MAX; 4]); m.push(x); } }
                self.model_ids += 1;
                st.model_id = self.model_ids;
                Rc::make_mut(&mut st.hvars).extend(start..start + ns as u32);
                self.store_syms(st, base, off, &outs)?;
                Rc::make_mut(&mut st.apps).push(App { alg, ins: Rc::new(ie), outs: Rc::new(outs), first: Some(start) });
                None
            }
            Bi::SymAssume => {
                let c = self.cmpi(Op::Eq, true, 64, &vals[0], &Val::I(0));
                if !self.cond(st, &c)? { return Err(Stop::Assumed); }
                None
            }
            Bi::SymConc => Some(Val::I(conc!(0))),
            Bi::SymCheck => {
                let id = conc!(1);
                // assertions of other properties do not restrict what is explored
                if id >= 100 && self.only.as_ref().map_or(false, |o| !o.contains(&id)) { return Ok(None); }
                self.st.checks += 1;
                let c = self.cmpi(Op::Eq, true, 64, &vals[0], &Val::I(0));
                match c {
                    Val::I(1) => {}
                    Val::I(_) => self.report(st, "check", &format!("{id}")),
                    Val::S(e) => {
                        self.st.checks_sym += 1;
                        if st.facts.get(&e) == Some(&true) { self.st.checks_proved += 1; return Ok(None); }
                        let ne = self.ctx.not(e);
                        match self.solve(st, ne)? {
                            None => { self.st.checks_proved += 1; }
                            Some(m) => {
                                let mut k = st.clone();
                                k.model = m;
                                self.model_ids += 1;
                                k.model_id = self.model_ids;
                                self.assume(&mut k, ne, true);
                                self.report(&k, "check", &format!("{id}"));
                                // continue with the inputs that satisfy it
                                if self.feasible(st, e)?.is_none() { return Err(Stop::Assumed); }
                                if !self.decide(st, e)? { return Err(Stop::Assumed); }
                            }
                        }
                    }
                    _ => return internal("check"),
                }
                None
            }
            Bi::SymObs => { let t = conc!(0); Rc::make_mut(&mut st.obs).push(Ob::Val(t, vals[1].clone())); None }
            Bi::SymObsBytes => {
                let (t, a, k) = (conc!(0), conc!(1), conc!(2));
                let bs = self.bytes_at(st, a, k)?;
                Rc::make_mut(&mut st.obs).push(Ob::Bytes(t, Rc::new(bs)));
                None
            }
            Bi::SymCover => { let k = conc!(0); if !st.covers.contains(&k) { Rc::make_mut(&mut st.covers).insert(k); } None }
            Bi::Memcpy => {
                let k = conc!(2);
                let (d, s) = (conc!(0), conc!(1));
                self.copy(st, d, s, k)?;
                Some(Val::I(d))
            }
            Bi::Memset => {
                let k = conc!(2);
                let d = conc!(0);
                if k > 0 {
                    let (base, off) = self.inb(st, d, k)?;
                    let byte = match &vals[1] { Val::I(x) => Val::I(x & 255), Val::S(e) => { let x = self.ctx.extract(*e, 0, 8); self.v(x) } _ => return internal("memset") };
                    match byte {
                        Val::I(x) => { let o = self.wobj(st, base)?; o.data[off..off + k as usize].fill(x as u8); if !o.sym.is_empty() { o.sym[off..off + k as usize].fill(0); } }
                        Val::S(e) => self.store_syms(st, base, off, &vec![e; k as usize])?,
                        _ => {}
                    }
                }
                Some(Val::I(d))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let k = conc!(2);
                if k == 0 { return Ok(Some(Val::I(0))); }
                let (a, c) = (conc!(0), conc!(1));
                let (x, y) = (self.bytes_at(st, a, k)?, self.bytes_at(st, c, k)?);
                if b == Bi::Bcmp {
                    let mut acc = self.ctx.konst(1, 1);
                    for i in 0..x.len() { let (p, q) = (self.bytes_e(&x[i]), self.bytes_e(&y[i])); let r = self.ctx.cmp(Op::Eq, p, q); acc = self.ctx.bin(Op::And, acc, r); }
                    let ne = self.ctx.not(acc);
                    let r = self.ctx.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut acc = self.ctx.konst(32, 0);
                    for i in (0..x.len()).rev() {
                        let (p, q) = (self.bytes_e(&x[i]), self.bytes_e(&y[i]));
                        let eq = self.ctx.cmp(Op::Eq, p, q);
                        let lt = self.ctx.cmp(Op::Ult, p, q);
                        let (m1, p1) = (self.ctx.konst(32, u32::MAX as u128), self.ctx.konst(32, 1));
                        let s = self.ctx.ite(lt, m1, p1);
                        acc = self.ctx.ite(eq, acc, s);
                    }
                    Some(self.v(acc))
                }
            }
            Bi::Strlen => {
                let a = conc!(0);
                let mut k = 0;
                loop {
                    let v = self.load_int(st, a + k, 8)?;
                    let z = self.cmpi(Op::Eq, false, 8, &v, &Val::I(0));
                    if self.cond(st, &z)? { break; }
                    k += 1;
                }
                Some(Val::I(k))
            }
            Bi::Memchr => {
                let (a, c, k) = (conc!(0), vals[1].clone(), conc!(2));
                let c = match c { Val::I(x) => Val::I(x & 255), Val::S(e) => { let x = self.ctx.extract(e, 0, 8); self.v(x) } _ => return internal("memchr") };
                for i in 0..k {
                    let v = self.load_int(st, a + i, 8)?;
                    let z = self.cmpi(Op::Eq, false, 8, &v, &c);
                    if self.cond(st, &z)? { return Ok(Some(Val::I(a + i))); }
                }
                Some(Val::I(0))
            }
            Bi::RAlloc | Bi::RAllocZ => {
                let (s, al) = (conc!(0), conc!(1));
                if s > 1 << 26 { return internal("huge allocation"); }
                Some(Val::I(self.alloc(st, s, al, Kind::Heap, if b == Bi::RAlloc { 0xa5 } else { 0 })))
            }
            Bi::Malloc => { let s = conc!(0); Some(Val::I(self.alloc(st, s, 16, Kind::Heap, 0xa5))) }
            Bi::Calloc => { let s = conc!(0) * conc!(1); Some(Val::I(self.alloc(st, s, 16, Kind::Heap, 0))) }
            Bi::Memalign => { let (al, s) = (conc!(0), conc!(1)); Some(Val::I(self.alloc(st, s, al, Kind::Heap, 0xa5))) }
            Bi::PMemalign => { let (p, al, s) = (conc!(0), conc!(1), conc!(2)); let a = self.alloc(st, s, al, Kind::Heap, 0xa5); self.store_int(st, p, 64, &Val::I(a))?; Some(Val::I(0)) }
            Bi::RRealloc | Bi::Realloc => {
                let p = conc!(0);
                let (al, s) = if b == Bi::Realloc { (16, conc!(1)) } else { (conc!(2), conc!(3)) };
                if s > 1 << 26 { return internal("huge allocation"); }
                if p == 0 { return Ok(Some(Val::I(self.alloc(st, s, al, Kind::Heap, 0xa5)))); }
                let Some(old) = st.mem.get(&p) else { return viol("memory", "realloc of a dead object") };
                let k = (old.data.len() as u64).min(s);
                let a = self.alloc(st, s, al, Kind::Heap, 0xa5);
                self.copy(st, a, p, k)?;
                self.free(st, p)?;
                Some(Val::I(a))
            }
            Bi::Free => { let p = conc!(0); if p != 0 { self.free(st, p)?; } None }
            Bi::RDealloc => { let p = conc!(0); self.free(st, p)?; None }
            Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax => {
                let op = if matches!(b, Bi::UMin | Bi::UMax) { Op::Ult } else { Op::Slt };
                let c = self.cmpi(op, false, bits, &vals[0], &vals[1]);
                let (x, y) = if matches!(b, Bi::UMin | Bi::SMin) { (0, 1) } else { (1, 0) };
                Some(match c { Val::I(1) => vals[x].clone(), Val::I(_) => vals[y].clone(), Val::S(e) => { let (p, q) = (self.e(&vals[x], bits), self.e(&vals[y], bits)); let r = self.ctx.ite(e, p, q); self.v(r) } _ => return internal("min") })
            }
            Bi::Abs => {
                let x = self.e(&vals[0], bits);
                let z = self.ctx.konst(bits, 0);
                let c = self.ctx.cmp(Op::Slt, x, z);
                let ng = self.ctx.bin(Op::Sub, z, x);
                let r = self.ctx.ite(c, ng, x);
                Some(self.v(r))
            }
            Bi::Ucmp(signed) => {
                let ob = tys[0].0.bits() as u16;
                let (x, y) = (self.e(&vals[0], ob), self.e(&vals[1], ob));
                let lt = self.ctx.cmp(if signed { Op::Slt } else { Op::Ult }, x, y);
                let eq = self.ctx.cmp(Op::Eq, x, y);
                let (m1, z, p1) = (self.ctx.konst(bits, mask(bits)), self.ctx.konst(bits, 0), self.ctx.konst(bits, 1));
                let i = self.ctx.ite(eq, z, p1);
                let r = self.ctx.ite(lt, m1, i);
                Some(self.v(r))
            }
            Bi::Bswap => {
                let x = self.e(&vals[0], bits);
                let mut acc = self.ctx.extract(x, 0, 8);
                for i in 1..bits / 8 { let p = self.ctx.extract(x, 8 * i, 8); acc = self.ctx.concat(acc, p); }
                Some(self.v(acc))
            }
            Bi::BitRev => {
                let x = self.e(&vals[0], bits);
                let mut acc = self.ctx.extract(x, 0, 1);
                for i in 1..bits { let p = self.ctx.extract(x, i, 1); acc = self.ctx.concat(acc, p); }
                Some(self.v(acc))
            }
            Bi::Ctlz | Bi::Cttz | Bi::Ctpop => {
                if let Val::I(x) = &vals[0] {
                    let x = *x;
                    return Ok(Some(Val::I(match b { Bi::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - bits as u64).min(bits as u64), Bi::Cttz => (x.trailing_zeros() as u64).min(bits as u64), _ => x.count_ones() as u64 })));
                }
                let x = self.e(&vals[0], bits);
                if b == Bi::Ctpop {
                    let mut acc = self.ctx.konst(bits, 0);
                    for i in 0..bits { let p = self.ctx.extract(x, i, 1); let z = self.ctx.zext(p, bits); acc = self.ctx.bin(Op::Add, acc, z); }
                    return Ok(Some(self.v(acc)));
                }
                let mut acc = self.ctx.konst(bits, bits as u128);
                // the last assignment wins: for cttz go from the top bit down
                for k in 0..bits {
                    let i = if b == Bi::Cttz { bits - 1 - k } else { k };
                    let p = self.ctx.extract(x, i, 1);
                    let v = self.ctx.konst(bits, (if b == Bi::Cttz { i } else { bits - 1 - i }) as u128);
                    acc = self.ctx.ite(p, v, acc);
                }
                Some(self.v(acc))
            }
            Bi::Fshl | Bi::Fshr => {
                let (x, y) = (self.e(&vals[0], bits), self.e(&vals[1], bits));
                let Val::I(k) = vals[2] else { return internal("symbolic funnel shift") };
                let k = (k % bits as u64) as u16;
                let r = if b == Bi::Fshl {
                    if k == 0 { x } else { let h = self.ctx.extract(x, 0, bits - k); let l = self.ctx.extract(y, bits - k, k); self.ctx.concat(h, l) }
                } else if k == 0 { y } else { let h = self.ctx.extract(x, 0, k); let l = self.ctx.extract(y, k, bits - k); self.ctx.concat(h, l) };
                Some(self.v(r))
            }
            Bi::Ov(o, signed) => {
                let Ty::Struct(f, _) = ret else { return internal("overflow type") };
                let w = f[0].bits() as u16;
                let op = match o { '+' => Op::Add, '-' => Op::Sub, _ => Op::Mul };
                let r = self.bini(op, w, &vals[0], &vals[1])?;
                let (x, y) = (self.e(&vals[0], w), self.e(&vals[1], w));
                let ov = if !signed {
                    match o {
                        '+' => if self.ctx.umax(x).checked_add(self.ctx.umax(y)).map_or(false, |s| s <= mask(w)) { Val::I(0) } else { let s = self.e(&r, w); let c = self.ctx.cmp(Op::Ult, s, x); self.v(c) },
                        '-' => { let c = self.ctx.cmp(Op::Ult, x, y); self.v(c) }
                        _ => if self.ctx.umax(x).checked_mul(self.ctx.umax(y)).map_or(false, |s| s <= mask(w)) { Val::I(0) } else {
                            if w > 64 { return internal("wide umulo"); }
                            let (a, c) = (self.ctx.zext(x, 2 * w), self.ctx.zext(y, 2 * w));
                            let p = self.ctx.bin(Op::Mul, a, c);
                            let h = self.ctx.extract(p, w, w);
                            let z = self.ctx.konst(w, 0);
                            let q = self.ctx.cmp(Op::Eq, h, z);
                            let q = self.ctx.not(q);
                            self.v(q)
                        },
                    }
                } else {
                    if w > 64 { return internal("wide signed overflow"); }
                    let ww = if o == '*' { 2 * w } else { w + 1 };
                    let (a, c) = (self.ctx.sext(x, ww), self.ctx.sext(y, ww));
                    let p = self.ctx.bin(op, a, c);
                    let l = self.e(&r, w);
                    let l = self.ctx.sext(l, ww);
                    let q = self.ctx.cmp(Op::Eq, p, l);
                    let q = self.ctx.not(q);
                    self.v(q)
                };
                Some(Val::A(Rc::new(vec![r, ov])))
            }
            Bi::Sat(o, signed) => {
                let op = if o == '+' { Op::Add } else { Op::Sub };
                if signed {
                    if bits > 63 { return internal("wide signed saturation"); }
                    let w = bits + 1;
                    let (x, y) = (self.e(&vals[0], bits), self.e(&vals[1], bits));
                    let (x, y) = (self.ctx.sext(x, w), self.ctx.sext(y, w));
                    let r = self.ctx.bin(op, x, y);
                    let hi = mask(bits - 1);
                    let lo = mask(w) ^ hi; // sign extended minimum
                    let (kh, kl) = (self.ctx.konst(w, hi), self.ctx.konst(w, lo));
                    let over = self.ctx.cmp(Op::Slt, kh, r);
                    let under = self.ctx.cmp(Op::Slt, r, kl);
                    let r = self.ctx.ite(over, kh, r);
                    let r = self.ctx.ite(under, kl, r);
                    let r = self.ctx.extract(r, 0, bits);
                    return Ok(Some(self.v(r)));
                }
                let r = self.bini(op, bits, &vals[0], &vals[1])?;
                let (x, y) = (self.e(&vals[0], bits), self.e(&vals[1], bits));
                let re = self.e(&r, bits);
                let (c, k) = if o == '+' { (self.ctx.cmp(Op::Ult, re, x), self.ctx.konst(bits, mask(bits))) } else { (self.ctx.cmp(Op::Ult, x, y), self.ctx.konst(bits, 0)) };
                let q = self.ctx.ite(c, k, re);
                Some(self.v(q))
            }
            Bi::Assume => { if let Val::I(0) = vals[0] { return viol("ub", "assumption of the compiler violated"); } None }
            Bi::Nop => None,
            Bi::NopRet0 => Some(Self::zero(ret)),
            Bi::Expect => Some(vals[0].clone()),
            Bi::IsConst => Some(Val::I(0)),
            Bi::Trap => return viol("panic", n.to_string()),
            Bi::LoadRel => {
                let p = conc!(0);
                let off = self.casti(true, tys[1].0.bits() as u16, 64, &vals[1]);
                let a = self.bini(Op::Add, 64, &Val::I(p), &off)?;
                let v = match a { Val::I(a) => self.load_int(st, a, 32)?, Val::S(e) => self.load_sym(st, e, 32)?, _ => return internal("load.relative") };
                let x = self.casti(true, 32, 64, &v);
                Some(self.bini(Op::Add, 64, &Val::I(p), &x)?)
            }
            Bi::Tls => Some(vals[0].clone()),
            Bi::Errno => return internal("errno"),
            Bi::Getrandom => return internal("getrandom"),
        })
    }

    // ---- driver -----------------------------------------------------------------
    pub fn obs_text(&mut self, st: &State) -> String {
        let mut s = String::new();
        for o in st.obs.clone().iter() {
            match o {
                Ob::Val(t, v) => { let x = self.evalv(st, v); s.push_str(&format!("{t}={x};")); }
                Ob::Bytes(t, b) => {
                    s.push_str(&format!("{t}:"));
                    for (d, e) in b.iter() { let x = if *e != 0 { self.eval(st, *e) as u8 } else { *d }; s.push_str(&format!("{x:02x}")); }
                    s.push(';');
                }
            }
        }
        s
    }
    fn report(&mut self, st: &State, kind: &str, msg: &str) {
        let stack = self.stack(st);
        let key = format!("{kind}|{msg}|{}", stack.first().cloned().unwrap_or_default());
        let same = self.violations.iter().filter(|v| format!("{}|{}|{}", v.kind, v.msg, v.stack.first().cloned().unwrap_or_default()) == key).count();
        if same >= 3 || self.violations.len() >= 60 { return; }
        match self.realize(st) {
            Ok(Some(m)) => self.violations.push(Violation { kind: kind.into(), msg: msg.into(), input: Self::input_of(st, &m), stack }),
            Ok(None) => self.st.refuted += 1,
            Err(Stop::Internal(x)) => *self.internal.entry(format!("{x}: {kind} {msg}")).or_insert(0) += 1,
            Err(_) => {}
        }
    }
    pub fn run_one(&mut self, mut st: State) {
        let stop = loop {
            if let Err(s) = self.step(&mut st) { break s; }
            if st.instrs > self.limit { break Stop::Viol("hang".into(), format!("more than {} instructions on one path", self.limit)); }
        };
        self.st.max_path_instrs = self.st.max_path_instrs.max(st.instrs);
        self.st.max_depth = self.st.max_depth.max(st.depth);
        match stop {
            Stop::Done => {
                self.st.paths += 1;
                for c in st.covers.iter() { *self.covers.entry(*c).or_insert(0) += 1; }
                // reservoir-like: keep early paths, then sparser ones
                if self.samples.len() < self.max_samples || self.st.paths.is_power_of_two() {
                    let m = if st.apps.is_empty() { Some((*st.model).clone()) } else { let m = st.model.clone(); self.real(&st, &m, &[]) };
                    if let Some(m) = m {
                        st.model = Rc::new(m);
                        self.model_ids += 1;
                        st.model_id = self.model_ids;
                        let t = self.obs_text(&st);
                        self.samples.push((Self::input_of(&st, &st.model), t));
                    } else { self.st.abstract_paths += 1; }
                }
            }
            Stop::Assumed => self.st.assumed += 1,
            Stop::Viol(k, m) => { self.st.paths += 1; self.report(&st, &k, &m); }
            Stop::Internal(m) => {
                let l = self.stack(&st);
                let w = l.iter().take(4).cloned().collect::<Vec<_>>().join(" < ");
                *self.internal.entry(format!("{m} at {w}")).or_insert(0) += 1;
            }
        }
    }
    pub fn run_until(&mut self, deadline: Instant) -> bool {
        while let Some(s) = self.work.pop() {
            self.run_one(s);
            if Instant::now() > deadline { return self.work.is_empty(); }
        }
        true
    }
}

fn bop(op: &str) -> Option<Op> {
    Some(match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, _ => return None })
}
/// predicate -> (operator, swap operands, negate)
fn cop(p: &str) -> (Op, bool, bool) {
    match p { "eq" => (Op::Eq, false, false), "ne" => (Op::Eq, false, true), "ult" => (Op::Ult, false, false), "ule" => (Op::Ule, false, false), "ugt" => (Op::Ult, true, false), "uge" => (Op::Ule, true, false), "slt" => (Op::Slt, false, false), "sle" => (Op::Sle, false, false), "sgt" => (Op::Slt, true, false), "sge" => (Op::Sle, true, false), _ => panic!("predicate {p}") }
}
fn is_panic(d: &str) -> bool {
    const P: &[&str] = &["core::panicking::", "std::panicking::", "rust_begin_unwind", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "alloc::raw_vec::capacity_overflow",
        "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail", "core::slice::copy_from_slice", "core::cell::panic_", "std::alloc::", "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail"];
    P.iter().any(|p| d.starts_with(p)) && !d.contains("panicking::panic_count") || matches!(d, "abort" | "_exit" | "exit" | "_Unwind_Resume")
}
fn builtin_of(n: &str) -> Option<Bi> {
    Some(match n {
        "__sym_bytes" => Bi::SymBytes,
        "__sym_param" => Bi::SymParam,
        "__sym_sha1" => Bi::SymHash(0),
        "__sym_sha256" => Bi::SymHash(1),
        "__sym_sha512" => Bi::SymHash(2),
        "__sym_assume" => Bi::SymAssume,
        "__sym_check" => Bi::SymCheck,
        "__sym_concretize" => Bi::SymConc,
        "__sym_observe" => Bi::SymObs,
        "__sym_observe_bytes" => Bi::SymObsBytes,
        "__sym_cover" => Bi::SymCover,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "strlen" => Bi::Strlen,
        "memchr" => Bi::Memchr,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "aligned_alloc" => Bi::Memalign,
        "posix_memalign" => Bi::PMemalign,
        "__rust_alloc" | "__rdl_alloc" => Bi::RAlloc,
        "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => Bi::RAllocZ,
        "__rust_dealloc" | "__rdl_dealloc" => Bi::RDealloc,
        "__rust_realloc" | "__rdl_realloc" => Bi::RRealloc,
        "__errno_location" => Bi::Errno,
        "getrandom" => Bi::Getrandom,
        _ => {
            let r = n.strip_prefix("llvm.")?;
            let b = |p: &str| r.starts_with(p);
            if b("memcpy") || b("memmove") { Bi::Memcpy }
            else if b("memset") { Bi::Memset }
            else if b("umin") { Bi::UMin } else if b("umax") { Bi::UMax } else if b("smin") { Bi::SMin } else if b("smax") { Bi::SMax }
            else if b("abs.") { Bi::Abs } else if b("bswap") { Bi::Bswap } else if b("bitreverse") { Bi::BitRev }
            else if b("ctlz") { Bi::Ctlz } else if b("cttz") { Bi::Cttz } else if b("ctpop") { Bi::Ctpop }
            else if b("fshl") { Bi::Fshl } else if b("fshr") { Bi::Fshr }
            else if b("ucmp") { Bi::Ucmp(false) } else if b("scmp") { Bi::Ucmp(true) }
            else if b("uadd.with") { Bi::Ov('+', false) } else if b("usub.with") { Bi::Ov('-', false) } else if b("umul.with") { Bi::Ov('*', false) }
            else if b("sadd.with") { Bi::Ov('+', true) } else if b("ssub.with") { Bi::Ov('-', true) } else if b("smul.with") { Bi::Ov('*', true) }
            else if b("uadd.sat") { Bi::Sat('+', false) } else if b("usub.sat") { Bi::Sat('-', false) } else if b("sadd.sat") { Bi::Sat('+', true) } else if b("ssub.sat") { Bi::Sat('-', true) }
            else if b("assume") { Bi::Assume }
            else if b("lifetime") || b("dbg") || b("experimental.noalias") || b("prefetch") || b("x86.sse2.pause") || b("invariant.end") { Bi::Nop }
            else if b("invariant.start") { Bi::NopRet0 }
            else if b("expect") { Bi::Expect }
            else if b("is.constant") { Bi::IsConst }
            else if b("trap") || b("ubsantrap") || b("debugtrap") { Bi::Trap }
            else if b("load.relative") { Bi::LoadRel }
            else if b("threadlocal.address") { Bi::Tls }
            else { return None }
        }
    })
}

pub type State2 = Rc<Vec<u8>>;
