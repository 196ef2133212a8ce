//! Minimal FFI to libz3 and the translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
}

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    solver: P,
    bv: HashMap<E, usize>,
    bl: HashMap<E, usize>,
    sorts: HashMap<u16, usize>,
    vars: HashMap<u32, usize>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, solver);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, solver, p);
            Z3 { c, solver, bv: HashMap::new(), bl: HashMap::new(), sorts: HashMap::new(), vars: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: 0.0 }
        }
    }
    fn sort(&mut self, bits: u16) -> P {
        let c = self.c;
        *self.sorts.entry(bits).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, bits as c_uint) as usize }) as P
    }
    fn var(&mut self, i: u32) -> P {
        if let Some(&v) = self.vars.get(&i) { return v as P; }
        let s = self.sort(8);
        let n = CString::new(format!("v{i}")).unwrap();
        let v = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) };
        self.vars.insert(i, v as usize);
        v
    }
    /// boolean view of a 1-bit expression
    fn b(&mut self, ctx: &Ctx, e: E) -> P {
        if let Some(&v) = self.bl.get(&e) { return v as P; }
        let n = ctx.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And | Op::Or => { let x = [self.b(ctx, n.a), self.b(ctx, n.b)]; if n.op == Op::And { Z3_mk_and(c, 2, x.as_ptr()) } else { Z3_mk_or(c, 2, x.as_ptr()) } }
                Op::Xor => if ctx.cv(n.b) == Some(1) { let x = self.b(ctx, n.a); Z3_mk_not(c, x) } else { let (x, y) = (self.b(ctx, n.a), self.b(ctx, n.b)); Z3_mk_xor(c, x, y) },
                Op::Eq => if ctx.bits(n.a) == 1 { let (x, y) = (self.b(ctx, n.a), self.b(ctx, n.b)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b)); Z3_mk_eq(c, x, y) },
                Op::Ult => { let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b)); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b)); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b)); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b)); Z3_mk_bvsle(c, x, y) }
                Op::Ite => { let (x, y, z) = (self.b(ctx, n.a), self.b(ctx, n.b), self.b(ctx, n.c)); Z3_mk_ite(c, x, y, z) }
                _ => { let x = self.v(ctx, e); let s = self.sort(1); Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s)) }
            }
        };
        self.bl.insert(e, r as usize);
        r
    }
    fn v(&mut self, ctx: &Ctx, e: E) -> P {
        if let Some(&v) = self.bv.get(&e) { return v as P; }
        // children first, iteratively, so that deep chains do not overflow the stack
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.bv.contains_key(&x) { st.pop(); continue; }
            let n = ctx.n(x);
            let kids: Vec<E> = match n.op {
                Op::Const | Op::Var | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => vec![],
                Op::Ite => vec![n.b, n.c],
                Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
                _ => vec![n.a, n.b],
            };
            let todo: Vec<E> = kids.into_iter().filter(|k| !self.bv.contains_key(k)).collect();
            if todo.is_empty() {
                let r = self.v1(ctx, x);
                self.bv.insert(x, r as usize);
                st.pop();
            } else {
                st.extend(todo);
            }
        }
        self.bv[&e] as P
    }
    fn v1(&mut self, ctx: &Ctx, e: E) -> P {
        let n = ctx.n(e);
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => {
                    if n.bits <= 64 { let s = self.sort(n.bits); Z3_mk_unsigned_int64(c, n.k as u64, s) } else {
                        let (s1, s2) = (self.sort(n.bits - 64), self.sort(64));
                        let h = Z3_mk_unsigned_int64(c, (n.k >> 64) as u64, s1);
                        let l = Z3_mk_unsigned_int64(c, n.k as u64, s2);
                        Z3_mk_concat(c, h, l)
                    }
                }
                Op::Var => self.var(n.k as u32),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.b(ctx, e);
                    let s = self.sort(1);
                    Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Ite => { let x = self.b(ctx, n.a); let (y, z) = (self.v(ctx, n.b), self.v(ctx, n.c)); Z3_mk_ite(c, x, y, z) }
                Op::ZExt => { let x = self.v(ctx, n.a); Z3_mk_zero_ext(c, (n.bits - ctx.bits(n.a)) as c_uint, x) }
                Op::SExt => { let x = self.v(ctx, n.a); Z3_mk_sign_ext(c, (n.bits - ctx.bits(n.a)) as c_uint, x) }
                Op::Extract => { let x = self.v(ctx, n.a); Z3_mk_extract(c, (n.k as u16 + n.bits - 1) as c_uint, n.k as c_uint, x) }
                _ => {
                    let (x, y) = (self.v(ctx, n.a), self.v(ctx, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
    /// Is the conjunction satisfiable? The model covers `vars`.
    pub fn check(&mut self, ctx: &Ctx, cs: &[E], vars: &[u32]) -> Res {
        let t = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.c, self.solver);
            for &e in cs { let a = self.b(ctx, e); Z3_solver_assert(self.c, self.solver, a); }
            match Z3_solver_check(self.c, self.solver) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.solver);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in vars {
                        let a = self.var(v);
                        let mut r: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.c, m, a, true, &mut r) && Z3_get_numeral_uint64(self.c, r, &mut x) { out.push((v, x as u8)); }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            }
        };
        self.time += t.elapsed().as_secs_f64();
        r
    }
}
