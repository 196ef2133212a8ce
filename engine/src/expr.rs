//! Hash-consed bit-vector expressions (width 1..=128) with a local simplifier.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub bits: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup { None, One(u32), Many }

pub struct Ctx {
    pub nodes: Vec<Node>,
    sup: Vec<Sup>,
    mx: Vec<u128>,
    cons: HashMap<Node, E>,
    tables: HashMap<E, [u64; 4]>,
    supsets: HashMap<E, Rc<Vec<u32>>>,
}

pub fn mask(bits: u16) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }
pub fn sext(v: u128, bits: u16) -> i128 { let s = 128 - bits as u32; ((v << s) as i128) >> s }

pub fn fold(op: Op, bits: u16, x: u128, y: u128) -> u128 {
    let m = mask(bits);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, bits), sext(y, bits)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sext(x, bits), sext(y, bits)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= bits as u128 { 0 } else { x << y },
        Op::LShr => if y >= bits as u128 { 0 } else { x >> y },
        Op::AShr => { let a = sext(x, bits); (if y >= bits as u128 { a >> 127 } else { a >> y }) as u128 }
        _ => unreachable!(),
    };
    r & m
}
pub fn foldcmp(op: Op, bits: u16, x: u128, y: u128) -> bool {
    match op {
        Op::Eq => x == y,
        Op::Ult => x < y,
        Op::Ule => x <= y,
        Op::Slt => sext(x, bits) < sext(y, bits),
        Op::Sle => sext(x, bits) <= sext(y, bits),
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx { nodes: vec![], sup: vec![], mx: vec![], cons: HashMap::new(), tables: HashMap::new(), supsets: HashMap::new() }
    }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn bits(&self, e: E) -> u16 { self.nodes[e as usize].bits }
    pub fn sup(&self, e: E) -> Sup { self.sup[e as usize] }
    pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.cons.get(&n) { return e; }
        let s = match n.op {
            Op::Const => Sup::None,
            Op::Var => Sup::One(n.k as u32),
            _ => {
                let mut s = Sup::None;
                let kids: &[E] = match n.op { Op::Ite => &[n.a, n.b, n.c], Op::ZExt | Op::SExt | Op::Extract => &[n.a], _ => &[n.a, n.b] };
                for &k in kids {
                    s = match (s, self.sup[k as usize]) {
                        (Sup::None, t) => t,
                        (t, Sup::None) => t,
                        (Sup::One(x), Sup::One(y)) if x == y => Sup::One(x),
                        _ => Sup::Many,
                    };
                }
                s
            }
        };
        let e = self.nodes.len() as E;
        let mx = self.calc_umax(&n);
        self.mx.push(mx);
        self.nodes.push(n);
        self.sup.push(s);
        self.cons.insert(n, e);
        e
    }
    pub fn konst(&mut self, bits: u16, v: u128) -> E { self.intern(Node { op: Op::Const, bits, a: 0, b: 0, c: 0, k: v & mask(bits) }) }
    pub fn var(&mut self, idx: u32) -> E { self.intern(Node { op: Op::Var, bits: 8, a: 0, b: 0, c: 0, k: idx as u128 }) }
    fn mk(&mut self, op: Op, bits: u16, a: E, b: E) -> E { self.intern(Node { op, bits, a, b, c: 0, k: 0 }) }

    /// upper bound of the unsigned value
    pub fn umax(&self, e: E) -> u128 { self.mx[e as usize] }
    fn calc_umax(&self, n: &Node) -> u128 {
        let m = mask(n.bits);
        match n.op {
            Op::Const => n.k,
            Op::Var => 255,
            Op::ZExt => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::Or | Op::Xor => { let x = self.umax(n.a) | self.umax(n.b); mask(128 - x.leading_zeros() as u16).min(m) }
            Op::LShr => if let Some(k) = self.cv(n.b) { if k >= n.bits as u128 { 0 } else { self.umax(n.a) >> k } } else { self.umax(n.a) },
            Op::URem => if let Some(k) = self.cv(n.b) { if k == 0 { m } else { (k - 1).min(self.umax(n.a)) } } else { self.umax(n.a) },
            Op::UDiv => if let Some(k) = self.cv(n.b) { if k == 0 { m } else { self.umax(n.a) / k } } else { m },
            Op::Ite => self.umax(n.b).max(self.umax(n.c)),
            Op::Add => match self.umax(n.a).checked_add(self.umax(n.b)) { Some(s) if s <= m => s, _ => m },
            Op::Mul => match self.umax(n.a).checked_mul(self.umax(n.b)) { Some(s) if s <= m => s, _ => m },
            Op::Concat => { let lb = self.bits(n.b); (self.umax(n.a) << lb) | self.umax(n.b) | if self.umax(n.b) == 0 { 0 } else { mask(128 - self.umax(n.b).leading_zeros() as u16) } }
            _ => m,
        }
    }

    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.bits(e), 1);
        let n = self.n(e);
        match n.op {
            Op::Const => self.konst(1, 1 - n.k),
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            Op::Xor if self.cv(n.b) == Some(1) => n.a,
            _ => { let o = self.konst(1, 1); self.mk(Op::Xor, 1, e, o) }
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let bits = self.bits(a);
        debug_assert_eq!(bits, self.bits(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(bits, fold(op, bits, x, y)); }
        // canonical: constant on the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { return self.bin_n(op, b, a, bits); }
        self.bin_n(op, a, b, bits)
    }
    fn bin_n(&mut self, op: Op, a: E, b: E, bits: u16) -> E {
        let cb = self.cv(b);
        let m = mask(bits);
        let na = self.n(a);
        match (op, cb) {
            (Op::Add, Some(0)) | (Op::Sub, Some(0)) | (Op::Or, Some(0)) | (Op::Xor, Some(0)) | (Op::Shl, Some(0)) | (Op::LShr, Some(0)) | (Op::AShr, Some(0)) => return a,
            (Op::Mul, Some(1)) | (Op::UDiv, Some(1)) | (Op::SDiv, Some(1)) => return a,
            (Op::Mul, Some(0)) | (Op::And, Some(0)) | (Op::URem, Some(1)) => return self.konst(bits, 0),
            (Op::And, Some(k)) if k == m => return a,
            (Op::Or, Some(k)) if k == m => return b,
            (Op::Shl, Some(k)) | (Op::LShr, Some(k)) if k >= bits as u128 => return self.konst(bits, 0),
            (Op::Sub, Some(k)) => { let nk = self.konst(bits, k.wrapping_neg()); return self.bin(Op::Add, a, nk); }
            (Op::Mul, Some(k)) if k.is_power_of_two() && bits > 1 => { let s = self.konst(bits, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); }
            (Op::UDiv, Some(k)) if k.is_power_of_two() => { let s = self.konst(bits, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); }
            (Op::URem, Some(k)) if k.is_power_of_two() => { let s = self.konst(bits, k - 1); return self.bin(Op::And, a, s); }
            _ => {}
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(bits, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if bits == 1 {
            match (op, cb) {
                (Op::Xor, Some(1)) => return self.not(a),
                (Op::Add, _) => return self.bin(Op::Xor, a, b),
                _ => {}
            }
            if matches!(op, Op::And | Op::Or) {
                let nb = self.not(b);
                if nb == a { return self.konst(1, if op == Op::And { 0 } else { 1 }); }
            }
        }
        if let Some(k) = cb {
            // reassociate constants
            if op == na.op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor | Op::Mul) {
                if let Some(k2) = self.cv(na.b) { let kk = self.konst(bits, fold(op, bits, k, k2)); return self.bin(op, na.a, kk); }
            }
            if matches!(op, Op::Shl | Op::LShr) && na.op == op {
                if let Some(k2) = self.cv(na.b) { let kk = self.konst(bits, (k + k2).min(bits as u128)); return self.bin(op, na.a, kk); }
            }
            // ite with constant leaves
            if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                let t = self.bin(op, na.b, b);
                let f = self.bin(op, na.c, b);
                return self.ite(na.a, t, f);
            }
            match op {
                Op::And => {
                    if self.umax(a) <= k && (k + 1).is_power_of_two() { return a; }
                    // low mask => zext(extract)
                    if (k & (k + 1)) == 0 && k != 0 && k < m {
                        let w = 128 - k.leading_zeros() as u16;
                        let x = self.extract(a, 0, w);
                        return self.zext(x, bits);
                    }
                    if na.op == Op::ZExt {
                        let ib = self.bits(na.a);
                        let kk = self.konst(ib, k);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, bits);
                    }
                }
                Op::Or | Op::Xor => {
                    if na.op == Op::ZExt && k <= mask(self.bits(na.a)) {
                        let ib = self.bits(na.a);
                        let kk = self.konst(ib, k);
                        let x = self.bin(op, na.a, kk);
                        return self.zext(x, bits);
                    }
                }
                Op::LShr => {
                    // lshr x k  ==> zext(extract x [k..bits])
                    let x = self.extract(a, k as u16, bits - k as u16);
                    return self.zext(x, bits);
                }
                Op::Shl => {
                    let x = self.extract(a, 0, bits - k as u16);
                    let z = self.konst(k as u16, 0);
                    return self.concat(x, z);
                }
                Op::URem => { if self.umax(a) < k { return a; } }
                Op::UDiv => { if k != 0 && self.umax(a) < k { return self.konst(bits, 0); } }
                _ => {}
            }
        } else if op == Op::Or {
            // disjoint or => concat when aligned: concat(x,0_k) | zext(y) , width(y) <= k
            if let Some(e) = self.or_disjoint(a, b) { return e; }
            if let Some(e) = self.or_disjoint(b, a) { return e; }
        }
        if op == Op::Sub {
            // (x + k) - x , etc.
            if na.op == Op::Add && na.a == b { return na.b; }
            if na.op == Op::Add && na.b == b { return na.a; }
            let nb = self.n(b);
            if nb.op == Op::Add && nb.a == a { let z = self.konst(bits, 0); return self.bin(Op::Sub, z, nb.b); }
            // (x+k1)-(x+k2)
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                if let (Some(k1), Some(k2)) = (self.cv(na.b), self.cv(nb.b)) { return self.konst(bits, k1.wrapping_sub(k2)); }
            }
        }
        self.mk(op, bits, a, b)
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let na = self.n(a);
        if na.op == Op::Concat && self.cv(na.b) == Some(0) {
            let lb = self.bits(na.b);
            let hb = self.bits(na.a);
            let m = self.umax(b);
            if m <= mask(lb) {
                let lo = self.extract(b, 0, lb);
                return Some(self.concat(na.a, lo));
            }
            let nb = self.n(b);
            if nb.op == Op::Concat && self.bits(nb.b) == lb {
                let hi = self.bin(Op::Or, na.a, nb.a);
                return Some(self.concat(hi, nb.b));
            }
            let _ = hb;
        }
        None
    }

    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let bits = self.bits(a);
        debug_assert_eq!(bits, self.bits(b));
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(1, foldcmp(op, bits, x, y) as u128); }
        if a == b { return self.konst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128); }
        let m = mask(bits);
        match op {
            Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) { return self.cmp(Op::Eq, b, a); }
                let na = self.n(a);
                if let Some(k) = cb {
                    if k > self.umax(a) { return self.konst(1, 0); }
                    if bits == 1 { return if k == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Op::ZExt => { let ib = self.bits(na.a); let kk = self.konst(ib, k); return self.cmp(Op::Eq, na.a, kk); }
                        Op::SExt => { let ib = self.bits(na.a); let lo = k & mask(ib); return if (sext(lo, ib) as u128) & m == k { let kk = self.konst(ib, lo); self.cmp(Op::Eq, na.a, kk) } else { self.konst(1, 0) }; }
                        Op::Add => if let Some(k2) = self.cv(na.b) { let kk = self.konst(bits, k.wrapping_sub(k2)); return self.cmp(Op::Eq, na.a, kk); },
                        Op::Xor => if let Some(k2) = self.cv(na.b) { let kk = self.konst(bits, k ^ k2); return self.cmp(Op::Eq, na.a, kk); } else if k == 0 { return self.cmp(Op::Eq, na.a, na.b); },
                        Op::Sub => if k == 0 { return self.cmp(Op::Eq, na.a, na.b); },
                        Op::Concat => {
                            let lb = self.bits(na.b);
                            let hi = self.konst(bits - lb, k >> lb);
                            let lo = self.konst(lb, k);
                            let h = self.cmp(Op::Eq, na.a, hi);
                            let l = self.cmp(Op::Eq, na.b, lo);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let t = self.cmp(Op::Eq, na.b, b);
                            let f = self.cmp(Op::Eq, na.c, b);
                            if self.cv(t).is_some() || self.cv(f).is_some() { return self.ite(na.a, t, f); }
                        }
                        Op::Or if k == 0 => { let z = b; let h = self.cmp(Op::Eq, na.a, z); let l = self.cmp(Op::Eq, na.b, z); return self.bin(Op::And, h, l); }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.bits(na.a) == self.bits(nb.a) { return self.cmp(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.bits(na.b) == self.bits(nb.b) {
                        let h = self.cmp(Op::Eq, na.a, nb.a);
                        let l = self.cmp(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                let (ma, mb) = (self.umax(a), self.umax(b));
                if let Some(k) = cb {
                    if op == Op::Ult && k == 0 { return self.konst(1, 0); }
                    if op == Op::Ult && ma < k || op == Op::Ule && ma <= k { return self.konst(1, 1); }
                    if op == Op::Ule { // a <= k -> a < k+1  (k < m here)
                        let kk = self.konst(bits, k + 1); return self.cmp(Op::Ult, a, kk); }
                    if k == 1 { let z = self.konst(bits, 0); return self.cmp(Op::Eq, a, z); }
                }
                if let Some(k) = ca {
                    if op == Op::Ule && k == 0 { return self.konst(1, 1); }
                    if op == Op::Ult && k >= mb || op == Op::Ule && k > mb { return self.konst(1, 0); }
                    if op == Op::Ult { let kk = self.konst(bits, k + 1); return self.cmp(Op::Ule, kk, b); }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.bits(na.a) == self.bits(nb.a) { return self.cmp(op, na.a, nb.a); }
                if na.op == Op::ZExt { if let Some(k) = cb { let ib = self.bits(na.a); if k <= mask(ib) { let kk = self.konst(ib, k); return self.cmp(op, na.a, kk); } } }
                if nb.op == Op::ZExt { if let Some(k) = ca { let ib = self.bits(nb.a); if k <= mask(ib) { let kk = self.konst(ib, k); return self.cmp(op, kk, nb.a); } } }
            }
            Op::Slt | Op::Sle => {
                // both known non-negative -> unsigned
                let sm = m >> 1;
                if self.umax(a) <= sm && self.umax(b) <= sm { return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                let na = self.n(a);
                if let (Some(k), Op::SExt) = (cb, na.op) {
                    let ib = self.bits(na.a);
                    let lo = k & mask(ib);
                    if (sext(lo, ib) as u128) & m == k { let kk = self.konst(ib, lo); return self.cmp(op, na.a, kk); }
                }
                let nb = self.n(b);
                if let (Some(k), Op::SExt) = (ca, nb.op) {
                    let ib = self.bits(nb.a);
                    let lo = k & mask(ib);
                    if (sext(lo, ib) as u128) & m == k { let kk = self.konst(ib, lo); return self.cmp(op, kk, nb.a); }
                }
            }
            _ => unreachable!(),
        }
        self.mk(op, 1, a, b)
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.cv(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        let bits = self.bits(t);
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        if bits == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        let nf = self.n(f);
        if nf.op == Op::Ite && nf.b == t { let cc = self.bin(Op::Or, c, nf.a); return self.ite(cc, t, nf.c); }
        if nf.op == Op::Ite && nf.a == c { return self.ite(c, t, nf.c); }
        let nt = self.n(t);
        if nt.op == Op::Ite && nt.a == c { return self.ite(c, nt.b, f); }
        self.intern(Node { op: Op::Ite, bits, a: c, b: t, c: f, k: 0 })
    }

    pub fn zext(&mut self, e: E, bits: u16) -> E {
        let n = self.n(e);
        if n.bits == bits { return e; }
        match n.op {
            Op::Const => self.konst(bits, n.k),
            Op::ZExt => self.zext(n.a, bits),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let t = self.zext(n.b, bits); let f = self.zext(n.c, bits); self.ite(n.a, t, f) }
            _ => self.intern(Node { op: Op::ZExt, bits, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, e: E, bits: u16) -> E {
        let n = self.n(e);
        if n.bits == bits { return e; }
        match n.op {
            Op::Const => self.konst(bits, sext(n.k, n.bits) as u128),
            Op::ZExt => self.zext(n.a, bits),
            Op::SExt => self.sext(n.a, bits),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let t = self.sext(n.b, bits); let f = self.sext(n.c, bits); self.ite(n.a, t, f) }
            _ => {
                if n.bits == 1 { let t = self.konst(bits, mask(bits)); let f = self.konst(bits, 0); return self.ite(e, t, f); }
                self.intern(Node { op: Op::SExt, bits, a: e, b: 0, c: 0, k: 0 })
            }
        }
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n(e);
        if lo == 0 && w == n.bits { return e; }
        debug_assert!(lo + w <= n.bits);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::ZExt | Op::SExt => {
                let ib = self.bits(n.a);
                if lo + w <= ib { return self.extract(n.a, lo, w); }
                if n.op == Op::ZExt {
                    if lo >= ib { return self.konst(w, 0); }
                    let x = self.extract(n.a, lo, ib - lo);
                    return self.zext(x, w);
                }
                if lo < ib { let x = self.extract(n.a, lo, ib - lo); return self.sext(x, w); }
            }
            Op::Concat => {
                let lb = self.bits(n.b);
                if lo + w <= lb { return self.extract(n.b, lo, w); }
                if lo >= lb { return self.extract(n.a, lo - lb, w); }
                let h = self.extract(n.a, 0, lo + w - lb);
                let l = self.extract(n.b, lo, lb - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() || self.n(n.c).op == Op::Ite => {
                let t = self.extract(n.b, lo, w);
                let f = self.extract(n.c, lo, w);
                return self.ite(n.a, t, f);
            }
            _ => {}
        }
        if lo > 0 && self.umax(e) >> lo == 0 { return self.konst(w, 0); }
        self.intern(Node { op: Op::Extract, bits: w, a: e, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let bits = nh.bits + nl.bits;
        assert!(bits <= 128);
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) { return self.konst(bits, (x << nl.bits) | y); }
        if self.cv(hi) == Some(0) { return self.zext(lo, bits); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.bits as u128 {
            return self.extract(nh.a, nl.k as u16, bits);
        }
        // extract(x, k, ..) : x where x is a narrower full value (extract folded away at lo==0 && w==bits)
        if nh.op == Op::Extract && nh.a == lo && nh.k == nl.bits as u128 { return self.extract(nh.a, 0, bits); }
        // right-assoc: concat(concat(a,b), lo) with b,lo mergeable
        if nh.op == Op::Concat {
            let nb = self.n(nh.b);
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.k == nl.k + nl.bits as u128 {
                let m = self.extract(nb.a, nl.k as u16, nb.bits + nl.bits);
                return self.concat(nh.a, m);
            }
            if self.cv(nh.b).is_some() && self.cv(lo).is_some() {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ lo  => zext(x ++ lo)
            let x = self.concat(nh.a, lo);
            return self.zext(x, bits);
        }
        if nl.op == Op::Concat {
            // hi ++ (m ++ l): try merging hi and m
            let nm = self.n(nl.a);
            if nh.op == Op::Extract && nm.op == Op::Extract && nh.a == nm.a && nh.k == nm.k + nm.bits as u128 {
                let x = self.extract(nh.a, nm.k as u16, nh.bits + nm.bits);
                return self.concat(x, nl.b);
            }
        }
        self.intern(Node { op: Op::Concat, bits, a: hi, b: lo, c: 0, k: 0 })
    }

    /// Evaluates under an assignment of the byte variables.
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u8, memo: &mut HashMap<E, u128>) -> u128 {
        // iterative post-order to be safe on deep DAGs
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) { continue; }
            let n = self.n(x);
            match n.op {
                Op::Const => { memo.insert(x, n.k); continue; }
                Op::Var => { memo.insert(x, model(n.k as u32) as u128); continue; }
                _ => {}
            }
            if !done {
                st.push((x, true));
                match n.op {
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::ZExt | Op::SExt | Op::Extract => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let a = memo[&n.a];
            let v = match n.op {
                Op::Ite => if a == 1 { memo[&n.b] } else { memo[&n.c] },
                Op::ZExt => a,
                Op::SExt => (sext(a, self.bits(n.a)) as u128) & mask(n.bits),
                Op::Extract => (a >> n.k) & mask(n.bits),
                Op::Concat => (a << self.bits(n.b)) | memo[&n.b],
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => foldcmp(n.op, self.bits(n.a), a, memo[&n.b]) as u128,
                _ => fold(n.op, n.bits, a, memo[&n.b]),
            };
            memo.insert(x, v);
        }
        memo[&e]
    }

    /// Truth table of a boolean that depends on exactly one byte variable.
    pub fn table(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) { return *t; }
        let n = self.n(e);
        let t = match n.op {
            Op::And | Op::Or | Op::Xor if n.bits == 1 => {
                let x = self.table_or_const(n.a);
                let y = self.table_or_const(n.b);
                let mut r = [0u64; 4];
                for i in 0..4 { r[i] = match n.op { Op::And => x[i] & y[i], Op::Or => x[i] | y[i], _ => x[i] ^ y[i] }; }
                r
            }
            _ => {
                let mut r = [0u64; 4];
                for v in 0..256u32 {
                    let mut memo = HashMap::new();
                    if self.eval(e, &|_| v as u8, &mut memo) == 1 { r[(v >> 6) as usize] |= 1 << (v & 63); }
                }
                r
            }
        };
        self.tables.insert(e, t);
        t
    }
    fn table_or_const(&mut self, e: E) -> [u64; 4] {
        match self.cv(e) { Some(1) => [u64::MAX; 4], Some(_) => [0; 4], None => self.table(e) }
    }

    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.supsets.get(&e) { return s.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut vars = std::collections::BTreeSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if self.sup[x as usize] == Sup::None { continue; }
            if let Sup::One(v) = self.sup[x as usize] { vars.insert(v); continue; }
            let n = self.n(x);
            match n.op {
                Op::Ite => st.extend([n.a, n.b, n.c]),
                Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
                _ => st.extend([n.a, n.b]),
            }
        }
        let r = Rc::new(vars.into_iter().collect::<Vec<_>>());
        self.supsets.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.bits),
            Op::Var => format!("v{}", n.k),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.bits, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.bits),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
