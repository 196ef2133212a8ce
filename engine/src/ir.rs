//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => match b { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// store size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(b) => (*b as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.alloc(),
            Ty::Vec(n, t) => match **t { Ty::Int(b) => (n * b as u64 + 7) / 8, _ => n * t.size() },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed { o = up(o, t.align()); }
                    o += t.alloc();
                }
                if *packed { o } else { up(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn alloc(&self) -> u64 { up(self.size(), self.align()) }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = up(o, t.align()); }
                    if k == i { return o; }
                    o += t.alloc();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.alloc(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(b) => *b, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 }
    }
    pub fn lanes(&self) -> Option<(u64, Ty)> { if let Ty::Vec(n, t) = self { Some((*n, (**t).clone())) } else { None } }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    F(f64),
    Null,
    Undef,
    Zero,
    Str(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, K)>>),
    Splat(Rc<(Ty, K)>),
    Global(Rc<str>),
    Gep(Ty, Rc<Vec<(Ty, K)>>),
    Cast(String, Rc<(Ty, K)>, Ty),
    Bin(String, Rc<(Ty, K)>, Rc<(Ty, K)>),
}

/// Runtime value. Integers and pointers up to 64 bits are `I`, wider constants `W`.
#[derive(Clone, Debug)]
pub enum Val { I(u64), W(Rc<u128>), S(u32), A(Rc<Vec<Val>>), F(f64) }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), Const(K), V(Val) }

#[derive(Clone, Debug)]
pub enum Callee { Direct(Rc<str>), Id(u32), Indirect(Opd), Asm(String, String) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { d: u32, ty: Ty, count: Option<(Ty, Opd)>, align: u64 },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Bin { d: u32, op: &'static str, ty: Ty, a: Opd, b: Opd },
    BinI { d: u32, op: crate::expr::Op, bits: u16, a: Opd, b: Opd },
    CmpI { d: u32, op: crate::expr::Op, swap: bool, neg: bool, bits: u16, a: Opd, b: Opd },
    CastI { d: u32, op: u8, from: u16, to: u16, a: Opd },
    LoadI { d: u32, bits: u16, p: Opd },
    StoreI { bits: u16, v: Opd, p: Opd },
    ICmp { d: u32, pred: &'static str, ty: Ty, a: Opd, b: Opd },
    Cast { d: u32, op: &'static str, from: Ty, to: Ty, a: Opd },
    Select { d: u32, cty: Ty, c: Opd, ty: Ty, a: Opd, b: Opd },
    Call { d: Option<u32>, callee: Callee, ret: Ty, args: Vec<(Ty, Opd)>, normal: Option<u32>, noret: bool },
    ExtractValue { d: u32, a: Opd, ty: Ty, idx: Vec<usize> },
    InsertValue { d: u32, a: Opd, ty: Ty, v: Opd, vty: Ty, idx: Vec<usize> },
    ExtractElement { d: u32, ty: Ty, a: Opd, i: Opd },
    InsertElement { d: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: Ty, a: Opd, b: Opd, mask: Opd, mty: Ty },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, Vec<(u128, u32)>, u32),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    Fence,
    Freeze { d: u32, ty: Ty, a: Opd },
    FNeg { d: u32, ty: Ty, a: Opd },
    Unsupported(String),
}

pub struct Block { pub name: String, pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub ins: Vec<(Ins, u32)> }
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> { W(&'a str), L(&'a str), G(&'a str), S(&'a str), CS(&'a str), M(&'a str), P(char), Dots }

fn toks(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let r = if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' { i += 1; }
                    i += 1;
                    &s[st..i - 1]
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) { i += 1; }
                    &s[st..i]
                };
                out.push(if g { T::G(r) } else { T::L(r) });
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' { i += 1; }
                out.push(T::S(&s[st..i]));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' { i += 1; }
                out.push(T::CS(&s[st..i]));
                i += 1;
            }
            b'!' => {
                let st = i + 1;
                i = st;
                while i < b.len() && idc(b[i]) { i += 1; }
                out.push(T::M(&s[st..i]));
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) { i += 1; }
                out.push(T::W(&s[st..i]));
            }
            b'.' if s[i..].starts_with("...") => { out.push(T::Dots); i += 3; }
            _ if idc(c) => {
                let st = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                out.push(T::W(&s[st..i]));
            }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub struct GlobalDef { pub ty: Ty, pub init: Option<K>, pub constant: bool, pub align: u64 }

pub struct Module {
    lines: Vec<&'static str>,
    types: HashMap<&'static str, usize>,
    type_cache: HashMap<String, Ty>,
    globals: HashMap<&'static str, usize>,
    funcs: HashMap<&'static str, usize>,
    pub declares: HashMap<&'static str, usize>,
    aliases: HashMap<&'static str, usize>,
    md: HashMap<u32, usize>,
    noret_groups: std::collections::HashSet<String>,
    func_cache: HashMap<Rc<str>, ()>,
    subprog: HashMap<u32, Rc<(String, String, u32)>>,
    files: HashMap<u32, Rc<str>>,
}

struct Ps<'m, 'a> { m: &'m mut Module, t: Vec<T<'a>>, i: usize, regs: Option<&'m mut Regs> }
struct Regs { map: HashMap<String, u32>, labels: HashMap<String, u32>, n: u32 }
impl Regs {
    fn reg(&mut self, s: &str) -> u32 {
        if let Some(&r) = self.map.get(s) { return r; }
        let r = self.n;
        self.n += 1;
        self.map.insert(s.to_string(), r);
        r
    }
}

const TYWORDS: [&str; 8] = ["void", "ptr", "float", "double", "half", "metadata", "label", "token"];
fn is_int_ty(w: &str) -> bool { w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) }

impl<'m, 'a> Ps<'m, 'a> {
    fn peek(&self) -> Option<&T<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> T<'a> { let t = self.t[self.i].clone(); self.i += 1; t }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(&T::P(c)) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.peek() == Some(&T::W(w)) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected {c} at {} in {:?}", self.i, self.t) } }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => TYWORDS.contains(w) || is_int_ty(w),
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::L(_)) => true,
            _ => false,
        }
    }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => Ty::Ptr,
            T::W("float") => Ty::Float,
            T::W("double") => Ty::Double,
            T::W(w) if is_int_ty(w) => Ty::Int(w[1..].parse().unwrap()),
            T::W(_) => Ty::Other,
            T::P('[') => {
                let T::W(n) = self.next() else { panic!() };
                self.next();
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n.parse().unwrap(), Rc::new(t))
            }
            T::P('{') => { let f = self.fields('}'); Ty::Struct(Rc::new(f), false) }
            T::P('<') => {
                if self.eat('{') {
                    let f = self.fields('}');
                    self.expect('>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let T::W(n) = self.next() else { panic!() };
                self.next();
                let t = self.ty();
                self.expect('>');
                Ty::Vec(n.parse().unwrap(), Rc::new(t))
            }
            T::L(name) => self.m.named_type(name),
            x => panic!("type? {:?} in {:?}", x, self.t),
        }
    }
    fn fields(&mut self, close: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(close) { return v; }
            self.expect(',');
        }
    }
    fn skip_attrs(&mut self) -> u64 {
        let mut align = 0;
        loop {
            match self.peek() {
                Some(T::W(w)) if !TYWORDS.contains(w) && !is_int_ty(w) => {
                    let w = *w;
                    if is_const_word(w) { return align; }
                    self.i += 1;
                    if w == "align" {
                        if let Some(T::W(n)) = self.peek() { if let Ok(k) = n.parse() { align = k; self.i += 1; continue; } }
                    }
                    if self.peek() == Some(&T::P('(')) { self.skip_parens(); }
                }
                _ => return align,
            }
        }
    }
    fn tk(&mut self) -> (Ty, K) { let t = self.ty(); let k = self.konst(&t); (t, k) }
    fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            T::W("null") => K::Null,
            T::W("undef") | T::W("poison") => K::Undef,
            T::W("zeroinitializer") => K::Zero,
            T::W("true") => K::Int(1),
            T::W("false") => K::Int(0),
            T::W("none") => K::Null,
            T::W("splat") => {
                self.expect('(');
                let x = self.tk();
                self.expect(')');
                K::Splat(Rc::new(x))
            }
            T::W("dso_local_equivalent") => self.konst(ty),
            T::W(w @ ("getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "addrspacecast" | "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl")) => {
                while let Some(T::W(x)) = self.peek() {
                    if matches!(*x, "inbounds" | "nuw" | "nsw" | "nusw") { self.i += 1; } else if *x == "inrange" { self.i += 1; self.skip_parens(); } else { break; }
                }
                self.expect('(');
                let r = match w {
                    "getelementptr" => {
                        let t = self.ty();
                        let mut ops = vec![];
                        while self.eat(',') { while self.eatw("inrange") { if self.peek() == Some(&T::P('(')) { self.skip_parens(); } } ops.push(self.tk()); }
                        K::Gep(t, Rc::new(ops))
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                        let x = self.tk();
                        assert!(self.eatw("to"));
                        let t = self.ty();
                        K::Cast(w.to_string(), Rc::new(x), t)
                    }
                    _ => {
                        let x = self.tk();
                        self.expect(',');
                        let y = self.tk();
                        K::Bin(w.to_string(), Rc::new(x), Rc::new(y))
                    }
                };
                self.expect(')');
                r
            }
            T::W(n) => match ty {
                Ty::Float | Ty::Double => {
                    let v = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else {
                        // 1.000000e+00 : '+' splits the token
                        let mut s = n.to_string();
                        if self.eat('+') { if let T::W(x) = self.next() { s.push('+'); s.push_str(x); } }
                        s.parse().unwrap_or(0.0)
                    };
                    K::F(v)
                }
                _ => {
                    let v: i128 = if let Some(h) = n.strip_prefix("u0x") { u128::from_str_radix(h, 16).unwrap() as i128 } else { match n.parse::<i128>() { Ok(v) => v, Err(_) => n.parse::<u128>().unwrap_or_else(|_| panic!("int const {n}")) as i128 } };
                    let b = ty.bits();
                    K::Int(v as u128 & if b >= 128 { u128::MAX } else { (1u128 << b) - 1 })
                }
            },
            T::G(g) => K::Global(g.into()),
            T::CS(s) => K::Str(Rc::new(unescape(s))),
            T::P('[') => self.agg(']'),
            T::P('{') => self.agg('}'),
            T::P('<') => {
                if self.eat('{') { let k = self.agg('}'); self.expect('>'); k } else { self.agg('>') }
            }
            x => panic!("const? {:?} in {:?}", x, self.t),
        }
    }
    fn agg(&mut self, close: char) -> K {
        let mut v = vec![];
        if self.eat(close) { return K::Agg(Rc::new(v)); }
        loop {
            v.push(self.tk());
            if self.eat(close) { return K::Agg(Rc::new(v)); }
            self.expect(',');
        }
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(T::L(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            return Opd::Reg(self.regs.as_mut().unwrap().reg(n));
        }
        Opd::Const(self.konst(ty))
    }
    fn topd(&mut self) -> (Ty, Opd) { let t = self.ty(); let o = self.opd(&t); (t, o) }
    fn label(&mut self) -> u32 {
        assert!(self.eatw("label"), "label expected {:?}", self.t);
        let T::L(n) = self.next() else { panic!() };
        *self.regs.as_ref().unwrap().labels.get(n).unwrap_or_else(|| panic!("label {n}"))
    }
    fn dbg(&self) -> u32 {
        let mut i = self.t.len();
        while i > 1 {
            i -= 1;
            if let (T::M("dbg"), Some(T::M(n))) = (&self.t[i - 1], self.t.get(i)) { return n.parse().unwrap_or(0); }
        }
        0
    }
}
fn is_const_word(w: &str) -> bool { matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "getelementptr" | "inttoptr" | "ptrtoint") || w.parse::<i128>().is_ok() }

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read .ll").into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines: vec![], types: HashMap::new(), type_cache: HashMap::new(), globals: HashMap::new(), funcs: HashMap::new(), declares: HashMap::new(),
            aliases: HashMap::new(), md: HashMap::new(), noret_groups: Default::default(), func_cache: HashMap::new(), subprog: HashMap::new(), files: HashMap::new(),
        };
        for (i, l) in lines.iter().enumerate() {
            let b = l.as_bytes();
            if b.is_empty() { continue; }
            match b[0] {
                b'%' => { m.types.insert(name_of(&l[1..]), i); }
                b'@' => {
                    let n = name_of(&l[1..]);
                    let rest = &l[1 + n.len()..];
                    if is_alias(rest) { m.aliases.insert(n, i); } else { m.globals.insert(n, i); }
                }
                b'd' if l.starts_with("define") => { let at = l.find('@').unwrap(); m.funcs.insert(name_of(&l[at + 1..]), i); }
                b'd' if l.starts_with("declare") => { let at = l.find('@').unwrap(); m.declares.insert(name_of(&l[at + 1..]), i); }
                b'!' => { if let Some(e) = l.find(' ') { if let Ok(n) = l[1..e].parse::<u32>() { m.md.insert(n, i); } } }
                b'a' if l.starts_with("attributes #") => { if l.contains(" noreturn") { m.noret_groups.insert(l["attributes ".len()..].split(' ').next().unwrap().to_string()); } }
                _ => {}
            }
        }
        m.lines = lines;
        m
    }
    pub fn has_func(&self, n: &str) -> bool { self.funcs.contains_key(n) }
    pub fn is_func_symbol(&self, n: &str) -> bool { self.funcs.contains_key(n) || self.declares.contains_key(n) }
    pub fn func_names(&self) -> Vec<&'static str> { self.funcs.keys().copied().collect() }
    pub fn resolve_alias(&mut self, n: &str) -> Option<K> {
        let i = *self.aliases.get(n)?;
        let l = self.lines[i];
        let p = l.rfind("@").unwrap();
        let _ = p;
        let t = toks(l);
        // last global token
        let g = t.iter().rev().find_map(|x| if let T::G(g) = x { Some(*g) } else { None }).unwrap();
        Some(K::Global(g.into()))
    }
    fn named_type(&mut self, n: &str) -> Ty {
        if let Some(t) = self.type_cache.get(n) { return t.clone(); }
        let i = *self.types.get(n).unwrap_or_else(|| panic!("type {n}"));
        let l = self.lines[i];
        let t = toks(l);
        let mut p = Ps { m: self, t, i: 0, regs: None };
        p.next();
        p.expect('=');
        assert!(p.eatw("type"));
        let ty = if p.eatw("opaque") { Ty::Other } else { p.ty() };
        self.type_cache.insert(n.to_string(), ty.clone());
        ty
    }
    pub fn global(&mut self, n: &str) -> Option<GlobalDef> {
        let i = *self.globals.get(n)?;
        let t = toks(self.lines[i]);
        let mut p = Ps { m: self, t, i: 0, regs: None };
        p.next();
        p.expect('=');
        let mut external = false;
        let constant;
        loop {
            match p.next() {
                T::W("constant") => { constant = true; break; }
                T::W("global") => { constant = false; break; }
                T::W("external") | T::W("extern_weak") => external = true,
                T::W(_) => { if p.peek() == Some(&T::P('(')) { p.skip_parens(); } }
                x => panic!("global? {:?}", x),
            }
        }
        let ty = p.ty();
        let init = if external { None } else { Some(p.konst(&ty)) };
        let mut align = ty.align();
        for w in p.t.windows(2).skip(p.i) { if let [T::W("align"), T::W(k)] = w { align = k.parse().unwrap_or(1); } }
        Some(GlobalDef { ty, init, constant, align })
    }
    /// Parses a function; the caller caches it.
    pub fn func(&mut self, name: &str) -> Option<Func> {
        let i = *self.funcs.get(name)?;
        Some(self.parse_func(name, i))
    }
    fn parse_func(&mut self, name: &str, start: usize) -> Func {
        let mut regs = Regs { map: HashMap::new(), labels: HashMap::new(), n: 0 };
        let head = self.lines[start];
        let t = toks(head);
        let gi = t.iter().position(|x| matches!(x, T::G(_))).unwrap();
        let mut params = vec![];
        let dbg;
        let mut unnamed = 0u32;
        {
            let mut p = Ps { m: self, t, i: gi + 1, regs: None };
            dbg = p.dbg();
            p.expect('(');
            while !p.eat(')') {
                if p.peek() == Some(&T::Dots) { p.i += 1; continue; }
                let ty = p.ty();
                p.skip_attrs();
                if let Some(T::L(n)) = p.peek() {
                    let n = *n;
                    p.i += 1;
                    if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                    let r = regs.reg(n);
                    params.push((r, ty));
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    params.push((regs.reg(&n), ty));
                }
                p.eat(',');
            }
        }
        // collect logical lines & labels
        let mut body: Vec<(u32, String)> = vec![];
        let mut names: Vec<String> = vec![];
        let mut i = start + 1;
        let mut first = true;
        loop {
            let l = self.lines[i];
            if l == "}" { break; }
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b';' { i += 1; continue; }
            if b[0] != b' ' {
                let lab = if b[0] == b'"' { let e = l[1..].find('"').unwrap(); l[1..1 + e].to_string() } else { l[..l.find(':').unwrap()].to_string() };
                regs.labels.insert(lab.clone(), names.len() as u32);
                names.push(lab);
                first = false;
                i += 1;
                continue;
            }
            if first {
                let lab = unnamed.to_string();
                regs.labels.insert(lab.clone(), 0);
                names.push(lab);
                first = false;
            }
            let tr = l.trim_start();
            if tr.starts_with("#dbg") { i += 1; continue; }
            let mut s = tr.to_string();
            if tr.starts_with("switch ") {
                while !self.lines[i].trim_start().starts_with(']') { i += 1; s.push(' '); s.push_str(self.lines[i].trim()); }
            } else if tr.starts_with("invoke ") || tr.contains("= invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim());
            } else if tr.contains("= landingpad") {
                while self.lines[i + 1].starts_with("          ") { i += 1; }
            }
            body.push((names.len() as u32 - 1, s));
            i += 1;
        }
        let mut blocks: Vec<Block> = names.into_iter().map(|name| Block { name, phis: vec![], ins: vec![] }).collect();
        for (bi, s) in &body {
            let t = toks(s);
            let mut p = Ps { m: self, t, i: 0, regs: Some(&mut regs) };
            let dbg = p.dbg();
            match parse_ins(&mut p) {
                PI::Phi(d, ty, inc) => blocks[*bi as usize].phis.push((d, ty, inc)),
                PI::I(ins) => blocks[*bi as usize].ins.push((ins, dbg)),
            }
        }
        Func { id: 0, name: name.into(), params, nregs: regs.n, blocks, dbg }
    }

    // ---- debug info -------------------------------------------------------
    fn md_field<'x>(l: &'x str, k: &str) -> Option<&'x str> {
        let mut from = 0;
        loop {
            let p = l[from..].find(k)? + from;
            let before = l.as_bytes()[p - 1];
            if before == b'(' || before == b' ' {
                let r = &l[p + k.len()..];
                if let Some(q) = r.strip_prefix('"') { return Some(&q[..q.find('"')?]); }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = p + k.len();
        }
    }
    fn md_ref(l: &str, k: &str) -> Option<u32> { Self::md_field(l, k)?.strip_prefix('!')?.parse().ok() }
    fn md_line(&self, n: u32) -> Option<&'static str> { self.md.get(&n).map(|&i| self.lines[i]) }
    fn file(&mut self, n: u32) -> Rc<str> {
        if let Some(f) = self.files.get(&n) { return f.clone(); }
        let r: Rc<str> = match self.md_line(n) {
            Some(l) => {
                let f = Self::md_field(l, "filename: ").unwrap_or("");
                let d = Self::md_field(l, "directory: ").unwrap_or("");
                if f.starts_with('/') || d.is_empty() { f.into() } else { format!("{d}/{f}").into() }
            }
            None => "".into(),
        };
        self.files.insert(n, r.clone());
        r
    }
    /// (qualified function name, file, line) of a subprogram
    pub fn subprogram(&mut self, n: u32) -> Rc<(String, String, u32)> {
        if let Some(s) = self.subprog.get(&n) { return s.clone(); }
        let mut cur = n;
        let mut r = (String::new(), String::new(), 0);
        for _ in 0..64 {
            let Some(l) = self.md_line(cur) else { break };
            if l.contains("!DISubprogram(") {
                let name = Self::md_field(l, "linkageName: ").or(Self::md_field(l, "name: ")).unwrap_or("?").to_string();
                let file = Self::md_ref(l, "file: ").map(|f| self.file(f).to_string()).unwrap_or_default();
                let line = Self::md_field(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
                r = (demangle(&name), file, line);
                break;
            }
            match Self::md_ref(l, "scope: ") { Some(s) => cur = s, None => break }
        }
        let r = Rc::new(r);
        self.subprog.insert(n, r.clone());
        r
    }
    /// inline stack of a debug location: (function, file, line), innermost first
    pub fn location(&mut self, n: u32) -> Vec<(Rc<(String, String, u32)>, u32)> {
        let mut out = vec![];
        let mut cur = n;
        for _ in 0..64 {
            let Some(l) = self.md_line(cur) else { break };
            let line = Self::md_field(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(s) = Self::md_ref(l, "scope: ") { let sp = self.subprogram(s); out.push((sp, line)); }
            match Self::md_ref(l, "inlinedAt: ") { Some(x) => cur = x, None => break }
        }
        out
    }
}

/// Legacy-mangling demangler, hash removed.
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() { i += 1; }
        let n: usize = r[st..i].parse().unwrap();
        if i + n > b.len() { break; }
        parts.push(r[i..i + n].to_string());
        i += n;
    }
    if let Some(l) = parts.last() { if l.len() == 17 && l.starts_with('h') { parts.pop(); } }
    parts.join("::").replace("_$", "$").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("$BP$", "*").replace("$u7b$", "{").replace("$u7d$", "}").replace("$u5b$", "[").replace("$u5d$", "]").replace("$u27$", "'").replace("$LP$", "(").replace("$RP$", ")").replace("..", "::")
}

fn is_alias(rest: &str) -> bool {
    // after '= ' come linkage words, then 'alias' or 'global'/'constant'
    let r = rest.trim_start_matches('"').trim_start().trim_start_matches('=').trim_start();
    for w in r.split(' ') {
        if w == "alias" { return true; }
        if w == "global" || w == "constant" { return false; }
    }
    false
}
fn name_of(s: &'static str) -> &'static str {
    if let Some(q) = s.strip_prefix('"') { &q[..q.find('"').unwrap()] } else {
        let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-'))).unwrap_or(s.len());
        &s[..e]
    }
}

enum PI { Phi(u32, Ty, Vec<(u32, Opd)>), I(Ins) }

fn st(w: &str) -> &'static str {
    const ALL: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem",
        "eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge", "oeq", "une", "olt", "ole", "ogt", "oge", "ueq", "one", "ord", "uno",
        "trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"];
    ALL.iter().find(|x| **x == w).copied().unwrap_or("?")
}

fn parse_ins(p: &mut Ps) -> PI {
    let mut d = None;
    if let (Some(T::L(n)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) {
        let n = *n;
        d = Some(p.regs.as_mut().unwrap().reg(n));
        p.i = 2;
    }
    let T::W(op) = p.next() else { panic!("instruction {:?}", p.t) };
    let dd = d.unwrap_or(u32::MAX);
    let ins = match op {
        "phi" => {
            while !p.is_ty() { p.i += 1; }
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                p.expect('[');
                let o = p.opd(&ty);
                p.expect(',');
                let T::L(n) = p.next() else { panic!() };
                let b = p.regs.as_ref().unwrap().labels[n];
                p.expect(']');
                inc.push((b, o));
                if !p.eat(',') { break; }
                if p.peek() != Some(&T::P('[')) { break; }
            }
            return PI::Phi(dd, ty, inc);
        }
        "alloca" => {
            p.eatw("inalloca");
            let ty = p.ty();
            let mut count = None;
            let mut align = ty.align();
            while p.eat(',') {
                if p.eatw("align") { if let T::W(n) = p.next() { align = n.parse().unwrap(); } } else if p.is_ty() { count = Some(p.topd()); } else { break; }
            }
            Ins::Alloca { d: dd, ty, count, align }
        }
        "load" => {
            while let Some(T::W("volatile" | "atomic")) = p.peek() { p.i += 1; }
            let ty = p.ty();
            p.expect(',');
            let (_, o) = p.topd();
            Ins::Load { d: dd, ty, p: o }
        }
        "store" => {
            while let Some(T::W("volatile" | "atomic")) = p.peek() { p.i += 1; }
            let (ty, v) = p.topd();
            p.expect(',');
            let (_, o) = p.topd();
            Ins::Store { ty, v, p: o }
        }
        "getelementptr" => {
            while let Some(T::W("inbounds" | "nuw" | "nusw")) = p.peek() { p.i += 1; }
            let mut ty = p.ty();
            p.expect(',');
            let (bt, base) = p.topd();
            if matches!(bt, Ty::Vec(..)) { return PI::I(Ins::Unsupported("vector gep".into())); }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut n = 0;
            while p.eat(',') {
                if !p.is_ty() { break; }
                let (it, io) = p.topd();
                if matches!(it, Ty::Vec(..)) { return PI::I(Ins::Unsupported("vector gep".into())); }
                let (scale, next) = if n == 0 { (ty.alloc() as i64, ty.clone()) } else if let Ty::Struct(..) = ty {
                    let Opd::Const(K::Int(k)) = &io else { panic!("struct index") };
                    off += ty.field_off(*k as usize) as i64;
                    let e = ty.elem(*k as usize);
                    ty = e;
                    n += 1;
                    continue;
                } else { let e = ty.elem(0); (e.alloc() as i64, e) };
                match &io {
                    Opd::Const(K::Int(k)) => { let b = it.bits(); let s = 128 - b; off += ((((*k) << s) as i128) >> s) as i64 * scale; }
                    Opd::Const(K::Zero) | Opd::Const(K::Undef) => {}
                    _ => idx.push((io, it.bits(), scale)),
                }
                ty = next;
                n += 1;
            }
            Ins::Gep { d: dd, base, off, idx }
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while !p.is_ty() { p.i += 1; }
            let (ty, a) = p.topd();
            p.expect(',');
            let b = p.opd(&ty);
            Ins::Bin { d: dd, op: st(op), ty, a, b }
        }
        "icmp" | "fcmp" => {
            let mut pred = "?";
            while !p.is_ty() { if let T::W(w) = p.next() { if w != "samesign" && st(w) != "?" { pred = st(w); } } }
            let (ty, a) = p.topd();
            p.expect(',');
            let b = p.opd(&ty);
            if op == "fcmp" { return PI::I(Ins::Bin { d: dd, op: pred, ty, a, b }); }
            Ins::ICmp { d: dd, pred, ty, a, b }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            while !p.is_ty() { p.i += 1; }
            let (from, a) = p.topd();
            assert!(p.eatw("to"));
            let to = p.ty();
            Ins::Cast { d: dd, op: st(op), from, to, a }
        }
        "select" => {
            while !p.is_ty() { p.i += 1; }
            let (cty, c) = p.topd();
            p.expect(',');
            let (ty, a) = p.topd();
            p.expect(',');
            let (_, b) = p.topd();
            Ins::Select { d: dd, cty, c, ty, a, b }
        }
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            if op != "call" && op != "invoke" { p.i += 1; }
            // everything up to the return type is attributes / cconv
            while !p.is_ty() {
                p.i += 1;
                if let Some(T::P('(')) = p.peek() { p.skip_parens(); }
            }
            let ret = p.ty();
            if p.peek() == Some(&T::P('(')) { p.skip_parens(); }
            let callee = match p.next() {
                T::G(g) => Callee::Direct(g.into()),
                T::L(l) => Callee::Indirect(Opd::Reg(p.regs.as_mut().unwrap().reg(l))),
                T::W("asm") => {
                    let mut strs = vec![];
                    while strs.len() < 2 { match p.next() { T::S(s) => strs.push(s.to_string()), _ => {} } }
                    Callee::Asm(strs[0].clone(), strs[1].clone())
                }
                T::W(w) => { p.i -= 1; let _ = w; Callee::Indirect(Opd::Const(p.konst(&Ty::Ptr))) }
                x => panic!("callee {:?} in {:?}", x, p.t),
            };
            p.expect('(');
            let mut args = vec![];
            while !p.eat(')') {
                let ty = p.ty();
                if ty == Ty::Other { p.next(); p.eat(','); args.push((Ty::Other, Opd::Const(K::Undef))); continue; }
                p.skip_attrs();
                let o = p.opd(&ty);
                args.push((ty, o));
                p.eat(',');
            }
            let mut noret = false;
            while let Some(T::W(w)) = p.peek() {
                if *w == "noreturn" || p.m.noret_groups.contains(*w) { noret = true; }
                if *w == "to" { break; }
                p.i += 1;
            }
            let mut normal = None;
            if op == "invoke" {
                while !p.eatw("to") { p.i += 1; }
                normal = Some(p.label());
            }
            Ins::Call { d, callee, ret, args, normal, noret }
        }
        "extractvalue" => {
            let (ty, a) = p.topd();
            let mut idx = vec![];
            while p.eat(',') { match p.next() { T::W(n) => idx.push(n.parse().unwrap()), _ => break } }
            Ins::ExtractValue { d: dd, a, ty, idx }
        }
        "insertvalue" => {
            let (ty, a) = p.topd();
            p.expect(',');
            let (vty, v) = p.topd();
            let mut idx = vec![];
            while p.eat(',') { match p.next() { T::W(n) => idx.push(n.parse().unwrap()), _ => break } }
            Ins::InsertValue { d: dd, a, ty, v, vty, idx }
        }
        "extractelement" => { let (ty, a) = p.topd(); p.expect(','); let (_, i) = p.topd(); Ins::ExtractElement { d: dd, ty, a, i } }
        "insertelement" => { let (ty, a) = p.topd(); p.expect(','); let (_, v) = p.topd(); p.expect(','); let (_, i) = p.topd(); Ins::InsertElement { d: dd, ty, a, v, i } }
        "shufflevector" => { let (ty, a) = p.topd(); p.expect(','); let (_, b) = p.topd(); p.expect(','); let (mty, mask) = p.topd(); Ins::Shuffle { d: dd, ty, a, b, mask, mty } }
        "br" => {
            if let Some(T::W("label")) = p.peek() { Ins::Br(p.label()) } else {
                let (_, c) = p.topd();
                p.expect(',');
                let t = p.label();
                p.expect(',');
                let f = p.label();
                Ins::CondBr(c, t, f)
            }
        }
        "switch" => {
            let (ty, v) = p.topd();
            p.expect(',');
            let def = p.label();
            p.expect('[');
            let mut cases = vec![];
            while !p.eat(']') {
                let (_, k) = p.topd();
                let Opd::Const(K::Int(k)) = k else { panic!() };
                p.expect(',');
                cases.push((k, p.label()));
            }
            Ins::Switch(ty, v, cases, def)
        }
        "ret" => { if p.eatw("void") { Ins::Ret(None) } else { Ins::Ret(Some(p.topd())) } }
        "unreachable" => Ins::Unreachable,
        "fence" => Ins::Fence,
        "freeze" => { let (ty, a) = p.topd(); Ins::Freeze { d: dd, ty, a } }
        "fneg" => { let (ty, a) = p.topd(); Ins::FNeg { d: dd, ty, a } }
        "cmpxchg" => {
            while !p.is_ty() { p.i += 1; }
            let (_, ptr) = p.topd();
            p.expect(',');
            let (ty, c) = p.topd();
            p.expect(',');
            let (_, n) = p.topd();
            Ins::CmpXchg { d: dd, ty, p: ptr, c, n }
        }
        "atomicrmw" => {
            p.eatw("volatile");
            let T::W(o) = p.next() else { panic!() };
            let o = o.to_string();
            let (_, ptr) = p.topd();
            p.expect(',');
            let (ty, v) = p.topd();
            Ins::AtomicRmw { d: dd, op: o, ty, p: ptr, v }
        }
        _ => Ins::Unsupported(op.to_string()),
    };
    PI::I(ins)
}
