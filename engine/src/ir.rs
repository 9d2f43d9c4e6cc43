//! Parser for the textual LLVM IR of the code under check, into a compact form for the interpreter.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Vec<Ty>, bool), Vec(u32, Rc<Ty>), Other }

impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {:?}", self) }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
    /// store size in bytes
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(), Ty::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            Ty::Struct(..) => self.size(), Ty::Void | Ty::Other => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let p = b.next_power_of_two(); if p > 16 { 16 } else { p } }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f { if !*packed { o = up(o, t.align()); } o += t.size(); }
                if *packed { o } else { up(o, self.align()) }
            }
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() { if !*packed { o = up(o, t.align()); } if j == i { return o; } o += t.size(); }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => (t.bits() as u64 / 8) * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self { Ty::Struct(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem") }
    }
    pub fn nelem(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => panic!("nelem") }
    }
}
fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

#[derive(Debug, Clone)]
pub enum Const { Int(u128), Agg(Rc<Vec<Const>>) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op { R(u32), K(u32) }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, Same }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ind(Op), Intr(String) }

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: BinOp, w: u32, dst: u32, a: Op, b: Op },
    Cmp { pred: Pred, w: u32, dst: u32, a: Op, b: Op },
    FBin { op: char, w: u32, dst: u32, a: Op, b: Op },
    FCmp { pred: String, w: u32, dst: u32, a: Op, b: Op },
    FNeg { w: u32, dst: u32, a: Op },
    Cast { op: CastOp, from: u32, to: u32, dst: u32, a: Op },
    BitCast { dst: u32, a: Op, from: Ty, to: Ty },
    Load { dst: u32, p: Op, ty: Ty },
    Store { p: Op, v: Op, ty: Ty },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, i64, u32)> },
    Alloca { dst: u32, size: u64 },
    Select { dst: u32, c: Op, a: Op, b: Op, ty: Ty },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Op>, ret: Ty, argw: Vec<u32> },
    Extract { dst: u32, a: Op, path: Vec<u32> },
    Insert { dst: u32, a: Op, v: Op, path: Vec<u32> },
    ExtElem { dst: u32, v: Op, i: Op },
    InsElem { dst: u32, v: Op, e: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<u32>, n: u32 },
    Rmw { dst: u32, op: RmwOp, p: Op, v: Op, w: u32 },
    CmpXchg { dst: u32, p: Op, c: Op, n: Op, w: u32 },
    Copy { dst: u32, a: Op },
    Nop,
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret { v: Option<Op> },
    Unreachable,
}

#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst> }

#[derive(Debug)]
pub struct Func { pub name: String, pub nregs: u32, pub nparams: u32, pub blocks: Vec<Block>, pub defined: bool, pub params_byval: Vec<Option<u64>> }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub init: Vec<u8>, pub constant: bool }

pub struct Module { pub funcs: Vec<Func>, pub fidx: HashMap<String, u32>, pub globals: Vec<Global>, pub consts: Vec<Const> }

pub const SHIFT: u32 = 24;
pub const FN_BASE: u64 = 1 << 62;
pub fn fn_addr(i: u32) -> u64 { FN_BASE + (i as u64) * 16 }

#[derive(Debug, Clone, PartialEq)]
enum T<'a> { Local(&'a str), Glob(&'a str), Word(&'a str), Num(&'a str), CStr(&'a [u8]), Str(&'a str), P(u8), Meta, Attr, Eof }

struct Lex<'a> { s: &'a [u8], i: usize, tok: T<'a> }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self { let mut l = Lex { s, i: 0, tok: T::Eof }; l.adv(); l }
    fn sub(&self, a: usize, b: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) } }
    fn adv(&mut self) -> T<'a> { let n = self.lex(); std::mem::replace(&mut self.tok, n) }
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1; self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = self.sub(st, self.i); self.i += 1; r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
            self.sub(st, self.i)
        }
    }
    fn lex(&mut self) -> T<'a> {
        loop {
            if self.i >= self.s.len() { return T::Eof; }
            match self.s[self.i] {
                b' ' | b'\n' | b'\t' | b'\r' => self.i += 1,
                b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => { self.i += 1; T::Local(self.name()) }
            b'@' => { self.i += 1; T::Glob(self.name()) }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'{' { // inline metadata node
                    let mut d = 0; loop { let ch = self.s[self.i]; self.i += 1; if ch == b'{' { d += 1 } if ch == b'}' { d -= 1; if d == 0 { break; } } }
                    return T::Meta;
                }
                if self.s[self.i] == b'"' { self.name(); return T::Meta; }
                while self.i < self.s.len() && (is_id(self.s[self.i]) || self.s[self.i] == b'\\') { self.i += 1; }
                if self.i < self.s.len() && self.s[self.i] == b'(' { let mut d = 0; loop { let ch = self.s[self.i]; self.i += 1; if ch == b'(' { d += 1 } if ch == b')' { d -= 1; if d == 0 { break; } } } }
                T::Meta
            }
            b'#' => { self.i += 1; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } T::Attr }
            b'"' => T::Str(self.name()),
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                let st = self.i + 2; self.i += 2;
                while self.s[self.i] != b'"' { self.i += 1; }
                let r = &self.s[st..self.i]; self.i += 1; T::CStr(r)
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.i; self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && matches!(self.s[self.i - 1], b'e' | b'E'))) { self.i += 1; }
                T::Num(self.sub(st, self.i))
            }
            c if is_id(c) => { let st = self.i; while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; } T::Word(self.sub(st, self.i)) }
            _ => { self.i += 1; T::P(c) }
        }
    }
}

pub struct Parser<'a> { l: Lex<'a>, pub m: Module, gaddr: HashMap<String, u64>, named: HashMap<String, Ty>, kcache: HashMap<u128, u32>,
    gidx: HashMap<String, usize>,
    // per function
    regs: HashMap<&'a str, u32>, nregs: u32, blocks: HashMap<&'a str, u32>, nblocks: u32 }

fn w_is(t: &T, s: &str) -> bool { matches!(t, T::Word(w) if *w == s) }

pub fn parse(text: &str) -> Module {
    // pre-scan for symbols
    let mut p = Parser { l: Lex::new(b""), m: Module { funcs: vec![], fidx: HashMap::new(), globals: vec![], consts: vec![] }, gaddr: HashMap::new(), named: HashMap::new(),
        kcache: HashMap::new(), gidx: HashMap::new(), regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), nblocks: 0 };
    let mut slot = 1u64;
    let mut aliases: Vec<(String, String)> = vec![];
    let gname = |l: &str, from: usize| -> Option<String> {
        let b = l.as_bytes(); if b.get(from) != Some(&b'@') { return None; }
        let mut lx = Lex { s: b, i: from + 1, tok: T::Eof }; Some(lx.name().to_string())
    };
    for l in text.lines() {
        if l.starts_with('@') {
            let n = gname(l, 0).unwrap();
            if l.contains(" = ") && l.split(" = ").nth(1).map_or(false, |r| r.split(' ').any(|w| w == "alias")) && !l.contains(" c\"") {
                let tgt = l.rsplit('@').next().unwrap(); let mut lx = Lex { s: tgt.as_bytes(), i: 0, tok: T::Eof }; aliases.push((n, lx.name().to_string())); continue;
            }
            if l.contains("extern_weak") { p.gaddr.insert(n, 0); continue; }
            let addr = slot << SHIFT; slot += 1;
            p.gidx.insert(n.clone(), p.m.globals.len());
            p.m.globals.push(Global { name: n.clone(), addr, size: 0, init: vec![], constant: false });
            p.gaddr.insert(n, addr);
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let n = gname(l, at).unwrap();
            let i = p.m.funcs.len() as u32;
            p.m.funcs.push(Func { name: n.clone(), nregs: 0, nparams: 0, blocks: vec![], defined: false, params_byval: vec![] });
            p.m.fidx.insert(n.clone(), i); p.gaddr.insert(n, fn_addr(i));
        }
    }
    for (a, t) in &aliases { let ad = *p.gaddr.get(t).unwrap_or(&0); p.gaddr.insert(a.clone(), ad); if let Some(i) = p.m.fidx.get(t).cloned() { p.m.fidx.insert(a.clone(), i); } }
    p.l = Lex::new(text.as_bytes());
    p.module();
    p.m
}

impl<'a> Parser<'a> {
    fn adv(&mut self) -> T<'a> { self.l.adv() }
    fn peek(&self) -> &T<'a> { &self.l.tok }
    fn is_p(&self, c: u8) -> bool { self.l.tok == T::P(c) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.adv(); true } else { false } }
    fn exp_p(&mut self, c: u8) { if !self.eat_p(c) { self.fail(&format!("expected {}", c as char)); } }
    fn is_w(&self, s: &str) -> bool { w_is(&self.l.tok, s) }
    fn eat_w(&mut self, s: &str) -> bool { if self.is_w(s) { self.adv(); true } else { false } }
    fn fail(&self, m: &str) -> ! {
        let a = self.l.i.saturating_sub(200); let b = (self.l.i + 100).min(self.l.s.len());
        eprintln!("IR parse error: {} at {:?}; context:\n{}", m, self.l.tok, String::from_utf8_lossy(&self.l.s[a..b])); std::process::exit(70);
    }
    fn line_skip(&mut self) { // skip to the next line
        // the current token was lexed already; move to the end of its line
        let mut i = self.l.i; while i < self.l.s.len() && self.l.s[i] != b'\n' { i += 1; } self.l.i = i; self.adv();
    }

    fn module(&mut self) {
        loop {
            match self.peek().clone() {
                T::Eof => break,
                T::Word("define") => self.func(true),
                T::Word("declare") => self.line_skip(),
                T::Word(_) | T::Meta | T::Str(_) => self.line_skip(), // source_filename, target, attributes, $comdat, uselistorder
                T::Glob(n) => self.global(n),
                T::Local(n) => { // %T = type ...
                    self.adv(); self.exp_p(b'='); if !self.eat_w("type") { self.fail("type"); }
                    if self.eat_w("opaque") { self.named.insert(n.to_string(), Ty::Other); } else { let t = self.ty(); self.named.insert(n.to_string(), t); }
                }
                T::Attr | T::P(_) | T::Num(_) | T::CStr(_) => self.line_skip(),
            }
        }
    }

    fn global(&mut self, n: &'a str) {
        self.adv(); self.exp_p(b'=');
        let gi = match self.gidx.get(n) { Some(i) => *i, None => { self.line_skip(); return; } };
        let mut external = false;
        loop {
            match self.adv() {
                T::Word("global") => break,
                T::Word("constant") => { self.m.globals[gi].constant = true; break }
                T::Word("external") => external = true,
                T::Word("addrspace") | T::Word("thread_local") => { if self.is_p(b'(') { self.skip_parens(); } }
                T::Word(_) => {}
                _ => self.fail("global"),
            }
        }
        let t = self.ty();
        self.m.globals[gi].size = t.size().max(t.store_size());
        if !external {
            let c = self.cons(&t);
            let mut v = vec![0u8; self.m.globals[gi].size as usize];
            emit(&c, &t, &mut v, 0);
            self.m.globals[gi].init = v;
        } else { let s = self.m.globals[gi].size as usize; self.m.globals[gi].init = vec![0; s]; }
        // skip trailing: , align 8, section "..", !guid
        loop {
            if self.eat_p(b',') { self.adv(); if let T::Num(_) = self.peek() { self.adv(); } else if let T::Str(_) = self.peek() { self.adv(); } else if self.is_p(b'(') { self.skip_parens(); } }
            else if *self.peek() == T::Meta || *self.peek() == T::Attr { self.adv(); } else if self.is_w("comdat") { self.adv(); if self.is_p(b'(') { self.skip_parens(); } }
            else { break }
        }
    }
    fn skip_parens(&mut self) { let mut d = 0; loop { match self.adv() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { break; } } T::Eof => self.fail("eof"), _ => {} } } }

    fn ty(&mut self) -> Ty {
        let mut t = match self.adv() {
            T::Word(w) => match w {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "metadata" | "label" | "token" => Ty::Other,
                "half" => Ty::Other, "x86_fp80" => Ty::Other, "fp128" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => self.fail(&format!("type {}", w)),
            },
            T::Local(n) => self.named.get(n).cloned().unwrap_or(Ty::Other),
            T::P(b'[') => { let n = self.num(); if !self.eat_w("x") { self.fail("x"); } let t = self.ty(); self.exp_p(b']'); Ty::Arr(n as u64, Rc::new(t)) }
            T::P(b'{') => { let f = self.ty_list(b'}'); Ty::Struct(f, false) }
            T::P(b'<') => {
                if self.eat_p(b'{') { let f = self.ty_list(b'}'); self.exp_p(b'>'); Ty::Struct(f, true) }
                else { let n = self.num(); if !self.eat_w("x") { self.fail("x"); } let t = self.ty(); self.exp_p(b'>'); Ty::Vec(n as u32, Rc::new(t)) }
            }
            _ => self.fail("type"),
        };
        if self.is_w("addrspace") { self.adv(); self.skip_parens(); }
        // function type?
        if self.is_p(b'(') && false { t = Ty::Other; }
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> { let mut v = vec![]; if self.eat_p(end) { return v; } loop { v.push(self.ty()); if self.eat_p(end) { break; } self.exp_p(b','); } v }
    fn num(&mut self) -> i128 { match self.adv() { T::Num(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)), _ => self.fail("number") } }

    fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }

    fn cons(&mut self, t: &Ty) -> Const {
        match self.peek().clone() {
            T::Num(n) => { self.adv(); Const::Int(self.numc(n, t)) }
            T::Word(w) => match w {
                "true" => { self.adv(); Const::Int(1) } "false" | "null" | "none" => { self.adv(); Const::Int(0) }
                "undef" | "poison" | "zeroinitializer" => { self.adv(); zero(t) }
                "splat" => { self.adv(); self.exp_p(b'('); let et = self.ty(); let c = self.cons(&et); self.exp_p(b')'); Const::Agg(Rc::new(vec![c; t.nelem()])) }
                "getelementptr" => {
                    self.adv(); while let T::Word(w) = self.peek() { if matches!(*w, "inbounds" | "nuw" | "nusw" | "inrange") { self.adv(); if self.is_p(b'(') && w_is(&T::Word("inrange"), "inrange") && { let s = self.l.s; let mut j = self.l.i; while s[j] == b' ' { j += 1; } s[j] == b'-' || s[j].is_ascii_digit() } { self.skip_parens(); } } else { break; } }
                    self.exp_p(b'(');
                    let bt = self.ty(); self.exp_p(b',');
                    let pt = self.ty(); let base = match self.cons(&pt) { Const::Int(v) => v as i128, _ => self.fail("gep base") };
                    let mut off = 0i128; let mut cur = bt; let mut first = true;
                    while self.eat_p(b',') {
                        while self.eat_w("inrange") {}
                        let it = self.ty(); let iv = match self.cons(&it) { Const::Int(v) => sx(v, it.bits()), _ => self.fail("gep idx") };
                        if first { off += iv * cur.size() as i128; first = false; }
                        else { off += match &cur { Ty::Struct(..) => cur.field_off(iv as usize) as i128, _ => iv * cur.elem(0).size() as i128 }; cur = cur.elem(if let Ty::Struct(..) = cur { iv as usize } else { 0 }).clone(); }
                    }
                    self.exp_p(b')'); Const::Int(Self::mask((base + off) as u128, 64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                    self.adv(); self.exp_p(b'('); let ft = self.ty(); let c = self.cons(&ft); if !self.eat_w("to") { self.fail("to"); } let tt = self.ty(); self.exp_p(b')');
                    match c { Const::Int(v) => Const::Int(Self::mask(v, tt.bits())), c => c }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                    self.adv(); while self.eat_w("nuw") || self.eat_w("nsw") {}
                    self.exp_p(b'('); let ta = self.ty(); let a = self.cons(&ta); self.exp_p(b','); let tb = self.ty(); let b = self.cons(&tb); self.exp_p(b')');
                    if let (Const::Int(a), Const::Int(b)) = (a, b) { let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, "mul" => a.wrapping_mul(b), _ => a | b }; Const::Int(Self::mask(r, ta.bits())) } else { self.fail("constexpr") }
                }
                // float specials
                "inf" | "nan" | "qnan" => { self.adv(); Const::Int(fspecial(w, false, t)) }
                _ => {
                    if w.starts_with("0x") || w.starts_with("f0x") { self.adv(); return Const::Int(self.numc(w, t)); }
                    self.fail(&format!("constant {}", w))
                }
            },
            T::P(b'+') | T::P(b'-') => { let neg = self.is_p(b'-'); self.adv(); if let T::Word(w) = self.adv() { Const::Int(fspecial(w, neg, t)) } else { self.fail("float const") } }
            T::Glob(n) => { self.adv(); match self.gaddr.get(n) { Some(a) => Const::Int(*a as u128), None => self.fail(&format!("unknown global {}", n)) } }
            T::CStr(b) => {
                self.adv(); let mut v = vec![]; let mut i = 0;
                while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { v.push(Const::Int(b'\\' as u128)); i += 2; } else { let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap(); v.push(Const::Int(u8::from_str_radix(h, 16).unwrap() as u128)); i += 3; } } else { v.push(Const::Int(b[i] as u128)); i += 1; } }
                Const::Agg(Rc::new(v))
            }
            T::P(b'[') => { self.adv(); self.agg(b']') }
            T::P(b'{') => { self.adv(); self.agg(b'}') }
            T::P(b'<') => { self.adv(); if self.eat_p(b'{') { let c = self.agg(b'}'); self.exp_p(b'>'); c } else { self.agg(b'>') } }
            _ => self.fail("constant"),
        }
    }
    fn agg(&mut self, end: u8) -> Const { let mut v = vec![]; if self.eat_p(end) { return Const::Agg(Rc::new(v)); } loop { let t = self.ty(); v.push(self.cons(&t)); if self.eat_p(end) { break; } self.exp_p(b','); } Const::Agg(Rc::new(v)) }
    fn numc(&self, n: &str, t: &Ty) -> u128 {
        match t {
            Ty::F64 | Ty::F32 => {
                if n == "+qnan" || n == "-qnan" || n == "+inf" || n == "-inf" || n == "+nan" || n == "-nan" { return fspecial(&n[1..], n.starts_with('-'), t); }
                if let Some(h) = n.strip_prefix("0x").or_else(|| n.strip_prefix("f0x")) {
                    let b = u64::from_str_radix(h, 16).unwrap();
                    if *t == Ty::F64 || n.starts_with("f0x") { b as u128 } else { (f64::from_bits(b) as f32).to_bits() as u128 }
                } else {
                    let f: f64 = n.parse().unwrap_or_else(|_| self.fail(&format!("float {}", n)));
                    if *t == Ty::F64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }
                }
            }
            Ty::Int(w) => { let v: u128 = if n.starts_with('-') { n.parse::<i128>().unwrap() as u128 } else { n.parse::<u128>().unwrap_or_else(|_| self.fail(n)) }; Self::mask(v, *w) }
            Ty::Ptr => 0,
            _ => self.fail("numeric constant type"),
        }
    }

    fn k(&mut self, c: Const) -> u32 {
        if let Const::Int(v) = c { if let Some(i) = self.kcache.get(&v) { return *i; } let i = self.m.consts.len() as u32; self.m.consts.push(c); self.kcache.insert(v, i); return i; }
        self.m.consts.push(c); self.m.consts.len() as u32 - 1
    }
    fn reg(&mut self, n: &'a str) -> u32 { if let Some(r) = self.regs.get(n) { *r } else { let r = self.nregs; self.nregs += 1; self.regs.insert(n, r); r } }
    fn bb(&mut self, n: &'a str) -> u32 { if let Some(r) = self.blocks.get(n) { *r } else { let r = self.nblocks; self.nblocks += 1; self.blocks.insert(n, r); r } }
    fn val(&mut self, t: &Ty) -> Op {
        if let T::Local(n) = *self.peek() { self.adv(); return Op::R(self.reg(n)); }
        if *t == Ty::Other { self.skip_meta_arg(); return Op::K(self.k(Const::Int(0))); }
        let c = self.cons(t); Op::K(self.k(c))
    }
    fn skip_meta_arg(&mut self) { // metadata argument
        match self.adv() { T::Meta => {} _ => { /* e.g. ptr %x as value */ } }
    }
    fn tyval(&mut self) -> (Ty, Op) { let t = self.ty(); let v = self.val(&t); (t, v) }
    fn label(&mut self) -> u32 { if !self.eat_w("label") { self.fail("label"); } match self.adv() { T::Local(n) => self.bb(n), _ => self.fail("label") } }

    /// skip parameter attributes
    fn attrs(&mut self) -> Option<u64> {
        let mut byval = None;
        loop {
            match self.peek() {
                T::Word(w) => {
                    let w = *w;
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "inf" | "nan" | "qnan" | "sub" | "add" | "trunc" | "none" | "ptrtoaddr") || w.starts_with("0x") || w.starts_with("f0x") { return byval; }
                    self.adv();
                    if w == "align" { if self.is_p(b'(') { self.skip_parens(); } else { self.num(); } continue; }
                    if w == "byval" { self.exp_p(b'('); let t = self.ty(); self.exp_p(b')'); byval = Some(t.size()); continue; }
                    if self.is_p(b'(') { self.skip_parens(); }
                }
                T::Str(_) => { self.adv(); if self.eat_p(b'=') { self.adv(); } }
                T::Attr => { self.adv(); }
                _ => return byval,
            }
        }
    }

    fn func(&mut self, _def: bool) {
        self.adv();
        // linkage etc. until type
        let mut fname: &'a str;
        loop { match self.adv() { T::Glob(n) => { fname = n; break } T::P(b'(') => { let mut d = 1; while d > 0 { match self.adv() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, _ => {} } } } T::Eof => self.fail("define"), _ => {} } }
        self.regs.clear(); self.nregs = 0; self.blocks.clear(); self.nblocks = 0;
        self.exp_p(b'(');
        let mut np = 0u32; let mut unnamed = 0u32; let mut byvals = vec![];
        if !self.eat_p(b')') {
            loop {
                if self.is_p(b'.') || self.is_w("...") { self.adv(); while !self.is_p(b')') { self.adv(); } self.adv(); break; }
                self.ty(); let bv = self.attrs(); byvals.push(bv);
                if let T::Local(n) = *self.peek() { self.adv(); self.reg(n); } else { let nm: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str()); self.reg(nm); }
                unnamed += 1; np += 1;
                if self.eat_p(b')') { break; } self.exp_p(b',');
            }
        }
        while !self.is_p(b'{') { self.adv(); }
        self.adv();
        let mut blocks: Vec<Block> = vec![];
        // entry block label
        let mut cur: Option<u32> = None;
        let mut first = true;
        loop {
            if self.is_p(b'}') { self.adv(); break; }
            // label?
            let is_label = { // current token followed immediately by ':'
                matches!(self.peek(), T::Word(_) | T::Num(_) | T::Str(_)) && self.l.i < self.l.s.len() && self.l.s[self.l.i] == b':'
            };
            if is_label {
                let n = match self.adv() { T::Word(n) | T::Num(n) | T::Str(n) => n, _ => unreachable!() };
                self.adv(); // ':'
                let b = self.bb(n); cur = Some(b); first = false;
                continue;
            }
            if first {
                // implicit entry label; LLVM numbers it with the next unnamed value number
                let nm: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                cur = Some(self.bb(nm)); first = false;
            }
            let b = cur.unwrap() as usize;
            while blocks.len() <= b { blocks.push(Block::default()); }
            self.inst(&mut blocks, b);
        }
        while blocks.len() < self.nblocks as usize { blocks.push(Block::default()); }
        if blocks.len() > 0 && false { fname = ""; }
        let fi = self.m.fidx[fname] as usize;
        let f = &mut self.m.funcs[fi];
        f.blocks = blocks; f.nregs = self.nregs; f.nparams = np; f.defined = true; f.params_byval = byvals;
    }

    fn trailing(&mut self) {
        loop {
            if self.is_p(b',') {
                // metadata or align
                self.adv();
                match self.peek() {
                    T::Meta => { self.adv(); if *self.peek() == T::Meta { self.adv(); } }
                    T::Word("align") => { self.adv(); self.num(); }
                    _ => self.fail("trailing"),
                }
            } else if *self.peek() == T::Attr { self.adv(); } else { break; }
        }
    }

    fn inst(&mut self, blocks: &mut Vec<Block>, b: usize) {
        let mut dst: Option<&'a str> = None;
        if let T::Local(n) = *self.peek() { self.adv(); self.exp_p(b'='); dst = Some(n); }
        let opw = match self.adv() { T::Word(w) => w, _ => self.fail("opcode") };
        let d = |p: &mut Self| -> u32 { let n = dst.unwrap(); p.reg(n) };
        let inst = match opw {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("exact") || self.eat_w("disjoint") {}
                let (t, a) = self.tyval(); self.exp_p(b','); let bb = self.val(&t);
                let w = if let Ty::Vec(_, e) = &t { e.bits() } else { t.bits() };
                let op = match opw { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, _ => BinOp::AShr };
                Inst::Bin { op, w, dst: d(self), a, b: bb }
            }
            "icmp" => {
                self.eat_w("samesign");
                let p = match self.adv() { T::Word(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.fail("pred") }, _ => self.fail("pred") };
                let (t, a) = self.tyval(); self.exp_p(b','); let bb = self.val(&t);
                let w = if let Ty::Vec(_, e) = &t { e.bits() } else { t.bits() };
                Inst::Cmp { pred: p, w, dst: d(self), a, b: bb }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { self.fm(); let (t, a) = self.tyval(); self.exp_p(b','); let bb = self.val(&t); Inst::FBin { op: match opw { "fadd" => '+', "fsub" => '-', "fmul" => '*', "fdiv" => '/', _ => '%' }, w: t.bits(), dst: d(self), a, b: bb } }
            "fneg" => { self.fm(); let (t, a) = self.tyval(); Inst::FNeg { w: t.bits(), dst: d(self), a } }
            "fcmp" => { self.fm(); let p = match self.adv() { T::Word(w) => w.to_string(), _ => self.fail("fpred") }; let (t, a) = self.tyval(); self.exp_p(b','); let bb = self.val(&t); Inst::FCmp { pred: p, w: t.bits(), dst: d(self), a, b: bb } }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while self.eat_w("nuw") || self.eat_w("nsw") || self.eat_w("nneg") {} self.fm();
                let (t, a) = self.tyval(); if !self.eat_w("to") { self.fail("to"); } let tt = self.ty();
                let op = match opw { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt, _ => CastOp::Same };
                let (fw, tw) = match (&t, &tt) { (Ty::Vec(_, x), Ty::Vec(_, y)) => (x.bits(), y.bits()), _ => (t.bits(), tt.bits()) };
                let op = if op == CastOp::Same { if tw < fw { CastOp::Trunc } else if tw > fw { CastOp::ZExt } else { CastOp::Same } } else { op };
                Inst::Cast { op, from: fw, to: tw, dst: d(self), a }
            }
            "bitcast" => { let (t, a) = self.tyval(); if !self.eat_w("to") { self.fail("to"); } let tt = self.ty(); Inst::BitCast { dst: d(self), a, from: t, to: tt } }
            "load" => {
                self.eat_w("atomic"); self.eat_w("volatile");
                let t = self.ty(); self.exp_p(b','); let (_, p) = self.tyval(); self.atomic_tail();
                Inst::Load { dst: d(self), p, ty: t }
            }
            "store" => { self.eat_w("atomic"); self.eat_w("volatile"); let (t, v) = self.tyval(); self.exp_p(b','); let (_, p) = self.tyval(); self.atomic_tail(); Inst::Store { p, v, ty: t } }
            "getelementptr" => {
                while self.eat_w("inbounds") || self.eat_w("nuw") || self.eat_w("nusw") {}
                let bt = self.ty(); self.exp_p(b','); let (_, base) = self.tyval();
                let mut off = 0i64; let mut idx = vec![]; let mut cur = bt; let mut firsti = true;
                while self.is_p(b',') && { // metadata check
                    let mut j = self.l.i; while self.l.s[j] == b' ' { j += 1; } self.l.s[j] != b'!' } {
                    self.adv();
                    let (it, iv) = self.tyval();
                    let scale;
                    if firsti { scale = cur.size() as i64; firsti = false; }
                    else if let Ty::Struct(..) = &cur { let c = match iv { Op::K(k) => match &self.m.consts[k as usize] { Const::Int(v) => *v as usize, _ => self.fail("gep") }, _ => self.fail("gep struct idx") }; off += cur.field_off(c) as i64; cur = cur.elem(c).clone(); continue; }
                    else { let e = cur.elem(0).clone(); scale = e.size() as i64; cur = e; }
                    match iv {
                        Op::K(k) => { let c = match &self.m.consts[k as usize] { Const::Int(v) => sx(*v, it.bits()), _ => self.fail("gep") }; off = off.wrapping_add((c as i64).wrapping_mul(scale)); }
                        r => idx.push((r, scale, it.bits())),
                    }
                }
                Inst::Gep { dst: d(self), base, off, idx }
            }
            "alloca" => {
                self.eat_w("inalloca"); let t = self.ty(); let mut n = 1u64;
                while self.is_p(b',') { self.adv(); if self.eat_w("align") { self.num(); } else if *self.peek() == T::Meta { self.adv(); if *self.peek() == T::Meta { self.adv(); } } else { self.ty(); n = self.num() as u64; } }
                Inst::Alloca { dst: d(self), size: t.size() * n }
            }
            "select" => { self.fm(); let (_, c) = self.tyval(); self.exp_p(b','); let (t, a) = self.tyval(); self.exp_p(b','); let (_, bb) = self.tyval(); Inst::Select { dst: d(self), c, a, b: bb, ty: t } }
            "phi" => {
                self.fm(); let t = self.ty(); let mut inc = vec![];
                loop { self.exp_p(b'['); let v = self.val(&t); self.exp_p(b','); let bb = match self.adv() { T::Local(n) => self.bb(n), _ => self.fail("phi") }; self.exp_p(b']'); inc.push((bb, v));
                    if self.is_p(b',') { let mut j = self.l.i; while self.l.s[j] == b' ' { j += 1; } if self.l.s[j] == b'[' { self.adv(); continue; } } break; }
                self.trailing();
                let dr = d(self); blocks[b].phis.push((dr, inc)); return;
            }
            "tail" | "musttail" | "notail" | "call" => {
                if opw != "call" { if !self.eat_w("call") { self.fail("call"); } }
                self.fm();
                // cc and return attributes
                loop {
                    match self.peek() {
                        T::Word(w) => {
                            let w = *w;
                            if matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) { break; }
                            self.adv(); if w == "align" && matches!(self.peek(), T::Num(_)) { self.adv(); } else if w == "cc" { self.adv(); } else if self.is_p(b'(') { self.skip_parens(); }
                        }
                        T::Str(_) => { self.adv(); }
                        _ => break,
                    }
                }
                let ret = self.ty();
                if self.is_p(b'(') { self.skip_parens(); } // explicit function type
                let callee = match self.adv() { T::Glob(n) => { if n.starts_with("llvm.") { Callee::Intr(n[5..].to_string()) } else { match self.m.fidx.get(n) { Some(i) => Callee::Fn(*i), None => self.fail(&format!("callee {}", n)) } } } T::Local(n) => Callee::Ind(Op::R(self.reg(n))), T::Word("asm") => { // inline asm: record as unsupported
                        Callee::Intr("asm".into()) } T::Word("inttoptr") => { self.skip_parens(); Callee::Intr("asm".into()) } _ => self.fail("callee") };
                if let Callee::Intr(s) = &callee { if s == "asm" { while !self.is_p(b'(') { self.adv(); } } }
                self.exp_p(b'(');
                let mut args = vec![]; let mut argw = vec![];
                if !self.eat_p(b')') { loop {
                    let t = self.ty();
                    if t == Ty::Other { // metadata
                        let mut dd = 0; loop { if dd == 0 && (self.is_p(b',') || self.is_p(b')')) { break; } if self.is_p(b'(') { dd += 1 } if self.is_p(b')') { dd -= 1 } self.adv(); }
                    } else { self.attrs(); args.push(self.val(&t)); argw.push(if t.is_scalar() { t.bits() } else { 0 }); }
                    if self.eat_p(b')') { break; } self.exp_p(b',');
                } }
                while *self.peek() == T::Attr || matches!(self.peek(), T::Str(_)) || self.is_w("nounwind") || self.is_w("noreturn") { self.adv(); if self.eat_p(b'=') { self.adv(); } }
                if self.is_p(b'[') { let mut dd = 0; loop { match self.adv() { T::P(b'[') => dd += 1, T::P(b']') => { dd -= 1; if dd == 0 { break; } } _ => {} } } }
                let dr = if dst.is_some() { Some(d(self)) } else { None };
                if let Callee::Intr(s) = &callee { if s.starts_with("lifetime") || s.starts_with("dbg") || s.contains("noalias.scope") || s.starts_with("assume") { self.trailing(); return; } }
                Inst::Call { dst: dr, callee, args, ret, argw }
            }
            "extractvalue" => { let (_, a) = self.tyval(); let mut path = vec![]; while self.is_p(b',') { self.adv(); if *self.peek() == T::Meta { self.adv(); if *self.peek() == T::Meta { self.adv(); } break; } path.push(self.num() as u32); } Inst::Extract { dst: d(self), a, path } }
            "insertvalue" => { let (_, a) = self.tyval(); self.exp_p(b','); let (_, v) = self.tyval(); let mut path = vec![]; while self.is_p(b',') { self.adv(); if *self.peek() == T::Meta { self.adv(); if *self.peek() == T::Meta { self.adv(); } break; } path.push(self.num() as u32); } Inst::Insert { dst: d(self), a, v, path } }
            "extractelement" => { let (_, v) = self.tyval(); self.exp_p(b','); let (_, i) = self.tyval(); Inst::ExtElem { dst: d(self), v, i } }
            "insertelement" => { let (_, v) = self.tyval(); self.exp_p(b','); let (_, e) = self.tyval(); self.exp_p(b','); let (_, i) = self.tyval(); Inst::InsElem { dst: d(self), v, e, i } }
            "shufflevector" => {
                let (t, a) = self.tyval(); self.exp_p(b','); let (_, bb) = self.tyval(); self.exp_p(b','); let mt = self.ty(); let m = self.cons(&mt);
                let mask = match m { Const::Agg(v) => v.iter().map(|c| if let Const::Int(x) = c { *x as u32 } else { 0 }).collect(), _ => self.fail("mask") };
                Inst::Shuffle { dst: d(self), a, b: bb, mask, n: t.nelem() as u32 }
            }
            "freeze" => { let (_, a) = self.tyval(); Inst::Copy { dst: d(self), a } }
            "atomicrmw" => {
                self.eat_w("volatile");
                let op = match self.adv() { T::Word(w) => match w { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, "nand" => RmwOp::Nand, _ => self.fail("rmw") }, _ => self.fail("rmw") };
                let (_, p) = self.tyval(); self.exp_p(b','); let (t, v) = self.tyval(); self.atomic_tail();
                let dd = match dst { Some(_) => d(self), None => { let r = self.nregs; self.nregs += 1; r } };
                Inst::Rmw { dst: dd, op, p, v, w: t.bits() }
            }
            "cmpxchg" => { while self.eat_w("weak") || self.eat_w("volatile") {} let (_, p) = self.tyval(); self.exp_p(b','); let (t, c) = self.tyval(); self.exp_p(b','); let (_, n) = self.tyval(); self.atomic_tail(); let dd = match dst { Some(_) => d(self), None => { let r = self.nregs; self.nregs += 1; r } }; Inst::CmpXchg { dst: dd, p, c, n, w: t.bits() } }
            "fence" => { self.atomic_tail(); Inst::Nop }
            "br" => {
                if self.is_w("label") { let t = self.label(); Inst::Br { t } } else { let (_, c) = self.tyval(); self.exp_p(b','); let t = self.label(); self.exp_p(b','); let f = self.label(); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tyval(); self.exp_p(b','); let def = self.label(); self.exp_p(b'[');
                let mut cases = vec![];
                while !self.eat_p(b']') { let ct = self.ty(); let c = match self.cons(&ct) { Const::Int(v) => v, _ => self.fail("case") }; self.exp_p(b','); let l = self.label(); cases.push((c, l)); }
                Inst::Switch { v, w: t.bits(), def, cases: Rc::new(cases) }
            }
            "ret" => { let t = self.ty(); if t == Ty::Void { Inst::Ret { v: None } } else { let v = self.val(&t); Inst::Ret { v: Some(v) } } }
            "unreachable" => Inst::Unreachable,
            _ => self.fail(&format!("opcode {}", opw)),
        };
        self.trailing();
        blocks[b].insts.push(inst);
    }
    fn fm(&mut self) { while let T::Word(w) = self.peek() { if matches!(*w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.adv(); } else { break; } } }
    fn atomic_tail(&mut self) { loop { match self.peek() { T::Word(w) if matches!(*w, "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered" | "syncscope") => { self.adv(); if self.is_p(b'(') { self.skip_parens(); } } _ => break } } }
}

fn fspecial(w: &str, neg: bool, t: &Ty) -> u128 {
    let s = if neg { 1u128 } else { 0 };
    if *t == Ty::F64 { (s << 63) | if w == "inf" { 0x7ff0u128 << 48 } else { 0x7ff8u128 << 48 } } else { (s << 31) | if w == "inf" { 0x7f80u128 << 16 } else { 0x7fc0u128 << 16 } }
}
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }
fn zero(t: &Ty) -> Const { match t { Ty::Struct(f, _) => Const::Agg(Rc::new(f.iter().map(zero).collect())), Ty::Arr(n, e) => Const::Agg(Rc::new(vec![zero(e); *n as usize])), Ty::Vec(n, e) => Const::Agg(Rc::new(vec![zero(e); *n as usize])), _ => Const::Int(0) } }
fn emit(c: &Const, t: &Ty, out: &mut [u8], off: usize) {
    match c {
        Const::Int(v) => { let n = t.store_size() as usize; for i in 0..n { out[off + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 }; } }
        Const::Agg(v) => for (i, e) in v.iter().enumerate() { emit(e, t.elem(i), out, off + t.field_off(i) as usize); }
    }
}
