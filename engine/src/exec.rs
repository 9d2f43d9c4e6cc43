//! Path-forking symbolic interpreter.
use crate::expr::*;
use crate::ir::{self, BinOp, Callee, CastOp, Const, Func, Inst, Module, Pred, RmwOp, Ty, FN_BASE, SHIFT};
use crate::smt::{Ans, Smt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Rc<u128>), E(E), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Frame { pub f: u32, pub b: u32, pub ip: u32, pub regs: Vec<Val>, pub dst: Option<u32>, pub allocas: Vec<u32> }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub heap: bool }

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct Mem { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, free: Vec<u32>, next: u32, gover: Vec<(u32, Rc<Obj>)> }

#[derive(Clone, Debug)]
pub enum Ev { Obs(Val, u32), Reach(u32) }

#[derive(Clone)]
pub struct Dom { pub set: [u64; 4], pub n: u32 }

#[derive(Clone)]
pub struct State {
    pub h: u32, pub cur: Frame, pub stack: Vec<Rc<Frame>>, pub mem: Mem,
    pub doms: Vec<Option<Rc<Dom>>>, pub varw: Vec<u8>, pub inmulti: Vec<bool>,
    pub pcs: Vec<E>, pub model: Vec<u64>, pub conc: Vec<(E, u64)>, pub events: Vec<Ev>, pub expect_panic: u32, pub steps: u64, pub depth: u32,
    pub ghost: Vec<bool>, pub ftab: Vec<(Rc<Vec<E>>, E)>, pub written: Vec<(Rc<Vec<E>>, E)>, pub intfmt: Option<(E, E, E)>, pub precise: bool,
}

pub enum End { Ret, Panic(String), Killed, Violation, Inconclusive(String) }
pub enum Out { End(End, Box<State>), Fork(Vec<State>) }

#[derive(Default, Clone)]
pub struct HStat { pub paths: u64, pub ok: u64, pub killed: u64, pub exp_panic: u64, pub steps: u64, pub forks: u64, pub checks: u64, pub checks_const: u64, pub checks_smt: u64, pub violations: u64, pub gviol: u64, pub reach: BTreeMap<u32, u64>, pub checkids: BTreeMap<u32, u64>, pub maxdepth: u32 }

pub struct Violation { pub ghost: bool, pub h: u32, pub what: String, pub inputs: Vec<(u8, u64)>, pub stack: String }
pub struct Sample { pub ghost: bool, pub h: u32, pub inputs: Vec<(u8, u64)>, pub events: Vec<(u8, u64)>, pub end: &'static str }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Alloc, Dealloc, Realloc, AllocZ, Nop, Panic, HashOne, RandKeys, Bcmp, Memcmp, Strlen, Memcpy, Memset, SymBits, SymInt, SymIntText, SymChoice, SymAssume, SymCheck, SymReach, SymObs, SymExpect, SymSplit, GhostBits, GhostChoice, SymFloatOf, SymFloatText, SymFloatSeen, SymFloatMode, SymAbort, FmtFloat, FmtInt, ParseFloat, Undefined }

pub struct Exec {
    pub m: Rc<Module>, pub ar: Arena, pub smt: Smt, hooks: Vec<Hook>, consts: Rc<Vec<Val>>, gobjs: Rc<Vec<Rc<Obj>>>, first_slot: u32,
    cache: HashMap<(Vec<E>, Vec<(u32, [u64; 4])>), Ans>, pub range_decided: u64, narrowed: HashMap<(E, [u64; 4]), Val>, validated: HashSet<E>,
    pub stats: Vec<HStat>, pub violations: Vec<Violation>, pub inconclusive: Vec<(u32, String)>, pub samples: Vec<Sample>, pub funcs_run: Vec<bool>, pub max_steps: u64, pub tt_checked: u64, pub fork_sites: HashMap<(u32, u32, u32), u64>, pub prof: bool, pub deadline: Option<std::time::Instant>,
    rng: u64, seen: Vec<u64>, pub stubs_used: BTreeSet<String>, pub inconclusive_total: u64,
}

pub struct Fk { c: E, conc: Option<(E, u64)>, model: Vec<u64> }
enum X { Fork(Vec<Fk>), End(End) }
type R<T> = Result<T, X>;

fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn s64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w; ((v << s) as i64) >> s } }

fn cval(c: &Const) -> Val { match c { Const::Int(v) => if *v <= u64::MAX as u128 { Val::C(*v as u64) } else { Val::W(Rc::new(*v)) }, Const::Agg(v) => Val::A(Rc::new(v.iter().map(cval).collect())) } }

/// the width of the integer type whose Display this is
/// a function's name without the number the linker appends and without the instantiating crate
fn base_name(n: &str) -> &str { let n = match n.rsplit_once('.') { Some((h, t)) if t.bytes().all(|b| b.is_ascii_digit()) => h, _ => n }; for e in ["7Display3fmt", "14spec_to_string", "8from_str"] { if let Some(i) = n.rfind(e) { if n[i + e.len()..].starts_with("Cs") { return &n[..i + e.len()]; } } } n }
/// width and signedness of the integer type whose Display::fmt has the mangled name n
fn fmt_int(n: &str) -> Option<(u32, bool)> {
    let h = if n.contains("3fmt3num") && n.ends_with("7Display3fmt") { n.rsplit_once("Nt")?.0 } else if n.ends_with("12SpecToString14spec_to_string") { let h = n.rsplit_once("Nt")?.0; if h[..h.len() - 1].ends_with("6string") { h } else { return None } } else { return None }; Some(match h.as_bytes().last()? { b'm' => (32, false), b'l' => (32, true), b'y' | b'j' => (64, false), b'x' | b'i' => (64, true), b'o' => (128, false), b'n' => (128, true), _ => return None })
}

impl Mem {
    fn alloc(&mut self, first: u32, o: Obj) -> u32 {
        let i = if let Some(i) = self.free.pop() { i } else { let i = self.next; self.next += 1; i };
        let (c, k) = (i as usize / CH, i as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[k] = Some(Rc::new(o));
        i + first
    }
    fn release(&mut self, first: u32, slot: u32) { let i = slot - first; Rc::make_mut(&mut self.chunks[i as usize / CH])[i as usize % CH] = None; self.free.push(i); }
}

impl Exec {
    pub fn new(m: Rc<Module>, nharness: usize, timeout_ms: u32) -> Exec {
        let mut hooks = vec![];
        for f in &m.funcs {
            let n = base_name(&f.name);
            let h = if n.starts_with("__sym_") { match n { "__sym_bits" => Hook::SymBits, "__sym_choice" => Hook::SymChoice, "__sym_assume" => Hook::SymAssume, "__sym_check" => Hook::SymCheck, "__sym_reach" => Hook::SymReach, "__sym_observe" => Hook::SymObs, "__sym_expect_panic" => Hook::SymExpect, "__sym_split" => Hook::SymSplit, "__sym_ghost_bits" => Hook::GhostBits, "__sym_ghost_choice" => Hook::GhostChoice, "__sym_float_of" => Hook::SymFloatOf, "__sym_float_text" => Hook::SymFloatText, "__sym_float_seen" => Hook::SymFloatSeen, "__sym_float_mode" => Hook::SymFloatMode, "__sym_int" => Hook::SymInt, "__sym_int_text" => Hook::SymIntText, _ => panic!("unknown {}", n) } }
                else if n.contains("___rust_alloc_zeroed") { Hook::AllocZ } else if n.contains("___rust_alloc_error") { Hook::Panic } else if n.contains("___rust_alloc") { Hook::Alloc } else if n.contains("___rust_dealloc") { Hook::Dealloc } else if n.contains("___rust_realloc") { Hook::Realloc } else if n.contains("___rust_no_alloc_shim") { Hook::Nop }
                else if n.contains("3fmt5floatdN") && n.ends_with("7Display3fmt") { Hook::FmtFloat } else if fmt_int(n).is_some() { Hook::FmtInt } else if n.contains("3num11float_parsedN") && n.ends_with("8from_str") { Hook::ParseFloat }
                else if f.defined { Hook::None }
                else if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking19panic_nounwind_fmt") || n.contains("18handle_alloc_error") || n.contains("begin_unwind") || n.contains("3std9panicking") || n.contains("7process5abort") { Hook::Panic }
                else if n.contains("8hash_one") { Hook::HashOne } else if n.contains("hashmap_random_keys") { Hook::RandKeys }
                else { match n { "bcmp" => Hook::Bcmp, "memcmp" => Hook::Memcmp, "strlen" => Hook::Strlen, "memcpy" | "memmove" => Hook::Memcpy, "memset" => Hook::Memset, /* destructors of thread-local variables run after the harness */ "__cxa_thread_atexit_impl" => Hook::Nop, "abort" | "_exit" | "exit" => Hook::SymAbort, _ => Hook::Undefined } };
            hooks.push(h);
        }
        let consts = Rc::new(m.consts.iter().map(cval).collect::<Vec<_>>());
        let mut g = vec![Rc::new(Obj { data: vec![], sym: None, heap: false })];
        for x in &m.globals { debug_assert_eq!((x.addr >> SHIFT) as usize, g.len()); g.push(Rc::new(Obj { data: x.init.clone(), sym: None, heap: false })); }
        let first = g.len() as u32;
        let nf = m.funcs.len();
        Exec { m, ar: Arena::new(), smt: Smt::new(timeout_ms), hooks, consts, gobjs: Rc::new(g), first_slot: first, cache: HashMap::new(), range_decided: 0, narrowed: HashMap::new(), validated: HashSet::new(), stats: vec![HStat::default(); nharness], violations: vec![], deadline: None, inconclusive: vec![], samples: vec![], funcs_run: vec![false; nf], max_steps: 60_000_000, tt_checked: 0, fork_sites: HashMap::new(), prof: false, rng: 88172645463325252, seen: vec![0; nharness], stubs_used: BTreeSet::new(), inconclusive_total: 0 }
    }
    pub fn seed(&mut self, j: u64) { self.rng ^= (j + 1).wrapping_mul(0x9e3779b97f4a7c15); for x in &mut self.seen { *x = 0; } }
    pub fn initial(&mut self, h: u32, f: u32) -> State {
        let fun = &self.m.funcs[f as usize];
        State { h, cur: Frame { f, b: 0, ip: 0, regs: vec![Val::C(0); fun.nregs as usize], dst: None, allocas: vec![] }, stack: vec![], mem: Mem::default(), doms: vec![], varw: vec![], inmulti: vec![], pcs: vec![], model: vec![], conc: vec![], events: vec![], expect_panic: 0, steps: 0, depth: 0, ghost: vec![], ftab: vec![], written: vec![], intfmt: None, precise: false }
    }

    // ---------- values
    fn ex(&mut self, v: &Val, w: u32) -> E { match v { Val::C(x) => self.ar.cst(*x as u128, w), Val::W(x) => self.ar.cst(**x, w), Val::E(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } Val::A(_) => panic!("scalar expected") } }
    fn norm(&self, e: E) -> Val { if self.ar.w(e) <= 64 { if let Some(v) = self.ar.k(e) { return Val::C(v as u64); } } Val::E(e) }
    fn fixed(&self, st: &State, v: u32) -> bool { match st.doms.get(v as usize) { Some(Some(d)) => d.n == 1, _ => false } }
    /// replace by a constant when the path already determines it
    fn simp(&mut self, st: &State, e: E) -> Val {
        let sup = self.ar.support(e);
        let single = if sup.len() == 1 { Some(sup[0]) } else { None };
        for v in sup.iter() { if !self.fixed(st, *v) { if !st.conc.is_empty() { for (x, k) in st.conc.iter() { if *x == e { return Val::C(*k); } } }
            return match single { Some(v) => self.narrow(st, e, v), None => Val::E(e) }; } }
        let w = self.ar.w(e);
        let v = self.ar.eval(e, &st.model);
        if w <= 64 { Val::C(v as u64) } else { Val::E(self.ar.cst(v, w)) }
    }
    /// the same value, in its simplest form on the values that the path leaves to v
    fn narrow(&mut self, st: &State, e: E, v: u32) -> Val {
        let w = self.ar.w(e); if w == 1 || w > 64 || self.ar.has_fp[e as usize] { return Val::E(e); }
        let op = self.ar.nodes[e as usize].op; if op == Op::Var { return Val::E(e); }
        let d = match st.doms.get(v as usize) { Some(Some(d)) => d.set, _ => return Val::E(e) };
        if let Some(r) = self.narrowed.get(&(e, d)) { return r.clone(); }
        let vw = st.varw[v as usize] as u32; let mut m = st.model.clone(); let (mut same, mut ident, mut max) = (true, true, 0u64); let mut first = None;
        for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { m[v as usize] = i as u64; let x = self.ar.eval(e, &m) as u64; if *first.get_or_insert(x) != x { same = false; } if x != i as u64 { ident = false; } max = max.max(x); } }
        let r = if same && first.is_some() { Val::C(first.unwrap()) } else if ident && vw <= w { let x = self.ar.var(v, vw); let x = self.ar.zext(x, w); Val::E(x) }
            else { let b = 64 - max.leading_zeros(); if b < w && b > 0 && !(op == Op::ZExt && self.ar.w(self.ar.nodes[e as usize].a) <= b) { let x = self.ar.extract(e, 0, b); let x = self.ar.zext(x, w); Val::E(x) } else { Val::E(e) } };
        self.narrowed.insert((e, d), r.clone()); r
    }
    #[inline]
    fn get(&mut self, st: &State, o: ir::Op) -> Val {
        match o { ir::Op::K(k) => self.consts[k as usize].clone(), ir::Op::R(r) => match &st.cur.regs[r as usize] { Val::C(x) => Val::C(*x), Val::E(e) => { let e = *e; self.simp(st, e) } v => v.clone() } }
    }

    // ---------- solver glue
    fn eff(&self, st: &State, e: E) -> Vec<u32> { self.ar.support(e).iter().cloned().filter(|v| !self.fixed(st, *v)).collect() }
    fn slice(&self, st: &State, q: &[E]) -> (Vec<E>, Vec<(u32, u32, Option<[u64; 4]>)>) {
        let mut vars: BTreeSet<u32> = BTreeSet::new(); let mut free: BTreeSet<u32> = BTreeSet::new();
        for e in q { for v in self.ar.support(*e).iter() { vars.insert(*v); if !self.fixed(st, *v) { free.insert(*v); } } }
        let mut used = vec![false; st.pcs.len()]; let mut cs = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pcs.iter().enumerate() { if used[i] { continue; }
                if self.ar.support(*c).iter().any(|v| free.contains(v)) { used[i] = true; ch = true; cs.push(*c); for v in self.ar.support(*c).iter() { vars.insert(*v); if !self.fixed(st, *v) { free.insert(*v); } } } }
            if !ch { break; }
        }
        let doms = vars.iter().map(|v| (*v, st.varw[*v as usize] as u32, st.doms[*v as usize].as_ref().map(|d| d.set))).collect();
        (cs, doms)
    }
    fn solve(&mut self, st: &State, q: &[E]) -> Option<Option<Vec<u64>>> {
        let (mut cs, doms) = self.slice(st, q);
        for e in q { cs.push(*e); }
        cs.sort_unstable(); cs.dedup();
        let key = (cs.clone(), doms.iter().filter_map(|(v, _, d)| d.map(|d| (*v, d))).collect::<Vec<_>>());
        let ans = if let Some(a) = self.cache.get(&key) { self.smt.stats.cache_hits += 1; a.clone() } else {
            // cheap attempt for float-heavy queries: try a few concrete assignments first
            let a = if cs.iter().any(|e| self.ar.has_fp[*e as usize]) { match self.guess(st, &cs, &doms) { Some(a) => a, None => self.smt.check(&self.ar, &cs, &doms) } } else { self.smt.check(&self.ar, &cs, &doms) };
            self.cache.insert(key, a.clone()); a };
        match ans { Ans::Unsat => Some(None), Ans::Sat(mv) => { let mut m = st.model.clone(); for (v, x) in mv { m[v as usize] = x; } 
                // sanity: the model must satisfy the query under our own evaluation
                for e in q { if self.ar.eval(*e, &m) == 0 { if self.ar.has_fp[*e as usize] { return None; } panic!("z3 model does not satisfy query"); } }
                Some(Some(m)) } Ans::Unknown => None }
    }
    fn guess(&mut self, st: &State, cs: &[E], doms: &[(u32, u32, Option<[u64; 4]>)]) -> Option<Ans> {
        let mut m = st.model.clone();
        for t in 0..200u64 {
            for (v, w, d) in doms { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; let r = self.rng;
                let x = match d { Some(d) => { let n: u32 = d.iter().map(|x| x.count_ones()).sum(); let mut k = (r % n as u64) as u32; let mut res = 0; for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { if k == 0 { res = i as u64; break; } k -= 1; } } res }
                    None => { let full = r & m64(*w); match t % 4 { 0 => full, 1 => full >> (self.rng >> 32) % (*w as u64), 2 => full & 0xff, _ => [0u64, 1, u64::MAX, 1 << 63, 0x3ff0 << 48, 0x7fef << 48, 1 << 53, (1 << 53) + 1][(r >> 20) as usize & 7] & m64(*w) } } };
                m[*v as usize] = x; }
            self.ar.new_epoch();
            if cs.iter().all(|e| self.ar.eval_ep(*e, &m) != 0) { return Some(Ans::Sat(doms.iter().map(|(v, _, _)| (*v, m[*v as usize])).collect())); }
        }
        None
    }
    /// set of values of byte variable v (within its domain) for which c is true; other variables of c are fixed
    fn vset(&mut self, st: &State, c: E, v: u32) -> [u64; 4] {
        let d = st.doms[v as usize].as_ref().unwrap().clone();
        if self.ar.support(c).len() == 1 {
            let w = st.varw[v as usize] as u32; let t = self.ar.truth(c, v, w);
            if self.validated.insert(c) { self.validate_tt(c, v, w, &t); }
            return [t[0] & d.set[0], t[1] & d.set[1], t[2] & d.set[2], t[3] & d.set[3]];
        }
        let mut r = [0u64; 4]; let mut m = st.model.clone();
        for i in 0..256usize { if d.set[i >> 6] >> (i & 63) & 1 == 1 { m[v as usize] = i as u64; if self.ar.eval(c, &m) != 0 { r[i >> 6] |= 1 << (i & 63); } } }
        r
    }
    fn validate_tt(&mut self, c: E, v: u32, w: u32, t: &[u64; 4]) {
        // z3 must agree that c holds exactly on t
        let full = if w >= 8 { [u64::MAX; 4] } else if w == 7 { [u64::MAX, u64::MAX, 0, 0] } else { [m64(1 << w), 0, 0, 0] };
        let compl = [full[0] & !t[0], full[1] & !t[1], full[2] & !t[2], full[3] & !t[3]];
        self.tt_checked += 1;
        if !self.smt.agrees(&self.ar, c, v, w, t, compl == [0; 4], *t == [0; 4]) { panic!("truth table disagrees with z3: {} {:x?}", self.ar.show(c, 30), t); }
    }
    fn first(s: &[u64; 4]) -> Option<u64> { for i in 0..4 { if s[i] != 0 { return Some((i * 64) as u64 + s[i].trailing_zeros() as u64); } } None }
    /// model of (path and c), or None when infeasible
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Vec<u64>>> {
        if let Some(k) = self.ar.k(c) { return Ok(if k != 0 { Some(st.model.clone()) } else { None }); }
        if self.ar.eval(c, &st.model) != 0 { return Ok(Some(st.model.clone())); }
        let eff = self.eff(st, c);
        if eff.is_empty() { return Ok(None); }
        if eff.len() == 1 && st.doms[eff[0] as usize].is_some() {
            let v = eff[0];
            let s = self.vset(st, c, v);
            match Self::first(&s) { None => return Ok(None), Some(x) => if !st.inmulti[v as usize] { let mut m = st.model.clone(); m[v as usize] = x; return Ok(Some(m)); } }
        }
        { let doms = &st.doms; let f = |v: u32| doms.get(v as usize).and_then(|d| d.as_ref()).and_then(|d| { let lo = Self::first(&d.set)?; let hi = (0..4).rev().find(|i| d.set[*i] != 0).map(|i| i as u64 * 64 + 63 - d.set[i].leading_zeros() as u64)?; Some((lo as u128, hi as u128)) });
            if self.ar.range_d(c, 12, &f).1 == 0 { self.range_decided += 1; return Ok(None); } }
        // a disjunction is feasible if one of its parts is: smaller, often independent queries
        let mut parts = vec![]; self.disjuncts(c, &mut parts);
        if parts.len() > 1 { for p in parts { if let Some(m) = self.feasible(st, p)? { return Ok(Some(m)); } } return Ok(None); }
        match self.solve(st, &[c]) { Some(r) => Ok(r), None => Err(X::End(End::Inconclusive("solver gave no answer".into()))) }
    }
    fn disjuncts(&mut self, c: E, out: &mut Vec<E>) {
        let n = self.ar.nodes[c as usize];
        if n.op == Op::Or && n.w == 1 { self.disjuncts(n.a, out); self.disjuncts(n.b, out); return; }
        if n.op == Op::Not && n.w == 1 { let i = self.ar.nodes[n.a as usize]; if i.op == Op::And { let a = self.ar.not(i.a); let b = self.ar.not(i.b); self.disjuncts(a, out); self.disjuncts(b, out); return; } }
        out.push(c);
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if self.ar.k(c).is_some() { return; }
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And { self.assume(st, n.a); self.assume(st, n.b); return; }
        if n.op == Op::Not { let i = self.ar.nodes[n.a as usize]; if i.op == Op::Or { let a = self.ar.not(i.a); let b = self.ar.not(i.b); self.assume(st, a); self.assume(st, b); return; } }
        let eff = self.eff(st, c);
        if eff.is_empty() { return; }
        if eff.len() == 1 && st.doms[eff[0] as usize].is_some() {
            let v = eff[0]; let s = self.vset(st, c, v);
            let n = s.iter().map(|x| x.count_ones()).sum();
            st.doms[v as usize] = Some(Rc::new(Dom { set: s, n }));
            return;
        }
        if n.op == Op::Eq { if let Some(k) = self.ar.k(n.b) { if self.ar.w(n.a) <= 64 { st.conc.push((n.a, k as u64)); } } }
        st.conc.push((c, 1)); if n.op == Op::Not { st.conc.push((n.a, 0)); }
        for v in eff { st.inmulti[v as usize] = true; }
        st.pcs.push(c);
    }
    fn values(&mut self, st: &State, e: E, cap: usize) -> R<Vec<(u64, Vec<u64>)>> {
        let w = self.ar.w(e);
        let eff = self.eff(st, e);
        let mut out: Vec<(u64, Vec<u64>)> = vec![];
        if eff.len() == 1 && st.doms[eff[0] as usize].is_some() {
            let v = eff[0]; let d = st.doms[v as usize].as_ref().unwrap().clone();
            let mut m = st.model.clone(); let mut seen = HashMap::new();
            for i in 0..256usize { if d.set[i >> 6] >> (i & 63) & 1 == 1 { m[v as usize] = i as u64; let x = self.ar.eval(e, &m) as u64; seen.entry(x).or_insert(m.clone()); } }
            let mut l: Vec<_> = seen.into_iter().collect(); l.sort();
            if !st.inmulti[v as usize] { return Ok(l); }
            for (x, _) in l { let c = self.ar.cst(x as u128, w); let q = self.ar.cmp(Op::Eq, e, c); if let Some(m) = self.feasible(st, q)? { out.push((x, m)); } }
            return Ok(out);
        }
        let x0 = self.ar.eval(e, &st.model) as u64;
        out.push((x0, st.model.clone()));
        let mut qs = vec![];
        loop {
            if self.late() { return Err(X::End(End::Inconclusive("time limit".into()))); }
            let c = self.ar.cst(out.last().unwrap().0 as u128, w); let q = self.ar.cmp(Op::Eq, e, c); let q = self.ar.not(q); qs.push(q);
            match self.solve(st, &qs) { Some(None) => break, Some(Some(m)) => { let x = self.ar.eval(e, &m) as u64; out.push((x, m)); } None => return Err(X::End(End::Inconclusive("solver gave no answer (values)".into()))) }
            if out.len() > cap { return Err(X::End(End::Inconclusive(format!("more than {} values to fork over", cap)))); }
        }
        out.sort();
        Ok(out)
    }
    /// concrete value, forking over all feasible ones if there are several
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x), Val::W(x) => Ok(**x as u64),
            Val::E(e) => {
                if let Some(k) = self.ar.k(*e) { return Ok(k as u64); }
                for (x, k) in st.conc.iter() { if x == e { return Ok(*k); } }
                let vs = self.values(st, *e, 1024)?;
                if vs.len() == 1 { st.conc.push((*e, vs[0].0)); return Ok(vs[0].0); }
                let mut l = vec![];
                for (x, m) in vs { let c = self.ar.cst(x as u128, w); let q = self.ar.cmp(Op::Eq, *e, c); l.push(Fk { c: q, conc: Some((*e, x)), model: m }); }
                Err(X::Fork(l))
            }
            Val::A(_) => panic!("conc of aggregate"),
        }
    }

    // ---------- memory
    fn obj<'a>(&'a self, st: &'a State, slot: u64) -> Option<&'a Rc<Obj>> {
        if slot < self.first_slot as u64 { if slot == 0 { return None; } for (s, o) in st.mem.gover.iter() { if *s as u64 == slot { return Some(o); } } return self.gobjs.get(slot as usize); }
        let i = (slot - self.first_slot as u64) as usize; st.mem.chunks.get(i / CH)?[i % CH].as_ref()
    }
    fn obj_mut<'a>(&self, st: &'a mut State, slot: u64) -> Option<&'a mut Obj> {
        if slot < self.first_slot as u64 {
            if slot == 0 { return None; }
            let p = match st.mem.gover.iter().position(|(s, _)| *s as u64 == slot) { Some(p) => p, None => { if self.m.globals[slot as usize - 1].constant { return None; } st.mem.gover.push((slot as u32, self.gobjs[slot as usize].clone())); st.mem.gover.len() - 1 } };
            return Some(Rc::make_mut(&mut st.mem.gover[p].1));
        }
        let i = (slot - self.first_slot as u64) as usize;
        let c = Rc::make_mut(st.mem.chunks.get_mut(i / CH)?); Some(Rc::make_mut(c[i % CH].as_mut()?))
    }
    fn fault<T>(&self, m: String) -> R<T> { Err(X::End(End::Panic(format!("memory fault: {}", m)))) }
    fn rd(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize; let (slot, off) = (addr >> SHIFT, (addr & ((1 << SHIFT) - 1)) as usize);
        let o = match self.obj(st, slot) { Some(o) => o, None => return self.fault(format!("load of {} bytes at {:#x}", n, addr)) };
        if off + n > o.data.len() { let l = o.data.len(); return self.fault(format!("load of {} bytes at offset {} of object of {} bytes", n, off, l)); }
        let symb = match &o.sym { None => false, Some(s) => s[off..off + n].iter().any(|x| *x != 0) };
        if !symb {
            if n <= 8 { let mut v = 0u64; for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u64; } return Ok(Val::C(v & m64(w))); }
            let mut v = 0u128; for i in (0..n.min(16)).rev() { v = (v << 8) | o.data[off + i] as u128; }
            return Ok(if v <= u64::MAX as u128 { Val::C(v as u64) } else { Val::W(Rc::new(v)) });
        }
        let o = o.clone(); let s = o.sym.as_ref().unwrap();
        let mut e: Option<E> = None;
        for i in (0..n).rev() {
            let b = if s[off + i] != 0 { match self.simp(st, s[off + i]) { Val::C(x) => self.ar.cst(x as u128, 8), Val::E(e) => e, _ => unreachable!() } } else { self.ar.cst(o.data[off + i] as u128, 8) };
            e = Some(match e { None => b, Some(h) => self.ar.concat(h, b) });
        }
        let mut e = e.unwrap(); if self.ar.w(e) > w { e = self.ar.extract(e, 0, w); }
        match self.norm(e) { Val::E(e) => Ok(self.simp(st, e)), v => Ok(v) }
    }
    fn wr(&mut self, st: &mut State, addr: u64, v: &Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize; let (slot, off) = (addr >> SHIFT, (addr & ((1 << SHIFT) - 1)) as usize);
        let mut bytes = [0u32; 32]; let mut k = [0u8; 32]; let mut symb = false;
        match v {
            Val::C(x) => for i in 0..n { k[i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 }; },
            Val::W(x) => for i in 0..n { k[i] = if i < 16 { (**x >> (8 * i)) as u8 } else { 0 }; },
            Val::E(e) => { let e = if w as usize != n * 8 { self.ar.zext(*e, (n * 8) as u32) } else { *e };
                for i in 0..n { let b = self.ar.extract(e, (i * 8) as u32, 8); if let Some(c) = self.ar.k(b) { k[i] = c as u8; } else { bytes[i] = b; symb = true; } } }
            Val::A(_) => panic!("wr agg"),
        }
        let o = match self.obj_mut(st, slot) { Some(o) => o, None => return self.fault(format!("store of {} bytes at {:#x}", n, addr)) };
        if off + n > o.data.len() { let l = o.data.len(); return self.fault(format!("store of {} bytes at offset {} of object of {} bytes", n, off, l)); }
        o.data[off..off + n].copy_from_slice(&k[..n]);
        if symb { let len = o.data.len(); let s = o.sym.get_or_insert_with(|| vec![0; len]); s[off..off + n].copy_from_slice(&bytes[..n]); }
        else if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.rd(st, addr, ty.bits()),
            Ty::Vec(n, t) if t.bits() >= 8 => { let b = t.bits(); let mut v = vec![]; for i in 0..*n { v.push(self.rd(st, addr + (i * b / 8) as u64, b)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Vec(n, t) => { let x = self.rd(st, addr, n * t.bits())?; self.bitcast(&x, &Ty::Int(n * t.bits()), ty) }
            Ty::Struct(..) | Ty::Arr(..) => { let mut v = vec![]; for i in 0..ty.nelem() { v.push(self.load(st, addr + ty.field_off(i), ty.elem(i))?); } Ok(Val::A(Rc::new(v))) }
            _ => panic!("load ty"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.wr(st, addr, v, ty.bits()),
            Ty::Vec(_, t) if t.bits() < 8 => { let x = self.bitcast(v, ty, &Ty::Int(ty.bits()))?; self.wr(st, addr, &x, ty.bits()) }
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => { if let Val::A(l) = v { for (i, x) in l.iter().enumerate() { self.store(st, addr + ty.field_off(i), x, ty.elem(i))?; } Ok(()) } else { panic!("store agg") } }
            _ => panic!("store ty"),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> R<u64> {
        if size >= (1 << SHIFT) { return Err(X::End(End::Inconclusive(format!("allocation of {} bytes", size)))); }
        let s = st.mem.alloc(self.first_slot, Obj { data: vec![0; size as usize], sym: None, heap });
        Ok((s as u64) << SHIFT)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let n = n as usize; let (ss, so) = (s >> SHIFT, (s & ((1 << SHIFT) - 1)) as usize); let (ds, dof) = (d >> SHIFT, (d & ((1 << SHIFT) - 1)) as usize);
        let src = match self.obj(st, ss) { Some(o) => o.clone(), None => return self.fault(format!("copy from {:#x}", s)) };
        if so + n > src.data.len() { return self.fault(format!("copy of {} bytes from offset {} of {}", n, so, src.data.len())); }
        let dst = match self.obj_mut(st, ds) { Some(o) => o, None => return self.fault(format!("copy to {:#x}", d)) };
        if dof + n > dst.data.len() { return self.fault(format!("copy of {} bytes to offset {} of {}", n, dof, dst.data.len())); }
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match &src.sym { Some(x) if x[so..so + n].iter().any(|e| *e != 0) => { let l = dst.data.len(); dst.sym.get_or_insert_with(|| vec![0; l])[dof..dof + n].copy_from_slice(&x[so..so + n]); }
            _ => if let Some(y) = &mut dst.sym { for e in &mut y[dof..dof + n] { *e = 0; } } }
        Ok(())
    }
    fn load_sym(&mut self, st: &mut State, a: E, ty: &Ty) -> R<Val> {
        // symbolic address: a table lookup when all feasible addresses are concrete bytes of one object
        let w = ty.bits();
        for (x, k) in st.conc.iter() { if *x == a { let k = *k; return self.load(st, k, ty); } }
        // within a constant table whatever the variables are: no need to know which addresses are feasible
        if ty.is_scalar() && w <= 64 && w >= 8 {
            let (lo, hi, g) = self.ar.stride(a);
            if hi > lo && g > 0 && hi >> SHIFT == lo >> SHIFT && (hi - lo) / g <= 8192 && (hi - lo) / g >= 16 {
                let (lo, g) = (lo as u64, g as u64); let n = (hi as u64 - lo) / g + 1;
                let inside = match self.obj(st, lo >> SHIFT) { Some(o) => (hi as u64 & ((1 << SHIFT) - 1)) as usize + w as usize / 8 <= o.data.len(), None => false };
                if inside {
                    let mut t = vec![0u64; n as usize]; let mut ok = true;
                    for i in 0..n { match self.rd(st, lo + i * g, w)? { Val::C(v) => t[i as usize] = v, _ => { ok = false; break; } } }
                    if ok { let k = self.ar.cst(lo as u128, 64); let i = self.ar.bin(Op::Sub, a, k); let k = self.ar.cst(g as u128, 64); let i = self.ar.bin(Op::UDiv, i, k); let e = self.ar.table(t, i, w); return Ok(self.norm(e)); }
                }
            }
        }
        let vs = self.values(st, a, 4096)?;
        if vs.len() == 1 { let k = vs[0].0; st.conc.push((a, k)); return self.load(st, k, ty); }
        let slot = vs[0].0 >> SHIFT;
        if ty.is_scalar() && w <= 64 && vs.iter().all(|(x, _)| x >> SHIFT == slot) && self.obj(st, slot).is_some() {
            let mut g = 0u64; for (x, _) in &vs { g = gcd(g, x - vs[0].0); }
            let (lo, hi) = (vs[0].0, vs.last().unwrap().0);
            if (hi - lo) / g <= 4096 {
                let mut t = vec![0u64; ((hi - lo) / g + 1) as usize]; let mut ok = true;
                for (x, _) in &vs { match self.rd(st, *x, w)? { Val::C(v) => t[((x - lo) / g) as usize] = v, _ => { ok = false; break; } } }
                if ok { let k = self.ar.cst(lo as u128, 64); let i = self.ar.bin(Op::Sub, a, k); let k = self.ar.cst(g as u128, 64); let i = self.ar.bin(Op::UDiv, i, k); let e = self.ar.table(t, i, w); return Ok(self.norm(e)); }
            }
        }
        let v = Val::E(a); let k = self.conc(st, &v, 64)?; self.load(st, k, ty)
    }

    // ---------- operations
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) if w <= 64 => {
                let (x, y) = (*x, *y);
                let r = match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y }, BinOp::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                    BinOp::UDiv => if y == 0 { 0 } else { x / y }, BinOp::URem => if y == 0 { 0 } else { x % y }, BinOp::SDiv => if y == 0 { 0 } else { s64(x, w).wrapping_div(s64(y, w)) as u64 }, BinOp::SRem => if y == 0 { 0 } else { s64(x, w).wrapping_rem(s64(y, w)) as u64 } };
                Val::C(r & m64(w))
            }
            (Val::A(x), Val::A(y)) => { let (x, y) = (x.clone(), y.clone()); Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, w, p, q)).collect())) }
            _ => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
                let e = self.ar.bin(o, x, y); self.norm(e)
            }
        }
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => { let (x, y) = (*x, *y); let (sx, sy) = (s64(x, w), s64(y, w)); if w <= 64 { return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64); } }
            (Val::A(x), Val::A(y)) => { let (x, y) = (x.clone(), y.clone()); return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(q, r)| self.cmp(p, w, q, r)).collect())); }
            _ => {}
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p { Pred::Eq => self.ar.cmp(Op::Eq, x, y), Pred::Ne => { let e = self.ar.cmp(Op::Eq, x, y); self.ar.not(e) } Pred::Ugt => self.ar.cmp(Op::Ult, y, x), Pred::Uge => self.ar.cmp(Op::Ule, y, x), Pred::Ult => self.ar.cmp(Op::Ult, x, y), Pred::Ule => self.ar.cmp(Op::Ule, x, y),
            Pred::Sgt => self.ar.cmp(Op::Slt, y, x), Pred::Sge => self.ar.cmp(Op::Sle, y, x), Pred::Slt => self.ar.cmp(Op::Slt, x, y), Pred::Sle => self.ar.cmp(Op::Sle, x, y) };
        self.norm(e)
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, ty: &Ty) -> Val {
        match c {
            Val::C(x) => if *x & 1 != 0 { a.clone() } else { b.clone() },
            Val::E(e) => { let e = *e; match ty {
                Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => if let (Val::A(x), Val::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); Val::A(Rc::new((0..x.len()).map(|i| self.select(&Val::E(e), &x[i], &y[i], ty.elem(i))).collect())) } else { panic!("select") },
                _ => { let w = ty.bits(); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.ar.ite(e, x, y); self.norm(r) } } }
            Val::A(cs) => if let (Val::A(x), Val::A(y)) = (a, b) { let (cs, x, y) = (cs.clone(), x.clone(), y.clone()); Val::A(Rc::new((0..x.len()).map(|i| self.select(&cs[i], &x[i], &y[i], ty.elem(i))).collect())) } else { panic!("select") },
            _ => panic!("select"),
        }
    }
    fn cast(&mut self, op: CastOp, from: u32, to: u32, a: &Val) -> Val {
        if let Val::A(l) = a { let l = l.clone(); return Val::A(Rc::new(l.iter().map(|x| self.cast(op, from, to, x)).collect())); }
        if let Val::C(x) = a { let x = *x; if from <= 64 && to <= 64 { match op { CastOp::Trunc => return Val::C(x & m64(to)), CastOp::ZExt | CastOp::Same => return Val::C(x), CastOp::SExt => return Val::C(s64(x, from) as u64 & m64(to)), _ => {} } } else if matches!(op, CastOp::ZExt) { return Val::C(x); } }
        let e = self.ex(a, from);
        let r = match op { CastOp::Trunc => self.ar.extract(e, 0, to), CastOp::ZExt => self.ar.zext(e, to), CastOp::SExt => self.ar.sext(e, to), CastOp::Same => e,
            CastOp::FpToUi => self.ar.un(Op::FToU, e, to), CastOp::FpToSi => self.ar.un(Op::FToS, e, to), CastOp::UiToFp => self.ar.un(Op::UToF, e, to), CastOp::SiToFp => self.ar.un(Op::SToF, e, to), CastOp::FpTrunc => self.ar.un(Op::FTrunc, e, to), CastOp::FpExt => self.ar.un(Op::FExt, e, to) };
        self.norm(r)
    }
    fn bitcast(&mut self, a: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if from.is_scalar() && to.is_scalar() { return Ok(a.clone()); }
        let lanes = |t: &Ty| -> (u32, u32) { match t { Ty::Vec(n, e) => (*n, e.bits()), _ => (1, t.bits()) } };
        let (fnn, fb) = lanes(from); let (tn, tb) = lanes(to);
        let src: Vec<Val> = match a { Val::A(l) => l.to_vec(), v => vec![v.clone()] };
        if fnn * fb <= 128 && src.iter().all(|v| matches!(v, Val::C(_) | Val::W(_))) {
            let mut x = 0u128; for i in (0..fnn as usize).rev() { let v = match &src[i] { Val::C(v) => *v as u128, Val::W(v) => **v, _ => 0 }; x = if fb >= 128 { v } else { (x << fb) | (v & mask(fb)) }; }
            let mk = |v: u128| if v <= u64::MAX as u128 { Val::C(v as u64) } else { Val::W(Rc::new(v)) };
            if let Ty::Vec(..) = to { return Ok(Val::A(Rc::new((0..tn).map(|i| mk((x >> (i * tb)) & mask(tb))).collect()))); }
            return Ok(mk(x));
        }
        if fnn * fb > 128 { return Err(X::End(End::Inconclusive("wide vector bitcast".into()))); }
        let mut e: Option<E> = None; for i in (0..fnn as usize).rev() { let x = self.ex(&src[i], fb); e = Some(match e { None => x, Some(h) => self.ar.concat(h, x) }); }
        let e = e.unwrap();
        if let Ty::Vec(..) = to { let mut v = vec![]; for i in 0..tn { let x = self.ar.extract(e, i * tb, tb); v.push(self.norm(x)); } return Ok(Val::A(Rc::new(v))); }
        Ok(self.norm(e))
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let e = match p {
            "oeq" => ar.fbin(Op::FEq, x, y), "olt" => ar.fbin(Op::FLt, x, y), "ole" => ar.fbin(Op::FLe, x, y), "ogt" => ar.fbin(Op::FLt, y, x), "oge" => ar.fbin(Op::FLe, y, x),
            "une" => { let e = ar.fbin(Op::FEq, x, y); ar.not(e) } "uge" => { let e = ar.fbin(Op::FLt, x, y); ar.not(e) } "ugt" => { let e = ar.fbin(Op::FLe, x, y); ar.not(e) } "ule" => { let e = ar.fbin(Op::FLt, y, x); ar.not(e) } "ult" => { let e = ar.fbin(Op::FLe, y, x); ar.not(e) }
            "uno" | "ord" => { let (p1, q) = (ar.un(Op::FNan, x, 1), ar.un(Op::FNan, y, 1)); let u = ar.or(p1, q); if p == "uno" { u } else { ar.not(u) } }
            "ueq" => { let (p1, q) = (ar.un(Op::FNan, x, 1), ar.un(Op::FNan, y, 1)); let u = ar.or(p1, q); let e = ar.fbin(Op::FEq, x, y); ar.or(u, e) }
            "one" => { let l = ar.fbin(Op::FLt, x, y); let g = ar.fbin(Op::FLt, y, x); ar.or(l, g) }
            "true" => ar.cst(1, 1), _ => ar.cst(0, 1),
        };
        self.norm(e)
    }
    fn fbin(&mut self, op: char, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if op == '%' && (self.ar.k(x).is_none() || self.ar.k(y).is_none()) {
            // remainder of a division by one: the fraction, with the sign of the dividend
            if w != 64 || self.ar.k(y) != Some(1f64.to_bits() as u128) { return Err(X::End(End::Inconclusive("symbolic remainder of floats".into()))); }
            let t = self.ftrunc(x); let d = self.ar.fbin(Op::FSub, x, t); let s = self.ar.cst(1 << 63, 64); let s = self.ar.bin(Op::And, x, s); let r = self.ar.bin(Op::Or, d, s);
            let nan = self.ar.un(Op::FNan, d, 1); let r = self.ar.ite(nan, d, r); return Ok(self.norm(r));
        }
        let o = match op { '+' => Op::FAdd, '-' => Op::FSub, '*' => Op::FMul, '/' => Op::FDiv, _ => Op::FRem };
        let e = self.ar.fbin(o, x, y); Ok(self.norm(e))
    }

    fn jump(&mut self, st: &mut State, m: &Module, t: u32) {
        let from = st.cur.b; let blk = &m.funcs[st.cur.f as usize].blocks[t as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 { let (d, inc) = &blk.phis[0]; let o = inc.iter().find(|(b, _)| *b == from).expect("phi edge").1; let v = self.get(st, o); st.cur.regs[*d as usize] = v; }
            else { let vals: Vec<Val> = blk.phis.iter().map(|(_, inc)| { let o = inc.iter().find(|(b, _)| *b == from).expect("phi edge").1; self.get(st, o) }).collect(); for ((d, _), v) in blk.phis.iter().zip(vals) { st.cur.regs[*d as usize] = v; } }
        }
        st.cur.b = t; st.cur.ip = 0;
    }
    fn stack_names(&self, st: &State) -> String { let mut v = vec![self.m.funcs[st.cur.f as usize].name.clone()]; for f in st.stack.iter().rev() { v.push(self.m.funcs[f.f as usize].name.clone()); } v.join(" < ") }
    fn ghostly(st: &State) -> bool { st.ghost.iter().any(|x| *x) || !st.ftab.is_empty() }
    pub fn inputs(&self, st: &State, model: &[u64]) -> Vec<(u8, u64)> { st.varw.iter().zip(model.iter()).zip(st.ghost.iter()).filter(|x| !*x.1).map(|((w, v), _)| (*w, *v)).collect() }

    fn late(&self) -> bool { self.deadline.map_or(false, |d| std::time::Instant::now() > d) }
    pub fn run(&mut self, mut st: State) -> Out {
        let m = self.m.clone();
        loop {
            st.steps += 1; self.stats[st.h as usize].steps += 1;
            if st.steps & 2047 == 0 && self.late() { return Out::End(End::Inconclusive("time limit".into()), Box::new(st)); }
            if st.steps > self.max_steps { return Out::End(End::Panic("instruction limit".into()), Box::new(st)); }
            match self.step(&mut st, &m) {
                Ok(None) => {}
                Ok(Some(end)) => return Out::End(end, Box::new(st)),
                Err(X::End(e)) => return Out::End(e, Box::new(st)),
                Err(X::Fork(l)) => {
                    self.stats[st.h as usize].forks += l.len() as u64 - 1;
                    if self.prof { *self.fork_sites.entry((st.cur.f, st.cur.b, st.cur.ip)).or_default() += l.len() as u64 - 1; }
                    st.depth += 1;
                    let d = st.depth; let s = &mut self.stats[st.h as usize]; s.maxdepth = s.maxdepth.max(d);
                    let n = l.len(); let mut out = Vec::with_capacity(n); let mut st = Some(st);
                    for (i, f) in l.into_iter().enumerate() {
                        let mut s = if i + 1 == n { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
                        s.model = f.model;
                        self.assume(&mut s, f.c);
                        if let Some(k) = f.conc { s.conc.push(k); }
                        out.push(s);
                    }
                    return Out::Fork(out);
                }
            }
        }
    }

    fn branch(&mut self, st: &State, c: E) -> R<(Option<Vec<u64>>, Option<Vec<u64>>, E)> {
        let n = self.ar.not(c);
        let t = self.feasible(st, c)?; let f = self.feasible(st, n)?;
        Ok((t, f, n))
    }

    fn step(&mut self, st: &mut State, m: &Module) -> R<Option<End>> {
        let fun: &Func = &m.funcs[st.cur.f as usize];
        let inst = &fun.blocks[st.cur.b as usize].insts[st.cur.ip as usize];
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[$d as usize] = v; st.cur.ip += 1; }} }
        match inst {
            Inst::Bin { op, w, dst, a, b } => { let (a, b) = (self.get(st, *a), self.get(st, *b)); let v = self.bin(*op, *w, &a, &b); set!(*dst, v); }
            Inst::Cmp { pred, w, dst, a, b } => { let (a, b) = (self.get(st, *a), self.get(st, *b)); let v = self.cmp(*pred, *w, &a, &b); set!(*dst, v); }
            Inst::Load { dst, p, ty } => {
                let v = match self.get(st, *p) { Val::C(a) => self.load(st, a, ty)?, Val::E(e) => self.load_sym(st, e, ty)?, _ => panic!("load addr") };
                set!(*dst, v);
            }
            Inst::Store { p, v, ty } => { let p = self.get(st, *p); let a = self.conc(st, &p, 64)?; let v = self.get(st, *v); self.store(st, a, &v, ty)?; st.cur.ip += 1; }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.get(st, *base);
                let mut r = match b { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), b => self.bin(BinOp::Add, 64, &b, &Val::C(*off as u64)) };
                for (o, s, w) in idx {
                    let i = self.get(st, *o);
                    r = match (&r, &i) {
                        (Val::C(x), Val::C(y)) => Val::C(x.wrapping_add((s64(*y, *w)).wrapping_mul(*s) as u64)),
                        _ => { let e = self.ex(&i, *w); let e = self.ar.sext(e, 64); let k = self.ar.cst(*s as u64 as u128, 64); let e = self.ar.bin(Op::Mul, e, k); let x = self.ex(&r, 64); let e = self.ar.bin(Op::Add, x, e); self.norm(e) }
                    };
                }
                set!(*dst, r);
            }
            Inst::Cast { op, from, to, dst, a } => { let a = self.get(st, *a); let v = self.cast(*op, *from, *to, &a); set!(*dst, v); }
            Inst::Br { t } => { self.jump(st, m, *t); }
            Inst::CondBr { c, t, f } => {
                match self.get(st, *c) {
                    Val::C(x) => { let t = if x & 1 != 0 { *t } else { *f }; self.jump(st, m, t); }
                    Val::E(e) => {
                        if t == f { self.jump(st, m, *t); return Ok(None); }
                        let (mt, mf, n) = self.branch(st, e)?;
                        match (mt, mf) {
                            (Some(_), None) => { self.assume(st, e); self.jump(st, m, *t) }
                            (None, Some(_)) => { self.assume(st, n); self.jump(st, m, *f) }
                            (Some(a), Some(b)) => return Err(X::Fork(vec![Fk { c: e, conc: None, model: a }, Fk { c: n, conc: None, model: b }])),
                            (None, None) => return Err(X::End(End::Inconclusive("path became infeasible".into()))),
                        }
                    }
                    _ => panic!("br"),
                }
            }
            Inst::Switch { v, w, def, cases } => {
                match self.get(st, *v) {
                    Val::C(x) => { let t = cases.iter().find(|(k, _)| *k == x as u128).map(|c| c.1).unwrap_or(*def); self.jump(st, m, t); }
                    Val::E(e) => {
                        let mut tg: Vec<(u32, E)> = vec![]; let mut any = self.ar.cst(0, 1);
                        for (k, t) in cases.iter() { let kc = self.ar.cst(*k, *w); let q = self.ar.cmp(Op::Eq, e, kc); any = self.ar.or(any, q); if let Some(x) = tg.iter_mut().find(|x| x.0 == *t) { x.1 = self.ar.or(x.1, q); } else { tg.push((*t, q)); } }
                        let mut d = self.ar.not(any);
                        if let Some(i) = tg.iter().position(|x| x.0 == *def) { d = self.ar.or(d, tg[i].1); tg.remove(i); }
                        tg.push((*def, d));
                        let mut l = vec![]; let mut last = 0;
                        for (t, q) in tg { if let Some(mm) = self.feasible(st, q)? { l.push(Fk { c: q, conc: None, model: mm }); last = t; } }
                        if l.len() == 1 { self.assume(st, l[0].c); self.jump(st, m, last); } else if l.is_empty() { return Err(X::End(End::Inconclusive("path became infeasible".into()))); } else { return Err(X::Fork(l)); }
                    }
                    Val::W(x) => { let t = cases.iter().find(|(k, _)| *k == *x).map(|c| c.1).unwrap_or(*def); self.jump(st, m, t); }
                    _ => panic!("switch"),
                }
            }
            Inst::Select { dst, c, a, b, ty } => { let c = self.get(st, *c); let (a, b) = (self.get(st, *a), self.get(st, *b)); let v = self.select(&c, &a, &b, ty); set!(*dst, v); }
            Inst::Alloca { dst, size } => { let a = self.alloc(st, *size, false)?; st.cur.allocas.push((a >> SHIFT) as u32); set!(*dst, Val::C(a)); }
            Inst::Extract { dst, a, path } => { let mut v = self.get(st, *a); for i in path { v = match v { Val::A(l) => l[*i as usize].clone(), _ => panic!("extract") }; } set!(*dst, v); }
            Inst::Insert { dst, a, v, path } => { let mut x = self.get(st, *a); let v = self.get(st, *v); insert(&mut x, v, path); set!(*dst, x); }
            Inst::ExtElem { dst, v, i } => { let v = self.get(st, *v); let i = self.get(st, *i); let k = self.conc(st, &i, 64)?; match v { Val::A(l) => set!(*dst, l[k as usize].clone()), _ => panic!("extelem") } }
            Inst::InsElem { dst, v, e, i } => { let mut v = self.get(st, *v); let i = self.get(st, *i); let k = self.conc(st, &i, 64)?; let e = self.get(st, *e); insert(&mut v, e, &[k as u32]); set!(*dst, v); }
            Inst::Shuffle { dst, a, b, mask, n } => { let (a, b) = (self.get(st, *a), self.get(st, *b)); if let (Val::A(x), Val::A(y)) = (&a, &b) { let v = mask.iter().map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() }).collect(); set!(*dst, Val::A(Rc::new(v))); } else { panic!("shuffle") } }
            Inst::BitCast { dst, a, from, to } => { let a = self.get(st, *a); let v = self.bitcast(&a, from, to)?; set!(*dst, v); }
            Inst::FBin { op, w, dst, a, b } => { let (a, b) = (self.get(st, *a), self.get(st, *b)); let v = self.fbin(*op, *w, &a, &b)?; set!(*dst, v); }
            Inst::FCmp { pred, w, dst, a, b } => { let (a, b) = (self.get(st, *a), self.get(st, *b)); let v = self.fcmp(pred, *w, &a, &b); set!(*dst, v); }
            Inst::FNeg { w, dst, a } => { let a = self.get(st, *a); let v = self.bin(BinOp::Xor, *w, &a, &Val::C(1 << (w - 1))); set!(*dst, v); }
            Inst::Copy { dst, a } => { let v = self.get(st, *a); set!(*dst, v); }
            Inst::Nop => st.cur.ip += 1,
            Inst::Rmw { dst, op, p, v, w } => {
                let p = self.get(st, *p); let a = self.conc(st, &p, 64)?; let v = self.get(st, *v); let old = self.rd(st, a, *w)?;
                let new = match op { RmwOp::Xchg => v, RmwOp::Add => self.bin(BinOp::Add, *w, &old, &v), RmwOp::Sub => self.bin(BinOp::Sub, *w, &old, &v), RmwOp::And => self.bin(BinOp::And, *w, &old, &v), RmwOp::Or => self.bin(BinOp::Or, *w, &old, &v), RmwOp::Xor => self.bin(BinOp::Xor, *w, &old, &v), _ => return Err(X::End(End::Inconclusive("atomicrmw".into()))) };
                self.wr(st, a, &new, *w)?; set!(*dst, old);
            }
            Inst::CmpXchg { dst, p, c, n, w } => {
                let p = self.get(st, *p); let a = self.conc(st, &p, 64)?; let (c, n) = (self.get(st, *c), self.get(st, *n)); let old = self.rd(st, a, *w)?;
                let (o, k) = (self.conc(st, &old, *w)?, self.conc(st, &c, *w)?);
                if o == k { self.wr(st, a, &n, *w)?; } set!(*dst, Val::A(Rc::new(vec![old, Val::C((o == k) as u64)])));
            }
            Inst::Ret { v } => {
                let v = match v { Some(o) => Some(self.get(st, *o)), None => None };
                let first = self.first_slot;
                for s in std::mem::take(&mut st.cur.allocas) { st.mem.release(first, s); }
                let dst = st.cur.dst;
                match st.stack.pop() {
                    None => return Ok(Some(End::Ret)),
                    Some(f) => { st.cur = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone()); if let Some(d) = dst { st.cur.regs[d as usize] = v.expect("ret value"); } st.cur.ip += 1; }
                }
            }
            Inst::Unreachable => return Err(X::End(End::Panic("reached an unreachable instruction".into()))),
            Inst::Call { dst, callee, args, ret, argw } => {
                let mut fi = match callee {
                    Callee::Intr(n) => { let vals: Vec<Val> = args.iter().map(|a| self.get(st, *a)).collect(); let r = self.intr(st, n, &vals, argw, ret)?; if let (Some(d), Some(v)) = (dst, r) { st.cur.regs[*d as usize] = v; } st.cur.ip += 1; return Ok(None); }
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => { let p = self.get(st, *o); let a = self.conc(st, &p, 64)?; if a < FN_BASE || ((a - FN_BASE) / 16) as usize >= m.funcs.len() { return self.fault(format!("call of {:#x}", a)); } ((a - FN_BASE) / 16) as u32 }
                };
                let vals: Vec<Val> = args.iter().map(|a| self.get(st, *a)).collect();
                if self.hooks[fi as usize] != Hook::None {
                    match self.hook(st, fi, &vals, argw, ret)? { HookRes::Val(v) => { if let (Some(d), Some(v)) = (dst, v) { st.cur.regs[*d as usize] = v; } st.cur.ip += 1; return Ok(None); } HookRes::End(e) => return Ok(Some(e)), HookRes::Body => {} HookRes::Redirect(t) => fi = t }
                }
                let f = &m.funcs[fi as usize];
                if !self.funcs_run[fi as usize] { self.funcs_run[fi as usize] = true; }
                if st.stack.len() > 4000 { return Err(X::End(End::Panic("call stack deeper than 4000 frames".into()))); }
                let mut regs = vec![Val::C(0); f.nregs as usize];
                for (i, v) in vals.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = v; } }
                let nf = Frame { f: fi, b: 0, ip: 0, regs, dst: *dst, allocas: vec![] };
                let old = std::mem::replace(&mut st.cur, nf);
                st.stack.push(Rc::new(old));
            }
        }
        Ok(None)
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> E {
        let i = st.varw.len() as u32; st.varw.push(w as u8); st.inmulti.push(false); st.model.push(0); st.ghost.push(false);
        st.doms.push(if w <= 8 { let n = 1u32 << w; let set = if w == 8 { [u64::MAX; 4] } else { let mut s = [0u64; 4]; for k in 0..n as usize { s[k >> 6] |= 1 << (k & 63); } s }; Some(Rc::new(Dom { set, n })) } else { None });
        self.ar.var(i, w)
    }

    fn hook(&mut self, st: &mut State, fi: u32, a: &[Val], argw: &[u32], ret: &Ty) -> R<HookRes> {
        let h = self.hooks[fi as usize];
        let k = |s: &mut Self, st: &mut State, i: usize| -> R<u64> { s.conc(st, &a[i], argw[i].max(1)) };
        Ok(HookRes::Val(match h {
            Hook::Alloc | Hook::AllocZ => { let n = k(self, st, 0)?; Some(Val::C(self.alloc(st, n, true)?)) }
            Hook::Dealloc => {
                let p = k(self, st, 0)?; let slot = p >> SHIFT;
                match self.obj(st, slot) { Some(o) if o.heap && p & ((1 << SHIFT) - 1) == 0 => {} _ => return self.fault(format!("bad free of {:#x}", p)) }
                let f = self.first_slot; st.mem.release(f, slot as u32); None
            }
            Hook::Realloc => {
                let p = k(self, st, 0)?; let n = k(self, st, 3)?; let old = match self.obj(st, p >> SHIFT) { Some(o) if o.heap => o.data.len() as u64, _ => return self.fault("bad realloc".into()) };
                let q = self.alloc(st, n, true)?; self.memcpy(st, q, p, old.min(n))?; let f = self.first_slot; st.mem.release(f, (p >> SHIFT) as u32); Some(Val::C(q))
            }
            Hook::Nop => Some(Val::C(0)),
            Hook::Panic => return Ok(HookRes::End(End::Panic("panic".into()))),
            Hook::SymAbort => return Ok(HookRes::End(End::Panic("abort".into()))),
            Hook::HashOne => { self.stubs_used.insert("hash_one=0".into()); Some(Val::C(0)) }
            Hook::RandKeys => Some(match ret { Ty::Struct(..) => Val::A(Rc::new(vec![Val::C(1), Val::C(2)])), _ => { if !a.is_empty() { let p = k(self, st, 0)?; self.wr(st, p, &Val::C(1), 64)?; self.wr(st, p + 8, &Val::C(2), 64)?; } Val::C(1) } }),
            Hook::Bcmp | Hook::Memcmp => {
                let (p, q, n) = (k(self, st, 0)?, k(self, st, 1)?, k(self, st, 2)?);
                let mut x = vec![]; for i in 0..n { let (c, d) = (self.rd(st, p + i, 8)?, self.rd(st, q + i, 8)?); x.push((c, d)); }
                if h == Hook::Bcmp {
                    let mut eq = self.ar.cst(1, 1);
                    for (c, d) in &x { let v = self.cmp(Pred::Eq, 8, c, d); let e = self.ex(&v, 1); eq = self.ar.and(eq, e); if self.ar.k(eq) == Some(0) { break; } }
                    let ne = self.ar.not(eq); let e = self.ar.zext(ne, 32); Some(self.norm(e))
                } else {
                    let mut r = self.ar.cst(0, 32);
                    let (one, neg) = (self.ar.cst(1, 32), self.ar.cst(u32::MAX as u128, 32));
                    for (c, d) in x.iter().rev() { let v = self.cmp(Pred::Eq, 8, c, d); let e = self.ex(&v, 1); let l = self.cmp(Pred::Ult, 8, c, d); let l = self.ex(&l, 1); let ne = self.ar.ite(l, neg, one); r = self.ar.ite(e, r, ne); }
                    Some(self.norm(r))
                }
            }
            Hook::Strlen => { let p = k(self, st, 0)?; let mut n = 0; loop { let b = self.rd(st, p + n, 8)?; if self.conc(st, &b, 8)? == 0 { break; } n += 1; } Some(Val::C(n)) }
            Hook::Memcpy => { let (d, s, n) = (k(self, st, 0)?, k(self, st, 1)?, k(self, st, 2)?); self.memcpy(st, d, s, n)?; Some(Val::C(d)) }
            Hook::Memset => { let (d, n) = (k(self, st, 0)?, k(self, st, 2)?); let b = self.cast(CastOp::Trunc, 32, 8, &a[1]); for i in 0..n { self.wr(st, d + i, &b, 8)?; } Some(Val::C(d)) }
            Hook::SymBits | Hook::GhostBits => { let w = k(self, st, 0)? as u32; let e = self.fresh(st, w); if h == Hook::GhostBits { *st.ghost.last_mut().unwrap() = true; } let e = self.ar.zext(e, 64); Some(Val::E(e)) }
            Hook::SymChoice | Hook::GhostChoice => {
                // fork over 0..n; recorded as an 8-bit input
                let n = k(self, st, 0)?;
                let e = self.fresh(st, 8); if h == Hook::GhostChoice { *st.ghost.last_mut().unwrap() = true; } let mut set = [0u64; 4]; for i in 0..n as usize { set[i >> 6] |= 1 << (i & 63); }
                let v = st.doms.len() - 1; st.doms[v] = Some(Rc::new(Dom { set, n: n as u32 }));
                let z = self.ar.zext(e, 32);
                if n == 1 { return Ok(HookRes::Val(Some(Val::C(0)))); }
                // make the choice now: write the result and advance, then fork on the value
                st.cur.ip += 1;
                let dst = match &self.m.funcs[st.cur.f as usize].blocks[st.cur.b as usize].insts[st.cur.ip as usize - 1] { Inst::Call { dst, .. } => *dst, _ => None };
                if let Some(d) = dst { st.cur.regs[d as usize] = Val::E(z); }
                let mut l = vec![];
                for i in 0..n { let c = self.ar.cst(i as u128, 8); let q = self.ar.cmp(Op::Eq, e, c); let mut mm = st.model.clone(); mm[v] = i; l.push(Fk { c: q, conc: None, model: mm }); }
                return Err(X::Fork(l));
            }
            Hook::SymSplit => { let v = k(self, st, 0)?; Some(Val::C(v)) }
            Hook::SymAssume => {
                let c = self.cast(CastOp::Trunc, argw[0], 1, &a[0]);
                match c { Val::C(x) => if x & 1 == 0 { return Ok(HookRes::End(End::Killed)); }, v => { let e = self.ex(&v, 1); match self.feasible(st, e)? { None => return Ok(HookRes::End(End::Killed)), Some(mm) => { st.model = mm; self.assume(st, e); } } } }
                None
            }
            Hook::SymCheck => {
                let id = k(self, st, 1)? as u32;
                { let s = &mut self.stats[st.h as usize]; s.checks += 1; *s.checkids.entry(id).or_default() += 1; }
                let c = self.cast(CastOp::Trunc, argw[0], 1, &a[0]);
                match c {
                    Val::C(x) => { self.stats[st.h as usize].checks_const += 1; if x & 1 == 0 { let mm = st.model.clone(); self.violate(st, &mm, format!("check {} failed", id)); return Ok(HookRes::End(End::Violation)); } }
                    v => {
                        let e = self.ex(&v, 1); let n = self.ar.not(e);
                        self.stats[st.h as usize].checks_smt += 1;
                        if self.ar.eval(n, &st.model) != 0 { let mm = st.model.clone(); self.violate(st, &mm, format!("check {} failed", id)); return Ok(HookRes::End(End::Violation)); }
                        match self.prove(st, n)? { None => {} Some(mm) => { self.violate(st, &mm, format!("check {} failed", id)); return Ok(HookRes::End(End::Violation)); } }
                    }
                }
                None
            }
            Hook::SymReach => { let id = k(self, st, 0)? as u32; *self.stats[st.h as usize].reach.entry(id).or_default() += 1; st.events.push(Ev::Reach(id)); None }
            Hook::SymObs => { st.events.push(Ev::Obs(a[0].clone(), 64)); None }
            Hook::SymExpect => { st.expect_panic = k(self, st, 0)? as u32; None }
            Hook::FmtFloat => {
                let p = k(self, st, 0)?; let v = self.rd(st, p, 64)?;
                if st.precise || !matches!(v, Val::E(_)) { return Ok(HookRes::Body); }
                match self.m.fidx.get("__stub_fmt_f64") { Some(i) => { self.stubs_used.insert("f64 to text: contract".into()); return Ok(HookRes::Redirect(*i)) } None => return Ok(HookRes::Body) }
            }
            Hook::FmtInt => {
                let (w, signed) = fmt_int(base_name(&self.m.funcs[fi as usize].name)).unwrap();
                let direct = base_name(&self.m.funcs[fi as usize].name).ends_with("spec_to_string");
                let p = k(self, st, direct as usize)?; let v = self.rd(st, p, w.min(64))?; let hi = if w > 64 { self.rd(st, p + 8, 64)? } else { Val::C(0) };
                if !matches!(v, Val::E(_)) && !matches!(hi, Val::E(_)) { return Ok(HookRes::Body); }
                let mut e = self.ex(&v, w.min(64)); if w > 64 { let h = self.ex(&hi, 64); e = self.ar.concat(h, e); }
                if self.ar.range(e).1 <= 0xffff { return Ok(HookRes::Body); }
                let f = self.ar.un(if signed { Op::SToF } else { Op::UToF }, e, 64);
                st.intfmt = Some((if signed { self.ar.extract(e, w - 1, 1) } else { self.ar.cst(0, 1) }, { let z = self.ar.cst(0, w); self.ar.cmp(Op::Eq, e, z) }, f));
                match self.m.fidx.get(if direct { "__stub_int_string" } else { "__stub_fmt_int" }) { Some(i) => { self.stubs_used.insert("wide symbolic integer to text: contract".into()); return Ok(HookRes::Redirect(*i)) } None => return Ok(HookRes::Body) }
            }
            Hook::SymInt => { let i = k(self, st, 0)?; let (n, z, _) = st.intfmt.unwrap(); let e = self.ar.zext(if i == 0 { n } else { z }, 64); Some(self.norm(e)) }
            Hook::SymIntText => { let (p, n) = (k(self, st, 0)?, k(self, st, 1)?); let l = self.text(st, p, n)?; let f = st.intfmt.take().unwrap().2; st.ftab.push((Rc::new(l), f)); None }
            Hook::ParseFloat => {
                let (o, p, n) = (k(self, st, 0)?, k(self, st, 1)?, k(self, st, 2)?);
                let l = self.text(st, p, n)?;
                if let Some(f) = self.ftab_find(st, &l) { let v = self.norm(f); self.wr(st, o, &Val::C(0), 8)?; self.wr(st, o + 8, &v, 64)?; return Ok(HookRes::Val(None)); }
                if st.precise || l.iter().all(|e| self.ar.k(*e).is_some()) { return Ok(HookRes::Body); }
                match self.m.fidx.get("__stub_parse_f64") { Some(i) => { self.stubs_used.insert("f64 from text: contract".into()); return Ok(HookRes::Redirect(*i)) } None => return Ok(HookRes::Body) }
            }
            Hook::SymFloatMode => { st.precise = k(self, st, 0)? != 0; None }
            Hook::SymFloatOf => {
                // an unknown double, not NaN, of the given sign; the same one for the same text
                let (p, n, neg) = (k(self, st, 0)?, k(self, st, 1)?, k(self, st, 2)?);
                let l = self.text(st, p, n)?;
                let f = match self.ftab_find(st, &l) { Some(f) => f, None => {
                    let x = self.fresh(st, 63); *st.ghost.last_mut().unwrap() = true;
                    let inf = self.ar.cst(0x7ff0 << 48, 63); let c = self.ar.cmp(Op::Ule, x, inf); self.assume(st, c);
                    let s = self.ar.cst((neg & 1) as u128, 1); let f = self.ar.concat(s, x); st.ftab.push((Rc::new(l), f)); f } };
                Some(self.norm(f))
            }
            Hook::SymFloatText => { let (p, n) = (k(self, st, 0)?, k(self, st, 1)?); let l = self.text(st, p, n)?; let f = self.ex(&a[2], 64); let l = Rc::new(l); st.written.push((l.clone(), f)); st.ftab.push((l, f)); None }
            // the text this double was written as before
            Hook::SymFloatSeen => { let p = k(self, st, 1)?; let f = self.ex(&a[0], 64); let t = st.written.iter().find(|x| x.1 == f).map(|x| x.0.clone()); let n = t.as_ref().map_or(0, |t| t.len());
                if let Some(t) = t { for (i, e) in t.iter().enumerate() { let v = self.norm(*e); self.wr(st, p + i as u64, &v, 8)?; } } Some(Val::C(n as u64)) }
            Hook::Undefined => return Ok(HookRes::End(End::Inconclusive(format!("call of external function {}", self.m.funcs[fi as usize].name)))),
            Hook::None => unreachable!(),
        }))
    }
    fn text(&mut self, st: &State, p: u64, n: u64) -> R<Vec<E>> { let mut l = vec![]; for i in 0..n { let v = self.rd(st, p + i, 8)?; l.push(self.ex(&v, 8)); } Ok(l) }
    fn ftab_find(&mut self, st: &State, l: &[E]) -> Option<E> {
        for (t, f) in st.ftab.iter() { if t.len() == l.len() {
            let t = t.clone(); let mut ok = true;
            for (x, y) in t.iter().zip(l.iter()) { if x != y { let v = self.simp(st, *x); let e = self.ex(&v, 8); if e != *y { ok = false; break; } } }
            if ok { return Some(*f); } } }
        None
    }
    /// solver query: is (path and n) satisfiable?
    fn prove(&mut self, st: &State, n: E) -> R<Option<Vec<u64>>> {
        let mut parts = vec![]; self.disjuncts(n, &mut parts);
        if parts.len() > 1 { for p in parts { if let Some(m) = self.feasible(st, p)? { return Ok(Some(m)); } } return Ok(None); }
        match self.solve(st, &[n]) { Some(r) => Ok(r), None => Err(X::End(End::Inconclusive("solver gave no answer on a check".into()))) }
    }
    pub fn violate(&mut self, st: &State, model: &[u64], what: String) {
        // a counterexample that rests on the float text contract may be spurious: it does not end the search
        let ghost = Self::ghostly(st);
        if ghost { self.stats[st.h as usize].gviol += 1; } else { self.stats[st.h as usize].violations += 1; }
        let inputs = self.inputs(st, model); let stack = self.stack_names(st);
        if self.violations.iter().filter(|v| v.h == st.h && v.ghost == ghost).count() < 8 { self.violations.push(Violation { ghost, h: st.h, what, inputs, stack }); }
    }
    /// bookkeeping at the end of a path
    pub fn finish(&mut self, end: End, st: &State) {
        let h = st.h as usize;
        self.stats[h].paths += 1;
        let kind = match &end {
            End::Ret => { if st.expect_panic != 0 { let m = st.model.clone(); self.violate(st, &m, format!("expected panic {} did not happen", st.expect_panic)); return; } self.stats[h].ok += 1; "ret" }
            End::Panic(w) => { if st.expect_panic != 0 && w == "panic" { self.stats[h].exp_panic += 1; "panic" } else { let m = st.model.clone(); let w = format!("{} (unexpected)", w); self.violate(st, &m, w); return; } }
            End::Killed => { self.stats[h].killed += 1; return; }
            End::Violation => return,
            End::Inconclusive(w) => { self.inconclusive_total += 1; if self.inconclusive.len() < 50 { let s = self.stack_names(st); self.inconclusive.push((st.h, format!("{} at {}", w, s))); } return; }
        };
        // reservoir of sample paths for native cross-validation
        self.seen[h] += 1;
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        let mine: Vec<usize> = self.samples.iter().enumerate().filter(|(_, s)| s.h == st.h).map(|x| x.0).collect();
        let slot = if mine.len() < 4 { None } else { let r = (self.rng >> 11) % self.seen[h]; if r < 4 { Some(mine[r as usize]) } else { return } };
        let inputs = self.inputs(st, &st.model);
        let mut events = vec![];
        for e in &st.events { match e { Ev::Reach(i) => events.push((0, *i as u64)), Ev::Obs(v, w) => { let x = match v { Val::C(x) => *x, v => { let e = self.ex(v, *w); self.ar.eval(e, &st.model) as u64 } }; events.push((1, x)); } } }
        let s = Sample { ghost: Self::ghostly(st), h: st.h, inputs, events, end: kind };
        match slot { None => self.samples.push(s), Some(i) => self.samples[i] = s }
    }

    /// truncation of a double, by its bits: the fraction bits of the mantissa cleared
    fn ftrunc(&mut self, x: E) -> E {
        let ar = &mut self.ar;
        let ex = ar.extract(x, 52, 11); let ex = ar.zext(ex, 64); let (b, top) = (ar.cst(1023, 64), ar.cst(1075, 64));
        let sgn = ar.cst(1 << 63, 64); let small = ar.cmp(Op::Ult, ex, b); let d = ar.bin(Op::Sub, ex, b); let k = ar.cst(11, 64); let sh = ar.bin(Op::Add, d, k); let m = ar.bin(Op::AShr, sgn, sh);
        let r = ar.bin(Op::And, x, m); let z = ar.bin(Op::And, x, sgn); let big = ar.cmp(Op::Ule, top, ex);
        let r = ar.ite(big, x, r); ar.ite(small, z, r)
    }
    fn intr(&mut self, st: &mut State, n: &str, a: &[Val], argw: &[u32], ret: &Ty) -> R<Option<Val>> {
        let base = n.split('.').next().unwrap();
        let w = argw.first().cloned().unwrap_or(0);
        let ov = |s: &mut Self, op: BinOp, signed: bool, a: &Val, b: &Val| -> Val {
            let r = s.bin(op, w, a, b);
            let (x, y) = (s.ex(a, w), s.ex(b, w));
            let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
            if ww > 128 { // 64-bit multiplication fits; 128-bit operands are handled with comparisons
                if !signed { let rr = s.ex(&r, w); let e = match op { BinOp::Add => s.ar.cmp(Op::Ult, rr, x), BinOp::Sub => s.ar.cmp(Op::Ult, x, y), _ => { let z = s.ar.cst(0, w); let nz = s.ar.cmp(Op::Eq, y, z); let nz = s.ar.not(nz); let q = s.ar.bin(Op::UDiv, rr, y); let ne = s.ar.cmp(Op::Eq, q, x); let ne = s.ar.not(ne); s.ar.and(nz, ne) } }; let v = s.norm(e); return Val::A(Rc::new(vec![r, v])); }
                panic!("signed wide overflow op");
            }
            let (p, q) = if signed { (s.ar.sext(x, ww), s.ar.sext(y, ww)) } else { (s.ar.zext(x, ww), s.ar.zext(y, ww)) };
            let f = match op { BinOp::Add => s.ar.bin(Op::Add, p, q), BinOp::Sub => s.ar.bin(Op::Sub, p, q), _ => s.ar.bin(Op::Mul, p, q) };
            let e = s.ex(&r, w); let e = if signed { s.ar.sext(e, ww) } else { s.ar.zext(e, ww) };
            let eq = s.ar.cmp(Op::Eq, f, e); let ne = s.ar.not(eq); let v = s.norm(ne); Val::A(Rc::new(vec![r, v]))
        };
        let minmax = |s: &mut Self, p: Pred| -> Val {
            if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) { let lw = match ret { Ty::Vec(_, t) => t.bits(), _ => 0 }; let t = Ty::Int(lw); let (x, y) = (x.clone(), y.clone()); return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| { let c = s.cmp(p, lw, p1, q); s.select(&c, p1, q, &t) }).collect())); }
            let c = s.cmp(p, w, &a[0], &a[1]); s.select(&c, &a[0], &a[1], &Ty::Int(w))
        };
        let r = match base {
            "memcpy" | "memmove" => { let d = self.conc(st, &a[0], 64)?; let s = self.conc(st, &a[1], 64)?; let k = self.conc(st, &a[2], argw[2])?; self.memcpy(st, d, s, k)?; None }
            "memset" => { let d = self.conc(st, &a[0], 64)?; let k = self.conc(st, &a[2], argw[2])?;
                if let (Val::C(b), true) = (&a[1], k > 0) { let (slot, off) = (d >> SHIFT, (d & ((1 << SHIFT) - 1)) as usize); let b = *b as u8; let k = k as usize;
                    match self.obj_mut(st, slot) { Some(o) if off + k <= o.data.len() => { for x in &mut o.data[off..off + k] { *x = b; } if let Some(s) = &mut o.sym { for x in &mut s[off..off + k] { *x = 0; } } } _ => return self.fault("memset".into()) } }
                else { for i in 0..k { self.wr(st, d + i, &a[1], 8)?; } } None }
            "umax" => Some(minmax(self, Pred::Ugt)), "umin" => Some(minmax(self, Pred::Ult)), "smax" => Some(minmax(self, Pred::Sgt)), "smin" => Some(minmax(self, Pred::Slt)),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => Some(ov(self, match &base[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul }, base.starts_with('s'), &a[0], &a[1])),
            "usub" => { let c = self.cmp(Pred::Ult, w, &a[0], &a[1]); let d = self.bin(BinOp::Sub, w, &a[0], &a[1]); Some(self.select(&c, &Val::C(0), &d, &Ty::Int(w))) }
            "uadd" => { let d = self.bin(BinOp::Add, w, &a[0], &a[1]); let c = self.cmp(Pred::Ult, w, &d, &a[0]); Some(self.select(&c, &Val::C(m64(w)), &d, &Ty::Int(w))) }
            "sadd" | "ssub" => { let p = ov(self, if base == "sadd" { BinOp::Add } else { BinOp::Sub }, true, &a[0], &a[1]); if let Val::A(l) = p { let neg = self.cmp(Pred::Slt, w, &a[0], &Val::C(0)); let mx = m64(w) >> 1; let sat = self.select(&neg, &Val::C((mx + 1) & m64(w)), &Val::C(mx), &Ty::Int(w)); Some(self.select(&l[1].clone(), &sat, &l[0].clone(), &Ty::Int(w))) } else { None } }
            "ucmp" | "scmp" => { let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) }; let l = self.cmp(lt, w, &a[0], &a[1]); let g = self.cmp(gt, w, &a[0], &a[1]); let rw = ret.bits(); let t = Ty::Int(rw); let x = self.select(&g, &Val::C(1), &Val::C(0), &t); Some(self.select(&l, &Val::C(m64(rw)), &x, &t)) }
            "abs" => { let c = self.cmp(Pred::Slt, w, &a[0], &Val::C(0)); let ng = self.bin(BinOp::Sub, w, &Val::C(0), &a[0]); Some(self.select(&c, &ng, &a[0], &Ty::Int(w))) }
            "ctpop" | "cttz" | "ctlz" => {
                if let Val::C(x) = &a[0] { let x = *x; let v = match base { "ctpop" => x.count_ones() as u64, "cttz" => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, _ => (x.leading_zeros() as u64).wrapping_sub(64u64.wrapping_sub(w as u64)) };
                    if w <= 64 { return Ok(Some(Val::C(v))); } }
                let e = self.ex(&a[0], w);
                let r = if base == "ctpop" { let mut s = self.ar.cst(0, w); for i in 0..w { let b = self.ar.extract(e, i, 1); let b = self.ar.zext(b, w); s = self.ar.bin(Op::Add, s, b); } s }
                    else { let mut s = self.ar.cst(w as u128, w); for i in 0..w { let bit = if base == "cttz" { w - 1 - i } else { i }; let b = self.ar.extract(e, bit, 1); let k = self.ar.cst(if base == "cttz" { bit } else { w - 1 - bit } as u128, w); s = self.ar.ite(b, k, s); } s };
                Some(self.norm(r))
            }
            "bswap" => { let e = self.ex(&a[0], w); let mut r: Option<E> = None; for i in 0..w / 8 { let b = self.ar.extract(e, i * 8, 8); r = Some(match r { None => b, Some(h) => self.ar.concat(h, b) }); } Some(self.norm(r.unwrap())) }
            "bitreverse" => { let e = self.ex(&a[0], w); let mut r: Option<E> = None; for i in 0..w { let b = self.ar.extract(e, i, 1); r = Some(match r { None => b, Some(h) => self.ar.concat(h, b) }); } Some(self.norm(r.unwrap())) }
            "fshl" | "fshr" => { // funnel shifts
                let k = self.bin(BinOp::URem, w, &a[2], &Val::C(w as u64)); let inv = self.bin(BinOp::Sub, w, &Val::C(w as u64), &k);
                let (l, rr) = if base == "fshl" { (self.bin(BinOp::Shl, w, &a[0], &k), self.bin(BinOp::LShr, w, &a[1], &inv)) } else { (self.bin(BinOp::Shl, w, &a[0], &inv), self.bin(BinOp::LShr, w, &a[1], &k)) };
                Some(self.bin(BinOp::Or, w, &l, &rr)) }
            "fabs" => Some(self.bin(BinOp::And, w, &a[0], &Val::C(m64(w) >> 1))),
            "copysign" => { let x = self.bin(BinOp::And, w, &a[0], &Val::C(m64(w) >> 1)); let y = self.bin(BinOp::And, w, &a[1], &Val::C(1 << (w - 1))); Some(self.bin(BinOp::Or, w, &x, &y)) }
            "fptoui" | "fptosi" => { let e = self.ex(&a[0], w); let r = self.ar.un(if base == "fptoui" { Op::FToU } else { Op::FToS }, e, ret.bits()); Some(self.norm(r)) }
            "floor" | "ceil" | "trunc" | "round" if matches!(a[0], Val::E(_)) && w == 64 => {
                let x = self.ex(&a[0], 64);
                let one = self.ar.cst(1f64.to_bits() as u128, 64); let x0 = if base == "round" { let s = self.bin(BinOp::And, 64, &a[0], &Val::C(1 << 63)); let h = self.bin(BinOp::Or, 64, &s, &Val::C(0.49999999999999994f64.to_bits())); let h = self.ex(&h, 64); self.ar.fbin(Op::FAdd, x, h) } else { x };
                let t = self.ftrunc(x0);
                let r = match base { "trunc" | "round" => t, _ => {
                    let ne = self.ar.fbin(Op::FEq, t, x); let ne = self.ar.not(ne); let nan = self.ar.un(Op::FNan, x, 1); let nn = self.ar.not(nan); let ne = self.ar.and(ne, nn);
                    let neg = self.ar.extract(x, 63, 1); let dir = if base == "floor" { neg } else { self.ar.not(neg) }; let c = self.ar.and(ne, dir);
                    let u = self.ar.fbin(if base == "floor" { Op::FSub } else { Op::FAdd }, t, one); self.ar.ite(c, u, t) } };
                Some(self.norm(r)) }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "nearbyint" | "sqrt" | "minnum" | "maxnum" => {
                let mut f = vec![]; for v in a { match v { Val::C(x) => f.push(if w == 64 { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 }), _ => return Err(X::End(End::Inconclusive(format!("symbolic {}", n)))) } }
                let r = match base { "floor" => f[0].floor(), "ceil" => f[0].ceil(), "trunc" => f[0].trunc(), "round" => f[0].round(), "rint" | "roundeven" | "nearbyint" => f[0].round_ties_even(), "sqrt" => f[0].sqrt(), "minnum" => f[0].min(f[1]), _ => f[0].max(f[1]) };
                Some(Val::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })) }
            "is" if n.starts_with("is.fpclass") => {
                let msk = self.conc(st, &a[1], 32)?; let e = self.ex(&a[0], w);
                let (mw, _ew) = if w == 64 { (52u32, 11u32) } else { (23, 8) };
                let sign = self.ar.extract(e, w - 1, 1); let man = self.ar.extract(e, 0, mw); let exp = self.ar.extract(e, mw, w - 1 - mw);
                let zm = self.ar.cst(0, mw); let mz = self.ar.cmp(Op::Eq, man, zm); let ze = self.ar.cst(0, w - 1 - mw); let ez = self.ar.cmp(Op::Eq, exp, ze); let oe = self.ar.cst(u128::MAX, w - 1 - mw); let eo = self.ar.cmp(Op::Eq, exp, oe);
                let nmz = self.ar.not(mz); let nez = self.ar.not(ez); let neo = self.ar.not(eo); let q = self.ar.extract(e, mw - 1, 1); let nq = self.ar.not(q); let pos = self.ar.not(sign);
                let inf = self.ar.and(eo, mz); let nan = self.ar.and(eo, nmz); let zero = self.ar.and(ez, mz); let sub = self.ar.and(ez, nmz); let nor = self.ar.and(nez, neo);
                let cls = [(nan, nq), (nan, q), (inf, sign), (nor, sign), (sub, sign), (zero, sign), (zero, pos), (sub, pos), (nor, pos), (inf, pos)];
                let mut r = self.ar.cst(0, 1); for (i, (c, s)) in cls.iter().enumerate() { if msk >> i & 1 == 1 { let x = self.ar.and(*c, *s); r = self.ar.or(r, x); } } Some(self.norm(r)) }
            "threadlocal" | "expect" | "ptrmask" | "launder" | "strip" | "ssa" => Some(if base == "ptrmask" { self.bin(BinOp::And, 64, &a[0], &a[1]) } else { a[0].clone() }),
            "trap" | "ubsantrap" => return Err(X::End(End::Panic("trap".into()))),
            "x86" if n.contains("pause") => None,
            "assume" | "prefetch" | "sideeffect" | "donothing" => None,
            "vector" if n.contains("reduce") => {
                if let (Val::A(l), true) = (&a[0], true) {
                    let l = l.clone(); let rw = ret.bits(); let mut acc = l[0].clone();
                    for x in l.iter().skip(1) { acc = if n.contains("reduce.or") { self.bin(BinOp::Or, rw, &acc, x) } else if n.contains("reduce.and") { self.bin(BinOp::And, rw, &acc, x) } else if n.contains("reduce.add") { self.bin(BinOp::Add, rw, &acc, x) } else if n.contains("reduce.xor") { self.bin(BinOp::Xor, rw, &acc, x) } else { return Err(X::End(End::Inconclusive(format!("intrinsic {}", n)))) }; }
                    Some(acc)
                } else { None } }
            _ => return Err(X::End(End::Inconclusive(format!("intrinsic {}", n)))),
        };
        Ok(r)
    }
}
enum HookRes { Val(Option<Val>), End(End), Body, Redirect(u32) }

fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
fn insert(x: &mut Val, v: Val, path: &[u32]) { match x { Val::A(l) => { let l = Rc::make_mut(l); if path.len() == 1 { l[path[0] as usize] = v; } else { insert(&mut l[path[0] as usize], v, &path[1..]); } } _ => panic!("insert") } }
