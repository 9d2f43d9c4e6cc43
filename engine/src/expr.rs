//! Hash-consed bit-vector/float expressions with simplification, evaluation and support tracking.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Const, Var, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Table,
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FNan, UToF, SToF, FToU, FToS, FTrunc, FExt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub const SUP_NONE: u32 = u32::MAX;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u128, u16), E>,
    map: HashMap<Node, E>,
    pub sup: Vec<u32>,            // support id
    pub sups: Vec<Rc<Vec<u32>>>,  // support id -> sorted vars
    supmap: HashMap<Rc<Vec<u32>>, u32>,
    pub has_fp: Vec<bool>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tablemap: HashMap<Rc<Vec<u64>>, u32>,
    // evaluation memo
    mval: Vec<u128>, mep: Vec<u32>, epoch: u32,
    stack: Vec<E>,
    pub tt: HashMap<E, Rc<[u64; 4]>>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }
fn canon64(f: f64) -> u128 { if f.is_nan() { 0x7ff8u128 << 48 } else { f.to_bits() as u128 } }
fn canon32(f: f32) -> u128 { if f.is_nan() { 0x7fc0u128 << 16 } else { f.to_bits() as u128 } }

pub fn ev(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Not => !a & m,
        Op::Add => a.wrapping_add(b) & m, Op::Sub => a.wrapping_sub(b) & m, Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m }, Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128, Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::ZExt => a, Op::SExt => (sx(a, aw) as u128) & m,
        Op::FAdd => if w == 64 { canon64(f64b(a) + f64b(b)) } else { canon32(f32b(a) + f32b(b)) },
        Op::FSub => if w == 64 { canon64(f64b(a) - f64b(b)) } else { canon32(f32b(a) - f32b(b)) },
        Op::FMul => if w == 64 { canon64(f64b(a) * f64b(b)) } else { canon32(f32b(a) * f32b(b)) },
        Op::FDiv => if w == 64 { canon64(f64b(a) / f64b(b)) } else { canon32(f32b(a) / f32b(b)) },
        Op::FRem => if w == 64 { canon64(f64b(a) % f64b(b)) } else { canon32(f32b(a) % f32b(b)) },
        Op::FEq => (if aw == 64 { f64b(a) == f64b(b) } else { f32b(a) == f32b(b) }) as u128,
        Op::FLt => (if aw == 64 { f64b(a) < f64b(b) } else { f32b(a) < f32b(b) }) as u128,
        Op::FLe => (if aw == 64 { f64b(a) <= f64b(b) } else { f32b(a) <= f32b(b) }) as u128,
        Op::FNan => (if aw == 64 { f64b(a).is_nan() } else { f32b(a).is_nan() }) as u128,
        Op::UToF => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::SToF => { let x = sx(a, aw); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        // saturating semantics (fptoui on in-range values agrees with it)
        Op::FToU => { let x = if aw == 64 { f64b(a) } else { f32b(a) as f64 }; let v = x as u128; if v > m { m } else { v } }
        Op::FToS => { let x = if aw == 64 { f64b(a) } else { f32b(a) as f64 }; let v = x as i128; let mx = (mask(w) >> 1) as i128; let mn = -mx - 1; (if v > mx { mx } else if v < mn { mn } else { v }) as u128 & m }
        Op::FTrunc => canon32(f64b(a) as f32), Op::FExt => canon64(f32b(a) as f64),
        Op::Const | Op::Var | Op::Concat | Op::Extract | Op::Table => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], consts: vec![], cmap: HashMap::new(), map: HashMap::new(), sup: vec![], sups: vec![], supmap: HashMap::new(), has_fp: vec![], tables: vec![], tablemap: HashMap::new(),
            mval: vec![], mep: vec![], epoch: 0, stack: vec![], tt: HashMap::new() };
        a.sup_id(Rc::new(vec![]));
        a.cst(0, 1);
        a
    }
    fn sup_id(&mut self, v: Rc<Vec<u32>>) -> u32 { if let Some(i) = self.supmap.get(&v) { return *i; } let i = self.sups.len() as u32; self.sups.push(v.clone()); self.supmap.insert(v, i); i }
    fn push(&mut self, n: Node, sup: u32, fp: bool) -> E { let e = self.nodes.len() as E; self.nodes.push(n); self.sup.push(sup); self.has_fp.push(fp); self.mval.push(0); self.mep.push(0); e }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w as u16)) { return *e; }
        let k = self.consts.len() as u32; self.consts.push(v);
        let e = self.push(Node { op: Op::Const, w: w as u16, a: k, b: 0, c: 0 }, 0, false);
        self.cmap.insert((v, w as u16), e); e
    }
    pub fn var(&mut self, i: u32, w: u32) -> E {
        let n = Node { op: Op::Var, w: w as u16, a: i, b: 0, c: 0 };
        if let Some(e) = self.map.get(&n) { return *e; }
        let s = self.sup_id(Rc::new(vec![i]));
        let e = self.push(n, s, false); self.map.insert(n, e); e
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn k(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None } }
    fn is(&self, e: E, op: Op) -> bool { self.nodes[e as usize].op == op }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(e) = self.map.get(&n) { return *e; }
        let (mut ch, mut nch) = ([0u32; 3], 0);
        match op { Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FTrunc | Op::FExt => { ch[0] = a; nch = 1; }
            Op::Table => { ch[0] = b; nch = 1; } Op::Ite => { ch = [a, b, c]; nch = 3; } _ => { ch[0] = a; ch[1] = b; nch = 2; } }
        let mut s = self.sup[ch[0] as usize]; let mut fp = self.has_fp[ch[0] as usize];
        for i in 1..nch { let t = self.sup[ch[i] as usize]; fp |= self.has_fp[ch[i] as usize]; if t != s && t != 0 { if s == 0 { s = t } else {
            let (x, y) = (self.sups[s as usize].clone(), self.sups[t as usize].clone());
            let mut v: Vec<u32> = x.iter().chain(y.iter()).cloned().collect(); v.sort_unstable(); v.dedup(); s = self.sup_id(Rc::new(v)); } } }
        fp |= matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FTrunc | Op::FExt); // the others become bit-vector terms
        let e = self.push(n, s, fp); self.map.insert(n, e); e
    }
    pub fn single(&self, e: E) -> Option<u32> { let s = &self.sups[self.sup[e as usize] as usize]; if s.len() == 1 { Some(s[0]) } else { None } }
    pub fn support(&self, e: E) -> &Rc<Vec<u32>> { &self.sups[self.sup[e as usize] as usize] }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.k(a) { return self.cst(!v, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::Not { return n.a; }
        if w == 1 { match n.op {
            Op::Ult => return self.cmp(Op::Ule, n.b, n.a), Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp(Op::Sle, n.b, n.a), Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
            _ => {} } }
        self.mk(Op::Not, w, a, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.cst(ev(op, w, w, x, y, 0), w); }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (mut ka, mut kb) = (ka, kb);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ka, &mut kb); }
        let m = mask(w);
        let na = self.nodes[a as usize];
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb { if na.op == Op::Add { if let Some(x) = self.k(na.b) { let c = self.cst(x.wrapping_add(y), w); return self.bin(Op::Add, na.a, c); } } }
                if let Some(r) = self.disjoint_or(a, b) { return r; }
                if let Some(y) = kb { // a constant low part: the carry is known
                    let (cc, z) = if na.op == Op::ZExt { (na.a, true) } else { (a, false) }; let nc = self.nodes[cc as usize];
                    if nc.op == Op::Concat { if let Some(l) = self.k(nc.b) { let _ = z; let lw = self.w(nc.b); let sum = l + (y & mask(lw)); let carry = sum >> lw; let h = self.zext(nc.a, w - lw);
                        let c = self.cst((y >> lw).wrapping_add(carry), w - lw); let h = self.bin(Op::Add, h, c); let l = self.cst(sum, lw); return self.concat(h, l); } } }
                if let Some(y) = kb { let tz = y.trailing_zeros(); if tz > 0 { let s = self.low_boundary(a, tz); if s > 0 {
                    let lo = self.extract(a, 0, s); let hi = self.extract(a, s, w - s); let c = self.cst(y >> s, w - s); let hi = self.bin(Op::Add, hi, c); return self.concat(hi, lo); } } }
            }
            Op::Sub => {
                if kb == Some(0) { return a; } if a == b { return self.cst(0, w); }
                if let Some(y) = kb { let c = self.cst((0u128).wrapping_sub(y), w); return self.bin(Op::Add, a, c); }
            }
            Op::Mul => {
                if kb == Some(0) { return b; } if kb == Some(1) { return a; }
                if let Some(y) = kb { if y.is_power_of_two() { let s = self.cst(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); } }
            }
            Op::And => {
                if kb == Some(0) { return b; } if kb == Some(m) { return a; } if a == b { return a; }
                if w == 1 { if self.nodes[b as usize].op == Op::Not && self.nodes[b as usize].a == a { return self.cst(0, 1); } if na.op == Op::Not && na.a == b { return self.cst(0, 1); } }
                if let Some(y) = kb {
                    if na.op == Op::And { if let Some(x) = self.k(na.b) { let c = self.cst(x & y, w); return self.bin(Op::And, na.a, c); } }
                    if (y + 1).is_power_of_two() { let lw = (y + 1).trailing_zeros(); let x = self.extract(a, 0, lw); return self.zext(x, w); }
                    // mask of contiguous bits shifted: extract + concat
                    let tz = y.trailing_zeros(); if tz > 0 && ((y >> tz) + 1).is_power_of_two() { let lw = ((y >> tz) + 1).trailing_zeros(); let x = self.extract(a, tz, lw); let z = self.cst(0, tz); let c = self.concat(x, z); return self.zext(c, w); }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if y & !mask(iw) != 0 { let c = self.cst(y & mask(iw), w); return self.bin(Op::And, a, c); } }
                    if na.op == Op::Concat { let lw = self.w(na.b); let hw = w - lw; let (kh, kl) = (self.cst(y >> lw, hw), self.cst(y, lw)); let h = self.bin(Op::And, na.a, kh); let l = self.bin(Op::And, na.b, kl); return self.concat(h, l); }
                }
            }
            Op::Or => {
                if kb == Some(0) { return a; } if kb == Some(m) { return b; } if a == b { return a; }
                if let Some(r) = self.disjoint_or(a, b) { return r; }
                if let Some(y) = kb { if na.op == Op::Concat { let lw = self.w(na.b); let hw = w - lw; let (kh, kl) = (self.cst(y >> lw, hw), self.cst(y, lw)); let h = self.bin(Op::Or, na.a, kh); let l = self.bin(Op::Or, na.b, kl); return self.concat(h, l); }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if iw < w && y >> iw == 0 { let c = self.cst(y, iw); let x = self.bin(Op::Or, na.a, c); return self.zext(x, w); }
                        let c = self.cst(y, iw); let x = self.bin(Op::Or, na.a, c); let h = self.cst(y >> iw, w - iw); return self.concat(h, x); } }
            }
            Op::Xor => {
                if kb == Some(0) { return a; } if a == b { return self.cst(0, w); }
                if kb == Some(m) { return self.not(a); }
                if let Some(y) = kb { if na.op == Op::Xor { if let Some(x) = self.k(na.b) { let c = self.cst(x ^ y, w); return self.bin(Op::Xor, na.a, c); } } }
            }
            Op::Shl => if let Some(y) = kb { if y == 0 { return a; } if y >= w as u128 { return self.cst(0, w); } let x = self.extract(a, 0, w - y as u32); let z = self.cst(0, y as u32); return self.concat(x, z); }
            Op::LShr => if let Some(y) = kb { if y == 0 { return a; } if y >= w as u128 { return self.cst(0, w); } let x = self.extract(a, y as u32, w - y as u32); return self.zext(x, w); }
            Op::AShr => if let Some(y) = kb { if y == 0 { return a; } let y = if y >= w as u128 { w - 1 } else { y as u32 }; let x = self.extract(a, y, w - y); return self.sext(x, w); }
            Op::UDiv => { if kb == Some(1) { return a; } if let Some(y) = kb { if y.is_power_of_two() { let s = self.cst(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); } } 
                if let (Some(y), Op::ZExt) = (kb, na.op) { let iw = self.w(na.a); if y >> iw == 0 { let c = self.cst(y, iw); let x = self.bin(Op::UDiv, na.a, c); return self.zext(x, w); } } }
            Op::URem => { if kb == Some(1) { return self.cst(0, w); } if let Some(y) = kb { if y.is_power_of_two() { let c = self.cst(y - 1, w); return self.bin(Op::And, a, c); } }
                if let (Some(y), Op::ZExt) = (kb, na.op) { let iw = self.w(na.a); if y >> iw == 0 { let c = self.cst(y, iw); let x = self.bin(Op::URem, na.a, c); return self.zext(x, w); } } }
            _ => {}
        }
        if w == 1 { match op { Op::Add | Op::Sub => return self.bin(Op::Xor, a, b), Op::Mul => return self.bin(Op::And, a, b), _ => {} } }
        // push constants into ite of constants
        if let (Some(y), Op::Ite) = (kb, na.op) { if let (Some(p), Some(q)) = (self.k(na.b), self.k(na.c)) { let p = self.cst(ev(op, w, w, p, y, 0), w); let q = self.cst(ev(op, w, w, q, y, 0), w); return self.ite(na.a, p, q); } }
        self.mk(op, w, a, b, 0)
    }
    /// a|b (or a+b) where the low zero bits of one cover the other
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.nodes[x as usize]; let ny = self.nodes[y as usize];
            // x = concat(h, 0:k) possibly zext'ed ; y = zext(lo) with lo.w <= k
            let (h, zk, ext) = if nx.op == Op::Concat && self.k(nx.b) == Some(0) { (nx.a, self.w(nx.b), 0) } else if nx.op == Op::ZExt { let ni = self.nodes[nx.a as usize]; if ni.op == Op::Concat && self.k(ni.b) == Some(0) { (ni.a, self.w(ni.b), w - self.w(nx.a)) } else { continue } } else { continue };
            let lo = if ny.op == Op::ZExt { let lw = self.w(ny.a); if lw <= zk { self.zext(ny.a, zk) } else { continue } } else if let Some(v) = self.k(y) { if zk < 128 && v >> zk == 0 { self.cst(v, zk) } else { continue } } else { continue };
            let c = self.concat(h, lo); let _ = ext; return Some(self.zext(c, w));
        }
        None
    }
    /// the widest field boundary of e that is at most lim
    fn low_boundary(&self, e: E, lim: u32) -> u32 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::ZExt => { let iw = self.w(n.a); if iw <= lim { iw } else { self.low_boundary(n.a, lim) } }
            Op::Concat => { let lw = self.w(n.b); if lw > lim { self.low_boundary(n.b, lim) } else { let ni = self.nodes[n.a as usize]; lw + if matches!(ni.op, Op::Concat | Op::ZExt) { self.low_boundary(n.a, lim - lw) } else { 0 } } }
            _ => 0,
        }
    }
    /// bounds on the unsigned value, whatever the variables are
    pub fn range(&self, e: E) -> (u128, u128) { self.range_d(e, 6, &|_| None) }
    pub fn range_d(&self, e: E, d: u32, dom: &dyn Fn(u32) -> Option<(u128, u128)>) -> (u128, u128) {
        let n = self.nodes[e as usize]; let m = mask(n.w as u32);
        if d == 0 { return (0, m); }
        match n.op {
            Op::Const => { let k = self.consts[n.a as usize]; (k, k) }
            Op::Var => dom(n.a).unwrap_or((0, m)),
            Op::ZExt => self.range_d(n.a, d - 1, dom),
            Op::Concat => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); let s = self.w(n.b); (a << s | x, b << s | y) }
            Op::Add => { let (a, b) = self.range_d(n.a, d - 1, dom); if let Some(k) = self.k(n.b) { if let Some(y) = b.checked_add(k) { if y <= m { return (a + k, y); } } let neg = m - k + 1; if k != 0 && a >= neg { return (a - neg, b - neg); } } (0, m) }
            Op::Ite => { let (a, b) = self.range_d(n.b, d - 1, dom); let (x, y) = self.range_d(n.c, d - 1, dom); (a.min(x), b.max(y)) }
            Op::Table => { let t = &self.tables[n.a as usize]; let (a, b) = self.range_d(n.b, d - 1, dom); let mut r = if b >= t.len() as u128 { (0, 0) } else { (u128::MAX, 0) };
                for i in a..=b.min(t.len() as u128 - 1) { let x = t[i as usize] as u128 & m; r = (r.0.min(x), r.1.max(x)); } if r.0 == u128::MAX { (0, m) } else { r } }
            Op::Extract => { let (a, b) = self.range_d(n.a, d - 1, dom); let (a, b) = (a >> n.b, b >> n.b); if b <= m { (a, b) } else { (0, m) } }
            Op::Not if n.w == 1 => { let (a, b) = self.range_d(n.a, d - 1, dom); (1 - b, 1 - a) }
            Op::Or if n.w == 1 => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); (a.max(x), b.max(y)) }
            Op::And if n.w == 1 => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); (a.min(x), b.min(y)) }
            Op::Eq => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); if b < x || y < a { (0, 0) } else if a == b && x == y && a == x { (1, 1) } else { (0, 1) } }
            Op::Ult => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); if b < x { (1, 1) } else if a >= y { (0, 0) } else { (0, 1) } }
            Op::Ule => { let (a, b) = self.range_d(n.a, d - 1, dom); let (x, y) = self.range_d(n.b, d - 1, dom); if b <= x { (1, 1) } else if a > y { (0, 0) } else { (0, 1) } }
            Op::And => { let (_, b) = self.range_d(n.a, d - 1, dom); let (_, y) = self.range_d(n.b, d - 1, dom); (0, b.min(y)) }
            _ => (0, m),
        }
    }
    /// (lo, hi, g): the value is lo + k*g for some k and at most hi, whatever the variables are
    pub fn stride(&self, e: E) -> (u128, u128, u128) { let mut memo = HashMap::new(); self.stride_m(e, 64, &mut memo) }
    fn stride_m(&self, e: E, d: u32, memo: &mut HashMap<E, (u128, u128, u128)>) -> (u128, u128, u128) {
        if let Some(r) = memo.get(&e) { return *r; }
        let n = self.nodes[e as usize]; let m = mask(n.w as u32); let top = (0, m, 1u128);
        if d == 0 { return top; }
        fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
        let scale = |(l, h, g): (u128, u128, u128), k: u128| match h.checked_mul(k) { Some(y) if y <= m => (l * k, y, g * k), _ => top };
        let r = match n.op {
            Op::Const => { let k = self.consts[n.a as usize]; (k, k, 0) }
            Op::ZExt => self.stride_m(n.a, d - 1, memo),
            Op::Concat => { let s = self.w(n.b); let (l, h, g) = self.stride_m(n.a, d - 1, memo); let (x, y, z) = self.stride_m(n.b, d - 1, memo); (l << s | x, h << s | y, gcd(g << s, z)) }
            Op::Ite => { let (l, h, g) = self.stride_m(n.b, d - 1, memo); let (x, y, z) = self.stride_m(n.c, d - 1, memo); (l.min(x), h.max(y), gcd(gcd(g, z), l.max(x) - l.min(x))) }
            Op::Add => { let (l, h, g) = self.stride_m(n.a, d - 1, memo); let (x, y, z) = self.stride_m(n.b, d - 1, memo); match h.checked_add(y) { Some(t) if t <= m => (l + x, t, gcd(g, z)), _ => top } }
            Op::Mul => if let Some(k) = self.k(n.b) { let r = self.stride_m(n.a, d - 1, memo); scale(r, k) } else { top },
            Op::Shl => match self.k(n.b) { Some(k) if k < n.w as u128 && k < 100 => { let r = self.stride_m(n.a, d - 1, memo); scale(r, 1u128 << k) } _ => top },
            Op::Var => top,
            _ => { let (l, h) = self.range(e); (l, h, (l != h) as u128) }
        };
        memo.insert(e, r); r
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if w > 1 && matches!(op, Op::Eq | Op::Ult | Op::Ule) {
            let (al, ah) = self.range(a); let (bl, bh) = self.range(b);
            match op { Op::Eq => if ah < bl || bh < al { return self.cst(0, 1); },
                Op::Ult => { if ah < bl { return self.cst(1, 1); } if al >= bh { return self.cst(0, 1); } }
                _ => { if ah <= bl { return self.cst(1, 1); } if al > bh { return self.cst(0, 1); } } }
        }
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.cst(ev(op, 1, w, x, y, 0), 1); }
        if a == b { return self.cst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1); }
        let (mut a, mut b) = (a, b); let (mut ka, mut kb) = (ka, kb);
        if op == Op::Eq && (ka.is_some() || (kb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ka, &mut kb); }
        let na = self.nodes[a as usize]; let nb = self.nodes[b as usize];
        let m = mask(w);
        match op {
            Op::Eq => {
                if w == 1 { if let Some(y) = kb { return if y == 1 { a } else { self.not(a) }; } }
                if let Some(y) = kb {
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); if y >> iw != 0 { return self.cst(0, 1); } let c = self.cst(y, iw); return self.cmp(Op::Eq, na.a, c); }
                        Op::SExt => { let iw = self.w(na.a); if (sx(y & mask(iw), iw) as u128) & m != y { return self.cst(0, 1); } let c = self.cst(y, iw); return self.cmp(Op::Eq, na.a, c); }
                        Op::Concat => { let lw = self.w(na.b); let (kh, kl) = (self.cst(y >> lw, w - lw), self.cst(y, lw)); let h = self.cmp(Op::Eq, na.a, kh); let l = self.cmp(Op::Eq, na.b, kl); return self.and(h, l); }
                        Op::Add => if let Some(x) = self.k(na.b) { let c = self.cst(y.wrapping_sub(x), w); return self.cmp(Op::Eq, na.a, c); },
                        Op::Xor => if let Some(x) = self.k(na.b) { let c = self.cst(y ^ x, w); return self.cmp(Op::Eq, na.a, c); },
                        Op::Sub => if let Some(x) = self.k(na.a) { let c = self.cst(x.wrapping_sub(y), w); return self.cmp(Op::Eq, na.b, c); },
                        Op::Not => { let c = self.cst(!y, w); return self.cmp(Op::Eq, na.a, c); }
                        Op::Ite => { if self.k(na.b).is_some() || self.k(na.c).is_some() { let p = self.cmp(Op::Eq, na.b, b); let q = self.cmp(Op::Eq, na.c, b); return self.ite(na.a, p, q); } }
                        _ => {}
                    }
                } else if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a)); let mw = wa.max(wb); let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.cmp(Op::Eq, x, y);
                } else if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                    let h = self.cmp(Op::Eq, na.a, nb.a); let l = self.cmp(Op::Eq, na.b, nb.b); return self.and(h, l);
                }
            }
            Op::Ult => {
                if kb == Some(0) || ka == Some(m) { return self.cst(0, 1); }
                if kb == Some(1) { let z = self.cst(0, w); return self.cmp(Op::Eq, a, z); }
                if ka == Some(0) { let e = self.cmp(Op::Eq, b, a); return self.not(e); }
            }
            Op::Ule => {
                if kb == Some(m) || ka == Some(0) { return self.cst(1, 1); }
                if kb == Some(0) { return self.cmp(Op::Eq, a, b); }
                if ka == Some(m) { return self.cmp(Op::Eq, b, a); }
            }
            _ => {}
        }
        if matches!(op, Op::Ult | Op::Ule) {
            // narrow zero-extended comparisons
            if let (Op::ZExt, Some(y)) = (na.op, kb) { let iw = self.w(na.a); if y >> iw != 0 { return self.cst(1, 1); } let c = self.cst(y, iw); return self.cmp(op, na.a, c); }
            if let (Op::ZExt, Some(x)) = (nb.op, ka) { let iw = self.w(nb.a); if x >> iw != 0 { return self.cst(0, 1); } let c = self.cst(x, iw); return self.cmp(op, c, nb.a); }
            if na.op == Op::ZExt && nb.op == Op::ZExt { let (wa, wb) = (self.w(na.a), self.w(nb.a)); let mw = wa.max(wb); if mw < w { let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.cmp(op, x, y); } }
        }
        if matches!(op, Op::Slt | Op::Sle) {
            let nn = |s: &Self, e: E| -> bool { s.is(e, Op::ZExt) || s.k(e).map_or(false, |v| v >> (w - 1) == 0) };
            if nn(self, a) && nn(self, b) { return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
        }
        if let (Some(y), Op::Ite) = (kb, na.op) { if let (Some(p), Some(q)) = (self.k(na.b), self.k(na.c)) { let p = self.cst(ev(op, 1, w, p, y, 0), 1); let q = self.cst(ev(op, 1, w, q, y, 0), 1); return self.ite(na.a, p, q); } }
        if let (Some(x), Op::Ite) = (ka, nb.op) { if let (Some(p), Some(q)) = (self.k(nb.b), self.k(nb.c)) { let p = self.cst(ev(op, 1, w, x, p, 0), 1); let q = self.cst(ev(op, 1, w, x, q, 0), 1); return self.ite(nb.a, p, q); } }
        self.mk(op, 1, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.k(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.is(c, Op::Not) { let x = self.nodes[c as usize].a; return self.ite(x, b, a); }
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b), (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a), (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        } else if let (Some(1), Some(0)) = (self.k(a), self.k(b)) { return self.zext(c, w); }
        // same-condition nesting
        let na = self.nodes[a as usize]; if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.nodes[b as usize]; if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a); if aw == w { return a; }
        if let Some(v) = self.k(a) { return self.cst(v, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Concat && self.k(n.a) == Some(0) { return self.zext(n.b, w); }
        if n.op == Op::Ite && aw > 1 { if let (Some(p), Some(q)) = (self.k(n.b), self.k(n.c)) { let p = self.cst(p, w); let q = self.cst(q, w); return self.ite(n.a, p, q); } }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a); if aw == w { return a; }
        if let Some(v) = self.k(a) { return self.cst(sx(v, aw) as u128, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a); if lo == 0 && w == aw { return a; }
        if let Some(v) = self.k(a) { return self.cst(v >> lo, w); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => { let iw = self.w(n.a); if lo >= iw { return self.cst(0, w); } if lo + w <= iw { return self.extract(n.a, lo, w); } let x = self.extract(n.a, lo, iw - lo); return self.zext(x, w); }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); } }
            Op::Concat => { let lw = self.w(n.b); if lo >= lw { return self.extract(n.a, lo - lw, w); } if lo + w <= lw { return self.extract(n.b, lo, w); } let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, w - (lw - lo)); return self.concat(h, l); }
            Op::Ite => { if self.k(n.b).is_some() || self.k(n.c).is_some() { let p = self.extract(n.b, lo, w); let q = self.extract(n.c, lo, w); return self.ite(n.a, p, q); } }
            Op::And | Op::Or | Op::Xor => { let p = self.extract(n.a, lo, w); let q = self.extract(n.b, lo, w); return self.bin(n.op, p, q); }
            Op::Not => { let p = self.extract(n.a, lo, w); return self.not(p); }
            Op::Add | Op::Sub | Op::Mul => if lo == 0 { let p = self.extract(n.a, 0, w); let q = self.extract(n.b, 0, w); return self.bin(n.op, p, q); },
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l)); let w = hw + lw;
        if let (Some(x), Some(y)) = (self.k(h), self.k(l)) { return self.cst((x << lw) | y, w); }
        if self.k(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw { return self.extract(nh.a, nl.b, w); }
        // low part is a full value: e.g. concat(extract(x,8..), extract(x,0..8)) handled above when both extracts; zext case:
        if nh.op == Op::ZExt { // concat(zext(x), l) = zext(concat(x,l))
            let c = self.concat(nh.a, l); return self.zext(c, w); }
        if nl.op == Op::Concat { // right-nested -> left-nested so that adjacent extracts meet
            let x = self.concat(h, nl.a); return self.concat(x, nl.b); }
        if nh.op == Op::Concat && nl.op == Op::Extract { let nn = self.nodes[nh.b as usize]; if nn.op == Op::Extract && nn.a == nl.a && nn.b == nl.b + lw { let lo = self.extract(nl.a, nl.b, lw + self.w(nh.b)); return self.concat(nh.a, lo); } }
        if nh.op == Op::Concat { if let (Some(x), Some(y)) = (self.k(nh.b), self.k(l)) { let mw = self.w(nh.b); let c = self.cst((x << lw) | y, mw + lw); return self.concat(nh.a, c); } }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a { let p = self.concat(nh.b, nl.b); let q = self.concat(nh.c, nl.c); return self.ite(nh.a, p, q); }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn table(&mut self, t: Vec<u64>, idx: E, w: u32) -> E {
        if let Some(v) = self.k(idx) { return self.cst(*t.get(v as usize).unwrap_or(&0) as u128, w); }
        if t.iter().all(|x| *x == t[0]) { return self.cst(t[0] as u128, w); }
        let t = Rc::new(t);
        let id = if let Some(i) = self.tablemap.get(&t) { *i } else { let i = self.tables.len() as u32; self.tables.push(t.clone()); self.tablemap.insert(t, i); i };
        self.mk(Op::Table, w, id, idx, 0)
    }
    pub fn un(&mut self, op: Op, a: E, w: u32) -> E { // FNan, conversions
        if let Some(v) = self.k(a) { let aw = self.w(a); return self.cst(ev(op, w, aw, v, 0, 0), w); }
        let n = self.nodes[a as usize];
        // exact conversions: integer -> float -> integer of values that fit the mantissa
        if matches!(op, Op::FToU | Op::FToS) && matches!(n.op, Op::UToF | Op::SToF) {
            let src = n.a; let sw = self.w(src); let fw = self.w(a); let mant = if fw == 64 { 53 } else { 24 };
            let signed_src = n.op == Op::SToF;
            let ns = self.nodes[src as usize];
            let eff = if !signed_src { if ns.op == Op::ZExt { self.w(ns.a) } else { sw } } else if ns.op == Op::SExt { self.w(ns.a) } else if ns.op == Op::ZExt { self.w(ns.a) + 1 } else { sw };
            if eff <= mant {
                if !signed_src && op == Op::FToU && w >= sw.min(eff) { return if w >= sw { self.zext(src, w) } else { self.extract(src, 0, w) }; }
                if !signed_src && op == Op::FToS && w > eff { return if w >= sw { self.zext(src, w) } else { self.extract(src, 0, w) }; }
                if signed_src && op == Op::FToS && w >= eff { return if w >= sw { self.sext(src, w) } else { self.extract(src, 0, w) }; }
            }
        }
        if op == Op::FNan && matches!(n.op, Op::UToF | Op::SToF) { return self.cst(0, 1); }
        if op == Op::FNan && !self.has_fp[a as usize] { let aw = self.w(a); let (mk, inf) = if aw == 64 { (mask(63), 0x7ffu128 << 52) } else { (mask(31), 0xffu128 << 23) }; let k = self.cst(mk, aw); let x = self.bin(Op::And, a, k); let i = self.cst(inf, aw); return self.cmp(Op::Ult, i, x); }
        if op == Op::FTrunc && n.op == Op::FExt { return n.a; }
        if op == Op::UToF { let ns = self.nodes[a as usize]; if ns.op == Op::ZExt && self.w(ns.a) < 128 { let aw = self.w(ns.a); let _ = aw; return self.un(Op::UToF, ns.a, w); } }
        if op == Op::SToF { if n.op == Op::ZExt { return self.un(Op::UToF, n.a, w); } if n.op == Op::SExt { return self.un(Op::SToF, n.a, w); } }
        self.mk(op, w, a, 0, 0)
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a); let w = if matches!(op, Op::FEq | Op::FLt | Op::FLe) { 1 } else { aw };
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.cst(ev(op, w, aw, x, y, 0), w); }
        let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) };
        let inf: u128 = if aw == 64 { 0x7ff << 52 } else { 0xff << 23 };
        if op == Op::FEq { // infinities have one representation
            for (x, y) in [(a, b), (b, a)] { if let Some(v) = self.k(y) { if v & (mask(aw) >> 1) == inf { return self.cmp(Op::Eq, x, y); } } } }
        if op == Op::FLt { if self.k(b) == Some(inf) { let n = self.un(Op::FNan, a, 1); let n = self.not(n); let e = self.cmp(Op::Eq, a, b); let e = self.not(e); return self.and(n, e); } }
        if op == Op::FEq && a == b { let n = self.un(Op::FNan, a, 1); return self.not(n); }
        self.mk(op, w, a, b, 0)
    }

    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.epoch += 1; self.eval_ep(e, model)
    }
    pub fn new_epoch(&mut self) { self.epoch += 1; }
    pub fn eval_ep(&mut self, e: E, model: &[u64]) -> u128 {
        let ep = self.epoch;
        let base = self.stack.len();
        self.stack.push(e);
        while self.stack.len() > base {
            let x = *self.stack.last().unwrap() as usize;
            if self.mep[x] == ep { self.stack.pop(); continue; }
            let n = self.nodes[x];
            macro_rules! need { ($($c:expr),*) => {{ let mut ok = true; $( if self.mep[$c as usize] != ep { self.stack.push($c); ok = false; } )* if !ok { continue; } }} }
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => *model.get(n.a as usize).unwrap_or(&0) as u128 & mask(n.w as u32),
                Op::Not | Op::ZExt | Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FTrunc | Op::FExt => { need!(n.a); ev(n.op, n.w as u32, self.nodes[n.a as usize].w as u32, self.mval[n.a as usize], 0, 0) }
                Op::Extract => { need!(n.a); (self.mval[n.a as usize] >> n.b) & mask(n.w as u32) }
                Op::Concat => { need!(n.a, n.b); (self.mval[n.a as usize] << self.nodes[n.b as usize].w) | self.mval[n.b as usize] }
                Op::Table => { need!(n.b); let i = self.mval[n.b as usize]; *self.tables[n.a as usize].get(i as usize).unwrap_or(&0) as u128 }
                Op::Ite => { need!(n.a); if self.mval[n.a as usize] != 0 { need!(n.b); self.mval[n.b as usize] } else { need!(n.c); self.mval[n.c as usize] } }
                _ => { need!(n.a, n.b); ev(n.op, n.w as u32, self.nodes[n.a as usize].w as u32, self.mval[n.a as usize], self.mval[n.b as usize], 0) }
            };
            self.mval[x] = v; self.mep[x] = ep; self.stack.pop();
        }
        self.mval[e as usize]
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.nodes[e as usize]; if d == 0 { return "..".into(); }
        match n.op { Op::Const => format!("{:x}", self.consts[n.a as usize]), Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Not | Op::ZExt | Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FTrunc | Op::FExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w), Op::Table => format!("T{}({})", n.a, self.show(n.b, d - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)) }
    }
    /// truth table of a boolean over one byte-sized variable
    pub fn truth(&mut self, c: E, var: u32, w: u32) -> Rc<[u64; 4]> {
        if let Some(t) = self.tt.get(&c) { return t.clone(); }
        let mut t = [0u64; 4];
        let n = 1usize << w;
        let mut m = vec![0u64; var as usize + 1];
        for v in 0..n { m[var as usize] = v as u64; if self.eval(c, &m) != 0 { t[v >> 6] |= 1 << (v & 63); } }
        let t = Rc::new(t); self.tt.insert(c, t.clone()); t
    }
}
