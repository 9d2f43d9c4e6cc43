//! Z3 back end (through its C API).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_camel_case_types)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P; fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P; fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P; fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {:?}", e, m); std::process::exit(71);
}

#[derive(Clone, Debug)]
pub enum Ans { Sat(Vec<(u32, u64)>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time_us: u64, pub cache_hits: u64, pub max_us: u64 }

pub struct Smt { c: P, solver: P, bv: HashMap<E, P>, bo: HashMap<E, P>, vars: HashMap<(u32, u32), P>, d64: P, d32: P, rne: P, rtz: P, pub stats: Stats, pub timeout_ms: u32, domc: HashMap<(u32, u32, [u64; 4]), P> }

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt { unsafe {
        let c = Z3_mk_context(Z3_mk_config()); Z3_set_error_handler(c, on_err);
        let solver = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, solver);
        let mut s = Smt { c, solver, bv: HashMap::new(), bo: HashMap::new(), vars: HashMap::new(), d64: Z3_mk_fpa_sort_double(c), d32: Z3_mk_fpa_sort_single(c), rne: Z3_mk_fpa_rne(c), rtz: Z3_mk_fpa_rtz(c), stats: Stats::default(), timeout_ms, domc: HashMap::new() };
        let sv = s.solver; s.set_timeout(sv, timeout_ms); s
    } }
    fn set_timeout(&mut self, s: P, ms: u32) { unsafe { let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p); let k = CString::new("timeout").unwrap(); Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms); Z3_solver_set_params(self.c, s, p); } }
    fn num(&self, v: u128, w: u32) -> P { unsafe { let s = Z3_mk_bv_sort(self.c, w); if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) } } }
    fn fsort(&self, w: u32) -> P { if w == 64 { self.d64 } else { self.d32 } }

    /// translate children first (iteratively), so that deep expressions do not overflow the stack
    fn prep(&mut self, ar: &Arena, e: E) {
        let mut st = vec![e];
        while let Some(x) = st.last().cloned() {
            if self.bv.contains_key(&x) && (ar.nodes[x as usize].w != 1 || self.bo.contains_key(&x)) { st.pop(); continue; }
            let n = ar.nodes[x as usize];
            let ch: Vec<E> = match n.op { Op::Const | Op::Var => vec![], Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FTrunc | Op::FExt => vec![n.a], Op::Table => vec![n.b], Op::Ite => vec![n.a, n.b, n.c], _ => vec![n.a, n.b] };
            let mut ok = true;
            for c in ch { if !self.bv.contains_key(&c) || (ar.nodes[c as usize].w == 1 && !self.bo.contains_key(&c)) { st.push(c); ok = false; } }
            if !ok { continue; }
            self.trans(ar, x); st.pop();
        }
    }
    // IEEE comparisons and conversions as bit-vector terms (`symex --selftest` has Z3 compare them with its own floating-point theory)
    fn fnan(&self, a: P, w: u32) -> P { unsafe { let c = self.c; let m = Z3_mk_extract(c, w - 2, 0, a); Z3_mk_bvult(c, self.num(if w == 64 { 0x7ff << 52 } else { 0xff << 23 }, w - 1), m) } }
    fn ord(&self, a: P, b: P, w: u32, e: P) -> P { unsafe { let c = self.c; let l = [Z3_mk_not(c, self.fnan(a, w)), Z3_mk_not(c, self.fnan(b, w)), e]; Z3_mk_and(c, 3, l.as_ptr()) } }
    fn zeros(&self, a: P, b: P, w: u32) -> P { unsafe { let c = self.c; Z3_mk_eq(c, Z3_mk_extract(c, w - 2, 0, Z3_mk_bvor(c, a, b)), self.num(0, w - 1)) } }
    fn feq(&self, a: P, b: P, w: u32) -> P { unsafe { let c = self.c; let l = [Z3_mk_eq(c, a, b), self.zeros(a, b, w)]; self.ord(a, b, w, Z3_mk_or(c, 2, l.as_ptr())) } }
    fn flt(&self, a: P, b: P, w: u32) -> P { unsafe {
        let c = self.c; let neg = |x: P| Z3_mk_eq(c, Z3_mk_extract(c, w - 1, w - 1, x), self.num(1, 1));
        let r = Z3_mk_ite(c, neg(a), Z3_mk_ite(c, neg(b), Z3_mk_bvult(c, b, a), Z3_mk_not(c, self.zeros(a, b, w))), Z3_mk_ite(c, neg(b), Z3_mk_false(c), Z3_mk_bvult(c, a, b)));
        self.ord(a, b, w, r) } }
    /// rounding towards zero, saturating, NaN to 0
    fn f_to_int(&self, a: P, aw: u32, signed: bool, w: u32) -> P { unsafe {
        let c = self.c; let (mb, eb) = if aw == 64 { (52u32, 11u32) } else { (23, 8) }; let bias = (1u128 << (eb - 1)) - 1;
        let wd = w.max(64); let top = if signed { w - 1 } else { w } as u128;
        let ex = Z3_mk_zero_ext(c, wd - eb, Z3_mk_extract(c, aw - 2, mb, a)); let sig = Z3_mk_zero_ext(c, wd - mb - 1, Z3_mk_concat(c, self.num(1, 1), Z3_mk_extract(c, mb - 1, 0, a)));
        let e = Z3_mk_bvsub(c, ex, self.num(bias, wd)); let m = self.num(mb as u128, wd);
        let mag = Z3_mk_ite(c, Z3_mk_bvule(c, e, m), Z3_mk_bvlshr(c, sig, Z3_mk_bvsub(c, m, e)), Z3_mk_bvshl(c, sig, Z3_mk_bvsub(c, e, m)));
        let mag = Z3_mk_extract(c, w - 1, 0, mag); let small = Z3_mk_bvult(c, ex, self.num(bias, wd)); let big = Z3_mk_bvule(c, self.num(bias + top, wd), ex);
        let neg = Z3_mk_eq(c, Z3_mk_extract(c, aw - 1, aw - 1, a), self.num(1, 1)); let zero = self.num(0, w);
        let (hi, lo, nm) = if signed { (mask(w) >> 1, 1u128 << (w - 1), Z3_mk_bvsub(c, zero, mag)) } else { (mask(w), 0, zero) };
        let r = Z3_mk_ite(c, big, Z3_mk_ite(c, neg, self.num(lo, w), self.num(hi, w)), Z3_mk_ite(c, neg, nm, mag));
        let l = [small, self.fnan(a, aw)]; Z3_mk_ite(c, Z3_mk_or(c, 2, l.as_ptr()), zero, r) } }
    /// rounding to the nearest, ties to even
    fn int_to_f(&self, a: P, aw: u32, signed: bool, w: u32) -> P { unsafe {
        let c = self.c; let (mb, eb) = if w == 64 { (52u32, 11u32) } else { (23, 8) }; let bias = (1u128 << (eb - 1)) - 1;
        let wd = if aw <= 64 { 64u32 } else { 128 };
        let x = if aw == wd { a } else if signed { Z3_mk_sign_ext(c, wd - aw, a) } else { Z3_mk_zero_ext(c, wd - aw, a) };
        let neg = if signed { Z3_mk_eq(c, Z3_mk_extract(c, wd - 1, wd - 1, x), self.num(1, 1)) } else { Z3_mk_false(c) };
        let mut v = Z3_mk_ite(c, neg, Z3_mk_bvsub(c, self.num(0, wd), x), x); let mut ex = self.num(bias + wd as u128 - 1, eb); let mut k = wd / 2;
        while k > 0 { let z = Z3_mk_eq(c, Z3_mk_extract(c, wd - 1, wd - k, v), self.num(0, k)); v = Z3_mk_ite(c, z, Z3_mk_bvshl(c, v, self.num(k as u128, wd)), v); ex = Z3_mk_ite(c, z, Z3_mk_bvsub(c, ex, self.num(k as u128, eb)), ex); k /= 2; }
        let man = Z3_mk_extract(c, wd - 2, wd - 1 - mb, v); let guard = Z3_mk_extract(c, wd - 2 - mb, wd - 2 - mb, v);
        let rest = Z3_mk_eq(c, Z3_mk_extract(c, wd - 3 - mb, 0, v), self.num(0, wd - 2 - mb)); let odd = Z3_mk_eq(c, Z3_mk_extract(c, 0, 0, man), self.num(1, 1));
        let l = [Z3_mk_not(c, rest), odd]; let l = [Z3_mk_eq(c, guard, self.num(1, 1)), Z3_mk_or(c, 2, l.as_ptr())]; let inc = Z3_mk_ite(c, Z3_mk_and(c, 2, l.as_ptr()), self.num(1, w - 1), self.num(0, w - 1));
        let r = Z3_mk_bvadd(c, Z3_mk_concat(c, ex, man), inc); let r = Z3_mk_concat(c, Z3_mk_ite(c, neg, self.num(1, 1), self.num(0, 1)), r);
        Z3_mk_ite(c, Z3_mk_eq(c, a, self.num(0, aw)), self.num(0, w), r) } }
    /// every one of the terms above against Z3's floating-point theory, for all operands
    pub fn selftest(&mut self) -> bool { unsafe {
        let c = self.c; let mut good = true; let var = |i: c_int, w: u32| Z3_mk_const(c, Z3_mk_int_symbol(c, i), Z3_mk_bv_sort(c, w));
        let mut q = |name: String, differ: P| { let l = CString::new("QF_FPBV").unwrap(); let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, s); Z3_solver_assert(c, s, differ); let t = Instant::now(); let r = Z3_solver_check(c, s); println!("{name}: {} ({:.1}s)", match r { -1 => "equal", 1 => "DIFFER", _ => "unknown" }, t.elapsed().as_secs_f32()); if r != -1 { good = false } Z3_solver_dec_ref(c, s); };
        for w in [64u32, 32] {
            let s = self.fsort(w); let (a, b) = (var(1, w), var(2, w)); let (fa, fb) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
            q(format!("eq{w}"), Z3_mk_xor(c, self.feq(a, b, w), Z3_mk_fpa_eq(c, fa, fb))); q(format!("lt{w}"), Z3_mk_xor(c, self.flt(a, b, w), Z3_mk_fpa_lt(c, fa, fb))); q(format!("nan{w}"), Z3_mk_xor(c, self.fnan(a, w), Z3_mk_fpa_is_nan(c, fa)));
            for iw in [8u32, 16, 32, 64, 128] { for signed in [false, true] {
                let x = var(3, iw); let f = if signed { Z3_mk_fpa_to_fp_signed(c, self.rne, x, s) } else { Z3_mk_fpa_to_fp_unsigned(c, self.rne, x, s) };
                q(format!("int{iw}{signed} to f{w}"), Z3_mk_not(c, Z3_mk_eq(c, self.int_to_f(x, iw, signed, w), Z3_mk_fpa_to_ieee_bv(c, f))));
                let (lo, hi, lov, hiv) = if !signed { (-1.0f64, 2f64.powi(iw as i32), 0u128, mask(iw)) } else { (-2f64.powi(iw as i32 - 1), 2f64.powi(iw as i32 - 1), 1u128 << (iw - 1), mask(iw) >> 1) };
                let conv = if !signed { Z3_mk_fpa_to_ubv(c, self.rtz, fa, iw) } else { Z3_mk_fpa_to_sbv(c, self.rtz, fa, iw) };
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, Z3_mk_fpa_numeral_double(c, hi, s), fa), self.num(hiv, iw), conv); let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fa, Z3_mk_fpa_numeral_double(c, lo, s)), self.num(lov, iw), r);
                let r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fa), self.num(0, iw), r);
                q(format!("f{w} to int{iw}{signed}"), Z3_mk_not(c, Z3_mk_eq(c, self.f_to_int(a, w, signed, iw), r)));
            } }
        }
        good } }
    fn trans(&mut self, ar: &Arena, x: E) { unsafe {
        let n = ar.nodes[x as usize]; let c = self.c; let w = n.w as u32;
        let bv = |s: &Self, e: E| s.bv[&e]; let bo = |s: &Self, e: E| s.bo[&e];
        let aw = |e: E| ar.nodes[e as usize].w as u32;
        let fp = |s: &Self, e: E| Z3_mk_fpa_to_fp_bv(c, s.bv[&e], s.fsort(aw(e)));
        let mut boolean: Option<P> = None; let mut vec: Option<P> = None;
        match n.op {
            Op::Const => { let v = ar.consts[n.a as usize]; if w == 1 { boolean = Some(if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }); } vec = Some(self.num(v, w)); }
            Op::Var => { let v = *self.vars.entry((n.a, w)).or_insert_with(|| Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 128 + w) as c_int), Z3_mk_bv_sort(c, w))); vec = Some(v); if w == 1 { boolean = Some(Z3_mk_eq(c, v, self.num(1, 1))); } }
            Op::Not => if w == 1 { boolean = Some(Z3_mk_not(c, bo(self, n.a))) } else { vec = Some(Z3_mk_bvnot(c, bv(self, n.a))) },
            Op::And | Op::Or | Op::Xor if w == 1 => { let l = [bo(self, n.a), bo(self, n.b)]; boolean = Some(match n.op { Op::And => Z3_mk_and(c, 2, l.as_ptr()), Op::Or => Z3_mk_or(c, 2, l.as_ptr()), _ => Z3_mk_xor(c, l[0], l[1]) }); }
            Op::Ite if w == 1 => boolean = Some(Z3_mk_ite(c, bo(self, n.a), bo(self, n.b), bo(self, n.c))),
            Op::Ite => vec = Some(Z3_mk_ite(c, bo(self, n.a), bv(self, n.b), bv(self, n.c))),
            Op::Eq => boolean = Some(Z3_mk_eq(c, bv(self, n.a), bv(self, n.b))),
            Op::Ult => boolean = Some(Z3_mk_bvult(c, bv(self, n.a), bv(self, n.b))), Op::Ule => boolean = Some(Z3_mk_bvule(c, bv(self, n.a), bv(self, n.b))),
            Op::Slt => boolean = Some(Z3_mk_bvslt(c, bv(self, n.a), bv(self, n.b))), Op::Sle => boolean = Some(Z3_mk_bvsle(c, bv(self, n.a), bv(self, n.b))),
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                let (a, b) = (bv(self, n.a), bv(self, n.b));
                vec = Some(match n.op { Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b), Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), _ => Z3_mk_bvashr(c, a, b) });
            }
            Op::Concat => vec = Some(Z3_mk_concat(c, bv(self, n.a), bv(self, n.b))),
            Op::Extract => { let v = Z3_mk_extract(c, n.b + w - 1, n.b, bv(self, n.a)); vec = Some(v); if w == 1 { boolean = Some(Z3_mk_eq(c, v, self.num(1, 1))); } }
            Op::ZExt => vec = Some(Z3_mk_zero_ext(c, w - aw(n.a), bv(self, n.a))), Op::SExt => vec = Some(Z3_mk_sign_ext(c, w - aw(n.a), bv(self, n.a))),
            Op::Table => {
                let t = ar.tables[n.a as usize].clone(); let idx = bv(self, n.b); let iw = aw(n.b);
                let mut r = self.num(0, w);
                // group equal values
                let mut g: std::collections::BTreeMap<u64, Vec<usize>> = Default::default();
                for (i, v) in t.iter().enumerate() { if (iw >= 64 || (i as u64) < (1u64 << iw)) && *v != 0 { g.entry(*v).or_default().push(i); } }
                for (v, is) in g {
                    let mut ors = vec![]; let mut j = 0;
                    while j < is.len() { let s = is[j]; let mut e = s; while j + 1 < is.len() && is[j + 1] == e + 1 { j += 1; e = is[j]; } j += 1;
                        if s == e { ors.push(Z3_mk_eq(c, idx, self.num(s as u128, iw))); } else { let l = [Z3_mk_bvule(c, self.num(s as u128, iw), idx), Z3_mk_bvule(c, idx, self.num(e as u128, iw))]; ors.push(Z3_mk_and(c, 2, l.as_ptr())); } }
                    let cond = if ors.len() == 1 { ors[0] } else { Z3_mk_or(c, ors.len() as u32, ors.as_ptr()) };
                    r = Z3_mk_ite(c, cond, self.num(v as u128, w), r);
                }
                vec = Some(r); if w == 1 { boolean = Some(Z3_mk_eq(c, r, self.num(1, 1))); }
            }
            Op::FAdd => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, self.rne, fp(self, n.a), fp(self, n.b)))),
            Op::FSub => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, self.rne, fp(self, n.a), fp(self, n.b)))),
            Op::FMul => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, self.rne, fp(self, n.a), fp(self, n.b)))),
            Op::FDiv => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, self.rne, fp(self, n.a), fp(self, n.b)))),
            Op::FRem => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_rem(c, fp(self, n.a), fp(self, n.b)))),
            Op::FEq => boolean = Some(self.feq(bv(self, n.a), bv(self, n.b), aw(n.a))),
            Op::FLt => boolean = Some(self.flt(bv(self, n.a), bv(self, n.b), aw(n.a))),
            Op::FLe => { let (x, y, k) = (bv(self, n.a), bv(self, n.b), aw(n.a)); let l = [self.flt(x, y, k), self.feq(x, y, k)]; boolean = Some(Z3_mk_or(c, 2, l.as_ptr())); }
            Op::FNan => boolean = Some(self.fnan(bv(self, n.a), aw(n.a))),
            Op::UToF | Op::SToF => vec = Some(self.int_to_f(bv(self, n.a), aw(n.a), n.op == Op::SToF, w)),
            Op::FTrunc | Op::FExt => vec = Some(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, self.rne, fp(self, n.a), self.fsort(w)))),
            Op::FToU | Op::FToS => vec = Some(self.f_to_int(bv(self, n.a), aw(n.a), n.op == Op::FToS, w)),
        }
        if let Some(b) = boolean { self.bo.insert(x, b); if vec.is_none() { vec = Some(Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))); } }
        else if w == 1 { let b = Z3_mk_eq(c, vec.unwrap(), self.num(1, 1)); self.bo.insert(x, b); }
        self.bv.insert(x, vec.unwrap());
    } }
    /// constraint "var in domain" as a disjunction of ranges
    fn dom_ast(&mut self, var: u32, w: u32, d: &[u64; 4]) -> P { unsafe {
        if let Some(p) = self.domc.get(&(var, w, *d)) { return *p; }
        let c = self.c;
        let x = *self.vars.entry((var, w)).or_insert_with(|| Z3_mk_const(c, Z3_mk_int_symbol(c, (var * 128 + w) as c_int), Z3_mk_bv_sort(c, w)));
        let n = 1usize << w; let mut ors = vec![]; let mut i = 0;
        while i < n { if d[i >> 6] >> (i & 63) & 1 == 1 { let s = i; while i + 1 < n && d[(i + 1) >> 6] >> ((i + 1) & 63) & 1 == 1 { i += 1; }
            if s == 0 && i == n - 1 { ors.push(Z3_mk_true(c)); } else if s == i { ors.push(Z3_mk_eq(c, x, self.num(s as u128, w))); } else { let l = [Z3_mk_bvule(c, self.num(s as u128, w), x), Z3_mk_bvule(c, x, self.num(i as u128, w))]; ors.push(Z3_mk_and(c, 2, l.as_ptr())); } } i += 1; }
        let r = if ors.is_empty() { Z3_mk_false(c) } else if ors.len() == 1 { ors[0] } else { Z3_mk_or(c, ors.len() as u32, ors.as_ptr()) };
        self.domc.insert((var, w, *d), r); r
    } }
    /// c (over one variable) holds exactly on the set t
    pub fn agrees(&mut self, ar: &Arena, e: E, v: u32, w: u32, t: &[u64; 4], all: bool, none: bool) -> bool { unsafe {
        let t0 = Instant::now(); self.prep(ar, e); let c = self.c;
        let d = if all { Z3_mk_true(c) } else if none { Z3_mk_false(c) } else { self.dom_ast(v, w, t) };
        Z3_solver_push(c, self.solver); Z3_solver_assert(c, self.solver, Z3_mk_xor(c, d, self.bo[&e])); let r = Z3_solver_check(c, self.solver); Z3_solver_pop(c, self.solver, 1);
        if r == 1 { self.stats.sat += 1 } else if r == -1 { self.stats.unsat += 1 } else { self.stats.unknown += 1 }
        self.stats.queries += 1; self.stats.time_us += t0.elapsed().as_micros() as u64;
        if r == 0 { panic!("z3 gave no answer on a truth table"); }
        r == -1
    } }
    /// is there an assignment of `vars` within `doms` satisfying all of `cs`?
    pub fn check(&mut self, ar: &Arena, cs: &[E], doms: &[(u32, u32, Option<[u64; 4]>)]) -> Ans { unsafe {
        let t0 = Instant::now();
        let fp = cs.iter().any(|e| ar.has_fp[*e as usize]);
        for e in cs { self.prep(ar, *e); }
        let c = self.c;
        let s = if fp { let l = CString::new("QF_FPBV").unwrap(); let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, s); let ms = self.timeout_ms; self.set_timeout(s, ms); s } else { Z3_solver_push(c, self.solver); self.solver };
        for e in cs { Z3_solver_assert(c, s, self.bo[e]); }
        for (v, w, d) in doms { if let Some(d) = d { let a = self.dom_ast(*v, *w, d); Z3_solver_assert(c, s, a); } }
        let r = Z3_solver_check(c, s);
        let ans = if r == 1 {
            let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
            let mut out = vec![];
            for (v, w, _) in doms {
                let x = *self.vars.entry((*v, *w)).or_insert_with(|| Z3_mk_const(c, Z3_mk_int_symbol(c, (*v * 128 + *w) as c_int), Z3_mk_bv_sort(c, *w)));
                let mut o: P = std::ptr::null_mut(); let mut val = 0u64;
                if Z3_model_eval(c, m, x, true, &mut o) { Z3_get_numeral_uint64(c, o, &mut val); }
                out.push((*v, val));
            }
            Z3_model_dec_ref(c, m); self.stats.sat += 1; Ans::Sat(out)
        } else if r == -1 { self.stats.unsat += 1; Ans::Unsat } else { self.stats.unknown += 1; Ans::Unknown };
        if fp { Z3_solver_dec_ref(c, s); } else { Z3_solver_pop(c, s, 1); }
        self.stats.queries += 1; let us = t0.elapsed().as_micros() as u64; self.stats.time_us += us; self.stats.max_us = self.stats.max_us.max(us);
        if us > 2500 && std::env::var_os("SYMEX_SLOW").is_some() { eprintln!("SLOW {}us {:?}", us, matches!(ans, Ans::Sat(_))); for e in cs { eprintln!("   {}", ar.show(*e, 40)); } eprintln!("   {:?}", doms); }
        ans
    } }
}
