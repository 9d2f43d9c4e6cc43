//! Interface between harnesses and the symbolic executor. In the IR build the `__sym_*`
//! functions stay undefined and the executor gives them their meaning; the native replay
//! binaries define them (module `native`) by reading recorded inputs.
macro_rules! decl { ($abi:literal) => { extern $abi {
    fn __sym_bits(w: u32) -> u64;
    fn __sym_choice(n: u32) -> u32;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: u32);
    fn __sym_reach(id: u32);
    fn __sym_observe(v: u64);
    fn __sym_expect_panic(id: u32);
    fn __sym_split(v: u64) -> u64;
    fn __sym_float_of(p: *const u8, n: usize, neg: bool) -> u64;
    fn __sym_float_text(p: *const u8, n: usize, f: u64);
    fn __sym_float_seen(f: u64, p: *mut u8) -> usize;
    fn __sym_float_mode(precise: u32);
    fn __sym_int(what: u32) -> u64;
    fn __sym_int_text(p: *const u8, n: usize);
    fn __sym_ghost_bits(w: u32) -> u64;
    fn __sym_ghost_choice(n: u32) -> u32;
} } }
#[cfg(panic = "unwind")] decl!("C-unwind");
#[cfg(not(panic = "unwind"))] decl!("C");
/// a symbolic w-bit value
#[inline] pub fn bits(w: u32) -> u64 { unsafe { __sym_bits(w) } }
/// one of 0..n, each explored
#[inline] pub fn choice(n: u32) -> u32 { unsafe { __sym_choice(n) } }
/// keep only executions in which c holds
#[inline] pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
/// the assertion: the solver must show that c holds for every value
#[inline] pub fn check(c: bool, id: u32) { unsafe { __sym_check(c, id) } }
/// marks a situation that the exploration has to reach (guards against vacuity)
#[inline] pub fn reach(id: u32) { unsafe { __sym_reach(id) } }
/// value compared between the symbolic and the native execution
#[inline] pub fn observe(v: u64) { unsafe { __sym_observe(v) } }
/// from here on a panic is what must happen (0: must not)
#[inline] pub fn expect_panic(id: u32) { unsafe { __sym_expect_panic(id) } }
/// fork until v has one value
#[inline] pub fn split(v: u64) -> u64 { unsafe { __sym_split(v) } }

/// shown with a replayed execution; nothing in the symbolic one
#[cfg(panic = "unwind")] pub fn note(s: &str) { native::note(s) }
#[cfg(not(panic = "unwind"))] #[inline] pub fn note(_s: &str) {}
#[cfg(panic = "unwind")] pub fn note_with(f: impl FnOnce() -> String) { native::note(&f()) }
#[cfg(not(panic = "unwind"))] #[inline] pub fn note_with(_f: impl FnOnce() -> String) {}

/// any ASCII byte
#[inline] pub fn ascii() -> u8 { bits(7) as u8 }
#[inline] pub fn byte() -> u8 { bits(8) as u8 }
#[inline] pub fn flag() -> bool { bits(1) != 0 }

pub mod native;

/// true: the standard library's float text routines are executed; false: they are replaced by their contract
#[inline] pub fn precise_floats(p: bool) { unsafe { __sym_float_mode(p as u32) } }

/// Contract of `f64::from_str` on a text with symbolic characters: an error unless the text is a number
/// in decimal notation (the alphabetic forms inf, infinity and nan end as "unknown"), otherwise some double that is not NaN, with the
/// text's sign, always the same one for the same text. A whole number of up to 18 digits gives the double nearest to it.
#[cfg(not(panic = "unwind"))]
#[no_mangle]
pub fn __stub_parse_f64(s: &str) -> Result<f64, std::num::ParseFloatError> {
    let b = s.as_bytes(); let n = b.len(); let mut i = 0;
    let bad = || "x".parse::<f64>();
    if n == 0 { return "".parse::<f64>(); }
    let mut neg = false;
    if b[0] == b'-' { neg = true; i = 1; } else if b[0] == b'+' { i = 1; }
    let (mut d, mut e) = (0, 0);
    while i < n && b[i].is_ascii_digit() { i += 1; d += 1; }
    if i < n && b[i] == b'.' { i += 1; while i < n && b[i].is_ascii_digit() { i += 1; d += 1; } }
    if d == 0 { return bad(); }
    if i < n && (b[i] == b'e' || b[i] == b'E') {
        i += 1; if i < n && (b[i] == b'-' || b[i] == b'+') { i += 1; }
        while i < n && b[i].is_ascii_digit() { i += 1; e += 1; }
        if e == 0 { return bad(); }
    }
    if i != n { return bad(); }
    let digits = &b[(b[0] == b'-' || b[0] == b'+') as usize..];
    if e == 0 && d <= 18 && digits.len() == d {
        let mut x: u64 = 0; for c in digits { x = x * 10 + (*c - b'0') as u64; }
        return Ok(if neg { -(x as f64) } else { x as f64 });
    }
    Ok(f64::from_bits(unsafe { __sym_float_of(b.as_ptr(), n, neg) }))
}

/// Contract of `<f64 as Display>::fmt` on a symbolic double: some text in the form the standard library
/// writes (sign, digits without superfluous zeros, no exponent), which `f64::from_str` reads back as the same double; the same text for the same double.
#[cfg(not(panic = "unwind"))]
#[no_mangle]
pub fn __stub_fmt_f64(num: &f64, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if num.is_nan() { return f.write_str("NaN"); }
    let mut seen = [0u8; 16]; let n = unsafe { __sym_float_seen(num.to_bits(), seen.as_mut_ptr()) };
    if n > 0 { return f.write_str(unsafe { std::str::from_utf8_unchecked(&seen[..n]) }); }
    let neg = num.is_sign_negative();
    if num.is_infinite() { return f.write_str(if neg { "-inf" } else { "inf" }); }
    let mut t: Vec<u8> = Vec::new();
    if neg { t.push(b'-'); }
    let zero = num.to_bits() << 1 == 0;
    if zero { t.push(b'0'); } else {
        // 0: one digit; 1: two digits; 2: d.d; 3: dd.dd; 4: 0.0d
        let shape = unsafe { __sym_ghost_choice(5) };
        let dig = |lo: u8| { let d = unsafe { __sym_ghost_bits(4) } as u8; assume(d >= lo && d <= 9); b'0' + d };
        match shape { 0 => t.push(dig(1)), 1 => { t.push(dig(1)); t.push(dig(0)); } 2 => { t.push(dig(0)); t.push(b'.'); t.push(dig(1)); } 3 => { t.push(dig(1)); t.push(dig(0)); t.push(b'.'); t.push(dig(0)); t.push(dig(1)); } _ => { t.push(b'0'); t.push(b'.'); t.push(b'0'); t.push(dig(1)); } }
    }
    unsafe { __sym_float_text(t.as_ptr(), t.len(), num.to_bits()) }
    f.write_str(unsafe { std::str::from_utf8_unchecked(&t) })
}

/// Contract of `<integer as Display>::fmt` and of `to_string` on a symbolic integer of more than 16 bits: some text in the form the
/// standard library writes (sign, digits without leading zeros), which `f64::from_str` reads back as the double nearest to the integer.
#[cfg(not(panic = "unwind"))]
fn int_text() -> String {
    let mut t: Vec<u8> = Vec::new();
    if unsafe { __sym_int(0) } != 0 { t.push(b'-'); }
    if unsafe { __sym_int(1) } != 0 { t.push(b'0'); } else {
        let dig = |lo: u8| { let d = unsafe { __sym_ghost_bits(4) } as u8; assume(d >= lo && d <= 9); b'0' + d };
        t.push(dig(1)); if unsafe { __sym_ghost_choice(2) } == 1 { t.push(dig(0)); }
    }
    unsafe { __sym_int_text(t.as_ptr(), t.len()); String::from_utf8_unchecked(t) }
}
#[cfg(not(panic = "unwind"))]
#[no_mangle]
pub fn __stub_fmt_int(_num: *const u8, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&int_text()) }
#[cfg(not(panic = "unwind"))]
#[no_mangle]
pub fn __stub_int_string(_num: *const u8) -> String { int_text() }
