//! P07 typed round trips, P08 wrong kinds, P19 numbers, P20 maps and pair lists
use crate::gen::*;
use crate::reference::V;
use json::{ErrorKind, FromJson, Json, ToJson};
use std::collections::HashMap;
use std::fmt::Debug;
use sym::*;

// ---- P07
/// equality of two values of one type, in terms the solver can decide
pub trait Eqv { fn eqv(&self, o: &Self) -> bool; }
macro_rules! prim { ($($t:ty)*) => { $(impl Eqv for $t { fn eqv(&self, o: &Self) -> bool { self == o } })* } }
prim!(String bool u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl<T: Eqv> Eqv for Option<T> { fn eqv(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.eqv(b), _ => false } } }
impl<T: Eqv> Eqv for Vec<T> { fn eqv(&self, o: &Self) -> bool { if self.len() != o.len() { return false; } for i in 0..self.len() { if !self[i].eqv(&o[i]) { return false; } } true } }
impl<K: std::hash::Hash + Eq, T: Eqv> Eqv for HashMap<K, T> { fn eqv(&self, o: &Self) -> bool { if self.len() != o.len() { return false; } for (k, v) in self { match o.get(k) { Some(w) => if !v.eqv(w) { return false; }, None => return false } } true } }
/// pair lists: the values of each key in order, whatever the order between keys
#[derive(Debug)] pub struct Pairs<K, T>(pub Vec<(K, T)>);
impl<K: PartialEq, T: Eqv> Eqv for Pairs<K, T> { fn eqv(&self, o: &Self) -> bool {
    if self.0.len() != o.0.len() { return false; }
    for (k, _) in &self.0 { let a: Vec<&T> = self.0.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect(); let b: Vec<&T> = o.0.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
        if a.len() != b.len() { return false; } for i in 0..a.len() { if !a[i].eqv(b[i]) { return false; } } }
    true } }
impl<K: ToString, T: ToJson> ToJson for Pairs<K, T> { fn to_json(&self) -> Json { if choice(2) == 0 { self.0.to_json() } else { (&self.0[..]).to_json() } } }
impl<K: std::str::FromStr, T: FromJson> FromJson for Pairs<K, T> { fn from_json(j: &Json) -> Result<Self, json::Error> { Ok(Pairs(Vec::from_json(j)?)) } }

pub fn trip<T: ToJson + FromJson + Eqv>(x: T) {
    let t = json::encode(&x); note(&t); observe(t.len() as u64);
    match json::decode::<T>(&t) { Ok(y) => { reach(1); check(x.eqv(&y), 1) } Err(_) => check(false, 2) }
    // and through the value alone
    match x.to_json().convert::<T>() { Ok(y) => check(x.eqv(&y), 3), Err(_) => check(false, 4) }
}
fn uint(b: u32) -> u64 { bits(b) }
fn int(b: u32) -> i64 { let x = bits(b) as i64; if flag() { -x } else { x } }
/// up to 2^53 itself
fn u53() -> u64 { let x = bits(54); assume(x <= 1 << 53); x }
fn i53() -> i64 { let x = u53() as i64; if choice(2) == 1 { -x } else { x } }
fn finite64() -> f64 { let f = any_f64(); assume(f.is_finite()); f }
fn finite32() -> f32 { let f = f32::from_bits(bits(32) as u32); assume(f.is_finite()); f }
fn strings() { trip(match choice(4) { 0 => ascii_text(2), 1 => any_text(1), 2 => String::new(), _ => tpl("a~b") }) }
fn text3() { trip(ascii_text(3)) }
fn text_u2() { trip(any_text(2)) }
fn bools() { trip(flag()) }
fn ints(w: u32) { match w {
    0 => trip(uint(8) as u8), 1 => trip(uint(16) as u16), 2 => trip(uint(32) as u32), 3 => trip(u53()), 4 => trip(u53() as u128), 5 => trip(u53() as usize),
    6 => trip(uint(8) as i8), 7 => trip(uint(16) as i16), 8 => trip(uint(32) as i32), 9 => trip(i53()), 10 => trip(i53() as i128), _ => trip(i53() as isize) } }
/// the standard library's own text routines on concrete numbers
fn table() {
    const N: &[i64] = &[0, 1, -1, 9, 10, 99, 100, 127, 128, -128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, 1000000, 123456789012, 9007199254740991, 9007199254740992, -9007199254740992];
    const F: &[f64] = &[0.1, -0.5, 1e21, 1e-7, 1.5e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 3.141592653589793, 100.0, -1e16, 123456.789, 0.30000000000000004, 1e15, 1e17];
    const G: &[f32] = &[0.1, -0.5, 1e21, 1e-7, 3.4028235e38, 1e-45, 1.1754944e-38, 16777216.0, 3.1415927, 0.3];
    match choice(3) {
        0 => { let n = N[choice(N.len() as u32) as usize]; trip(n); trip(n as i128); trip(Some(n)); trip(vec![n, n]); if n >= 0 { trip(n as u64); trip(n as u128); trip(n as usize); if n < 256 { trip(n as u8); } if n < 65536 { trip(n as u16); } if n < 1 << 32 { trip(n as u32); } } if n as i8 as i64 == n { trip(n as i8); } if n as i16 as i64 == n { trip(n as i16); } if n as i32 as i64 == n { trip(n as i32); } trip(n as isize); }
        1 => { let f = F[choice(F.len() as u32) as usize]; trip(f); trip(-f); trip(Some(f)); trip(vec![f]); }
        _ => { let f = G[choice(G.len() as u32) as usize]; trip(f); trip(-f); trip(vec![Some(f)]); }
    }
}
fn options() { match choice(5) { 0 => trip(opt(|| ascii_text(1))), 1 => trip(opt(|| flag())), 2 => trip(opt(|| vec![opt(|| flag())])), 3 => trip(opt(|| one_map("k"))), _ => trip(opt(|| finite64())) } }
fn opt<T>(f: impl Fn() -> T) -> Option<T> { if choice(2) == 0 { None } else { Some(f()) } }
fn one_map(k: &str) -> HashMap<String, bool> { let mut m = HashMap::new(); m.insert(k.to_string(), flag()); m }
pub fn list<T>(n: u32, f: impl Fn() -> T) -> Vec<T> { let n = choice(n + 1); (0..n).map(|_| f()).collect() }
fn vecs() { match choice(6) { 0 => trip(list(3, || ascii_text(1))), 1 => trip(list(3, || flag())), 2 => trip(list(2, || list(2, || word(1)))), 3 => trip(list(3, || opt(|| word(1)))), 4 => trip(list(2, || finite64())), _ => trip((0..40).map(|i| if i % 3 == 0 { word(1) } else { format!("element {} with, punctuation: [ ] {{ }} \"", i) }).collect::<Vec<_>>()) } }
fn pairs() { match choice(6) { 0 => trip(Pairs(list(3, || (word(1), flag())))), 1 => trip(Pairs(list(2, || (ascii_text(1), word(1))))), 2 => trip(Pairs(list(2, || (word(1), opt(|| word(1)))))), 3 => trip(Pairs(list(2, || (letter() as char, list(1, || flag()))))), 4 => trip(Pairs(list(3, || (flag(), word(1))))), _ => trip(Pairs(list(2, || (small() as u8, flag())))) } }
/// 0..16 and a few larger ones, as an integer whose text the standard library writes
fn small() -> i16 { match choice(3) { 0 => bits(3) as i16, 1 => 255, _ => 100 } }
fn maps() { match choice(5) {
    0 => trip(map(2, || ascii_text(1), || word(1))), 1 => trip(map(3, || word(1), || flag())), 2 => trip(map(2, || small(), || word(1))), 3 => trip(map(2, || flag(), || list(1, || flag()))), _ => trip(map(2, || letter() as char, || opt(|| word(1)))) } }
pub fn map<K: std::hash::Hash + Eq, T>(n: u32, k: impl Fn() -> K, f: impl Fn() -> T) -> HashMap<K, T> { let n = choice(n + 1); let mut m = HashMap::new(); for _ in 0..n { m.insert(k(), f()); } m }
fn nests() { match choice(4) {
    0 => trip(map(1, || ascii_text(1), || list(2, || opt(|| one_map("x"))))), 1 => trip(list(2, || map(1, || word(1), || map(1, || word(1), || flag())))), 2 => trip(opt(|| map(1, || word(1), || list(2, || list(1, || opt(|| word(1))))))),
    _ => { let mut m: HashMap<String, Vec<HashMap<String, Option<Vec<String>>>>> = HashMap::new(); let mut i = HashMap::new(); i.insert(ascii_text(1), Some(vec![ascii_text(1), "]".to_string()])); i.insert("n".to_string(), None); m.insert(word(1), vec![i, HashMap::new()]); m.insert("{".to_string(), vec![]); trip(m) } } }
fn jsons() { let j = tree(2, 2, 1); let t = json::encode(&j); note(&t); match json::decode::<Json>(&t) { Ok(k) => { reach(1); check(eq(&j, &k), 1) } Err(_) => check(false, 2) } check(eq(&j.to_json(), &j), 3); match j.convert::<Json>() { Ok(k) => check(eq(&k, &j), 4), Err(_) => check(false, 5) } }
/// borrowed forms encode as their owners do
fn borrowed() {
    let s = ascii_text(2); let b = flag(); let n = bits(8) as u8; let f = finite64();
    check(json::encode(s.as_str()) == json::encode(&s) && json::encode(&s.as_str()) == json::encode(&s), 1);
    check(eq(&(&b).to_json(), &b.to_json()) && eq(&ToJson::to_json(&&b), &Json::Boolean(b)), 2);
    check(eq(&ToJson::to_json(&&n), &Json::Number(n as f64)) && eq(&ToJson::to_json(&&f), &Json::Number(f)), 3);
    let v = vec![s.clone(), s.clone()]; check(eq(&(&v[..]).to_json(), &v.to_json()), 4);
    let p = vec![(s.clone(), b), (word(1), !b), (s.clone(), true)]; check(eq(&(&p[..]).to_json(), &p.to_json()), 5);
    match v.to_json() { Json::Array(l) => check(l.len() == 2 && eq(&l[0], &Json::String(s.clone())), 6), _ => check(false, 7) }
    reach(1);
}

// ---- P08
/// all, looking at each: the native order of members differs
fn every<T>(l: impl Iterator<Item = T>, mut f: impl FnMut(T) -> bool) -> bool { let mut r = true; for x in l { r &= f(x); } r }
/// does a value have the shape of the type
trait Fits { fn fits(j: &Json) -> bool; }
impl Fits for String { fn fits(j: &Json) -> bool { matches!(j, Json::String(_)) } }
impl Fits for bool { fn fits(j: &Json) -> bool { matches!(j, Json::Boolean(_)) } }
impl Fits for Json { fn fits(_: &Json) -> bool { true } }
macro_rules! nums { ($($t:ty)*) => { $(impl Fits for $t { fn fits(j: &Json) -> bool { matches!(j, Json::Number(_)) } })* } }
nums!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl<T: Fits> Fits for Option<T> { fn fits(j: &Json) -> bool { matches!(j, Json::Null) || T::fits(j) } }
impl<T: Fits> Fits for Vec<T> { fn fits(j: &Json) -> bool { match j { Json::Array(l) => every(l.iter(), |x| T::fits(x)), _ => false } } }
/// an older value of a repeated key that does not fit is neither promised to count nor not to
impl<T: Fits> Fits for HashMap<String, T> { fn fits(j: &Json) -> bool { match j { Json::Object(m) => every(m.values(), |(c, p)| { for x in p { assume(T::fits(x)); } T::fits(c) }), _ => false } } }
struct PairList<T>(T);
impl<T: Fits> Fits for PairList<T> { fn fits(j: &Json) -> bool { match j { Json::Object(m) => every(m.values(), |(c, p)| T::fits(c) & every(p.iter(), |x| T::fits(x))), _ => false } } }
fn try_as<T: FromJson, F: Fits>(j: &Json) {
    match j.convert::<T>() { Ok(_) => { reach(1); check(F::fits(j), 1) } Err(e) => { reach(2); check(!F::fits(j), 2); check(matches!(e.kind, ErrorKind::ConvertError), 3) } }
}
fn both<T: FromJson + Fits>(j: &Json) { try_as::<T, T>(j) }
pub fn prims(j: &Json) {
    match choice(18) {
        0 => both::<String>(j), 1 => both::<bool>(j), 2 => both::<u8>(j), 3 => both::<u16>(j), 4 => both::<u32>(j), 5 => both::<u64>(j), 6 => both::<u128>(j), 7 => both::<usize>(j), 8 => both::<i8>(j), 9 => both::<i16>(j), 10 => both::<i32>(j), 11 => both::<i64>(j), 12 => both::<i128>(j), 13 => both::<isize>(j), 14 => both::<f32>(j), 15 => both::<f64>(j), 16 => both::<Json>(j), _ => both::<Option<bool>>(j) }
}
pub fn comps(j: &Json) {
    match choice(14) {
        0 => both::<Vec<String>>(j), 1 => both::<Vec<bool>>(j), 2 => both::<Vec<f64>>(j), 3 => both::<Option<String>>(j), 4 => both::<Option<u8>>(j), 5 => both::<Vec<Option<String>>>(j), 6 => both::<Vec<Vec<String>>>(j), 7 => both::<HashMap<String, bool>>(j), 8 => both::<HashMap<String, String>>(j),
        9 => both::<HashMap<String, Vec<String>>>(j), 10 => try_as::<Vec<(String, String)>, PairList<String>>(j), 11 => try_as::<Vec<(String, Option<bool>)>, PairList<Option<bool>>>(j), 12 => both::<Option<Vec<String>>>(j), _ => try_as::<Vec<(String, Json)>, PairList<Json>>(j) }
}
/// a value of each kind with any content
fn any_kind() -> Json { match choice(6) { 0 => Json::Null, 1 => Json::Boolean(flag()), 2 => Json::Number(any_f64()), 3 => Json::String(any_text_upto(1)), 4 => Json::Array(vec![]), _ => Json::Object(Map::new()) } }
/// every kind, or a list or object with one bad or good member among good ones
fn scalar() -> Json { match choice(5) { 0 => Json::Null, 1 => Json::Boolean(flag()), 2 => Json::Number(2.0), 3 => Json::String(word(1)), _ => Json::Array(vec![Json::String(word(1))]) } }
fn holed(n: u32) -> Json {
    let good = scalar(); let at = choice(n); let x = match choice(3) { 0 => scalar(), 1 => Json::Object(Map::new()), _ => good.clone() };
    if choice(2) == 0 { Json::Array((0..n).map(|i| if i == at { x.clone() } else { good.clone() }).collect()) }
    else { let mut m = Map::new(); for i in 0..n { add(&mut m, &word(1), if i == at { x.clone() } else { good.clone() }); } Json::Object(m) }
}
fn deep_hole() -> Json { let x = scalar(); let l = Json::Array(vec![Json::String(word(1)), x]); match choice(3) { 0 => Json::Array(vec![l.clone(), l, Json::Array(vec![])]), 1 => { let mut m = Map::new(); add(&mut m, "a", Json::Array(vec![])); add(&mut m, "b", l); Json::Object(m) } _ => Json::Array(vec![Json::Array(vec![]), l]) } }
/// keys that are not texts: the whole decode is an error when one does not convert
fn key_kinds(n: usize) {
    let k = ascii_text(n); let b = k.as_bytes(); note(&k);
    let mut m = Map::new(); add(&mut m, "1", num(1)); add(&mut m, &k, num(2)); let j = Json::Object(m);
    let digits = |b: &[u8]| { let b = if b.len() > 1 && b[0] == b'+' { &b[1..] } else { b }; !b.is_empty() && b.iter().all(|c| c.is_ascii_digit()) };
    let val = |b: &[u8]| b.iter().fold(0u64, |a, c| if *c == b'+' || *c == b'-' { a } else { a * 10 + (*c - b'0') as u64 });
    let (ok, r) = match choice(5) {
        0 => (digits(b) && val(b) < 256, j.convert::<HashMap<u8, u8>>().map(|m| m.len())),
        1 => (digits(b) && val(b) < 256, j.convert::<Vec<(u8, u8)>>().map(|m| m.len())),
        2 => (digits(b) || (b[0] == b'-' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit())), j.convert::<Vec<(i32, u8)>>().map(|m| m.len())),
        3 => (n == 1, j.convert::<Vec<(char, u8)>>().map(|m| m.len())),
        _ => (n == 1, j.convert::<HashMap<char, u8>>().map(|m| m.len())),
    };
    match r { Ok(l) => { reach(1); check(ok && (l == 1 || l == 2), 1) } Err(e) => { reach(2); check(!ok && matches!(e.kind, ErrorKind::ConvertError), 2) } }
}
/// the same from texts
fn from_text() {
    let t = tpl("[\"a\",?]"); note(&t); let p = Json::parse(&t);
    match choice(3) {
        0 => { let r = json::decode::<Vec<String>>(&t); check(r.is_err(), 1); reach(1) }
        1 => { let r = json::decode::<Vec<Json>>(&t); check(r.is_ok() == p.is_ok(), 2); if r.is_ok() { reach(2) } }
        _ => { let r = json::decode::<HashMap<String, Json>>(&t); check(r.is_err(), 3) }
    }
}

// ---- P19
/// the double nearest to a positive integer, ties to even, worked out on the integer
fn nearest(x: u128, e: u32) -> u64 {
    // x has e + 1 bits
    let (mut m, mut e) = if e <= 52 { ((x << (52 - e)) as u64, e as u64) } else {
        let s = e - 52; let m = (x >> s) as u64; let low = x & ((1u128 << s) - 1); let half = 1u128 << (s - 1);
        let up = (low > half) | ((low == half) & (m & 1 == 1)); (m + up as u64, e as u64) };
    let carry = (m >> 53) & 1; m = if carry == 1 { 1 << 52 } else { m }; e += carry;
    (1023 + e) << 52 | (m & ((1 << 52) - 1))
}
/// an integer of exactly e + 1 bits
fn of_len(e: u32) -> u128 { let low = if e == 0 { 0 } else if e <= 64 { bits(e) as u128 } else { (bits(e - 64) as u128) << 64 | bits(64) as u128 }; 1u128 << e | low }
fn number(j: Json) -> u64 { match j { Json::Number(f) => f.to_bits(), _ => { check(false, 9); 0 } } }
fn enc<T: ToJson>(x: T, want: u64) { reach(1); check(number(x.to_json()) == want, 1); }
fn dec<T: FromJson + PartialEq>(f: u64, want: T) { match Json::Number(f64::from_bits(f)).convert::<T>() { Ok(x) => { reach(2); check(x == want, 2) } Err(_) => check(false, 3) } }
macro_rules! unsigned { ($f:ident, $g:ident, $t:ty) => {
    fn $f(lo: u32) { let e = lo + choice(<$t>::BITS.min(lo + 64) - lo); let x = of_len(e); enc(x as $t, nearest(x, e)); let y = x as $t; enc2(&y, nearest(x, e)); if lo == 0 && e == 0 { enc(0 as $t, 0); } }
    fn $g() { let e = choice(<$t>::BITS); let (f, x) = double(e); dec::<$t>(f, x as $t); if e == 0 { dec::<$t>(0, 0); dec::<$t>(1 << 63, 0); } }
} }
macro_rules! signed { ($f:ident, $g:ident, $t:ty) => {
    fn $f(lo: u32) { let top = <$t>::BITS - 1; let e = lo + choice((top + 1).min(lo + 64) - lo); let neg = choice(2) == 1;
        let x = if e == top { assume(neg); 1u128 << e } else { of_len(e) }; let y = if neg { (x as $t).wrapping_neg() } else { x as $t };
        let s = (neg as u64) << 63; enc(y, nearest(x, e) | s); enc2(&y, nearest(x, e) | s); if lo == 0 && e == 0 { enc(0 as $t, 0); } }
    fn $g() { let top = <$t>::BITS - 1; let e = choice(top + 1); let neg = choice(2) == 1; let (f, x) = if e == top { assume(neg); ((1023 + e as u64) << 52, 1u128 << e) } else { double(e) };
        let y = if neg { (x as $t).wrapping_neg() } else { x as $t }; dec::<$t>(f | (neg as u64) << 63, y); if e == 0 { dec::<$t>(0, 0); dec::<$t>(1 << 63, 0); } }
} }
fn enc2<T>(x: &T, want: u64) where for<'a> &'a T: ToJson { check(number((&x).to_json_ref()) == want, 4) }
trait ByRef { fn to_json_ref(&self) -> Json; }
impl<'a, T> ByRef for &'a T where &'a T: ToJson { fn to_json_ref(&self) -> Json { ToJson::to_json(self) } }
/// an integral double in [2^e, 2^(e+1)) and the integer it is
fn double(e: u32) -> (u64, u128) {
    let frac = if e == 0 { 0 } else if e < 52 { bits(e) << (52 - e) } else { bits(52) };
    let m = 1u128 << 52 | frac as u128; ((1023 + e as u64) << 52 | frac, if e >= 52 { m << (e - 52) } else { m >> (52 - e) })
}
unsigned!(eu8, du8, u8); unsigned!(eu16, du16, u16); unsigned!(eu32, du32, u32); unsigned!(eu64, du64, u64); unsigned!(eus, dus, usize); unsigned!(eu128, du128, u128);
signed!(ei8, di8, i8); signed!(ei16, di16, i16); signed!(ei32, di32, i32); signed!(ei64, di64, i64); signed!(eis, dis, isize); signed!(ei128, di128, i128);
fn floats64() { let b = bits(64); let f = f64::from_bits(b); assume(!f.is_nan()); check(number(f.to_json()) == b, 1); check(number(ToJson::to_json(&&f)) == b, 4); match Json::Number(f).convert::<f64>() { Ok(x) => { reach(1); check(x.to_bits() == b, 2) } Err(_) => check(false, 3) } }
/// every finite f32 is a double: normal and subnormal ones by their fields
fn floats32() {
    let s = bits(1); let e = choice(255) as u64; let m = if e == 0 { let k = choice(24); if k == 0 { 0 } else { 1 << (k - 1) | if k > 1 { bits(k - 1) } else { 0 } } } else { bits(23) };
    let f = f32::from_bits((s << 31 | e << 23 | m) as u32);
    let want = if e == 0 { if m == 0 { s << 63 } else { let k = 63 - m.leading_zeros() as u64; s << 63 | (1023 - 149 + k) << 52 | (m ^ 1 << k) << (52 - k) } } else { s << 63 | (e + 1023 - 127) << 52 | m << 29 };
    check(number(f.to_json()) == want, 1); check(number(ToJson::to_json(&&f)) == want, 4);
    match Json::Number(f64::from_bits(want)).convert::<f32>() { Ok(x) => { reach(1); check(x.to_bits() as u64 == (s << 31 | e << 23 | m), 2) } Err(_) => check(false, 3) }
}
/// converting any double to any type is no panic and no error
fn no_panic() {
    let j = Json::Number(any_f64());
    let ok = match choice(14) { 0 => j.convert::<u8>().is_ok(), 1 => j.convert::<u16>().is_ok(), 2 => j.convert::<u32>().is_ok(), 3 => j.convert::<u64>().is_ok(), 4 => j.convert::<u128>().is_ok(), 5 => j.convert::<usize>().is_ok(), 6 => j.convert::<i8>().is_ok(), 7 => j.convert::<i16>().is_ok(), 8 => j.convert::<i32>().is_ok(), 9 => j.convert::<i64>().is_ok(), 10 => j.convert::<i128>().is_ok(), 11 => j.convert::<isize>().is_ok(), 12 => j.convert::<f32>().is_ok(), _ => j.convert::<f64>().is_ok() };
    let _ = ok; reach(1);
}
/// numbers inside containers convert in the same way
fn inner() { let x = bits(32) as u32; let y = bits(16) as i16; let j = vec![vec![x], vec![]].to_json(); match &j { Json::Array(l) => match &l[0] { Json::Array(m) => check(eq(&m[0], &Json::Number(x as f64)), 1), _ => check(false, 2) }, _ => check(false, 3) }
    match j.convert::<Vec<Vec<u32>>>() { Ok(v) => check(v[0][0] == x, 4), Err(_) => check(false, 5) }
    let j = Some(y).to_json(); match j.convert::<Option<i16>>() { Ok(v) => check(v == Some(y), 6), Err(_) => check(false, 7) }
    match json::array![y, x].convert::<Vec<i64>>() { Ok(v) => check(v[0] == y as i64 && v[1] == x as i64, 8), Err(_) => check(false, 9) } reach(1); }

// ---- P20
fn members(n: u32, key: impl Fn() -> String) -> Vec<(Vec<u8>, V)> { (0..n).map(|i| (key().into_bytes(), V::Num(vec![b'0' + i as u8]))).collect() }
fn same_pairs<K: PartialEq>(got: &[(K, u8)], l: &[(K, u8)]) -> bool {
    if got.len() != l.len() { return false; }
    for (k, _) in l { let w: Vec<u8> = l.iter().filter(|x| x.0 == *k).map(|x| x.1).collect(); let g: Vec<u8> = got.iter().filter(|x| x.0 == *k).map(|x| x.1).collect(); if w.len() != g.len() { return false; } for i in 0..w.len() { if w[i] != g[i] { return false; } } }
    true
}
pub fn as_pairs(l: Vec<(Vec<u8>, V)>) {
    let l2: Vec<(String, u8)> = l.iter().enumerate().map(|(i, x)| (string(x.0.clone()), i as u8)).collect();
    let j = if choice(2) == 0 { build(&V::Obj(l)) } else { for x in &l { for b in &x.0 { assume(*b >= 0x20); } } let mut t = vec![]; crate::model::show(&V::Obj(l), &mut t); let t = string(t); note(&t); match Json::parse(&t) { Ok(j) => j, Err(_) => { check(false, 10); return } } };
    match j.convert::<Vec<(String, u8)>>() { Ok(p) => { reach(1); check(same_pairs(&p, &l2), 1) } Err(_) => check(false, 2) }
    match j.convert::<HashMap<String, u8>>() { Err(_) => check(false, 3), Ok(m) => {
        let mut keys: Vec<&String> = vec![]; for (k, _) in &l2 { if !keys.contains(&k) { keys.push(k); } }
        check(m.len() == keys.len(), 4); observe(m.len() as u64);
        for k in keys { let last = l2.iter().rev().find(|x| x.0 == *k).unwrap().1; check(m.get(k) == Some(&last), 5); } } }
}
/// one value that does not convert, in any position
fn bad_value(n: u32) {
    let at = choice(n); let mut l = members(n, || word(1)); l[at as usize].1 = match choice(3) { 0 => V::Null, 1 => V::Str(b"1".to_vec()), _ => V::Arr(vec![V::Num(b"1".to_vec())]) };
    let j = build(&V::Obj(l.clone())); check(j.convert::<Vec<(String, u8)>>().is_err(), 1);
    let last = !l[at as usize + 1..].iter().any(|x| x.0 == l[at as usize].0);
    if last { reach(1); check(j.convert::<HashMap<String, u8>>().is_err(), 2); }
}
/// pair lists as objects
fn encode_pairs(n: u32) { encode_pairs_of((0..n).map(|i| (word(1), i as u8)).collect()) }
pub fn encode_pairs_of(l: Vec<(String, u8)>) {
    let mut m = Map::new(); for (k, v) in &l { add(&mut m, k, num(*v as u64)); } let want = Json::Object(m);
    check(eq(&l.to_json(), &want), 1); check(eq(&(&l[..]).to_json(), &want), 2);
    let t = json::encode(&l); note(&t); match json::decode::<Vec<(String, u8)>>(&t) { Ok(p) => { reach(1); check(same_pairs(&p, &l), 3) } Err(_) => check(false, 4) }
    let t = json::encode(&&l[..]); match json::decode::<Json>(&t) { Ok(j) => check(eq(&j, &want), 5), Err(_) => check(false, 6) }
}
/// values of every kind, so that an order or a merge that depends on the kind of a value shows
pub fn kinds_pairs(n: u32) {
    let l: Vec<(String, V)> = (0..n).map(|_| (["a", "b"][choice(2) as usize].to_string(), leaf())).collect();
    let p: Vec<(String, Json)> = l.iter().map(|x| (x.0.clone(), build(&x.1))).collect(); let d = V::Obj(l.iter().map(|x| (x.0.clone().into_bytes(), x.1.clone())).collect());
    match choice(3) {
        0 => check(same(&p.to_json(), &d), 1),
        1 => check(same(&(&p[..]).to_json(), &d), 2),
        _ => { let j = build(&d);
            match j.convert::<Vec<(String, Json)>>() { Err(_) => check(false, 3), Ok(g) => { reach(1); check(g.len() == l.len(), 4);
                for k in ["a", "b"] { let w: Vec<&V> = l.iter().filter(|x| x.0 == k).map(|x| &x.1).collect(); let g: Vec<&Json> = g.iter().filter(|x| x.0 == k).map(|x| &x.1).collect(); check(w.len() == g.len(), 5); if w.len() == g.len() { for i in 0..w.len() { check(same(g[i], w[i]), 6); } } } } }
            match j.convert::<HashMap<String, Json>>() { Err(_) => check(false, 7), Ok(g) => { for k in ["a", "b"] { match (g.get(k), l.iter().rev().find(|x| x.0 == k)) { (Some(x), Some(w)) => check(same(x, &w.1), 8), (None, None) => {}, _ => check(false, 9) } } } } }
    }
}
fn option_pairs(n: u32) {
    let l: Vec<(String, Option<bool>)> = (0..n).map(|_| (word(1), opt(|| flag()))).collect(); let mut m = Map::new(); for (k, v) in &l { add(&mut m, k, match v { Some(b) => Json::Boolean(*b), None => Json::Null }); }
    check(eq(&l.to_json(), &Json::Object(m)), 1); reach(1);
    match Json::convert::<Vec<(String, Option<bool>)>>(&(&l[..]).to_json()) { Err(_) => check(false, 2), Ok(g) => { check(g.len() == l.len(), 3); for (k, _) in &l { let a: Vec<Option<bool>> = l.iter().filter(|x| x.0 == *k).map(|x| x.1).collect(); let b: Vec<Option<bool>> = g.iter().filter(|x| x.0 == *k).map(|x| x.1).collect(); check(a == b, 4); } } }
}
fn encode_keys() {
    let b = flag(); let c = letter() as char; let x = small();
    let (j, k) = match choice(4) { 0 => (vec![(b, 1u8), (true, 2)].to_json(), vec![b.to_string(), "true".into()]), 1 => (vec![(c, 1u8), ('c', 2)].to_json(), vec![c.to_string(), "c".into()]), 2 => ((&[(x, 1u8), (3, 2)][..]).to_json(), vec![x.to_string(), "3".into()]), _ => (vec![("a", 1u8), ("a", 2)].to_json(), vec!["a".into(), "a".into()]) };
    let mut m = Map::new(); add(&mut m, &k[0], num(1)); add(&mut m, &k[1], num(2)); check(eq(&j, &Json::Object(m)), 1); reach(1);
}
/// keys of other types, read back
fn decode_keys() {
    let (a, b) = (bits(3) as u8, bits(3) as u8); let l: Vec<(u8, u8)> = vec![(a, 0), (b, 1), (a, 2), (200, 3)];
    let j = build(&V::Obj(l.iter().map(|x| (x.0.to_string().into_bytes(), V::Num(vec![b'0' + x.1]))).collect()));
    match choice(2) {
        0 => match j.convert::<Vec<(u8, u8)>>() { Ok(p) => { reach(1); check(same_pairs(&p, &l), 1) } Err(_) => check(false, 2) },
        _ => match j.convert::<HashMap<u8, u8>>() { Ok(m) => { reach(2); check(m.get(&a) == Some(&2) && m.get(&200) == Some(&3) && (a == b || m.get(&b) == Some(&1)), 3); check(m.len() == if a == b { 2 } else { 3 }, 4) } Err(_) => check(false, 5) },
    }
    match choice(3) { 0 => check(j.convert::<Vec<(bool, u8)>>().is_err(), 6), 1 => check(j.convert::<HashMap<bool, u8>>().is_err(), 7), _ => check(j.convert::<Vec<(char, u8)>>().is_err(), 8) }
}
fn encode_map() {
    let mut h: HashMap<String, u8> = HashMap::new(); let l: Vec<(String, u8)> = (0..3).map(|i| (word(1), i)).collect(); for (k, v) in &l { h.insert(k.clone(), *v); }
    match h.to_json() { Json::Object(m) => { check(m.len() == h.len(), 1); for (k, v) in &h { match m.get(k) { Some((c, p)) => check(p.is_empty() && eq(c, &num(*v as u64)), 2), None => check(false, 3) } } } _ => check(false, 4) } reach(1);
}
/// values that are containers themselves
fn nested_pairs() {
    let (a, b) = (word(1), word(1)); let f = flag(); let l: Vec<(String, Vec<(String, bool)>)> = vec![(a.clone(), vec![(b.clone(), f), (a.clone(), true), (b.clone(), false)]), (b.clone(), vec![]), (a.clone(), vec![(a.clone(), f)])];
    let j = l.to_json(); match j.convert::<Vec<(String, Vec<(String, bool)>)>>() { Err(_) => check(false, 1), Ok(g) => {
        check(g.len() == 3, 2); let ga: Vec<&Vec<(String, bool)>> = g.iter().filter(|x| x.0 == a).map(|x| &x.1).collect(); if a != b { reach(1); check(ga.len() == 2 && ga[0].len() == 3 && ga[1].len() == 1 && ga[1][0].1 == f, 3); let gb: Vec<bool> = ga[0].iter().filter(|x| x.0 == b).map(|x| x.1).collect(); check(gb.len() == 2 && gb[0] == f && !gb[1], 4); } else { reach(2); check(ga.len() == 3 && ga[1].is_empty(), 5) } } }
    match j.convert::<HashMap<String, HashMap<String, bool>>>() { Ok(m) => check(m.get(&a).map_or(false, |x| x.get(&a) == Some(&f)), 6), Err(_) => check(false, 7) }
}
#[allow(unused)] fn show<T: Debug>(x: &T) { note(&format!("{:?}", x)) }

crate::harnesses! {
    h_p07_str = strings();
    h_p07_str3 = text3();
    h_p07_str4_t = trip(ascii_text(4));
    h_p07_stru3_t = trip(any_text(3));
    h_p07_stru2 = text_u2();
    h_p07_bool = bools();
    h_p07_u8 = ints(0);
    h_p07_u16 = ints(1);
    h_p07_u32 = ints(2);
    h_p07_u64 = ints(3);
    h_p07_u128 = ints(4);
    h_p07_usize = ints(5);
    h_p07_i8 = ints(6);
    h_p07_i16 = ints(7);
    h_p07_i32 = ints(8);
    h_p07_i64 = ints(9);
    h_p07_i128 = ints(10);
    h_p07_isize = ints(11);
    h_p07_f64 = trip(finite64());
    h_p07_f32 = trip(finite32());
    h_p07_table = table();
    h_p07_opt = options();
    h_p07_vec = vecs();
    h_p07_vec5_t = trip(list(5, || opt(|| word(1))));
    h_p07_vv_t = trip(list(3, || list(3, || word(1))));
    h_p07_pairs = pairs();
    h_p07_map = maps();
    h_p07_map5_t = trip(map(5, || word(1), || flag()));
    h_p07_pairs5_t = trip(Pairs(list(5, || (word(1), flag()))));
    h_p07_nest = nests();
    h_p07_json = jsons();
    h_p07_ref = borrowed();

    h_p08_prim = prims(&any_kind());
    h_p08_primt = prims(&tree(1, 2, 0));
    h_p08_comp = comps(&any_kind());
    h_p08_tree = comps(&tree(2, 2, 1));
    h_p08_tree2 = comps(&tree(2, 2, 2));
    h_p08_hole2 = comps(&holed(2));
    h_p08_hole3 = comps(&holed(3));
    h_p08_hole4 = comps(&holed(4));
    h_p08_hole6_t = comps(&holed(6));
    h_p08_tree3_t = comps(&tree(2, 3, 2));
    h_p08_deep = comps(&deep_hole());
    h_p08_key1 = key_kinds(1);
    h_p08_key2 = key_kinds(2);
    h_p08_key3 = key_kinds(3);
    h_p08_key4 = key_kinds(4);
    h_p08_key5 = key_kinds(5);
    h_p08_key7_t = key_kinds(7);
    h_p08_text = from_text();

    h_p19_eu8 = eu8(0);
    h_p19_eu16 = eu16(0);
    h_p19_eu32 = eu32(0);
    h_p19_eu64 = eu64(0);
    h_p19_eusize = eus(0);
    h_p19_eu128a = eu128(0);
    h_p19_eu128b = eu128(64);
    h_p19_ei8 = ei8(0);
    h_p19_ei16 = ei16(0);
    h_p19_ei32 = ei32(0);
    h_p19_ei64 = ei64(0);
    h_p19_eisize = eis(0);
    h_p19_ei128a = ei128(0);
    h_p19_ei128b = ei128(64);
    h_p19_du8 = du8();
    h_p19_du16 = du16();
    h_p19_du32 = du32();
    h_p19_du64 = du64();
    h_p19_dusize = dus();
    h_p19_du128 = du128();
    h_p19_di8 = di8();
    h_p19_di16 = di16();
    h_p19_di32 = di32();
    h_p19_di64 = di64();
    h_p19_disize = dis();
    h_p19_di128 = di128();
    h_p19_f64 = floats64();
    h_p19_f32 = floats32();
    h_p19_any = no_panic();
    h_p19_inner = inner();

    h_p20_dec2 = as_pairs(members(2, || ascii_text(1)));
    h_p20_dec3 = as_pairs(members(3, || word(1)));
    h_p20_dec4 = as_pairs(members(4, || word(1)));
    h_p20_dec5 = as_pairs(members(5, || word(1)));
    h_p20_dec6 = as_pairs(members(6, || word(1)));
    h_p20_dec7 = as_pairs(members(7, || word(1)));
    h_p20_dec3a = as_pairs(members(3, || ascii_text(1)));
    h_p20_dec8_t = as_pairs(members(8, || word(1)));
    h_p20_dec4a_t = as_pairs(members(4, || ascii_text(1)));
    h_p20_uni3_t = as_pairs(members(3, || any_text(1)));
    h_p20_uni = as_pairs(members(2, || any_text(1)));
    h_p20_many = as_pairs((0..30).map(|i| (if i % 10 == 4 { word(1) } else { format!("k{}", i % 13) }.into_bytes(), V::Num(i.to_string().into_bytes()))).collect());
    h_p20_none = as_pairs(vec![]);
    h_p20_bad2 = bad_value(2);
    h_p20_bad3 = bad_value(3);
    h_p20_bad4 = bad_value(4);
    h_p20_enc3 = encode_pairs(3);
    h_p20_enc4 = encode_pairs(4);
    h_p20_enc5 = encode_pairs(5);
    h_p20_enc6 = encode_pairs(6);
    h_p20_enc7_t = encode_pairs(7);
    h_p20_kind2 = kinds_pairs(2);
    h_p20_kind3 = kinds_pairs(3);
    h_p20_kind4 = kinds_pairs(4);
    h_p20_opt3 = option_pairs(3);
    h_p20_enck = encode_keys();
    h_p20_deck = decode_keys();
    h_p20_map = encode_map();
    h_p20_nest = nested_pairs();
}
