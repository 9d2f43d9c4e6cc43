//! P05 serialization, P06 serialize-then-parse
use crate::gen::*;
use crate::reference::{self as r, V};
use json::Json;
use std::collections::{HashMap, LinkedList};
use sym::*;

fn sorted(v: &V) -> bool { match v {
    V::Arr(l) => l.iter().all(sorted),
    V::Obj(l) => { for i in 1..l.len() { if l[i - 1].0 > l[i].0 { return false; } } l.iter().all(|x| sorted(&x.1)) }
    _ => true } }
pub fn form(j: Json) {
    let t = j.to_string(); note(&t);
    observe(t.len() as u64); if let Some(b) = t.as_bytes().get(t.len() / 2) { observe(*b as u64); }
    for b in t.bytes() { if b < 0x20 || b > 0x7e { check(false, 1); } }
    match r::read(t.as_bytes()) {
        None => check(false, 2),
        Some(v) => { reach(1); check(sorted(&v), 3); check(denotes(&j, &v), 4); if let V::Null = v { reach(2) } }
    }
}
pub fn round(j: Json) {
    let t = j.to_string(); note(&t);
    observe(t.len() as u64);
    match Json::parse(&t) { Err(_) => check(false, 1), Ok(k) => { reach(1); check(eq(&j, &k), 2) } }
}
fn strs(n: usize) -> Json { Json::String(any_text(n)) }
fn arr2() -> Json { Json::Array(vec![Json::String(ascii_text(2)), strs(1), Json::String(String::new())]) }
fn member() -> Json { let mut m = Map::new(); add(&mut m, &any_text(1), Json::String(ascii_text(2))); Json::Object(m) }
fn three() -> Json { let mut m = Map::new(); for i in 0..3 { add(&mut m, &ascii_text(1), num(i)); } Json::Object(m) }
fn three2() -> Json { let mut m = Map::new(); add(&mut m, &word(2), num(1)); add(&mut m, &ascii_text(1), num(2)); add(&mut m, &word(1), num(3)); Json::Object(m) }
fn keys_any() -> Json { let mut m = Map::new(); let mut k = String::from("k"); k.push_str(&any_text(1)); add(&mut m, &k, num(0)); add(&mut m, ["k\u{7f}", "k\u{e9}", "k\u{800}", "k\u{ffff}", "k\u{10000}", "k", "k~a"][choice(7) as usize], num(1)); Json::Object(m) }
fn dups() -> Json {
    let mut m = Map::new(); let k = ascii_text(1);
    for i in 0..4 { add(&mut m, &k, num(i)); if i == 1 { add(&mut m, &ascii_text(1), Json::Array(vec![Json::Null])); } }
    let mut o = Map::new(); add(&mut o, "a", Json::Object(m.clone())); add(&mut o, "a", Json::Object(m)); Json::Object(o)
}
fn nested() -> Json {
    let mut a = Map::new(); add(&mut a, &word(1), Json::Array(vec![Json::Boolean(flag()), Json::Object(Map::new()), strs(1)]));
    let mut b = Map::new(); add(&mut b, "d", Json::Object(a)); add(&mut b, "d", Json::Array(vec![])); add(&mut b, &word(1), Json::Null);
    Json::Array(vec![Json::Object(b), Json::Array(vec![Json::Array(vec![Json::String(ascii_text(1))])])])
}
fn many() -> Json {
    let mut m = Map::new();
    for i in 0..28u64 { let k = format!("k{}", (i * 11) % 29); add(&mut m, &k, Json::Array(vec![num(i)])); if i % 9 == 4 { add(&mut m, &k, num(100 + i)); } }
    let k = { let mut k = String::from("k"); k.push_str(&ascii_text(1)); k }; add(&mut m, &k, Json::String(ascii_text(1))); Json::Object(m)
}
fn deep() -> Json { let mut j = Json::String(ascii_text(1)); for i in 0..24 { j = if i % 2 == 0 { Json::Array(vec![j, num(i)]) } else { let mut m = Map::new(); add(&mut m, "a", j); add(&mut m, "b", Json::Null); Json::Object(m) }; } j }
fn long() -> Json { let mut v: Vec<u8> = (0..120).map(|i| { let t = b"abc\"\\\n\t /x\x7f\x01"; t[i % t.len()] }).collect(); v.push(ascii()); any(&mut v); let mut l = vec![Json::String(string(v))]; for i in 0..70 { l.push(num(i * 37)); } Json::Array(l) }
fn any(v: &mut Vec<u8>) { v.extend_from_slice(any_text(1).as_bytes()) }
fn floats() -> Json { let f = any_f64(); match choice(3) { 0 => Json::Number(f), 1 => Json::Array(vec![Json::Number(f), Json::Null]), _ => { let mut m = Map::new(); add(&mut m, "a", num(1)); add(&mut m, "a", Json::Number(f)); Json::Object(m) } } }
fn finite() -> Json { let f = any_f64(); assume(f.is_finite()); let g = any_f64(); assume(g.is_finite()); match choice(3) { 0 => Json::Number(f), 1 => Json::Array(vec![Json::Number(f), Json::Number(g)]), _ => { let mut m = Map::new(); add(&mut m, "a", Json::Number(f)); add(&mut m, "a", Json::Number(g)); Json::Object(m) } } }
const FLOATS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.1, 0.5, -2.5, 1e-7, 1.5e-10, 5e-324, 2.2250738585072014e-308, 1e15, 1e16, 1e17, 123456789012345680.0, 1e21, 1.5e300, 1.7976931348623157e308, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 4294967296.0, 4294967295.0, 2147483648.0, -9223372036854775808.0, 18446744073709551616.0, 0.30000000000000004, 3.141592653589793, 1.0000000000000002, 0.000001234, 16777217.0, 1e100, 123.456, 99999.5];
fn ftable() -> Json { let f = FLOATS[choice(FLOATS.len() as u32) as usize]; match choice(2) { 0 => Json::Number(f), _ => Json::Array(vec![Json::Number(f), Json::Number(-f)]) } }
fn nonfinite() -> Json { let f = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN][choice(3) as usize]; let mut m = Map::new(); add(&mut m, "a", Json::Number(f)); add(&mut m, "a", num(2)); Json::Array(vec![Json::Number(f), Json::Object(m)]) }

/// the same members put in in different orders and into maps of different size give the same text
fn order(keys: usize, any_keys: bool) {
    let ks: Vec<String> = (0..keys).map(|i| if any_keys && i == 0 { any_text(1) } else { word(1) }).collect();
    let perm: Vec<usize> = { let mut l: Vec<usize> = (0..keys).collect(); let mut p = vec![]; while !l.is_empty() { let i = choice(l.len() as u32) as usize; p.push(l.remove(i)); } p };
    let mut a = Map::new(); for i in 0..keys { add(&mut a, &ks[i], num(i as u64)); }
    let mut b: Map = HashMap::with_capacity(if choice(2) == 0 { 3 } else { 60 }); for i in perm { add(&mut b, &ks[i], num(i as u64)); }
    let (a, b) = (Json::Object(a), Json::Object(b));
    if eq(&a, &b) { reach(1); check(a.to_string() == b.to_string(), 5); let w = Json::Array(vec![a, Json::Null]); let x = Json::Array(vec![b, Json::Null]); check(w.to_string() == x.to_string(), 6); }
    else { reach(2) }
}
/// equal after removals and replacements as well
fn order_del() {
    let k = ascii_text(1); let k2 = ascii_text(1);
    let mut a = Json::Object(Map::new()); let _ = a.append("m", 1u8); let _ = a.append(&k, "v"); let _ = a.insert(&k, true); let _ = a.append(&k2, 3u8);
    let mut b: Json = Json::Object(HashMap::with_capacity(20)); let _ = b.append(&k2, 3u8); for i in 0..9 { let _ = b.append(format!("z{}", i), i); } let _ = b.insert(&k, true); let _ = b.append("m", 1u8); for i in 0..9 { let _ = b.delete(&format!("z{}", i)); }
    if eq(&a, &b) { reach(1); check(a.to_string() == b.to_string(), 7) }
}
#[allow(unused)] type Prev = LinkedList<Json>;

crate::harnesses! {
    h_p05_s1 = form(strs(1));
    h_p05_s2 = form(strs(2));
    h_p05_s3_t = form(strs(3));
    h_p05_a3 = form(Json::String(ascii_text(3)));
    h_p05_a4 = form(Json::String(ascii_text(4)));
    h_p05_arr = form(arr2());
    h_p05_mem = form(member());
    h_p05_three = form(three());
    h_p05_three2 = form(three2());
    h_p05_keys = form(keys_any());
    h_p05_dups = form(dups());
    h_p05_nest = form(nested());
    h_p05_many = form(many());
    h_p05_deep = form(deep());
    h_p05_long = form(long());
    h_p05_flt = form(floats());
    h_p05_ftab = form(ftable());
    h_p05_nonf = form(nonfinite());
    h_p05_tree = form(tree(3, 2, 1));
    h_p05_tree3_t = form(tree(2, 2, 2));
    h_p05_ord3 = order(3, false);
    h_p05_ord3a_t = order(3, true);
    h_p05_ord2 = order(2, true);
    h_p05_ord4_t = order(4, false);
    h_p05_del = order_del();

    h_p06_s1 = round(strs(1));
    h_p06_s2 = round(strs(2));
    h_p06_s3_t = round(strs(3));
    h_p06_a3 = round(Json::String(ascii_text(3)));
    h_p06_a4 = round(Json::String(ascii_text(4)));
    h_p06_arr = round(arr2());
    h_p06_mem = round(member());
    h_p06_three = round(three());
    h_p06_three2 = round(three2());
    h_p06_keys = round(keys_any());
    h_p06_dups = round(dups());
    h_p06_nest = round(nested());
    h_p06_many = round(many());
    h_p06_deep = round(deep());
    h_p06_long = round(long());
    h_p06_flt = round(finite());
    h_p06_ftab = round(ftable());
    h_p06_tree = round(tree(3, 2, 1));
    h_p06_tree3_t = round(tree(2, 2, 2));
}
