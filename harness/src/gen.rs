//! Symbolic inputs: texts, characters and values.
use crate::reference::{self as r, V};
use json::Json;
use std::collections::{HashMap, LinkedList};
use sym::*;

fn nib(lo: u32, hi: u32) -> u32 { let n = bits(4) as u32; if lo > 0 { assume(n >= lo); } if hi < 15 { assume(n <= hi); } n }
/// any Unicode scalar value, as UTF-8; one fork per class of encodings
pub fn any_char(v: &mut Vec<u8>) { char_class(choice(10), v) }
/// one character of each length
pub fn char_of_len(n: u32, v: &mut Vec<u8>) { match n { 0 => char_class(0, v), 1 => char_class(1 + choice(2), v), 2 => char_class(3 + choice(3), v), _ => char_class(6 + choice(4), v) } }
fn two(h: u32, n1: u32, n0: u32, v: &mut Vec<u8>) { v.push((0xc0 | h << 2 | n1 >> 2) as u8); v.push((0x80 | (n1 & 3) << 4 | n0) as u8); }
fn three(n3: u32, n2: u32, n1: u32, n0: u32, v: &mut Vec<u8>) { v.push((0xe0 | n3) as u8); v.push((0x80 | n2 << 2 | n1 >> 2) as u8); v.push((0x80 | (n1 & 3) << 4 | n0) as u8); }
fn char_class(c: u32, v: &mut Vec<u8>) {
    let h = || nib(0, 15);
    match c {
        0 => v.push(ascii()),
        1 => { let a = bits(3) as u32; assume(a > 0); two(a, h(), h(), v) }   // 0100..07ff
        2 => two(0, nib(8, 15), h(), v),                                     // 0080..00ff
        3 => three(0, nib(8, 15), h(), h(), v),                              // 0800..0fff
        4 => { let a = nib(1, 15); assume(a != 13); three(a, h(), h(), h(), v) } // 1000..cfff, e000..ffff
        5 => three(13, nib(0, 7), h(), h(), v),                              // d000..d7ff
        // 10000..10ffff, in four parts by two bits of it, so that both the UTF-8 and the UTF-16 form are made of whole variables
        k => { let m = k - 6; let (a, x, n3, y) = (bits(2) as u32, bits(2) as u32, h(), bits(2) as u32);
            let (t, u) = if m < 3 { (a, m + 1) } else { (a + 1, 0) };
            v.push((0xf0 | t) as u8); v.push((0x80 | u << 4 | x << 2 | n3 >> 2) as u8); let (n1, n0) = (h(), h());
            v.push((0x80 | (n3 & 3) << 4 | y << 2 | n1 >> 2) as u8); v.push((0x80 | (n1 & 3) << 4 | n0) as u8); }
    }
}
/// a letter from a to h
pub fn letter() -> u8 { b'a' + bits(3) as u8 }
pub fn word(n: usize) -> String { string((0..n).map(|_| letter()).collect()) }
pub fn string(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
pub fn ascii_text(n: usize) -> String { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(ascii()); } string(v) }
/// n characters, each any scalar value
pub fn any_text(n: usize) -> String { let mut v = Vec::new(); for _ in 0..n { any_char(&mut v); } string(v) }
/// up to n characters, each any scalar value
pub fn any_text_upto(n: u32) -> String { let k = choice(n + 1); any_text(k as usize) }

/// A text with holes. `?`: any ASCII character, `~`: any character, `%`: nothing or one JSON blank,
/// `$`: a digit, `^`: a hex digit or anything between '0' and 'f', `@`: one of - + . e E or a digit
pub fn tpl(t: &str) -> String {
    let mut v = Vec::with_capacity(t.len() + 8);
    for b in t.bytes() {
        match b {
            b'?' => v.push(ascii()),
            b'~' => any_char(&mut v),
            b'%' => if choice(2) == 1 { let b = ascii(); assume(b == b' ' || b == b'\t' || b == b'\n' || b == b'\r'); v.push(b); },
            b'$' => { let b = ascii(); assume(b >= b'0' && b <= b'9'); v.push(b); }
            b'^' => { let b = ascii(); assume(b >= b'0' && b <= b'f'); v.push(b); }
            b'@' => { let b = ascii(); assume(b == b'-' || b == b'+' || b == b'.' || b == b'e' || b == b'E' || (b >= b'0' && b <= b'9')); v.push(b); }
            b => v.push(b),
        }
    }
    string(v)
}
/// w before, w after, n times
pub fn wrap(a: &str, n: usize, m: &str, b: &str) -> String { let mut s = String::new(); for _ in 0..n { s.push_str(a); } s.push_str(m); for _ in 0..n { s.push_str(b); } s }

/// the crate's value holds exactly what the reference tree says (objects: for each key the values in order)
pub fn same(j: &Json, v: &V) -> bool {
    match (j, v) {
        (Json::Null, V::Null) => true,
        (Json::Boolean(a), V::Bool(b)) => a == b,
        (Json::Number(a), V::Num(t)) => match r::num(t) { Some(b) => a.to_bits() == b.to_bits(), None => false },
        (Json::String(a), V::Str(b)) => a.as_bytes() == &b[..],
        (Json::Array(a), V::Arr(b)) => { if a.len() != b.len() { return false; } for i in 0..a.len() { if !same(&a[i], &b[i]) { return false; } } true }
        (Json::Object(a), V::Obj(b)) => {
            let mut total = 0;
            for (k, (cur, prev)) in a.iter() {
                total += 1 + prev.len();
                let mut l: Vec<&Json> = prev.iter().rev().collect(); l.push(cur);
                let w: Vec<&V> = b.iter().filter(|x| x.0 == k.as_bytes()).map(|x| &x.1).collect();
                if l.len() != w.len() { return false; }
                for i in 0..l.len() { if !same(l[i], w[i]) { return false; } }
            }
            total == b.len()
        }
        _ => false,
    }
}
/// the crate's value for a reference tree, put together from the public enum alone
pub fn build(v: &V) -> Json {
    match v {
        V::Null => Json::Null, V::Bool(b) => Json::Boolean(*b), V::Num(t) => Json::Number(r::num(t).unwrap()),
        V::Str(s) => Json::String(string(s.clone())), V::Arr(l) => Json::Array(l.iter().map(build).collect()),
        V::Obj(l) => {
            let mut m: HashMap<String, (Json, LinkedList<Json>)> = HashMap::new();
            for (k, x) in l { let k = string(k.clone()); let x = build(x);
                match m.remove(&k) { None => { m.insert(k, (x, LinkedList::new())); } Some((cur, mut prev)) => { prev.push_front(cur); m.insert(k, (x, prev)); } } }
            Json::Object(m)
        }
    }
}
/// number of values in the tree
pub fn size(j: &Json) -> u64 { 1 + match j { Json::Array(l) => l.iter().map(size).sum(), Json::Object(m) => m.values().map(|(c, p)| size(c) + p.iter().map(size).sum::<u64>()).sum(), Json::String(s) => s.len() as u64, _ => 0 } }

/// same value: kinds, texts, numbers by ==, arrays in order, objects by key with all values of a key in order
pub fn eq(a: &Json, b: &Json) -> bool {
    match (a, b) {
        (Json::Null, Json::Null) => true,
        (Json::Boolean(x), Json::Boolean(y)) => x == y,
        (Json::Number(x), Json::Number(y)) => x == y,
        (Json::String(x), Json::String(y)) => x == y,
        (Json::Array(x), Json::Array(y)) => { if x.len() != y.len() { return false; } for i in 0..x.len() { if !eq(&x[i], &y[i]) { return false; } } true }
        (Json::Object(x), Json::Object(y)) => {
            if x.len() != y.len() { return false; }
            for (k, (c, p)) in x.iter() { match y.get(k) { None => return false, Some((d, q)) => {
                if !eq(c, d) || p.len() != q.len() { return false; }
                let mut it = q.iter(); for v in p.iter() { if !eq(v, it.next().unwrap()) { return false; } } } } }
            true
        }
        _ => false,
    }
}
/// the reference tree is what j denotes, with numbers that JSON cannot express as null
pub fn denotes(j: &Json, v: &V) -> bool {
    match (j, v) {
        (Json::Number(f), V::Null) => !f.is_finite(),
        (Json::Number(f), V::Num(t)) => f.is_finite() && match r::num(t) { Some(g) => *f == g, None => false },
        (Json::Array(a), V::Arr(b)) => { if a.len() != b.len() { return false; } for i in 0..a.len() { if !denotes(&a[i], &b[i]) { return false; } } true }
        (Json::Object(a), V::Obj(b)) => {
            let mut total = 0;
            for (k, (cur, prev)) in a.iter() {
                total += 1 + prev.len();
                let mut l: Vec<&Json> = prev.iter().rev().collect(); l.push(cur);
                let w: Vec<&V> = b.iter().filter(|x| x.0 == k.as_bytes()).map(|x| &x.1).collect();
                if l.len() != w.len() { return false; }
                for i in 0..l.len() { if !denotes(l[i], w[i]) { return false; } }
            }
            total == b.len()
        }
        _ => same(j, v),
    }
}
/// a scalar or an empty container of any kind
pub fn leaf() -> V { match choice(6) { 0 => V::Null, 1 => V::Bool(true), 2 => V::Num(b"7".to_vec()), 3 => V::Str(b"a".to_vec()), 4 => V::Arr(vec![]), _ => V::Obj(vec![]) } }
/// any tree of depth up to d whose top container has up to w children and the others up to wsub, with keys out of three
/// (so that keys repeat), the children being of any kind
pub fn vtree(d: u32, w: u32, wsub: u32) -> V {
    if d == 0 { return leaf(); }
    match choice(6) {
        0 => V::Null, 1 => V::Bool(false), 2 => V::Num(b"8".to_vec()), 3 => V::Str(b"".to_vec()),
        4 => { let n = choice(w + 1); V::Arr((0..n).map(|_| vtree(d - 1, wsub, wsub)).collect()) }
        _ => vobj(d, w, wsub),
    }
}
pub fn vobj(d: u32, w: u32, wsub: u32) -> V { let n = choice(w + 1); V::Obj((0..n).map(|_| { let k = match choice(2) { 0 => "a", _ => "b" }; (k.as_bytes().to_vec(), vtree(d - 1, wsub, wsub)) }).collect()) }
/// one key with several values of any kind, and another
pub fn vhist(n: u32) -> V { let mut l: Vec<(Vec<u8>, V)> = (0..n).map(|_| (b"a".to_vec(), leaf())).collect(); l.insert(1, (b"b".to_vec(), V::Bool(true))); V::Obj(l) }
/// a path into such a tree
pub fn vpath() -> String { ["a", "b", "#0", "#1", "#2", "a.a", "a.b", "a.#0", "#0.a", "#1.#0", "a.#1", "b.a.a", "#0.#0.#0", "a.#0.b", "#0.b.#1"][choice(15) as usize].to_string() }
pub type Map = HashMap<String, (Json, LinkedList<Json>)>;
/// add a value after the existing values of its key
pub fn add(m: &mut Map, k: &str, v: Json) {
    match m.remove(k) { None => { m.insert(k.to_string(), (v, LinkedList::new())); } Some((cur, mut prev)) => { prev.push_front(cur); m.insert(k.to_string(), (v, prev)); } }
}
pub fn num(n: u64) -> Json { Json::Number(n as f64) }
/// any 64-bit float
pub fn any_f64() -> f64 { f64::from_bits(bits(64)) }
/// a value of depth up to d, the top container with up to w children, the ones below with up to wsub
pub fn tree(d: u32, w: u32, wsub: u32) -> Json {
    match choice(if d == 0 { 2 } else { 4 }) {
        0 => match choice(4) { 0 => Json::Null, 1 => Json::Boolean(flag()), 2 => Json::Number(-1.5), _ => Json::String(String::new()) },
        1 => Json::String(word(1)),
        2 => { let n = choice(w + 1); Json::Array((0..n).map(|_| tree(d - 1, wsub, wsub)).collect()) }
        _ => { let n = choice(w + 1); let mut m = Map::new(); for _ in 0..n { let k = word(1); let v = tree(d - 1, wsub, wsub); add(&mut m, &k, v); } Json::Object(m) }
    }
}
