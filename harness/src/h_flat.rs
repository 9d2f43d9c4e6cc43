//! The same guarantees on uniform values (the same content again and again, with at most one exception) and on values
//! that have grown large and shrunk again; members under keys of several free characters in typed conversions.
use crate::gen::*;
use crate::h_err as e;
use crate::h_ops as o;
use crate::h_parse as p;
use crate::h_path as pa;
use crate::h_ser as s;
use crate::h_typed as t;
use crate::model as m;
use crate::reference::V;
use json::{Json, ToJson};
use std::collections::HashMap;
use sym::*;

fn key(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
fn n(i: u32) -> V { V::Num(i.to_string().into_bytes()) }
fn len() -> usize { [1, 2, 3, 4, 5, 8, 17][choice(7) as usize] }
fn sort() -> V { match choice(8) { 6 => n(0), 7 => V::Str(vec![]), k => match k { 0 => V::Null, 1 => V::Bool(false), 2 => n(7), 3 => V::Str(b"a".to_vec()), 4 => V::Arr(vec![]), _ => V::Obj(vec![]) } } }
/// n times the same, or with one exception at the start, in the middle or at the end
fn run() -> Vec<V> { let mut l = vec![sort(); len()]; let k = l.len(); match choice(4) { 0 => {} 1 => l[0] = one(), 2 => l[k / 2] = one(), _ => l[k - 1] = one() } l }
fn one() -> V { match choice(2) { 0 => V::Null, _ => n(1) } }
fn letters(l: Vec<V>) -> V { V::Obj(l.into_iter().enumerate().map(|(i, x)| (vec![b'a' + i as u8], x)).collect()) }
fn again(l: Vec<V>) -> V { V::Obj(l.into_iter().map(|x| (key("a"), x)).collect()) }
fn flat() -> V { match choice(3) { 0 => V::Arr(run()), 1 => letters(run()), _ => again(run()) } }
fn nested() -> V { let x = flat(); match choice(3) { 0 => x, 1 => V::Arr(vec![x]), _ => V::Obj(vec![(key("a"), x)]) } }
/// a place in it, at its ends, or just beyond them
fn size_of(d: &V) -> usize { match d { V::Arr(l) => l.len(), V::Obj(l) => l.len(), _ => 0 } }
fn place(d: &V) -> String {
    let k = size_of(d);
    match d { V::Arr(_) => match choice(6) { 0 => "#0".into(), 1 => format!("#{}", k - 1), 2 => format!("#{}", k), 3 => format!("#{}", k + 1), 4 => "#0.#0".into(), _ => format!("#{}.a", k - 1) },
        _ => match choice(5) { 0 => "a".into(), 1 => "b".into(), 2 => string(vec![b'a' + k as u8 - 1]), 3 => string(vec![b'a' + k as u8]), _ => "a.#0".into() } }
}
fn step(d: &V) -> o::K { let k = size_of(d); match d { V::Arr(_) => o::K::I(match choice(4) { 0 => 0, 1 => k - 1, 2 => k, _ => k + 1 }), _ => o::K::S(string(vec![match choice(3) { 0 => b'a', 1 => b'a' + k as u8 - 1, _ => b'a' + k as u8 }])) } }
fn on(f: impl Fn(V, String)) { let d = flat(); let q = place(&d); f(d, q) }
fn text(d: &V) -> String { let mut t = vec![]; m::show(d, &mut t); string(t) }
fn pair() -> (Json, Json) { let a = flat(); let mut b = a.clone(); if choice(2) == 1 { let k = size_of(&b); let at = [0, k / 2, k - 1][choice(3) as usize]; match &mut b { V::Arr(l) => l[at] = one(), V::Obj(l) => l[at].1 = one(), _ => {} } } (build(&a), build(&b)) }
/// arrays that shrink from a large size to nothing, with a look at every size
fn shrink(by: u32) {
    let x = sort(); let k = [40, 80, 130, 300][choice(4) as usize]; let mut l = vec![x; k]; if choice(2) == 1 { l[k / 2] = n(1); }
    let mut j = build(&V::Arr(l.clone()));
    while !l.is_empty() {
        let at = match by { 0 => 0, 1 => l.len() - 1, _ => l.len() / 2 };
        let ok = match choice_once(l.len() == 9) { 0 => j.remove(at).is_ok(), _ => match j.discard(at) { Ok(y) => same(&y, &l[at]), Err(_) => false } };
        check(ok, 1); l.remove(at);
        match &j { Json::Array(v) => { check(v.len() == l.len(), 2); if v.len() != l.len() { return; } } _ => check(false, 3) }
        if l.len() < 20 || l.len() % 16 == 0 { check(same(&j, &V::Arr(l.clone())), 4); }
    }
    reach(1); check(j.push(1u8).is_ok(), 5); check(same(&j, &V::Arr(vec![n(1)])), 6);
}
fn choice_once(now: bool) -> u32 { if now { choice(2) } else { 0 } }
/// objects that shrink the same way
fn shrink_members(way: u32) {
    let x = sort(); let k = [29, 60, 120][choice(3) as usize]; let mut l: Vec<(Vec<u8>, V)> = (0..k).map(|i| (format!("k{}", i).into_bytes(), x.clone())).collect(); l[k / 2].1 = n(1);
    let mut j = build(&V::Obj(l.clone())); let last = choice(2) == 1;
    while !l.is_empty() {
        let at = if last { l.len() - 1 } else { l.len() / 3 }; let q = string(l[at].0.clone());
        let ok = match way { 0 => j.delete(&q).is_ok(), 1 => match j.del(&q) { Ok(y) => same(&y, &l[at].1), Err(_) => false }, _ => match j.discard(q.as_str()) { Ok(y) => same(&y, &l[at].1), Err(_) => false } };
        check(ok, 1); l.remove(at);
        match &j { Json::Object(v) => { check(v.len() == l.len(), 2); if v.len() != l.len() { return; } } _ => check(false, 3) }
        if l.len() < 12 || l.len() % 16 == 0 { check(same(&j, &V::Obj(l.clone())), 4); }
    }
    reach(1); check(j.append("k", 1u8).is_ok(), 5); check(same(&j, &V::Obj(vec![(key("k"), n(1))])), 6);
}
/// arrays that shrink by path and are looked at by path and index
fn shrink_path() {
    let x = sort(); let k = [40, 130][choice(2) as usize]; let mut l = vec![x; k]; let mut j = build(&V::Arr(l.clone()));
    while l.len() > 3 {
        let at = l.len() / 2; match j.del(&format!("#{}", at)) { Ok(y) => check(same(&y, &l[at]), 1), Err(_) => check(false, 2) } l.remove(at);
        check(j.get(&format!("#{}", l.len())).is_err(), 3); match j.get(&format!("#{}", l.len() - 1)) { Ok(y) => check(same(y, &l[l.len() - 1]), 4), Err(_) => check(false, 5) }
    }
    check(same(&j, &V::Arr(l)), 6); reach(1);
}
fn keys(n: usize) -> String { match choice(2) { 0 => ascii_text(n), _ => any_text(1) } }
fn typed_keys() {
    let k = 1 + choice(2) as usize;
    match choice(6) {
        0 => { let mut m = HashMap::new(); m.insert(ascii_text(1 + k), flag()); t::trip(m) }
        1 => { let mut m = HashMap::new(); m.insert(ascii_text(k), vec![word(1)]); m.insert(keys(1), vec![]); t::trip(m) }
        2 => t::trip(t::Pairs(vec![(ascii_text(k), flag()), (word(1), true)])),
        3 => { let mut m = HashMap::new(); m.insert(any_text(1), Some(flag())); t::trip(m) }
        4 => t::trip(vec![t::Pairs(vec![(ascii_text(k), 1u8)])]),
        _ => { let mut i = HashMap::new(); i.insert(ascii_text(k), true); let mut m = HashMap::new(); m.insert("m".to_string(), i); t::trip(m) }
    }
}
fn pair_keys() { let a = ascii_text(1 + choice(2) as usize); t::encode_pairs_of(vec![(a.clone(), 1), ("b".to_string(), 2), (a, 3)]) }
fn alike() { let k = len(); match choice(6) {
    0 => t::trip(vec![None::<String>; k]), 1 => t::trip(vec![String::new(); k]), 2 => t::trip(vec![Vec::<bool>::new(); k]), 3 => t::trip(vec![flag(); k]),
    4 => t::trip(t::Pairs((0..k).map(|_| ("a".to_string(), None::<bool>)).collect())), _ => t::trip(vec![HashMap::<String, bool>::new(); k]) } }
fn to_kinds() { let d = nested(); let j = build(&d); t::comps(&j) }
fn built() { let d = flat(); let l: Vec<Json> = match &d { V::Arr(l) => l.iter().map(build).collect(), _ => return };
    check(same(&l.to_json(), &d), 1); check(same(&(&l[..]).to_json(), &d), 2); reach(1);
    match Json::Array(l).convert::<Vec<Json>>() { Ok(v) => check(same(&Json::Array(v), &d), 3), Err(_) => check(false, 4) } }

crate::harnesses! {
    h_p01_flat = p::accept(text(&nested()));
    h_p03_flat = p::structure(text(&nested()));
    h_p05_flat = s::form(build(&nested()));
    h_p06_flat = s::round(build(&nested()));
    h_p07_alike = alike();
    h_p07_keys = typed_keys();
    h_p08_flat = to_kinds();
    h_p07_built = built();
    h_p09_flat = on(pa::read);
    h_p09_shrink = shrink_path();
    h_p10_flat = on(pa::write1);
    h_p11_flat = on(pa::remove);
    h_p11_shrink = shrink_members(1);
    h_p11_shrinka = shrink_path();
    h_p13_flat = o::seq_kinds(match choice(2) { 0 => letters(run()), _ => again(run()) }, 1);
    h_p13_shrink = shrink_members(0);
    h_p14_flat = o::aseq_kinds(V::Arr(run()), 1);
    h_p14_shrink0 = shrink(0);
    h_p14_shrink1 = shrink(1);
    h_p14_shrink2 = shrink(2);
    h_p17_flat = { let d = flat(); let k = step(&d); o::indexed(d, k) };
    h_p18_flat = { let d = flat(); let k = step(&d); let more = match choice(3) { 0 => vec![k], 1 => vec![k, o::K::I(0)], _ => vec![k, o::K::S("a".into())] }; o::agree(d, more) };
    h_p18_shrink = shrink_members(2);
    h_p20_keys = pair_keys();
    h_p20_flat = t::as_pairs((0..len()).map(|i| (if choice_once(i < 3) == 0 { key("a") } else { key("b") }, n(i as u32))).collect());
    h_p21_flat = on(e::following);
    h_p22_flat = { let (a, b) = pair(); e::equal(a, b) };
    h_p22_fclone = e::cloned(nested());
    h_p23_flat = { let d = flat(); let q = place(&d); e::at_path(text(&d), q) };
}
