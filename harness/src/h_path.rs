//! P09 get, P10 set, P11 del, P12 escapes
use crate::gen::*;
use crate::model::{self as m, C};
use crate::reference::{self as r, V};
use json::Json;
use sym::*;

const DOCS: &[&str] = &[
    r##"{"a":{"b":0},"":{"":4,"a":[5]},"#":6,"\\":7,".":8,"#0":9,"a.b":10,"\\#0":11,"b":[[0,1],{"a":12},"x"],"a":{"b":[13,{"c":14,"c":15}],"":16,"b":{"c":[17,18],"":19}},"\\.":20,"..":{"a":21},"a\\":{"a":22},"#a":{"#":23}}"##,
    r##"[[1,[2,3]],{"a":[4],"":5,"#1":6},"s",null,true,7,[],{},8,9,[10,11],12]"##,
    r##"{"a":[{"a":[{"a":1},{"a":2,"a":{"a":3}}]},"a"],"b":null,"c":"d","a":[[],{"b":{"b":4},"a":[5,6,7]},8]}"##,
    "\"text\"", "1.5", "true", "null", "[]", "{}",
    r##"{"0":{"1":[1,{"0":2}]},"1":3,"2":[4],"12":5,"-1":6,"00":7,"1.0":{"0":8},"[0]":9,"0x0":10,"18446744073709551615":11,"len":12}"##,
];
pub fn doc(i: u32) -> V { r::read(DOCS[i as usize].as_bytes()).unwrap() }
fn any_doc() -> V { doc(choice(DOCS.len() as u32)) }
fn small(p: &[C]) -> bool { p.iter().all(|c| match c { C::Idx(i) => *i < 40, _ => true }) }

// ---- P09
pub fn read(d: V, p: String) {
    note(&p);
    let j = build(&d);
    match m::path(p.as_bytes()) {
        None => { reach(1); check(j.get(&p).is_err(), 1) }
        Some(c) => match m::get(&d, &c) {
            None => { reach(2); check(j.get(&p).is_err(), 2) }
            Some(v) => { reach(3); match j.get(&p) { Ok(x) => { observe(size(x)); check(same(x, v), 3) } Err(_) => check(false, 4) } }
        }
    }
    check(same(&j, &d), 5);
}
/// json::get on a document text
fn read_text(p: String) { read_text_of(doc(choice(3)), p) }
pub fn read_text_of(d: V, p: String) {
    let mut t = vec![]; m::show(&d, &mut t); let t = string(t); note(&p);
    let got = json::get::<Json>(&t, &p);
    match m::path(p.as_bytes()).and_then(|c| m::get(&d, &c).cloned()) { None => { reach(1); check(got.is_err(), 1) } Some(v) => { reach(2); match got { Ok(x) => check(same(&x, &v), 2), Err(_) => check(false, 3) } } }
}
/// typed reads: the value converts or the read is an error
fn read_typed() {
    let t = r##"{"n":7,"s":"x","l":[1,2],"o":{"k":true},"z":null}"##; let p = tpl("?"); note(&p);
    let k = p.as_bytes()[0];
    match choice(5) {
        0 => match json::get::<u8>(t, &p) { Ok(x) => { reach(1); check(k == b'n' && x == 7, 1) } Err(_) => check(k != b'n', 2) },
        1 => match json::get::<String>(t, &p) { Ok(x) => { reach(2); check(k == b's' && x == "x", 3) } Err(_) => check(k != b's', 4) },
        2 => match json::get::<Vec<i64>>(t, &p) { Ok(x) => { reach(3); check(k == b'l' && x == [1, 2], 5) } Err(_) => check(k != b'l', 6) },
        3 => match json::get::<Option<bool>>(t, &p) { Ok(x) => { reach(4); check(k == b'z' && x.is_none(), 7) } Err(_) => check(k != b'z', 8) },
        _ => match json::get::<std::collections::HashMap<String, bool>>(t, &p) { Ok(x) => { reach(5); check(k == b'o' && x.len() == 1 && x["k"], 9) } Err(_) => check(k != b'o', 10) },
    }
}
/// a path of components out of a menu
fn comps(n: u32) -> String {
    const MENU: &[&str] = &["a", "b", "", "#0", "#1", "#2", "#11", "\\#0", "a\\.b", "\\\\", "\\.", "c", "#", "#a"];
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push('.'); } s.push_str(MENU[choice(MENU.len() as u32) as usize]); }
    s
}
pub const IDX: &[&str] = &["#0", "#00", "#11", "#12", "#4294967295", "#4294967296", "#4294967297", "#2147483648", "#9223372036854775808", "#18446744073709551615", "#18446744073709551616", "#18446744073709551627", "#99999999999999999999999999", "#-1", "#1.", "#1 ", "# 1", "#0x1", "#1e0", "#1_0", "#", "##1", "#a", "\\#1", "#\u{661}"];
fn index(d: V) { read(d, IDX[choice(IDX.len() as u32) as usize].to_string()) }

// ---- P10
fn write(mut d: V, p: String) {
    note(&p);
    let mut j = build(&d);
    let old = d.clone();
    match m::path(p.as_bytes()) {
        None => { reach(1); check(j.set(&p, 77u8).is_err(), 1); check(same(&j, &old), 2); }
        Some(c) => {
            assume(small(&c));
            reach(if m::get(&d, &c).is_some() { 2 } else { 3 });
            let x = match choice(3) { 0 => V::Str(b"new".to_vec()), 1 => V::Null, _ => V::Arr(vec![V::Null, V::Bool(true)]) };
            m::set(&mut d, &c, &x);
            match j.set(&p, build(&x)) { Ok(y) => check(same(y, &x), 3), Err(_) => check(false, 4) }
            observe(size(&j));
            check(same(&j, &d), 5);
            match j.get(&p) { Ok(y) => check(same(y, &x), 6), Err(_) => check(false, 7) }
            // the reference that set returns is the place in the document
            match j.set(&p, 1u8) { Ok(y) => *y = Json::Boolean(false), Err(_) => check(false, 8) }
            m::set(&mut d, &c, &V::Bool(false)); check(same(&j, &d), 9);
        }
    }
}
/// values of every kind
fn write_kinds(mut d: V, p: String) {
    note(&p); let mut j = build(&d); let x = vtree(1, 1, 0);
    if let Some(c) = m::path(p.as_bytes()) { assume(small(&c)); m::set(&mut d, &c, &x); reach(1); match j.set(&p, build(&x)) { Ok(y) => check(same(y, &x), 1), Err(_) => check(false, 2) } check(same(&j, &d), 3); }
}
/// one value; positions may be large
pub fn write1(mut d: V, p: String) {
    note(&p); let mut j = build(&d);
    match m::path(p.as_bytes()) { None => { reach(1); check(j.set(&p, "new").is_err(), 1); }
        Some(c) => { assume(c.iter().all(|c| match c { C::Idx(i) => *i < 2000, _ => true })); reach(2); let x = V::Str(b"new".to_vec()); m::set(&mut d, &c, &x); match j.set(&p, "new") { Ok(y) => check(same(y, &x), 2), Err(_) => check(false, 3) } } }
    check(same(&j, &d), 4); observe(size(&j));
}
fn write_text(p: String) { write_text_of(doc(choice(3)), p) }
pub fn write_text_of(mut d: V, p: String) {
    let mut t = vec![]; m::show(&d, &mut t); let t = string(t); note(&p);
    let got = json::set(&t, &p, "new");
    match m::path(p.as_bytes()) {
        None => { reach(1); check(got.is_err(), 1) }
        Some(c) => { assume(small(&c)); reach(2); m::set(&mut d, &c, &V::Str(b"new".to_vec()));
            match got { Err(_) => check(false, 2), Ok(s) => match r::read(s.as_bytes()) { None => check(false, 3), Some(v) => check(same(&build(&v), &d), 4) } } }
    }
}
/// two writes in a row
fn write2(p: String, q: String) {
    note(&p); note(&q);
    let mut d = any_doc(); let mut j = build(&d);
    for (p, n) in [(&p, 1u8), (&q, 2u8)] {
        match m::path(p.as_bytes()) { None => { reach(1); check(j.set(p, n).is_err(), 1) } Some(c) => { assume(small(&c)); reach(2); m::set(&mut d, &c, &V::Num(vec![b'0' + n])); check(j.set(p, n).is_ok(), 2) } }
        check(same(&j, &d), 3);
    }
}
// ---- P11
pub fn remove(mut d: V, p: String) {
    note(&p);
    let mut j = build(&d);
    match m::path(p.as_bytes()).filter(|c| m::get(&d, c).is_some()) {
        None => { reach(1); check(j.get(&p).is_err(), 1); check(j.del(&p).is_err(), 2) }
        Some(c) => { reach(2); let v = m::get(&d, &c).unwrap().clone(); m::del(&mut d, &c);
            match j.del(&p) { Ok(x) => { observe(size(&x)); check(same(&x, &v), 3) } Err(_) => check(false, 4) } }
    }
    observe(size(&j));
    check(same(&j, &d), 5);
}
fn remove_text(p: String) { remove_text_of(doc(choice(3)), p) }
pub fn remove_text_of(mut d: V, p: String) {
    let mut t = vec![]; m::show(&d, &mut t); let t = string(t); note(&p);
    let got = json::del(&t, &p);
    match m::path(p.as_bytes()).filter(|c| m::get(&d, c).is_some()) {
        None => { reach(1); check(got.is_err(), 1) }
        Some(c) => { reach(2); m::del(&mut d, &c); match got { Err(_) => check(false, 2), Ok(s) => match r::read(s.as_bytes()) { None => check(false, 3), Some(v) => check(same(&build(&v), &d), 4) } } }
    }
}
fn remove2(p: String, q: String) {
    note(&p); note(&q);
    let mut d = doc(choice(3)); let mut j = build(&d);
    for p in [&p, &q] {
        match m::path(p.as_bytes()).filter(|c| m::get(&d, c).is_some()) { None => { reach(1); check(j.del(p).is_err(), 1) } Some(c) => { reach(2); m::del(&mut d, &c); check(j.del(p).is_ok(), 2) } }
        check(same(&j, &d), 3);
    }
}
fn index_del(d: V) { remove(d, IDX[choice(IDX.len() as u32) as usize].to_string()) }

// ---- P12
/// the object has other members whose keys are likely to be confused with k
fn around(k: &[u8]) -> Vec<(Vec<u8>, V)> {
    let n = |i: u8| V::Num(vec![b'0' + i]);
    let mut l: Vec<(Vec<u8>, V)> = vec![(b"".to_vec(), n(1)), (m::esc(k), n(2)), ([b"\\", k].concat(), n(3)), ([k, b"\\"].concat(), n(4)), ([k, b"."].concat(), n(5)), ([b"#", k].concat(), n(6))];
    if k.len() > 1 { l.push((k[1..].to_vec(), V::Obj(vec![(k.to_vec(), n(7))]))); l.push((k[..1].to_vec(), V::Obj(vec![(k[1..].to_vec(), n(8))]))); }
    l.retain(|x| x.0 != k);
    l
}
/// k as the only component
pub fn key_last(k: String) {
    let k = k.as_bytes(); let p = string(m::esc(k)); note(&p);
    let mut d = around(k); let present = choice(2) == 1;
    if present { d.push((k.to_vec(), V::Bool(false))); d.push((k.to_vec(), V::Arr(vec![V::Null]))); }
    let mut j = build(&V::Obj(d.clone()));
    match j.get(&p) { Ok(x) => { reach(1); check(present && same(x, &V::Arr(vec![V::Null])), 1) } Err(_) => { reach(2); check(!present, 2) } }
    match choice(2) {
        0 => { let r = j.del(&p); check(r.is_ok() == present, 3); d.retain(|x| x.0 != k); }
        _ => { let r = j.set(&p, "new").is_ok(); check(r, 4); d.retain(|x| x.0 != k); d.push((k.to_vec(), V::Str(b"new".to_vec()))); }
    }
    check(same(&j, &V::Obj(d)), 5);
}
/// k as the last component below other components
pub fn key_below(k: String) {
    let k = k.as_bytes(); let w = choice(4);
    let (pre, mut c): (&[u8], Vec<C>) = match w { 0 => (b"o.", vec![C::Key(b"o".to_vec())]), 1 => (b"#1.", vec![C::Idx(1)]), 2 => (b".", vec![C::Key(b"".to_vec())]), _ => (b"o.#0.\\#p.", vec![C::Key(b"o".to_vec()), C::Idx(0), C::Key(b"#p".to_vec())]) };
    let p = string([pre, &m::esc(k)].concat()); note(&p); c.push(C::Key(k.to_vec()));
    let mut l = around(k); let present = choice(2) == 1; if present { l.push((k.to_vec(), V::Bool(false))); l.push((k.to_vec(), V::Null)); }
    let o = |k: &[u8], v| V::Obj(vec![(k.to_vec(), v)]);
    let mut d = match w { 0 => o(b"o", V::Obj(l)), 1 => V::Arr(vec![V::Null, V::Obj(l)]), 2 => o(b"", V::Obj(l)), _ => o(b"o", V::Arr(vec![o(b"#p", V::Obj(l))])) };
    let mut j = build(&d);
    match j.get(&p) { Ok(x) => { reach(1); check(present && same(x, &V::Null), 1) } Err(_) => { reach(2); check(!present, 2) } }
    match choice(2) {
        0 => { check(j.del(&p).is_ok() == present, 3); if present { m::del(&mut d, &c); } }
        _ => { check(j.set(&p, "new").is_ok(), 4); m::set(&mut d, &c, &V::Str(b"new".to_vec())); }
    }
    check(same(&j, &d), 5);
}
/// k as an inner component, below another key and above one
pub fn key_inner(k: String) {
    let k = k.as_bytes(); if k.len() > 0 { assume(k[k.len() - 1] != b'\\'); }
    let mut p = b"o.".to_vec(); p.extend(m::esc(k)); p.extend_from_slice(b".q"); let p = string(p); note(&p);
    let mut sib = around(k); let present = choice(2) == 1;
    if present { sib.push((k.to_vec(), V::Obj(vec![(b"q".to_vec(), V::Bool(true)), (b"r".to_vec(), V::Null)]))); }
    let c = [C::Key(b"o".to_vec()), C::Key(k.to_vec()), C::Key(b"q".to_vec())];
    let mut d = V::Obj(vec![(b"o".to_vec(), V::Obj(sib)), (k.to_vec(), V::Obj(vec![(b"q".to_vec(), V::Str(b"no".to_vec()))])), (b"x".to_vec(), V::Null)]);
    let mut j = build(&d);
    match (j.get(&p), m::get(&d, &c)) { (Ok(x), Some(y)) => { reach(1); check(same(x, y), 1) } (Err(_), None) => reach(2), _ => check(false, 2) }
    match choice(2) {
        0 => { let there = m::get(&d, &c).is_some(); check(j.del(&p).is_ok() == there, 3); if there { m::del(&mut d, &c); } }
        _ => { check(j.set(&p, "new").is_ok(), 4); m::set(&mut d, &c, &V::Str(b"new".to_vec())); }
    }
    check(same(&j, &d), 5);
}
/// keys put in through the typed interface are found by their escaped path
pub fn key_made(k: String) {
    let p = string(m::esc(k.as_bytes())); note(&p);
    let mut j = Json::Object(Map::new()); let _ = j.append("k", 0u8); let _ = j.append(&k, 1u8);
    match j.get(&p) { Ok(x) => { reach(1); check(eq(x, &num(1)), 1) } Err(_) => check(false, 2) }
    let mut i = Json::Null; check(i.set(&p, 5u8).is_ok(), 3);
    match &i { Json::Object(m) => check(m.len() == 1 && m.contains_key(&k), 4), _ => check(false, 5) }
    check(j.del(&p).is_ok(), 6); check(j.get(&p).is_err(), 7);
}

crate::harnesses! {
    h_p09_dig = read(doc(9), tpl(["?", "#?", "??", "#?.#?", "?.?.#?", "0.1.#1.?", "0.?"][choice(7) as usize]));
    h_p09_a1 = read(any_doc(), ascii_text(1));
    h_p09_a2 = read(any_doc(), ascii_text(2));
    h_p09_a3 = read(doc(choice(3)), ascii_text(3));
    h_p09_a4 = read(doc(choice(2)), ascii_text(4));
    h_p09_a5_t = read(doc(choice(3)), ascii_text(5));
    h_p09_u1 = read(doc(0), any_text(1));
    h_p09_u2_t = read(doc(0), any_text(2));
    h_p09_empty = read(any_doc(), String::new());
    h_p09_b1 = read(doc(0), tpl("?.?.?"));
    h_p09_b2 = read(doc(0), tpl("a.b.c.?"));
    h_p09_b3 = read(doc(0), tpl("b.#?.?"));
    h_p09_b4 = read(doc(1), tpl("#1?"));
    h_p09_b5 = read(doc(1), tpl("#?.#?.#?"));
    h_p09_b6 = read(doc(1), tpl("#1?.?1"));
    h_p09_b7 = read(doc(0), tpl("\\?\\?"));
    h_p09_b8 = read(doc(0), tpl("a?b?"));
    h_p09_b9 = read(doc(2), tpl("a.#?.a.#?"));
    h_p09_b10 = read(doc(2), tpl("a.#1.b.b?"));
    h_p09_b11 = read(doc(0), tpl("??.?"));
    h_p09_b12_t = read(doc(0), tpl("??.??"));
    h_p09_b13_t = read(doc(2), tpl("a.#?.?.??"));
    h_p09_m2 = read(any_doc(), comps(2));
    h_p09_m3 = read(doc(choice(3)), comps(3));
    h_p09_m4_t = read(doc(choice(3)), comps(4));
    h_p09_idx = index(doc(choice(2)));
    h_p09_v1 = read(vtree(1, 3, 0), vpath());
    h_p09_v2 = read(vtree(2, 2, 1), vpath());
    h_p09_v2w_t = read(vtree(2, 2, 2), vpath());
    h_p09_hist = read(vhist(1 + choice(4)), "a".to_string());
    h_p09_txt = read_text(tpl("?.?"));
    h_p09_txta = read_text_of(any_doc(), ascii_text(1));
    h_p09_txtb = read_text_of(any_doc(), ascii_text(2));
    h_p09_txtc = read_text_of(any_doc(), comps(2));
    h_p09_txtv = read_text_of(vtree(1, 2, 0), vpath());
    h_p09_txtw = read_text_of(vtree(2, 1, 1), vpath());
    h_p09_txt2 = read_text(tpl("#?.a"));
    h_p09_typ = read_typed();

    h_p10_dig = write1(doc(9), tpl(["?", "#?", "??", "#?.#?", "?.?.#?", "0.1.#1.?", "0.?"][choice(7) as usize]));
    h_p10_a1 = write(any_doc(), ascii_text(1));
    h_p10_a2 = write(any_doc(), ascii_text(2));
    h_p10_a3 = write(doc(choice(2)), ascii_text(3));
    h_p10_a4_t = write(doc(choice(2)), ascii_text(4));
    h_p10_u1 = write(doc(0), any_text(1));
    h_p10_empty = write(any_doc(), String::new());
    h_p10_b1 = write(doc(0), tpl("?.?.b"));
    h_p10_b2 = write(doc(0), tpl("a.b.c.?"));
    h_p10_b3 = write(doc(0), tpl("b.#?.?"));
    h_p10_b4 = write(doc(1), tpl("#1?"));
    h_p10_b5 = write(doc(1), tpl("#?.#?"));
    h_p10_b6 = write(doc(1), tpl("#1?.?1"));
    h_p10_b7 = write(doc(0), tpl("\\?\\?"));
    h_p10_b8 = write(doc(2), tpl("a.#?.a.#?"));
    h_p10_b9 = write(doc(2), tpl("?.#3.x.#2.y"));
    h_p10_b10 = write(any_doc(), tpl("#2?.#$.a"));
    h_p10_m2 = write(any_doc(), comps(2));
    h_p10_m3 = write(doc(choice(3)), comps(3));
    h_p10_m4_t = write(doc(choice(3)), comps(4));
    h_p10_v1 = write(vtree(1, 3, 0), vpath());
    h_p10_v2 = write(vtree(2, 2, 1), vpath());
    h_p10_v2w_t = write(vtree(2, 2, 2), vpath());
    h_p10_hist = write(vhist(1 + choice(4)), vpath());
    h_p10_vals = write_kinds(doc(choice(DOCS.len() as u32)), comps(2));
    h_p10_txt = write_text(tpl("?.?"));
    h_p10_txta = write_text_of(any_doc(), ascii_text(1));
    h_p10_txtb = write_text_of(any_doc(), ascii_text(2));
    h_p10_txtc = write_text_of(any_doc(), comps(2));
    h_p10_txtv = write_text_of(vtree(1, 2, 0), vpath());
    h_p10_txtw = write_text_of(vtree(2, 1, 1), vpath());
    h_p10_txt2 = write_text(tpl("#?.a"));
    h_p10_two = write2(comps(1), comps(2));
    h_p10_two2_t = write2(comps(2), comps(2));

    h_p11_dig = remove(doc(9), tpl(["?", "#?", "??", "#?.#?", "?.?.#?", "0.1.#1.?", "0.?"][choice(7) as usize]));
    h_p11_a1 = remove(any_doc(), ascii_text(1));
    h_p11_a2 = remove(any_doc(), ascii_text(2));
    h_p11_a3 = remove(doc(choice(3)), ascii_text(3));
    h_p11_a4 = remove(doc(choice(2)), ascii_text(4));
    h_p11_a5_t = remove(doc(choice(3)), ascii_text(5));
    h_p11_u1 = remove(doc(0), any_text(1));
    h_p11_empty = remove(any_doc(), String::new());
    h_p11_b1 = remove(doc(0), tpl("?.?.?"));
    h_p11_b2 = remove(doc(0), tpl("a.b.c.?"));
    h_p11_b3 = remove(doc(0), tpl("b.#?.?"));
    h_p11_b4 = remove(doc(1), tpl("#1?"));
    h_p11_b5 = remove(doc(1), tpl("#?.#?.#?"));
    h_p11_b6 = remove(doc(2), tpl("a.#?.a.#?"));
    h_p11_b7 = remove(doc(0), tpl("\\?\\?"));
    h_p11_m2 = remove(any_doc(), comps(2));
    h_p11_m3 = remove(doc(choice(3)), comps(3));
    h_p11_m4_t = remove(doc(choice(3)), comps(4));
    h_p11_idx = index_del(doc(choice(2)));
    h_p11_v1 = remove(vtree(1, 3, 0), vpath());
    h_p11_v2 = remove(vtree(2, 2, 1), vpath());
    h_p11_v2w_t = remove(vtree(2, 2, 2), vpath());
    h_p11_hist = remove(vhist(1 + choice(4)), vpath());
    h_p11_txt = remove_text(tpl("?.?"));
    h_p11_txta = remove_text_of(any_doc(), ascii_text(1));
    h_p11_txtb = remove_text_of(any_doc(), ascii_text(2));
    h_p11_txtc = remove_text_of(any_doc(), comps(2));
    h_p11_txtv = remove_text_of(vtree(1, 2, 0), vpath());
    h_p11_txtw = remove_text_of(vtree(2, 1, 1), vpath());
    h_p11_txt2 = remove_text(tpl("#?.a"));
    h_p11_two = remove2(comps(1), comps(2));
    h_p11_two2_t = remove2(comps(2), comps(2));

    h_p12_l1 = key_last(ascii_text(1));
    h_p12_l2 = key_last(ascii_text(2));
    h_p12_l3 = key_last(ascii_text(3));
    h_p12_l4_t = key_last(ascii_text(4));
    h_p12_lu1 = key_last(any_text(1));
    h_p12_lu2_t = key_last(any_text(2));
    h_p12_b0 = key_below(String::new());
    h_p12_b1 = key_below(ascii_text(1));
    h_p12_b2 = key_below(ascii_text(2));
    h_p12_b3 = key_below(ascii_text(3));
    h_p12_bu1 = key_below(any_text(1));
    h_p12_i0 = key_inner(String::new());
    h_p12_i1 = key_inner(ascii_text(1));
    h_p12_i2 = key_inner(ascii_text(2));
    h_p12_i3_t = key_inner(ascii_text(3));
    h_p12_iu1 = key_inner(any_text(1));
    h_p12_m1 = key_made(ascii_text(1));
    h_p12_m2 = key_made(ascii_text(2));
    h_p12_m3 = key_made(ascii_text(3));
    h_p12_m4 = key_made(ascii_text(4));
    h_p12_m5_t = key_made(ascii_text(5));
    h_p12_m6_t = key_made(ascii_text(6));
    h_p12_mu2 = key_made(any_text(2));
    h_p12_mlong = key_made(tpl("\\..#?a.\\?#..?longer.key\\.with.\\#0.parts?x"));
}
