//! P13 objects, P14 arrays, P17 indexing, P18 typed paths and macros
use crate::gen::*;
use crate::h_path::doc;
use crate::model::{self as m, C};
use crate::reference::V;
use json::{array, discard, find, object, path, update, Json, Path, ToJson};
use sym::*;

fn n(i: u32) -> V { V::Num(i.to_string().into_bytes()) }
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }
const KINDS: u32 = 7;
/// a value of every kind; arrays and objects with content
fn kind(i: u32) -> V {
    match i { 0 => V::Null, 1 => V::Bool(true), 2 => n(7), 3 => V::Str(b"a".to_vec()), 4 => V::Arr(vec![]), 5 => V::Arr(vec![n(1), V::Obj(vec![(key("a"), n(2))])]), _ => V::Obj(vec![(key("a"), n(1)), (key("a"), n(2))]) }
}
// ---- P13
type Members = Vec<(Vec<u8>, V)>;
fn start(which: u32) -> Members {
    match which {
        0 => vec![],
        1 => vec![(key("a"), n(100)), (key("b"), n(101)), (key("a"), n(102))],
        2 => (0..20).map(|i| (vec![b'a' + (i % 14) as u8], n(100 + i))).collect(),
        // just before the table grows
        3 => (0..7).map(|i| (vec![b'b' + i as u8], n(100 + i))).collect(),
        _ => vec![(key(""), V::Null), (key("a"), V::Arr(vec![])), (key("a"), V::Obj(vec![])), (key("a"), V::Bool(true)), (key("a"), n(4))],
    }
}
pub fn op(j: &mut Json, l: &mut Members, what: u32, k: &str, v: V) {
    let kb = key(k);
    match what {
        0 => { check(j.insert(k, build(&v)).is_ok(), 1); l.retain(|x| x.0 != kb); l.push((kb, v)); }
        1 => { check(j.append(k, build(&v)).is_ok(), 2); l.push((kb, v)); }
        2 => { check(j.delete(k).is_ok(), 3); l.retain(|x| x.0 != kb); }
        3 => { check(j.add_option(k.to_string(), build(&v), false).is_ok(), 4); l.retain(|x| x.0 != kb); l.push((kb, v)); }
        _ => { check(j.add_option(k.to_string(), build(&v), true).is_ok(), 5); l.push((kb, v)); }
    }
}
pub fn look(j: &Json, l: &Members, k: &str) {
    let w: Vec<&V> = l.iter().filter(|x| x.0 == k.as_bytes()).map(|x| &x.1).collect();
    match j.index_and_merge(k) {
        Err(_) => { reach(10); check(w.is_empty(), 10) }
        Ok(g) => { reach(11); check(g.len() == w.len(), 11); if g.len() == w.len() { for i in 0..g.len() { check(same(g[i], w[i]), 12); } } }
    }
    match j.find(k) { Err(_) => check(w.is_empty(), 13), Ok(x) => check(w.last().map_or(false, |v| same(x, v)), 14) }
}
/// symbolic values, so that the solver tells them apart
fn val(i: u32) -> V { n(i) }
/// operations whose values are of every kind, on objects whose values are
pub fn seq_kinds(d: V, ops: u32) {
    let mut l = match d { V::Obj(l) => l, _ => vec![] }; let mut j = build(&V::Obj(l.clone()));
    for _ in 0..ops { let w = choice(3); let k = ["a", "b"][choice(2) as usize]; let v = if w == 2 { V::Null } else { leaf() }; op(&mut j, &mut l, w, k, v); check(same(&j, &V::Obj(l.clone())), 20); }
    look(&j, &l, "a"); look(&j, &l, "b"); observe(size(&j));
}
/// the same for arrays
pub fn aseq_kinds(d: V, ops: u32) {
    let mut l = match d { V::Arr(l) => l, _ => vec![] }; let mut j = build(&V::Arr(l.clone()));
    for _ in 0..ops { match choice(3) {
        0 => { let v = leaf(); check(j.push(build(&v)).is_ok(), 1); l.push(v); }
        1 => { let v = leaf(); let i = choice(4) as usize; check(j.replace(i, build(&v)).is_ok() == (i < l.len()), 2); if i < l.len() { l[i] = v; reach(1) } }
        _ => { let i = choice(4) as usize; check(j.remove(i).is_ok() == (i < l.len()), 3); if i < l.len() { l.remove(i); reach(2) } } }
        check(same(&j, &V::Arr(l.clone())), 4); }
    observe(size(&j));
}
pub fn seq(init: u32, ops: u32, kinds: u32) {
    let mut l = start(init); let mut j = build(&V::Obj(l.clone()));
    for i in 0..ops { let w = choice(kinds); let k = word(1); note(&format!("{} {}", w, k)); op(&mut j, &mut l, w, &k, val(i + 1)); check(same(&j, &V::Obj(l.clone())), 20); }
    look(&j, &l, &word(1));
    if l.is_empty() { reach(1) }
    observe(size(&j));
}
/// any key text
pub fn seq_text(k: String, k2: String) {
    note(&k); note(&k2);
    let mut l = start(4); let mut j = build(&V::Obj(l.clone()));
    let w = choice(5); op(&mut j, &mut l, w, &k, val(1)); check(same(&j, &V::Obj(l.clone())), 20);
    let w = choice(3); op(&mut j, &mut l, w, &k2, val(2)); check(same(&j, &V::Obj(l.clone())), 21);
    look(&j, &l, &k); look(&j, &l, &k2);
}
/// the merged values are in the object's order after many appends to one key
fn one_key(times: u32) {
    let k = word(1); let mut l = start(1); let mut j = build(&V::Obj(l.clone()));
    for i in 0..times { let w = if choice(4) == 0 { 0 } else { 1 }; op(&mut j, &mut l, w, if i % 3 == 2 { "b" } else { &k }, val(i)); }
    check(same(&j, &V::Obj(l.clone())), 20); look(&j, &l, &k); look(&j, &l, "a"); look(&j, &l, "b");
}
fn not_object() {
    let d = kind(choice(KINDS - 1)); let mut j = build(&d); let k = word(1); let v = bits(8) as u8;
    let bad = match choice(6) { 0 => j.insert(&k, v).is_err(), 1 => j.append(&k, v).is_err(), 2 => j.add_option(k, v.to_json(), flag()).is_err(), 3 => j.delete(&k).is_err(), 4 => j.index_and_merge(&k).is_err(), _ => j.find(&k).is_err() };
    check(bad, 1); check(same(&j, &d), 2); reach(1);
}
/// keys of other types are their texts
fn key_types() {
    let mut j = object! {}; let x = bits(8) as u8; let c = letter() as char; let b = flag();
    let (r, t) = match choice(5) {
        0 => (j.append(x, 1u8), { let mut t = vec![]; if x > 99 { t.push(b'0' + x / 100); } if x > 9 { t.push(b'0' + x / 10 % 10); } t.push(b'0' + x % 10); string(t) }),
        1 => (j.insert(c, 1u8), string(vec![c as u8])),
        2 => (j.append(b, 1u8), if b { "true".to_string() } else { "false".to_string() }),
        3 => (j.insert(&&word(1)[..0], 1u8), String::new()),
        _ => (j.append(-12i64, 1u8), "-12".to_string()),
    };
    check(r.is_ok(), 1); reach(1);
    check(same(&j, &V::Obj(vec![(t.into_bytes(), n(1))])), 2);
}
// ---- P14
fn list(which: u32) -> Vec<V> { match which { 0 => vec![], 1 => vec![n(100), V::Str(b"b".to_vec()), V::Arr(vec![n(101)])], 2 => vec![V::Null], _ => (0..9).map(|i| n(100 + i)).collect() } }
/// an index: each one in range and one past it, or any other
pub fn idx(len: usize) -> usize { let k = choice(len as u32 + 2) as usize; if k <= len { k } else { let i = bits(64) as usize; assume(i > len); i } }
pub fn aseq(init: u32, ops: u32) {
    let mut l = list(init); let mut j = build(&V::Arr(l.clone()));
    for s in 0..ops {
        let v = val(s + 1);
        match choice(3) {
            0 => { check(j.push(build(&v)).is_ok(), 1); l.push(v); }
            1 => { let i = idx(l.len()); let r = j.replace(i, build(&v)); check(r.is_ok() == (i < l.len()), 2); if i < l.len() { reach(1); l[i] = v; } else { reach(2) } }
            _ => { let i = idx(l.len()); let r = j.remove(i); check(r.is_ok() == (i < l.len()), 3); if i < l.len() { reach(3); l.remove(i); } else { reach(4) } }
        }
        check(same(&j, &V::Arr(l.clone())), 4);
    }
    let i = idx(l.len());
    match j.find(i) { Ok(x) => { reach(5); check(i < l.len() && same(x, &l[i]), 5) } Err(_) => { reach(6); check(i >= l.len(), 6) } }
    match j.discard(i) { Ok(x) => check(i < l.len() && same(&x, &l.remove(i)), 7), Err(_) => check(i >= l.len(), 8) }
    check(same(&j, &V::Arr(l)), 9);
}
/// one operation on a long list
fn along(len: u32) { let l: Vec<V> = (0..len).map(n).collect(); let i = idx(l.len()); along_with(build(&V::Arr(l.clone())), l, i) }
pub fn along_with(mut j: Json, mut l: Vec<V>, i: usize) {
    match choice(2) { 0 => { check(j.remove(i).is_ok() == (i < l.len()), 1); if i < l.len() { l.remove(i); } } _ => { check(j.replace(i, "x").is_ok() == (i < l.len()), 2); if i < l.len() { l[i] = V::Str(b"x".to_vec()); } } }
    check(same(&j, &V::Arr(l)), 3); reach(1);
}
fn not_array() {
    let d = match choice(5) { 4 => kind(6), k => kind(k) }; let mut j = build(&d); let v = bits(8) as u8; let i = bits(64) as usize;
    let bad = match choice(5) { 0 => j.push(v).is_err(), 1 => j.replace(i, v).is_err(), 2 => j.remove(i).is_err(), 3 => j.find(i).is_err(), _ => j.discard(i).is_err() };
    check(bad, 1); check(same(&j, &d), 2); reach(1);
}
// ---- P17
fn any_doc() -> V { match choice(2) { 0 => doc([0, 1, 2, 9][choice(4) as usize]), _ => kind(choice(KINDS)) } }
pub enum K { S(String), I(usize) }
fn place<'a>(v: &'a V, k: &K) -> Option<&'a V> { match k { K::S(s) => m::get(v, &[C::Key(key(s))]), K::I(i) => m::get(v, &[C::Idx(*i)]) } }
fn comp(k: &K) -> C { match k { K::S(s) => C::Key(key(s)), K::I(i) => C::Idx(*i) } }
fn at<'a>(j: &'a Json, k: &K) -> &'a Json { match k { K::S(s) => match choice(3) { 0 => &j[s.as_str()], 1 => &j[s], _ => &j[s.clone()] }, K::I(i) => match choice(2) { 0 => &j[*i], _ => &j[i] } } }
fn at_mut<'a>(j: &'a mut Json, k: &K) -> &'a mut Json { match k { K::S(s) => match choice(3) { 0 => &mut j[s.as_str()], 1 => &mut j[s], _ => &mut j[s.clone()] }, K::I(i) => match choice(2) { 0 => &mut j[*i], _ => &mut j[i] } } }
pub fn indexed(d: V, k: K) {
    let mut j = build(&d); let found = place(&d, &k).cloned();
    if let K::S(s) = &k { note(s) }
    match (&found, match &k { K::S(s) => j.find(s), K::I(i) => j.find(i) }) { (Some(v), Ok(x)) => check(same(x, v), 1), (None, Err(_)) => (), _ => check(false, 2) }
    let mutable = choice(2) == 1;
    match found {
        None => {
            reach(2); expect_panic(1);
            if mutable { observe(size(at_mut(&mut j, &k))); } else { observe(size(at(&j, &k))); }
        }
        Some(v) => {
            reach(1);
            if !mutable { check(same(at(&j, &k), &v), 3); check(same(&j, &d), 4); }
            else {
                check(same(at_mut(&mut j, &k), &v), 5); check(same(&j, &d), 6);
                let mut d = d; let x = V::Arr(vec![n(5)]); *at_mut(&mut j, &k) = build(&x); m::set_here(&mut d, &comp(&k), &x); check(same(&j, &d), 7);
            }
        }
    }
}
/// two steps of indexing, reading and writing
fn indexed2() {
    let d = doc(choice(3)); let mut j = build(&d); let (a, b) = (comp_menu(), comp_menu());
    match m::get(&d, &[comp(&a), comp(&b)]) {
        None => { reach(2); expect_panic(1); if choice(2) == 0 { observe(size(at(at(&j, &a), &b))) } else { *at_mut(at_mut(&mut j, &a), &b) = Json::Null; } }
        Some(v) => { reach(1); check(same(at(at(&j, &a), &b), v), 1);
            let mut d = d.clone(); *at_mut(at_mut(&mut j, &a), &b) = num(9); if let Some(o) = m::get_mut(&mut d, &comp(&a)) { m::set_here(o, &comp(&b), &n(9)); } check(same(&j, &d), 2); }
    }
}
fn comp_menu() -> K { match choice(9) { 0 => K::S("a".into()), 1 => K::S("b".into()), 2 => K::S(String::new()), 3 => K::S("#0".into()), 4 => K::I(0), 5 => K::I(1), 6 => K::I(2), 7 => K::I(12), _ => K::I(usize::MAX) } }

// ---- P18
/// a typed path of keys and positions, put together in one of three ways, and its text
fn comps(len: u32) -> Vec<K> { (0..len).map(|_| comp_menu18()).collect() }
fn comp_menu18() -> K { match choice(10) { 0 => K::S("a".into()), 1 => K::S("b".into()), 2 => K::S(String::new()), 3 => K::S("#0".into()), 4 => K::I(0), 5 => K::I(1), 6 => K::I(11), 7 => K::S("a.b".into()), 8 => K::S("\\".into()), _ => K::S("\\#0".into()) } }
fn comps2() -> Vec<K> { let k = |s: &str| K::S(s.into()); match choice(8) { 0 => vec![k("a")], 1 => vec![K::I(0)], 2 => vec![K::I(1)], 3 => vec![k("a"), k("b")], 4 => vec![k("a"), K::I(0)], 5 => vec![K::I(0), k("a")], 6 => vec![K::I(1), K::I(1)], _ => vec![k("a"), k("a"), K::I(0)] } }
fn text(c: &[K]) -> String {
    let mut t: Vec<u8> = vec![];
    for (i, k) in c.iter().enumerate() { if i > 0 { t.push(b'.'); } match k { K::S(s) => { if i + 1 < c.len() { assume(!s.ends_with('\\')); } t.extend(m::esc(s.as_bytes())) } K::I(i) => { t.push(b'#'); t.extend(i.to_string().bytes()); } } }
    assume(!t.is_empty()); string(t)
}
fn typed(c: &[K]) -> Path {
    let mut p = match &c[0] { K::S(s) => Path::new(s), K::I(i) => Path::new(*i) };
    for k in &c[1..] { match k { K::S(s) => { p.append(s.as_str()); } K::I(i) => { p.append(i); } } }
    p
}
pub fn agree(d: V, c: Vec<K>) {
    let t = text(&c); note(&t); let mc: Vec<C> = c.iter().map(comp).collect();
    let mut a = build(&d); let mut b = build(&d); let there = m::get(&d, &mc).is_some();
    match (a.find(typed(&c)), b.get(&t)) { (Ok(x), Ok(y)) => { reach(1); check(same(x, m::get(&d, &mc).unwrap_or(&V::Null)), 1); check(eq(x, y), 2) } (Err(_), Err(_)) => { reach(2); check(!there, 3) } _ => check(false, 4) }
    match choice(3) {
        0 => { let mut d = d; let v = V::Arr(vec![n(3)]); m::set(&mut d, &mc, &v);
            match (a.update(typed(&c), build(&v)), b.set(&t, build(&v))) { (Ok(x), Ok(y)) => check(same(x, &v) && same(y, &v), 5), _ => check(false, 6) }
            check(same(&a, &d), 7); check(same(&b, &d), 8); }
        1 => { let mut d = d; let v = m::get(&d, &mc).cloned();
            match (a.discard(typed(&c)), b.del(&t), v) { (Ok(x), Ok(y), Some(v)) => { reach(3); check(same(&x, &v) && same(&y, &v), 9); m::del(&mut d, &mc); } (Err(_), Err(_), None) => reach(4), _ => check(false, 10) }
            check(same(&a, &d), 11); check(same(&b, &d), 12); }
        _ => match a.find_mut(typed(&c)) {
            Ok(x) => { check(there && same(x, m::get(&d, &mc).unwrap_or(&V::Null)), 13); *x = Json::Boolean(true); *b_at(&mut b, &c) = Json::Boolean(true); check(eq(&a, &b), 14); }
            Err(_) => { check(!there, 15); check(same(&a, &d), 16); } },
    }
}
fn b_at<'a>(j: &'a mut Json, c: &[K]) -> &'a mut Json { let mut j = j; for k in c { j = match k { K::S(s) => &mut j[s], K::I(i) => &mut j[*i] }; } j }
/// the macros and the string paths
fn macros1() {
    let d = doc(choice(3)); let k = ascii_text(1); let mut c = vec![K::S(k.clone())]; let i = choice(3) as usize;
    let two = choice(3);
    if two == 1 { c.push(K::I(i)); } if two == 2 { c = vec![K::I(i), K::S(k.clone()), K::I(1)]; }
    let t = text(&c); note(&t); let mut a = build(&d); let mut b = build(&d);
    let f = match two { 0 => find!(a, &k), 1 => find!(a, &k, i), _ => find!(a, i, &k, 1,) };
    match (f, b.get(&t)) { (Ok(x), Ok(y)) => { reach(1); check(eq(x, y), 1) } (Err(_), Err(_)) => reach(2), _ => check(false, 2) }
    match choice(3) {
        0 => { let r = match two { 0 => update!(5u8 => a, &k).is_ok(), 1 => update!(5u8 => a, &k, i).is_ok(), _ => update!(5u8 => a, i, k, 1,).is_ok() }; check(r && b.set(&t, 5u8).is_ok(), 3); }
        1 => { let r = match two { 0 => discard!(a, k.as_str()), 1 => discard!(a, &k, &i), _ => discard!(a, i, &k, 1,) };
            match (r, b.del(&t)) { (Ok(x), Ok(y)) => { reach(3); check(eq(&x, &y), 4) } (Err(_), Err(_)) => reach(4), _ => check(false, 5) } }
        _ => { let p = match two { 0 => path!(&k), 1 => path!(&k, i), _ => path!(i, &k, 1,) }; match (a.find(p), b.get(&t)) { (Ok(x), Ok(y)) => check(eq(x, y), 6), (Err(_), Err(_)) => (), _ => check(false, 7) } }
    }
    check(eq(&a, &b), 8); observe(size(&a));
}
/// the macros on trees of every shape, with values of every kind
fn macros2(d: V) {
    let c = match choice(9) { 0 => vec![K::S("a".into())], 1 => vec![K::I(0)], 2 => vec![K::S("a".into()), K::S("b".into())], 3 => vec![K::S("a".into()), K::I(1)], 4 => vec![K::I(0), K::S("a".into())], 5 => vec![K::I(1), K::I(0)],
        6 => vec![K::S("b".into()), K::S("a".into()), K::I(0)], 7 => vec![K::I(0), K::I(1), K::S("a".into())], _ => vec![K::S("a".into()), K::I(0), K::S("b".into())] };
    let mc: Vec<C> = c.iter().map(comp).collect(); note(&text(&c)); let mut j = build(&d); let v = m::get(&d, &mc).cloned();
    macro_rules! on { ($($m:tt)*) => { match &c[..] { [K::S(a)] => $($m)*!(a), [K::I(a)] => $($m)*!(a), [K::S(a), K::S(b)] => $($m)*!(a, b), [K::S(a), K::I(b)] => $($m)*!(a, *b), [K::I(a), K::S(b)] => $($m)*!(*a, b), [K::I(a), K::I(b)] => $($m)*!(a, b),
        [K::S(a), K::S(b), K::I(x)] => $($m)*!(a, b, x), [K::I(a), K::I(b), K::S(x)] => $($m)*!(*a, b, x), [K::S(a), K::I(b), K::S(x)] => $($m)*!(a.as_str(), b, x.clone()), _ => unreachable!() } } }
    match choice(3) {
        0 => { macro_rules! f { ($($x:expr),*) => { find!(j, $($x),*) } } match (on!(f), v) { (Ok(x), Some(v)) => { reach(1); check(same(x, &v), 1) } (Err(_), None) => reach(2), _ => check(false, 2) } check(same(&j, &d), 3); }
        1 => { let x = match choice(3) { 0 => V::Null, 1 => V::Obj(vec![]), _ => n(5) }; let w = build(&x); macro_rules! f { ($($x:expr),*) => { update!(w => j, $($x),*) } } match on!(f) { Ok(y) => { reach(3); check(same(y, &x), 4) } Err(_) => check(false, 5) } let mut d = d; m::set(&mut d, &mc, &x); check(same(&j, &d), 6); }
        _ => { macro_rules! f { ($($x:expr),*) => { discard!(j, $($x),*) } } let mut d = d; match (on!(f), v) { (Ok(x), Some(v)) => { reach(4); check(same(&x, &v), 7); m::del(&mut d, &mc) } (Err(_), None) => reach(5), _ => check(false, 8) } check(same(&j, &d), 9); }
    }
}
/// any key text in a typed path means that key
fn typed_key(k: String) {
    note(&k); let mut d = vec![(key("a"), n(1)), (key("a.b"), n(2)), (key("#0"), n(3)), (key(""), n(4)), (key("\\a"), n(5))]; d.retain(|x| x.0 != k.as_bytes()); let here = flag(); if here { d.push((key(&k), n(6))); }
    let mut j = build(&V::Obj(d.clone()));
    match j.find(&k) { Ok(x) => { reach(1); check(here && same(x, &n(6)), 1) } Err(_) => { reach(2); check(!here, 2) } }
    match choice(2) {
        0 => { match update!("x" => j, &k, 1) { Ok(x) => check(same(x, &V::Str(b"x".to_vec())), 3), Err(_) => check(false, 4) } let mut v = V::Obj(d); m::set(&mut v, &[C::Key(key(&k)), C::Idx(1)], &V::Str(b"x".to_vec())); check(same(&j, &v), 5); }
        _ => { check(discard!(j, &k).is_ok() == here, 6); d.retain(|x| x.0 != k.as_bytes()); check(same(&j, &V::Obj(d)), 7); }
    }
}
/// three ways to write the same object, against the same appends
fn built_object(w: u32) {
    let (a, b, c) = (word(1), word(1), if w == 1 { word(1) } else { String::new() }); let x = bits(8) as u8; let s = ascii_text(1); note(&a);
    let j = match choice(3) { 0 => object! { &a => x, &b => s.as_str(), &c => object! { &a => true, &a => None::<u8>, } }, 1 => object! { &a => x, b.as_str() => s.clone(), c.clone() => object! { &a => true, &a => Json::Null } }, _ => object! { a.clone() => x, b.clone() => &*s, c.as_str() => object! { &a => &true, &a => Json::Null }, } };
    let mut q = Map::new(); add(&mut q, &a, Json::Boolean(true)); add(&mut q, &a, Json::Null);
    let mut i = Map::new(); add(&mut i, &a, num(x as u64)); add(&mut i, &b, Json::String(s)); add(&mut i, &c, Json::Object(q));
    check(eq(&j, &Json::Object(i)), 1); reach(1); observe(size(&j));
    let mut k = object! {}; check(same(&k, &V::Obj(vec![])), 2);
    for (n, v) in [(&a, num(1)), (&b, num(2)), (&c, num(3))] { check(k.append(n, v).is_ok(), 3); }
    check(eq(&k, &object! { &a => 1, &b => 2, &c => 3 }), 4);
}
fn built_steps() {
    let (a, b, c, d) = (word(1), word(1), word(1), word(1)); let x = bits(64); let f = f64::from_bits(bits(64)); let s = ascii_text(2); assume(!f.is_nan());
    let j = object! { &a => x, &b => s.as_str(), &c => f, &d => vec![1u8, 2], &a => true };
    let mut k = Json::Object(Map::new());
    add(k_map(&mut k), &a, Json::Number(x as f64)); add(k_map(&mut k), &b, Json::String(s.clone())); add(k_map(&mut k), &c, Json::Number(f)); add(k_map(&mut k), &d, Json::Array(vec![num(1), num(2)])); add(k_map(&mut k), &a, Json::Boolean(true));
    check(eq(&j, &k), 1); reach(1);
    let l = array![x, s.clone(), f, object! { &a => 1 }, array![], None::<bool>, true, -1i8, &*b, array![array![1], "x"],];
    let mut q = Json::Array(vec![]);
    let mut o = Map::new(); add(&mut o, &a, num(1));
    for e in [Json::Number(x as f64), Json::String(s.clone()), Json::Number(f), Json::Object(o), Json::Array(vec![]), Json::Null, Json::Boolean(true), Json::Number(-1.0), Json::String(b.clone()), Json::Array(vec![Json::Array(vec![num(1)]), Json::String("x".into())])] { check(q.push(e).is_ok(), 2); }
    check(eq(&l, &q), 3); check(eq(&array![], &Json::Array(vec![])), 4);
}
fn k_map(j: &mut Json) -> &mut Map { match j { Json::Object(m) => m, _ => unreachable!() } }
/// longer typed paths, made of symbolic keys
fn deep_path(len: u32) {
    let ks: Vec<String> = (0..len).map(|_| word(1)).collect(); let mut p = Path::new(&ks[0]); let mut c = vec![C::Key(key(&ks[0]))]; let mut t = ks[0].clone();
    for k in &ks[1..] { p.append(0).append(k); c.push(C::Idx(0)); c.push(C::Key(key(k))); t.push_str(".#0."); t.push_str(k); }
    let mut d = doc(2); let mut a = build(&d); let mut b = build(&d); note(&t);
    m::set(&mut d, &c, &n(1)); check(a.update(p, 1u8).is_ok() && b.set(&t, 1u8).is_ok(), 1); check(same(&a, &d), 2); check(same(&b, &d), 3); reach(1);
}

crate::harnesses! {
    h_p13_e3 = seq(0, 3, 3);
    h_p13_e4 = seq(0, 4, 3);
    h_p13_d3 = seq(1, 3, 5);
    h_p13_d4 = seq(1, 4, 5);
    h_p13_d5_t = seq(1, 5, 5);
    h_p13_e5 = seq(0, 5, 3);
    h_p13_e6_t = seq(0, 6, 3);
    h_p13_big = seq(2, 2, 3);
    h_p13_grow = seq(3, 2, 3);
    h_p13_big3 = seq(2, 3, 3);
    h_p13_grow3 = seq(3, 3, 3);
    h_p13_grow4_t = seq(3, 4, 3);
    h_p13_vals = seq(4, 2, 5);
    h_p13_t1 = seq_text(ascii_text(1), ascii_text(1));
    h_p13_t2 = seq_text(ascii_text(2), ascii_text(2));
    h_p13_t0 = seq_text(String::new(), ascii_text(1));
    h_p13_tu = seq_text(any_text(1), "a".to_string());
    h_p13_one = one_key(6);
    h_p13_one8_t = one_key(9);
    h_p13_k1 = seq_kinds(vobj(1, 3, 0), 1);
    h_p13_k2 = seq_kinds(vobj(1, 1, 0), 2);
    h_p13_k3_t = seq_kinds(vobj(1, 1, 0), 3);
    h_p13_kh = seq_kinds(vhist(2 + choice(3)), 1);
    h_p13_not = not_object();
    h_p13_keys = key_types();

    h_p14_e3 = aseq(0, 3);
    h_p14_e4 = aseq(0, 4);
    h_p14_d3 = aseq(1, 3);
    h_p14_s3 = aseq(2, 3);
    h_p14_l2 = aseq(3, 2);
    h_p14_d4 = aseq(1, 4);
    h_p14_d5_t = aseq(1, 5);
    h_p14_e5 = aseq(0, 5);
    h_p14_e6_t = aseq(0, 6);
    h_p14_l3 = aseq(3, 3);
    h_p14_l4_t = aseq(3, 4);
    h_p14_e7_t = aseq(0, 7);
    h_p14_long = along(40);
    h_p14_k1 = aseq_kinds(V::Arr((0..choice(4)).map(|_| leaf()).collect()), 1);
    h_p14_k2 = aseq_kinds(V::Arr((0..choice(3)).map(|_| leaf()).collect()), 2);
    h_p14_not = not_array();

    h_p17_k1 = indexed(any_doc(), K::S(ascii_text(1)));
    h_p17_k2 = indexed(any_doc(), K::S(ascii_text(2)));
    h_p17_k0 = indexed(any_doc(), K::S(String::new()));
    h_p17_k3 = indexed(doc(choice(3)), K::S(ascii_text(3)));
    h_p17_k4 = indexed(doc(0), K::S(ascii_text(4)));
    h_p17_ku = indexed(doc(0), K::S(any_text(1)));
    h_p17_i = indexed(any_doc(), K::I(idx(13)));
    h_p17_dig = indexed(doc(9), match choice(6) { 0 => K::I(idx(13)), 1 => K::S("0".into()), 2 => K::S("#0".into()), 3 => K::S("1.0".into()), 4 => K::I(usize::MAX), _ => K::S(tpl("?0")) });
    h_p17_v1 = indexed(vtree(1, 3, 0), comp_menu());
    h_p17_v2 = indexed(vtree(2, 2, 1), comp_menu());
    h_p17_hist = indexed(vhist(1 + choice(4)), K::S("a".to_string()));
    h_p17_two = indexed2();

    h_p18_c1 = agree(any_doc(), comps(1));
    h_p18_c2 = agree(doc(choice(3)), comps(2));
    h_p18_c3 = agree(doc(choice(3)), comps(3));
    h_p18_c4 = agree(doc(choice(3)), comps(4));
    h_p18_c5_t = agree(doc(choice(3)), comps(5));
    h_p18_dig = agree(doc(9), match choice(7) { 0 => vec![K::I(0)], 1 => vec![K::S("0".into())], 2 => vec![K::S("0".into()), K::I(1)], 3 => vec![K::I(1), K::I(0)], 4 => vec![K::S("0".into()), K::S("1".into()), K::I(1), K::S("0".into())], 5 => vec![K::S(tpl("?"))], _ => vec![K::S(tpl("0")), K::S(tpl("?")), K::I(1), K::I(0)] });
    h_p18_k1 = agree(doc(choice(2)), vec![K::S(ascii_text(1))]);
    h_p18_k2 = agree(doc(0), vec![K::S(ascii_text(2))]);
    h_p18_k11 = agree(doc(choice(3)), vec![K::S(ascii_text(1)), K::S(ascii_text(1))]);
    h_p18_ki = agree(doc(choice(3)), vec![K::S(ascii_text(1)), K::I(choice(4) as usize), K::S(ascii_text(1))]);
    h_p18_ku = agree(doc(0), vec![K::S(any_text(1)), K::I(1)]);
    h_p18_mac = macros1();
    h_p18_v1 = agree(vtree(1, 2, 0), comps2());
    h_p18_v2 = agree(vtree(2, 2, 1), comps2());
    h_p18_hist = agree(vhist(1 + choice(4)), comps2());
    h_p18_mv1 = macros2(vtree(1, 3, 0));
    h_p18_mv2 = macros2(vtree(2, 2, 1));
    h_p18_mh = macros2(vhist(1 + choice(4)));
    h_p18_mv2_t = macros2(vtree(2, 2, 2));
    h_p18_t1 = typed_key(ascii_text(1));
    h_p18_t2 = typed_key(ascii_text(2));
    h_p18_t3 = typed_key(ascii_text(3));
    h_p18_t4 = typed_key(ascii_text(4));
    h_p18_tu = typed_key(any_text(1));
    h_p18_obj = built_object(0);
    h_p18_obj3 = built_object(1);
    h_p18_steps = built_steps();
    h_p18_deep3 = deep_path(3);
    h_p18_deep5 = deep_path(5);
}
