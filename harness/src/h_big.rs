//! Large inputs: sizes at which counters, buffers and tables change, with a few free characters each
use crate::gen::*;
use crate::h_ops as o;
use crate::h_parse as p;
use crate::h_path as pa;
use crate::h_ser as s;
use crate::h_typed as t;
use crate::model::{self as m, C};
use crate::reference::V;
use json::{Json, Path};
use std::collections::HashMap;
use sym::*;

const SIZES: &[usize] = &[100, 128, 129, 255, 256, 257, 300];
const MORE: &[usize] = &[512, 1000, 1025];
const LONG: &[usize] = &[1000, 1023, 1024, 1025, 4096, 4097, 8193];
fn one(l: &[usize]) -> usize { l[choice(l.len() as u32) as usize] }
fn n(i: usize) -> V { V::Num(i.to_string().into_bytes()) }
fn key(k: &str) -> Vec<u8> { k.as_bytes().to_vec() }

// ---- texts
fn t_arr(n: usize) -> String { let mut s = String::from("["); for i in 0..n { if i == n / 2 { s.push_str("?,"); } s.push((b'0' + (i % 10) as u8) as char); s.push_str(", "); } s.push_str("\"?\"]"); tpl(&s) }
fn t_arrs(n: usize) -> String { let mut s = String::from("["); for i in 0..n { s.push_str(["[],", "{},", "\"\",", "null,", "[1 ],", "true ,", "{\"a\":-0.5},"][i % 7]); } s.push_str("?]"); tpl(&s) }
fn t_obj(n: usize) -> String { let mut s = String::from("{"); for i in 0..n { s.push_str(&format!("\"k{}\":{},", i, i)); } s.push_str("\"k?\": \"?\"}"); tpl(&s) }
fn t_dup(n: usize) -> String { let mut s = String::from("{"); for i in 0..n { s.push_str(&format!("\"{}\":{},", if i % 9 == 8 { "b" } else { "a" }, i)); } s.push_str("\"?\":\"?\"}"); tpl(&s) }
fn t_ws(n: usize) -> String { let b: String = (0..n).map(|i| [' ', '\n', '\t', '\r'][i % 4]).collect(); let f = b.clone() + "?" + &b; tpl(&match choice(3) { 0 => format!("{}[{}]{}", f, b, b), 1 => format!("{}[{}1{},{}2{}]{}", b, b, f, b, b, f), _ => format!("{{{}\"a\"{}:{}1{},{}\"b\":2{}}}", b, b, f, b, b, b) }) }
fn chars(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }
fn t_str(n: usize) -> String { let c = chars(n); tpl(&match choice(3) { 0 => format!("\"{}?\"", c), 1 => format!("[\"{}\",\"?{}\"]", c, c), _ => format!("{{\"{}?\":\"?\",\"{}\":1}}", c, c) }) }
fn t_lit(n: usize) -> String { tpl(&format!("\"{}{}?\"", chars(n), ["?", "\\u^^^^", "~", "\\u^^^^", "\\?"][choice(5) as usize])) }
fn t_escs(n: usize) -> String { let mut s = String::from("\""); for i in 0..n { s.push_str(["\\n", "\\u00e9", "\\\\", "\\\"", "\u{e9}", "\\ud83d\\ude00", "x", "\\/"][i % 8]); } s.push_str("?\""); tpl(&s) }
fn t_deep(n: usize) -> String { match choice(3) { 0 => tpl(&wrap("[", n, "?", "]")), 1 => tpl(&wrap("{\"a\":", n, "?", "}")), _ => tpl(&wrap("[{\"b\": ", n / 2, "\"?\"", ", \"b\": 0}, 1]")) } }
fn t_num(n: usize) -> String { let d: String = (0..n).map(|i| (b'1' + (i % 9) as u8) as char).collect(); let z = "0".repeat(n); tpl(&match choice(6) { 0 => format!("{}@", d), 1 => format!("-1.{}@1", d), 2 => format!("0.{}1@5", z), 3 => format!("1{}e-{}", z, n), 4 => format!("1e{}@", z), _ => format!("{}.{}@$", d, d) }) }
fn t_numc() -> String { let z = |n| "0".repeat(n); let d: String = (0..300).map(|i| (b'1' + (i % 9) as u8) as char).collect(); match choice(8) { 0 => format!("1{}e-300", z(300)), 1 => format!("0.{}1e310", z(309)), 2 => d[..300].to_string(), 3 => format!("0.{}", d), 4 => format!("1e{}5", z(300)), 5 => format!("-1e-{}5", z(300)), 6 => format!("1{}", z(400)), _ => format!("0.{}1", z(400)) } }

// ---- values
fn v_obj(n: usize) -> Json { let mut m = Map::new(); for i in 0..n { let k = format!("k{}", (i * 7) % n); add(&mut m, &k, num(i as u64)); } let mut k = String::from("k1"); k.push_str(&ascii_text(1)); add(&mut m, &k, Json::String(ascii_text(1))); Json::Object(m) }
fn v_dup(n: usize) -> Json { let mut m = Map::new(); for i in 0..n { add(&mut m, if i % 9 == 8 { "b" } else { "a" }, num(i as u64)); } add(&mut m, &word(1), Json::String(ascii_text(1))); Json::Object(m) }
fn v_arr(n: usize) -> Json { let mut l: Vec<Json> = (0..n).map(|i| match i % 5 { 0 => Json::Null, 1 => num(i as u64), 2 => Json::String(String::new()), 3 => Json::Array(vec![]), _ => Json::Boolean(i % 2 == 0) }).collect(); l[n / 2] = Json::String(ascii_text(1)); Json::Array(l) }
fn v_str(n: usize) -> Json { let mut t = chars(n); t.push_str(&any_text(1)); t.push('z'); match choice(2) { 0 => Json::String(t), _ => { let mut m = Map::new(); add(&mut m, &t, num(1)); add(&mut m, &chars(n), num(2)); Json::Object(m) } } }
fn v_uni(n: usize) -> Json { let mut t: String = (0..n).map(|i| ['\u{e9}', '"', '\u{1f600}', '\n', '\u{7f}', '\u{ffff}', '\\', 'x'][i % 8]).collect(); t.push_str(&any_text(1)); Json::String(t) }
fn v_deep(n: usize) -> Json { let mut j = Json::String(ascii_text(1)); let k = choice(2); for i in 0..n { j = if k == 0 || i % 2 == 0 { Json::Array(vec![j]) } else { let mut m = Map::new(); add(&mut m, "a", j); Json::Object(m) }; } j }

// ---- paths
/// a document n levels deep, and the path to its bottom
fn well(n: usize) -> (V, String) {
    let mut v = V::Obj(vec![(key("x"), V::Num(key("1"))), (key("y"), V::Num(key("2")))]); let mut p = String::new();
    for i in 0..n { v = if i % 2 == 0 { V::Arr(vec![V::Null, v]) } else { V::Obj(vec![(key("a"), V::Bool(true)), (key("b"), V::Null), (key("a"), v)]) }; }
    for i in (0..n).rev() { p.push_str(if i % 2 == 0 { "#1." } else { "a." }); }
    (v, p)
}
fn down(f: impl Fn(V, String)) { let (d, p) = well([16, 17, 32, 33, 64, 65, 128, 129, 200][choice(9) as usize]); f(d, tpl(&(p + "?"))) }
/// more of the path than the document
fn beyond(f: impl Fn(V, String)) { let (d, p) = well([2, 31][choice(2) as usize]); f(d, tpl(&(p + "?.#0.b.c.#2.d.e.f.g.h.i.j.k.l.m.n.o.p"))) }
/// positions in long lists
fn wide(f: impl Fn(V, String)) {
    let w = [256, 257, 300, 1000][choice(4) as usize]; let d = V::Obj(vec![(key("l"), V::Arr((0..w).map(n).collect()))]);
    let i = [0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 299, 300, 999, 1000, 65535, 65536, 65537][choice(18) as usize]; f(d, format!("l.#{}", i))
}
/// positions far past the end
fn far(f: impl Fn(V, String)) { let d = match choice(5) { 0 => V::Null, 1 => V::Arr(vec![]), 2 => V::Arr(vec![n(1)]), 3 => V::Obj(vec![(key("a"), V::Arr(vec![n(1), n(2)]))]), _ => V::Arr((0..300).map(n).collect()) };
    let i = [31, 32, 33, 63, 64, 127, 255, 256, 257, 400, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1999][choice(21) as usize]; f(d, match choice(2) { 0 => format!("#{}", i), _ => format!("a.#{}.b", i) }) }
fn wide_hole(f: impl Fn(V, String)) { let d = V::Arr((0..300).map(n).collect()); f(d, tpl(["#25?", "#?5", "#29?", "#1?8", "#?00", "#?"][choice(6) as usize])) }
/// long keys, equal but for one character
fn longkey(f: impl Fn(V, String)) {
    let c = chars([30, 63, 64, 255, 256, 300][choice(6) as usize]); let mut l: Vec<(Vec<u8>, V)> = vec![(key(&c), n(0))]; for x in ["a", "b", "."] { l.push((key(&(c.clone() + x)), n(1))); } l.push((key(&c[1..]), n(2)));
    f(V::Obj(vec![(key(&c), V::Obj(l))]), tpl(&match choice(3) { 0 => format!("{}.{}?", c, c), 1 => format!("{}.{}?.a", c, c), _ => format!("{}.?{}", c, &c[1..]) }))
}
/// many members
fn crowd(f: impl Fn(V, String)) { let w = [100, 130, 257][choice(3) as usize]; let d = V::Obj((0..w).map(|i| (key(&format!("k{}", i)), V::Arr(vec![n(i)]))).chain((0..20).map(|i| (key("k7"), n(1000 + i)))).collect()); f(d, tpl("k?.#0")) }
fn crowd2(f: impl Fn(V, String)) { let w = [100, 257][choice(2) as usize]; let d = V::Obj((0..w).map(|i| (key(&format!("k{}", i)), n(i))).collect()); f(d, tpl("k?$")) }

// ---- P13, P14
fn members(w: usize) -> Vec<(Vec<u8>, V)> { (0..w).map(|i| (key(&format!("k{}", i)), n(i))).collect() }
fn objects(ops: u32) { let w = [27, 28, 29, 56, 57, 112, 113, 224, 300][choice(9) as usize]; let mut l = members(w); let mut j = build(&V::Obj(l.clone()));
    for i in 0..ops { let k = match choice(3) { 0 => "k0".to_string(), 1 => format!("k{}", w - 1), _ => { let mut k = String::from("k"); k.push_str(&ascii_text(1)); k } }; let c = choice(3); o::op(&mut j, &mut l, c, &k, n(2000 + i as usize)); }
    check(same(&j, &V::Obj(l)), 20); reach(1); }
/// many values of one key, then one more operation
fn queue() { let w = [16, 17, 64, 65, 100, 255, 256, 257, 300][choice(9) as usize]; let k = word(1); let mut l = vec![]; let mut j = Json::Object(Map::new());
    for i in 0..w { let _ = j.append("a", i as u32); l.push((key("a"), n(i))); } let c = choice(5); o::op(&mut j, &mut l, c, &k, n(2000)); check(same(&j, &V::Obj(l.clone())), 20); o::look(&j, &l, "a"); o::look(&j, &l, &k); reach(1); }
/// a list built by pushing, then an operation at any position
fn pushes() { let w = one(&[64, 65, 255, 256, 257, 300, 1000, 1025]); let mut j = Json::Array(vec![]); for i in 0..w { let _ = j.push(i as u32); } o::along_with(j, (0..w).map(n).collect(), [0, 1, w / 2, w - 2, w - 1, w, w + 1, w + 256, w + 65536][choice(9) as usize]) }
fn along_at(w: usize) { let l: Vec<V> = (0..w).map(n).collect(); let i = [0, 1, 254, 255, 256, 257, w / 2, w - 1, w, w + 256][choice(10) as usize]; o::along_with(build(&V::Arr(l.clone())), l, i) }
fn huge() { const W: usize = 70000; let mut j = Json::Array(vec![Json::Null; W]); let i = [65535, 65536, 65537, W - 1, W, 4][choice(6) as usize]; let c = choice(3);
    let r = match c { 0 => j.replace(i, 7u8).is_ok(), 1 => j.remove(i).is_ok(), _ => { let r = j.push(7u8).is_ok(); check(r, 1); i < W } }; check(r == (i < W), 2);
    let want = if c == 2 { W + 1 } else if c == 1 && i < W { W - 1 } else { W }; let at = if c == 0 && i < W { Some(i) } else if c == 2 { Some(W) } else { None };
    match &j { Json::Array(l) => { check(l.len() == want, 3); for k in 0..l.len() { match &l[k] { Json::Null => check(at != Some(k), 4), Json::Number(f) => check(at == Some(k) && *f == 7.0, 5), _ => check(false, 6) } } } _ => check(false, 7) } reach(1);
    match j.find(i) { Ok(_) => check(i < want, 8), Err(_) => check(i >= want, 9) } }
// ---- P17, P18
fn idx_wide() { let w = one(&[256, 257, 300, 1000]); let d = V::Arr((0..w).map(n).collect()); o::indexed(d, o::K::I([0, 127, 128, 255, 256, 299, 300, 999, 1000, 65536, 65535, 65537][choice(12) as usize])) }
fn idx_crowd() { let w = one(&[100, 257]); let d = V::Obj(members(w)); let mut k = String::from("k"); k.push_str(&ascii_text(1)); k.push_str(["", "9"][choice(2) as usize]); o::indexed(d, o::K::S(k)) }
fn idx_key() { let c = chars(one(&[63, 64, 255, 256, 300])); let d = V::Obj(vec![(key(&c), n(1)), (key(&(c.clone() + "a")), n(2)), (key(&c[1..]), n(3))]); let mut k = c.clone(); match choice(2) { 0 => k.push_str(&ascii_text(1)), _ => { k = ascii_text(1); k.push_str(&c[1..]) } } o::indexed(d, o::K::S(k)) }
/// typed and text paths down a deep document
fn typed_down() {
    let w = [8, 16, 17, 33, 65, 129][choice(6) as usize]; let (mut d, p) = well(w); let k = word(1); let mut c = vec![]; let mut q: Option<Path> = None; let mut push = |x: C| { q = Some(match q.take() { None => match &x { C::Idx(i) => Path::new(*i), C::Key(k) => Path::new(&string(k.clone())) }, Some(mut q) => { match &x { C::Idx(i) => { q.append(*i); } C::Key(k) => { q.append(&string(k.clone())); } } q } }); c.push(x); };
    for i in (0..w).rev() { push(if i % 2 == 0 { C::Idx(1) } else { C::Key(key("a")) }); } push(C::Key(key(&k)));
    let q = q.unwrap(); let t = p + &k; note(&t); let mut a = build(&d); let mut b = build(&d); let there = m::get(&d, &c).is_some();
    match choice(3) {
        0 => match (a.find(q), b.get(&t)) { (Ok(x), Ok(y)) => check(there && eq(x, y), 1), (Err(_), Err(_)) => check(!there, 2), _ => check(false, 3) },
        1 => { check(a.update(q, 5u8).is_ok() && b.set(&t, 5u8).is_ok(), 4); m::set(&mut d, &c, &n(5)); }
        _ => match (a.discard(q), b.del(&t)) { (Ok(x), Ok(y)) => { check(there && eq(&x, &y), 5); m::del(&mut d, &c); } (Err(_), Err(_)) => check(!there, 6), _ => check(false, 7) } }
    check(same(&a, &d), 8); check(same(&b, &d), 9); reach(1);
}
// ---- P07, P08, P20
fn trips() { let w = one(SIZES); match choice(6) {
    0 => t::trip((0..w).map(|i| i % 3 == 0).collect::<Vec<bool>>()), 1 => { let mut l: Vec<String> = (0..w).map(|i| chars(i % 5)).collect(); l[w / 2] = ascii_text(1); t::trip(l) }
    2 => { let mut h: HashMap<String, bool> = (0..w).map(|i| (format!("k{}", i), i % 2 == 0)).collect(); h.insert(word(1), flag()); t::trip(h) }
    3 => { let mut l: Vec<(String, bool)> = (0..w).map(|i| (format!("k{}", i % 23), i % 2 == 0)).collect(); l.push((word(1), flag())); t::trip(t::Pairs(l)) }
    4 => { let mut c = chars(w * 4); c.push_str(&any_text(1)); t::trip(c) } _ => t::trip((0..w).map(|i| if i % 4 == 0 { None } else { Some(vec![word_at(i)]) }).collect::<Vec<_>>()) } }
fn word_at(i: usize) -> String { format!("w{}", i) }
fn holes() { let w = one(&[100, 257]); let at = [0, 1, 15, 16, 63, 64, 99, w - 1, w / 2][choice(9) as usize]; let g = if choice(2) == 0 { Json::Boolean(true) } else { Json::String(String::from("a")) }; let x = match choice(3) { 0 => g.clone(), 1 => Json::Null, _ => num(1) };
    let j = if choice(2) == 0 { Json::Array((0..w).map(|i| if i == at { x.clone() } else { g.clone() }).collect()) } else { let mut m = Map::new(); for i in 0..w { add(&mut m, &format!("k{}", i), if i == at { x.clone() } else { g.clone() }); } Json::Object(m) };
    t::comps(&j) }
fn pairs_of(n: usize, keys: usize) -> Vec<(Vec<u8>, V)> { (0..n).map(|i| (if i == n / 2 { word(1).into_bytes() } else { format!("k{}", i % keys).into_bytes() }, V::Num((i as u8).to_string().into_bytes()))).collect() }

crate::harnesses! {
    h_p01_barr = p::accept(t_arr(one(SIZES)));
    h_p01_barrs = p::accept(t_arrs(one(SIZES)));
    h_p01_barr2 = p::accept(t_arr(one(MORE)));
    h_p01_bobj = p::accept(t_obj(one(SIZES)));
    h_p01_bdup = p::accept(t_dup(one(SIZES)));
    h_p01_bws = p::accept(t_ws(one(SIZES)));
    h_p01_bstr = p::accept(t_str(one(SIZES)));
    h_p01_blong = p::accept(t_str(one(LONG)));
    h_p01_bdeep = p::accept(t_deep(one(&[301, 400])));
    h_p01_bnum = p::accept(t_num(one(SIZES)));
    h_p02_bs = p::literal(t_lit(one(SIZES)));
    h_p02_bin = p::literal_in(t_lit(one(&[255, 300])));
    h_p02_bl = p::literal(t_lit(one(LONG)));
    h_p02_bx = p::literal(tpl(&format!("\"{}{}?\"", chars(66000), ["?", "\\u00^^", "~"][choice(3) as usize])));
    h_p02_be = p::literal(t_escs(one(SIZES)));
    h_p03_barr = p::structure(t_arr(one(SIZES)));
    h_p03_barrs = p::structure(t_arrs(one(SIZES)));
    h_p03_barr2 = p::structure(t_arr(one(MORE)));
    h_p03_bobj = p::structure(t_obj(one(SIZES)));
    h_p03_bdup = p::structure(t_dup(one(SIZES)));
    h_p03_bws = p::structure(t_ws(one(SIZES)));
    h_p03_bstr = p::structure(t_str(one(SIZES)));
    h_p03_bdeep = p::structure(t_deep(one(&[301, 400])));
    h_p04_bnum = p::number(t_num(one(SIZES)));
    h_p04_bnum4 = p::number(t_num(400));
    h_p04_bc = p::number_precise(t_numc());
    h_p05_bobj = s::form(v_obj(one(&[100, 257])));
    h_p05_bdup = s::form(v_dup(one(SIZES)));
    h_p05_barr = s::form(v_arr(one(SIZES)));
    h_p05_barr2 = s::form(v_arr(one(MORE)));
    h_p05_bstr = s::form(v_str(one(SIZES)));
    h_p05_blong = s::form(v_str(one(LONG)));
    h_p05_buni = s::form(v_uni(one(SIZES)));
    h_p05_bdeep = s::form(v_deep(one(SIZES)));
    h_p06_bobj = s::round(v_obj(one(&[100, 257])));
    h_p06_bdup = s::round(v_dup(one(SIZES)));
    h_p06_barr = s::round(v_arr(one(SIZES)));
    h_p06_barr2 = s::round(v_arr(one(MORE)));
    h_p06_bstr = s::round(v_str(one(SIZES)));
    h_p06_blong = s::round(v_str(one(LONG)));
    h_p06_buni = s::round(v_uni(one(SIZES)));
    h_p06_bdeep = s::round(v_deep(one(SIZES)));
    h_p07_big = trips();
    h_p08_big = holes();
    h_p09_down = down(pa::read);
    h_p09_beyond = beyond(pa::read);
    h_p09_wide = wide(pa::read);
    h_p09_wideh = wide_hole(pa::read);
    h_p09_long = longkey(pa::read);
    h_p09_crowd = crowd(pa::read);
    h_p09_crowd2 = crowd2(pa::read);
    h_p10_down = down(pa::write1);
    h_p10_beyond = beyond(pa::write1);
    h_p10_wide = wide(pa::write1);
    h_p10_far = far(pa::write1);
    h_p10_wideh = wide_hole(pa::write1);
    h_p10_long = longkey(pa::write1);
    h_p10_crowd = crowd(pa::write1);
    h_p10_crowd2 = crowd2(pa::write1);
    h_p11_down = down(pa::remove);
    h_p11_beyond = beyond(pa::remove);
    h_p11_wide = wide(pa::remove);
    h_p11_wideh = wide_hole(pa::remove);
    h_p11_long = longkey(pa::remove);
    h_p11_crowd = crowd(pa::remove);
    h_p11_crowd2 = crowd2(pa::remove);
    h_p12_mbig = { let w = one(&[63, 64, 255, 256, 300]); pa::key_made(tpl(&format!("?{}?{}.", chars(w), chars(w)))) };
    h_p12_lbig = { let w = one(&[64, 256, 300]); pa::key_last(tpl(&format!("?{}?", chars(w)))) };
    h_p12_ibig = { let w = one(&[64, 256, 300]); pa::key_inner(tpl(&format!("?{}?", chars(w)))) };
    h_p12_dots = { let w = one(&[16, 17, 64, 65, 256]); pa::key_made(tpl(&format!("{}?", ".".repeat(w)))) };
    h_p12_slashes = { let w = one(&[3, 16, 65, 256]); pa::key_last(tpl(&format!("{}?{}", "\\".repeat(w), "\\.".repeat(w)))) };
    h_p13_bobj = objects(1);
    h_p13_bobj2 = objects(2);
    h_p13_queue = queue();
    h_p14_push = pushes();
    h_p14_at = along_at(one(&[255, 256, 257, 300, 1000, 1025]));
    h_p14_huge = huge();
    h_p17_wide = idx_wide();
    h_p17_crowd = idx_crowd();
    h_p17_key = idx_key();
    h_p18_down = typed_down();
    h_p20_big = t::as_pairs(pairs_of(one(SIZES), 23));
    h_p20_big1 = t::as_pairs(pairs_of(one(SIZES), 1));
    h_p20_bigk = t::as_pairs(pairs_of(one(SIZES), 1000));
    h_p20_bige = t::encode_pairs_of({ let w = one(SIZES); (0..w).map(|i| (if i == w / 2 { word(1) } else { format!("k{}", i % 31) }, i as u8)).collect() });
}
