//! P21 errors, P22 equality and cloning, P23 entry points
use crate::gen::*;
use crate::h_path::{doc, IDX};
use crate::model::{self as m, C};
use crate::reference::V;
use json::{Error, ErrorKind, Json, Path, ToJson};
use sym::*;

// ---- P21
fn name(k: &ErrorKind) -> &'static str { match k { ErrorKind::InvalidJson => "InvalidJson", ErrorKind::ParseObjectError => "ParseObjectError", ErrorKind::ParseArrayError => "ParseArrayError", ErrorKind::ParseStringError => "ParseStringError", ErrorKind::ParseNumberError => "ParseNumberError", ErrorKind::ParseBooleanError => "ParseBooleanError", ErrorKind::ParseNullError => "ParseNullError", ErrorKind::MissingKey => "MissingKey", ErrorKind::IndexOutOfRange => "IndexOutOfRange", ErrorKind::InvalidValueKind => "InvalidValueKind", ErrorKind::PathSyntaxError => "PathSyntaxError", ErrorKind::ConvertError => "ConvertError" } }
/// the error's own text starts with the name of its kind
fn told(e: &Error, id: u32) { let t = e.to_string(); let k = name(&e.kind); check(t.len() >= k.len() && &t.as_bytes()[..k.len()] == k.as_bytes(), id); check(e.kind.to_string() == k, id + 1) }
fn of_parsing(e: &Error) -> bool { matches!(e.kind, ErrorKind::InvalidJson | ErrorKind::ParseObjectError | ErrorKind::ParseArrayError | ErrorKind::ParseStringError | ErrorKind::ParseNumberError | ErrorKind::ParseBooleanError | ErrorKind::ParseNullError) }
pub fn parsing(s: String) {
    note(&s);
    let e = match Json::parse(&s) { Ok(_) => return reach(1), Err(e) => e };
    reach(2); check(of_parsing(&e), 1); told(&e, 2);
    // outside arrays and objects the first character tells what was being read
    let first = s.bytes().find(|b| !matches!(b, b' ' | b'\t' | b'\n' | b'\r'));
    let behind = matches!(e.kind, ErrorKind::InvalidJson) && !matches!(first, Some(b'[') | Some(b'{')) && (1..s.len()).any(|i| s.is_char_boundary(i) && crate::reference::read(s[..i].as_bytes()).is_some());
    check(behind || match first { Some(b'[') | Some(b'{') => true, Some(b'"') => matches!(e.kind, ErrorKind::ParseStringError), Some(b'n') => matches!(e.kind, ErrorKind::ParseNullError), Some(b't') | Some(b'f') => matches!(e.kind, ErrorKind::ParseBooleanError), Some(b'-') | Some(b'0'..=b'9') => matches!(e.kind, ErrorKind::ParseNumberError), _ => matches!(e.kind, ErrorKind::InvalidJson) }, 9);
    // whatever is wanted of a text that does not parse
    match choice(5) { 0 => check(matches!(json::decode::<bool>(&s), Err(e) if of_parsing(&e)), 4), 1 => check(matches!(json::get::<bool>(&s, "a.#"), Err(e) if of_parsing(&e)), 5), 2 => check(matches!(json::set(&s, "a", 1u8), Err(e) if of_parsing(&e)), 6), 3 => check(matches!(json::del(&s, "#9"), Err(e) if of_parsing(&e)), 7), _ => check(matches!(s.parse::<Json>(), Err(e) if of_parsing(&e)), 8) }
}
#[derive(Clone, Copy, PartialEq)]
enum Why { Key, Index, Kind }
/// why the path denotes nothing: what its first component without a place is like
fn why(v: &V, c: &[C]) -> Option<Why> {
    let mut v = v;
    for x in c { v = match (v, x) { (V::Obj(_), C::Key(_)) => match m::get(v, std::slice::from_ref(x)) { Some(v) => v, None => return Some(Why::Key) }, (V::Arr(_), C::Idx(_)) => match m::get(v, std::slice::from_ref(x)) { Some(v) => v, None => return Some(Why::Index) }, _ => return Some(Why::Kind) } }
    None
}
fn is(e: &Error, w: Why) -> bool { match w { Why::Key => matches!(e.kind, ErrorKind::MissingKey), Why::Index => matches!(e.kind, ErrorKind::IndexOutOfRange), Why::Kind => matches!(e.kind, ErrorKind::InvalidValueKind) } }
fn syntax(e: &Error) -> bool { matches!(e.kind, ErrorKind::PathSyntaxError) }
pub fn following(d: V, p: String) {
    note(&p); let mut j = build(&d);
    match m::path(p.as_bytes()) {
        None => { reach(1);
            match choice(4) { 0 => match j.get(&p) { Err(e) => { check(syntax(&e), 1); told(&e, 2) } Ok(_) => check(false, 4) }, 1 => check(matches!(j.del(&p), Err(e) if syntax(&e)), 5), 2 => check(matches!(j.set(&p, true), Err(e) if syntax(&e)), 6), _ => { let mut t = vec![]; m::show(&d, &mut t); let t = string(t); check(matches!(json::get::<Json>(&t, &p), Err(e) if syntax(&e)), 7) } } }
        Some(c) => { let w = match why(&d, &c) { None => return reach(5), Some(w) => w }; reach(match w { Why::Key => 2, Why::Index => 3, Why::Kind => 4 });
            match choice(6) {
                0 => match j.get(&p) { Err(e) => { check(is(&e, w), 11); told(&e, 12) } Ok(_) => check(false, 14) },
                1 => check(matches!(j.del(&p), Err(e) if is(&e, w)), 15),
                2 => { let mut t = vec![]; m::show(&d, &mut t); let t = string(t); check(matches!(json::get::<Json>(&t, &p), Err(e) if is(&e, w)), 16); check(matches!(json::del(&t, &p), Err(e) if is(&e, w)), 17) }
                3 => check(matches!(j.find(typed(&c)), Err(e) if is(&e, w)), 18),
                4 => check(matches!(j.find_mut(typed(&c)), Err(e) if is(&e, w)), 19),
                _ => check(matches!(j.discard(typed(&c)), Err(e) if is(&e, w)), 20),
            } }
    }
    check(same(&j, &d), 9);
}
fn typed(c: &[C]) -> Path { let mut p = one(&c[0]); for x in &c[1..] { match x { C::Key(k) => { p.append(&string(k.clone())); } C::Idx(i) => { p.append(*i); } } } p }
fn one(c: &C) -> Path { match c { C::Key(k) => Path::new(string(k.clone())), C::Idx(i) => Path::new(*i) } }
/// the operations on objects and arrays
fn operating(d: V) {
    let mut j = build(&d); let obj = matches!(d, V::Obj(_)); let len = match &d { V::Arr(l) => Some(l.len()), _ => None };
    let k = ["a", "b", "c"][choice(3) as usize]; let i = bits(64) as usize;
    let kind = |e: Error| matches!(e.kind, ErrorKind::InvalidValueKind);
    match choice(7) {
        0 => if !obj { reach(1); check(j.insert(k, 1u8).err().map_or(false, kind), 1) } else { return },
        1 => if !obj { check(j.append(k, 1u8).err().map_or(false, kind), 2) } else { return },
        2 => if !obj { check(j.delete(k).err().map_or(false, kind), 3) } else { return },
        3 => if len.is_none() { reach(2); check(j.push(1u8).err().map_or(false, kind), 4) } else { return },
        4 => match j.index_and_merge(k) { Ok(_) => check(m::get(&d, &[C::Key(k.into())]).is_some(), 5), Err(e) => { reach(3); told(&e, 11); check(if obj { matches!(e.kind, ErrorKind::MissingKey) && m::get(&d, &[C::Key(k.into())]).is_none() } else { kind(e) }, 6) } },
        5 => match len { None => check(j.replace(i, 1u8).err().map_or(false, kind), 7), Some(n) => { assume(i >= n); reach(4); check(matches!(j.replace(i, 1u8), Err(e) if matches!(e.kind, ErrorKind::IndexOutOfRange)), 8) } },
        _ => match len { None => check(j.remove(i).err().map_or(false, kind), 9), Some(n) => { assume(i >= n); check(matches!(j.remove(i), Err(e) if matches!(e.kind, ErrorKind::IndexOutOfRange)), 10) } },
    }
    check(same(&j, &d), 20);
}
/// a text that parses and holds something else than is wanted
fn converting() {
    let d = vtree(1, 2, 0); let mut t = vec![]; m::show(&d, &mut t); let t = string(t); note(&t);
    fn conv<T>(r: Result<T, Error>) { match r { Ok(_) => reach(1), Err(e) => { reach(2); check(matches!(e.kind, ErrorKind::ConvertError), 1); told(&e, 2) } } }
    match choice(8) { 0 => conv(json::decode::<bool>(&t)), 1 => conv(json::decode::<String>(&t)), 2 => conv(json::decode::<Vec<bool>>(&t)), 3 => conv(json::decode::<std::collections::HashMap<String, u8>>(&t)), 4 => conv(json::decode::<Vec<(u8, bool)>>(&t)), 5 => conv(json::decode::<Option<String>>(&t)), 6 => conv(json::decode::<i128>(&t)), _ => { let p = ["a", "#0", "b"][choice(3) as usize]; if let Err(e) = json::get::<String>(&t, p) { reach(3); let there = m::get(&d, &m::path(p.as_bytes()).unwrap()).is_some(); check(matches!(e.kind, ErrorKind::ConvertError) == there, 4) } } }
}

// ---- P22
pub fn equal(a: Json, b: Json) {
    let w = eq(&a, &b); let (x, y) = (a == b, a != b); check(x == w, 1); check(y == !w, 2); check((b == a) == w, 3); observe(size(&a) * 1000 + size(&b));
    if w { reach(1) } else { reach(2) }
}
/// the same inside something else
fn equal_in(a: Json, b: Json) {
    let w = eq(&a, &b); let (x, y) = match choice(3) { 0 => (Json::Array(vec![num(1), a]), Json::Array(vec![num(1), b])), 1 => (obj(&[("k", a), ("k", num(2)), ("l", Json::Null)]), obj(&[("k", b), ("l", Json::Null), ("k", num(2))])), _ => (obj(&[("l", Json::Null), ("k", a)]), obj(&[("k", b), ("l", Json::Null)])) };
    check((x == y) == w, 1); check(x != Json::Null && x == x.clone() || has_nan(&x), 2); if w { reach(1) } else { reach(2) }
}
fn has_nan(j: &Json) -> bool { match j { Json::Number(f) => f.is_nan(), Json::Array(l) => l.iter().any(has_nan), Json::Object(m) => m.values().any(|(c, p)| has_nan(c) || p.iter().any(has_nan)), _ => false } }
fn obj(l: &[(&str, Json)]) -> Json { let mut m = Map::new(); for (k, v) in l { add(&mut m, k, v.clone()); } Json::Object(m) }

fn leafs() -> Json { match choice(7) { 0 => Json::Null, 1 => Json::Boolean(flag()), 2 => Json::Number(any_f64()), 3 => Json::String(ascii_text(1)), 4 => Json::String(String::new()), 5 => Json::Array(vec![]), _ => Json::Object(Map::new()) } }
fn hist() -> V { let n = 1 + choice(3); V::Obj((0..n).map(|_| (["a", "b"][choice(2) as usize].as_bytes().to_vec(), [V::Null, V::Bool(true), V::Num(b"1".to_vec())][choice(3) as usize].clone())).collect()) }
/// equal whatever the order in which the members came and whatever else was there before
fn layouts() {
    let ks = [word(1), word(1), word(1)]; let mut a = Json::Object(Map::new()); for (i, k) in ks.iter().enumerate() { let _ = a.append(k, i as u8); }
    let mut b = Json::Object(Map::with_capacity(40)); for i in 0..9u8 { let _ = b.append(format!("z{}", i), i); } let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choice(6) as usize];
    for i in o { let _ = b.append(&ks[i], i as u8); } for i in 0..9 { let _ = b.delete(&format!("z{}", i)); }
    equal(a, b)
}
/// a clone is equal, and from then on each goes its own way
pub fn cloned(d: V) {
    let j = build(&d); let mut c = j.clone(); check(same(&c, &d) && same(&j, &d), 1);
    let p = vpath(); let x = m::path(p.as_bytes()).unwrap();
    match choice(4) { 0 => { let _ = c.set(&p, 5u8); } 1 => { let _ = c.del(&p); } 2 => { if let Ok(v) = c.find_mut(typed(&x)) { *v = Json::Null } } _ => { let t: Json = c.to_json(); let u: Result<Json, _> = c.convert(); check(same(&t, &d) && u.map_or(false, |u| same(&u, &d)), 2); c = t; let _ = c.set("a", 1u8); } }
    check(same(&j, &d), 3); observe(size(&c)); reach(1);
}

// ---- P23
fn agree(a: Result<Json, Error>, b: Result<Json, Error>, id: u32) { match (a, b) { (Ok(a), Ok(b)) => { reach(1); check(eq(&a, &b), id) } (Err(_), Err(_)) => reach(2), _ => check(false, id + 1) } }
pub fn readers(t: String) {
    note(&t); let j = Json::parse(&t);
    match choice(4) { 0 => agree(t.parse::<Json>(), j, 1), 1 => agree(json::decode::<Json>(&t), j, 3), 2 => { let w = j.and_then(|j| j.convert::<Vec<Json>>()); match (json::decode::<Vec<Json>>(&t), w) { (Ok(a), Ok(b)) => check(a.len() == b.len() && (0..a.len()).all(|i| eq(&a[i], &b[i])), 5), (Err(_), Err(_)) => {} _ => check(false, 6) } } _ => { let w = j.and_then(|j| j.convert::<Option<bool>>()); match (json::decode::<Option<bool>>(&t), w) { (Ok(a), Ok(b)) => check(a == b, 7), (Err(_), Err(_)) => {} _ => check(false, 8) } } }
}
pub fn at_path(t: String, p: String) {
    note(&t); note(&p); if let Some(c) = m::path(p.as_bytes()) { assume(c.iter().all(|c| match c { C::Idx(i) => *i < 40, _ => true })) }
    let j = Json::parse(&t);
    match choice(4) {
        0 => agree(json::get::<Json>(&t, &p), j.and_then(|j| j.get(&p).map(|x| x.clone())), 1),
        1 => { let w = j.and_then(|mut j| { j.set(&p, "x")?; Ok(j.to_string()) }); texts(json::set(&t, &p, "x"), w, 3) }
        2 => { let w = j.and_then(|mut j| { j.set(&p, Json::Array(vec![Json::Null]))?; Ok(j.to_string()) }); texts(json::set(&t, &p, vec![None::<bool>]), w, 5) }
        _ => { let w = j.and_then(|mut j| { j.del(&p)?; Ok(j.to_string()) }); texts(json::del(&t, &p), w, 7) }
    }
}
fn texts(a: Result<String, Error>, b: Result<String, Error>, id: u32) { match (a, b) { (Ok(a), Ok(b)) => { reach(3); check(alike(&a, &b), id) } (Err(_), Err(_)) => reach(4), _ => check(false, id + 1) } }
/// the same text, up to the order of members
fn alike(a: &str, b: &str) -> bool { a == b || a.len() == b.len() && matches!((Json::parse(a), Json::parse(b)), (Ok(x), Ok(y)) if eq(&x, &y)) }
pub fn writers() {
    fn w<T: ToJson>(x: T) { let t = json::encode(&x); note(&t); check(alike(&t, &x.to_json().to_string()), 1); let j = x.to_json(); check(alike(&json::encode(&j), &t) && alike(&j.to_string(), &t), 2); reach(1) }
    match choice(9) { 0 => w(any_text(1)), 1 => w(flag()), 2 => w(vec![ascii_text(1), word(1)]), 3 => w(None::<u8>), 4 => w(vec![(word(1), flag()), (word(1), true)]), 5 => w(tree(2, 2, 1)), 6 => w(bits(8) as u8), 7 => { let mut h = std::collections::HashMap::new(); h.insert(word(1), 1u8); h.insert(word(1), 2); w(h) } _ => { let s = any_text(1); let t = json::encode(s.as_str()); check(t == Json::String(s.clone()).to_string(), 3); check(json::encode::<str>(&s) == t, 4) } }
}
const TEXTS: &[&str] = &["{\"a\": [1, {\"b\": null}], \"b\": \"\\u0041/\", \"a\": {\"a\": 2, \"#0\": [true]}}", " [ 1.50 , [ -0 , \"x\" ] , {\"a\":{}} ] ", "{\"a\":1,}", "[1 2]", "\"a\"", "", " null ", "{}", "[]"];

crate::harnesses! {
    h_p21_a3 = parsing(ascii_text(3));
    h_p21_a4 = parsing(ascii_text(4));
    h_p21_a5 = parsing(ascii_text(5));
    h_p21_a6_t = parsing(ascii_text(6));
    h_p21_u2 = parsing(any_text(2));
    h_p21_obj = parsing(tpl("{\"a\":[??],\"?\"?}"));
    h_p21_arr = parsing(tpl("[{\"a\"?1},?\"?,1]"));
    h_p21_esc = parsing(tpl("[\"\\u^^??\"]"));
    h_p21_num = parsing(tpl("[1,@@@@]"));
    h_p21_numh = parsing(["1e309", "[-1e999]", "{\"a\": 1e400}", "-", "1.", "1e"][choice(6) as usize].to_string());
    h_p21_p1 = following(doc(choice(9)), ascii_text(1));
    h_p21_p2 = following(doc(choice(9)), ascii_text(2));
    h_p21_p3 = following(doc(choice(3)), ascii_text(3));
    h_p21_p4_t = following(doc(choice(3)), ascii_text(4));
    h_p21_p0 = following(doc(choice(9)), String::new());
    h_p21_dig = following(doc(9), tpl(["?", "#?", "#?.#?", "0.1.#?.?", "0.?"][choice(5) as usize]));
    h_p21_b1 = following(doc(0), tpl("?.?.?"));
    h_p21_b2 = following(doc(2), tpl("a.#?.?.#?"));
    h_p21_v1 = following(vtree(1, 3, 0), vpath());
    h_p21_v2 = following(vtree(2, 2, 1), vpath());
    h_p21_v2w_t = following(vtree(2, 2, 2), vpath());
    h_p21_idx = following(doc(choice(2)), IDX[choice(IDX.len() as u32) as usize].to_string());
    h_p21_op = operating(vtree(1, 2, 0));
    h_p21_oph = operating(vhist(1 + choice(3)));
    h_p21_conv = converting();
    h_p21_str = parsing(tpl("%\"?????"));
    h_p21_blk = parsing(tpl("%%??%%"));
    h_p21_end = parsing(tpl("[1,{\"a\":2}]??"));
    h_p21_deep = parsing(wrap("[{\"k\":", 20, &ascii_text(2), "}]"));
    h_p21_big = parsing(format!("{}{}{}", "[\"abcdefgh\",".repeat(1), "12345678,".repeat(60), tpl("?]?")));
    h_p21_pdeep = { let n = 1 + choice(40); let mut d = V::Num(b"1".to_vec()); for i in 0..n { d = if i % 2 == 0 { V::Arr(vec![d]) } else { V::Obj(vec![(b"a".to_vec(), d)]) } } let mut c = vec![]; for i in (0..n).rev() { c.push(if i % 2 == 0 { "#0" } else { "a" }) } let at = choice(n); c[at as usize] = ["#1", "b", "#0", "a"][choice(4) as usize]; following(d, c.join(".")) };
    h_p21_many = following(V::Arr((0..70).map(|i| V::Num(vec![b'0' + (i % 9) as u8])).collect()), tpl("#$?"));

    h_p22_leaf = equal(leafs(), leafs());
    h_p22_str = equal(Json::String(any_text(2)), Json::String(any_text_upto(2)));
    h_p22_asc = equal(Json::String(ascii_text(3)), Json::String(ascii_text(3)));
    h_p22_in = equal_in(leafs(), leafs());
    h_p22_tree = equal(build(&vtree(1, 2, 0)), build(&vtree(1, 2, 0)));
    h_p22_tree3_t = equal(build(&vtree(1, 3, 0)), build(&vtree(1, 3, 0)));
    h_p22_hist = equal(build(&hist()), build(&hist()));
    h_p22_arr = equal(Json::Array((0..choice(4)).map(|_| Json::Number(any_f64())).collect()), Json::Array((0..choice(4)).map(|_| Json::Number(any_f64())).collect()));
    h_p22_sub = equal(tree(2, 1, 1), tree(2, 1, 1));
    h_p22_lay = layouts();
    h_p22_bigarr = { let n = 250; let at = choice(n) as usize; let mut l: Vec<Json> = (0..n).map(|i| num(i as u64)).collect(); let a = Json::Array(l.clone()); match choice(3) { 0 => l[at] = leafs(), 1 => { l.pop(); } _ => l.push(Json::Null) } equal(a, Json::Array(l)) };
    h_p22_bigstr = { let mut a = vec![b'x'; 300]; let b = a.clone(); a[[0, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256, 299][choice(12) as usize]] = ascii(); equal(Json::String(string(a)), Json::String(string(b))) };
    h_p22_bigobj = { let (i, at) = (choice(2), choice(40) as usize); let mk = |x: usize, v: Json| { let mut m = Map::new(); for k in 0..40usize { for r in 0..3u32 { let h = k == at && r as usize == x; add(&mut m, &format!("k{}", k), if h { v.clone() } else { num(r as u64) }); } } Json::Object(m) }; let a = mk(9, Json::Null); equal(a, mk([0, 1, 2][choice(3) as usize], if i == 0 { leafs() } else { Json::Array(vec![]) })) };
    h_p22_bigold = { let n = 60; let at = choice(n); let mk = |v: Json| { let mut m = Map::new(); for r in 0..n { add(&mut m, "k", if r == at { v.clone() } else { num(r as u64) }); } Json::Object(m) }; equal(mk(num(at as u64)), mk(leafs())) };
    h_p22_deep = { let mk = |v: Json| { let mut d = v; for i in 0..120 { d = if i % 3 == 0 { Json::Array(vec![num(1), d]) } else { obj(&[("k", d), ("k", num(2))]) } } d }; equal(mk(leafs()), mk(leafs())) };
    h_p22_clone = cloned(vtree(1, 3, 0));
    h_p22_clone2 = cloned(vtree(2, 2, 1));
    h_p22_cloneh = cloned(vhist(1 + choice(4)));

    h_p23_a3 = readers(ascii_text(3));
    h_p23_a4 = readers(ascii_text(4));
    h_p23_a5 = readers(ascii_text(5));
    h_p23_a6_t = readers(ascii_text(6));
    h_p23_u2 = readers(any_text(2));
    h_p23_t1 = readers(tpl("%[%\"?\"%,{\"?\":\"\\??\"}%]%"));
    h_p23_g1 = at_path(TEXTS[choice(TEXTS.len() as u32) as usize].to_string(), ascii_text(1));
    h_p23_g2 = at_path(TEXTS[choice(TEXTS.len() as u32) as usize].to_string(), ascii_text(2));
    h_p23_g3 = at_path(TEXTS[choice(3) as usize].to_string(), tpl("a.??"));
    h_p23_g4 = at_path(TEXTS[choice(3) as usize].to_string(), tpl("#?.??"));
    h_p23_h1 = at_path(tpl("{\"a\":?,\"?\":[?]}"), vpath());
    h_p23_h2 = at_path(tpl("[\"?\",{\"a\":?}]"), vpath());
    h_p23_h3 = at_path(tpl("???"), vpath());
    h_p23_big = readers(format!("[{}\"{}\", {}]", "12345678, ".repeat(60), "\\n".repeat(40), tpl("??")));
    h_p23_wbig = { let n = [31, 32, 33, 64, 65, 100][choice(6) as usize]; let k = word(1); let l: Vec<(String, String)> = (0..n).map(|i| (format!("{}{}", k, i % 40), ascii_text((i == 20) as usize))).collect(); let t = json::encode(&l); check(alike(&t, &l.to_json().to_string()), 1); let s = l.as_slice(); check(alike(&json::encode(&s), &t), 2) };
    h_p23_enc = writers();
}
