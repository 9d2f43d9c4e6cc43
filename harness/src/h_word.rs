//! The same guarantees for whole words: a text of 1 to 16 letters, digits, '_' and '-', all free, as key, value and document.
use crate::gen::*;
use crate::h_err as e;
use crate::h_ops as o;
use crate::h_parse as p;
use crate::h_path as pa;
use crate::h_ser as s;
use crate::h_typed as t;
use crate::reference::V;
use json::Json;
use std::collections::HashMap;
use sym::*;

fn part() -> u8 { let b = ascii(); assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z') | (b == b'_') | (b == b'-')); b }
fn ident(n: usize) -> String { string((0..n).map(|_| part()).collect()) }
fn any_len() -> usize { 1 + choice(16) as usize }
fn w() -> String { ident(any_len()) }
/// words of one length
fn ww() -> (String, String) { let n = any_len(); (ident(n), ident(n)) }
/// printable characters without the escaped ones and JSON's punctuation
fn mark() -> u8 { let b = ascii(); assume((b >= b' ') & (b <= b'~') & (b != b'"') & (b != b'\\') & (b != b'/') & (b != b'[') & (b != b']') & (b != b'{') & (b != b'}') & (b != b' ') & (b != b',') & (b != b':')); b }
/// printable characters that need no escape
fn sentence() -> String { let n = any_len(); string((0..n).map(|_| { let b = ascii(); assume((b >= b' ') & (b <= b'~') & (b != b'"') & (b != b'\\') & (b != b'/')); b }).collect()) }
fn phrase() -> String { let n = any_len(); string((0..n).map(|_| mark()).collect()) }
fn key(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
fn n(i: u8) -> V { V::Num(vec![b'0' + i]) }
/// w names something at three places
fn places(w: &str) -> V { V::Obj(vec![(key(w), n(1)), (key("a"), V::Obj(vec![(key(w), V::Arr(vec![n(2), n(3)])), (key("k"), n(4))])), (key("b"), V::Arr(vec![V::Obj(vec![(key(w), V::Null), (key(w), n(5))])]))]) }
fn to(w: &str) -> String { match choice(5) { 0 => w.to_string(), 1 => format!("a.{}", w), 2 => format!("b.#0.{}", w), 3 => format!("a.{}.#1", w), _ => format!("{}.x", w) } }
fn on(f: impl Fn(V, String)) { let w = w(); let d = places(&w); let q = to(&w); f(d, q) }
fn off(f: impl Fn(V, String)) { let (w, x) = ww(); let d = places(&w); let q = to(&x); f(d, q) }
fn obj(w: &str, x: Json) -> Json { let mut m = Map::new(); add(&mut m, w, x); Json::Object(m) }
fn text() -> String { let w = w(); match choice(8) { 0 => w, 1 => format!("\"{}\"", w), 2 => format!("[{}]", w), 3 => format!("{{\"{}\":0}}", w), 4 => format!("{{\"a\":{}}}", w), 5 => format!("[1,\"{}\" ]", w), 6 => format!("{{{}:1}}", w), _ => format!("\"{}", w) } }
fn held() -> Json { let w = w(); match choice(4) { 0 => Json::String(w), 1 => Json::Array(vec![Json::String(w), Json::Null]), 2 => obj(&w, Json::Boolean(true)), _ => obj("a", Json::String(w)) } }
fn typed() { match choice(7) {
    0 => t::trip(w()), 1 => t::trip(Some(w())), 2 => t::trip(vec![w(), String::new()]), 3 => { let mut m = HashMap::new(); m.insert(w(), w_short()); t::trip(m) } 4 => { let (a, b) = ww(); t::trip(t::Pairs(vec![(a, true), (b, false)])) } 5 => t::trip(vec![Some(w()), None]), _ => { let (a, b) = ww(); t::trip(t::Pairs(vec![(a.clone(), b), (a, "x".to_string())])) }
} }
fn w_short() -> String { ident(1 + choice(3) as usize) }
fn words2() -> (Json, Json) { let (a, b) = ww(); match choice(3) { 0 => (Json::String(a), Json::String(b)), 1 => (obj(&a, num(1)), obj(&b, num(1))), _ => (Json::Array(vec![Json::Null, Json::String(a)]), Json::Array(vec![Json::Null, Json::String(b)])) } }

crate::harnesses! {
    h_p01_w = p::accept(text());
    h_p02_w = p::literal(format!("\"{}\"", w()));
    h_p02_we = p::literal(format!("\"\\n{}\\u0041\"", w()));
    h_p02_wp = p::literal(format!("\"{}\"", phrase()));
    h_p02_wx = p::literal(format!("\"{}\\u{}\"", phrase(), tpl("^^^^")));
    h_p02_wq = p::literal(format!("\"{}\"", sentence()));
    h_p05_wq = s::form(Json::String(sentence()));
    h_p06_wq = s::round(Json::String(sentence()));
    h_p07_wq = t::trip(sentence());
    h_p08_wq = t::prims(&Json::String(sentence()));
    h_p03_wp = p::structure({ let a = phrase(); match choice(4) { 0 => format!("[\"{}\",[]]", a), 1 => format!("{{\"{}\":[2],\"a\":1}}", a), 2 => format!("{{\"a\":{{\"b\":\"{}\"}}}}", a), _ => format!(" [ \"{}\" , null ] ", a) } });
    h_p03_w = p::structure({ let (a, b) = ww(); format!("{{\"{}\":[1],\"{}\":2,\"k\":\"{}\"}}", a, b, a) });
    h_p03_wl = p::structure({ let (a, b) = ww(); format!("[\"{}\",{{\"a\":\"{}\"}}]", a, b) });
    h_p04_w = p::number({ let k = any_len(); tpl(&"$".repeat(k)) });
    h_p04_wf = p::number({ let k = any_len(); let f = tpl(&"$".repeat(k)); match choice(6) { 0 => format!("0.{}", f), 1 => format!("-1.{}", f), 2 => format!("1{}e5", f), 3 => format!("2.{}E-3", f), 4 => format!("1e{}", tpl("$")), _ => format!("-{}", f) } });
    h_p05_wp = s::form(match choice(2) { 0 => Json::String(phrase()), _ => obj(&phrase(), num(1)) });
    h_p06_wp = s::round(match choice(2) { 0 => Json::String(phrase()), _ => obj(&phrase(), num(1)) });
    h_p07_wp = match choice(3) { 0 => t::trip(phrase()), 1 => t::trip(Some(phrase())), _ => t::trip(vec![phrase(), w_short()]) };
    h_p08_wp = t::prims(&Json::String(phrase()));
    h_p08_wp2 = t::comps(&match choice(3) { 0 => Json::String(phrase()), 1 => Json::Array(vec![Json::String(phrase())]), _ => obj("a", Json::String(phrase())) });
    h_p05_w = s::form(held());
    h_p06_w = s::round(held());
    h_p07_w = typed();
    h_p08_w = t::prims(&Json::String(w()));
    h_p08_w2 = t::comps(&held());
    h_p09_w = on(pa::read);
    h_p09_w2 = off(pa::read);
    h_p09_wt = on(pa::read_text_of);
    h_p10_w = on(pa::write1);
    h_p10_w2 = off(pa::write1);
    h_p10_wt = on(pa::write_text_of);
    h_p11_w = on(pa::remove);
    h_p11_w2 = off(pa::remove);
    h_p11_wt = on(pa::remove_text_of);
    h_p12_w = pa::key_last(w());
    h_p12_wi = pa::key_inner(w());
    h_p12_wb = pa::key_below(w());
    h_p12_wm = pa::key_made(w());
    h_p13_w = { let (a, b) = ww(); o::seq_text(a, b) };
    h_p17_w = { let w = w(); o::indexed(places(&w), o::K::S(w)) };
    h_p17_w2 = { let (w, x) = ww(); o::indexed(places(&w), o::K::S(x)) };
    h_p18_w = { let w = w(); let d = places(&w); let k = o::K::S(w); o::agree(d, match choice(3) { 0 => vec![k], 1 => vec![o::K::S("a".into()), k, o::K::I(1)], _ => vec![o::K::S("b".into()), o::K::I(0), k] }) };
    h_p20_w = { let (a, b) = ww(); t::as_pairs(vec![(a.clone().into_bytes(), n(0)), (b.into_bytes(), n(1)), (a.into_bytes(), n(2))]) };
    h_p20_we = { let (a, b) = ww(); t::encode_pairs_of(vec![(a.clone(), 1), (b, 2), (a, 3)]) };
    h_p21_w = e::parsing(text());
    h_p21_w2 = off(e::following);
    h_p22_w = { let (a, b) = words2(); e::equal(a, b) };
    h_p23_w = e::readers(text());
    h_p23_wp = e::readers(match choice(2) { 0 => format!("\"{}\"", phrase()), _ => format!("[{{\"{}\":true}}]", phrase()) });
    h_p23_w2 = { let w = w(); let q = to(&w); e::at_path(format!("{{\"{}\": 1, \"a\": {{\"{}\": [2, 3]}}}}", w, w), q) };
}
