//! The same guarantees after other calls, failed ones among them: no call may depend on what was done before it.
use crate::gen::*;
use crate::h_err as e;
use crate::h_ops as o;
use crate::h_parse as p;
use crate::h_path as pa;
use crate::h_ser as s;
use crate::h_typed as t;
use crate::model as m;
use crate::reference::V;
use json::{Json, ToJson};
use std::collections::HashMap;
use sym::*;

/// a text, mostly one that does not parse
fn broken() -> String { tpl(["\"a?", "\"\\u0?", "[1,?", "[{\"a\":[\"?", "{\"a\":1,\"?", "{\"?\":[?]", "-?", "n?", "[[[[[?", "[?]", "\"\\ud83d\\?", "{\"a\":{\"b\":?}}"][choice(12) as usize]) }
fn parse1() { let t = broken(); note(&t); let _ = Json::parse(&t); }
/// many failed parses
fn parse_many() { let n = [130, 1100][choice(2) as usize]; let t = ["[[1,", "{\"a\":[", "\"abc", "[tru]", "{\"a\":\"\\u12", "1e", "[1,]", "{\"a\" 1}"][choice(8) as usize]; note(t); for _ in 0..n { let _ = Json::parse(t); } }
fn parse_before() { match choice(4) { 0 => parse_many(), 1 => { let t = ascii_text(2); note(&t); let _ = Json::parse(&t); } 2 => path_before(), _ => parse1() } }
fn print_before() { match choice(4) {
    0 => { let _ = Json::String(any_text(1)).to_string(); }
    1 => { let _ = Json::Array(vec![Json::String(ascii_text(1)), Json::Null]).to_string(); }
    2 => { let mut m = Map::new(); add(&mut m, &ascii_text(1), num(1)); add(&mut m, "k", Json::Boolean(true)); let _ = Json::Object(m).to_string(); }
    _ => { for _ in 0..1100 { let _ = Json::Array(vec![Json::Array(vec![num(3)])]).to_string(); } }
} }
const PATHS: &[&str] = &["a", "a.b", "a\\.b", "\\#0", "#0", "#1.#0", "a.#", "", "\\a", ".", "a..b", "#99", "b"];
/// reads, writes and deletions elsewhere
fn path_before() {
    let q = match choice(3) { 0 => PATHS[choice(PATHS.len() as u32) as usize].to_string(), 1 => ascii_text(1), _ => tpl("a?b") }; note(&q);
    let mut j = build(&pa::doc([0, 1, 3][choice(3) as usize]));
    match choice(4) { 0 => { let _ = j.get(&q); } 1 => { let _ = j.del(&q); } 2 => { if m::path(q.as_bytes()).map_or(true, |c| c.iter().all(|c| match c { m::C::Idx(i) => *i < 200, _ => true })) { let _ = j.set(&q, 1u8); } } _ => for _ in 0..1100 { let _ = j.get("a.#5.x.#7"); let _ = j.get("#"); } }
}
fn typed_before() { match choice(5) {
    0 => { let _ = json::decode::<Vec<bool>>("[true,false,1]"); }
    1 => { let _ = json::decode::<HashMap<String, u8>>("{\"a\":1,\"b\":null}"); }
    2 => { let _ = json::encode(&vec![(word(1), flag())]); }
    3 => { let _ = json::decode::<Vec<(u8, String)>>("{\"1\":\"a\",\"x\":\"b\"}"); }
    _ => for _ in 0..1100 { let _ = json::decode::<Vec<Vec<bool>>>("[[true],[1]]"); }
} }
fn ops_before() {
    let mut j = match choice(4) { 0 => Json::Null, 1 => build(&V::Arr(vec![V::Null])), _ => build(&vhist(2)) };
    for _ in 0..2 { match choice(6) { 0 => { let _ = j.append("a", 1u8); } 1 => { let _ = j.insert("a", 2u8); } 2 => { let _ = j.delete("a"); } 3 => { let _ = j.push(3u8); } 4 => { let _ = j.remove(0); } _ => { let _ = j.index_and_merge("b"); } } }
}
/// two texts in a row
fn twice(f: fn(String), a: String, b: String) { f(a); f(b) }
fn walk() -> Vec<o::K> { let k = |s: &str| o::K::S(s.into()); match choice(5) { 0 => vec![k("a"), k("b")], 1 => vec![k("a.b")], 2 => vec![o::K::I(1), o::K::I(0)], 3 => vec![k("#0")], _ => vec![k("a"), o::K::I(0)] } }

crate::harnesses! {
    h_p01_st = { parse_before(); p::accept(ascii_text(2)) };
    h_p01_st2 = twice(p::accept, ascii_text(3), ascii_text(3));
    h_p01_st3 = { parse_before(); p::accept(tpl("[\"?\",{\"a\":?}]")) };
    h_p01_st4 = twice(p::accept, tpl("[?,"), wrap("[", 130, "1", "]"));
    h_p02_st = { parse_before(); p::literal(tpl("\"??\"")) };
    h_p02_st2 = twice(p::literal, tpl("\"??\""), tpl("\"??\""));
    h_p02_st3 = { parse_before(); p::literal(tpl("\"\\ud83^\\ude0^\"")) };
    h_p03_st = { parse_before(); p::structure(tpl("{\"?\":[1],\"?\":2}")) };
    h_p03_st2 = twice(p::structure, tpl("[?,[\"?\"]]"), tpl("{\"a\":?,\"a\":[?]}"));
    h_p03_nn = p::structure(tpl("[1@@@,1@@]"));
    h_p03_nn2 = p::structure(tpl("{\"a\":-1@@,\"b\":1@@}"));
    h_p04_st = { parse_before(); p::number(tpl("@@@")) };
    h_p04_st2 = twice(p::number, tpl("1@@"), tpl("@@"));
    h_p04_st3 = twice(p::number, tpl("1@@@"), tpl("1@@"));
    h_p04_st4 = twice(p::number, tpl("-1@@"), tpl("1@@"));
    h_p05_st = { print_before(); s::form(Json::Array(vec![Json::String(any_text(1)), Json::Object(Map::new())])) };
    h_p05_st2 = { print_before(); s::form(tree(2, 2, 1)) };
    h_p05_st3 = { parse_before(); s::form(Json::String(ascii_text(1))) };
    h_p06_st = { print_before(); s::round(Json::Array(vec![Json::String(any_text(1)), Json::Null])) };
    h_p06_st2 = { parse_before(); s::round(tree(1, 2, 1)) };
    h_p07_st = { typed_before(); t::trip(vec![(ascii_text(1))]) };
    h_p07_st2 = { parse_before(); t::trip(vec![Some(flag()), None]) };
    h_p07_st3 = { print_before(); t::trip(ascii_text(2)) };
    h_p08_st = { typed_before(); t::comps(&Json::Array(vec![Json::Boolean(flag()), Json::String(word(1))])) };
    h_p08_st2 = { typed_before(); t::comps(&build(&vobj(1, 2, 0))) };
    h_p09_st = { path_before(); pa::read(pa::doc(choice(3)), ascii_text(2)) };
    h_p09_st2 = { path_before(); pa::read(pa::doc(choice(3)), PATHS[choice(PATHS.len() as u32) as usize].to_string()) };
    h_p09_st3 = { pa::read(pa::doc(0), ascii_text(2)); pa::read(pa::doc(0), ascii_text(2)) };
    h_p10_st = { path_before(); pa::write1(pa::doc(choice(3)), ascii_text(2)) };
    h_p10_st2 = { path_before(); pa::write1(pa::doc(choice(3)), PATHS[choice(PATHS.len() as u32) as usize].to_string()) };
    h_p11_st = { path_before(); pa::remove(pa::doc(choice(3)), ascii_text(2)) };
    h_p11_st2 = { path_before(); pa::remove(pa::doc(choice(3)), PATHS[choice(PATHS.len() as u32) as usize].to_string()) };
    h_p12_st = { path_before(); pa::key_last(ascii_text(2)) };
    h_p12_st2 = { path_before(); pa::key_made(ascii_text(2)) };
    h_p13_st = { ops_before(); o::seq(0, 3, 2) };
    h_p13_st2 = { path_before(); o::seq(1, 2, 2) };
    h_p14_st = { ops_before(); o::aseq(1, 2) };
    h_p14_st2 = { path_before(); o::aseq(0, 2) };
    h_p17_st = { path_before(); o::indexed(pa::doc(choice(3)), match choice(4) { 0 => o::K::I(bits(64) as usize), 1 => o::K::S("a".into()), 2 => o::K::S("#0".into()), _ => o::K::S(ascii_text(1)) }) };
    h_p18_st = { path_before(); o::agree(pa::doc(choice(3)), walk()) };
    h_p20_st = { typed_before(); t::as_pairs((0..3).map(|i| (word(1).into_bytes(), V::Num(vec![b'0' + i as u8]))).collect()) };
    h_p20_st2 = { ops_before(); t::encode_pairs_of((0..3).map(|i| (word(1), i as u8)).collect()) };
    h_p21_st = { parse_before(); e::parsing(ascii_text(2)) };
    h_p21_st2 = { path_before(); e::following(pa::doc(choice(3)), ascii_text(2)) };
    h_p22_st = { parse_before(); e::equal(tree(1, 1, 0), tree(1, 1, 0)) };
    h_p22_st2 = { ops_before(); e::cloned(vtree(1, 1, 0)) };
    h_p23_st = { parse_before(); e::readers(ascii_text(2)) };
    h_p23_st2 = { path_before(); e::at_path("{\"a\": [1, {\"b\": null}], \"b\": 2}".to_string(), ascii_text(2)) };
    h_p23_st3 = { print_before(); e::writers() };
}
