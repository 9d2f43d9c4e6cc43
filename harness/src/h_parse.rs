//! P01 acceptance, P02 string literals, P03 structure, P04 number literals
use crate::gen::*;
use crate::reference as r;
use json::Json;
use sym::*;

// ---- P01: parse succeeds exactly on JSON texts
pub fn accept(s: String) {
    note(&s);
    let got = Json::parse(&s);
    let want = match r::read(s.as_bytes()) { Some(v) => r::fits(&v), None => false };
    reach(if want { 1 } else { 2 });
    if let Ok(j) = &got { observe(size(j)); }
    check(got.is_ok() == want, 1);
}
// ---- P03: every JSON text parses to exactly its tree
pub fn structure(s: String) {
    note(&s);
    let want = match r::read(s.as_bytes()) { Some(v) => v, None => return reach(2) };
    if !r::fits(&want) { return reach(3); }
    reach(1);
    match Json::parse(&s) { Ok(j) => { observe(size(&j)); check(same(&j, &want), 1) } Err(_) => check(false, 2) }
}
// ---- P02: a text that starts and ends with a quote is one string literal or an error
pub fn literal(s: String) {
    note(&s);
    match r::read_string(s.as_bytes()) {
        Some(v) => { reach(1); observe(v.len() as u64); match Json::parse(&s) { Ok(Json::String(t)) => check(t.as_bytes() == &v[..], 1), _ => check(false, 2) } }
        None => { reach(2); check(Json::parse(&s).is_err(), 3) }
    }
}
/// the same for a literal inside a container: element, key or member value
pub fn literal_in(s: String) {
    note(&s);
    let want = r::read_string(s.as_bytes());
    let k = choice(3);
    let t = match k { 0 => format!("[{}]", s), 1 => format!("{{{}:0}}", s), _ => format!("{{\"k\": {} }}", s) };
    let got = Json::parse(&t);
    match want {
        Some(v) => { reach(1 + k); match (k, got) {
            (0, Ok(Json::Array(l))) => check(l.len() == 1 && is_str(&l[0], &v), 1),
            (1, Ok(Json::Object(m))) => check(m.len() == 1 && m.iter().all(|(k, x)| k.as_bytes() == &v[..] && x.0 == Json::Number(0.0) && x.1.is_empty()), 2),
            (2, Ok(Json::Object(m))) => check(m.len() == 1 && m.get("k").map_or(false, |x| is_str(&x.0, &v) && x.1.is_empty()), 3),
            _ => check(false, 4) } }
        None => { reach(5); if r::read(t.as_bytes()).is_none() { reach(6); check(got.is_err(), 5) } }
    }
}
fn is_str(j: &Json, v: &[u8]) -> bool { match j { Json::String(t) => t.as_bytes() == v, _ => false } }
// ---- P04: a number literal, wherever it stands, gives the double its whole text denotes
pub fn number(s: String) {
    note(&s);
    let isnum = r::is_number(s.as_bytes());
    if !isnum { reach(3); return; }
    let want = r::num(s.as_bytes());
    let k = choice(5);
    let t = match k { 0 => s.clone(), 1 => format!("[{}]", s), 2 => format!("{{\"k\":{}}}", s), 3 => format!(" \n{}\t ", s), _ => format!("[null, {} ,{{\"a\" : {} }} ]", s, s) };
    let got = Json::parse(&t);
    match want {
        None => { reach(2); check(got.is_err(), 1) }
        Some(f) => {
            reach(1);
            let eq = |j: Option<&Json>| match j { Some(Json::Number(g)) => { check(g.to_bits() == f.to_bits(), 2); true } _ => false };
            match (k, got) {
                (0, Ok(j)) | (3, Ok(j)) => check(eq(Some(&j)), 3),
                (1, Ok(Json::Array(l))) => check(l.len() == 1 && eq(l.get(0)), 4),
                (2, Ok(Json::Object(m))) => check(m.len() == 1 && eq(m.get("k").map(|x| &x.0)), 5),
                (4, Ok(Json::Array(l))) => check(l.len() == 3 && eq(l.get(1)) && match &l[2] { Json::Object(m) => eq(m.get("a").map(|x| &x.0)), _ => false }, 6),
                _ => check(false, 7),
            }
        }
    }
}
pub fn number_precise(s: String) { precise_floats(true); number(s) }
const NUMS: &[&str] = &["0", "-0", "-0.0", "0.1", "0.2", "0.3", "1e-7", "16777217", "-16777217", "9007199254740993", "9007199254740992", "9007199254740991", "9223372036854775807", "18446744073709551615", "123456789012345678901234567890",
    "1e22", "1e23", "8.5e22", "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315808e308", "1e309", "-1e309", "1e400", "5e-324", "4.9e-324", "2e-324", "2.5e-324", "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308", "2.225073858507201e-308",
    "3.14159265358979323846264338327950288", "0.1e1", "0.1E+1", "10e-1", "1E5", "1e05", "1e+05", "0e5", "0.0e-5", "0e999", "-0e999", "0.000001", "0.0000001", "100000000000000000000000", "1.0000000000000002", "1.00000000000000011102230246251565", "1.00000000000000011102230246251566", "4503599627370496.5", "4503599627370497.5",
    "0.30000000000000004", "1e-5", "123.456e-3", "179769313486231570000000000000000000000", "6.02214076e23", "-273.15", "299792458", "0.00000000000000000000000000000000000000000000000000000001"];
fn number_table() { let i = choice(NUMS.len() as u32) as usize; number_precise(NUMS[i].to_string()) }

crate::harnesses! {
    h_p01_a0 = accept(ascii_text(0));
    h_p01_a1 = accept(ascii_text(1));
    h_p01_a2 = accept(ascii_text(2));
    h_p01_a3 = accept(ascii_text(3));
    h_p01_a4 = accept(ascii_text(4));
    h_p01_a5 = accept(ascii_text(5));
    h_p01_a6 = accept(ascii_text(6));
    h_p01_a7 = accept(ascii_text(7));
    h_p01_a8_t = accept(ascii_text(8));
    h_p01_a9_t = accept(ascii_text(9));
    h_p01_u1 = accept(any_text(1));
    h_p01_u2 = accept(any_text(2));
    h_p01_u3 = accept(any_text(3));
    h_p01_u4 = accept(any_text(4));
    h_p01_su = accept(tpl("\"~~\""));
    h_p01_sa = accept(tpl("[~\"~\"~]"));
    h_p01_obj = accept(tpl("{\"??\":???}"));
    h_p01_mem = accept(tpl("{\"a\":1?\"?\"??}"));
    h_p01_arr = accept(tpl("[??,??]?"));
    h_p01_nest = accept(tpl("[{\"?\":[?]?}?]"));
    h_p01_nest2 = accept(tpl("{\"a\":{\"?\"?[]}?,\"b\":?}"));
    h_p01_ws = accept(tpl("%[%?%,%?%]%"));
    h_p01_wo = accept(tpl("%{%\"?\"%:%?%}%"));
    h_p01_wm = accept(tpl("{\"a\"%:%1%,%\"b\"?:%?%}"));
    h_p01_esc = accept(tpl("\"\\u????\""));
    h_p01_sur_t = accept(tpl("\"\\uD^^^\\u????\""));
    h_p01_sur = accept(tpl("\"\\ud8^^\\u????\""));
    h_p01_esc2 = accept(tpl("[\"?\\?\",\"\\??\"]"));
    h_p01_num = accept(tpl("@@@@@@@@"));
    h_p01_numa = accept(tpl("[-?.?,1e??,0?]"));
    h_p01_word = accept(tpl("[tru?,fals?,nul?,?]"));
    h_p01_word2 = accept(tpl("[?true?,n?ll,fal?e]"));
    h_p01_deep = accept(tpl(&wrap("[", 30, "??", "]")));
    h_p01_deeper = accept(tpl(&wrap("[", [64, 100, 127, 128, 129, 150, 255, 256, 257, 300][choice(10) as usize], "?", "]")));
    h_p01_deepers = accept(wrap(["[", "{\"a\":", "[{\"b\": "][choice(3) as usize], [65, 129, 200][choice(3) as usize], "1", ["]", "}", "}]"][choice(3) as usize]));
    h_p01_deepo = accept(tpl(&wrap("{\"a\":", 16, "??", "}")));
    h_p01_deepm = accept(tpl(&wrap("[{\"a\": [\"?\", ", 2, "?", "]} ]")));
    h_p01_long = accept({ let mut s = String::from("["); for i in 0..40 { s.push_str(&i.to_string()); s.push(','); if i == 20 { s.push_str("??,"); } } s.push_str("\"?\"]?"); tpl(&s) });
    h_p01_longo = accept({ let mut s = String::from("{"); for i in 0..20 { s.push_str("\"k"); s.push_str(&i.to_string()); s.push_str("\": [1], "); } s.push_str("\"?\":?}?"); tpl(&s) });
    h_p01_lstr = accept({ let mut s = String::from("\""); for i in 0..300 { s.push((b'a' + (i % 26) as u8) as char); } s.push_str("??\""); tpl(&s) });

    h_p02_a2 = literal(tpl("\"??\""));
    h_p02_a4 = literal(tpl("\"????\""));
    h_p02_a6 = literal(tpl("\"??????\""));
    h_p02_a7_t = literal(tpl("\"???????\""));
    h_p02_u1 = literal(tpl("\"~\""));
    h_p02_u3 = literal(tpl("\"~~~\""));
    h_p02_u4 = literal(tpl("\"~~~~\""));
    h_p02_esc = literal(tpl("\"a\\u????b\""));
    h_p02_esc2_t = literal(tpl("\"\\u^^^^\\u^^^^\""));
    h_p02_sur_t = literal(tpl("\"\\u????\\u????\""));
    h_p02_surb = literal(tpl("\"\\uD^^^\\uDC^^\""));
    h_p02_surc = literal(tpl("\"\\ud8^^??dc^^\""));
    h_p02_surd = literal(tpl("\"\\ud83d\\u????\""));
    h_p02_sure = literal(tpl("\"\\ud8^^\\ud^^^\""));
    h_p02_esc3 = literal(tpl("\"\\u^^^^\\u00^?\""));
    h_p02_mix = literal(tpl("\"?\\?~\\u00^^\""));
    h_p02_in = literal_in(tpl("\"???\""));
    h_p02_in4 = literal_in(tpl("\"????\""));
    h_p02_inu = literal_in(tpl("\"~\\??\""));
    h_p02_ine = literal_in(tpl("\"\\u^^^^?\""));
    h_p02_long = literal({ let mut s = String::from("\""); for i in 0..200 { s.push((b'a' + (i % 26) as u8) as char); if i % 50 == 7 { s.push_str("\\n\\\\\\\""); } } s.push_str("??\""); tpl(&s) });

    h_p03_a4 = structure(ascii_text(4));
    h_p03_a5 = structure(ascii_text(5));
    h_p03_a6 = structure(ascii_text(6));
    h_p03_a7 = structure(ascii_text(7));
    h_p03_arr = structure(tpl("[??,\"??\"?]"));
    h_p03_arr2 = structure(tpl("[\"??\",[\"?\"],??]"));
    h_p03_obj = structure(tpl("{\"??\":\"??\"}"));
    h_p03_dup = structure(tpl("{\"?\":1,\"?\":2,\"?\":3}"));
    h_p03_dup4 = structure(tpl("{\"a\":1,\"?\":2,\"a\":[3,\"?\"],\"?\":{\"a\":4},\"a\":5}"));
    h_p03_dup5 = structure(tpl("{\"a\":1,\"a\":2,\"a\":3,\"a\":4,\"?\":5}"));
    h_p03_ndup = structure(tpl("{\"a\":{\"?\":1,\"x\":2},\"?\":{\"x\":1,\"?\":2}}"));
    h_p03_ws = structure(tpl("%[%1%,%\"?\"%,%[%]%]"));
    h_p03_wo = structure(tpl("{%\"?\"%:%\"?\"%,%\"b\"%:%{%}}"));
    h_p03_punct = structure(tpl("[\"[?{\",{\"}?:\":\",?]\"},\"??\"]"));
    h_p03_esc = structure(tpl("[\"\\??\",{\"?\\?\":\"\\\\?\"}]"));
    h_p03_esc2 = structure(tpl("{\"\\u^^^^\":1,\"?\":2}"));
    h_p03_uni = structure(tpl("{\"~\":[\"~\"]}"));
    h_p03_nest = structure(tpl("[[?],[[?],?],{\"a\":[{\"?\":?}]}]"));
    h_p03_deep = structure(tpl(&wrap("[1,", 16, "?,\"?\"", ",2]")));
    h_p03_deeper = structure(tpl(&wrap("[", [64, 100, 127, 128, 129, 150, 255, 256, 257, 300][choice(10) as usize], "\"?\"", "]")));
    h_p03_deepero = structure(tpl(&wrap("{\"a\": ", [33, 65, 129, 200][choice(4) as usize], "\"?\"", "}")));
    h_p03_deepo = structure(tpl(&wrap("{\"a\":", 20, "\"?\"", ",\"b\":0}")));
    h_p03_long = structure({ let mut s = String::from("["); for i in 0..60 { s.push_str(&i.to_string()); s.push_str(", "); if i == 33 { s.push_str("?, "); } } s.push_str("\"?\"]"); tpl(&s) });
    h_p03_longo = structure({ let mut s = String::from("{"); for i in 0..24 { s.push_str("\"k"); s.push_str(&(i % 17).to_string()); s.push_str("\": "); s.push_str(&i.to_string()); s.push_str(", "); } s.push_str("\"k?\": \"?\"}"); tpl(&s) });

    h_p04_a3 = number(ascii_text(3));
    h_p04_a4 = number(ascii_text(4));
    h_p04_n6 = number(tpl("@@@@@@"));
    h_p04_n7 = number(tpl("@@@@@@@"));
    h_p04_n8 = number(tpl("@@@@@@@@"));
    h_p04_long = number(tpl("-$$$$$$$$$.$$$$$$$$$e-$$$"));
    h_p04_mid = number(tpl("$$@$$@$$@$$"));
    h_p04_tab = number_table();
    h_p04_exp = number_precise({ let s = tpl("1e@$$"); string(s.bytes().map(|b| split(b as u64) as u8).collect()) });
    h_p04_dec = number_precise({ let s = tpl("$.$"); string(s.bytes().map(|b| split(b as u64) as u8).collect()) });
}
