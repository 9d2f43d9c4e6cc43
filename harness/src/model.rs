//! Model of documents and paths on the reference tree, written from the readme: components are separated by dots,
//! `#n` is an array index, `\.` a dot, and one leading backslash keeps a component from being read as an index.
use crate::reference::V;

#[derive(Clone, Debug, PartialEq)]
pub enum C { Key(Vec<u8>), Idx(usize) }

/// None: not a path
pub fn path(p: &[u8]) -> Option<Vec<C>> {
    if p.is_empty() { return None; }
    let mut out = vec![]; let mut cur: Vec<u8> = vec![]; let mut i = 0;
    while i < p.len() {
        let b = p[i];
        if b == b'.' { out.push(comp(&cur)?); cur.clear(); i += 1; }
        else if b == b'\\' && i + 1 < p.len() && p[i + 1] == b'.' { cur.push(b'.'); i += 2; }
        else { cur.push(b); i += 1; }
    }
    out.push(comp(&cur)?);
    Some(out)
}
/// indexes larger than this are outside the model
pub const BIG: usize = 1 << 60;
fn comp(c: &[u8]) -> Option<C> {
    if c.is_empty() { return Some(C::Key(vec![])); }
    if c[0] == b'\\' { return Some(C::Key(c[1..].to_vec())); }
    if c[0] != b'#' { return Some(C::Key(c.to_vec())); }
    if c.len() == 1 { return None; }
    let mut n: u128 = 0; let big = u64::MAX as u128;
    // a plus sign in front of the digits is neither promised nor ruled out
    if c[1] == b'+' { sym::assume(false); }
    for b in &c[1..] { if *b < b'0' || *b > b'9' { return None; } n = n * 10 + (*b - b'0') as u128; if n > big { return None; } }
    Some(C::Idx(n as usize))
}
/// the canonical spelling of a key as a component
pub fn esc(k: &[u8]) -> Vec<u8> {
    let mut o = vec![]; if !k.is_empty() && (k[0] == b'#' || k[0] == b'\\') { o.push(b'\\'); }
    for b in k { if *b == b'.' { o.push(b'\\'); } o.push(*b); } o
}
fn last(l: &[(Vec<u8>, V)], k: &[u8]) -> Option<usize> { (0..l.len()).rev().find(|i| l[*i].0 == k) }
pub fn get<'a>(v: &'a V, p: &[C]) -> Option<&'a V> {
    if p.is_empty() { return Some(v); }
    match (v, &p[0]) { (V::Obj(l), C::Key(k)) => get(&l[last(l, k)?].1, &p[1..]), (V::Arr(l), C::Idx(i)) => get(l.get(*i)?, &p[1..]), _ => None }
}
pub fn set(v: &mut V, p: &[C], x: &V) {
    if p.is_empty() { *v = x.clone(); return; }
    match &p[0] {
        C::Key(k) => {
            if !matches!(v, V::Obj(_)) { *v = V::Obj(vec![]); }
            if let V::Obj(l) = v {
                if p.len() == 1 { l.retain(|m| m.0 != *k); l.push((k.clone(), x.clone())); }
                else { let i = match last(l, k) { Some(i) => i, None => { l.push((k.clone(), V::Null)); l.len() - 1 } }; set(&mut l[i].1, &p[1..], x); }
            }
        }
        C::Idx(i) => {
            if !matches!(v, V::Arr(_)) { *v = V::Arr(vec![]); }
            if let V::Arr(l) = v { while l.len() <= *i { l.push(V::Null); } set(&mut l[*i], &p[1..], x); }
        }
    }
}
pub fn get_mut<'a>(v: &'a mut V, c: &C) -> Option<&'a mut V> {
    match (v, c) { (V::Obj(l), C::Key(k)) => { let i = last(l, k)?; Some(&mut l[i].1) } (V::Arr(l), C::Idx(i)) => l.get_mut(*i), _ => None }
}
/// replaces the current value at c and leaves older values of the key alone
pub fn set_here(v: &mut V, c: &C, x: &V) { if let Some(p) = get_mut(v, c) { *p = x.clone(); } }
/// removes what p denotes; the caller has made sure that it denotes something
pub fn del(v: &mut V, p: &[C]) {
    match (v, &p[0]) {
        (V::Obj(l), C::Key(k)) => if p.len() == 1 { l.retain(|m| m.0 != *k) } else { let i = last(l, k).unwrap(); del(&mut l[i].1, &p[1..]) },
        (V::Arr(l), C::Idx(i)) => if p.len() == 1 { l.remove(*i); } else { del(&mut l[*i], &p[1..]) },
        _ => unreachable!(),
    }
}
/// the text of a tree (only for trees whose strings need no escapes or are escaped by the crate's own rules elsewhere)
pub fn show(v: &V, o: &mut Vec<u8>) {
    fn s(b: &[u8], o: &mut Vec<u8>) { o.push(b'"'); for c in b { if *c == b'"' || *c == b'\\' { o.push(b'\\'); } o.push(*c); } o.push(b'"'); }
    match v {
        V::Null => o.extend_from_slice(b"null"), V::Bool(b) => o.extend_from_slice(if *b { b"true" } else { b"false" }), V::Num(t) => o.extend_from_slice(t), V::Str(t) => s(t, o),
        V::Arr(l) => { o.push(b'['); for (i, x) in l.iter().enumerate() { if i > 0 { o.push(b','); } show(x, o); } o.push(b']'); }
        V::Obj(l) => { o.push(b'{'); for (i, (k, x)) in l.iter().enumerate() { if i > 0 { o.push(b','); } s(k, o); o.push(b':'); show(x, o); } o.push(b'}'); }
    }
}
