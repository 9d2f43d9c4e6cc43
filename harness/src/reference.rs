//! Reference reading of RFC 8259, written without looking at how the crate does it: a
//! recursive-descent parser over bytes into a list-based tree. It is the oracle of the parser harnesses.

#[derive(Clone, Debug, PartialEq)]
pub enum V { Null, Bool(bool), /** the number's text */ Num(Vec<u8>), Str(Vec<u8>), Arr(Vec<V>), Obj(Vec<(Vec<u8>, V)>) }

pub struct P<'a> { t: &'a [u8], i: usize }

fn ws(b: u8) -> bool { b == b' ' || b == b'\t' || b == b'\n' || b == b'\r' }
fn digit(b: u8) -> bool { b >= b'0' && b <= b'9' }
fn hex(b: u8) -> Option<u32> { if digit(b) { Some((b - b'0') as u32) } else if b >= b'a' && b <= b'f' { Some((b - b'a') as u32 + 10) } else if b >= b'A' && b <= b'F' { Some((b - b'A') as u32 + 10) } else { None } }

/// the UTF-8 encoding of a scalar value
pub fn utf8(c: u32, out: &mut Vec<u8>) {
    if c < 0x80 { out.push(c as u8); }
    else if c < 0x800 { out.push(0xc0 | (c >> 6) as u8); out.push(0x80 | (c & 63) as u8); }
    else if c < 0x10000 { out.push(0xe0 | (c >> 12) as u8); out.push(0x80 | (c >> 6 & 63) as u8); out.push(0x80 | (c & 63) as u8); }
    else { out.push(0xf0 | (c >> 18) as u8); out.push(0x80 | (c >> 12 & 63) as u8); out.push(0x80 | (c >> 6 & 63) as u8); out.push(0x80 | (c & 63) as u8); }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> { if self.i < self.t.len() { Some(self.t[self.i]) } else { None } }
    fn eat(&mut self, b: u8) -> bool { if self.peek() == Some(b) { self.i += 1; true } else { false } }
    fn skip(&mut self) { while let Some(b) = self.peek() { if ws(b) { self.i += 1 } else { break } } }
    fn word(&mut self, w: &[u8], v: V) -> Option<V> { for b in w { if !self.eat(*b) { return None; } } Some(v) }
    fn digits(&mut self) -> usize { let s = self.i; while let Some(b) = self.peek() { if digit(b) { self.i += 1 } else { break } } self.i - s }
    fn hex4(&mut self) -> Option<u32> { let mut u = 0; for _ in 0..4 { let b = self.peek()?; self.i += 1; u = u * 16 + hex(b)?; } Some(u) }
    pub fn string(&mut self) -> Option<Vec<u8>> {
        if !self.eat(b'"') { return None; }
        let mut out = Vec::new();
        loop {
            let b = self.peek()?; self.i += 1;
            if b == b'"' { return Some(out); }
            if b < 0x20 { return None; }
            if b != b'\\' { out.push(b); continue; }
            let e = self.peek()?; self.i += 1;
            match e {
                b'"' | b'\\' | b'/' => out.push(e),
                b'b' => out.push(8), b'f' => out.push(12), b'n' => out.push(10), b'r' => out.push(13), b't' => out.push(9),
                b'u' => {
                    let mut u = self.hex4()?;
                    if u >= 0xdc00 && u < 0xe000 { return None; } // unpaired surrogates are rejected
                    if u >= 0xd800 && u < 0xdc00 {
                        if !self.eat(b'\\') || !self.eat(b'u') { return None; }
                        let l = self.hex4()?;
                        if l < 0xdc00 || l >= 0xe000 { return None; }
                        u = 0x10000 + (u - 0xd800) * 0x400 + (l - 0xdc00);
                    }
                    utf8(u, &mut out);
                }
                _ => return None,
            }
        }
    }
    pub fn number(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        self.eat(b'-');
        if !self.eat(b'0') { if self.digits() == 0 { return None; } }
        if self.eat(b'.') { if self.digits() == 0 { return None; } }
        if self.eat(b'e') || self.eat(b'E') { let _ = self.eat(b'+') || self.eat(b'-'); if self.digits() == 0 { return None; } }
        Some(self.t[s..self.i].to_vec())
    }
    fn value(&mut self) -> Option<V> {
        match self.peek()? {
            b'n' => self.word(b"null", V::Null), b't' => self.word(b"true", V::Bool(true)), b'f' => self.word(b"false", V::Bool(false)),
            b'"' => self.string().map(V::Str),
            b'[' => {
                self.i += 1; let mut l = Vec::new(); self.skip();
                if self.eat(b']') { return Some(V::Arr(l)); }
                loop {
                    self.skip(); l.push(self.value()?); self.skip();
                    if self.eat(b']') { return Some(V::Arr(l)); }
                    if !self.eat(b',') { return None; }
                }
            }
            b'{' => {
                self.i += 1; let mut l = Vec::new(); self.skip();
                if self.eat(b'}') { return Some(V::Obj(l)); }
                loop {
                    self.skip(); let k = self.string()?; self.skip();
                    if !self.eat(b':') { return None; }
                    self.skip(); let v = self.value()?; l.push((k, v)); self.skip();
                    if self.eat(b'}') { return Some(V::Obj(l)); }
                    if !self.eat(b',') { return None; }
                }
            }
            b'-' | b'0'..=b'9' => self.number().map(V::Num),
            _ => None,
        }
    }
}

/// the value of a JSON text, None if it is not one
pub fn read(t: &[u8]) -> Option<V> { let mut p = P { t, i: 0 }; p.skip(); let v = p.value()?; p.skip(); if p.i == t.len() { Some(v) } else { None } }

/// the text as one string literal (no surrounding blanks)
pub fn read_string(t: &[u8]) -> Option<Vec<u8>> { let mut p = P { t, i: 0 }; let v = p.string()?; if p.i == t.len() { Some(v) } else { None } }
pub fn is_number(t: &[u8]) -> bool { let mut p = P { t, i: 0 }; p.number().is_some() && p.i == t.len() }

/// the double a number text denotes (correctly rounded, by the standard library); None when it overflows
pub fn num(t: &[u8]) -> Option<f64> { let f: f64 = unsafe { std::str::from_utf8_unchecked(t) }.parse().ok()?; if f.is_finite() { Some(f) } else { None } }
/// no number in the tree overflows
pub fn fits(v: &V) -> bool { match v { V::Num(t) => num(t).is_some(), V::Arr(l) => l.iter().all(fits), V::Obj(l) => l.iter().all(|x| fits(&x.1)), _ => true } }
