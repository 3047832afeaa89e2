//! Enumerators of byte strings.
use crate::val::*;

/// Every string over `alphabet` of length `0..=max`, shortest first; `f` gets each of them.
pub fn strings(alphabet: &[u8], max: usize, f: &mut dyn FnMut(&[u8])) {
    for n in 0..=max { strings_of(alphabet, n, f); }
}
pub fn strings_of(alphabet: &[u8], n: usize, f: &mut dyn FnMut(&[u8])) {
    let mut idx = vec![0usize; n];
    let mut buf: Vec<u8> = vec![alphabet[0]; n];
    loop {
        f(&buf);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            idx[i] += 1;
            if idx[i] < alphabet.len() { buf[i] = alphabet[idx[i]]; break; }
            idx[i] = 0;
            buf[i] = alphabet[0];
        }
    }
}
pub const ALL: [u8; 256] = { let mut a = [0u8; 256]; let mut i = 0; while i < 256 { a[i] = i as u8; i += 1; } a };
pub const SUBST: [u8; 26] = [0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xa0, 0xbf, 0xc0, 0xc3, 0xd8, 0xdf, 0xe0, 0xed, 0xf0, 0xfe, 0xff];

/// The neighbourhood of a valid encoding: itself, every truncation, some extensions, and every
/// substitution of a single byte from `subst`.
pub fn ball(e: &[u8], subst: &[u8], f: &mut dyn FnMut(&[u8])) {
    f(e);
    for n in (0..e.len()).rev() { f(&e[..n]); }
    for x in [0u8, 1, 0xff] { let mut b = e.to_vec(); for _ in 0..3 { b.push(x); f(&b); } }
    let mut b = e.to_vec();
    for i in 0..e.len() {
        let o = b[i];
        for &x in subst { if x != o { b[i] = x; f(&b); } }
        for x in [o.wrapping_add(1), o.wrapping_sub(1), o ^ 0x80] { if x != o && !subst.contains(&x) { b[i] = x; f(&b); } }
        b[i] = o;
    }
    // Removing or repeating a byte.
    for i in 0..e.len() {
        let mut b = e.to_vec(); b.remove(i); f(&b);
        let mut b = e.to_vec(); b.insert(i, e[i]); f(&b);
    }
}
/// Two substituted bytes.
pub fn ball2(e: &[u8], subst: &[u8], f: &mut dyn FnMut(&[u8])) {
    let mut b = e.to_vec();
    for i in 0..e.len() { for j in i + 1..e.len() {
        for &x in subst { if x == e[i] { continue; } b[i] = x; for &y in subst { if y == e[j] { continue; } b[j] = y; f(&b); } }
        b[i] = e[i]; b[j] = e[j];
    } }
}
/// Encodings of the given values, skipping those which cannot be written.
pub fn encodings(sh: &Shape, vals: &[Val], be: bool) -> Vec<(usize, Vec<u8>)> {
    vals.iter().enumerate().filter_map(|(i, v)| enc(sh, v, be).ok().map(|b| (i, b))).collect()
}
