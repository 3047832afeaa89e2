//! Variable length integers (C16) and the helpers of `Endianness` (C25).
use vcore::util::*;
use crate::ops::put_varint;
use speedy::{Endianness, Readable, Reader, Writable, Writer};
use std::cell::Cell;
use std::io::ErrorKind;
use vcore::inputs::SUBST;
use vcore::run::Check;
use vcore::*;

type E = speedy::Error;
/// What a varint is according to the documentation of the format: the value, and how long it is.
fn spec(d: &[u8]) -> Option<(u64, usize)> {
    let mut c = Cur::new(d, false);
    c.varint().ok().map(|v| (v, c.pos))
}
struct Wr(u64);
impl Writable<Endianness> for Wr { fn write_to<T: ?Sized + Writer<Endianness>>(&self, w: &mut T) -> Result<(), E> { w.write_u64_varint(self.0) } }
#[derive(Readable, Writable)]
struct Field { #[speedy(varint)] x: u64 }
#[derive(Readable, Writable)]
struct Len { #[speedy(length_type = u64_varint)] x: Vec<u8> }
thread_local!(static LOG: Cell<[(u8, u64); 6]> = const { Cell::new([(9, 0); 6]) });
/// Peeks twice, reads, and takes the byte behind: each outcome is (0, value) or (1 for end of input, 2 for another error).
struct Probe;
impl<'a> Readable<'a, Endianness> for Probe {
    fn read_from<R: Reader<'a, Endianness>>(r: &mut R) -> Result<Self, E> {
        let o = |x: Result<u64, E>| match x { Ok(v) => (0, v), Err(e) => (if classify(&e).is_end() { 1 } else { 2 }, 0) };
        let mut l = [(9, 0); 6];
        l[0] = o(r.peek_u64_varint());
        l[1] = o(r.peek_u64_varint());
        l[2] = o(r.peek_u8().map(|x| x as u64));
        l[3] = o(r.read_u64_varint());
        if l[3].0 == 0 { l[4] = o(r.read_u8().map(|x| x as u64)); l[5] = o(r.read_u64_varint()); }
        LOG.with(|c| c.set(l));
        Ok(Probe)
    }
}
/// Only reads.
struct Plain(u64);
impl<'a> Readable<'a, Endianness> for Plain { fn read_from<R: Reader<'a, Endianness>>(r: &mut R) -> Result<Self, E> { r.read_u64_varint().map(Plain) } }

fn probe(r: &mut Run, d: &[u8], be: bool, from: Feed) {
    r.case(|| format!("peek and read a varint of {} {} from {from:?}", hex(d), ends(be)));
    r.traces += 1; r.transitions += 4;
    LOG.with(|c| c.set([(9, 0); 6]));
    let res = guard(|| read_as::<_, Probe>(en(be), from, d, 0, ErrorKind::Other, &Cell::new(false)).is_ok());
    set_capacity(0);
    let l = LOG.with(|c| c.get());
    let mut want = [(9u8, 0u64); 6];
    let some = |x: Option<u64>| match x { Some(v) => (0, v), None => (1, 0) };
    let v = spec(d);
    want[0] = some(v.map(|x| x.0));
    want[1] = want[0];
    want[2] = some(d.first().map(|x| *x as u64));
    want[3] = want[0];
    if let Some((_, n)) = v { want[4] = some(d.get(n).map(|x| *x as u64)); want[5] = some(if d.len() > n { spec(&d[n + 1..]).map(|x| x.0) } else { None }); }
    if res != Ok(true) || l != want { r.fail(&format!("{:?} {:?}", std::mem::discriminant(&from), d.first()), format!("{} ({}) from {from:?}: peek, peek, peek_u8, read, next byte, next varint are {l:x?}, and should be {want:x?} {}", hex(d), ends(be), res.err().unwrap_or_default())); }
}
fn feeds(all: bool) -> Vec<Feed> {
    let mut v = vec![Feed::Buffer, Feed::Copying, Feed::User];
    let caps: &[usize] = if !cfg!(speedy_verif) { &[0] } else if all { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { &[0, 1, 5, 8] };
    let masks: &[u64] = if all { &[0, u64::MAX, 0x555, 0x249, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200] } else { &[0, u64::MAX, 4] };
    for &m in masks { v.push(Feed::Unbuf(m, m == 0x555)); for &c in caps { v.push(Feed::Buf(c, m, m == 0x249)); } }
    v
}
fn c16(r: &mut Run) {
    let th = r.thorough;
    // Values: all the small ones, all with few bits set or cleared, and everything around where the length changes.
    let small: u64 = if th { 1 << 24 } else { 1 << 21 };
    let step = 1 << 14;
    let mut blocks: Vec<Vec<u64>> = (0..small / step).map(|b| (b * step..(b + 1) * step).collect()).collect();
    for i in 0..64u32 { let mut v = vec![]; for j in 0..=i { v.push(1 << i | 1 << j); v.push(!(1u64 << i | 1 << j)); for k in 0..=j { v.push(1 << i | 1 << j | 1 << k); v.push(!(1u64 << i | 1 << j | 1 << k)); v.push((1 << i) - (1 << j) + (1 << k) - 1); } } for d in 0..2000 { v.push((1u64 << i).wrapping_add(d)); v.push((1u64 << i).wrapping_sub(d)); } for b in 0..=255u64 { for s in 0..8 { v.push(b << (8 * s) ^ (1 << i)); } } blocks.push(v); }
    for block in blocks {
        if !r.unit() { continue; }
        let mut out = [0xeeu8; 12];
        for v in &block {
            let v = *v;
            if !r.see(&v) { continue; }
            let mut want = vec![];
            put_varint(v, &mut want);
            for be in BES {
                r.case(|| format!("write the varint {v:#x} {}", ends(be)));
                r.traces += 1; r.transitions += 4;
                let bad = guard(|| {
                    if Wr(v).write_to_vec_with_ctx(en(be)).ok().as_ref() != Some(&want) { return Some("written to a vector"); }
                    if Wr(v).bytes_needed().ok() != Some(want.len()) { return Some("measured"); }
                    if (Field { x: v }).write_to_vec_with_ctx(en(be)).ok().as_ref() != Some(&want) { return Some("written as a field"); }
                    let mut o = vec![];
                    if Wr(v).write_to_stream_with_ctx(en(be), &mut o).is_err() || o != want { return Some("written to a stream"); }
                    for n in 0..=10 { out.fill(0xee); let ok = Wr(v).write_to_buffer_with_ctx(en(be), &mut out[..n]).is_ok(); if ok != (n >= want.len()) || (ok && out[..want.len()] != want[..]) || (ok && out[want.len()..].iter().any(|x| *x != 0xee)) { return Some("written to a buffer"); } }
                    let (x, n) = Plain::read_with_length_from_buffer_with_ctx(en(be), &want);
                    if x.ok().map(|x| x.0) != Some(v) || n != want.len() { return Some("read from a buffer"); }
                    if Field::read_from_buffer_with_ctx(en(be), &want).ok().map(|x| x.x) != Some(v) { return Some("read as a field"); }
                    if Plain::read_from_stream_unbuffered_with_ctx(en(be), &want[..]).ok().map(|x| x.0) != Some(v) { return Some("read from a stream"); }
                    // What follows does not matter.
                    let mut more = want.clone();
                    for x in 0..40u8 { more.push(x.wrapping_mul(29) ^ 0xa5); }
                    for n in [1, 6, 7, 8, 9, 15, 16, 40] {
                        let (x, used) = Plain::read_with_length_from_buffer_with_ctx(en(be), &more[..want.len() + n]);
                        if x.ok().map(|x| x.0) != Some(v) || used != want.len() { return Some("read from a buffer with more in it"); }
                    }
                    for n in 0..want.len() { match Plain::read_from_buffer_with_ctx(en(be), &want[..n]) { Err(e) if classify(&e).is_end() => {}, _ => return Some("read from a truncated buffer") } }
                    None
                });
                match bad { Ok(None) => {}, Ok(Some(how)) => r.fail(&format!("value {how}"), format!("{v:#x} ({}) is wrong when {how}; its encoding is {}", ends(be), hex(&want))), Err(p) => r.fail("value panic", format!("{v:#x}: {p}")) }
            }
            if r.stop() { return; }
        }
        r.sample(|| format!("{} values such as {:#x}, written and read back", block.len(), block[block.len() / 2]));
    }
    // Lengths.
    for n in (0..300).chain([16382, 16383, 16384, 16385, (1 << 21) - 1, 1 << 21]) {
        if !r.unit() { continue; }
        let mut want = vec![];
        put_varint(n as u64, &mut want);
        want.resize(want.len() + n, 7);
        let x = Len { x: vec![7; n] };
        r.case(|| format!("a vector of {n} bytes with a varint length"));
        r.traces += 1; r.transitions += 2;
        let ok = guard(|| x.write_to_vec_with_ctx(en(true)).ok().as_ref() == Some(&want) && Len::read_from_buffer_with_ctx(en(true), &want).map_or(false, |y| y.x == x.x) && Len::read_from_stream_buffered_with_ctx(en(false), &want[..]).map_or(false, |y| y.x == x.x));
        if ok != Ok(true) { r.fail("length", format!("a vector of {n} bytes with a varint length is wrong")); }
    }
    // Every pattern, shortest or not: exhaustively for up to three bytes, and the patterns of any two bytes in longer ones.
    for first in 0..=255u8 {
        let extra = first.leading_ones() as usize;
        if !r.unit() { continue; }
        let mut pats: Vec<Vec<u8>> = vec![];
        match extra {
            0 => pats.push(vec![first]),
            1 => for x in 0..=255 { pats.push(vec![first, x]); },
            2 => for x in 0..=255 { for y in SUBST { pats.push(vec![first, x, y]); pats.push(vec![first, y, x]); } },
            n => {
                let vals: Vec<u8> = if th { (0..=255).collect() } else { SUBST.to_vec() };
                for i in 1..=n { for j in i + 1..=n { for &x in &vals { for y in SUBST { for fill in [0u8, 0xff, 0x80] { let mut p = vec![fill; n + 1]; p[0] = first; p[i] = x; p[j] = y; pats.push(p); } } } } }
                for s in 1..=255u8 { let mut p = vec![first]; for i in 0..n { p.push(s.wrapping_mul(i as u8 + 1)); } pats.push(p); }
            }
        }
        pats.sort(); pats.dedup();
        let (few, many) = (feeds(false), feeds(true));
        for (k, p) in pats.iter().enumerate() {
            r.see(&p);
            let mut d = p.clone();
            d.extend([0x55, 0x81, 0x23]);
            let be = k % 2 == 1;
            let mut long = d.clone();
            long.extend((0..40u8).map(|x| x.wrapping_mul(29) ^ 0xa5));
            for f in if k < 8 { &many } else { &few } { probe(r, &long, be, *f); }
            // Everything at first, and then what matters.
            for f in if k < 8 || (th && k % 16 == 0) { &many } else if extra <= 1 { &many } else { &few } { probe(r, &d, be, *f); }
            if k < 64 { for n in 0..=d.len() { for f in if k < 8 { &many } else { &few } { probe(r, &d[..n], be, *f); } } }
            if r.stop() { return; }
        }
        r.sample(|| format!("{} varints starting with {first:#x}, peeked and read, complete and truncated, from {} kinds of sources", pats.len(), many.len()));
    }
}

// ---- Endianness ----

/// Values of `n` bytes which tell every byte from every other.
fn patterns(n: usize, th: bool) -> Vec<u128> {
    let mask = if n == 16 { u128::MAX } else { (1 << (8 * n)) - 1 };
    let mut v: Vec<u128> = vec![0, mask, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & mask, 0xfffe_fdfc_fbfa_f9f8_f7f6_f5f4_f3f2_f1f0 & mask];
    if n <= 2 { v.extend(0..=mask); return v; }
    for i in 0..8 * n { v.push(1 << i); v.push(mask ^ (1 << i)); for j in 0..i { v.push(1 << i | 1 << j); v.push(mask ^ (1 << i | 1 << j)); } }
    for i in 0..n { for b in 0..=255u128 { v.push(b << (8 * i)); for j in 0..i { for c in if th { &SUBST[..] } else { &[0x01u8, 0x7f, 0x80, 0xff][..] } { v.push(b << (8 * i) | (*c as u128) << (8 * j)); } } } }
    // Floats with a meaning of their own: signalling and quiet NaN with payloads, infinities, subnormals.
    for x in [0x7f80_0001u128, 0x7fa0_0000, 0xff80_0001, 0x7fc0_0001, 0x8000_0000, 0x7f80_0000, 1, 0x7ff0_0000_0000_0001, 0x7ff4_0000_0000_0000, 0xfff8_0000_0000_0001, 0x7ff0_0000_0000_0000] { v.push(x & mask); }
    v.sort(); v.dedup();
    v
}
macro_rules! endian {
    ($r:expr, $th:expr, $($t:ty, $u:ty, $n:expr, $read:ident, $swap:ident, $slice:ident, $of:expr, $to:expr;)*) => { $(
        let pats = patterns($n, $th);
        for chunk in pats.chunks(4096) {
            if !$r.unit() { continue; }
            for &v in chunk { for be in BES {
                if !$r.see(&(v, be)) { continue; }
                $r.case(|| format!("{} {v:#x} {}", stringify!($read), ends(be)));
                $r.traces += 1; $r.transitions += 3;
                let u = v as $u;
                let bytes = if be { u.to_be_bytes() } else { u.to_le_bytes() };
                let want_swap = if en(be) == Endianness::NATIVE { u } else { <$u>::from_ne_bytes({ let mut b = u.to_ne_bytes(); b.reverse(); b }) };
                let res = guard(|| {
                    // At an odd address as well.
                    let mut room = [0u8; 40];
                    for off in 0..2 {
                        room[off..off + $n].copy_from_slice(&bytes);
                        let x: $t = en(be).$read(&room[off..off + $n]);
                        if $to(x) != u { return Some((stringify!($read), $to(x) as u128, u as u128)); }
                    }
                    let mut x: $t = $of(u);
                    en(be).$swap(&mut x);
                    if $to(x) != want_swap { return Some((stringify!($swap), $to(x) as u128, want_swap as u128)); }
                    en(be).$swap(&mut x);
                    if $to(x) != u { return Some(("swapping twice", $to(x) as u128, u as u128)); }
                    let mut s: [$t; 3] = [$of(u), $of(!u), $of(u.rotate_left(8))];
                    en(be).$slice(&mut s[..2]);
                    if $to(s[0]) != want_swap || $to(s[1]) != !want_swap { return Some((stringify!($slice), $to(s[0]) as u128, want_swap as u128)); }
                    if $to(s[2]) != u.rotate_left(8) { return Some(("beyond the slice", $to(s[2]) as u128, u as u128)); }
                    None
                });
                match res { Ok(None) => {}, Ok(Some((what, got, want))) => $r.fail(what, format!("{what} of {v:#x} ({}): {got:#x} instead of {want:#x}", ends(be))), Err(p) => $r.fail(stringify!($read), format!("{} of {v:#x} ({}): {p}", stringify!($read), ends(be))) }
            } }
            $r.sample(|| format!("{}, {} and {} of {} values", stringify!($read), stringify!($swap), stringify!($slice), chunk.len()));
        }
        if $r.unit() {
            for be in BES {
                // Slices of any length, anywhere within something larger.
                for n in (0..=if $th { 300usize } else { 70 }).chain([127, 128, 129, 255, 256, 257, 1000]) { for off in [0usize, 1, 3] {
                    $r.case(|| format!("{} of {n} elements {}", stringify!($slice), ends(be)));
                    $r.traces += 1; $r.transitions += 1; $r.see(&(n, off, be));
                    let all: Vec<$u> = (0..n + off + 2).map(|i| (0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10u128.wrapping_mul(2 * i as u128 + 1)) as $u).collect();
                    let mut s: Vec<$t> = all.iter().map(|x| $of(*x)).collect();
                    let res = guard(|| { en(be).$slice(&mut s[off..off + n]); });
                    let ok = res.is_ok() && s.iter().enumerate().all(|(i, x)| $to(*x) == if i >= off && i < off + n && en(be) != Endianness::NATIVE { all[i].swap_bytes() } else { all[i] });
                    if !ok { $r.fail(stringify!($slice), format!("{} of {n} elements at {off} ({}) is wrong: {res:?}", stringify!($slice), ends(be))); }
                } }
                // A slice of the wrong length has to be refused.
                for n in 0..=40usize {
                    if n == $n { continue; }
                    $r.case(|| format!("{} of {n} bytes {}", stringify!($read), ends(be)));
                    $r.traces += 1; $r.transitions += 1;
                    let b = vec![7u8; n];
                    if let Ok(x) = guard(|| -> $t { en(be).$read(&b) }) { $r.fail(stringify!($read), format!("{} of {n} bytes ({}) gives {:#x} instead of a panic", stringify!($read), ends(be), $to(x))); }
                }
            }
        }
    )* }
}
fn c25(r: &mut Run) {
    let th = r.thorough;
    endian! { r, th,
        u16, u16, 2, read_u16, swap_u16, swap_slice_u16, |x: u16| x, |x: u16| x;
        i16, u16, 2, read_i16, swap_i16, swap_slice_i16, |x: u16| x as i16, |x: i16| x as u16;
        u32, u32, 4, read_u32, swap_u32, swap_slice_u32, |x: u32| x, |x: u32| x;
        i32, u32, 4, read_i32, swap_i32, swap_slice_i32, |x: u32| x as i32, |x: i32| x as u32;
        u64, u64, 8, read_u64, swap_u64, swap_slice_u64, |x: u64| x, |x: u64| x;
        i64, u64, 8, read_i64, swap_i64, swap_slice_i64, |x: u64| x as i64, |x: i64| x as u64;
        u128, u128, 16, read_u128, swap_u128, swap_slice_u128, |x: u128| x, |x: u128| x;
        i128, u128, 16, read_i128, swap_i128, swap_slice_i128, |x: u128| x as i128, |x: i128| x as u128;
        f32, u32, 4, read_f32, swap_f32, swap_slice_f32, f32::from_bits, |x: f32| x.to_bits();
        f64, u64, 8, read_f64, swap_f64, swap_slice_f64, f64::from_bits, |x: f64| x.to_bits();
    }
    if r.unit() {
        for be in BES {
            r.case(|| "the native order".into());
            let native = if cfg!(target_endian = "big") { true } else { false };
            if en(be).conversion_necessary() != (be != native) || (Endianness::NATIVE == en(be)) != (be == native) { r.fail("native", format!("conversion_necessary of {} is wrong", ends(be))); }
            for n in 0..40usize {
                let mut a: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(1)).collect();
                let b = a.clone();
                en(be).swap_slice_u8(&mut a);
                if a != b { r.fail("swap_slice_u8", format!("swap_slice_u8 of {n} bytes ({}) changes them", ends(be))); }
                let mut a: Vec<i8> = (0..n).map(|i| (i as i8).wrapping_mul(3).wrapping_sub(50)).collect();
                let b = a.clone();
                en(be).swap_slice_i8(&mut a);
                if a != b { r.fail("swap_slice_i8", format!("swap_slice_i8 of {n} bytes ({}) changes them", ends(be))); }
                r.traces += 2; r.transitions += 2; r.see(&(n, be));
            }
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C16", level: "model_checking", run: c16, rule: "Values: all up to a bound, all with up to three bits set or cleared, and all around every power of two. Patterns: every first byte with all (up to two further bytes) or any two of the further bytes varied, complete and truncated, peeked twice, read, and what follows read, from every kind of source with every small internal buffer. State: value or pattern.", assumptions: &["the format as described in src/varint.rs of the base commit"] },
        Check { id: "C25", level: "exploration", run: c25, rule: "Every 16 bit value, and for wider types all values with up to two bits set or cleared and any byte with any other byte out of a few, through read_*, swap_* and swap_slice_*; slices of every length up to a bound; wrong lengths. Distinct: (value, byte order).", assumptions: &[] },
    ]
}
