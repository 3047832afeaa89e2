//! C18: what is borrowed from the input is exactly the right part of it, and nothing else ever is.
use vcore::util::*;
use speedy::{Endianness, LittleEndian, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use vcore::env::Split;
use vcore::run::Check;
use vcore::*;

/// A part of the input which something is supposed to be read from.
#[derive(Clone, Debug)]
pub struct Span { at: usize, len: usize, align: usize, /// Nothing but a borrow will do.
    inherent: bool, /// It has to borrow if it can.
    must: bool }
/// Lays an input out.
pub struct Lay { pub b: Vec<u8>, pub spans: Vec<Span>, pub be: bool }
impl Lay {
    pub fn num(&mut self, v: usize, w: usize) -> &mut Self { for i in 0..w { self.b.push((v >> (8 * if self.be { w - 1 - i } else { i })) as u8); } self }
    pub fn len(&mut self, n: usize) -> &mut Self { self.num(n, 4) }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self { self.b.extend_from_slice(b); self }
    fn put(&mut self, len: usize, align: usize, inherent: bool, must: bool) -> &mut Self {
        let at = self.b.len();
        for i in 0..len { let c = 0x21 + ((at + i) * 7 % 89) as u8; self.b.push(c); }
        self.spans.push(Span { at, len, align, inherent, must });
        self
    }
    /// Something which borrows or fails.
    pub fn hard(&mut self, len: usize, align: usize) -> &mut Self { self.put(len, align, true, true) }
    /// Something which borrows if possible.
    pub fn soft(&mut self, n: usize, size: usize, align: usize) -> &mut Self { let must = size == 1 || !self.be; self.put(n * size, align, false, must) }
    /// Something which may borrow, or not.
    pub fn free(&mut self, n: usize, size: usize) -> &mut Self { self.put(n * size, 1, false, false) }
}
/// What was read, in order: where it is, whether it is borrowed, and what it contains (as bytes, in the order of the input).
pub struct Look { p: usize, borrowed: bool, bytes: Vec<u8> }
pub trait Looks { fn look(&self, be: bool, o: &mut Vec<Look>); }
pub trait Raw: Copy { fn raw(&self, be: bool) -> Vec<u8>; }
macro_rules! raws { ($($t:ty)*) => { $(impl Raw for $t { fn raw(&self, be: bool) -> Vec<u8> { if be { self.to_be_bytes().to_vec() } else { self.to_le_bytes().to_vec() } } })* } }
raws!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64);
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct P3 { a: u8, b: u16 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct P2 { a: u8, b: i8 }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct Tr(u32);
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct Fo { a: u16, b: u16 }
#[derive(Readable, Writable, Clone, Copy)] pub struct Nc { a: u16, b: u8 }
impl Raw for P3 { fn raw(&self, be: bool) -> Vec<u8> { [self.a.raw(be), { self.b }.raw(be)].concat() } }
impl Raw for P2 { fn raw(&self, be: bool) -> Vec<u8> { [self.a.raw(be), self.b.raw(be)].concat() } }
impl Raw for Tr { fn raw(&self, be: bool) -> Vec<u8> { self.0.raw(be) } }
impl Raw for Fo { fn raw(&self, be: bool) -> Vec<u8> { [self.a.raw(be), self.b.raw(be)].concat() } }
impl Raw for Nc { fn raw(&self, be: bool) -> Vec<u8> { [self.a.raw(be), self.b.raw(be)].concat() } }
fn raw_all<T: Raw>(x: &[T], be: bool) -> Vec<u8> { x.iter().flat_map(|x| x.raw(be)).collect() }
impl<'a> Looks for &'a str { fn look(&self, _: bool, o: &mut Vec<Look>) { o.push(Look { p: self.as_ptr() as usize, borrowed: true, bytes: self.as_bytes().to_vec() }) } }
impl<'a, T: Raw> Looks for &'a [T] { fn look(&self, be: bool, o: &mut Vec<Look>) { let p = self.as_ptr() as usize; assert!(p % std::mem::align_of::<T>() == 0, "a misaligned reference"); o.push(Look { p, borrowed: true, bytes: raw_all(self, be) }) } }
impl<'a, T: Raw, const N: usize> Looks for &'a [T; N] { fn look(&self, be: bool, o: &mut Vec<Look>) { let p = self.as_ptr() as usize; assert!(p % std::mem::align_of::<T>() == 0, "a misaligned reference"); o.push(Look { p, borrowed: true, bytes: raw_all(&self[..], be) }) } }
impl<'a> Looks for Cow<'a, str> { fn look(&self, _: bool, o: &mut Vec<Look>) { o.push(Look { p: self.as_ptr() as usize, borrowed: matches!(self, Cow::Borrowed(_)), bytes: self.as_bytes().to_vec() }) } }
impl<'a, T: Raw> Looks for Cow<'a, [T]> { fn look(&self, be: bool, o: &mut Vec<Look>) { let p = self.as_ptr() as usize; assert!(p % std::mem::align_of::<T>() == 0, "a misaligned reference"); o.push(Look { p, borrowed: matches!(self, Cow::Borrowed(_)), bytes: raw_all(self, be) }) } }
impl<T: Looks> Looks for Vec<T> { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|x| x.look(be, o)) } }
impl<T: Looks> Looks for Box<[T]> { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|x| x.look(be, o)) } }
impl<T: Looks, const N: usize> Looks for [T; N] { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|x| x.look(be, o)) } }
impl<T: Looks> Looks for Option<T> { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|x| x.look(be, o)) } }
impl<T: Looks, E: Looks> Looks for Result<T, E> { fn look(&self, be: bool, o: &mut Vec<Look>) { match self { Ok(x) => x.look(be, o), Err(x) => x.look(be, o) } } }
impl<A: Looks, B: Looks> Looks for (A, B) { fn look(&self, be: bool, o: &mut Vec<Look>) { self.0.look(be, o); self.1.look(be, o) } }
impl<A: Looks, B: Looks, C: Looks> Looks for (A, B, C) { fn look(&self, be: bool, o: &mut Vec<Look>) { self.0.look(be, o); self.1.look(be, o); self.2.look(be, o) } }
impl<K: Looks, V: Looks> Looks for BTreeMap<K, V> { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|(k, v)| { k.look(be, o); v.look(be, o) }) } }
impl<K: Looks, V: Looks> Looks for HashMap<K, V> { fn look(&self, be: bool, o: &mut Vec<Look>) { self.iter().for_each(|(k, v)| { k.look(be, o); v.look(be, o) }) } }
macro_rules! blind { ($($t:ty)*) => { $(impl Looks for $t { fn look(&self, _: bool, _: &mut Vec<Look>) {} })* } }
blind!(u8 u16 u32);

#[derive(Readable)]
pub struct D1<'a> { pub n: u8, #[speedy(length = n)] pub a: &'a str, #[speedy(length = n)] pub b: &'a [u8], #[speedy(length = n)] pub c: Cow<'a, str>, #[speedy(length = n)] pub d: Cow<'a, [u16]>, #[speedy(length = n * 2)] pub e: &'a [i8] }
#[derive(Readable)]
pub struct D2<'a> { #[speedy(length_type = u7)] pub a: &'a str, #[speedy(length_type = u16)] pub b: Cow<'a, [u32]>, #[speedy(length_type = u64_varint)] pub c: &'a [u8], #[speedy(length_type = u8)] pub d: Option<Cow<'a, str>>, #[speedy(length_type = u64)] pub e: Option<&'a [u8]> }
#[derive(Readable)]
pub struct D3<'a> { pub x: u8, #[speedy(length = ..)] pub a: &'a [u8] }
#[derive(Readable)]
pub struct D4<'a> { pub x: u16, #[speedy(length = ..)] pub a: &'a str }
#[derive(Readable)]
pub struct D5<'a> { pub x: u8, #[speedy(length = ..)] pub a: Cow<'a, [u16]> }
#[derive(Readable)]
pub struct D6<'a> { #[speedy(skip)] pub s: u32, #[speedy(constant_prefix = b"PFX")] pub a: &'a [u8; 3], pub b: Cow<'a, [u8]>, #[speedy(default_on_eof)] pub c: &'a str }
#[derive(Readable)]
#[speedy(tag_type = u8)]
pub enum D7<'a> { A(&'a str), B { x: Cow<'a, [u64]>, y: &'a [u8] }, C(Option<Cow<'a, str>>, u8) }
#[derive(Readable)]
pub struct D8<'a> { pub x: u8, #[speedy(length = ..)] pub a: &'a [i8] }
#[derive(Readable)]
pub struct D9<'a> { pub x: u8, #[speedy(length = ..)] pub a: Cow<'a, str> }
/// With elements which are wider than a byte; these exist for the native byte order only.
#[derive(Readable)]
pub struct N1<'a, A> { pub n: u8, #[speedy(length = n)] pub a: &'a [u16], pub b: &'a [A; 2], pub c: &'a [u32], #[speedy(length_type = u16)] pub d: &'a [u16] }
#[derive(Readable)]
pub struct N2<'a, A, B> { pub x: u8, pub y: Vec<&'a [A; 1]>, pub z: Vec<&'a [B]>, pub s: &'a [P3] }
#[derive(Readable)]
pub struct N3<'a> { pub x: u8, #[speedy(length = ..)] pub a: &'a [P3] }
macro_rules! fields { ($($t:ident $($f:ident)*;)*) => { $(impl<'a> Looks for $t<'a> { fn look(&self, be: bool, o: &mut Vec<Look>) { $(Looks::look(&self.$f, be, o);)* } })* } }
fields!(D1 a b c d e; D2 a b c d e; D3 a; D4 a; D5 a; D6 a b c; D8 a; D9 a; N3 a;);
impl<'a> Looks for N1<'a, u64> { fn look(&self, be: bool, o: &mut Vec<Look>) { Looks::look(&self.a, be, o); Looks::look(&self.b, be, o); Looks::look(&self.c, be, o); Looks::look(&self.d, be, o); } }
impl<'a> Looks for N2<'a, u32, u16> { fn look(&self, be: bool, o: &mut Vec<Look>) { Looks::look(&self.y, be, o); Looks::look(&self.z, be, o); Looks::look(&self.s, be, o); } }
impl<'a> Looks for D7<'a> { fn look(&self, be: bool, o: &mut Vec<Look>) { match self { D7::A(a) => a.look(be, o), D7::B { x, y } => { x.look(be, o); y.look(be, o) } D7::C(a, _) => a.look(be, o) } } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum From { Copying, Unbuf, Buf, SplitBuf, File, User }
type Got = Result<Vec<Look>, Cls>;
struct Case { name: &'static str, orders: &'static [bool], buf: fn(&[u8], bool) -> (Got, usize), other: fn(&Run, Vec<u8>, bool, From) -> Got, lay: fn(&mut Lay, [usize; 3]), most: [usize; 3] }

/// The value is looked at after what it was read from is gone.
fn gone(mut d: Vec<u8>) { for x in d.iter_mut() { *x = 0xcc; } std::hint::black_box(&d); drop(d); }
macro_rules! case {
    ($v:ident, $orders:expr, $ctx:expr, $t:ty, $most:expr, $lay:expr) => { $v.push({
        type T<'a> = $t;
        fn buf(d: &[u8], be: bool) -> (Got, usize) {
            let (x, n) = T::read_with_length_from_buffer_with_ctx($ctx(be), d);
            (x.map(|x| { let mut o = vec![]; Looks::look(&x, be, &mut o); o }).map_err(|e| classify(&e)), n)
        }
        fn other(r: &Run, d: Vec<u8>, be: bool, from: From) -> Got {
            let c = $ctx(be);
            let x: Result<T<'static>, speedy::Error> = match from {
                From::Copying => T::read_from_buffer_copying_data_with_ctx(c, &d),
                From::Unbuf => T::read_from_stream_unbuffered_with_ctx(c, &d[..]),
                From::Buf => T::read_from_stream_buffered_with_ctx(c, &d[..]),
                From::SplitBuf => { set_capacity(3); let x = T::read_from_stream_buffered_with_ctx(c, Split::new(&d, 0x5555_5555_5555_5555, true)); set_capacity(0); x }
                From::File => { let p = r.dir.join("in"); std::fs::write(&p, &d).unwrap(); let x = T::read_from_file_with_ctx(c, &p); std::fs::write(&p, vec![0xcc; d.len()]).unwrap(); std::fs::remove_file(&p).unwrap(); x }
                From::User => { let d: &'static [u8] = unsafe { std::mem::transmute::<&[u8], _>(&d) }; T::read_from(&mut UserReader { data: d, pos: 0, ctx: c }) }
            };
            gone(d);
            x.map(|x| { let mut o = vec![]; Looks::look(&x, be, &mut o); o }).map_err(|e| classify(&e))
        }
        Case { name: stringify!($t), orders: $orders, buf, other, lay: $lay, most: $most }
    }) };
}
fn both(be: bool) -> Endianness { en(be) }
fn native(_: bool) -> LittleEndian { LittleEndian {} }
fn cases() -> Vec<Case> {
    let mut v = vec![];
    const L: &[bool] = &[false];
    macro_rules! cows { ($($t:ty)*) => { $(
        case!(v, &BES, both, Cow<'a, [$t]>, [40, 0, 0], |l, k| { l.len(k[0]).soft(k[0], size_of::<$t>(), align_of::<$t>()); });
        case!(v, &BES, both, (u8, Cow<'a, [$t]>), [12, 0, 0], |l, k| { l.raw(&[1]).len(k[0]).soft(k[0], size_of::<$t>(), align_of::<$t>()); });
        case!(v, &BES, both, (Cow<'a, [$t]>, Cow<'a, [u8]>, Cow<'a, [$t]>), [4, 4, 4], |l, k| { l.len(k[0]).soft(k[0], size_of::<$t>(), align_of::<$t>()).len(k[1]).soft(k[1], 1, 1).len(k[2]).soft(k[2], size_of::<$t>(), align_of::<$t>()); });
    )* } }
    cows!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 P3 Tr Fo);
    case!(v, &BES, both, Cow<'a, [P2]>, [12, 0, 0], |l, k| { l.len(k[0]).soft(k[0], 2, 1); });
    case!(v, &BES, both, Cow<'a, [Nc]>, [12, 0, 0], |l, k| { l.len(k[0]).free(k[0], 3); });
    macro_rules! refs { ($($t:ty)*) => { $(
        case!(v, L, native, &'a [$t], [40, 0, 0], |l, k| { l.len(k[0]).hard(k[0] * size_of::<$t>(), align_of::<$t>()); });
        case!(v, L, native, (u8, &'a [$t]), [12, 0, 0], |l, k| { l.raw(&[1]).len(k[0]).hard(k[0] * size_of::<$t>(), align_of::<$t>()); });
        case!(v, L, native, (&'a [$t; 3], u8, &'a [$t; 1]), [0, 0, 0], |l, _| { l.hard(3 * size_of::<$t>(), align_of::<$t>()).raw(&[1]).hard(size_of::<$t>(), align_of::<$t>()); });
        case!(v, L, native, (&'a [$t], &'a [u8], Cow<'a, [$t]>), [4, 4, 4], |l, k| { l.len(k[0]).hard(k[0] * size_of::<$t>(), align_of::<$t>()).len(k[1]).hard(k[1], 1).len(k[2]).soft(k[2], size_of::<$t>(), align_of::<$t>()); });
        case!(v, L, native, Vec<&'a [$t]>, [3, 3, 0], |l, k| { l.len(k[0]); for _ in 0..k[0] { l.len(k[1]).hard(k[1] * size_of::<$t>(), align_of::<$t>()); } });
    )* } }
    refs!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 P2 P3 Tr Fo);
    case!(v, &BES, both, &'a str, [80, 0, 0], |l, k| { l.len(k[0]).hard(k[0], 1); });
    case!(v, &BES, both, Cow<'a, str>, [80, 0, 0], |l, k| { l.len(k[0]).soft(k[0], 1, 1); });
    case!(v, &BES, both, &'a [u8], [80, 0, 0], |l, k| { l.len(k[0]).hard(k[0], 1); });
    case!(v, &BES, both, &'a [i8], [80, 0, 0], |l, k| { l.len(k[0]).hard(k[0], 1); });
    case!(v, &BES, both, &'a [u8; 0], [0, 0, 0], |l, _| { l.hard(0, 1); });
    case!(v, &BES, both, &'a [u8; 7], [0, 0, 0], |l, _| { l.hard(7, 1); });
    case!(v, &BES, both, (&'a str, u16, &'a [u8; 5]), [9, 0, 0], |l, k| { l.len(k[0]).hard(k[0], 1).num(7, 2).hard(5, 1); });
    case!(v, &BES, both, Vec<&'a str>, [5, 5, 0], |l, k| { l.len(k[0]); for i in 0..k[0] { l.len(k[1] + i).hard(k[1] + i, 1); } });
    case!(v, &BES, both, Vec<Cow<'a, str>>, [5, 5, 0], |l, k| { l.len(k[0]); for i in 0..k[0] { l.len(k[1] + i).soft(k[1] + i, 1, 1); } });
    case!(v, &BES, both, Box<[Cow<'a, [u32]>]>, [4, 3, 0], |l, k| { l.len(k[0]); for i in 0..k[0] { l.len(k[1] + i).soft(k[1] + i, 4, 4); } });
    case!(v, &BES, both, [&'a [u8]; 2], [5, 5, 0], |l, k| { l.len(k[0]).hard(k[0], 1).len(k[1]).hard(k[1], 1); });
    case!(v, &BES, both, Option<&'a str>, [8, 1, 0], |l, k| { if k[1] == 0 { l.raw(&[1]).len(k[0]).hard(k[0], 1); } else { l.raw(&[0]); } });
    case!(v, &BES, both, Option<Cow<'a, [u16]>>, [8, 1, 0], |l, k| { if k[1] == 0 { l.raw(&[1]).len(k[0]).soft(k[0], 2, 2); } else { l.raw(&[0]); } });
    case!(v, &BES, both, Result<&'a [u8], Cow<'a, [u64]>>, [8, 1, 0], |l, k| { if k[1] == 0 { l.raw(&[1]).len(k[0]).hard(k[0], 1); } else { l.raw(&[0]).len(k[0]).soft(k[0], 8, 8); } });
    case!(v, &BES, both, HashMap<&'a str, Cow<'a, [u16]>>, [4, 4, 0], |l, k| { l.len(1).len(k[0]).hard(k[0], 1).len(k[1]).soft(k[1], 2, 2); });
    // Of the keys only the lengths differ.
    case!(v, &BES, both, BTreeMap<u8, (&'a str, Cow<'a, str>)>, [4, 4, 0], |l, k| { l.len(k[0]); for i in 0..k[0] { l.raw(&[i as u8]).len(k[1]).hard(k[1], 1).len(i).soft(i, 1, 1); } });
    case!(v, &BES, both, D1<'a>, [6, 0, 0], |l, k| { let n = k[0]; l.raw(&[n as u8]).hard(n, 1).hard(n, 1).soft(n, 1, 1).soft(n, 2, 2).hard(2 * n, 1); });
    case!(v, &BES, both, D2<'a>, [3, 3, 3], |l, k| { l.raw(&[k[0] as u8]).hard(k[0], 1).num(k[1], 2).soft(k[1], 4, 4).raw(&[k[2] as u8]).hard(k[2], 1).raw(&[1, k[0] as u8]).soft(k[0], 1, 1).raw(&[1]).num(k[2], 8).hard(k[2], 1); });
    case!(v, &BES, both, D3<'a>, [40, 0, 0], |l, k| { l.raw(&[1]).hard(k[0], 1); });
    case!(v, &BES, both, D4<'a>, [40, 0, 0], |l, k| { l.num(1, 2).hard(k[0], 1); });
    case!(v, &BES, both, D5<'a>, [40, 0, 0], |l, k| { l.raw(&[1]).free(k[0], 2); });
    case!(v, &BES, both, D6<'a>, [6, 6, 0], |l, k| { l.raw(b"PFX").hard(3, 1).len(k[0]).soft(k[0], 1, 1).len(k[1]).hard(k[1], 1); });
    case!(v, &BES, both, D7<'a>, [6, 2, 4], |l, k| { l.raw(&[k[1] as u8]); match k[1] { 0 => { l.len(k[0]).hard(k[0], 1); } 1 => { l.len(k[0]).soft(k[0], 8, 8).len(k[2]).hard(k[2], 1); } _ => { l.raw(&[1]).len(k[0]).soft(k[0], 1, 1).raw(&[9]); } } });
    case!(v, &BES, both, D8<'a>, [40, 0, 0], |l, k| { l.raw(&[1]).hard(k[0], 1); });
    case!(v, &BES, both, D9<'a>, [40, 0, 0], |l, k| { l.raw(&[1]).free(k[0], 1); });
    case!(v, L, native, N1<'a, u64>, [3, 3, 3], |l, k| { l.raw(&[k[0] as u8]).hard(2 * k[0], 2).hard(16, 8).len(k[1]).hard(4 * k[1], 4).num(k[2], 2).hard(2 * k[2], 2); });
    case!(v, L, native, N2<'a, u32, u16>, [2, 3, 3], |l, k| { l.raw(&[1]).len(k[0]); for _ in 0..k[0] { l.hard(4, 4); } l.len(k[1]); for i in 0..k[1] { l.len(i).hard(2 * i, 2); } l.len(k[2]).hard(3 * k[2], 1); });
    case!(v, L, native, N3<'a>, [20, 0, 0], |l, k| { l.raw(&[1]).hard(3 * k[0], 1); });
    v
}
fn compare(l: &Lay, got: &[Look], input: Option<(usize, usize)>) -> Result<(), String> {
    if got.len() != l.spans.len() { return Err(format!("{} parts instead of {}", got.len(), l.spans.len())); }
    for (i, (g, s)) in got.iter().zip(&l.spans).enumerate() {
        if g.bytes != l.b[s.at..s.at + s.len] { return Err(format!("part {i} is {} instead of {}", hex(&g.bytes), hex(&l.b[s.at..s.at + s.len]))); }
        match input {
            None => if g.borrowed && s.len != 0 { return Err(format!("part {i} is borrowed")); },
            Some((base, total)) => {
                let aligned = (base + s.at) % s.align == 0;
                if g.borrowed && s.len != 0 && g.p != base + s.at { return Err(format!("part {i} is borrowed from {} instead of {}", g.p.wrapping_sub(base) as isize, s.at)); }
                if !g.borrowed && g.p >= base && g.p < base + total { return Err(format!("part {i} claims to own a part of the input")); }
                if s.must && aligned && s.len != 0 && !g.borrowed { return Err(format!("part {i} is not borrowed")); }
            }
        }
    }
    Ok(())
}
fn c18(r: &mut Run) {
    let mut scratch = Scratch::default();
    for c in cases() {
        for &be in c.orders {
            if !r.unit() { continue; }
            // A smaller bound than 4 means that the number is not a length.
            let most = if r.thorough { c.most.map(|n| if n >= 4 { 3 * n } else { n }) } else { c.most };
            for k0 in 0..=most[0] { for k1 in 0..=most[1] { for k2 in 0..=most[2] {
                let mut l = Lay { b: vec![], spans: vec![], be };
                (c.lay)(&mut l, [k0, k1, k2]);
                r.states += 1;
                r.see(&(c.name, be, &l.b));
                // What follows is not to be touched, unless it reads until the end.
                for tail in [0usize, 3] {
                    if tail != 0 && matches!(c.name, "D3<'a>" | "D4<'a>" | "D5<'a>" | "D8<'a>" | "D9<'a>" | "N3<'a>") { continue; }
                    let mut d = l.b.clone();
                    d.extend(vec![0x7a; tail]);
                    for off in 0..if r.thorough { 32 } else { 16 } {
                        let data = scratch.place(off, &d);
                        let base = data.as_ptr() as usize;
                        // Without enough alignment a reference cannot be made.
                        let refuse = l.spans.iter().any(|s| s.inherent && s.len != 0 && (base + s.at) % s.align != 0);
                        r.case(|| format!("{} {} of {} at {off}", c.name, ends(be), hex(&d)));
                        r.traces += 1; r.transitions += 1;
                        let m = match guard(|| (c.buf)(data, be)) {
                            Err(m) => m,
                            Ok((Ok(_), _)) if refuse => "a misaligned part of the input was borrowed".into(),
                            Ok((Err(Cls::Other), _)) if refuse => continue,
                            Ok((Err(e), _)) => format!("error {e:?}"),
                            Ok((Ok(g), n)) => match compare(&l, &g, Some((base, d.len()))) { Err(m) => m, Ok(()) if n != l.b.len() => format!("{n} bytes were used instead of {}", l.b.len()), Ok(()) => continue },
                        };
                        r.fail(&format!("{} Buffer", c.name), format!("{} ({}) from {} at offset {off}: {m}", c.name, ends(be), hex(&d)));
                    }
                    let inherent = l.spans.iter().any(|s| s.inherent);
                    for from in [From::Copying, From::Unbuf, From::Buf, From::SplitBuf, From::File, From::User] {
                        if from == From::File && (k0 > 2 || k1 > 2 || k2 > 2) { continue; }
                        r.case(|| format!("{} {} of {} from {from:?}", c.name, ends(be), hex(&d)));
                        r.traces += 1; r.transitions += 1;
                        let m = match guard(|| (c.other)(r, d.clone(), be, from)) {
                            Err(m) => m,
                            Ok(Ok(_)) if inherent => "it reads, but cannot have".into(),
                            Ok(Err(_)) if inherent => continue,
                            Ok(Err(e)) => format!("error {e:?}"),
                            Ok(Ok(g)) => match compare(&l, &g, None) { Err(m) => m, Ok(()) => continue },
                        };
                        r.fail(&format!("{} {from:?}", c.name), format!("{} ({}) from {} via {from:?}: {m}", c.name, ends(be), hex(&d)));
                    }
                }
                if k0 == 2 { r.sample(|| format!("{} ({}): {:?} in {}", c.name, ends(be), l.spans.iter().map(|s| (s.at, s.len)).collect::<Vec<_>>(), hex(&l.b))); }
                if r.stop() { return; }
            } } }
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C18", level: "model_checking", run: c18, rule: "Every borrowing type of a list (145 of them: every element type, alone and nested, with every attribute) x every combination of lengths up to a bound x 16 (32) offsets in memory x byte orders x with and without a tail: the model lays the input out and says which part of it every borrow has to point at; from all other kinds of sources nothing may be borrowed, and the source is overwritten and freed before the value is looked at. State: (type, layout).", assumptions: &["wide elements are borrowed from little endian input only, as the machine is a little endian one"] }]
}
