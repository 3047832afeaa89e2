//! Binds Rust types to the reference model: every type says what its `Shape` is and converts
//! to and from `Val`. `to_val` keeps the iteration order of containers.
use crate::val::*;
use std::borrow::Cow;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::*;
use std::time::{Duration, SystemTime};

pub trait M: Sized {
    fn shape() -> Shape;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

pub const L32: Len = Len::T(Tag::U32);

macro_rules! ints { ($($t:ty, $u:ty;)*) => { $(impl M for $t {
    fn shape() -> Shape { Shape::Bits(std::mem::size_of::<$t>() as u8) }
    fn to_val(&self) -> Val { Val::U(*self as $u as u128) }
    fn from_val(v: &Val) -> Self { v.u() as $u as $t }
})* } }
ints!(u8,u8; u16,u16; u32,u32; u64,u64; u128,u128; usize,usize; i8,u8; i16,u16; i32,u32; i64,u64; i128,u128;);
impl M for f32 { fn shape() -> Shape { Shape::Bits(4) } fn to_val(&self) -> Val { Val::U(self.to_bits() as u128) } fn from_val(v: &Val) -> Self { f32::from_bits(v.u() as u32) } }
impl M for f64 { fn shape() -> Shape { Shape::Bits(8) } fn to_val(&self) -> Val { Val::U(self.to_bits() as u128) } fn from_val(v: &Val) -> Self { f64::from_bits(v.u() as u64) } }

pub fn list_u(xs: &[u128]) -> Vec<Val> { xs.iter().map(|x| Val::U(*x)).collect() }
impl M for bool {
    fn shape() -> Shape { Shape::Custom(Box::new(Shape::Bits(1)), Custom { gen: |_| list_u(&[1, 0]), why: Why::Variant, norm: |v| Some(Val::U((v.u() != 0) as u128)) }) }
    fn to_val(&self) -> Val { Val::U(*self as u128) }
    fn from_val(v: &Val) -> Self { v.u() != 0 }
}
impl M for char {
    fn shape() -> Shape {
        Shape::Custom(Box::new(Shape::Bits(4)), Custom {
            why: Why::Char,
            gen: |l| { let a = list_u(&['a' as u128, 0, 0x10ffff, 0xd7ff, 0xe000, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x010203]); a[..match l { 0 => 2, 1 => 5, _ => a.len() }].to_vec() },
            norm: |v| if v.u() < 0xd800 || (v.u() > 0xdfff && v.u() <= 0x10ffff) { Some(v.clone()) } else { None },
        })
    }
    fn to_val(&self) -> Val { Val::U(*self as u128) }
    fn from_val(v: &Val) -> Self { char::from_u32(v.u() as u32).unwrap() }
}
impl M for () { fn shape() -> Shape { Shape::Rec(vec![]) } fn to_val(&self) -> Val { unit() } fn from_val(_: &Val) -> Self {} }

pub fn string(v: &Val) -> String { String::from_utf8(v.s().to_vec()).unwrap() }
pub fn leak_bytes(b: &[u8]) -> &'static [u8] {
    use std::cell::RefCell;
    thread_local!(static T: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new()));
    T.with(|t| { let mut t = t.borrow_mut(); if let Some(x) = t.get(b) { return *x; } let x: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice()); t.insert(b.to_vec(), x); x })
}
macro_rules! strs { ($($t:ty, $f:expr;)*) => { $(impl<'a> M for $t {
    fn shape() -> Shape { Shape::Str(L32) }
    fn to_val(&self) -> Val { Val::S(self.as_bytes().to_vec()) }
    fn from_val(v: &Val) -> Self { let f: fn(&Val) -> $t = $f; f(v) }
})* } }
strs!(String, |v| string(v); Box<str>, |v| string(v).into_boxed_str(); Cow<'a, str>, |v| Cow::Owned(string(v)); &'a str, |v| std::str::from_utf8(leak_bytes(v.s())).unwrap(););

fn seq<T: M>(k: Kind) -> Shape { Shape::Seq(L32, Box::new(T::shape()), k) }
pub fn list<'x, T: M + 'x>(it: impl IntoIterator<Item = &'x T>) -> Val { Val::L(it.into_iter().map(|x| x.to_val()).collect()) }
pub fn unlist<T: M, C: FromIterator<T>>(v: &Val) -> C { v.l().iter().map(|x| T::from_val(x)).collect() }
fn pairs<'x, K: M + 'x, V: M + 'x>(it: impl IntoIterator<Item = (&'x K, &'x V)>) -> Val { Val::L(it.into_iter().map(|(k, v)| Val::L(vec![k.to_val(), v.to_val()])).collect()) }
fn unpairs<K: M, V: M, C: FromIterator<(K, V)>>(v: &Val) -> C { v.l().iter().map(|x| (K::from_val(&x.l()[0]), V::from_val(&x.l()[1]))).collect() }
fn kv<K: M, V: M>() -> Shape { Shape::Seq(L32, Box::new(Shape::Rec(vec![K::shape(), V::shape()])), Kind::Map) }

impl<T: M> M for Vec<T> { fn shape() -> Shape { seq::<T>(Kind::List) } fn to_val(&self) -> Val { list(self) } fn from_val(v: &Val) -> Self { unlist(v) } }
impl<T: M> M for Box<[T]> { fn shape() -> Shape { seq::<T>(Kind::List) } fn to_val(&self) -> Val { list(self.iter()) } fn from_val(v: &Val) -> Self { unlist::<T, Vec<T>>(v).into() } }
impl<'a, T: M + Clone> M for Cow<'a, [T]> { fn shape() -> Shape { seq::<T>(Kind::List) } fn to_val(&self) -> Val { list(self.iter()) } fn from_val(v: &Val) -> Self { Cow::Owned(unlist(v)) } }
impl<'a, T: M> M for &'a [T] { fn shape() -> Shape { seq::<T>(Kind::List) } fn to_val(&self) -> Val { list(self.iter()) } fn from_val(v: &Val) -> Self { Box::leak(unlist::<T, Vec<T>>(v).into_boxed_slice()) } }
impl<'a, T: M, const N: usize> M for &'a [T; N] { fn shape() -> Shape { <[T; N]>::shape() } fn to_val(&self) -> Val { list(self.iter()) } fn from_val(v: &Val) -> Self { Box::leak(Box::new(<[T; N]>::from_val(v))) } }
impl<T: M> M for Box<T> { fn shape() -> Shape { T::shape() } fn to_val(&self) -> Val { (**self).to_val() } fn from_val(v: &Val) -> Self { Box::new(T::from_val(v)) } }
impl<T: M, const N: usize> M for [T; N] {
    fn shape() -> Shape { Shape::Arr(N, Box::new(T::shape())) }
    fn to_val(&self) -> Val { list(self.iter()) }
    fn from_val(v: &Val) -> Self { let mut i = v.l().iter(); std::array::from_fn(|_| T::from_val(i.next().unwrap())) }
}
impl<T: M + Ord> M for BTreeSet<T> { fn shape() -> Shape { seq::<T>(Kind::Set) } fn to_val(&self) -> Val { list(self) } fn from_val(v: &Val) -> Self { unlist(v) } }
impl<T: M + Eq + Hash, S: BuildHasher + Default> M for HashSet<T, S> { fn shape() -> Shape { seq::<T>(Kind::Set) } fn to_val(&self) -> Val { list(self) } fn from_val(v: &Val) -> Self { unlist(v) } }
impl<K: M + Ord, V: M> M for BTreeMap<K, V> { fn shape() -> Shape { kv::<K, V>() } fn to_val(&self) -> Val { pairs(self) } fn from_val(v: &Val) -> Self { unpairs(v) } }
impl<K: M + Eq + Hash, V: M, S: BuildHasher + Default> M for HashMap<K, V, S> { fn shape() -> Shape { kv::<K, V>() } fn to_val(&self) -> Val { pairs(self) } fn from_val(v: &Val) -> Self { unpairs(v) } }
macro_rules! cows { ($([$($g:tt)*] $t:ty;)*) => { $(impl<'a, $($g)*> M for Cow<'a, $t> {
    fn shape() -> Shape { <$t>::shape() } fn to_val(&self) -> Val { (**self).to_val() } fn from_val(v: &Val) -> Self { Cow::Owned(<$t>::from_val(v)) }
})* } }
cows!([T: M + Ord + Clone] BTreeSet<T>; [T: M + Eq + Hash + Clone] HashSet<T>; [K: M + Ord + Clone, V: M + Clone] BTreeMap<K, V>; [K: M + Eq + Hash + Clone, V: M + Clone] HashMap<K, V>;);

impl<T: M> M for Option<T> {
    fn shape() -> Shape { Shape::Flag(Box::new(Shape::Rec(vec![])), Box::new(T::shape())) }
    fn to_val(&self) -> Val { match self { None => Val::E(0, Box::new(unit())), Some(x) => Val::E(1, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v.e() { (0, _) => None, (_, x) => Some(T::from_val(x)) } }
}
impl<T: M, E: M> M for Result<T, E> {
    fn shape() -> Shape { Shape::Flag(Box::new(E::shape()), Box::new(T::shape())) }
    fn to_val(&self) -> Val { match self { Err(x) => Val::E(0, Box::new(x.to_val())), Ok(x) => Val::E(1, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v.e() { (0, x) => Err(E::from_val(x)), (_, x) => Ok(T::from_val(x)) } }
}
impl<T: M> M for Range<T> { fn shape() -> Shape { Shape::Rec(vec![T::shape(), T::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.start.to_val(), self.end.to_val()]) } fn from_val(v: &Val) -> Self { T::from_val(&v.l()[0])..T::from_val(&v.l()[1]) } }
impl<T: M> M for RangeInclusive<T> { fn shape() -> Shape { Shape::Rec(vec![T::shape(), T::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.start().to_val(), self.end().to_val()]) } fn from_val(v: &Val) -> Self { T::from_val(&v.l()[0])..=T::from_val(&v.l()[1]) } }
macro_rules! tuples { ($($($n:ident $i:tt),*;)*) => { $(impl<$($n: M),*> M for ($($n,)*) {
    fn shape() -> Shape { Shape::Rec(vec![$($n::shape()),*]) }
    fn to_val(&self) -> Val { Val::L(vec![$(self.$i.to_val()),*]) }
    fn from_val(v: &Val) -> Self { ($($n::from_val(&v.l()[$i]),)*) }
})* } }
tuples!(A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;);
macro_rules! atomics { ($($t:ty, $b:ty;)*) => { $(impl M for $t { fn shape() -> Shape { <$b>::shape() } fn to_val(&self) -> Val { self.load(Ordering::SeqCst).to_val() } fn from_val(v: &Val) -> Self { <$t>::new(<$b>::from_val(v)) } })* } }
atomics!(AtomicU8,u8; AtomicU16,u16; AtomicU32,u32; AtomicU64,u64; AtomicI8,i8; AtomicI16,i16; AtomicI32,i32; AtomicI64,i64;);
fn nz_gen<const N: u8>(l: u8) -> Vec<Val> { crate::gen::scalars(N, l).into_iter().filter(|x| *x != 0).map(Val::U).collect() }
macro_rules! nonzeros { ($($t:ident, $b:ty;)*) => { $(impl M for std::num::$t {
    fn shape() -> Shape { Shape::Custom(Box::new(<$b>::shape()), Custom { gen: nz_gen::<{ std::mem::size_of::<$b>() as u8 }>, why: Why::Zero, norm: |v| if v.u() == 0 { None } else { Some(v.clone()) } }) }
    fn to_val(&self) -> Val { self.get().to_val() } fn from_val(v: &Val) -> Self { std::num::$t::new(<$b>::from_val(v)).unwrap() } })* } }
nonzeros!(NonZeroU8,u8; NonZeroU16,u16; NonZeroU32,u32; NonZeroU64,u64; NonZeroI8,i8; NonZeroI16,i16; NonZeroI32,i32; NonZeroI64,i64;);
impl M for std::net::Ipv4Addr { fn shape() -> Shape { Shape::Bits(4) } fn to_val(&self) -> Val { Val::U(u32::from(*self) as u128) } fn from_val(v: &Val) -> Self { (v.u() as u32).into() } }
impl M for std::net::Ipv6Addr { fn shape() -> Shape { Shape::Bits(16) } fn to_val(&self) -> Val { Val::U(u128::from(*self)) } fn from_val(v: &Val) -> Self { v.u().into() } }
impl M for std::net::IpAddr {
    fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0, Shape::Bits(4)), (1, Shape::Bits(16))], peek: false } }
    fn to_val(&self) -> Val { match self { std::net::IpAddr::V4(x) => Val::E(0, Box::new(x.to_val())), std::net::IpAddr::V6(x) => Val::E(1, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v.e() { (0, x) => std::net::IpAddr::V4(M::from_val(x)), (_, x) => std::net::IpAddr::V6(M::from_val(x)) } }
}
const NS: u128 = 1_000_000_000;
pub fn time_vals(max: u128) -> Vec<Val> {
    let mut o = vec![];
    for s in [0x0102030405u128, 0, 1, u32::MAX as u128, max] { for n in [0x01020304u128, 0, 1, NS - 1] { o.push(Val::L(list_u(&[s, n]))); } }
    o
}
fn carry(v: &Val, max: u128) -> Option<Val> {
    let (s, n) = (v.l()[0].u(), v.l()[1].u());
    let s = s + n / NS;
    if s > max { None } else { Some(Val::L(list_u(&[s, n % NS]))) }
}
fn dur_shape() -> Box<Shape> { Box::new(Shape::Rec(vec![Shape::Bits(8), Shape::Bits(4)])) }
fn cut(v: Vec<Val>, l: u8) -> Vec<Val> { let n = match l { 0 => 2, 1 => 8, _ => v.len() }; v.into_iter().take(n).collect() }
impl M for Duration {
    fn shape() -> Shape { Shape::Custom(dur_shape(), Custom { gen: |l| cut(time_vals(u64::MAX as u128), l), why: Why::Time, norm: |v| carry(v, u64::MAX as u128) }) }
    fn to_val(&self) -> Val { Val::L(list_u(&[self.as_secs() as u128, self.subsec_nanos() as u128])) }
    fn from_val(v: &Val) -> Self { Duration::new(v.l()[0].u() as u64, v.l()[1].u() as u32) }
}
impl M for SystemTime {
    fn shape() -> Shape { Shape::Custom(dur_shape(), Custom { gen: |l| cut(time_vals(i64::MAX as u128), l), why: Why::Time, norm: |v| carry(v, i64::MAX as u128) }) }
    fn to_val(&self) -> Val { self.duration_since(SystemTime::UNIX_EPOCH).expect("harness: before the epoch").to_val() }
    fn from_val(v: &Val) -> Self { SystemTime::UNIX_EPOCH + Duration::from_val(v) }
}
impl M for speedy::Endianness {
    fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0, Shape::Rec(vec![])), (1, Shape::Rec(vec![]))], peek: false } }
    fn to_val(&self) -> Val { Val::E((*self == speedy::Endianness::BigEndian) as u32, Box::new(unit())) }
    fn from_val(v: &Val) -> Self { if v.e().0 == 0 { speedy::Endianness::LittleEndian } else { speedy::Endianness::BigEndian } }
}

// Helpers used by the generated derive catalogue.

/// The same type with another kind of length prefix (inside of an `Option`, too).
pub fn relen(s: Shape, l: Len) -> Shape {
    match s {
        Shape::Str(_) => Shape::Str(l),
        Shape::Seq(_, e, k) => Shape::Seq(l, e, k),
        Shape::Flag(a, b) => Shape::Flag(a, Box::new(relen(*b, l))),
        _ => panic!("harness: no length to change"),
    }
}
pub fn revar(s: Shape) -> Shape {
    match s {
        Shape::Bits(8) => Shape::Varint,
        Shape::Flag(a, b) => Shape::Flag(a, Box::new(revar(*b))),
        _ => panic!("harness: not an u64"),
    }
}
