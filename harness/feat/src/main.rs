//! C26: one program, built with different features of the library. It prints what the library does in all enumerated
//! situations, as a number for every type (or in full, for one of them); tools/features.py compares the numbers.
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Out { only: Option<String>, hash: u64, n: u64, bad: bool, inputs: Vec<&'static [u8]> }
impl Out {
    /// What happened, according to the library.
    fn say(&mut self, what: impl FnOnce() -> String, happened: String) {
        self.n += 1;
        let mut h = self.hash;
        for b in happened.bytes().chain([0]) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        self.hash = h;
        if self.only.is_some() { println!("{}\t{happened}", what()); }
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn err(e: speedy::Error) -> String { let d = format!("{e:?}"); format!("error {} {}", e.is_eof(), d) }
fn guard(f: impl FnOnce() -> String) -> String { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into()) }
const ENDS: [Endianness; 2] = [Endianness::LittleEndian, Endianness::BigEndian];

fn one<T: Readable<'static, Endianness> + Writable<Endianness> + Debug>(o: &mut Out, name: &str, vals: Vec<T>) {
    if o.only.as_ref().map_or(false, |x| x != name) { return; }
    o.hash = 0xcbf29ce484222325;
    o.n = 0;
    o.say(|| "minimum".into(), guard(|| T::minimum_bytes_needed().to_string()));
    let mut inputs: Vec<&'static [u8]> = vec![];
    for v in &vals { for e in ENDS {
        let n = guard(|| match v.bytes_needed() { Ok(n) => n.to_string(), Err(e) => err(e) });
        o.say(|| format!("size of {v:?}"), n.clone());
        let Ok(n) = n.parse::<usize>() else { continue };
        for extra in [-1isize, 0, 1, 9] {
            let len = n as isize + extra;
            if len < 0 { continue; }
            let mut buf = vec![0xaau8; len as usize];
            let r = guard(|| match v.write_to_buffer_with_ctx(e, &mut buf) { Ok(()) => "ok".into(), Err(e) => err(e) });
            // What is left in a buffer which is too small does not matter.
            o.say(|| format!("{v:?} {e:?} into {len} bytes"), if r == "ok" { format!("{r} {}", hex(&buf)) } else { r.clone() });
            if extra == 0 && r == "ok" {
                #[cfg(feature = "alloc")]
                { let w = guard(|| match v.write_to_vec_with_ctx(e) { Ok(v) => hex(&v), Err(e) => err(e) }); if w != hex(&buf) { println!("DIFFERENT {name} {v:?} {e:?}: write_to_vec gives {w}, write_to_buffer {}", hex(&buf)); o.bad = true; } }
                #[cfg(feature = "std")]
                { let w = guard(|| { let mut s = vec![]; match v.write_to_stream_with_ctx(e, &mut s) { Ok(()) => hex(&s), Err(e) => err(e) } }); if w != hex(&buf) { println!("DIFFERENT {name} {v:?} {e:?}: write_to_stream gives {w}, write_to_buffer {}", hex(&buf)); o.bad = true; } }
                let b: &'static [u8] = Vec::leak(buf);
                for k in 0..=b.len() { inputs.push(&b[..k]); }
                for i in 0..b.len() { for x in [0, 1, 2, 0x7f, 0x80, 0xc3, 0xff] { let mut c = b.to_vec(); c[i] = x; inputs.push(Vec::leak(c)); } }
                let mut c = b.to_vec(); c.push(7); inputs.push(Vec::leak(c));
            }
        }
    } }
    inputs.extend(o.inputs.iter().copied());
    for b in inputs { for e in ENDS {
        let r = guard(|| { let (r, n) = T::read_with_length_from_buffer_with_ctx(e, b); match r { Ok(v) => format!("{v:?} {n}"), Err(e) => err(e) } });
        let c = guard(|| { let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(e, b); match r { Ok(v) => format!("{v:?} {n}"), Err(e) => err(e) } });
        o.say(|| format!("{e:?} {}", hex(b)), r);
        o.say(|| format!("{e:?} {} copying", hex(b)), c);
    } }
    if o.only.is_none() { println!("{name}\t{:016x}\t{}", o.hash, o.n); }
}
macro_rules! t { ($o:ident; $($t:ty = [$($v:expr),* $(,)?];)*) => { $( one::<$t>(&mut $o, stringify!($t), vec![$($v),*]); )* } }

/// By hand, for when there is no derive.
#[derive(Debug)] struct Hand { a: u16, b: [u8; 3], c: Option<u32> }
impl<'a, C: Context> Readable<'a, C> for Hand {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let a = r.read_u16()?; if r.peek_u8()? == 9 { r.skip_bytes(1)?; } let mut b = [0; 3]; r.read_bytes(&mut b)?; Ok(Hand { a, b, c: r.read_value()? }) }
    fn minimum_bytes_needed() -> usize { 6 }
}
impl<C: Context> Writable<C> for Hand { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u16(self.a)?; w.write_slice(&self.b)?; w.write_value(&self.c) } }
#[derive(Debug)] struct Slice<T: 'static>(&'static [T]);
impl Readable<'static, Endianness> for Slice<u8> { fn read_from<R: Reader<'static, Endianness>>(r: &mut R) -> Result<Self, speedy::Error> { Ok(Slice(r.read_value()?)) } }
impl Readable<'static, Endianness> for Slice<i8> { fn read_from<R: Reader<'static, Endianness>>(r: &mut R) -> Result<Self, speedy::Error> { Ok(Slice(r.read_value()?)) } }
impl Readable<'static, Endianness> for Slice<u16> { fn read_from<R: Reader<'static, Endianness>>(r: &mut R) -> Result<Self, speedy::Error> { r.read_u32()?; Ok(Slice(&[])) } }
impl<T: Writable<Endianness>> Writable<Endianness> for Slice<T> { fn write_to<W: ?Sized + Writer<Endianness>>(&self, w: &mut W) -> Result<(), speedy::Error> { self.0.write_to(w) } }
#[derive(Debug)] struct Varint(u64);
impl<'a, C: Context> Readable<'a, C> for Varint { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { let p = r.peek_u64_varint()?; let v = r.read_u64_varint()?; assert_eq!(p, v); Ok(Varint(v)) } }
impl<C: Context> Writable<C> for Varint { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u64_varint(self.0) } }

#[cfg(feature = "derive")]
mod derived {
    use super::*;
    #[derive(Readable, Writable, Debug, Clone, Copy, PartialEq, Default)] #[repr(C)] pub struct P { pub a: u16, pub b: u16 }
    #[derive(Readable, Writable, Debug, Clone, Copy, PartialEq, Default)] #[repr(transparent)] pub struct Tr(pub u32);
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct S<'a> { pub a: u8, #[speedy(varint)] pub v: u64, #[speedy(length_type = u8)] pub s: &'a [u8], #[speedy(skip)] pub k: u32, pub p: P, #[speedy(length = a.clone() as usize)] pub t: &'a str, #[speedy(default_on_eof)] pub o: Option<u16> }
    #[derive(Readable, Writable, Debug, PartialEq)] #[speedy(tag_type = u8)] pub enum E { #[speedy(tag = 3)] A, B { x: u16, y: [P; 2] }, #[speedy(tag = 0x80)] C(Tr, Option<bool>) }
    #[derive(Readable, Writable, Debug, PartialEq)] #[speedy(tag_type = u64_varint)] pub enum V { A(u8), #[speedy(tag = 300)] B(u16), C }
    #[derive(Readable, Writable, Debug, PartialEq)] #[speedy(tag_type = u16, peek_tag)] pub enum K { #[speedy(tag = 1)] A(u16, u8), #[speedy(tag = 0x203)] B(P), #[speedy(tag = 0)] C { x: u32 } }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct Unit;
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct Rest<'a> { pub n: u8, #[speedy(length = ..)] pub r: &'a [u8] }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct RestStr<'a>(#[speedy(length = ..)] pub &'a str);
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct Opt<'a> { #[speedy(length_type = u16)] pub a: Option<&'a str>, #[speedy(default_on_eof)] pub b: Option<u8>, #[speedy(default_on_eof)] pub c: u32 }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct Sized8<'a> { #[speedy(length = 3usize)] pub a: &'a [u8], pub b: &'a [i8], #[speedy(length_type = u64_varint)] pub c: &'a [u8] }
}
#[cfg(all(feature = "derive", feature = "alloc"))]
mod owned {
    extern crate std as alloc;
    use super::*;
    use super::derived::*;
    use std::borrow::Cow;
    use std::collections::{BTreeMap, BTreeSet};
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct G<T> { #[speedy(constant_prefix = "AB")] pub x: T, #[speedy(constant_prefix = 0x7fu8)] pub y: [T; 2], pub z: (T, Result<T, ()>) }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct O<'a> { #[speedy(length_type = u8)] pub v: Vec<u16>, #[speedy(length_type = u16)] pub s: String, pub c: Cow<'a, str>, #[speedy(length_type = u64_varint)] pub w: Cow<'a, [P]>, pub b: Box<[u8]>, #[speedy(default_on_eof)] pub m: BTreeMap<u8, String> }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct L { pub n: u8, #[speedy(length = n.clone() as usize / 2)] pub v: Vec<Tr>, #[speedy(length_type = u8)] pub o: Option<BTreeSet<u16>>, #[speedy(length = ..)] pub r: Vec<u16> }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct Text { pub a: u8, #[speedy(length = ..)] pub r: String }
    #[derive(Readable, Writable, Debug, PartialEq)] pub enum Tree { Leaf(u8), Node(Box<Tree>, Vec<Tree>) }
    #[derive(Readable, Writable, Debug, PartialEq)] pub struct CowEof<'a> { #[speedy(default_on_eof)] pub a: Cow<'a, [u16]>, #[speedy(length = ..)] pub b: Cow<'a, [u8]> }
}
#[cfg(all(feature = "derive", feature = "std"))]
mod hashed {
    use super::*;
    use super::det::*;
    #[derive(Readable, Writable, Debug)] pub struct H { pub a: DetMap<u8, u16>, pub b: DetSet<u16>, #[speedy(default_on_eof)] pub t: Option<std::time::Duration> }
}
mod det {
    use std::collections::hash_map::DefaultHasher;
    use std::collections::{HashMap, HashSet};
    use std::hash::BuildHasherDefault;
    pub type DetMap<K, V> = HashMap<K, V, BuildHasherDefault<DefaultHasher>>;
    pub type DetSet<K> = HashSet<K, BuildHasherDefault<DefaultHasher>>;
}
fn strings(alphabet: &[u8], max: usize, out: &mut Vec<&'static [u8]>) {
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for n in 0..=max {
        for s in &last { out.push(Vec::leak(s.clone())); }
        if n < max { last = last.iter().flat_map(|s| alphabet.iter().map(move |a| { let mut s = s.clone(); s.push(*a); s })).collect(); }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = args.get(1).map_or(false, |x| x == "thorough");
    let mut o = Out { only: args.get(2).cloned(), hash: 0, n: 0, bad: false, inputs: vec![] };
    if thorough { strings(&[0, 1, 2, 3, 0x41, 0x7f, 0x80, 0xc3, 0xff], 5, &mut o.inputs); for x in 0..=0xffffu16 { o.inputs.push(Vec::leak(x.to_le_bytes().to_vec())); } }
    else { strings(&[0, 1, 2, 3, 0x41, 0x80, 0xc3, 0xff], 4, &mut o.inputs); for x in 0..=0xffu8 { o.inputs.push(Vec::leak(vec![x])); o.inputs.push(Vec::leak(vec![x, 1, 0])); o.inputs.push(Vec::leak(vec![1, 0, 0, 0, x, 0x80, 3, 0x41])); } }
    use std::num::*;
    use std::ops::*;
    t!(o; u8 = [0, 1, 255]; i8 = [-1, 5]; u16 = [0, 0x102, 0xffff]; i16 = [-2]; u32 = [0, 0x1020304]; i32 = [-3]; u64 = [0x102030405060708]; i64 = [-4]; u128 = [1, 0x0102030405060708090a0b0c0d0e0f10]; i128 = [-5]; f32 = [1.5, -0.0]; f64 = [2.25e100]; usize = [0, 7, usize::MAX]; bool = [true, false]; char = ['a', '\u{10ffff}'];
        () = [()]; (u8,) = [(1,)]; (u8, u16, bool) = [(1, 0x203, true)]; (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) = [(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)]; [u8; 0] = [[]]; [u8; 4] = [[1, 2, 3, 4]]; [u16; 3] = [[1, 0x203, 4]]; [bool; 2] = [[true, false]]; [(u8, u16); 2] = [[(1, 2), (3, 4)]]; [[u32; 2]; 2] = [[[1, 2], [3, 4]]];
        Option<u16> = [None, Some(0x102)]; Result<u8, u32> = [Ok(1), Err(0x01020304)]; Option<Option<bool>> = [None, Some(None), Some(Some(true))]; Range<u16> = [1..0x203]; RangeInclusive<u8> = [1..=4]; NonZeroU8 = [NonZeroU8::new(5).unwrap()]; NonZeroU32 = [NonZeroU32::new(0x102).unwrap()]; NonZeroI64 = [NonZeroI64::new(-9).unwrap()]; std::sync::atomic::AtomicU16 = [0x102.into()]; std::sync::atomic::AtomicI64 = [(-7).into()];
        std::net::Ipv4Addr = [[1, 2, 3, 4].into()]; std::net::Ipv6Addr = [[1, 2, 3, 4, 5, 6, 7, 8].into()]; std::net::IpAddr = [std::net::Ipv4Addr::new(1, 2, 3, 4).into(), std::net::Ipv6Addr::LOCALHOST.into()]; std::time::Duration = [std::time::Duration::new(5, 999_999_999)]; Endianness = [Endianness::LittleEndian, Endianness::BigEndian];
        &'static str = ["", "abc", "h\u{e9}\u{1f600}"]; &'static [u8; 3] = [&[1, 2, 3]]; Hand = [Hand { a: 0x102, b: [3, 4, 5], c: Some(6) }, Hand { a: 1, b: [9, 9, 9], c: None }]; Varint = [Varint(0), Varint(127), Varint(128), Varint(16384), Varint(u64::MAX), Varint(1 << 56)];
        (&'static str, Option<&'static str>) = [("x", Some("y")), ("", None)];);
    // Slices are only written as parts of something else.
    t!(o; Slice<u8> = [Slice(&[]), Slice(&[1, 2, 3])]; Slice<i8> = [Slice(&[-1])]; Slice<u16> = [Slice(&[1, 0x203])];);
    #[cfg(feature = "derive")]
    {
        use derived::*;
        t!(o; P = [P { a: 0x102, b: 3 }]; Tr = [Tr(0x1020304)]; S<'static> = [S { a: 2, v: 300, s: &[1, 2], k: 0, p: P { a: 1, b: 0x203 }, t: "ab", o: Some(0x102) }, S { a: 0, v: 0, s: &[], k: 0, p: P::default(), t: "", o: None }, S { a: 1, v: 0, s: &[], k: 0, p: P::default(), t: "abc", o: None }]; E = [E::A, E::B { x: 0x102, y: [P { a: 1, b: 2 }, P { a: 3, b: 0x405 }] }, E::C(Tr(9), Some(true))];
            V = [V::A(1), V::B(0x102), V::C]; K = [K::A(1, 2), K::B(P { a: 0x203, b: 4 }), K::C { x: 0 }]; Unit = [Unit]; Rest<'static> = [Rest { n: 1, r: &[2, 3] }]; RestStr<'static> = [RestStr("h\u{e9}")];
            Opt<'static> = [Opt { a: None, b: None, c: 0 }, Opt { a: Some("x"), b: Some(7), c: 9 }]; Sized8<'static> = [Sized8 { a: &[1, 2, 3], b: &[-1], c: &[5; 200] }]; [P; 3] = [[P { a: 0x102, b: 3 }; 3]]; [Tr; 2] = [[Tr(1), Tr(0x1020304)]]; Option<P> = [Some(P { a: 1, b: 2 })];);
    }
    #[cfg(feature = "alloc")]
    {
        use std::borrow::Cow;
        use std::collections::{BTreeMap, BTreeSet};
        t!(o; String = ["".into(), "h\u{e9}llo".into()]; Vec<u8> = [vec![], vec![1, 2, 3]]; Vec<u16> = [vec![1, 0x203]]; Vec<bool> = [vec![true, false]]; Vec<char> = [vec!['x', '\u{1f600}']]; Vec<Vec<u8>> = [vec![vec![1], vec![]]]; Vec<String> = [vec!["a".into(), "".into()]]; Vec<(u8, u16)> = [vec![(1, 2)]]; Vec<[u16; 2]> = [vec![[1, 0x203]; 2]]; Vec<f64> = [vec![1.0]]; Vec<i128> = [vec![-1]];
            Cow<'static, str> = ["abc".into()]; Cow<'static, [u8]> = [vec![1, 2].into()]; Cow<'static, [u32]> = [vec![1, 0x2030405].into()]; Cow<'static, [String]> = [vec!["a".to_string()].into()]; Box<u16> = [Box::new(0x102)]; Box<[u16]> = [vec![1, 2].into()]; Box<str> = ["abc".into()]; BTreeMap<u8, u16> = [[(1, 2), (3, 4)].into()]; BTreeMap<String, Vec<u8>> = [[("a".to_string(), vec![1])].into()]; BTreeSet<u16> = [[1, 0x203].into()]; Cow<'static, BTreeSet<u8>> = [Cow::Owned([1, 2].into())]; Cow<'static, BTreeMap<u8, bool>> = [Cow::Owned([(1, true)].into())]; Option<Vec<u16>> = [Some(vec![1])]; [Vec<u8>; 2] = [[vec![1], vec![]]];);
        #[cfg(feature = "derive")]
        {
            use derived::*;
            use owned::*;
            t!(o; G<u8> = [G { x: 1, y: [2, 3], z: (4, Ok(5)) }]; G<u16> = [G { x: 0x102, y: [3, 4], z: (4, Err(())) }]; Vec<P> = [vec![P { a: 1, b: 0x203 }; 2]]; Vec<Tr> = [vec![Tr(1), Tr(0x2030405)]]; O<'static> = [O { v: vec![1, 0x203], s: "abc".into(), c: "d".into(), w: vec![P { a: 1, b: 2 }].into(), b: vec![1].into(), m: [(1, "x".to_string())].into() }, O { v: vec![7; 256], s: String::new(), c: "".into(), w: vec![].into(), b: vec![].into(), m: BTreeMap::new() }]; L = [L { n: 4, v: vec![Tr(1), Tr(2)], o: Some([1, 2].into()), r: vec![5, 0x607] }, L { n: 9, v: vec![], o: None, r: vec![] }]; Text = [Text { a: 1, r: "h\u{e9}".into() }]; Tree = [Tree::Leaf(1), Tree::Node(Box::new(Tree::Leaf(2)), vec![Tree::Leaf(3)])]; CowEof<'static> = [CowEof { a: vec![1].into(), b: vec![2, 3].into() }];);
        }
    }
    #[cfg(feature = "std")]
    {
        use det::*;
        use std::borrow::Cow;
        use std::time::{Duration, SystemTime};
        t!(o; DetMap<u8, u16> = [[(1, 2), (3, 4)].into_iter().collect()]; DetSet<u16> = [[1, 0x203].into_iter().collect()]; Option<DetMap<u8, bool>> = [None]; SystemTime = [SystemTime::UNIX_EPOCH + Duration::new(5, 6)];);
        one::<Cow<'static, std::collections::HashMap<(), u16>>>(&mut o, "Cow<'static, HashMap<(), u16>>", vec![]);
        #[cfg(feature = "derive")]
        t!(o; hashed::H = [hashed::H { a: [(1, 2)].into_iter().collect(), b: [5].into_iter().collect(), t: Some(Duration::new(1, 2)) }];);
    }
    #[cfg(all(feature = "smallvec", feature = "alloc"))]
    t!(o; smallvec::SmallVec<[u16; 2]> = [smallvec::smallvec![1, 2, 0x304], smallvec::smallvec![]]; smallvec::SmallVec<[Option<bool>; 1]> = [smallvec::smallvec![Some(true), None]];);
    #[cfg(feature = "uuid")]
    t!(o; uuid::Uuid = [uuid::Uuid::from_u128(0x0102030405060708090a0b0c0d0e0f10)];);
    #[cfg(feature = "glam")]
    t!(o; glam::Vec3 = [glam::Vec3::new(1.0, 2.0, 3.0)]; glam::DVec2 = [glam::DVec2::new(1.0, -2.0)]; glam::Quat = [glam::Quat::from_xyzw(1.0, 2.0, 3.0, 4.0)];);
    #[cfg(feature = "indexmap_v1")]
    t!(o; indexmap_v1::IndexMap<u8, u16> = [[(3, 4), (1, 2)].into_iter().collect()]; indexmap_v1::IndexSet<u8> = [[3, 1].into_iter().collect()];);
    #[cfg(feature = "indexmap_v2")]
    t!(o; indexmap_v2::IndexMap<u8, u16> = [[(3, 4), (1, 2)].into_iter().collect()]; indexmap_v2::IndexSet<u8> = [[3, 1].into_iter().collect()];);
    #[cfg(feature = "chrono")]
    t!(o; chrono::DateTime<chrono::Utc> = [chrono::DateTime::from_timestamp(5, 6).unwrap()];);
    if o.bad { std::process::exit(1); }
}
