//! The catalogue of the types speedy supports out of the box, and of its optional integrations.
use std::borrow::Cow;
use std::collections::*;
use std::net::*;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::*;
use std::time::{Duration, SystemTime};
use vcore::{reg, Entry};
type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    scalars(&mut v);
    containers(&mut v);
    compound(&mut v);
    borrowed(&mut v);
    ext(&mut v);
    v
}
fn scalars(v: &mut Vec<Entry>) {
    reg!(v, "scalar", false, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, f32, f64, bool, char, ());
    reg!(v, "scalar", false, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicI8, AtomicI16, AtomicI32, AtomicI64);
    reg!(v, "scalar", false, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64);
    reg!(v, "scalar", false, Ipv4Addr, Ipv6Addr, IpAddr, Duration, SystemTime, speedy::Endianness);
}
fn containers(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>);
    reg!(v, "bulk", false, [u8; 0], [u8; 1], [u8; 3], [u8; 17], [u16; 3], [u32; 4], [u64; 3], [u128; 2], [i8; 2], [i16; 2], [i32; 2], [i64; 2], [i128; 1], [f32; 3], [f64; 2]);
    reg!(v, "bulk", false, Box<[u8]>, Box<[u32]>, Cow<'static, [u8]>, Cow<'static, [u16]>, Cow<'static, [u32]>, Cow<'static, [u64]>, Cow<'static, [f64]>, Vec<[u16; 2]>, Vec<[u8; 3]>, Vec<Vec<u16>>);
    reg!(v, "bulk", false, Vec<usize>, Vec<bool>, Vec<char>, Vec<()>, [(); 2], Vec<AtomicU16>, Vec<Ipv4Addr>);
    reg!(v, "container", false, String, Box<str>, Cow<'static, str>, Vec<String>, Box<[String]>, [String; 2], [Option<u8>; 2], Vec<Option<u16>>, Cow<'static, [String]>, Box<u32>, Box<String>);
    reg!(v, "container", false, BTreeSet<u8>, BTreeSet<u32>, BTreeSet<String>, HashSet<u8>, HashSet<u16>, HashSet<u16, Det>, HashSet<String, Det>, BTreeSet<i16>, HashSet<u64>);
    reg!(v, "container", false, BTreeMap<u8, u8>, BTreeMap<u8, u32>, BTreeMap<u16, u64>, BTreeMap<String, u16>, HashMap<u8, u8>, HashMap<u16, u32>, HashMap<u32, String, Det>, HashMap<u8, u8, Det>, HashMap<String, Vec<u8>, Det>, BTreeMap<u8, Vec<u16>>, BTreeMap<(), ()>);
    reg!(v, "container", false, Cow<'static, BTreeSet<u16>>, Cow<'static, HashSet<u16>>, Cow<'static, BTreeMap<u8, u16>>, Cow<'static, HashMap<u16, u8>>);
}
fn compound(v: &mut Vec<Entry>) {
    reg!(v, "compound", false, Option<u8>, Option<u32>, Option<String>, Option<()>, Option<Option<bool>>, Result<u16, u8>, Result<(), String>, Result<u64, ()>, Option<Box<[u8]>>, Option<Vec<u16>>);
    reg!(v, "compound", false, Range<u16>, RangeInclusive<u8>, Range<f32>, RangeInclusive<i64>, Range<String>);
    reg!(v, "compound", false, (u8,), (u8, u16), (u8, u16, u32), (u8, u16, u32, u64), (String, u8, Option<u16>), (u8, u8, u16, u32, bool), (u8, u16, u8, u16, u8, u16), (u8, u8, u8, u8, u8, u8, u16),
        (u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u16), Vec<(u8, u16)>, BTreeMap<(u8, u8), Option<u8>>, Vec<Vec<String>>, Vec<Result<u8, u16>>);
    reg!(v, "compound", false, Vec<Duration>, Vec<IpAddr>, Option<char>, Vec<NonZeroU16>, (Duration, char), Option<NonZeroU8>, Vec<Range<u8>>, [Vec<u8>; 2], Vec<BTreeSet<u8>>, [[u16; 2]; 2]);
}
fn borrowed(v: &mut Vec<Entry>) {
    reg!(v, "borrow", true, &'static str, &'static [u8], &'static [u8; 3], &'static [i8], (u8, &'static str), Option<&'static [u8]>, Vec<&'static str>);
}
fn ext(v: &mut Vec<Entry>) {
    use glam::*;
    reg!(v, "ext", false, chrono::DateTime<chrono::Utc>, uuid::Uuid, regex::Regex, smallvec::SmallVec<[u8; 4]>, smallvec::SmallVec<[u16; 2]>, smallvec::SmallVec<[String; 1]>, Vec<uuid::Uuid>, Option<regex::Regex>);
    reg!(v, "ext", false, indexmap_v1::IndexMap<u8, u16>, indexmap_v1::IndexSet<u16>, indexmap_v1::IndexMap<String, u8>, indexmap_v2::IndexMap<u8, u16>, indexmap_v2::IndexSet<u16>, indexmap_v2::IndexSet<String>, indexmap_v2::IndexMap<u16, Vec<u8>>);
    reg!(v, "ext", false, Vec2, Vec3, Vec3A, Vec4, DVec2, DVec3, DVec4, IVec2, IVec3, IVec4, UVec2, UVec3, UVec4, Quat, DQuat, BVec2, BVec3, BVec4, Mat2, Mat3, Mat3A, Mat4, DMat2, DMat3, DMat4, Affine2, Affine3A, DAffine2, DAffine3, Vec<Vec3>, Vec<BVec2>);
}
