//! The model of the optional integrations.
use crate::model::*;
use crate::val::*;
use std::hash::{BuildHasher, Hash};

impl M for chrono::DateTime<chrono::Utc> {
    fn shape() -> Shape {
        Shape::Custom(Box::new(Shape::Rec(vec![Shape::Bits(8), Shape::Bits(4)])), Custom {
            why: Why::Time,
            gen: |l| {
                let mut o = vec![];
                for s in [0x0102030405i64, 0, -1, 1, -62135596800, 253402300799, 59, i32::MAX as i64, i32::MIN as i64] { for n in [0x01020304u128, 0, 1, 999_999_999] { o.push(Val::L(list_u(&[s as u64 as u128, n]))); } }
                o.push(Val::L(list_u(&[59, 1_999_999_999])));
                let n = match l { 0 => 2, 1 => 8, _ => o.len() };
                o.truncate(n);
                o
            },
            // The oracle of which timestamps exist is chrono itself.
            norm: |v| chrono::DateTime::<chrono::Utc>::from_timestamp(v.l()[0].u() as u64 as i64, v.l()[1].u() as u32).map(|x| M::to_val(&x)),
        })
    }
    fn to_val(&self) -> Val { Val::L(list_u(&[self.timestamp() as u64 as u128, self.timestamp_subsec_nanos() as u128])) }
    fn from_val(v: &Val) -> Self { chrono::DateTime::from_timestamp(v.l()[0].u() as u64 as i64, v.l()[1].u() as u32).unwrap() }
}

impl M for uuid::Uuid {
    fn shape() -> Shape { Shape::Arr(16, Box::new(Shape::Bits(1))) }
    fn to_val(&self) -> Val { Val::L(self.as_bytes().iter().map(|x| Val::U(*x as u128)).collect()) }
    fn from_val(v: &Val) -> Self { uuid::Uuid::from_bytes(<[u8; 16]>::from_val(v)) }
}
impl M for regex::Regex {
    fn shape() -> Shape {
        Shape::Custom(Box::new(Shape::Str(L32)), Custom {
            why: Why::Regex,
            gen: |l| { let a = ["a[bc]*", "", "^x$", "(a|é)+", "x{2,3}"]; a[..if l == 0 { 2 } else { a.len() }].iter().map(|x| Val::S(x.as_bytes().to_vec())).collect() },
            norm: |v| regex::Regex::new(std::str::from_utf8(v.s()).ok()?).ok().map(|_| v.clone()),
        })
    }
    fn to_val(&self) -> Val { Val::S(self.as_str().as_bytes().to_vec()) }
    fn from_val(v: &Val) -> Self { regex::Regex::new(std::str::from_utf8(v.s()).unwrap()).unwrap() }
}
impl<T: M, const N: usize> M for smallvec::SmallVec<[T; N]> where [T; N]: smallvec::Array<Item = T> {
    fn shape() -> Shape { Shape::Seq(L32, Box::new(T::shape()), Kind::List) }
    fn to_val(&self) -> Val { list(self.iter()) }
    fn from_val(v: &Val) -> Self { unlist(v) }
}
macro_rules! indexmaps { ($($c:ident),*) => { $(
    impl<K: M + Eq + Hash, V: M, S: BuildHasher + Default> M for $c::IndexMap<K, V, S> {
        fn shape() -> Shape { Shape::Seq(L32, Box::new(Shape::Rec(vec![K::shape(), V::shape()])), Kind::IndexMap) }
        fn to_val(&self) -> Val { Val::L(self.iter().map(|(k, v)| Val::L(vec![k.to_val(), v.to_val()])).collect()) }
        fn from_val(v: &Val) -> Self { v.l().iter().map(|x| (K::from_val(&x.l()[0]), V::from_val(&x.l()[1]))).collect() }
    }
    impl<T: M + Eq + Hash, S: BuildHasher + Default> M for $c::IndexSet<T, S> {
        fn shape() -> Shape { Shape::Seq(L32, Box::new(T::shape()), Kind::IndexSet) }
        fn to_val(&self) -> Val { list(self.iter()) }
        fn from_val(v: &Val) -> Self { unlist(v) }
    }
)* } }
indexmaps!(indexmap_v1, indexmap_v2);

macro_rules! glams { ($($t:ident, $n:literal, $c:ty;)*) => { $(impl M for glam::$t {
    fn shape() -> Shape { <[$c; $n]>::shape() }
    fn to_val(&self) -> Val { list(self.to_array().iter()) }
    fn from_val(v: &Val) -> Self { glam::$t::from_array(<[$c; $n]>::from_val(v)) }
})* } }
glams!(Vec2, 2, f32; Vec3, 3, f32; Vec3A, 3, f32; Vec4, 4, f32; DVec2, 2, f64; DVec3, 3, f64; DVec4, 4, f64; IVec2, 2, i32; IVec3, 3, i32; IVec4, 4, i32; UVec2, 2, u32; UVec3, 3, u32; UVec4, 4, u32;);
macro_rules! quats { ($($t:ident, $c:ty;)*) => { $(impl M for glam::$t {
    fn shape() -> Shape { <[$c; 4]>::shape() }
    fn to_val(&self) -> Val { list(self.to_array().iter()) }
    fn from_val(v: &Val) -> Self { glam::$t::from_array(<[$c; 4]>::from_val(v)) }
})* } }
quats!(Quat, f32; DQuat, f64;);
macro_rules! mats { ($($t:ident, $n:literal, $c:ty;)*) => { $(impl M for glam::$t {
    fn shape() -> Shape { <[$c; $n]>::shape() }
    fn to_val(&self) -> Val { list(self.to_cols_array().iter()) }
    fn from_val(v: &Val) -> Self { glam::$t::from_cols_array(&<[$c; $n]>::from_val(v)) }
})* } }
mats!(Mat2, 4, f32; Mat3, 9, f32; Mat3A, 9, f32; Mat4, 16, f32; DMat2, 4, f64; DMat3, 9, f64; DMat4, 16, f64; Affine2, 6, f32; Affine3A, 12, f32; DAffine2, 6, f64; DAffine3, 12, f64;);
macro_rules! bvecs { ($($t:ident, $n:literal, $($x:ident $i:literal),*;)*) => { $(impl M for glam::$t {
    fn shape() -> Shape { Shape::Custom(Box::new(Shape::Bits(1)), Custom { gen: |_| (0..1u128 << $n).rev().map(Val::U).collect(), why: Why::Variant, norm: |v| Some(Val::U(v.u() & ((1 << $n) - 1))) }) }
    fn to_val(&self) -> Val { Val::U($(((self.$x as u128) << $i) |)* 0) }
    fn from_val(v: &Val) -> Self { glam::$t::new($(v.u() >> $i & 1 != 0),*) }
})* } }
bvecs!(BVec2, 2, x 0, y 1; BVec3, 3, x 0, y 1, z 2; BVec4, 4, x 0, y 1, z 2, w 3;);
