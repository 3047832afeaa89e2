// Generated by tools/gen_types.py; do not edit.
#![allow(non_camel_case_types, dead_code, unused_imports)]
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;
use vcore::model::*;
use vcore::{reg, Entry, Kind, Len, Shape, Tag, Val, M};
type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
#[derive(Readable, Writable)] pub struct Unit;
impl M for Unit { fn shape() -> Shape { Shape::Rec(vec![]) } fn to_val(&self) -> Val { Val::L(vec![]) } fn from_val(v: &Val) -> Self { let _ = v; Unit } }
#[derive(Readable, Writable)] pub struct EmptyTuple();
impl M for EmptyTuple { fn shape() -> Shape { Shape::Rec(vec![]) } fn to_val(&self) -> Val { Val::L(vec![]) } fn from_val(v: &Val) -> Self { let _ = v; EmptyTuple() } }
#[derive(Readable, Writable)] pub struct EmptyNamed {  }
impl M for EmptyNamed { fn shape() -> Shape { Shape::Rec(vec![]) } fn to_val(&self) -> Val { Val::L(vec![]) } fn from_val(v: &Val) -> Self { let _ = v; EmptyNamed {  } } }
#[derive(Readable, Writable)] pub struct Newtype(pub u32);
impl M for Newtype { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Newtype(<u32 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct NewString(pub String);
impl M for NewString { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; NewString(<String as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone)] pub struct Mixed { pub a: u8, pub b: String, pub c: Option<u16>, pub d: Vec<u32> }
impl M for Mixed { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <String as M>::shape(), <Option<u16> as M>::shape(), <Vec<u32> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Mixed { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <Option<u16> as M>::from_val(&v.l()[2]), d: <Vec<u32> as M>::from_val(&v.l()[3]) } } }
#[derive(Readable, Writable)] pub struct MixedTuple(pub bool, pub char, pub f64, pub [u16; 3], pub (u8, u16));
impl M for MixedTuple { fn shape() -> Shape { Shape::Rec(vec![<bool as M>::shape(), <char as M>::shape(), <f64 as M>::shape(), <[u16; 3] as M>::shape(), <(u8, u16) as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; MixedTuple(<bool as M>::from_val(&v.l()[0]), <char as M>::from_val(&v.l()[1]), <f64 as M>::from_val(&v.l()[2]), <[u16; 3] as M>::from_val(&v.l()[3]), <(u8, u16) as M>::from_val(&v.l()[4])) } }
#[derive(Readable, Writable)] pub struct Nested { pub a: Mixed, pub b: Newtype, pub c: Unit, pub d: [Newtype; 2] }
impl M for Nested { fn shape() -> Shape { Shape::Rec(vec![<Mixed as M>::shape(), <Newtype as M>::shape(), <Unit as M>::shape(), <[Newtype; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Nested { a: <Mixed as M>::from_val(&v.l()[0]), b: <Newtype as M>::from_val(&v.l()[1]), c: <Unit as M>::from_val(&v.l()[2]), d: <[Newtype; 2] as M>::from_val(&v.l()[3]) } } }
#[derive(Readable, Writable)] pub struct Maps { pub a: BTreeMap<u8, u16>, pub b: BTreeSet<u16>, pub c: HashMap<u8, u8, Det>, pub d: HashSet<u8, Det>, pub e: Box<[u16]> }
impl M for Maps { fn shape() -> Shape { Shape::Rec(vec![<BTreeMap<u8, u16> as M>::shape(), <BTreeSet<u16> as M>::shape(), <HashMap<u8, u8, Det> as M>::shape(), <HashSet<u8, Det> as M>::shape(), <Box<[u16]> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Maps { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <BTreeSet<u16> as M>::from_val(&v.l()[1]), c: <HashMap<u8, u8, Det> as M>::from_val(&v.l()[2]), d: <HashSet<u8, Det> as M>::from_val(&v.l()[3]), e: <Box<[u16]> as M>::from_val(&v.l()[4]) } } }
#[derive(Readable, Writable)] pub struct Borrowing<'l> { pub a: &'l str, pub b: &'l [u8], pub c: Cow<'l, str>, pub d: Cow<'l, [u16]>, pub e: u8 }
impl M for Borrowing<'static> { fn shape() -> Shape { Shape::Rec(vec![<&'static str as M>::shape(), <&'static [u8] as M>::shape(), <Cow<'static, str> as M>::shape(), <Cow<'static, [u16]> as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Borrowing { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]), c: <Cow<'static, str> as M>::from_val(&v.l()[2]), d: <Cow<'static, [u16]> as M>::from_val(&v.l()[3]), e: <u8 as M>::from_val(&v.l()[4]) } } }
#[derive(Readable, Writable)] pub struct CowOnly<'l> { pub a: Cow<'l, str>, pub b: Cow<'l, [u8]>, pub c: Cow<'l, [u32]> }
impl M for CowOnly<'static> { fn shape() -> Shape { Shape::Rec(vec![<Cow<'static, str> as M>::shape(), <Cow<'static, [u8]> as M>::shape(), <Cow<'static, [u32]> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; CowOnly { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <Cow<'static, [u8]> as M>::from_val(&v.l()[1]), c: <Cow<'static, [u32]> as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Gen<T> { pub a: u8, pub b: T, pub c: Vec<T> }
impl<T: M> M for Gen<T> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), T::shape(), <Vec<T> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let l = v.l(); Gen { a: M::from_val(&l[0]), b: M::from_val(&l[1]), c: M::from_val(&l[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct GenPair<A, B>(pub A, pub B);
impl<A: M, B: M> M for GenPair<A, B> { fn shape() -> Shape { Shape::Rec(vec![A::shape(), B::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let l = v.l(); GenPair(M::from_val(&l[0]), M::from_val(&l[1])) } }
#[derive(Readable, Writable, Clone)] pub struct GenOpt<T> { pub a: u8, pub b: Option<T>, #[speedy(length_type = u8)] pub c: Option<Vec<T>> }
impl<T: M> M for GenOpt<T> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <Option<T> as M>::shape(), relen(<Option<Vec<T>> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let l = v.l(); GenOpt { a: M::from_val(&l[0]), b: M::from_val(&l[1]), c: M::from_val(&l[2]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum GenE<T, U = u8> { A(Option<T>), B { x: U, y: Option<U> } }
impl<T: M, U: M> M for GenE<T, U> { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0, Shape::Rec(vec![<Option<T> as M>::shape()])), (1, Shape::Rec(vec![U::shape(), <Option<U> as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { GenE::A(x) => Val::E(0, Box::new(Val::L(vec![x.to_val()]))), GenE::B { x, y } => Val::E(1, Box::new(Val::L(vec![x.to_val(), y.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); match i { 0 => GenE::A(M::from_val(&x.l()[0])), _ => GenE::B { x: M::from_val(&x.l()[0]), y: M::from_val(&x.l()[1]) } } } }
#[derive(Readable, Writable, Clone)] pub struct GenSkip<T> { #[speedy(skip)] pub a: Option<T>, pub b: u8, #[speedy(skip)] pub c: T, #[speedy(default_on_eof)] pub d: T }
impl<T: M + Default> M for GenSkip<T> { fn shape() -> Shape { let d = T::default(); Shape::Rec(vec![Shape::Skip(None::<T>.to_val(), Some(T::default()).to_val()), <u8 as M>::shape(), Shape::Skip(d.to_val(), d.to_val()), Shape::OnEof(Box::new(T::shape()), d.to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } fn from_val(v: &Val) -> Self { let l = v.l(); GenSkip { a: M::from_val(&l[0]), b: M::from_val(&l[1]), c: M::from_val(&l[2]), d: M::from_val(&l[3]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lives<'a, 'b: 'a, 'c: 'a + 'b, T: Clone = u8> where T: PartialEq { pub a: Cow<'a, str>, pub b: Cow<'b, [u16]>, pub c: Cow<'c, [u8]>, pub d: T }
impl<T: M + Clone + PartialEq> M for Lives<'static, 'static, 'static, T> { fn shape() -> Shape { Shape::Rec(vec![<Cow<'static, str> as M>::shape(), <Cow<'static, [u16]> as M>::shape(), <Cow<'static, [u8]> as M>::shape(), T::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } fn from_val(v: &Val) -> Self { let l = v.l(); Lives { a: M::from_val(&l[0]), b: M::from_val(&l[1]), c: M::from_val(&l[2]), d: M::from_val(&l[3]) } } }
#[derive(Readable, Writable, Clone)] pub enum Tree { Leaf(u8), Node(Vec<Tree>) }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u8(pub u8);
impl M for BR_u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u8(<u8 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u16 { pub a: u16 }
impl M for BR_u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u16 { a: <u16 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_f32 { pub a: f32 }
impl M for BR_f32 { fn shape() -> Shape { Shape::Rec(vec![<f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_f32 { a: <f32 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u128(pub u128);
impl M for BR_u128 { fn shape() -> Shape { Shape::Rec(vec![<u128 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u128(<u128 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u8u8(pub u8, pub u8);
impl M for BR_u8u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u8u8(<u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u16u16(pub u16, pub u16);
impl M for BR_u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u16u16(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u8u16 { pub a: u8, pub b: u16 }
impl M for BR_u8u16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u8u16 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u16u8 { pub a: u16, pub b: u8 }
impl M for BR_u16u8 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u16u8 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u32u16u16 { pub a: u32, pub b: u16, pub c: u16 }
impl M for BR_u32u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), <u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u32u16u16 { a: <u32 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u16 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u16u16u32 { pub a: u16, pub b: u16, pub c: u32 }
impl M for BR_u16u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u16u16u32 { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u64u8 { pub a: u64, pub b: u8 }
impl M for BR_u64u8 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u64u8 { a: <u64 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_i8i64 { pub a: i8, pub b: i64 }
impl M for BR_i8i64 { fn shape() -> Shape { Shape::Rec(vec![<i8 as M>::shape(), <i64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_i8i64 { a: <i8 as M>::from_val(&v.l()[0]), b: <i64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_f64f32f32 { pub a: f64, pub b: f32, pub c: f32 }
impl M for BR_f64f32f32 { fn shape() -> Shape { Shape::Rec(vec![<f64 as M>::shape(), <f32 as M>::shape(), <f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_f64f32f32 { a: <f64 as M>::from_val(&v.l()[0]), b: <f32 as M>::from_val(&v.l()[1]), c: <f32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_arr8(pub [u8; 4]);
impl M for BR_arr8 { fn shape() -> Shape { Shape::Rec(vec![<[u8; 4] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_arr8(<[u8; 4] as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_arr16 { pub a: u16, pub b: [u16; 3] }
impl M for BR_arr16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u16; 3] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_arr16 { a: <u16 as M>::from_val(&v.l()[0]), b: <[u16; 3] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_arrpad(pub [u8; 3], pub u16);
impl M for BR_arrpad { fn shape() -> Shape { Shape::Rec(vec![<[u8; 3] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_arrpad(<[u8; 3] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u8u32u8 { pub a: u8, pub b: u32, pub c: u8 }
impl M for BR_u8u32u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u32 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u8u32u8 { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_bool(pub u8, pub bool);
impl M for BR_bool { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <bool as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_bool(<u8 as M>::from_val(&v.l()[0]), <bool as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_zst { pub a: u16, pub b: () }
impl M for BR_zst { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_zst { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_zstmid(pub u16, pub [u8; 0], pub u16);
impl M for BR_zstmid { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u8; 0] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_zstmid(<u16 as M>::from_val(&v.l()[0]), <[u8; 0] as M>::from_val(&v.l()[1]), <u16 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BR_u16u32(pub u16, pub u32);
impl M for BR_u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BR_u16u32(<u16 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u8(pub u8);
impl M for BC_u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u8(<u8 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u16 { pub a: u16 }
impl M for BC_u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u16 { a: <u16 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_f32 { pub a: f32 }
impl M for BC_f32 { fn shape() -> Shape { Shape::Rec(vec![<f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_f32 { a: <f32 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u128(pub u128);
impl M for BC_u128 { fn shape() -> Shape { Shape::Rec(vec![<u128 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u128(<u128 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u8u8(pub u8, pub u8);
impl M for BC_u8u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u8u8(<u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u16u16(pub u16, pub u16);
impl M for BC_u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u16u16(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u8u16 { pub a: u8, pub b: u16 }
impl M for BC_u8u16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u8u16 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u16u8 { pub a: u16, pub b: u8 }
impl M for BC_u16u8 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u16u8 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u32u16u16 { pub a: u32, pub b: u16, pub c: u16 }
impl M for BC_u32u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), <u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u32u16u16 { a: <u32 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u16 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u16u16u32 { pub a: u16, pub b: u16, pub c: u32 }
impl M for BC_u16u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u16u16u32 { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u64u8 { pub a: u64, pub b: u8 }
impl M for BC_u64u8 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u64u8 { a: <u64 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_i8i64 { pub a: i8, pub b: i64 }
impl M for BC_i8i64 { fn shape() -> Shape { Shape::Rec(vec![<i8 as M>::shape(), <i64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_i8i64 { a: <i8 as M>::from_val(&v.l()[0]), b: <i64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_f64f32f32 { pub a: f64, pub b: f32, pub c: f32 }
impl M for BC_f64f32f32 { fn shape() -> Shape { Shape::Rec(vec![<f64 as M>::shape(), <f32 as M>::shape(), <f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_f64f32f32 { a: <f64 as M>::from_val(&v.l()[0]), b: <f32 as M>::from_val(&v.l()[1]), c: <f32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_arr8(pub [u8; 4]);
impl M for BC_arr8 { fn shape() -> Shape { Shape::Rec(vec![<[u8; 4] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_arr8(<[u8; 4] as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_arr16 { pub a: u16, pub b: [u16; 3] }
impl M for BC_arr16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u16; 3] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_arr16 { a: <u16 as M>::from_val(&v.l()[0]), b: <[u16; 3] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_arrpad(pub [u8; 3], pub u16);
impl M for BC_arrpad { fn shape() -> Shape { Shape::Rec(vec![<[u8; 3] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_arrpad(<[u8; 3] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u8u32u8 { pub a: u8, pub b: u32, pub c: u8 }
impl M for BC_u8u32u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u32 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u8u32u8 { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_bool(pub u8, pub bool);
impl M for BC_bool { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <bool as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_bool(<u8 as M>::from_val(&v.l()[0]), <bool as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_zst { pub a: u16, pub b: () }
impl M for BC_zst { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_zst { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_zstmid(pub u16, pub [u8; 0], pub u16);
impl M for BC_zstmid { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u8; 0] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_zstmid(<u16 as M>::from_val(&v.l()[0]), <[u8; 0] as M>::from_val(&v.l()[1]), <u16 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BC_u16u32(pub u16, pub u32);
impl M for BC_u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BC_u16u32(<u16 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u8(pub u8);
impl M for BP_u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u8(<u8 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u16 { pub a: u16 }
impl M for BP_u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u16 { a: <u16 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_f32 { pub a: f32 }
impl M for BP_f32 { fn shape() -> Shape { Shape::Rec(vec![<f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_f32 { a: <f32 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u128(pub u128);
impl M for BP_u128 { fn shape() -> Shape { Shape::Rec(vec![<u128 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u128(<u128 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u8u8(pub u8, pub u8);
impl M for BP_u8u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u8u8(<u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u16u16(pub u16, pub u16);
impl M for BP_u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u16u16(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u8u16 { pub a: u8, pub b: u16 }
impl M for BP_u8u16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u8u16 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u16u8 { pub a: u16, pub b: u8 }
impl M for BP_u16u8 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u16u8 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u32u16u16 { pub a: u32, pub b: u16, pub c: u16 }
impl M for BP_u32u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), <u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u32u16u16 { a: <u32 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u16 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u16u16u32 { pub a: u16, pub b: u16, pub c: u32 }
impl M for BP_u16u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u16u16u32 { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u64u8 { pub a: u64, pub b: u8 }
impl M for BP_u64u8 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u64u8 { a: <u64 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_i8i64 { pub a: i8, pub b: i64 }
impl M for BP_i8i64 { fn shape() -> Shape { Shape::Rec(vec![<i8 as M>::shape(), <i64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_i8i64 { a: <i8 as M>::from_val(&v.l()[0]), b: <i64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_f64f32f32 { pub a: f64, pub b: f32, pub c: f32 }
impl M for BP_f64f32f32 { fn shape() -> Shape { Shape::Rec(vec![<f64 as M>::shape(), <f32 as M>::shape(), <f32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_f64f32f32 { a: <f64 as M>::from_val(&v.l()[0]), b: <f32 as M>::from_val(&v.l()[1]), c: <f32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_arr8(pub [u8; 4]);
impl M for BP_arr8 { fn shape() -> Shape { Shape::Rec(vec![<[u8; 4] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_arr8(<[u8; 4] as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_arr16 { pub a: u16, pub b: [u16; 3] }
impl M for BP_arr16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u16; 3] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_arr16 { a: <u16 as M>::from_val(&v.l()[0]), b: <[u16; 3] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_arrpad(pub [u8; 3], pub u16);
impl M for BP_arrpad { fn shape() -> Shape { Shape::Rec(vec![<[u8; 3] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_arrpad(<[u8; 3] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u8u32u8 { pub a: u8, pub b: u32, pub c: u8 }
impl M for BP_u8u32u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u32 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u8u32u8 { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_bool(pub u8, pub bool);
impl M for BP_bool { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <bool as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_bool(<u8 as M>::from_val(&v.l()[0]), <bool as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_zst { pub a: u16, pub b: () }
impl M for BP_zst { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_zst { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_zstmid(pub u16, pub [u8; 0], pub u16);
impl M for BP_zstmid { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u8; 0] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }, { let x = self.2; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_zstmid(<u16 as M>::from_val(&v.l()[0]), <[u8; 0] as M>::from_val(&v.l()[1]), <u16 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BP_u16u32(pub u16, pub u32);
impl M for BP_u16u32 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BP_u16u32(<u16 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_u8u16 { pub a: u8, pub b: u16 }
impl M for BCP_u8u16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_u8u16 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_u16u8 { pub a: u16, pub b: u8 }
impl M for BCP_u16u8 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_u16u8 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_arrpad(pub [u8; 3], pub u16);
impl M for BCP_arrpad { fn shape() -> Shape { Shape::Rec(vec![<[u8; 3] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_arrpad(<[u8; 3] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_u8u32u8 { pub a: u8, pub b: u32, pub c: u8 }
impl M for BCP_u8u32u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u32 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_u8u32u8 { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_bool(pub u8, pub bool);
impl M for BCP_bool { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <bool as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_bool(<u8 as M>::from_val(&v.l()[0]), <bool as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C, packed)] pub struct BCP_zst { pub a: u16, pub b: () }
impl M for BCP_zst { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BCP_zst { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed, C)] pub struct BPC_u16u16(pub u16, pub u16);
impl M for BPC_u16u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.0; x.to_val() }, { let x = self.1; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BPC_u16u16(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed, C)] pub struct BPC_u64u8 { pub a: u64, pub b: u8 }
impl M for BPC_u64u8 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BPC_u64u8 { a: <u64 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_u8(pub u8);
impl M for BT_u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_u8(<u8 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_u32(pub u32);
impl M for BT_u32 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_u32(<u32 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_arr(pub [u16; 2]);
impl M for BT_arr { fn shape() -> Shape { Shape::Rec(vec![<[u16; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_arr(<[u16; 2] as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_nested(pub BC_u16u16);
impl M for BT_nested { fn shape() -> Shape { Shape::Rec(vec![<BC_u16u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_nested(<BC_u16u16 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_pad(pub BC_u8u16);
impl M for BT_pad { fn shape() -> Shape { Shape::Rec(vec![<BC_u8u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_pad(<BC_u8u16 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_bool(pub bool);
impl M for BT_bool { fn shape() -> Shape { Shape::Rec(vec![<bool as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_bool(<bool as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct BT_zst(pub u16, pub ());
impl M for BT_zst { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BT_zst(<u16 as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    v
}
fn part0(v: &mut Vec<Entry>) {
    reg!(v, "struct", false, Unit);
    reg!(v, "struct", false, Vec<Unit>);
    reg!(v, "struct", false, [Unit; 3]);
    reg!(v, "struct", false, Option<Unit>);
    reg!(v, "struct", false, EmptyTuple);
    reg!(v, "struct", false, EmptyNamed);
    reg!(v, "struct", false, Newtype);
    reg!(v, "struct", false, NewString);
    reg!(v, "struct", false, Mixed);
    reg!(v, "struct", false, Vec<Mixed>);
    reg!(v, "struct", false, Option<Mixed>);
    reg!(v, "struct", false, Result<Mixed, u8>);
    reg!(v, "struct", false, MixedTuple);
    reg!(v, "struct", false, Nested);
    reg!(v, "struct", false, Maps);
    reg!(v, "struct", true, Borrowing<'static>);
    reg!(v, "struct", false, CowOnly<'static>);
    reg!(v, "struct", false, GenSkip<u16>);
    reg!(v, "struct", false, GenSkip<String>);
    reg!(v, "struct", false, Vec<GenSkip<u8>>);
    reg!(v, "struct", false, GenOpt<u16>);
    reg!(v, "struct", false, GenOpt<String>);
    reg!(v, "struct", false, Vec<GenOpt<u8>>);
    reg!(v, "struct", false, GenE<u16>);
    reg!(v, "struct", false, GenE<String, u32>);
    reg!(v, "struct", false, Lives<'static, 'static, 'static, u16>);
    reg!(v, "struct", false, Gen<u16>);
    reg!(v, "struct", false, Gen<String>);
    reg!(v, "struct", false, Gen<Newtype>);
    reg!(v, "struct", false, GenPair<u8, u16>);
    reg!(v, "struct", false, GenPair<String, u8>);
    reg!(v, "bulk", false, Vec<GenPair<u16, u16>>);
    reg!(v, "bulk", false, Vec<GenPair<u8, u32>>);
    reg!(v, "bulk", false, Vec<GenPair<u8, u8>>);
    reg!(v, "bulk", false, BR_u8);
    reg!(v, "bulk", false, Vec<BR_u8>);
    reg!(v, "bulk", false, [BR_u8; 3]);
    reg!(v, "bulk", false, BR_u16);
    reg!(v, "bulk", false, Vec<BR_u16>);
    reg!(v, "bulk", false, [BR_u16; 3]);
}
fn part1(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, BR_f32);
    reg!(v, "bulk", false, Vec<BR_f32>);
    reg!(v, "bulk", false, [BR_f32; 3]);
    reg!(v, "bulk", false, BR_u128);
    reg!(v, "bulk", false, Vec<BR_u128>);
    reg!(v, "bulk", false, [BR_u128; 3]);
    reg!(v, "bulk", false, BR_u8u8);
    reg!(v, "bulk", false, Vec<BR_u8u8>);
    reg!(v, "bulk", false, [BR_u8u8; 3]);
    reg!(v, "bulk", false, BR_u16u16);
    reg!(v, "bulk", false, Vec<BR_u16u16>);
    reg!(v, "bulk", false, [BR_u16u16; 3]);
    reg!(v, "bulk", false, Box<[BR_u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u16u16]>);
    reg!(v, "bulk", false, BR_u8u16);
    reg!(v, "bulk", false, Vec<BR_u8u16>);
    reg!(v, "bulk", false, [BR_u8u16; 3]);
    reg!(v, "bulk", false, Box<[BR_u8u16]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u8u16]>);
    reg!(v, "bulk", false, BR_u16u8);
    reg!(v, "bulk", false, Vec<BR_u16u8>);
    reg!(v, "bulk", false, [BR_u16u8; 3]);
    reg!(v, "bulk", false, Box<[BR_u16u8]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u16u8]>);
    reg!(v, "bulk", false, BR_u32u16u16);
    reg!(v, "bulk", false, Vec<BR_u32u16u16>);
    reg!(v, "bulk", false, [BR_u32u16u16; 3]);
    reg!(v, "bulk", false, Box<[BR_u32u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u32u16u16]>);
    reg!(v, "bulk", false, BR_u16u16u32);
    reg!(v, "bulk", false, Vec<BR_u16u16u32>);
    reg!(v, "bulk", false, [BR_u16u16u32; 3]);
    reg!(v, "bulk", false, Box<[BR_u16u16u32]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u16u16u32]>);
    reg!(v, "bulk", false, BR_u64u8);
    reg!(v, "bulk", false, Vec<BR_u64u8>);
    reg!(v, "bulk", false, [BR_u64u8; 3]);
    reg!(v, "bulk", false, BR_i8i64);
    reg!(v, "bulk", false, Vec<BR_i8i64>);
    reg!(v, "bulk", false, [BR_i8i64; 3]);
}
fn part2(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, BR_f64f32f32);
    reg!(v, "bulk", false, Vec<BR_f64f32f32>);
    reg!(v, "bulk", false, [BR_f64f32f32; 3]);
    reg!(v, "bulk", false, BR_arr8);
    reg!(v, "bulk", false, Vec<BR_arr8>);
    reg!(v, "bulk", false, [BR_arr8; 3]);
    reg!(v, "bulk", false, BR_arr16);
    reg!(v, "bulk", false, Vec<BR_arr16>);
    reg!(v, "bulk", false, [BR_arr16; 3]);
    reg!(v, "bulk", false, BR_arrpad);
    reg!(v, "bulk", false, Vec<BR_arrpad>);
    reg!(v, "bulk", false, [BR_arrpad; 3]);
    reg!(v, "bulk", false, BR_u8u32u8);
    reg!(v, "bulk", false, Vec<BR_u8u32u8>);
    reg!(v, "bulk", false, [BR_u8u32u8; 3]);
    reg!(v, "bulk", false, Box<[BR_u8u32u8]>);
    reg!(v, "bulk", false, Cow<'static, [BR_u8u32u8]>);
    reg!(v, "bulk", false, BR_bool);
    reg!(v, "bulk", false, Vec<BR_bool>);
    reg!(v, "bulk", false, [BR_bool; 3]);
    reg!(v, "bulk", false, BR_zst);
    reg!(v, "bulk", false, Vec<BR_zst>);
    reg!(v, "bulk", false, [BR_zst; 3]);
    reg!(v, "bulk", false, BR_zstmid);
    reg!(v, "bulk", false, Vec<BR_zstmid>);
    reg!(v, "bulk", false, [BR_zstmid; 3]);
    reg!(v, "bulk", false, BR_u16u32);
    reg!(v, "bulk", false, Vec<BR_u16u32>);
    reg!(v, "bulk", false, [BR_u16u32; 3]);
    reg!(v, "bulk", false, BC_u8);
    reg!(v, "bulk", false, Vec<BC_u8>);
    reg!(v, "bulk", false, [BC_u8; 3]);
    reg!(v, "bulk", false, BC_u16);
    reg!(v, "bulk", false, Vec<BC_u16>);
    reg!(v, "bulk", false, [BC_u16; 3]);
    reg!(v, "bulk", false, BC_f32);
    reg!(v, "bulk", false, Vec<BC_f32>);
    reg!(v, "bulk", false, [BC_f32; 3]);
    reg!(v, "bulk", false, BC_u128);
    reg!(v, "bulk", false, Vec<BC_u128>);
}
fn part3(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, [BC_u128; 3]);
    reg!(v, "bulk", false, BC_u8u8);
    reg!(v, "bulk", false, Vec<BC_u8u8>);
    reg!(v, "bulk", false, [BC_u8u8; 3]);
    reg!(v, "bulk", false, BC_u16u16);
    reg!(v, "bulk", false, Vec<BC_u16u16>);
    reg!(v, "bulk", false, [BC_u16u16; 3]);
    reg!(v, "bulk", false, Box<[BC_u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u16u16]>);
    reg!(v, "bulk", false, BC_u8u16);
    reg!(v, "bulk", false, Vec<BC_u8u16>);
    reg!(v, "bulk", false, [BC_u8u16; 3]);
    reg!(v, "bulk", false, Box<[BC_u8u16]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u8u16]>);
    reg!(v, "bulk", false, BC_u16u8);
    reg!(v, "bulk", false, Vec<BC_u16u8>);
    reg!(v, "bulk", false, [BC_u16u8; 3]);
    reg!(v, "bulk", false, Box<[BC_u16u8]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u16u8]>);
    reg!(v, "bulk", false, BC_u32u16u16);
    reg!(v, "bulk", false, Vec<BC_u32u16u16>);
    reg!(v, "bulk", false, [BC_u32u16u16; 3]);
    reg!(v, "bulk", false, Box<[BC_u32u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u32u16u16]>);
    reg!(v, "bulk", false, BC_u16u16u32);
    reg!(v, "bulk", false, Vec<BC_u16u16u32>);
    reg!(v, "bulk", false, [BC_u16u16u32; 3]);
    reg!(v, "bulk", false, Box<[BC_u16u16u32]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u16u16u32]>);
    reg!(v, "bulk", false, BC_u64u8);
    reg!(v, "bulk", false, Vec<BC_u64u8>);
    reg!(v, "bulk", false, [BC_u64u8; 3]);
    reg!(v, "bulk", false, BC_i8i64);
    reg!(v, "bulk", false, Vec<BC_i8i64>);
    reg!(v, "bulk", false, [BC_i8i64; 3]);
    reg!(v, "bulk", false, BC_f64f32f32);
    reg!(v, "bulk", false, Vec<BC_f64f32f32>);
    reg!(v, "bulk", false, [BC_f64f32f32; 3]);
    reg!(v, "bulk", false, BC_arr8);
    reg!(v, "bulk", false, Vec<BC_arr8>);
}
fn part4(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, [BC_arr8; 3]);
    reg!(v, "bulk", false, BC_arr16);
    reg!(v, "bulk", false, Vec<BC_arr16>);
    reg!(v, "bulk", false, [BC_arr16; 3]);
    reg!(v, "bulk", false, BC_arrpad);
    reg!(v, "bulk", false, Vec<BC_arrpad>);
    reg!(v, "bulk", false, [BC_arrpad; 3]);
    reg!(v, "bulk", false, BC_u8u32u8);
    reg!(v, "bulk", false, Vec<BC_u8u32u8>);
    reg!(v, "bulk", false, [BC_u8u32u8; 3]);
    reg!(v, "bulk", false, Box<[BC_u8u32u8]>);
    reg!(v, "bulk", false, Cow<'static, [BC_u8u32u8]>);
    reg!(v, "bulk", false, BC_bool);
    reg!(v, "bulk", false, Vec<BC_bool>);
    reg!(v, "bulk", false, [BC_bool; 3]);
    reg!(v, "bulk", false, BC_zst);
    reg!(v, "bulk", false, Vec<BC_zst>);
    reg!(v, "bulk", false, [BC_zst; 3]);
    reg!(v, "bulk", false, BC_zstmid);
    reg!(v, "bulk", false, Vec<BC_zstmid>);
    reg!(v, "bulk", false, [BC_zstmid; 3]);
    reg!(v, "bulk", false, BC_u16u32);
    reg!(v, "bulk", false, Vec<BC_u16u32>);
    reg!(v, "bulk", false, [BC_u16u32; 3]);
    reg!(v, "bulk", false, BP_u8);
    reg!(v, "bulk", false, Vec<BP_u8>);
    reg!(v, "bulk", false, [BP_u8; 3]);
    reg!(v, "bulk", false, BP_u16);
    reg!(v, "bulk", false, Vec<BP_u16>);
    reg!(v, "bulk", false, [BP_u16; 3]);
    reg!(v, "bulk", false, BP_f32);
    reg!(v, "bulk", false, Vec<BP_f32>);
    reg!(v, "bulk", false, [BP_f32; 3]);
    reg!(v, "bulk", false, BP_u128);
    reg!(v, "bulk", false, Vec<BP_u128>);
    reg!(v, "bulk", false, [BP_u128; 3]);
    reg!(v, "bulk", false, BP_u8u8);
    reg!(v, "bulk", false, Vec<BP_u8u8>);
    reg!(v, "bulk", false, [BP_u8u8; 3]);
    reg!(v, "bulk", false, BP_u16u16);
}
fn part5(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, Vec<BP_u16u16>);
    reg!(v, "bulk", false, [BP_u16u16; 3]);
    reg!(v, "bulk", false, Box<[BP_u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u16u16]>);
    reg!(v, "bulk", false, BP_u8u16);
    reg!(v, "bulk", false, Vec<BP_u8u16>);
    reg!(v, "bulk", false, [BP_u8u16; 3]);
    reg!(v, "bulk", false, Box<[BP_u8u16]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u8u16]>);
    reg!(v, "bulk", false, BP_u16u8);
    reg!(v, "bulk", false, Vec<BP_u16u8>);
    reg!(v, "bulk", false, [BP_u16u8; 3]);
    reg!(v, "bulk", false, Box<[BP_u16u8]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u16u8]>);
    reg!(v, "bulk", false, BP_u32u16u16);
    reg!(v, "bulk", false, Vec<BP_u32u16u16>);
    reg!(v, "bulk", false, [BP_u32u16u16; 3]);
    reg!(v, "bulk", false, Box<[BP_u32u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u32u16u16]>);
    reg!(v, "bulk", false, BP_u16u16u32);
    reg!(v, "bulk", false, Vec<BP_u16u16u32>);
    reg!(v, "bulk", false, [BP_u16u16u32; 3]);
    reg!(v, "bulk", false, Box<[BP_u16u16u32]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u16u16u32]>);
    reg!(v, "bulk", false, BP_u64u8);
    reg!(v, "bulk", false, Vec<BP_u64u8>);
    reg!(v, "bulk", false, [BP_u64u8; 3]);
    reg!(v, "bulk", false, BP_i8i64);
    reg!(v, "bulk", false, Vec<BP_i8i64>);
    reg!(v, "bulk", false, [BP_i8i64; 3]);
    reg!(v, "bulk", false, BP_f64f32f32);
    reg!(v, "bulk", false, Vec<BP_f64f32f32>);
    reg!(v, "bulk", false, [BP_f64f32f32; 3]);
    reg!(v, "bulk", false, BP_arr8);
    reg!(v, "bulk", false, Vec<BP_arr8>);
    reg!(v, "bulk", false, [BP_arr8; 3]);
    reg!(v, "bulk", false, BP_arr16);
    reg!(v, "bulk", false, Vec<BP_arr16>);
    reg!(v, "bulk", false, [BP_arr16; 3]);
    reg!(v, "bulk", false, BP_arrpad);
}
fn part6(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, Vec<BP_arrpad>);
    reg!(v, "bulk", false, [BP_arrpad; 3]);
    reg!(v, "bulk", false, BP_u8u32u8);
    reg!(v, "bulk", false, Vec<BP_u8u32u8>);
    reg!(v, "bulk", false, [BP_u8u32u8; 3]);
    reg!(v, "bulk", false, Box<[BP_u8u32u8]>);
    reg!(v, "bulk", false, Cow<'static, [BP_u8u32u8]>);
    reg!(v, "bulk", false, BP_bool);
    reg!(v, "bulk", false, Vec<BP_bool>);
    reg!(v, "bulk", false, [BP_bool; 3]);
    reg!(v, "bulk", false, BP_zst);
    reg!(v, "bulk", false, Vec<BP_zst>);
    reg!(v, "bulk", false, [BP_zst; 3]);
    reg!(v, "bulk", false, BP_zstmid);
    reg!(v, "bulk", false, Vec<BP_zstmid>);
    reg!(v, "bulk", false, [BP_zstmid; 3]);
    reg!(v, "bulk", false, BP_u16u32);
    reg!(v, "bulk", false, Vec<BP_u16u32>);
    reg!(v, "bulk", false, [BP_u16u32; 3]);
    reg!(v, "bulk", false, BCP_u8u16);
    reg!(v, "bulk", false, Vec<BCP_u8u16>);
    reg!(v, "bulk", false, [BCP_u8u16; 3]);
    reg!(v, "bulk", false, Box<[BCP_u8u16]>);
    reg!(v, "bulk", false, Cow<'static, [BCP_u8u16]>);
    reg!(v, "bulk", false, BCP_u16u8);
    reg!(v, "bulk", false, Vec<BCP_u16u8>);
    reg!(v, "bulk", false, [BCP_u16u8; 3]);
    reg!(v, "bulk", false, Box<[BCP_u16u8]>);
    reg!(v, "bulk", false, Cow<'static, [BCP_u16u8]>);
    reg!(v, "bulk", false, BCP_arrpad);
    reg!(v, "bulk", false, Vec<BCP_arrpad>);
    reg!(v, "bulk", false, [BCP_arrpad; 3]);
    reg!(v, "bulk", false, BCP_u8u32u8);
    reg!(v, "bulk", false, Vec<BCP_u8u32u8>);
    reg!(v, "bulk", false, [BCP_u8u32u8; 3]);
    reg!(v, "bulk", false, Box<[BCP_u8u32u8]>);
    reg!(v, "bulk", false, Cow<'static, [BCP_u8u32u8]>);
    reg!(v, "bulk", false, BCP_bool);
    reg!(v, "bulk", false, Vec<BCP_bool>);
    reg!(v, "bulk", false, [BCP_bool; 3]);
}
fn part7(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, BCP_zst);
    reg!(v, "bulk", false, Vec<BCP_zst>);
    reg!(v, "bulk", false, [BCP_zst; 3]);
    reg!(v, "bulk", false, BPC_u16u16);
    reg!(v, "bulk", false, Vec<BPC_u16u16>);
    reg!(v, "bulk", false, [BPC_u16u16; 3]);
    reg!(v, "bulk", false, Box<[BPC_u16u16]>);
    reg!(v, "bulk", false, Cow<'static, [BPC_u16u16]>);
    reg!(v, "bulk", false, BPC_u64u8);
    reg!(v, "bulk", false, Vec<BPC_u64u8>);
    reg!(v, "bulk", false, [BPC_u64u8; 3]);
    reg!(v, "bulk", false, BT_u8);
    reg!(v, "bulk", false, Vec<BT_u8>);
    reg!(v, "bulk", false, [BT_u8; 3]);
    reg!(v, "bulk", false, Box<[BT_u8]>);
    reg!(v, "bulk", false, BT_u32);
    reg!(v, "bulk", false, Vec<BT_u32>);
    reg!(v, "bulk", false, [BT_u32; 3]);
    reg!(v, "bulk", false, Box<[BT_u32]>);
    reg!(v, "bulk", false, BT_arr);
    reg!(v, "bulk", false, Vec<BT_arr>);
    reg!(v, "bulk", false, [BT_arr; 3]);
    reg!(v, "bulk", false, Box<[BT_arr]>);
    reg!(v, "bulk", false, BT_nested);
    reg!(v, "bulk", false, Vec<BT_nested>);
    reg!(v, "bulk", false, [BT_nested; 3]);
    reg!(v, "bulk", false, Box<[BT_nested]>);
    reg!(v, "bulk", false, BT_pad);
    reg!(v, "bulk", false, Vec<BT_pad>);
    reg!(v, "bulk", false, [BT_pad; 3]);
    reg!(v, "bulk", false, Box<[BT_pad]>);
    reg!(v, "bulk", false, BT_bool);
    reg!(v, "bulk", false, Vec<BT_bool>);
    reg!(v, "bulk", false, [BT_bool; 3]);
    reg!(v, "bulk", false, Box<[BT_bool]>);
    reg!(v, "bulk", false, BT_zst);
    reg!(v, "bulk", false, Vec<BT_zst>);
    reg!(v, "bulk", false, [BT_zst; 3]);
}
