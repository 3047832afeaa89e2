// Generated by tools/gen_types.py; do not edit.
#![allow(non_camel_case_types, dead_code, unused_imports)]
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;
use vcore::model::*;
use vcore::{reg, Entry, Kind, Len, Shape, Tag, Val, M};
type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
#[derive(Readable, Writable)] pub struct Lu7_0(#[speedy(length_type = u7)] pub String, pub u8);
impl M for Lu7_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<String as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_0(<String as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_1 { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: u8 }
impl M for Lu7_1 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_1 { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_2(#[speedy(length_type = u7)] pub Vec<u16>, pub u8);
impl M for Lu7_2 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_2(<Vec<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_3<'l> { #[speedy(length_type = u7)] pub a: Cow<'l, str>, pub b: u8 }
impl M for Lu7_3<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, str> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_3 { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_4<'l>(#[speedy(length_type = u7)] pub Cow<'l, [u8]>, pub u8);
impl M for Lu7_4<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u8]> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_4(<Cow<'static, [u8]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_5<'l> { #[speedy(length_type = u7)] pub a: Cow<'l, [u16]>, pub b: u8 }
impl M for Lu7_5<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u16]> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_5 { a: <Cow<'static, [u16]> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_6(#[speedy(length_type = u7)] pub BTreeSet<u8>, pub u8);
impl M for Lu7_6 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeSet<u8> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_6(<BTreeSet<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_7 { #[speedy(length_type = u7)] pub a: BTreeMap<u8, u16>, pub b: u8 }
impl M for Lu7_7 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u16> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_7 { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_8(#[speedy(length_type = u7)] pub Vec<String>, pub u8);
impl M for Lu7_8 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<String> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_8(<Vec<String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_9 { #[speedy(length_type = u7)] pub a: BTreeMap<u16, String>, pub b: u8 }
impl M for Lu7_9 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u16, String> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_9 { a: <BTreeMap<u16, String> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_10(#[speedy(length_type = u7)] pub HashSet<u16>, pub u8);
impl M for Lu7_10 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashSet<u16> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_10(<HashSet<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu7_11 { #[speedy(length_type = u7)] pub a: HashMap<u16, u8>, pub b: u8 }
impl M for Lu7_11 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashMap<u16, u8> as M>::shape(), Len::T(Tag::U7)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_11 { a: <HashMap<u16, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_opt { #[speedy(length_type = u7)] pub a: Option<Vec<u16>>, #[speedy(length_type = u7)] pub b: Option<String> }
impl M for Lu7_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U7)), relen(<Option<String> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu7_optm { #[speedy(length_type = u7)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu7_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu7_cow<'l>(#[speedy(length_type = u7)] pub Cow<'l, BTreeSet<u8>>);
impl M for Lu7_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, BTreeSet<u8>> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_cow(<Cow<'static, BTreeSet<u8>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu7_ref<'l> { #[speedy(length_type = u7)] pub a: &'l str, #[speedy(length_type = u7)] pub b: &'l [u8] }
impl M for Lu7_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::U7)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu7_two { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu7_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu7_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu8_0(#[speedy(length_type = u8)] pub Vec<u8>, pub u8);
impl M for Lu8_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_0(<Vec<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu8_1<'l> { #[speedy(length_type = u8)] pub a: Cow<'l, str>, pub b: u8 }
impl M for Lu8_1<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, str> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_1 { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu8_2<'l>(#[speedy(length_type = u8)] pub Cow<'l, [u16]>, pub u8);
impl M for Lu8_2<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u16]> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_2(<Cow<'static, [u16]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu8_3 { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u16>, pub b: u8 }
impl M for Lu8_3 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u16> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_3 { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu8_4(#[speedy(length_type = u8)] pub BTreeMap<u16, String>, pub u8);
impl M for Lu8_4 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u16, String> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_4(<BTreeMap<u16, String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu8_5 { #[speedy(length_type = u8)] pub a: HashMap<u16, u8>, pub b: u8 }
impl M for Lu8_5 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashMap<u16, u8> as M>::shape(), Len::T(Tag::U8)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_5 { a: <HashMap<u16, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu8_opt { #[speedy(length_type = u8)] pub a: Option<Vec<u16>>, #[speedy(length_type = u8)] pub b: Option<String> }
impl M for Lu8_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U8)), relen(<Option<String> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu8_optm { #[speedy(length_type = u8)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu8_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu8_cow<'l>(#[speedy(length_type = u8)] pub Cow<'l, HashSet<u16>>);
impl M for Lu8_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, HashSet<u16>> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_cow(<Cow<'static, HashSet<u16>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu8_ref<'l> { #[speedy(length_type = u8)] pub a: &'l str, #[speedy(length_type = u8)] pub b: &'l [u8] }
impl M for Lu8_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::U8)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu8_two { #[speedy(length_type = u8)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu8_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U8)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu8_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_0(#[speedy(length_type = u16)] pub String, pub u8);
impl M for Lu16_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<String as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_0(<String as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_1 { #[speedy(length_type = u16)] pub a: Vec<u8>, pub b: u8 }
impl M for Lu16_1 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_1 { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_2(#[speedy(length_type = u16)] pub Vec<u16>, pub u8);
impl M for Lu16_2 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_2(<Vec<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_3<'l> { #[speedy(length_type = u16)] pub a: Cow<'l, str>, pub b: u8 }
impl M for Lu16_3<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, str> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_3 { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_4<'l>(#[speedy(length_type = u16)] pub Cow<'l, [u8]>, pub u8);
impl M for Lu16_4<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u8]> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_4(<Cow<'static, [u8]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_5<'l> { #[speedy(length_type = u16)] pub a: Cow<'l, [u16]>, pub b: u8 }
impl M for Lu16_5<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u16]> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_5 { a: <Cow<'static, [u16]> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_6(#[speedy(length_type = u16)] pub BTreeSet<u8>, pub u8);
impl M for Lu16_6 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeSet<u8> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_6(<BTreeSet<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_7 { #[speedy(length_type = u16)] pub a: BTreeMap<u8, u16>, pub b: u8 }
impl M for Lu16_7 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u16> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_7 { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_8(#[speedy(length_type = u16)] pub Vec<String>, pub u8);
impl M for Lu16_8 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<String> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_8(<Vec<String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_9 { #[speedy(length_type = u16)] pub a: BTreeMap<u16, String>, pub b: u8 }
impl M for Lu16_9 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u16, String> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_9 { a: <BTreeMap<u16, String> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_10(#[speedy(length_type = u16)] pub HashSet<u16>, pub u8);
impl M for Lu16_10 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashSet<u16> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_10(<HashSet<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu16_11 { #[speedy(length_type = u16)] pub a: HashMap<u16, u8>, pub b: u8 }
impl M for Lu16_11 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashMap<u16, u8> as M>::shape(), Len::T(Tag::U16)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_11 { a: <HashMap<u16, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_opt { #[speedy(length_type = u16)] pub a: Option<Vec<u16>>, #[speedy(length_type = u16)] pub b: Option<String> }
impl M for Lu16_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U16)), relen(<Option<String> as M>::shape(), Len::T(Tag::U16))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu16_optm { #[speedy(length_type = u16)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu16_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::U16))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu16_cow<'l>(#[speedy(length_type = u16)] pub Cow<'l, BTreeMap<u8, u16>>);
impl M for Lu16_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, BTreeMap<u8, u16>> as M>::shape(), Len::T(Tag::U16))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_cow(<Cow<'static, BTreeMap<u8, u16>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu16_ref<'l> { #[speedy(length_type = u16)] pub a: &'l str, #[speedy(length_type = u16)] pub b: &'l [u8] }
impl M for Lu16_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::U16)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::U16))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu16_two { #[speedy(length_type = u16)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu16_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U16)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu16_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu32_0(#[speedy(length_type = u32)] pub Vec<u8>, pub u8);
impl M for Lu32_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_0(<Vec<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu32_1<'l> { #[speedy(length_type = u32)] pub a: Cow<'l, str>, pub b: u8 }
impl M for Lu32_1<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, str> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_1 { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu32_2<'l>(#[speedy(length_type = u32)] pub Cow<'l, [u16]>, pub u8);
impl M for Lu32_2<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u16]> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_2(<Cow<'static, [u16]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu32_3 { #[speedy(length_type = u32)] pub a: BTreeMap<u8, u16>, pub b: u8 }
impl M for Lu32_3 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u16> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_3 { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu32_4(#[speedy(length_type = u32)] pub BTreeMap<u16, String>, pub u8);
impl M for Lu32_4 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u16, String> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_4(<BTreeMap<u16, String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu32_5 { #[speedy(length_type = u32)] pub a: HashMap<u16, u8>, pub b: u8 }
impl M for Lu32_5 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashMap<u16, u8> as M>::shape(), Len::T(Tag::U32)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_5 { a: <HashMap<u16, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu32_opt { #[speedy(length_type = u32)] pub a: Option<Vec<u16>>, #[speedy(length_type = u32)] pub b: Option<String> }
impl M for Lu32_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U32)), relen(<Option<String> as M>::shape(), Len::T(Tag::U32))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu32_optm { #[speedy(length_type = u32)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu32_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::U32))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu32_cow<'l>(#[speedy(length_type = u32)] pub Cow<'l, HashMap<u16, u8>>);
impl M for Lu32_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, HashMap<u16, u8>> as M>::shape(), Len::T(Tag::U32))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_cow(<Cow<'static, HashMap<u16, u8>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu32_ref<'l> { #[speedy(length_type = u32)] pub a: &'l str, #[speedy(length_type = u32)] pub b: &'l [u8] }
impl M for Lu32_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::U32)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::U32))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu32_two { #[speedy(length_type = u32)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu32_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U32)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu32_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_0(#[speedy(length_type = u64)] pub String, pub u8);
impl M for Lu64_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<String as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_0(<String as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_1 { #[speedy(length_type = u64)] pub a: Vec<u16>, pub b: u8 }
impl M for Lu64_1 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_1 { a: <Vec<u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_2<'l>(#[speedy(length_type = u64)] pub Cow<'l, [u8]>, pub u8);
impl M for Lu64_2<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u8]> as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_2(<Cow<'static, [u8]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_3 { #[speedy(length_type = u64)] pub a: BTreeSet<u8>, pub b: u8 }
impl M for Lu64_3 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeSet<u8> as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_3 { a: <BTreeSet<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_4(#[speedy(length_type = u64)] pub Vec<String>, pub u8);
impl M for Lu64_4 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<String> as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_4(<Vec<String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_5 { #[speedy(length_type = u64)] pub a: HashSet<u16>, pub b: u8 }
impl M for Lu64_5 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashSet<u16> as M>::shape(), Len::T(Tag::U64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_5 { a: <HashSet<u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_opt { #[speedy(length_type = u64)] pub a: Option<Vec<u16>>, #[speedy(length_type = u64)] pub b: Option<String> }
impl M for Lu64_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U64)), relen(<Option<String> as M>::shape(), Len::T(Tag::U64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_optm { #[speedy(length_type = u64)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu64_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::U64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu64_cow<'l>(#[speedy(length_type = u64)] pub Cow<'l, BTreeSet<u8>>);
impl M for Lu64_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, BTreeSet<u8>> as M>::shape(), Len::T(Tag::U64))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_cow(<Cow<'static, BTreeSet<u8>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu64_ref<'l> { #[speedy(length_type = u64)] pub a: &'l str, #[speedy(length_type = u64)] pub b: &'l [u8] }
impl M for Lu64_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::U64)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::U64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu64_two { #[speedy(length_type = u64)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu64_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U64)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_0(#[speedy(length_type = u64_varint)] pub String, pub u8);
impl M for Lu64_varint_0 { fn shape() -> Shape { Shape::Rec(vec![relen(<String as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_0(<String as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_1 { #[speedy(length_type = u64_varint)] pub a: Vec<u8>, pub b: u8 }
impl M for Lu64_varint_1 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_1 { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_2(#[speedy(length_type = u64_varint)] pub Vec<u16>, pub u8);
impl M for Lu64_varint_2 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_2(<Vec<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_3<'l> { #[speedy(length_type = u64_varint)] pub a: Cow<'l, str>, pub b: u8 }
impl M for Lu64_varint_3<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, str> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_3 { a: <Cow<'static, str> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_4<'l>(#[speedy(length_type = u64_varint)] pub Cow<'l, [u8]>, pub u8);
impl M for Lu64_varint_4<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u8]> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_4(<Cow<'static, [u8]> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_5<'l> { #[speedy(length_type = u64_varint)] pub a: Cow<'l, [u16]>, pub b: u8 }
impl M for Lu64_varint_5<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, [u16]> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_5 { a: <Cow<'static, [u16]> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_6(#[speedy(length_type = u64_varint)] pub BTreeSet<u8>, pub u8);
impl M for Lu64_varint_6 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeSet<u8> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_6(<BTreeSet<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_7 { #[speedy(length_type = u64_varint)] pub a: BTreeMap<u8, u16>, pub b: u8 }
impl M for Lu64_varint_7 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u16> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_7 { a: <BTreeMap<u8, u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_8(#[speedy(length_type = u64_varint)] pub Vec<String>, pub u8);
impl M for Lu64_varint_8 { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<String> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_8(<Vec<String> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_9 { #[speedy(length_type = u64_varint)] pub a: BTreeMap<u16, String>, pub b: u8 }
impl M for Lu64_varint_9 { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u16, String> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_9 { a: <BTreeMap<u16, String> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_10(#[speedy(length_type = u64_varint)] pub HashSet<u16>, pub u8);
impl M for Lu64_varint_10 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashSet<u16> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_10(<HashSet<u16> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_11 { #[speedy(length_type = u64_varint)] pub a: HashMap<u16, u8>, pub b: u8 }
impl M for Lu64_varint_11 { fn shape() -> Shape { Shape::Rec(vec![relen(<HashMap<u16, u8> as M>::shape(), Len::T(Tag::Var)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_11 { a: <HashMap<u16, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_opt { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u16>>, #[speedy(length_type = u64_varint)] pub b: Option<String> }
impl M for Lu64_varint_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::Var)), relen(<Option<String> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_opt { a: <Option<Vec<u16>> as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_optm { #[speedy(length_type = u64_varint)] pub a: Option<BTreeMap<u8, u8>> }
impl M for Lu64_varint_optm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<BTreeMap<u8, u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_optm { a: <Option<BTreeMap<u8, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Lu64_varint_cow<'l>(#[speedy(length_type = u64_varint)] pub Cow<'l, HashSet<u16>>);
impl M for Lu64_varint_cow<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, HashSet<u16>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_cow(<Cow<'static, HashSet<u16>> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Lu64_varint_ref<'l> { #[speedy(length_type = u64_varint)] pub a: &'l str, #[speedy(length_type = u64_varint)] pub b: &'l [u8] }
impl M for Lu64_varint_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<&'static str as M>::shape(), Len::T(Tag::Var)), relen(<&'static [u8] as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_ref { a: <&'static str as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Lu64_varint_two { #[speedy(length_type = u64_varint)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Lu64_varint_two { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::Var)), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Lu64_varint_two { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_0 { pub a: u8, #[speedy(length = a)] pub b: String }
impl M for X_0 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<String as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_0 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_1 { pub a: u8, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_1 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_1 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_2 { pub a: u8, #[speedy(length = a)] pub b: Vec<u16> }
impl M for X_2 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_2 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_3<'l> { pub a: u8, #[speedy(length = a)] pub b: Cow<'l, str> }
impl M for X_3<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, str> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_3 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, str> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_4<'l> { pub a: u8, #[speedy(length = a)] pub b: Cow<'l, [u8]> }
impl M for X_4<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, [u8]> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_4 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, [u8]> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_5<'l> { pub a: u8, #[speedy(length = a)] pub b: Cow<'l, [u16]> }
impl M for X_5<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, [u16]> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_5 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, [u16]> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_6 { pub a: u8, #[speedy(length = a)] pub b: BTreeSet<u8> }
impl M for X_6 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeSet<u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_6 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeSet<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_7 { pub a: u8, #[speedy(length = a)] pub b: BTreeMap<u8, u16> }
impl M for X_7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeMap<u8, u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_7 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_8 { pub a: u8, #[speedy(length = a)] pub b: Vec<String> }
impl M for X_8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<String> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_8 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_9 { pub a: u8, #[speedy(length = a)] pub b: BTreeMap<u16, String> }
impl M for X_9 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeMap<u16, String> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_9 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u16, String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_10 { pub a: u8, #[speedy(length = a)] pub b: HashSet<u16> }
impl M for X_10 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<HashSet<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_10 { a: <u8 as M>::from_val(&v.l()[0]), b: <HashSet<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_11 { pub a: u8, #[speedy(length = a)] pub b: HashMap<u16, u8> }
impl M for X_11 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<HashMap<u16, u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_11 { a: <u8 as M>::from_val(&v.l()[0]), b: <HashMap<u16, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_plus { pub a: u8, #[speedy(length = a.clone() as usize + 1)] pub b: Vec<u8>, pub c: u8 }
impl M for X_plus { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64 + 1)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_plus { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct X_const { #[speedy(length = 3usize)] pub a: Vec<u16> }
impl M for X_const { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::Expr(|p| { let _ = p; 3 }))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_const { a: <Vec<u16> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct X_zero { #[speedy(length = 0u32)] pub a: Vec<u8>, pub b: u8 }
impl M for X_zero { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::Expr(|p| { let _ = p; 0 })), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_zero { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_two { pub a: u8, pub b: u16, #[speedy(length = a)] pub c: String, #[speedy(length = b)] pub d: Vec<u16> }
impl M for X_two { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape(), relen(<String as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[1].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_two { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <String as M>::from_val(&v.l()[2]), d: <Vec<u16> as M>::from_val(&v.l()[3]) } } }
#[derive(Readable, Writable)] pub struct X_tuple(pub u16, #[speedy(length = t0)] pub Vec<u8>, pub u8);
impl M for X_tuple { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_tuple(<u16 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable)] pub struct X_u64 { pub a: u64, #[speedy(length = a.clone() as usize)] pub b: Vec<u16> }
impl M for X_u64 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_u64 { a: <u64 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_u32 { pub a: u32, #[speedy(length = a)] pub b: BTreeMap<u8, u8> }
impl M for X_u32 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_u32 { a: <u32 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_varint { #[speedy(varint)] pub a: u64, #[speedy(length = a.clone() as usize)] pub b: Vec<u8> }
impl M for X_varint { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_varint { a: <u64 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_lenof { pub a: Vec<u8>, #[speedy(length = a.len())] pub b: Vec<u16> }
impl M for X_lenof { fn shape() -> Shape { Shape::Rec(vec![<Vec<u8> as M>::shape(), relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].len() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_lenof { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_lit { #[speedy(length = 3)] pub a: Vec<u16>, pub b: u8 }
impl M for X_lit { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::Expr(|p| { let _ = p; 3 })), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_lit { a: <Vec<u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_lite(#[speedy(length = 1 << 1)] pub String, #[speedy(length = 2 - 1)] pub BTreeMap<u8, u8>);
impl M for X_lite { fn shape() -> Shape { Shape::Rec(vec![relen(<String as M>::shape(), Len::Expr(|p| { let _ = p; 2 })), relen(<BTreeMap<u8, u8> as M>::shape(), Len::Expr(|p| { let _ = p; 1 }))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_lite(<String as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct X_i8 { pub a: i8, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_i8 { fn shape() -> Shape { Shape::Rec(vec![<i8 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as i8 as i64 as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_i8 { a: <i8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_i16 { pub a: i16, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_i16 { fn shape() -> Shape { Shape::Rec(vec![<i16 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as i16 as i64 as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_i16 { a: <i16 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_i32 { pub a: i32, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_i32 { fn shape() -> Shape { Shape::Rec(vec![<i32 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as i32 as i64 as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_i32 { a: <i32 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_i64 { pub a: i64, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_i64 { fn shape() -> Shape { Shape::Rec(vec![<i64 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as i64 as i64 as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_i64 { a: <i64 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_l64 { pub a: u64, #[speedy(length = a)] pub b: Vec<u8> }
impl M for X_l64 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Expr(|p| p[0].u() as i64 as i64 as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_l64 { a: <u64 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct X_var(#[speedy(varint)] pub u64, #[speedy(length = t0)] pub Vec<u16>, pub u8);
impl M for X_var { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_var(<u64 as M>::from_val(&v.l()[0]), <Vec<u16> as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable)] pub struct X_ref<'l> { pub a: u8, #[speedy(length = a)] pub b: &'l str, #[speedy(length = a)] pub c: &'l [u8] }
impl M for X_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<&'static str as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<&'static [u8] as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_ref { a: <u8 as M>::from_val(&v.l()[0]), b: <&'static str as M>::from_val(&v.l()[1]), c: <&'static [u8] as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct X_cowm<'l> { pub a: u8, #[speedy(length = a)] pub b: Cow<'l, BTreeSet<u8>>, #[speedy(length = a)] pub c: Cow<'l, HashSet<u16>>, #[speedy(length = a)] pub d: Cow<'l, BTreeMap<u8, u16>>, #[speedy(length = a)] pub e: Cow<'l, HashMap<u16, u8>> }
impl M for X_cowm<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, BTreeSet<u8>> as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<Cow<'static, HashSet<u16>> as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<Cow<'static, BTreeMap<u8, u16>> as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<Cow<'static, HashMap<u16, u8>> as M>::shape(), Len::Expr(|p| p[0].u() as u64))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; X_cowm { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, BTreeSet<u8>> as M>::from_val(&v.l()[1]), c: <Cow<'static, HashSet<u16>> as M>::from_val(&v.l()[2]), d: <Cow<'static, BTreeMap<u8, u16>> as M>::from_val(&v.l()[3]), e: <Cow<'static, HashMap<u16, u8>> as M>::from_val(&v.l()[4]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum XE { A { a: u8, #[speedy(length = a)] b: Vec<u16> }, B(u8, #[speedy(length = t0)] String, #[speedy(length_type = u16)] Vec<u8>), C { #[speedy(length_type = u7)] a: Option<String>, b: u16 }, }
impl M for XE { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), relen(<String as M>::shape(), Len::Expr(|p| p[0].u() as u64)), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U16))])), (2u64, Shape::Rec(vec![relen(<Option<String> as M>::shape(), Len::T(Tag::U7)), <u16 as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { XE::A { a, b } => Val::E(0, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), XE::B(a, b, c) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val()]))), XE::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => XE::A { a: <u8 as M>::from_val(&x.l()[0]), b: <Vec<u16> as M>::from_val(&x.l()[1]) }, 1 => XE::B(<u8 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1]), <Vec<u8> as M>::from_val(&x.l()[2])), 2 => XE::C { a: <Option<String> as M>::from_val(&x.l()[0]), b: <u16 as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable)] pub struct U_0(pub u8, #[speedy(length = ..)] pub String);
impl M for U_0 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<String as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_0(<u8 as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_0 { pub a: u8, #[speedy(default_on_eof)] pub b: String }
impl M for D_0 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<String as M>::shape()), <String as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_0 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_1 { pub a: u8, #[speedy(length = ..)] pub b: Vec<u8> }
impl M for U_1 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_1 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_1 { pub a: u8, #[speedy(default_on_eof)] pub b: Vec<u8> }
impl M for D_1 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Vec<u8> as M>::shape()), <Vec<u8> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_1 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_2(pub u8, #[speedy(length = ..)] pub Vec<u16>);
impl M for U_2 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<u16> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_2(<u8 as M>::from_val(&v.l()[0]), <Vec<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_2 { pub a: u8, #[speedy(default_on_eof)] pub b: Vec<u16> }
impl M for D_2 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Vec<u16> as M>::shape()), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_2 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_3<'l> { pub a: u8, #[speedy(length = ..)] pub b: Cow<'l, str> }
impl M for U_3<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, str> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_3 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, str> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_3<'l> { pub a: u8, #[speedy(default_on_eof)] pub b: Cow<'l, str> }
impl M for D_3<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Cow<'static, str> as M>::shape()), <Cow<'static, str> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_3 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, str> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_4<'l>(pub u8, #[speedy(length = ..)] pub Cow<'l, [u8]>);
impl M for U_4<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, [u8]> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_4(<u8 as M>::from_val(&v.l()[0]), <Cow<'static, [u8]> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_4<'l> { pub a: u8, #[speedy(default_on_eof)] pub b: Cow<'l, [u8]> }
impl M for D_4<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Cow<'static, [u8]> as M>::shape()), <Cow<'static, [u8]> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_4 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, [u8]> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_5<'l> { pub a: u8, #[speedy(length = ..)] pub b: Cow<'l, [u16]> }
impl M for U_5<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Cow<'static, [u16]> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_5 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, [u16]> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_5<'l> { pub a: u8, #[speedy(default_on_eof)] pub b: Cow<'l, [u16]> }
impl M for D_5<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Cow<'static, [u16]> as M>::shape()), <Cow<'static, [u16]> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_5 { a: <u8 as M>::from_val(&v.l()[0]), b: <Cow<'static, [u16]> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_6(pub u8, #[speedy(length = ..)] pub BTreeSet<u8>);
impl M for U_6 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeSet<u8> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_6(<u8 as M>::from_val(&v.l()[0]), <BTreeSet<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_6 { pub a: u8, #[speedy(default_on_eof)] pub b: BTreeSet<u8> }
impl M for D_6 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<BTreeSet<u8> as M>::shape()), <BTreeSet<u8> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_6 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeSet<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_7 { pub a: u8, #[speedy(length = ..)] pub b: BTreeMap<u8, u16> }
impl M for U_7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeMap<u8, u16> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_7 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_7 { pub a: u8, #[speedy(default_on_eof)] pub b: BTreeMap<u8, u16> }
impl M for D_7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<BTreeMap<u8, u16> as M>::shape()), <BTreeMap<u8, u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_7 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_8(pub u8, #[speedy(length = ..)] pub Vec<String>);
impl M for U_8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<Vec<String> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_8(<u8 as M>::from_val(&v.l()[0]), <Vec<String> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_8 { pub a: u8, #[speedy(default_on_eof)] pub b: Vec<String> }
impl M for D_8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Vec<String> as M>::shape()), <Vec<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_8 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_9 { pub a: u8, #[speedy(length = ..)] pub b: BTreeMap<u16, String> }
impl M for U_9 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<BTreeMap<u16, String> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_9 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u16, String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_9 { pub a: u8, #[speedy(default_on_eof)] pub b: BTreeMap<u16, String> }
impl M for D_9 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<BTreeMap<u16, String> as M>::shape()), <BTreeMap<u16, String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_9 { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u16, String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_10(pub u8, #[speedy(length = ..)] pub HashSet<u16>);
impl M for U_10 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<HashSet<u16> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_10(<u8 as M>::from_val(&v.l()[0]), <HashSet<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct D_10 { pub a: u8, #[speedy(default_on_eof)] pub b: HashSet<u16> }
impl M for D_10 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<HashSet<u16> as M>::shape()), <HashSet<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_10 { a: <u8 as M>::from_val(&v.l()[0]), b: <HashSet<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_11 { pub a: u8, #[speedy(length = ..)] pub b: HashMap<u16, u8> }
impl M for U_11 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<HashMap<u16, u8> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_11 { a: <u8 as M>::from_val(&v.l()[0]), b: <HashMap<u16, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct D_11 { pub a: u8, #[speedy(default_on_eof)] pub b: HashMap<u16, u8> }
impl M for D_11 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<HashMap<u16, u8> as M>::shape()), <HashMap<u16, u8> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; D_11 { a: <u8 as M>::from_val(&v.l()[0]), b: <HashMap<u16, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_cowm<'l> { #[speedy(length = ..)] pub a: Cow<'l, BTreeSet<u8>> }
impl M for U_cowm<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, BTreeSet<u8>> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_cowm { a: <Cow<'static, BTreeSet<u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct U_cowm2<'l> { #[speedy(length = ..)] pub a: Cow<'l, HashMap<u16, u8>> }
impl M for U_cowm2<'static> { fn shape() -> Shape { Shape::Rec(vec![relen(<Cow<'static, HashMap<u16, u8>> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_cowm2 { a: <Cow<'static, HashMap<u16, u8>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct U_ref<'l> { pub a: u8, #[speedy(length = ..)] pub b: &'l str }
impl M for U_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<&'static str as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_ref { a: <u8 as M>::from_val(&v.l()[0]), b: <&'static str as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_refb<'l> { pub a: u8, #[speedy(length = ..)] pub b: &'l [u8] }
impl M for U_refb<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), relen(<&'static [u8] as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_refb { a: <u8 as M>::from_val(&v.l()[0]), b: <&'static [u8] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_only(#[speedy(length = ..)] pub Vec<u32>);
impl M for U_only { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u32> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_only(<Vec<u32> as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct U_pre { pub a: u8, #[speedy(length = .., constant_prefix = "ab")] pub b: Vec<u16> }
impl M for U_pre { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(relen(<Vec<u16> as M>::shape(), Len::Eof)))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_pre { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct U_opt { #[speedy(length = ..)] pub a: Vec<Option<u16>> }
impl M for U_opt { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<Option<u16>> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_opt { a: <Vec<Option<u16>> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct U_bool { #[speedy(length = ..)] pub a: Vec<char> }
impl M for U_bool { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<char> as M>::shape(), Len::Eof)]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; U_bool { a: <Vec<char> as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct E_0(pub u8, #[speedy(default_on_eof)] pub u8);
impl M for E_0 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_0(<u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_0 { pub a: u16, #[speedy(default_on_eof)] pub b: u8, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_0 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_0 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_1 { pub a: u8, #[speedy(default_on_eof)] pub b: u16 }
impl M for E_1 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_1 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_2(pub u8, #[speedy(default_on_eof)] pub u32);
impl M for E_2 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u32 as M>::shape()), <u32 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_2(<u8 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_2 { pub a: u16, #[speedy(default_on_eof)] pub b: u32, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_2 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u32 as M>::shape()), <u32 as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_2 { a: <u16 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_3 { pub a: u8, #[speedy(default_on_eof)] pub b: u64 }
impl M for E_3 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u64 as M>::shape()), <u64 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_3 { a: <u8 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_4(pub u8, #[speedy(default_on_eof)] pub u128);
impl M for E_4 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u128 as M>::shape()), <u128 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_4(<u8 as M>::from_val(&v.l()[0]), <u128 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_4 { pub a: u16, #[speedy(default_on_eof)] pub b: u128, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_4 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u128 as M>::shape()), <u128 as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_4 { a: <u16 as M>::from_val(&v.l()[0]), b: <u128 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_5 { pub a: u8, #[speedy(default_on_eof)] pub b: f64 }
impl M for E_5 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<f64 as M>::shape()), <f64 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_5 { a: <u8 as M>::from_val(&v.l()[0]), b: <f64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_6(pub u8, #[speedy(default_on_eof)] pub bool);
impl M for E_6 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<bool as M>::shape()), <bool as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_6(<u8 as M>::from_val(&v.l()[0]), <bool as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_6 { pub a: u16, #[speedy(default_on_eof)] pub b: bool, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_6 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<bool as M>::shape()), <bool as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_6 { a: <u16 as M>::from_val(&v.l()[0]), b: <bool as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_7 { pub a: u8, #[speedy(default_on_eof)] pub b: char }
impl M for E_7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<char as M>::shape()), <char as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_7 { a: <u8 as M>::from_val(&v.l()[0]), b: <char as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_8(pub u8, #[speedy(default_on_eof)] pub Option<u8>);
impl M for E_8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Option<u8> as M>::shape()), <Option<u8> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_8(<u8 as M>::from_val(&v.l()[0]), <Option<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_8 { pub a: u16, #[speedy(default_on_eof)] pub b: Option<u8>, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_8 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<Option<u8> as M>::shape()), <Option<u8> as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_8 { a: <u16 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_9 { pub a: u8, #[speedy(default_on_eof)] pub b: Option<String> }
impl M for E_9 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Option<String> as M>::shape()), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_9 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_10(pub u8, #[speedy(default_on_eof)] pub Option<Vec<u16>>);
impl M for E_10 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Option<Vec<u16>> as M>::shape()), <Option<Vec<u16>> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_10(<u8 as M>::from_val(&v.l()[0]), <Option<Vec<u16>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_10 { pub a: u16, #[speedy(default_on_eof)] pub b: Option<Vec<u16>>, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_10 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<Option<Vec<u16>> as M>::shape()), <Option<Vec<u16>> as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_10 { a: <u16 as M>::from_val(&v.l()[0]), b: <Option<Vec<u16>> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_11 { pub a: u8, #[speedy(default_on_eof)] pub b: (u8, u16) }
impl M for E_11 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<(u8, u16) as M>::shape()), <(u8, u16) as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_11 { a: <u8 as M>::from_val(&v.l()[0]), b: <(u8, u16) as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_12(pub u8, #[speedy(default_on_eof)] pub [u8; 2]);
impl M for E_12 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<[u8; 2] as M>::shape()), <[u8; 2] as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_12(<u8 as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_12 { pub a: u16, #[speedy(default_on_eof)] pub b: [u8; 2], #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_12 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<[u8; 2] as M>::shape()), <[u8; 2] as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_12 { a: <u16 as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_13 { pub a: u8, #[speedy(default_on_eof)] pub b: [u16; 2] }
impl M for E_13 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<[u16; 2] as M>::shape()), <[u16; 2] as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_13 { a: <u8 as M>::from_val(&v.l()[0]), b: <[u16; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_14(pub u8, #[speedy(default_on_eof)] pub std::time::Duration);
impl M for E_14 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<std::time::Duration as M>::shape()), <std::time::Duration as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_14(<u8 as M>::from_val(&v.l()[0]), <std::time::Duration as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_14 { pub a: u16, #[speedy(default_on_eof)] pub b: std::time::Duration, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_14 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<std::time::Duration as M>::shape()), <std::time::Duration as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_14 { a: <u16 as M>::from_val(&v.l()[0]), b: <std::time::Duration as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct E_15 { pub a: u8, #[speedy(default_on_eof)] pub b: Box<u16> }
impl M for E_15 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Box<u16> as M>::shape()), <Box<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_15 { a: <u8 as M>::from_val(&v.l()[0]), b: <Box<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_16(pub u8, #[speedy(default_on_eof)] pub Option<u32>);
impl M for E_16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<Option<u32> as M>::shape()), <Option<u32> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_16(<u8 as M>::from_val(&v.l()[0]), <Option<u32> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct EE_16 { pub a: u16, #[speedy(default_on_eof)] pub b: Option<u32>, #[speedy(default_on_eof)] pub c: u8 }
impl M for EE_16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<Option<u32> as M>::shape()), <Option<u32> as Default>::default().to_val()), Shape::OnEof(Box::new(<u8 as M>::shape()), <u8 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EE_16 { a: <u16 as M>::from_val(&v.l()[0]), b: <Option<u32> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct Du7 { pub a: u8, #[speedy(default_on_eof, length_type = u7)] pub b: Vec<u16> }
impl M for Du7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U7))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du7 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu7 { pub a: u8, #[speedy(default_on_eof, length_type = u7)] pub b: Option<String> }
impl M for DOu7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::U7))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu7 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Du8 { pub a: u8, #[speedy(default_on_eof, length_type = u8)] pub b: Vec<u16> }
impl M for Du8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U8))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du8 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu8 { pub a: u8, #[speedy(default_on_eof, length_type = u8)] pub b: Option<String> }
impl M for DOu8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::U8))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu8 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Du16 { pub a: u8, #[speedy(default_on_eof, length_type = u16)] pub b: Vec<u16> }
impl M for Du16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U16))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du16 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu16 { pub a: u8, #[speedy(default_on_eof, length_type = u16)] pub b: Option<String> }
impl M for DOu16 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::U16))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu16 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Du32 { pub a: u8, #[speedy(default_on_eof, length_type = u32)] pub b: Vec<u16> }
impl M for Du32 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U32))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du32 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu32 { pub a: u8, #[speedy(default_on_eof, length_type = u32)] pub b: Option<String> }
impl M for DOu32 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::U32))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu32 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Du64 { pub a: u8, #[speedy(default_on_eof, length_type = u64)] pub b: Vec<u16> }
impl M for Du64 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U64))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du64 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu64 { pub a: u8, #[speedy(default_on_eof, length_type = u64)] pub b: Option<String> }
impl M for DOu64 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::U64))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu64 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Du64_varint { pub a: u8, #[speedy(default_on_eof, length_type = u64_varint)] pub b: Vec<u16> }
impl M for Du64_varint { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::Var))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Du64_varint { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct DOu64_varint { pub a: u8, #[speedy(default_on_eof, length_type = u64_varint)] pub b: Option<String> }
impl M for DOu64_varint { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Option<String> as M>::shape(), Len::T(Tag::Var))), <Option<String> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; DOu64_varint { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<String> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_only(#[speedy(default_on_eof)] pub u32);
impl M for E_only { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u32 as M>::shape()), <u32 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_only(<u32 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct E_pre { pub a: u8, #[speedy(default_on_eof, constant_prefix = "ab")] pub b: u16 }
impl M for E_pre { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(Shape::Prefix(vec![97, 98], Box::new(<u16 as M>::shape()))), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_pre { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_var { pub a: u8, #[speedy(default_on_eof, varint)] pub b: u64 }
impl M for E_var { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(Shape::Varint), <u64 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_var { a: <u8 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_len { pub a: u8, #[speedy(default_on_eof, length = a)] pub b: Vec<u16> }
impl M for E_len { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))), <Vec<u16> as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_len { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_skip { pub a: u8, #[speedy(default_on_eof)] pub b: u16, #[speedy(skip)] pub c: u32 }
impl M for E_skip { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_skip { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u32 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum EV { A { a: u8, #[speedy(default_on_eof)] b: u16 }, B(#[speedy(length = ..)] Vec<u16>), C, }
impl M for EV { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())])), (1u64, Shape::Rec(vec![relen(<Vec<u16> as M>::shape(), Len::Eof)])), (2u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { EV::A { a, b } => Val::E(0, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), EV::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), EV::C => Val::E(2, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => EV::A { a: <u8 as M>::from_val(&x.l()[0]), b: <u16 as M>::from_val(&x.l()[1]) }, 1 => EV::B(<Vec<u16> as M>::from_val(&x.l()[0])), 2 => EV::C, _ => panic!("harness") } } }
#[derive(Readable, Writable, Default)] pub struct EIn { pub a: u8, pub b: u16 }
impl M for EIn { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EIn { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_nest { pub a: u8, #[speedy(default_on_eof)] pub b: EIn }
impl M for E_nest { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<EIn as M>::shape()), <EIn as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_nest { a: <u8 as M>::from_val(&v.l()[0]), b: <EIn as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct E_ref<'l> { pub a: u8, #[speedy(default_on_eof)] pub b: &'l str }
impl M for E_ref<'static> { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::OnEof(Box::new(<&'static str as M>::shape()), <&'static str as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; E_ref { a: <u8 as M>::from_val(&v.l()[0]), b: <&'static str as M>::from_val(&v.l()[1]) } } }
pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    v
}
fn part0(v: &mut Vec<Entry>) {
    reg!(v, "len", false, Lu7_0);
    reg!(v, "len", false, Lu7_1);
    reg!(v, "len", false, Lu7_2);
    reg!(v, "len", false, Lu7_3<'static>);
    reg!(v, "len", false, Lu7_4<'static>);
    reg!(v, "len", false, Lu7_5<'static>);
    reg!(v, "len", false, Lu7_6);
    reg!(v, "len", false, Lu7_7);
    reg!(v, "len", false, Lu7_8);
    reg!(v, "len", false, Lu7_9);
    reg!(v, "len*", false, Lu7_10);
    reg!(v, "len*", false, Lu7_11);
    reg!(v, "len", false, Lu7_opt);
    reg!(v, "len", false, Vec<Lu7_opt>);
    reg!(v, "len", false, Lu7_optm);
    reg!(v, "len", false, Lu7_cow<'static>);
    reg!(v, "len", true, Lu7_ref<'static>);
    reg!(v, "len", false, Lu7_two);
    reg!(v, "len", false, Vec<Lu7_two>);
    reg!(v, "len", false, Option<Lu7_two>);
    reg!(v, "len", false, Lu8_0);
    reg!(v, "len", false, Lu8_1<'static>);
    reg!(v, "len", false, Lu8_2<'static>);
    reg!(v, "len", false, Lu8_3);
    reg!(v, "len", false, Lu8_4);
    reg!(v, "len*", false, Lu8_5);
    reg!(v, "len", false, Lu8_opt);
    reg!(v, "len", false, Vec<Lu8_opt>);
    reg!(v, "len", false, Lu8_optm);
    reg!(v, "len*", false, Lu8_cow<'static>);
    reg!(v, "len", true, Lu8_ref<'static>);
    reg!(v, "len", false, Lu8_two);
    reg!(v, "len", false, Vec<Lu8_two>);
    reg!(v, "len", false, Option<Lu8_two>);
    reg!(v, "len", false, Lu16_0);
    reg!(v, "len", false, Lu16_1);
    reg!(v, "len", false, Lu16_2);
    reg!(v, "len", false, Lu16_3<'static>);
    reg!(v, "len", false, Lu16_4<'static>);
    reg!(v, "len", false, Lu16_5<'static>);
}
fn part1(v: &mut Vec<Entry>) {
    reg!(v, "len", false, Lu16_6);
    reg!(v, "len", false, Lu16_7);
    reg!(v, "len", false, Lu16_8);
    reg!(v, "len", false, Lu16_9);
    reg!(v, "len*", false, Lu16_10);
    reg!(v, "len*", false, Lu16_11);
    reg!(v, "len", false, Lu16_opt);
    reg!(v, "len", false, Vec<Lu16_opt>);
    reg!(v, "len", false, Lu16_optm);
    reg!(v, "len", false, Lu16_cow<'static>);
    reg!(v, "len", true, Lu16_ref<'static>);
    reg!(v, "len", false, Lu16_two);
    reg!(v, "len", false, Vec<Lu16_two>);
    reg!(v, "len", false, Option<Lu16_two>);
    reg!(v, "len", false, Lu32_0);
    reg!(v, "len", false, Lu32_1<'static>);
    reg!(v, "len", false, Lu32_2<'static>);
    reg!(v, "len", false, Lu32_3);
    reg!(v, "len", false, Lu32_4);
    reg!(v, "len*", false, Lu32_5);
    reg!(v, "len", false, Lu32_opt);
    reg!(v, "len", false, Vec<Lu32_opt>);
    reg!(v, "len", false, Lu32_optm);
    reg!(v, "len*", false, Lu32_cow<'static>);
    reg!(v, "len", true, Lu32_ref<'static>);
    reg!(v, "len", false, Lu32_two);
    reg!(v, "len", false, Vec<Lu32_two>);
    reg!(v, "len", false, Option<Lu32_two>);
    reg!(v, "len", false, Lu64_0);
    reg!(v, "len", false, Lu64_1);
    reg!(v, "len", false, Lu64_2<'static>);
    reg!(v, "len", false, Lu64_3);
    reg!(v, "len", false, Lu64_4);
    reg!(v, "len*", false, Lu64_5);
    reg!(v, "len", false, Lu64_opt);
    reg!(v, "len", false, Vec<Lu64_opt>);
    reg!(v, "len", false, Lu64_optm);
    reg!(v, "len", false, Lu64_cow<'static>);
    reg!(v, "len", true, Lu64_ref<'static>);
    reg!(v, "len", false, Lu64_two);
}
fn part2(v: &mut Vec<Entry>) {
    reg!(v, "len", false, Vec<Lu64_two>);
    reg!(v, "len", false, Option<Lu64_two>);
    reg!(v, "len", false, Lu64_varint_0);
    reg!(v, "len", false, Lu64_varint_1);
    reg!(v, "len", false, Lu64_varint_2);
    reg!(v, "len", false, Lu64_varint_3<'static>);
    reg!(v, "len", false, Lu64_varint_4<'static>);
    reg!(v, "len", false, Lu64_varint_5<'static>);
    reg!(v, "len", false, Lu64_varint_6);
    reg!(v, "len", false, Lu64_varint_7);
    reg!(v, "len", false, Lu64_varint_8);
    reg!(v, "len", false, Lu64_varint_9);
    reg!(v, "len*", false, Lu64_varint_10);
    reg!(v, "len*", false, Lu64_varint_11);
    reg!(v, "len", false, Lu64_varint_opt);
    reg!(v, "len", false, Vec<Lu64_varint_opt>);
    reg!(v, "len", false, Lu64_varint_optm);
    reg!(v, "len*", false, Lu64_varint_cow<'static>);
    reg!(v, "len", true, Lu64_varint_ref<'static>);
    reg!(v, "len", false, Lu64_varint_two);
    reg!(v, "len", false, Vec<Lu64_varint_two>);
    reg!(v, "len", false, Option<Lu64_varint_two>);
    reg!(v, "len", false, X_0);
    reg!(v, "len", false, X_1);
    reg!(v, "len", false, X_2);
    reg!(v, "len", false, X_3<'static>);
    reg!(v, "len", false, X_4<'static>);
    reg!(v, "len", false, X_5<'static>);
    reg!(v, "len", false, X_6);
    reg!(v, "len", false, X_7);
    reg!(v, "len", false, X_8);
    reg!(v, "len", false, X_9);
    reg!(v, "len*", false, X_10);
    reg!(v, "len*", false, X_11);
    reg!(v, "len", false, X_plus);
    reg!(v, "len", false, X_const);
    reg!(v, "len", false, Vec<X_const>);
    reg!(v, "len", false, X_zero);
    reg!(v, "len", false, X_two);
    reg!(v, "len", false, Option<X_two>);
}
fn part3(v: &mut Vec<Entry>) {
    reg!(v, "len", false, X_tuple);
    reg!(v, "len", false, X_u64);
    reg!(v, "len", false, X_u32);
    reg!(v, "len", false, X_varint);
    reg!(v, "len", false, X_lenof);
    reg!(v, "len", false, X_lit);
    reg!(v, "len", false, Vec<X_lit>);
    reg!(v, "len", false, X_lite);
    reg!(v, "len", false, X_i8);
    reg!(v, "len", false, X_i16);
    reg!(v, "len", false, X_i32);
    reg!(v, "len", false, X_i64);
    reg!(v, "len", false, X_l64);
    reg!(v, "len", false, X_var);
    reg!(v, "len", true, X_ref<'static>);
    reg!(v, "len*", false, X_cowm<'static>);
    reg!(v, "len", false, XE);
    reg!(v, "len", false, Vec<XE>);
    reg!(v, "eof", false, U_0);
    reg!(v, "eof", false, D_0);
    reg!(v, "eof", false, U_1);
    reg!(v, "eof", false, D_1);
    reg!(v, "eof", false, U_2);
    reg!(v, "eof", false, D_2);
    reg!(v, "eof", false, U_3<'static>);
    reg!(v, "eof", false, D_3<'static>);
    reg!(v, "eof", false, U_4<'static>);
    reg!(v, "eof", false, D_4<'static>);
    reg!(v, "eof", false, U_5<'static>);
    reg!(v, "eof", false, D_5<'static>);
    reg!(v, "eof", false, U_6);
    reg!(v, "eof", false, D_6);
    reg!(v, "eof", false, U_7);
    reg!(v, "eof", false, D_7);
    reg!(v, "eof", false, U_8);
    reg!(v, "eof", false, D_8);
    reg!(v, "eof", false, U_9);
    reg!(v, "eof", false, D_9);
    reg!(v, "eof*", false, U_10);
    reg!(v, "eof*", false, D_10);
}
fn part4(v: &mut Vec<Entry>) {
    reg!(v, "eof*", false, U_11);
    reg!(v, "eof*", false, D_11);
    reg!(v, "eof", false, U_cowm<'static>);
    reg!(v, "eof*", false, U_cowm2<'static>);
    reg!(v, "eof", true, U_ref<'static>);
    reg!(v, "eof", true, U_refb<'static>);
    reg!(v, "eof", false, U_only);
    reg!(v, "eof", false, U_pre);
    reg!(v, "eof", false, U_opt);
    reg!(v, "eof", false, U_bool);
    reg!(v, "eof", false, E_0);
    reg!(v, "eof", false, EE_0);
    reg!(v, "eof", false, E_1);
    reg!(v, "eof", false, E_2);
    reg!(v, "eof", false, EE_2);
    reg!(v, "eof", false, E_3);
    reg!(v, "eof", false, E_4);
    reg!(v, "eof", false, EE_4);
    reg!(v, "eof", false, E_5);
    reg!(v, "eof", false, E_6);
    reg!(v, "eof", false, EE_6);
    reg!(v, "eof", false, E_7);
    reg!(v, "eof", false, E_8);
    reg!(v, "eof", false, EE_8);
    reg!(v, "eof", false, E_9);
    reg!(v, "eof", false, E_10);
    reg!(v, "eof", false, EE_10);
    reg!(v, "eof", false, E_11);
    reg!(v, "eof", false, E_12);
    reg!(v, "eof", false, EE_12);
    reg!(v, "eof", false, E_13);
    reg!(v, "eof", false, E_14);
    reg!(v, "eof", false, EE_14);
    reg!(v, "eof", false, E_15);
    reg!(v, "eof", false, E_16);
    reg!(v, "eof", false, EE_16);
    reg!(v, "eof", false, Du7);
    reg!(v, "eof", false, DOu7);
    reg!(v, "eof", false, Du8);
    reg!(v, "eof", false, DOu8);
}
fn part5(v: &mut Vec<Entry>) {
    reg!(v, "eof", false, Du16);
    reg!(v, "eof", false, DOu16);
    reg!(v, "eof", false, Du32);
    reg!(v, "eof", false, DOu32);
    reg!(v, "eof", false, Du64);
    reg!(v, "eof", false, DOu64);
    reg!(v, "eof", false, Du64_varint);
    reg!(v, "eof", false, DOu64_varint);
    reg!(v, "eof", false, E_only);
    reg!(v, "eof", false, E_pre);
    reg!(v, "eof", false, E_var);
    reg!(v, "eof", false, E_len);
    reg!(v, "eof", false, E_skip);
    reg!(v, "eof", false, EV);
    reg!(v, "eof", false, E_nest);
    reg!(v, "eof", true, E_ref<'static>);
}
