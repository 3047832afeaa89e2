// Generated by tools/gen_types.py; do not edit.
#![allow(non_camel_case_types, dead_code, unused_imports)]
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;
use vcore::model::*;
use vcore::{reg, Entry, Kind, Len, Shape, Tag, Val, M};
type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum En_u7 { A, B(u8), C { a: u16, b: String }, }
impl M for En_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u7::A => Val::E(0, Box::new(Val::L(vec![]))), En_u7::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u7::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u7::A, 1 => En_u7::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u7::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum Ed_u7 { A = 3, B, C = 100, D, }
impl M for Ed_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u7::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u7::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u7::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u7::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u7::A, 1 => Ed_u7::B, 2 => Ed_u7::C, 3 => Ed_u7::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum Et_u7 { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 127)] E, }
impl M for Et_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (127u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u7::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u7::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u7::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u7::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u7::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u7::A, 1 => Et_u7::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u7::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u7::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u7::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum Em_u7 { #[speedy(tag = 126)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(126u64, Shape::Rec(vec![])), (127u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u7::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u7::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u7::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u7::A, 1 => Em_u7::B, 2 => Em_u7::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7, peek_tag)] pub enum Ep_u7 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B { a: u8, b: u8 }, #[speedy(tag = 5)] C(u8, String), }
impl M for Ep_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (5u64, Shape::Rec(vec![<u8 as M>::shape(), <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u7::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u7::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u7::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u7::A(<u8 as M>::from_val(&x.l()[0])), 1 => Ep_u7::B { a: <u8 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u7::C(<u8 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u7 { pub a: u8 }
impl M for EpS_u7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u7 { a: <u8 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7, peek_tag)] pub enum Epn_u7 { #[speedy(tag = 1)] A(EpS_u7), #[speedy(tag = 9)] B(EpS_u7, u16), }
impl M for Epn_u7 { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(1u64, Shape::Rec(vec![<EpS_u7 as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u7 as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u7::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u7::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u7::A(<EpS_u7 as M>::from_val(&x.l()[0])), 1 => Epn_u7::B(<EpS_u7 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum En_u8 { A, B(u8), C { a: u16, b: String }, }
impl M for En_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u8::A => Val::E(0, Box::new(Val::L(vec![]))), En_u8::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u8::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u8::A, 1 => En_u8::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u8::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Ed_u8 { A = 3, B, C = 100, D, }
impl M for Ed_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u8::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u8::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u8::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u8::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u8::A, 1 => Ed_u8::B, 2 => Ed_u8::C, 3 => Ed_u8::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Et_u8 { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 255)] E, }
impl M for Et_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (255u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u8::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u8::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u8::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u8::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u8::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u8::A, 1 => Et_u8::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u8::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u8::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u8::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Em_u8 { #[speedy(tag = 254)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(254u64, Shape::Rec(vec![])), (255u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u8::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u8::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u8::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u8::A, 1 => Em_u8::B, 2 => Em_u8::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8, peek_tag)] pub enum Ep_u8 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B { a: u8, b: u8 }, #[speedy(tag = 5)] C(u8, String), }
impl M for Ep_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (5u64, Shape::Rec(vec![<u8 as M>::shape(), <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u8::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u8::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u8::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u8::A(<u8 as M>::from_val(&x.l()[0])), 1 => Ep_u8::B { a: <u8 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u8::C(<u8 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8, peek_tag)] pub enum Epb_u8 { #[speedy(tag = 255)] A(u8), #[speedy(tag = 200)] B(u8, u8), #[speedy(tag = 0)] C { a: u8, b: Option<u16> }, }
impl M for Epb_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(255u64, Shape::Rec(vec![<u8 as M>::shape()])), (200u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape(), <Option<u16> as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epb_u8::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epb_u8::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Epb_u8::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epb_u8::A(<u8 as M>::from_val(&x.l()[0])), 1 => Epb_u8::B(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 2 => Epb_u8::C { a: <u8 as M>::from_val(&x.l()[0]), b: <Option<u16> as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u8 { pub a: u8 }
impl M for EpS_u8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u8 { a: <u8 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8, peek_tag)] pub enum Epn_u8 { #[speedy(tag = 1)] A(EpS_u8), #[speedy(tag = 9)] B(EpS_u8, u16), }
impl M for Epn_u8 { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(1u64, Shape::Rec(vec![<EpS_u8 as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u8 as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u8::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u8::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u8::A(<EpS_u8 as M>::from_val(&x.l()[0])), 1 => Epn_u8::B(<EpS_u8 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] pub enum En_u16 { A, B(u8), C { a: u16, b: String }, }
impl M for En_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u16::A => Val::E(0, Box::new(Val::L(vec![]))), En_u16::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u16::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u16::A, 1 => En_u16::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u16::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] pub enum Ed_u16 { A = 3, B, C = 100, D, }
impl M for Ed_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u16::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u16::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u16::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u16::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u16::A, 1 => Ed_u16::B, 2 => Ed_u16::C, 3 => Ed_u16::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] pub enum Et_u16 { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 65535)] E, }
impl M for Et_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (65535u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u16::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u16::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u16::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u16::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u16::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u16::A, 1 => Et_u16::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u16::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u16::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u16::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] pub enum Em_u16 { #[speedy(tag = 65534)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(65534u64, Shape::Rec(vec![])), (65535u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u16::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u16::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u16::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u16::A, 1 => Em_u16::B, 2 => Em_u16::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] pub enum Eb_u16 { #[speedy(tag = 300)] V0(u8), #[speedy(tag = 4660)] V1, #[speedy(tag = 32768)] V2(u8), #[speedy(tag = 65530)] V3, }
impl M for Eb_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(300u64, Shape::Rec(vec![<u8 as M>::shape()])), (4660u64, Shape::Rec(vec![])), (32768u64, Shape::Rec(vec![<u8 as M>::shape()])), (65530u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Eb_u16::V0(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Eb_u16::V1 => Val::E(1, Box::new(Val::L(vec![]))), Eb_u16::V2(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Eb_u16::V3 => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eb_u16::V0(<u8 as M>::from_val(&x.l()[0])), 1 => Eb_u16::V1, 2 => Eb_u16::V2(<u8 as M>::from_val(&x.l()[0])), 3 => Eb_u16::V3, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16, peek_tag)] pub enum Ep_u16 { #[speedy(tag = 1)] A(u16), #[speedy(tag = 2)] B { a: u16, b: u8 }, #[speedy(tag = 5)] C(u16, String), }
impl M for Ep_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(1u64, Shape::Rec(vec![<u16 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()])), (5u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u16::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u16::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u16::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u16::A(<u16 as M>::from_val(&x.l()[0])), 1 => Ep_u16::B { a: <u16 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u16::C(<u16 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16, peek_tag)] pub enum Epb_u16 { #[speedy(tag = 65535)] A(u16), #[speedy(tag = 200)] B(u16, u16), #[speedy(tag = 0)] C { a: u16, b: Option<u16> }, }
impl M for Epb_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(65535u64, Shape::Rec(vec![<u16 as M>::shape()])), (200u64, Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u16 as M>::shape(), <Option<u16> as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epb_u16::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epb_u16::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Epb_u16::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epb_u16::A(<u16 as M>::from_val(&x.l()[0])), 1 => Epb_u16::B(<u16 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), 2 => Epb_u16::C { a: <u16 as M>::from_val(&x.l()[0]), b: <Option<u16> as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u16 { pub a: u16 }
impl M for EpS_u16 { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u16 { a: <u16 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16, peek_tag)] pub enum Epn_u16 { #[speedy(tag = 1)] A(EpS_u16), #[speedy(tag = 9)] B(EpS_u16, u16), }
impl M for Epn_u16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(1u64, Shape::Rec(vec![<EpS_u16 as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u16 as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u16::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u16::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u16::A(<EpS_u16 as M>::from_val(&x.l()[0])), 1 => Epn_u16::B(<EpS_u16 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32)] pub enum En_u32 { A, B(u8), C { a: u16, b: String }, }
impl M for En_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u32::A => Val::E(0, Box::new(Val::L(vec![]))), En_u32::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u32::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u32::A, 1 => En_u32::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u32::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32)] pub enum Ed_u32 { A = 3, B, C = 100, D, }
impl M for Ed_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u32::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u32::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u32::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u32::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u32::A, 1 => Ed_u32::B, 2 => Ed_u32::C, 3 => Ed_u32::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32)] pub enum Et_u32 { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 4294967295)] E, }
impl M for Et_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (4294967295u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u32::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u32::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u32::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u32::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u32::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u32::A, 1 => Et_u32::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u32::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u32::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u32::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32)] pub enum Em_u32 { #[speedy(tag = 4294967294)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(4294967294u64, Shape::Rec(vec![])), (4294967295u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u32::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u32::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u32::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u32::A, 1 => Em_u32::B, 2 => Em_u32::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32)] pub enum Eb_u32 { #[speedy(tag = 300)] V0(u8), #[speedy(tag = 4660)] V1, #[speedy(tag = 2147483648)] V2(u8), #[speedy(tag = 4294967290)] V3, }
impl M for Eb_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(300u64, Shape::Rec(vec![<u8 as M>::shape()])), (4660u64, Shape::Rec(vec![])), (2147483648u64, Shape::Rec(vec![<u8 as M>::shape()])), (4294967290u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Eb_u32::V0(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Eb_u32::V1 => Val::E(1, Box::new(Val::L(vec![]))), Eb_u32::V2(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Eb_u32::V3 => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eb_u32::V0(<u8 as M>::from_val(&x.l()[0])), 1 => Eb_u32::V1, 2 => Eb_u32::V2(<u8 as M>::from_val(&x.l()[0])), 3 => Eb_u32::V3, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32, peek_tag)] pub enum Ep_u32 { #[speedy(tag = 1)] A(u32), #[speedy(tag = 2)] B { a: u32, b: u8 }, #[speedy(tag = 5)] C(u32, String), }
impl M for Ep_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(1u64, Shape::Rec(vec![<u32 as M>::shape()])), (2u64, Shape::Rec(vec![<u32 as M>::shape(), <u8 as M>::shape()])), (5u64, Shape::Rec(vec![<u32 as M>::shape(), <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u32::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u32::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u32::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u32::A(<u32 as M>::from_val(&x.l()[0])), 1 => Ep_u32::B { a: <u32 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u32::C(<u32 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32, peek_tag)] pub enum Epb_u32 { #[speedy(tag = 4294967295)] A(u32), #[speedy(tag = 200)] B(u32, u32), #[speedy(tag = 0)] C { a: u32, b: Option<u16> }, }
impl M for Epb_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(4294967295u64, Shape::Rec(vec![<u32 as M>::shape()])), (200u64, Shape::Rec(vec![<u32 as M>::shape(), <u32 as M>::shape()])), (0u64, Shape::Rec(vec![<u32 as M>::shape(), <Option<u16> as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epb_u32::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epb_u32::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Epb_u32::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epb_u32::A(<u32 as M>::from_val(&x.l()[0])), 1 => Epb_u32::B(<u32 as M>::from_val(&x.l()[0]), <u32 as M>::from_val(&x.l()[1])), 2 => Epb_u32::C { a: <u32 as M>::from_val(&x.l()[0]), b: <Option<u16> as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u32 { pub a: u32 }
impl M for EpS_u32 { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u32 { a: <u32 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u32, peek_tag)] pub enum Epn_u32 { #[speedy(tag = 1)] A(EpS_u32), #[speedy(tag = 9)] B(EpS_u32, u16), }
impl M for Epn_u32 { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(1u64, Shape::Rec(vec![<EpS_u32 as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u32 as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u32::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u32::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u32::A(<EpS_u32 as M>::from_val(&x.l()[0])), 1 => Epn_u32::B(<EpS_u32 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64)] pub enum En_u64 { A, B(u8), C { a: u16, b: String }, }
impl M for En_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u64::A => Val::E(0, Box::new(Val::L(vec![]))), En_u64::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u64::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u64::A, 1 => En_u64::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u64::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64)] pub enum Ed_u64 { A = 3, B, C = 100, D, }
impl M for Ed_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u64::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u64::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u64::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u64::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u64::A, 1 => Ed_u64::B, 2 => Ed_u64::C, 3 => Ed_u64::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64)] pub enum Et_u64 { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 18446744073709551615)] E, }
impl M for Et_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (18446744073709551615u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u64::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u64::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u64::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u64::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u64::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u64::A, 1 => Et_u64::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u64::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u64::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u64::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64)] pub enum Em_u64 { #[speedy(tag = 18446744073709551614)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(18446744073709551614u64, Shape::Rec(vec![])), (18446744073709551615u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u64::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u64::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u64::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u64::A, 1 => Em_u64::B, 2 => Em_u64::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64)] pub enum Eb_u64 { #[speedy(tag = 300)] V0(u8), #[speedy(tag = 4660)] V1, #[speedy(tag = 9223372036854775808)] V2(u8), #[speedy(tag = 18446744073709551610)] V3, }
impl M for Eb_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(300u64, Shape::Rec(vec![<u8 as M>::shape()])), (4660u64, Shape::Rec(vec![])), (9223372036854775808u64, Shape::Rec(vec![<u8 as M>::shape()])), (18446744073709551610u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Eb_u64::V0(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Eb_u64::V1 => Val::E(1, Box::new(Val::L(vec![]))), Eb_u64::V2(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Eb_u64::V3 => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eb_u64::V0(<u8 as M>::from_val(&x.l()[0])), 1 => Eb_u64::V1, 2 => Eb_u64::V2(<u8 as M>::from_val(&x.l()[0])), 3 => Eb_u64::V3, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64, peek_tag)] pub enum Ep_u64 { #[speedy(tag = 1)] A(u64), #[speedy(tag = 2)] B { a: u64, b: u8 }, #[speedy(tag = 5)] C(u64, String), }
impl M for Ep_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(1u64, Shape::Rec(vec![<u64 as M>::shape()])), (2u64, Shape::Rec(vec![<u64 as M>::shape(), <u8 as M>::shape()])), (5u64, Shape::Rec(vec![<u64 as M>::shape(), <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u64::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u64::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u64::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u64::A(<u64 as M>::from_val(&x.l()[0])), 1 => Ep_u64::B { a: <u64 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u64::C(<u64 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64, peek_tag)] pub enum Epb_u64 { #[speedy(tag = 18446744073709551615)] A(u64), #[speedy(tag = 200)] B(u64, u64), #[speedy(tag = 0)] C { a: u64, b: Option<u16> }, }
impl M for Epb_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(18446744073709551615u64, Shape::Rec(vec![<u64 as M>::shape()])), (200u64, Shape::Rec(vec![<u64 as M>::shape(), <u64 as M>::shape()])), (0u64, Shape::Rec(vec![<u64 as M>::shape(), <Option<u16> as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epb_u64::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epb_u64::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Epb_u64::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epb_u64::A(<u64 as M>::from_val(&x.l()[0])), 1 => Epb_u64::B(<u64 as M>::from_val(&x.l()[0]), <u64 as M>::from_val(&x.l()[1])), 2 => Epb_u64::C { a: <u64 as M>::from_val(&x.l()[0]), b: <Option<u16> as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u64 { pub a: u64 }
impl M for EpS_u64 { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u64 { a: <u64 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64, peek_tag)] pub enum Epn_u64 { #[speedy(tag = 1)] A(EpS_u64), #[speedy(tag = 9)] B(EpS_u64, u16), }
impl M for Epn_u64 { fn shape() -> Shape { Shape::Enum { tag: Tag::U64, vars: vec![(1u64, Shape::Rec(vec![<EpS_u64 as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u64 as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u64::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u64::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u64::A(<EpS_u64 as M>::from_val(&x.l()[0])), 1 => Epn_u64::B(<EpS_u64 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint)] pub enum En_u64_varint { A, B(u8), C { a: u16, b: String }, }
impl M for En_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { En_u64_varint::A => Val::E(0, Box::new(Val::L(vec![]))), En_u64_varint::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), En_u64_varint::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => En_u64_varint::A, 1 => En_u64_varint::B(<u8 as M>::from_val(&x.l()[0])), 2 => En_u64_varint::C { a: <u16 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint)] pub enum Ed_u64_varint { A = 3, B, C = 100, D, }
impl M for Ed_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(3u64, Shape::Rec(vec![])), (4u64, Shape::Rec(vec![])), (100u64, Shape::Rec(vec![])), (101u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Ed_u64_varint::A => Val::E(0, Box::new(Val::L(vec![]))), Ed_u64_varint::B => Val::E(1, Box::new(Val::L(vec![]))), Ed_u64_varint::C => Val::E(2, Box::new(Val::L(vec![]))), Ed_u64_varint::D => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ed_u64_varint::A, 1 => Ed_u64_varint::B, 2 => Ed_u64_varint::C, 3 => Ed_u64_varint::D, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint)] pub enum Et_u64_varint { #[speedy(tag = 5)] A, B(u16), #[speedy(tag = 0)] C { a: u8 }, D(u8, u8), #[speedy(tag = 18446744073709551615)] E, }
impl M for Et_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(5u64, Shape::Rec(vec![])), (6u64, Shape::Rec(vec![<u16 as M>::shape()])), (0u64, Shape::Rec(vec![<u8 as M>::shape()])), (1u64, Shape::Rec(vec![<u8 as M>::shape(), <u8 as M>::shape()])), (18446744073709551615u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Et_u64_varint::A => Val::E(0, Box::new(Val::L(vec![]))), Et_u64_varint::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Et_u64_varint::C { a } => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Et_u64_varint::D(a, b) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Et_u64_varint::E => Val::E(4, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Et_u64_varint::A, 1 => Et_u64_varint::B(<u16 as M>::from_val(&x.l()[0])), 2 => Et_u64_varint::C { a: <u8 as M>::from_val(&x.l()[0]) }, 3 => Et_u64_varint::D(<u8 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 4 => Et_u64_varint::E, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint)] pub enum Em_u64_varint { #[speedy(tag = 18446744073709551614)] A, B, #[speedy(tag = 65)] C(()), }
impl M for Em_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(18446744073709551614u64, Shape::Rec(vec![])), (18446744073709551615u64, Shape::Rec(vec![])), (65u64, Shape::Rec(vec![<() as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Em_u64_varint::A => Val::E(0, Box::new(Val::L(vec![]))), Em_u64_varint::B => Val::E(1, Box::new(Val::L(vec![]))), Em_u64_varint::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Em_u64_varint::A, 1 => Em_u64_varint::B, 2 => Em_u64_varint::C(<() as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint)] pub enum Eb_u64_varint { #[speedy(tag = 300)] V0(u8), #[speedy(tag = 4660)] V1, #[speedy(tag = 9223372036854775808)] V2(u8), #[speedy(tag = 18446744073709551610)] V3, }
impl M for Eb_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(300u64, Shape::Rec(vec![<u8 as M>::shape()])), (4660u64, Shape::Rec(vec![])), (9223372036854775808u64, Shape::Rec(vec![<u8 as M>::shape()])), (18446744073709551610u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Eb_u64_varint::V0(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Eb_u64_varint::V1 => Val::E(1, Box::new(Val::L(vec![]))), Eb_u64_varint::V2(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Eb_u64_varint::V3 => Val::E(3, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eb_u64_varint::V0(<u8 as M>::from_val(&x.l()[0])), 1 => Eb_u64_varint::V1, 2 => Eb_u64_varint::V2(<u8 as M>::from_val(&x.l()[0])), 3 => Eb_u64_varint::V3, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum Ep_u64_varint { #[speedy(tag = 1)] A(#[speedy(varint)] u64), #[speedy(tag = 2)] B { #[speedy(varint)] a: u64, b: u8 }, #[speedy(tag = 5)] C(#[speedy(varint)] u64, String), }
impl M for Ep_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(1u64, Shape::Rec(vec![Shape::Varint])), (2u64, Shape::Rec(vec![Shape::Varint, <u8 as M>::shape()])), (5u64, Shape::Rec(vec![Shape::Varint, <String as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Ep_u64_varint::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Ep_u64_varint::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Ep_u64_varint::C(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Ep_u64_varint::A(<u64 as M>::from_val(&x.l()[0])), 1 => Ep_u64_varint::B { a: <u64 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => Ep_u64_varint::C(<u64 as M>::from_val(&x.l()[0]), <String as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum Epb_u64_varint { #[speedy(tag = 18446744073709551615)] A(#[speedy(varint)] u64), #[speedy(tag = 200)] B(#[speedy(varint)] u64, #[speedy(varint)] u64), #[speedy(tag = 0)] C { #[speedy(varint)] a: u64, b: Option<u16> }, }
impl M for Epb_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(18446744073709551615u64, Shape::Rec(vec![Shape::Varint])), (200u64, Shape::Rec(vec![Shape::Varint, Shape::Varint])), (0u64, Shape::Rec(vec![Shape::Varint, <Option<u16> as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epb_u64_varint::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epb_u64_varint::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Epb_u64_varint::C { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epb_u64_varint::A(<u64 as M>::from_val(&x.l()[0])), 1 => Epb_u64_varint::B(<u64 as M>::from_val(&x.l()[0]), <u64 as M>::from_val(&x.l()[1])), 2 => Epb_u64_varint::C { a: <u64 as M>::from_val(&x.l()[0]), b: <Option<u16> as M>::from_val(&x.l()[1]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub struct EpS_u64_varint { #[speedy(varint)] pub a: u64 }
impl M for EpS_u64_varint { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; EpS_u64_varint { a: <u64 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u64_varint, peek_tag)] pub enum Epn_u64_varint { #[speedy(tag = 1)] A(EpS_u64_varint), #[speedy(tag = 9)] B(EpS_u64_varint, u16), }
impl M for Epn_u64_varint { fn shape() -> Shape { Shape::Enum { tag: Tag::Var, vars: vec![(1u64, Shape::Rec(vec![<EpS_u64_varint as M>::shape()])), (9u64, Shape::Rec(vec![<EpS_u64_varint as M>::shape(), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { Epn_u64_varint::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Epn_u64_varint::B(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Epn_u64_varint::A(<EpS_u64_varint as M>::from_val(&x.l()[0])), 1 => Epn_u64_varint::B(<EpS_u64_varint as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] pub enum Edef { A, B(u8), #[speedy(tag = 7)] C, }
impl M for Edef { fn shape() -> Shape { Shape::Enum { tag: Tag::U32, vars: vec![(0u64, Shape::Rec(vec![])), (1u64, Shape::Rec(vec![<u8 as M>::shape()])), (7u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Edef::A => Val::E(0, Box::new(Val::L(vec![]))), Edef::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Edef::C => Val::E(2, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Edef::A, 1 => Edef::B(<u8 as M>::from_val(&x.l()[0])), 2 => Edef::C, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Eone { A, }
impl M for Eone { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Eone::A => Val::E(0, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eone::A, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] #[repr(u8)] pub enum Erepr { A, B = 200, C, }
impl M for Erepr { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![])), (200u64, Shape::Rec(vec![])), (201u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Erepr::A => Val::E(0, Box::new(Val::L(vec![]))), Erepr::B => Val::E(1, Box::new(Val::L(vec![]))), Erepr::C => Val::E(2, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Erepr::A, 1 => Erepr::B, 2 => Erepr::C, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u16)] #[repr(u16)] pub enum Erepr16 { A = 1, B = 4660, }
impl M for Erepr16 { fn shape() -> Shape { Shape::Enum { tag: Tag::U16, vars: vec![(1u64, Shape::Rec(vec![])), (4660u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Erepr16::A => Val::E(0, Box::new(Val::L(vec![]))), Erepr16::B => Val::E(1, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Erepr16::A, 1 => Erepr16::B, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Etagdisc { #[speedy(tag = 9)] A, B, #[speedy(tag = 2)] C, }
impl M for Etagdisc { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(9u64, Shape::Rec(vec![])), (10u64, Shape::Rec(vec![])), (2u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Etagdisc::A => Val::E(0, Box::new(Val::L(vec![]))), Etagdisc::B => Val::E(1, Box::new(Val::L(vec![]))), Etagdisc::C => Val::E(2, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Etagdisc::A, 1 => Etagdisc::B, 2 => Etagdisc::C, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Enest { A(En_u7), B { a: Option<Ed_u8>, b: Vec<Et_u16> }, C(Box<En_u64_varint>), }
impl M for Enest { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![<En_u7 as M>::shape()])), (1u64, Shape::Rec(vec![<Option<Ed_u8> as M>::shape(), <Vec<Et_u16> as M>::shape()])), (2u64, Shape::Rec(vec![<Box<En_u64_varint> as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Enest::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Enest::B { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Enest::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Enest::A(<En_u7 as M>::from_val(&x.l()[0])), 1 => Enest::B { a: <Option<Ed_u8> as M>::from_val(&x.l()[0]), b: <Vec<Et_u16> as M>::from_val(&x.l()[1]) }, 2 => Enest::C(<Box<En_u64_varint> as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum Eattr { A { a: u16, b: u8 }, B(#[speedy(varint)] u64), C(#[speedy(constant_prefix = "ab")] u8), D { a: u8, b: u32 }, E(#[speedy(constant_prefix = 7u8, length_type = u8)] String), }
impl M for Eattr { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(0u64, Shape::Rec(vec![<u16 as M>::shape(), <u8 as M>::shape()])), (1u64, Shape::Rec(vec![Shape::Varint])), (2u64, Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))])), (3u64, Shape::Rec(vec![<u8 as M>::shape(), <u32 as M>::shape()])), (4u64, Shape::Rec(vec![Shape::Prefix(vec![7], Box::new(relen(<String as M>::shape(), Len::T(Tag::U8))))]))], peek: false } } fn to_val(&self) -> Val { match self { Eattr::A { a, b } => Val::E(0, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Eattr::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Eattr::C(a) => Val::E(2, Box::new(Val::L(vec![a.to_val()]))), Eattr::D { a, b } => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Eattr::E(a) => Val::E(4, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Eattr::A { a: <u16 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 1 => Eattr::B(<u64 as M>::from_val(&x.l()[0])), 2 => Eattr::C(<u8 as M>::from_val(&x.l()[0])), 3 => Eattr::D { a: <u8 as M>::from_val(&x.l()[0]), b: <u32 as M>::from_val(&x.l()[1]) }, 4 => Eattr::E(<String as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Esame { A(u32), B(u32), }
impl M for Esame { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![<u32 as M>::shape()])), (1u64, Shape::Rec(vec![<u32 as M>::shape()]))], peek: false } } fn to_val(&self) -> Val { match self { Esame::A(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), Esame::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Esame::A(<u32 as M>::from_val(&x.l()[0])), 1 => Esame::B(<u32 as M>::from_val(&x.l()[0])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum Emin { A(u64, u64), B(u32), C, }
impl M for Emin { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![<u64 as M>::shape(), <u64 as M>::shape()])), (1u64, Shape::Rec(vec![<u32 as M>::shape()])), (2u64, Shape::Rec(vec![]))], peek: false } } fn to_val(&self) -> Val { match self { Emin::A(a, b) => Val::E(0, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), Emin::B(a) => Val::E(1, Box::new(Val::L(vec![a.to_val()]))), Emin::C => Val::E(2, Box::new(Val::L(vec![]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => Emin::A(<u64 as M>::from_val(&x.l()[0]), <u64 as M>::from_val(&x.l()[1])), 1 => Emin::B(<u32 as M>::from_val(&x.l()[0])), 2 => Emin::C, _ => panic!("harness") } } }
#[derive(Readable, Writable)] pub struct Q_uu(pub u16, pub u16);
impl M for Q_uu { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_uu(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_uv { pub a: u16, #[speedy(varint)] pub b: u64 }
impl M for Q_uv { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_uv { a: <u16 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_uk(pub u16, #[speedy(skip)] pub u32);
impl M for Q_uk { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_uk(<u16 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_up { pub a: u16, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_up { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_up { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ul { pub a: u16, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_ul { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ul { a: <u16 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_us(pub u16, pub String);
impl M for Q_us { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_us(<u16 as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_uo(pub u16, pub Option<u16>);
impl M for Q_uo { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_uo(<u16 as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ue(pub u16, #[speedy(default_on_eof)] pub u16);
impl M for Q_ue { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ue(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_un { pub a: u16, pub b: En_u8 }
impl M for Q_un { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_un { a: <u16 as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ua(pub u16, pub [u8; 2]);
impl M for Q_ua { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ua(<u16 as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ux { pub a: u16, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_ux { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ux { a: <u16 as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_um(pub u16, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_um { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_um(<u16 as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ur { pub a: u16, pub b: () }
impl M for Q_ur { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ur { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vu { #[speedy(varint)] pub a: u64, pub b: u16 }
impl M for Q_vu { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vu { a: <u64 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vv(#[speedy(varint)] pub u64, #[speedy(varint)] pub u64);
impl M for Q_vv { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vv(<u64 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_vk { #[speedy(varint)] pub a: u64, #[speedy(skip)] pub b: u32 }
impl M for Q_vk { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vk { a: <u64 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vp(#[speedy(varint)] pub u64, #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_vp { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vp(<u64 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_vl(#[speedy(varint)] pub u64, #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_vl { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vl(<u64 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_vs { #[speedy(varint)] pub a: u64, pub b: String }
impl M for Q_vs { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vs { a: <u64 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vo { #[speedy(varint)] pub a: u64, pub b: Option<u16> }
impl M for Q_vo { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vo { a: <u64 as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ve { #[speedy(varint)] pub a: u64, #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_ve { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ve { a: <u64 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vn(#[speedy(varint)] pub u64, pub En_u8);
impl M for Q_vn { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vn(<u64 as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_va { #[speedy(varint)] pub a: u64, pub b: [u8; 2] }
impl M for Q_va { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_va { a: <u64 as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vx(#[speedy(varint)] pub u64, #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_vx { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vx(<u64 as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_vm { #[speedy(varint)] pub a: u64, #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_vm { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vm { a: <u64 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_vr(#[speedy(varint)] pub u64, pub ());
impl M for Q_vr { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_vr(<u64 as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ku(#[speedy(skip)] pub u32, pub u16);
impl M for Q_ku { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ku(<u32 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_kv { #[speedy(skip)] pub a: u32, #[speedy(varint)] pub b: u64 }
impl M for Q_kv { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kv { a: <u32 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_kk(#[speedy(skip)] pub u32, #[speedy(skip)] pub u32);
impl M for Q_kk { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kk(<u32 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_kp { #[speedy(skip)] pub a: u32, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_kp { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kp { a: <u32 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_kl { #[speedy(skip)] pub a: u32, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_kl { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kl { a: <u32 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ks(#[speedy(skip)] pub u32, pub String);
impl M for Q_ks { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ks(<u32 as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ko(#[speedy(skip)] pub u32, pub Option<u16>);
impl M for Q_ko { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ko(<u32 as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ke(#[speedy(skip)] pub u32, #[speedy(default_on_eof)] pub u16);
impl M for Q_ke { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ke(<u32 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_kn { #[speedy(skip)] pub a: u32, pub b: En_u8 }
impl M for Q_kn { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kn { a: <u32 as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ka(#[speedy(skip)] pub u32, pub [u8; 2]);
impl M for Q_ka { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ka(<u32 as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_kx { #[speedy(skip)] pub a: u32, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_kx { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kx { a: <u32 as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_km(#[speedy(skip)] pub u32, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_km { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_km(<u32 as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_kr { #[speedy(skip)] pub a: u32, pub b: () }
impl M for Q_kr { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_kr { a: <u32 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pu { #[speedy(constant_prefix = "ab")] pub a: u8, pub b: u16 }
impl M for Q_pu { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pu { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pv(#[speedy(constant_prefix = "ab")] pub u8, #[speedy(varint)] pub u64);
impl M for Q_pv { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pv(<u8 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_pk { #[speedy(constant_prefix = "ab")] pub a: u8, #[speedy(skip)] pub b: u32 }
impl M for Q_pk { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pk { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pp(#[speedy(constant_prefix = "ab")] pub u8, #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_pp { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pp(<u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_pl(#[speedy(constant_prefix = "ab")] pub u8, #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_pl { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pl(<u8 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ps { #[speedy(constant_prefix = "ab")] pub a: u8, pub b: String }
impl M for Q_ps { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ps { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_po { #[speedy(constant_prefix = "ab")] pub a: u8, pub b: Option<u16> }
impl M for Q_po { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_po { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pe { #[speedy(constant_prefix = "ab")] pub a: u8, #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_pe { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pe { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pn(#[speedy(constant_prefix = "ab")] pub u8, pub En_u8);
impl M for Q_pn { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pn(<u8 as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_pa { #[speedy(constant_prefix = "ab")] pub a: u8, pub b: [u8; 2] }
impl M for Q_pa { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pa { a: <u8 as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_px(#[speedy(constant_prefix = "ab")] pub u8, #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_px { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_px(<u8 as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_pm { #[speedy(constant_prefix = "ab")] pub a: u8, #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_pm { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pm { a: <u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_pr(#[speedy(constant_prefix = "ab")] pub u8, pub ());
impl M for Q_pr { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape())), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_pr(<u8 as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_lu { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: u16 }
impl M for Q_lu { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lu { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_lv(#[speedy(length_type = u7)] pub Vec<u8>, #[speedy(varint)] pub u64);
impl M for Q_lv { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lv(<Vec<u8> as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_lk { #[speedy(length_type = u7)] pub a: Vec<u8>, #[speedy(skip)] pub b: u32 }
impl M for Q_lk { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lk { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_lp(#[speedy(length_type = u7)] pub Vec<u8>, #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_lp { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lp(<Vec<u8> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ll(#[speedy(length_type = u7)] pub Vec<u8>, #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_ll { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ll(<Vec<u8> as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ls { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: String }
impl M for Q_ls { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ls { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_lo { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: Option<u16> }
impl M for Q_lo { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lo { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_le { #[speedy(length_type = u7)] pub a: Vec<u8>, #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_le { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_le { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ln(#[speedy(length_type = u7)] pub Vec<u8>, pub En_u8);
impl M for Q_ln { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ln(<Vec<u8> as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_la { #[speedy(length_type = u7)] pub a: Vec<u8>, pub b: [u8; 2] }
impl M for Q_la { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_la { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_lx(#[speedy(length_type = u7)] pub Vec<u8>, #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_lx { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lx(<Vec<u8> as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_lm { #[speedy(length_type = u7)] pub a: Vec<u8>, #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_lm { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lm { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_lr(#[speedy(length_type = u7)] pub Vec<u8>, pub ());
impl M for Q_lr { fn shape() -> Shape { Shape::Rec(vec![relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7)), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_lr(<Vec<u8> as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_su(pub String, pub u16);
impl M for Q_su { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_su(<String as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_sv { pub a: String, #[speedy(varint)] pub b: u64 }
impl M for Q_sv { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sv { a: <String as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_sk(pub String, #[speedy(skip)] pub u32);
impl M for Q_sk { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sk(<String as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_sp { pub a: String, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_sp { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sp { a: <String as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_sl { pub a: String, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_sl { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sl { a: <String as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ss(pub String, pub String);
impl M for Q_ss { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ss(<String as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_so(pub String, pub Option<u16>);
impl M for Q_so { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_so(<String as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_se(pub String, #[speedy(default_on_eof)] pub u16);
impl M for Q_se { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_se(<String as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_sn { pub a: String, pub b: En_u8 }
impl M for Q_sn { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sn { a: <String as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_sa(pub String, pub [u8; 2]);
impl M for Q_sa { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sa(<String as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_sx { pub a: String, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_sx { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sx { a: <String as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_sm(pub String, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_sm { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sm(<String as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_sr { pub a: String, pub b: () }
impl M for Q_sr { fn shape() -> Shape { Shape::Rec(vec![<String as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_sr { a: <String as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ou(pub Option<u16>, pub u16);
impl M for Q_ou { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ou(<Option<u16> as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ov { pub a: Option<u16>, #[speedy(varint)] pub b: u64 }
impl M for Q_ov { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ov { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ok(pub Option<u16>, #[speedy(skip)] pub u32);
impl M for Q_ok { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ok(<Option<u16> as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_op { pub a: Option<u16>, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_op { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_op { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ol { pub a: Option<u16>, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_ol { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ol { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_os(pub Option<u16>, pub String);
impl M for Q_os { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_os(<Option<u16> as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_oo(pub Option<u16>, pub Option<u16>);
impl M for Q_oo { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_oo(<Option<u16> as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_oe(pub Option<u16>, #[speedy(default_on_eof)] pub u16);
impl M for Q_oe { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_oe(<Option<u16> as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_on { pub a: Option<u16>, pub b: En_u8 }
impl M for Q_on { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_on { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_oa(pub Option<u16>, pub [u8; 2]);
impl M for Q_oa { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_oa(<Option<u16> as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ox { pub a: Option<u16>, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_ox { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ox { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_om(pub Option<u16>, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_om { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_om(<Option<u16> as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_or { pub a: Option<u16>, pub b: () }
impl M for Q_or { fn shape() -> Shape { Shape::Rec(vec![<Option<u16> as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_or { a: <Option<u16> as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_eu(#[speedy(default_on_eof)] pub u16, pub u16);
impl M for Q_eu { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_eu(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ev { #[speedy(default_on_eof)] pub a: u16, #[speedy(varint)] pub b: u64 }
impl M for Q_ev { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ev { a: <u16 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ek(#[speedy(default_on_eof)] pub u16, #[speedy(skip)] pub u32);
impl M for Q_ek { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ek(<u16 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ep { #[speedy(default_on_eof)] pub a: u16, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_ep { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ep { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_el { #[speedy(default_on_eof)] pub a: u16, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_el { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_el { a: <u16 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_es(#[speedy(default_on_eof)] pub u16, pub String);
impl M for Q_es { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_es(<u16 as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_eo(#[speedy(default_on_eof)] pub u16, pub Option<u16>);
impl M for Q_eo { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_eo(<u16 as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ee(#[speedy(default_on_eof)] pub u16, #[speedy(default_on_eof)] pub u16);
impl M for Q_ee { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ee(<u16 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_en { #[speedy(default_on_eof)] pub a: u16, pub b: En_u8 }
impl M for Q_en { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_en { a: <u16 as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ea(#[speedy(default_on_eof)] pub u16, pub [u8; 2]);
impl M for Q_ea { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ea(<u16 as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ex { #[speedy(default_on_eof)] pub a: u16, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_ex { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ex { a: <u16 as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_em(#[speedy(default_on_eof)] pub u16, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_em { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_em(<u16 as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_er { #[speedy(default_on_eof)] pub a: u16, pub b: () }
impl M for Q_er { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val()), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_er { a: <u16 as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_nu { pub a: En_u8, pub b: u16 }
impl M for Q_nu { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nu { a: <En_u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_nv(pub En_u8, #[speedy(varint)] pub u64);
impl M for Q_nv { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nv(<En_u8 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_nk { pub a: En_u8, #[speedy(skip)] pub b: u32 }
impl M for Q_nk { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nk { a: <En_u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_np(pub En_u8, #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_np { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_np(<En_u8 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_nl(pub En_u8, #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_nl { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nl(<En_u8 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ns { pub a: En_u8, pub b: String }
impl M for Q_ns { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ns { a: <En_u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_no { pub a: En_u8, pub b: Option<u16> }
impl M for Q_no { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_no { a: <En_u8 as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ne { pub a: En_u8, #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_ne { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ne { a: <En_u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_nn(pub En_u8, pub En_u8);
impl M for Q_nn { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nn(<En_u8 as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_na { pub a: En_u8, pub b: [u8; 2] }
impl M for Q_na { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_na { a: <En_u8 as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_nx(pub En_u8, #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_nx { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nx(<En_u8 as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_nm { pub a: En_u8, #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_nm { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nm { a: <En_u8 as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_nr(pub En_u8, pub ());
impl M for Q_nr { fn shape() -> Shape { Shape::Rec(vec![<En_u8 as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_nr(<En_u8 as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_au(pub [u8; 2], pub u16);
impl M for Q_au { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_au(<[u8; 2] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_av { pub a: [u8; 2], #[speedy(varint)] pub b: u64 }
impl M for Q_av { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_av { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ak(pub [u8; 2], #[speedy(skip)] pub u32);
impl M for Q_ak { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ak(<[u8; 2] as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ap { pub a: [u8; 2], #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_ap { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ap { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_al { pub a: [u8; 2], #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_al { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_al { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_as(pub [u8; 2], pub String);
impl M for Q_as { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_as(<[u8; 2] as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ao(pub [u8; 2], pub Option<u16>);
impl M for Q_ao { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ao(<[u8; 2] as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ae(pub [u8; 2], #[speedy(default_on_eof)] pub u16);
impl M for Q_ae { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ae(<[u8; 2] as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_an { pub a: [u8; 2], pub b: En_u8 }
impl M for Q_an { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_an { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_aa(pub [u8; 2], pub [u8; 2]);
impl M for Q_aa { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_aa(<[u8; 2] as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ax { pub a: [u8; 2], #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_ax { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ax { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_am(pub [u8; 2], #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_am { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_am(<[u8; 2] as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ar { pub a: [u8; 2], pub b: () }
impl M for Q_ar { fn shape() -> Shape { Shape::Rec(vec![<[u8; 2] as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ar { a: <[u8; 2] as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xu { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, pub b: u16 }
impl M for Q_xu { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xu { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xv(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, #[speedy(varint)] pub u64);
impl M for Q_xv { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xv(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_xk { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, #[speedy(skip)] pub b: u32 }
impl M for Q_xk { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xk { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xp(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_xp { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xp(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_xl(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_xl { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xl(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_xs { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, pub b: String }
impl M for Q_xs { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xs { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xo { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, pub b: Option<u16> }
impl M for Q_xo { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xo { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xe { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_xe { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xe { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xn(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, pub En_u8);
impl M for Q_xn { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xn(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_xa { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, pub b: [u8; 2] }
impl M for Q_xa { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xa { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xx(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_xx { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xx(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_xm { #[speedy(length_type = u64_varint)] pub a: Option<Vec<u8>>, #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_xm { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xm { a: <Option<Vec<u8>> as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_xr(#[speedy(length_type = u64_varint)] pub Option<Vec<u8>>, pub ());
impl M for Q_xr { fn shape() -> Shape { Shape::Rec(vec![relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var)), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_xr(<Option<Vec<u8>> as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mu(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, pub u16);
impl M for Q_mu { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mu(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mv { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, #[speedy(varint)] pub b: u64 }
impl M for Q_mv { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mv { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_mk(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, #[speedy(skip)] pub u32);
impl M for Q_mk { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mk(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mp { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, #[speedy(constant_prefix = "ab")] pub b: u8 }
impl M for Q_mp { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mp { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ml { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, #[speedy(length_type = u7)] pub b: Vec<u8> }
impl M for Q_ml { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ml { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ms(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, pub String);
impl M for Q_ms { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ms(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mo(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, pub Option<u16>);
impl M for Q_mo { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mo(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <Option<u16> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_me(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, #[speedy(default_on_eof)] pub u16);
impl M for Q_me { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_me(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mn { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, pub b: En_u8 }
impl M for Q_mn { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mn { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <En_u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ma(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, pub [u8; 2]);
impl M for Q_ma { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ma(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <[u8; 2] as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mx { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, #[speedy(length_type = u64_varint)] pub b: Option<Vec<u8>> }
impl M for Q_mx { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mx { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <Option<Vec<u8>> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_mm(#[speedy(length_type = u8)] pub BTreeMap<u8, u8>, #[speedy(length_type = u8)] pub BTreeMap<u8, u8>);
impl M for Q_mm { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mm(<BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), <BTreeMap<u8, u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_mr { #[speedy(length_type = u8)] pub a: BTreeMap<u8, u8>, pub b: () }
impl M for Q_mr { fn shape() -> Shape { Shape::Rec(vec![relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8)), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_mr { a: <BTreeMap<u8, u8> as M>::from_val(&v.l()[0]), b: <() as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ru { pub a: (), pub b: u16 }
impl M for Q_ru { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ru { a: <() as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_rv(pub (), #[speedy(varint)] pub u64);
impl M for Q_rv { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rv(<() as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_rk { pub a: (), #[speedy(skip)] pub b: u32 }
impl M for Q_rk { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rk { a: <() as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_rp(pub (), #[speedy(constant_prefix = "ab")] pub u8);
impl M for Q_rp { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rp(<() as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_rl(pub (), #[speedy(length_type = u7)] pub Vec<u8>);
impl M for Q_rl { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), relen(<Vec<u8> as M>::shape(), Len::T(Tag::U7))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rl(<() as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_rs { pub a: (), pub b: String }
impl M for Q_rs { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <String as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rs { a: <() as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_ro { pub a: (), pub b: Option<u16> }
impl M for Q_ro { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <Option<u16> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ro { a: <() as M>::from_val(&v.l()[0]), b: <Option<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_re { pub a: (), #[speedy(default_on_eof)] pub b: u16 }
impl M for Q_re { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_re { a: <() as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_rn(pub (), pub En_u8);
impl M for Q_rn { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <En_u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rn(<() as M>::from_val(&v.l()[0]), <En_u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_ra { pub a: (), pub b: [u8; 2] }
impl M for Q_ra { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <[u8; 2] as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_ra { a: <() as M>::from_val(&v.l()[0]), b: <[u8; 2] as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_rx(pub (), #[speedy(length_type = u64_varint)] pub Option<Vec<u8>>);
impl M for Q_rx { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), relen(<Option<Vec<u8>> as M>::shape(), Len::T(Tag::Var))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rx(<() as M>::from_val(&v.l()[0]), <Option<Vec<u8>> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Q_rm { pub a: (), #[speedy(length_type = u8)] pub b: BTreeMap<u8, u8> }
impl M for Q_rm { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), relen(<BTreeMap<u8, u8> as M>::shape(), Len::T(Tag::U8))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rm { a: <() as M>::from_val(&v.l()[0]), b: <BTreeMap<u8, u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Q_rr(pub (), pub ());
impl M for Q_rr { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <() as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Q_rr(<() as M>::from_val(&v.l()[0]), <() as M>::from_val(&v.l()[1])) } }
pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    v
}
fn part0(v: &mut Vec<Entry>) {
    reg!(v, "enum", false, En_u7);
    reg!(v, "enum", false, Vec<En_u7>);
    reg!(v, "enum", false, Option<En_u7>);
    reg!(v, "enum", false, Ed_u7);
    reg!(v, "enum", false, [Ed_u7; 2]);
    reg!(v, "enum", false, Et_u7);
    reg!(v, "enum", false, Vec<Et_u7>);
    reg!(v, "enum", false, Em_u7);
    reg!(v, "enum", false, Ep_u7);
    reg!(v, "enum", false, Vec<Ep_u7>);
    reg!(v, "enum", false, Option<Ep_u7>);
    reg!(v, "enum", false, (Ep_u7, u8));
    reg!(v, "enum", false, EpS_u7);
    reg!(v, "enum", false, Epn_u7);
    reg!(v, "enum", false, En_u8);
    reg!(v, "enum", false, Vec<En_u8>);
    reg!(v, "enum", false, Option<En_u8>);
    reg!(v, "enum", false, Ed_u8);
    reg!(v, "enum", false, [Ed_u8; 2]);
    reg!(v, "enum", false, Et_u8);
    reg!(v, "enum", false, Vec<Et_u8>);
    reg!(v, "enum", false, Em_u8);
    reg!(v, "enum", false, Ep_u8);
    reg!(v, "enum", false, Vec<Ep_u8>);
    reg!(v, "enum", false, Option<Ep_u8>);
    reg!(v, "enum", false, (Ep_u8, u8));
    reg!(v, "enum", false, Epb_u8);
    reg!(v, "enum", false, Vec<Epb_u8>);
    reg!(v, "enum", false, EpS_u8);
    reg!(v, "enum", false, Epn_u8);
    reg!(v, "enum", false, En_u16);
    reg!(v, "enum", false, Vec<En_u16>);
    reg!(v, "enum", false, Option<En_u16>);
    reg!(v, "enum", false, Ed_u16);
    reg!(v, "enum", false, [Ed_u16; 2]);
    reg!(v, "enum", false, Et_u16);
    reg!(v, "enum", false, Vec<Et_u16>);
    reg!(v, "enum", false, Em_u16);
    reg!(v, "enum", false, Eb_u16);
    reg!(v, "enum", false, Ep_u16);
}
fn part1(v: &mut Vec<Entry>) {
    reg!(v, "enum", false, Vec<Ep_u16>);
    reg!(v, "enum", false, Option<Ep_u16>);
    reg!(v, "enum", false, (Ep_u16, u8));
    reg!(v, "enum", false, Epb_u16);
    reg!(v, "enum", false, Vec<Epb_u16>);
    reg!(v, "enum", false, EpS_u16);
    reg!(v, "enum", false, Epn_u16);
    reg!(v, "enum", false, En_u32);
    reg!(v, "enum", false, Vec<En_u32>);
    reg!(v, "enum", false, Option<En_u32>);
    reg!(v, "enum", false, Ed_u32);
    reg!(v, "enum", false, [Ed_u32; 2]);
    reg!(v, "enum", false, Et_u32);
    reg!(v, "enum", false, Vec<Et_u32>);
    reg!(v, "enum", false, Em_u32);
    reg!(v, "enum", false, Eb_u32);
    reg!(v, "enum", false, Ep_u32);
    reg!(v, "enum", false, Vec<Ep_u32>);
    reg!(v, "enum", false, Option<Ep_u32>);
    reg!(v, "enum", false, (Ep_u32, u8));
    reg!(v, "enum", false, Epb_u32);
    reg!(v, "enum", false, Vec<Epb_u32>);
    reg!(v, "enum", false, EpS_u32);
    reg!(v, "enum", false, Epn_u32);
    reg!(v, "enum", false, En_u64);
    reg!(v, "enum", false, Vec<En_u64>);
    reg!(v, "enum", false, Option<En_u64>);
    reg!(v, "enum", false, Ed_u64);
    reg!(v, "enum", false, [Ed_u64; 2]);
    reg!(v, "enum", false, Et_u64);
    reg!(v, "enum", false, Vec<Et_u64>);
    reg!(v, "enum", false, Em_u64);
    reg!(v, "enum", false, Eb_u64);
    reg!(v, "enum", false, Ep_u64);
    reg!(v, "enum", false, Vec<Ep_u64>);
    reg!(v, "enum", false, Option<Ep_u64>);
    reg!(v, "enum", false, (Ep_u64, u8));
    reg!(v, "enum", false, Epb_u64);
    reg!(v, "enum", false, Vec<Epb_u64>);
    reg!(v, "enum", false, EpS_u64);
}
fn part2(v: &mut Vec<Entry>) {
    reg!(v, "enum", false, Epn_u64);
    reg!(v, "enum", false, En_u64_varint);
    reg!(v, "enum", false, Vec<En_u64_varint>);
    reg!(v, "enum", false, Option<En_u64_varint>);
    reg!(v, "enum", false, Ed_u64_varint);
    reg!(v, "enum", false, [Ed_u64_varint; 2]);
    reg!(v, "enum", false, Et_u64_varint);
    reg!(v, "enum", false, Vec<Et_u64_varint>);
    reg!(v, "enum", false, Em_u64_varint);
    reg!(v, "enum", false, Eb_u64_varint);
    reg!(v, "enum", false, Ep_u64_varint);
    reg!(v, "enum", false, Vec<Ep_u64_varint>);
    reg!(v, "enum", false, Option<Ep_u64_varint>);
    reg!(v, "enum", false, (Ep_u64_varint, u8));
    reg!(v, "enum", false, Epb_u64_varint);
    reg!(v, "enum", false, Vec<Epb_u64_varint>);
    reg!(v, "enum", false, EpS_u64_varint);
    reg!(v, "enum", false, Epn_u64_varint);
    reg!(v, "enum", false, Edef);
    reg!(v, "enum", false, Vec<Edef>);
    reg!(v, "enum", false, BTreeMap<u8, Edef>);
    reg!(v, "enum", false, Eone);
    reg!(v, "enum", false, Vec<Eone>);
    reg!(v, "enum", false, [Eone; 3]);
    reg!(v, "enum", false, Erepr);
    reg!(v, "enum", false, Vec<Erepr>);
    reg!(v, "enum", false, Erepr16);
    reg!(v, "enum", false, Vec<Erepr16>);
    reg!(v, "enum", false, Etagdisc);
    reg!(v, "enum", false, Enest);
    reg!(v, "attr", false, Eattr);
    reg!(v, "attr", false, Vec<Eattr>);
    reg!(v, "attr", false, Option<Eattr>);
    reg!(v, "enum", false, Esame);
    reg!(v, "enum", false, Vec<Esame>);
    reg!(v, "enum", false, [Esame; 2]);
    reg!(v, "enum", false, Emin);
    reg!(v, "enum", false, Vec<Emin>);
    reg!(v, "pair", false, Q_uu);
    reg!(v, "pair", false, Q_uv);
}
fn part3(v: &mut Vec<Entry>) {
    reg!(v, "pair", false, Q_uk);
    reg!(v, "pair", false, Q_up);
    reg!(v, "pair", false, Q_ul);
    reg!(v, "pair", false, Q_us);
    reg!(v, "pair", false, Q_uo);
    reg!(v, "eof", false, Q_ue);
    reg!(v, "pair", false, Q_un);
    reg!(v, "pair", false, Q_ua);
    reg!(v, "pair", false, Q_ux);
    reg!(v, "pair", false, Q_um);
    reg!(v, "pair", false, Q_ur);
    reg!(v, "pair", false, Q_vu);
    reg!(v, "pair", false, Q_vv);
    reg!(v, "pair", false, Q_vk);
    reg!(v, "pair", false, Q_vp);
    reg!(v, "pair", false, Q_vl);
    reg!(v, "pair", false, Q_vs);
    reg!(v, "pair", false, Q_vo);
    reg!(v, "eof", false, Q_ve);
    reg!(v, "pair", false, Q_vn);
    reg!(v, "pair", false, Q_va);
    reg!(v, "pair", false, Q_vx);
    reg!(v, "pair", false, Q_vm);
    reg!(v, "pair", false, Q_vr);
    reg!(v, "pair", false, Q_ku);
    reg!(v, "pair", false, Q_kv);
    reg!(v, "pair", false, Q_kk);
    reg!(v, "pair", false, Q_kp);
    reg!(v, "pair", false, Q_kl);
    reg!(v, "pair", false, Q_ks);
    reg!(v, "pair", false, Q_ko);
    reg!(v, "eof", false, Q_ke);
    reg!(v, "pair", false, Q_kn);
    reg!(v, "pair", false, Q_ka);
    reg!(v, "pair", false, Q_kx);
    reg!(v, "pair", false, Q_km);
    reg!(v, "pair", false, Q_kr);
    reg!(v, "pair", false, Q_pu);
    reg!(v, "pair", false, Q_pv);
    reg!(v, "pair", false, Q_pk);
}
fn part4(v: &mut Vec<Entry>) {
    reg!(v, "pair", false, Q_pp);
    reg!(v, "pair", false, Q_pl);
    reg!(v, "pair", false, Q_ps);
    reg!(v, "pair", false, Q_po);
    reg!(v, "eof", false, Q_pe);
    reg!(v, "pair", false, Q_pn);
    reg!(v, "pair", false, Q_pa);
    reg!(v, "pair", false, Q_px);
    reg!(v, "pair", false, Q_pm);
    reg!(v, "pair", false, Q_pr);
    reg!(v, "pair", false, Q_lu);
    reg!(v, "pair", false, Q_lv);
    reg!(v, "pair", false, Q_lk);
    reg!(v, "pair", false, Q_lp);
    reg!(v, "pair", false, Q_ll);
    reg!(v, "pair", false, Q_ls);
    reg!(v, "pair", false, Q_lo);
    reg!(v, "eof", false, Q_le);
    reg!(v, "pair", false, Q_ln);
    reg!(v, "pair", false, Q_la);
    reg!(v, "pair", false, Q_lx);
    reg!(v, "pair", false, Q_lm);
    reg!(v, "pair", false, Q_lr);
    reg!(v, "pair", false, Q_su);
    reg!(v, "pair", false, Q_sv);
    reg!(v, "pair", false, Q_sk);
    reg!(v, "pair", false, Q_sp);
    reg!(v, "pair", false, Q_sl);
    reg!(v, "pair", false, Q_ss);
    reg!(v, "pair", false, Q_so);
    reg!(v, "eof", false, Q_se);
    reg!(v, "pair", false, Q_sn);
    reg!(v, "pair", false, Q_sa);
    reg!(v, "pair", false, Q_sx);
    reg!(v, "pair", false, Q_sm);
    reg!(v, "pair", false, Q_sr);
    reg!(v, "pair", false, Q_ou);
    reg!(v, "pair", false, Q_ov);
    reg!(v, "pair", false, Q_ok);
    reg!(v, "pair", false, Q_op);
}
fn part5(v: &mut Vec<Entry>) {
    reg!(v, "pair", false, Q_ol);
    reg!(v, "pair", false, Q_os);
    reg!(v, "pair", false, Q_oo);
    reg!(v, "eof", false, Q_oe);
    reg!(v, "pair", false, Q_on);
    reg!(v, "pair", false, Q_oa);
    reg!(v, "pair", false, Q_ox);
    reg!(v, "pair", false, Q_om);
    reg!(v, "pair", false, Q_or);
    reg!(v, "eof", false, Q_eu);
    reg!(v, "eof", false, Q_ev);
    reg!(v, "eof", false, Q_ek);
    reg!(v, "eof", false, Q_ep);
    reg!(v, "eof", false, Q_el);
    reg!(v, "eof", false, Q_es);
    reg!(v, "eof", false, Q_eo);
    reg!(v, "eof", false, Q_ee);
    reg!(v, "eof", false, Q_en);
    reg!(v, "eof", false, Q_ea);
    reg!(v, "eof", false, Q_ex);
    reg!(v, "eof", false, Q_em);
    reg!(v, "eof", false, Q_er);
    reg!(v, "pair", false, Q_nu);
    reg!(v, "pair", false, Q_nv);
    reg!(v, "pair", false, Q_nk);
    reg!(v, "pair", false, Q_np);
    reg!(v, "pair", false, Q_nl);
    reg!(v, "pair", false, Q_ns);
    reg!(v, "pair", false, Q_no);
    reg!(v, "eof", false, Q_ne);
    reg!(v, "pair", false, Q_nn);
    reg!(v, "pair", false, Q_na);
    reg!(v, "pair", false, Q_nx);
    reg!(v, "pair", false, Q_nm);
    reg!(v, "pair", false, Q_nr);
    reg!(v, "pair", false, Q_au);
    reg!(v, "pair", false, Q_av);
    reg!(v, "pair", false, Q_ak);
    reg!(v, "pair", false, Q_ap);
    reg!(v, "pair", false, Q_al);
}
fn part6(v: &mut Vec<Entry>) {
    reg!(v, "pair", false, Q_as);
    reg!(v, "pair", false, Q_ao);
    reg!(v, "eof", false, Q_ae);
    reg!(v, "pair", false, Q_an);
    reg!(v, "pair", false, Q_aa);
    reg!(v, "pair", false, Q_ax);
    reg!(v, "pair", false, Q_am);
    reg!(v, "pair", false, Q_ar);
    reg!(v, "pair", false, Q_xu);
    reg!(v, "pair", false, Q_xv);
    reg!(v, "pair", false, Q_xk);
    reg!(v, "pair", false, Q_xp);
    reg!(v, "pair", false, Q_xl);
    reg!(v, "pair", false, Q_xs);
    reg!(v, "pair", false, Q_xo);
    reg!(v, "eof", false, Q_xe);
    reg!(v, "pair", false, Q_xn);
    reg!(v, "pair", false, Q_xa);
    reg!(v, "pair", false, Q_xx);
    reg!(v, "pair", false, Q_xm);
    reg!(v, "pair", false, Q_xr);
    reg!(v, "pair", false, Q_mu);
    reg!(v, "pair", false, Q_mv);
    reg!(v, "pair", false, Q_mk);
    reg!(v, "pair", false, Q_mp);
    reg!(v, "pair", false, Q_ml);
    reg!(v, "pair", false, Q_ms);
    reg!(v, "pair", false, Q_mo);
    reg!(v, "eof", false, Q_me);
    reg!(v, "pair", false, Q_mn);
    reg!(v, "pair", false, Q_ma);
    reg!(v, "pair", false, Q_mx);
    reg!(v, "pair", false, Q_mm);
    reg!(v, "pair", false, Q_mr);
    reg!(v, "pair", false, Q_ru);
    reg!(v, "pair", false, Q_rv);
    reg!(v, "pair", false, Q_rk);
    reg!(v, "pair", false, Q_rp);
    reg!(v, "pair", false, Q_rl);
    reg!(v, "pair", false, Q_rs);
}
fn part7(v: &mut Vec<Entry>) {
    reg!(v, "pair", false, Q_ro);
    reg!(v, "eof", false, Q_re);
    reg!(v, "pair", false, Q_rn);
    reg!(v, "pair", false, Q_ra);
    reg!(v, "pair", false, Q_rx);
    reg!(v, "pair", false, Q_rm);
    reg!(v, "pair", false, Q_rr);
    reg!(v, "pair", false, Vec<Q_vk>);
    reg!(v, "pair", false, Vec<Q_ko>);
    reg!(v, "pair", false, Vec<Q_pl>);
    reg!(v, "pair", false, Vec<Q_na>);
    reg!(v, "pair", false, Vec<Q_uu>);
    reg!(v, "pair", false, Vec<Q_kr>);
    reg!(v, "pair", false, Vec<Q_vp>);
    reg!(v, "pair", false, [Q_rk; 2]);
}
