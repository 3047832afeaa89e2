// Generated by tools/gen_types.py; do not edit.
#![allow(non_camel_case_types, dead_code, unused_imports)]
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::*;
use vcore::model::*;
use vcore::{reg, Entry, Kind, Len, Shape, Tag, Val, M};
type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
use cat_gen0::*;
#[derive(Readable, Writable, Clone, Copy)] pub struct BN_a { pub a: BR_u16u16, pub b: BR_u16u16 }
impl M for BN_a { fn shape() -> Shape { Shape::Rec(vec![<BR_u16u16 as M>::shape(), <BR_u16u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_a { a: <BR_u16u16 as M>::from_val(&v.l()[0]), b: <BR_u16u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BN_b { pub a: BC_u16u16, pub b: u32 }
impl M for BN_b { fn shape() -> Shape { Shape::Rec(vec![<BC_u16u16 as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_b { a: <BC_u16u16 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BN_c { pub a: BP_u8u16, pub b: u8 }
impl M for BN_c { fn shape() -> Shape { Shape::Rec(vec![<BP_u8u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BN_c { a: <BP_u8u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BN_d { pub a: BT_u32, pub b: BT_arr }
impl M for BN_d { fn shape() -> Shape { Shape::Rec(vec![<BT_u32 as M>::shape(), <BT_arr as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_d { a: <BT_u32 as M>::from_val(&v.l()[0]), b: <BT_arr as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BN_e { pub a: [BC_u16u16; 2], pub b: BT_u32 }
impl M for BN_e { fn shape() -> Shape { Shape::Rec(vec![<[BC_u16u16; 2] as M>::shape(), <BT_u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_e { a: <[BC_u16u16; 2] as M>::from_val(&v.l()[0]), b: <BT_u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BN_f { pub a: BC_u8u16, pub b: u8 }
impl M for BN_f { fn shape() -> Shape { Shape::Rec(vec![<BC_u8u16 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_f { a: <BC_u8u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BN_g { pub a: u8, pub b: BC_u8u8, pub c: u8 }
impl M for BN_g { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), <BC_u8u8 as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_g { a: <u8 as M>::from_val(&v.l()[0]), b: <BC_u8u8 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BN_h { pub a: BC_arr8, pub b: BT_u8, pub c: [u8; 2], pub d: u8 }
impl M for BN_h { fn shape() -> Shape { Shape::Rec(vec![<BC_arr8 as M>::shape(), <BT_u8 as M>::shape(), <[u8; 2] as M>::shape(), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }, { let x = self.c; x.to_val() }, { let x = self.d; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BN_h { a: <BC_arr8 as M>::from_val(&v.l()[0]), b: <BT_u8 as M>::from_val(&v.l()[1]), c: <[u8; 2] as M>::from_val(&v.l()[2]), d: <u8 as M>::from_val(&v.l()[3]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct BN_i { pub a: BR_u8u16, pub b: BR_u16u8 }
impl M for BN_i { fn shape() -> Shape { Shape::Rec(vec![<BR_u8u16 as M>::shape(), <BR_u16u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_i { a: <BR_u8u16 as M>::from_val(&v.l()[0]), b: <BR_u16u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BN_j { pub a: BT_zst, pub b: u16 }
impl M for BN_j { fn shape() -> Shape { Shape::Rec(vec![<BT_zst as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_j { a: <BT_zst as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct BN_k { pub a: (), pub b: u32 }
impl M for BN_k { fn shape() -> Shape { Shape::Rec(vec![<() as M>::shape(), <u32 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BN_k { a: <() as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct BN_l { pub a: BP_u16u8, pub b: BP_u8u16 }
impl M for BN_l { fn shape() -> Shape { Shape::Rec(vec![<BP_u16u8 as M>::shape(), <BP_u8u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; BN_l { a: <BP_u16u8 as M>::from_val(&v.l()[0]), b: <BP_u8u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct BF_a { pub a: u16, pub b: u16 }
impl M for BF_a { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; BF_a { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Sk_first { #[speedy(skip)] pub a: u16, pub b: u8 }
impl M for Sk_first { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_first { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_first(#[speedy(skip)] pub u16, pub u8);
impl M for SkT_first { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_first(<u16 as M>::from_val(&v.l()[0]), <u8 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone)] pub struct Sk_last { pub a: u8, #[speedy(skip)] pub b: u16 }
impl M for Sk_last { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_last { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_last(pub u8, #[speedy(skip)] pub u16);
impl M for SkT_last { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_last(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone)] pub struct Sk_mid { pub a: u8, #[speedy(skip)] pub b: u32, pub c: u8 }
impl M for Sk_mid { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_mid { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_mid(pub u8, #[speedy(skip)] pub u32, pub u8);
impl M for SkT_mid { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_mid(<u8 as M>::from_val(&v.l()[0]), <u32 as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Sk_only { #[speedy(skip)] pub a: u16 }
impl M for Sk_only { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_only { a: <u16 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_only(#[speedy(skip)] pub u16);
impl M for SkT_only { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_only(<u16 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone)] pub struct Sk_str { pub a: u8, #[speedy(skip)] pub b: String, pub c: u16 }
impl M for Sk_str { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<String as Default>::default().to_val(), Val::S(b"alt".to_vec())), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_str { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <u16 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_str(pub u8, #[speedy(skip)] pub String, pub u16);
impl M for SkT_str { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<String as Default>::default().to_val(), Val::S(b"alt".to_vec())), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_str(<u8 as M>::from_val(&v.l()[0]), <String as M>::from_val(&v.l()[1]), <u16 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Sk_vec { #[speedy(skip)] pub a: Vec<u8>, pub b: Vec<u8> }
impl M for Sk_vec { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<Vec<u8> as Default>::default().to_val(), Val::L(vec![Val::U(9)])), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Sk_vec { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct SkT_vec(#[speedy(skip)] pub Vec<u8>, pub Vec<u8>);
impl M for SkT_vec { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<Vec<u8> as Default>::default().to_val(), Val::L(vec![Val::U(9)])), <Vec<u8> as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; SkT_vec(<Vec<u8> as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone)] pub struct Vi_only { #[speedy(varint)] pub a: u64 }
impl M for Vi_only { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Vi_only { a: <u64 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable, Clone)] pub struct ViT_only(#[speedy(varint)] pub u64);
impl M for ViT_only { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; ViT_only(<u64 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone)] pub struct Vi_two { #[speedy(varint)] pub a: u64, #[speedy(varint)] pub b: u64 }
impl M for Vi_two { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Vi_two { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct ViT_two(#[speedy(varint)] pub u64, #[speedy(varint)] pub u64);
impl M for ViT_two { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; ViT_two(<u64 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone)] pub struct Vi_mid { pub a: u8, #[speedy(varint)] pub b: u64, pub c: u16 }
impl M for Vi_mid { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Varint, <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Vi_mid { a: <u8 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]), c: <u16 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct ViT_mid(pub u8, #[speedy(varint)] pub u64, pub u16);
impl M for ViT_mid { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Varint, <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; ViT_mid(<u8 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1]), <u16 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Vi_plain { pub a: u64, #[speedy(varint)] pub b: u64 }
impl M for Vi_plain { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Vi_plain { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct ViT_plain(pub u64, #[speedy(varint)] pub u64);
impl M for ViT_plain { fn shape() -> Shape { Shape::Rec(vec![<u64 as M>::shape(), Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; ViT_plain(<u64 as M>::from_val(&v.l()[0]), <u64 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf0(pub u8, #[speedy(constant_prefix = 7u8)] pub u16, pub u8);
impl M for Pf0 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![7], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf0(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf1 { pub a: u8, #[speedy(constant_prefix = -1i8)] pub b: String, pub c: u8 }
impl M for Pf1 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![255], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf1 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf2(pub u8, #[speedy(constant_prefix = "ab")] pub Vec<u8>, pub u8);
impl M for Pf2 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(<Vec<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf2(<u8 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf3 { pub a: u8, #[speedy(constant_prefix = b"\x01\x00")] pub b: Option<u8>, pub c: u8 }
impl M for Pf3 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![1, 0], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf3 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf4(pub u8, #[speedy(constant_prefix = b'x')] pub u16, pub u8);
impl M for Pf4 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![120], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf4(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf5 { pub a: u8, #[speedy(constant_prefix = '€')] pub b: String, pub c: u8 }
impl M for Pf5 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![226, 130, 172], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf5 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf6(pub u8, #[speedy(constant_prefix = true)] pub Vec<u8>, pub u8);
impl M for Pf6 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![1], Box::new(<Vec<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf6(<u8 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf7 { pub a: u8, #[speedy(constant_prefix = "PREFIX\0")] pub b: Option<u8>, pub c: u8 }
impl M for Pf7 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![80, 82, 69, 70, 73, 88, 0], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf7 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf8(pub u8, #[speedy(constant_prefix = 0u8)] pub u16, pub u8);
impl M for Pf8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![0], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf8(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf9 { pub a: u8, #[speedy(constant_prefix = false)] pub b: String, pub c: u8 }
impl M for Pf9 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![0], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf9 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf10(pub u8, #[speedy(constant_prefix = -128i8)] pub Vec<u8>, pub u8);
impl M for Pf10 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![128], Box::new(<Vec<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf10(<u8 as M>::from_val(&v.l()[0]), <Vec<u8> as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pf11 { pub a: u8, #[speedy(constant_prefix = 127i8)] pub b: Option<u8>, pub c: u8 }
impl M for Pf11 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![127], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf11 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pf12(pub u8, #[speedy(constant_prefix = 255u8)] pub u16, pub u8);
impl M for Pf12 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![255], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf12(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1]), <u8 as M>::from_val(&v.l()[2])) } }
#[derive(Readable, Writable, Clone)] pub struct Pl3 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23")] pub b: u16, pub c: u8 }
impl M for Pl3 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl3 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl4 { #[speedy(constant_prefix = b"\x21\x22\x23\x24")] pub a: String, pub b: u8 }
impl M for Pl4 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl4 { a: <String as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl5 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25")] pub b: Vec<u8> }
impl M for Pl5 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37], Box::new(<Vec<u8> as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl5 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl8 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28")] pub b: Option<u8>, pub c: u8 }
impl M for Pl8 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl8 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl9 { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29")] pub a: u16, pub b: u8 }
impl M for Pl9 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl9 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl12 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c")] pub b: String }
impl M for Pl12 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44], Box::new(<String as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl12 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl15 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f")] pub b: Vec<u8>, pub c: u8 }
impl M for Pl15 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47], Box::new(<Vec<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl15 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl16 { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30")] pub a: Option<u8>, pub b: u8 }
impl M for Pl16 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl16 { a: <Option<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl17 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31")] pub b: u16 }
impl M for Pl17 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49], Box::new(<u16 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl17 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl24 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38")] pub b: String, pub c: u8 }
impl M for Pl24 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl24 { a: <u8 as M>::from_val(&v.l()[0]), b: <String as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl31 { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f")] pub a: Vec<u8>, pub b: u8 }
impl M for Pl31 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63], Box::new(<Vec<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl31 { a: <Vec<u8> as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl32 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40")] pub b: Option<u8> }
impl M for Pl32 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64], Box::new(<Option<u8> as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl32 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl33 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40\x41")] pub b: u16, pub c: u8 }
impl M for Pl33 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl33 { a: <u8 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl48 { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40\x41\x42\x43\x44\x45\x46\x47\x48\x49\x4a\x4b\x4c\x4d\x4e\x4f\x50")] pub a: String, pub b: u8 }
impl M for Pl48 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80], Box::new(<String as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl48 { a: <String as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl64 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40\x41\x42\x43\x44\x45\x46\x47\x48\x49\x4a\x4b\x4c\x4d\x4e\x4f\x50\x51\x52\x53\x54\x55\x56\x57\x58\x59\x5a\x5b\x5c\x5d\x5e\x5f\x60")] pub b: Vec<u8> }
impl M for Pl64 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96], Box::new(<Vec<u8> as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl64 { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u8> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl65 { pub a: u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40\x41\x42\x43\x44\x45\x46\x47\x48\x49\x4a\x4b\x4c\x4d\x4e\x4f\x50\x51\x52\x53\x54\x55\x56\x57\x58\x59\x5a\x5b\x5c\x5d\x5e\x5f\x60\x61")] pub b: Option<u8>, pub c: u8 }
impl M for Pl65 { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97], Box::new(<Option<u8> as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl65 { a: <u8 as M>::from_val(&v.l()[0]), b: <Option<u8> as M>::from_val(&v.l()[1]), c: <u8 as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] pub struct Pl100 { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x3a\x3b\x3c\x3d\x3e\x3f\x40\x41\x42\x43\x44\x45\x46\x47\x48\x49\x4a\x4b\x4c\x4d\x4e\x4f\x50\x51\x52\x53\x54\x55\x56\x57\x58\x59\x5a\x5b\x5c\x5d\x5e\x5f\x60\x61\x62\x63\x64\x65\x66\x67\x68\x69\x6a\x6b\x6c\x6d\x6e\x6f\x70\x71\x72\x73\x74\x75\x76\x77\x78\x79\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b")] pub a: u16, pub b: u8 }
impl M for Pl100 { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43], Box::new(<u16 as M>::shape())), <u8 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl100 { a: <u16 as M>::from_val(&v.l()[0]), b: <u8 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Pl_two(#[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29")] pub u8, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30\x31")] pub u16);
impl M for Pl_two { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41], Box::new(<u8 as M>::shape())), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49], Box::new(<u16 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val(), self.1.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl_two(<u8 as M>::from_val(&v.l()[0]), <u16 as M>::from_val(&v.l()[1])) } }
#[derive(Readable, Writable)] pub struct Pl_skip { #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29\x2a\x2b\x2c\x2d\x2e\x2f\x30")] pub a: u8, #[speedy(skip)] pub b: u32, #[speedy(constant_prefix = b"\x21\x22\x23\x24\x25\x26\x27\x28\x29", length_type = u8)] pub c: Vec<u16> }
impl M for Pl_skip { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48], Box::new(<u8 as M>::shape())), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), Shape::Prefix(vec![33, 34, 35, 36, 37, 38, 39, 40, 41], Box::new(relen(<Vec<u16> as M>::shape(), Len::T(Tag::U8))))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pl_skip { a: <u8 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]), c: <Vec<u16> as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8)] pub enum SkE_n { V0 { #[speedy(skip)] a: u16 }, V1 { #[speedy(skip)] a: u16, b: u8 }, V2 { a: u8, #[speedy(skip)] b: u16 }, V3 { a: u8, #[speedy(skip)] b: u32, c: u16 }, V4 { #[speedy(skip)] a: String, #[speedy(skip)] b: Vec<u8>, c: u16, #[speedy(skip)] d: u64 }, V5 { a: u16, #[speedy(skip)] b: u16, #[speedy(varint)] c: u64, #[speedy(skip)] d: u32 }, }
impl M for SkE_n { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(0u64, Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))])), (1u64, Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))])), (3u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u16 as M>::shape()])), (4u64, Shape::Rec(vec![Shape::Skip(<String as Default>::default().to_val(), Val::S(b"alt".to_vec())), Shape::Skip(<Vec<u8> as Default>::default().to_val(), Val::L(vec![Val::U(9)])), <u16 as M>::shape(), Shape::Skip(<u64 as Default>::default().to_val(), Val::U(77))])), (5u64, Shape::Rec(vec![<u16 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), Shape::Varint, Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]))], peek: false } } fn to_val(&self) -> Val { match self { SkE_n::V0 { a } => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), SkE_n::V1 { a, b } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), SkE_n::V2 { a, b } => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), SkE_n::V3 { a, b, c } => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val()]))), SkE_n::V4 { a, b, c, d } => Val::E(4, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val(), d.to_val()]))), SkE_n::V5 { a, b, c, d } => Val::E(5, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val(), d.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => SkE_n::V0 { a: <u16 as M>::from_val(&x.l()[0]) }, 1 => SkE_n::V1 { a: <u16 as M>::from_val(&x.l()[0]), b: <u8 as M>::from_val(&x.l()[1]) }, 2 => SkE_n::V2 { a: <u8 as M>::from_val(&x.l()[0]), b: <u16 as M>::from_val(&x.l()[1]) }, 3 => SkE_n::V3 { a: <u8 as M>::from_val(&x.l()[0]), b: <u32 as M>::from_val(&x.l()[1]), c: <u16 as M>::from_val(&x.l()[2]) }, 4 => SkE_n::V4 { a: <String as M>::from_val(&x.l()[0]), b: <Vec<u8> as M>::from_val(&x.l()[1]), c: <u16 as M>::from_val(&x.l()[2]), d: <u64 as M>::from_val(&x.l()[3]) }, 5 => SkE_n::V5 { a: <u16 as M>::from_val(&x.l()[0]), b: <u16 as M>::from_val(&x.l()[1]), c: <u64 as M>::from_val(&x.l()[2]), d: <u32 as M>::from_val(&x.l()[3]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u7)] pub enum SkE_t { V0(#[speedy(skip)] u16), V1(#[speedy(skip)] u16, u8), V2(u8, #[speedy(skip)] u16), V3(u8, #[speedy(skip)] u32, u16), V4(#[speedy(skip)] String, #[speedy(skip)] Vec<u8>, u16, #[speedy(skip)] u64), V5(u16, #[speedy(skip)] u16, #[speedy(varint)] u64, #[speedy(skip)] u32), }
impl M for SkE_t { fn shape() -> Shape { Shape::Enum { tag: Tag::U7, vars: vec![(0u64, Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))])), (1u64, Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u8 as M>::shape()])), (2u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))])), (3u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u16 as M>::shape()])), (4u64, Shape::Rec(vec![Shape::Skip(<String as Default>::default().to_val(), Val::S(b"alt".to_vec())), Shape::Skip(<Vec<u8> as Default>::default().to_val(), Val::L(vec![Val::U(9)])), <u16 as M>::shape(), Shape::Skip(<u64 as Default>::default().to_val(), Val::U(77))])), (5u64, Shape::Rec(vec![<u16 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), Shape::Varint, Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]))], peek: false } } fn to_val(&self) -> Val { match self { SkE_t::V0(a) => Val::E(0, Box::new(Val::L(vec![a.to_val()]))), SkE_t::V1(a, b) => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), SkE_t::V2(a, b) => Val::E(2, Box::new(Val::L(vec![a.to_val(), b.to_val()]))), SkE_t::V3(a, b, c) => Val::E(3, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val()]))), SkE_t::V4(a, b, c, d) => Val::E(4, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val(), d.to_val()]))), SkE_t::V5(a, b, c, d) => Val::E(5, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val(), d.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => SkE_t::V0(<u16 as M>::from_val(&x.l()[0])), 1 => SkE_t::V1(<u16 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1])), 2 => SkE_t::V2(<u8 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1])), 3 => SkE_t::V3(<u8 as M>::from_val(&x.l()[0]), <u32 as M>::from_val(&x.l()[1]), <u16 as M>::from_val(&x.l()[2])), 4 => SkE_t::V4(<String as M>::from_val(&x.l()[0]), <Vec<u8> as M>::from_val(&x.l()[1]), <u16 as M>::from_val(&x.l()[2]), <u64 as M>::from_val(&x.l()[3])), 5 => SkE_t::V5(<u16 as M>::from_val(&x.l()[0]), <u16 as M>::from_val(&x.l()[1]), <u64 as M>::from_val(&x.l()[2]), <u32 as M>::from_val(&x.l()[3])), _ => panic!("harness") } } }
#[derive(Readable, Writable, Clone)] #[speedy(tag_type = u8, peek_tag)] pub enum SkE_p { #[speedy(tag = 1)] A(#[speedy(skip)] u32, u8, #[speedy(skip)] u16), #[speedy(tag = 2)] B { a: u8, #[speedy(skip)] b: String, c: u16 }, }
impl M for SkE_p { fn shape() -> Shape { Shape::Enum { tag: Tag::U8, vars: vec![(1u64, Shape::Rec(vec![Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788)), <u8 as M>::shape(), Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))])), (2u64, Shape::Rec(vec![<u8 as M>::shape(), Shape::Skip(<String as Default>::default().to_val(), Val::S(b"alt".to_vec())), <u16 as M>::shape()]))], peek: true } } fn to_val(&self) -> Val { match self { SkE_p::A(a, b, c) => Val::E(0, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val()]))), SkE_p::B { a, b, c } => Val::E(1, Box::new(Val::L(vec![a.to_val(), b.to_val(), c.to_val()]))) } } fn from_val(v: &Val) -> Self { let (i, x) = v.e(); let _ = x; match i { 0 => SkE_p::A(<u32 as M>::from_val(&x.l()[0]), <u8 as M>::from_val(&x.l()[1]), <u16 as M>::from_val(&x.l()[2])), 1 => SkE_p::B { a: <u8 as M>::from_val(&x.l()[0]), b: <String as M>::from_val(&x.l()[1]), c: <u16 as M>::from_val(&x.l()[2]) }, _ => panic!("harness") } } }
#[derive(Readable, Writable)] pub struct Pf_unit(#[speedy(constant_prefix = "ab")] pub ());
impl M for Pf_unit { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<() as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf_unit(<() as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Pf_first { #[speedy(constant_prefix = "ab")] pub a: u8 }
impl M for Pf_first { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u8 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf_first { a: <u8 as M>::from_val(&v.l()[0]) } } }
#[derive(Readable, Writable)] pub struct Pf_varint { #[speedy(varint, constant_prefix = 7u8)] pub a: u64, #[speedy(constant_prefix = "ab", varint)] pub b: u64 }
impl M for Pf_varint { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![7], Box::new(Shape::Varint)), Shape::Prefix(vec![97, 98], Box::new(Shape::Varint))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf_varint { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable)] pub struct Pf_arr { #[speedy(constant_prefix = 7u8)] pub a: [u16; 2], #[speedy(constant_prefix = "ab", length_type = u8)] pub b: Option<Vec<u16>>, #[speedy(constant_prefix = true, length_type = u7)] pub c: String }
impl M for Pf_arr { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![7], Box::new(<[u16; 2] as M>::shape())), Shape::Prefix(vec![97, 98], Box::new(relen(<Option<Vec<u16>> as M>::shape(), Len::T(Tag::U8)))), Shape::Prefix(vec![1], Box::new(relen(<String as M>::shape(), Len::T(Tag::U7))))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf_arr { a: <[u16; 2] as M>::from_val(&v.l()[0]), b: <Option<Vec<u16>> as M>::from_val(&v.l()[1]), c: <String as M>::from_val(&v.l()[2]) } } }
#[derive(Readable, Writable)] pub struct Pf_len { pub a: u8, #[speedy(constant_prefix = "ab", length = a)] pub b: Vec<u16> }
impl M for Pf_len { fn shape() -> Shape { Shape::Rec(vec![<u8 as M>::shape(), Shape::Prefix(vec![97, 98], Box::new(relen(<Vec<u16> as M>::shape(), Len::Expr(|p| p[0].u() as u64))))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Pf_len { a: <u8 as M>::from_val(&v.l()[0]), b: <Vec<u16> as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct AbC_skip { pub a: u32, #[speedy(skip)] pub b: u32 }
impl M for AbC_skip { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbC_skip { a: <u32 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct AbC_skipf { #[speedy(skip)] pub a: u16, pub b: u16 }
impl M for AbC_skipf { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbC_skipf { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct AbC_var { #[speedy(varint)] pub a: u64, pub b: u64 }
impl M for AbC_var { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <u64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbC_var { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct AbC_pre { pub a: u16, #[speedy(constant_prefix = 7u8)] pub b: u16 }
impl M for AbC_pre { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Prefix(vec![7], Box::new(<u16 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbC_pre { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(C)] pub struct AbC_eof { pub a: u16, #[speedy(default_on_eof)] pub b: u16 }
impl M for AbC_eof { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbC_eof { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct AbP_skip { pub a: u32, #[speedy(skip)] pub b: u32 }
impl M for AbP_skip { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; AbP_skip { a: <u32 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct AbP_skipf { #[speedy(skip)] pub a: u16, pub b: u16 }
impl M for AbP_skipf { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; AbP_skipf { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct AbP_var { #[speedy(varint)] pub a: u64, pub b: u64 }
impl M for AbP_var { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <u64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; AbP_var { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct AbP_pre { pub a: u16, #[speedy(constant_prefix = 7u8)] pub b: u16 }
impl M for AbP_pre { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Prefix(vec![7], Box::new(<u16 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; AbP_pre { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(packed)] pub struct AbP_eof { pub a: u16, #[speedy(default_on_eof)] pub b: u16 }
impl M for AbP_eof { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![{ let x = self.a; x.to_val() }, { let x = self.b; x.to_val() }]) } fn from_val(v: &Val) -> Self { let _ = v; AbP_eof { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct AbR_skip { pub a: u32, #[speedy(skip)] pub b: u32 }
impl M for AbR_skip { fn shape() -> Shape { Shape::Rec(vec![<u32 as M>::shape(), Shape::Skip(<u32 as Default>::default().to_val(), Val::U(0x55667788))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbR_skip { a: <u32 as M>::from_val(&v.l()[0]), b: <u32 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct AbR_skipf { #[speedy(skip)] pub a: u16, pub b: u16 }
impl M for AbR_skipf { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566)), <u16 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbR_skipf { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct AbR_var { #[speedy(varint)] pub a: u64, pub b: u64 }
impl M for AbR_var { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint, <u64 as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbR_var { a: <u64 as M>::from_val(&v.l()[0]), b: <u64 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct AbR_pre { pub a: u16, #[speedy(constant_prefix = 7u8)] pub b: u16 }
impl M for AbR_pre { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::Prefix(vec![7], Box::new(<u16 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbR_pre { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] pub struct AbR_eof { pub a: u16, #[speedy(default_on_eof)] pub b: u16 }
impl M for AbR_eof { fn shape() -> Shape { Shape::Rec(vec![<u16 as M>::shape(), Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbR_eof { a: <u16 as M>::from_val(&v.l()[0]), b: <u16 as M>::from_val(&v.l()[1]) } } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct AbT_var(#[speedy(varint)] pub u64);
impl M for AbT_var { fn shape() -> Shape { Shape::Rec(vec![Shape::Varint]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbT_var(<u64 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct AbT_pre(#[speedy(constant_prefix = "ab")] pub u32);
impl M for AbT_pre { fn shape() -> Shape { Shape::Rec(vec![Shape::Prefix(vec![97, 98], Box::new(<u32 as M>::shape()))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbT_pre(<u32 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct AbT_skip(#[speedy(skip)] pub u16);
impl M for AbT_skip { fn shape() -> Shape { Shape::Rec(vec![Shape::Skip(<u16 as Default>::default().to_val(), Val::U(0x5566))]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbT_skip(<u16 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable, Clone, Copy)] #[repr(transparent)] pub struct AbT_eof(#[speedy(default_on_eof)] pub u16);
impl M for AbT_eof { fn shape() -> Shape { Shape::Rec(vec![Shape::OnEof(Box::new(<u16 as M>::shape()), <u16 as Default>::default().to_val())]) } fn to_val(&self) -> Val { Val::L(vec![self.0.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; AbT_eof(<u16 as M>::from_val(&v.l()[0])) } }
#[derive(Readable, Writable)] pub struct Ab_nest { pub a: AbC_skip, pub b: AbT_var, pub c: AbP_pre }
impl M for Ab_nest { fn shape() -> Shape { Shape::Rec(vec![<AbC_skip as M>::shape(), <AbT_var as M>::shape(), <AbP_pre as M>::shape()]) } fn to_val(&self) -> Val { Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } fn from_val(v: &Val) -> Self { let _ = v; Ab_nest { a: <AbC_skip as M>::from_val(&v.l()[0]), b: <AbT_var as M>::from_val(&v.l()[1]), c: <AbP_pre as M>::from_val(&v.l()[2]) } } }
pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    v
}
fn part0(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, BN_a);
    reg!(v, "bulk", false, Vec<BN_a>);
    reg!(v, "bulk", false, [BN_a; 3]);
    reg!(v, "bulk", false, Box<[BN_a]>);
    reg!(v, "bulk", false, BN_b);
    reg!(v, "bulk", false, Vec<BN_b>);
    reg!(v, "bulk", false, [BN_b; 3]);
    reg!(v, "bulk", false, Box<[BN_b]>);
    reg!(v, "bulk", false, BN_c);
    reg!(v, "bulk", false, Vec<BN_c>);
    reg!(v, "bulk", false, [BN_c; 3]);
    reg!(v, "bulk", false, Box<[BN_c]>);
    reg!(v, "bulk", false, BN_d);
    reg!(v, "bulk", false, Vec<BN_d>);
    reg!(v, "bulk", false, [BN_d; 3]);
    reg!(v, "bulk", false, Box<[BN_d]>);
    reg!(v, "bulk", false, BN_e);
    reg!(v, "bulk", false, Vec<BN_e>);
    reg!(v, "bulk", false, [BN_e; 3]);
    reg!(v, "bulk", false, Box<[BN_e]>);
    reg!(v, "bulk", false, BN_f);
    reg!(v, "bulk", false, Vec<BN_f>);
    reg!(v, "bulk", false, [BN_f; 3]);
    reg!(v, "bulk", false, Box<[BN_f]>);
    reg!(v, "bulk", false, BN_g);
    reg!(v, "bulk", false, Vec<BN_g>);
    reg!(v, "bulk", false, [BN_g; 3]);
    reg!(v, "bulk", false, Box<[BN_g]>);
    reg!(v, "bulk", false, BN_h);
    reg!(v, "bulk", false, Vec<BN_h>);
    reg!(v, "bulk", false, [BN_h; 3]);
    reg!(v, "bulk", false, Box<[BN_h]>);
    reg!(v, "bulk", false, BN_i);
    reg!(v, "bulk", false, Vec<BN_i>);
    reg!(v, "bulk", false, [BN_i; 3]);
    reg!(v, "bulk", false, Box<[BN_i]>);
    reg!(v, "bulk", false, BN_j);
    reg!(v, "bulk", false, Vec<BN_j>);
    reg!(v, "bulk", false, [BN_j; 3]);
    reg!(v, "bulk", false, Box<[BN_j]>);
}
fn part1(v: &mut Vec<Entry>) {
    reg!(v, "bulk", false, BN_k);
    reg!(v, "bulk", false, Vec<BN_k>);
    reg!(v, "bulk", false, [BN_k; 3]);
    reg!(v, "bulk", false, Box<[BN_k]>);
    reg!(v, "bulk", false, BN_l);
    reg!(v, "bulk", false, Vec<BN_l>);
    reg!(v, "bulk", false, [BN_l; 3]);
    reg!(v, "bulk", false, Box<[BN_l]>);
    reg!(v, "bulk", false, BF_a);
    reg!(v, "bulk", false, Vec<BF_a>);
    reg!(v, "bulk", false, [BF_a; 3]);
    reg!(v, "bulk", false, Box<[BF_a]>);
    reg!(v, "bulk", false, Cow<'static, [BF_a]>);
    reg!(v, "bulk", false, Vec<Vec<BC_u16u16>>);
    reg!(v, "bulk", false, Vec<(BC_u16u16, u8)>);
    reg!(v, "bulk", false, Vec<Option<BC_u16u16>>);
    reg!(v, "bulk", false, Vec<[BC_u8u16; 2]>);
    reg!(v, "bulk", false, Vec<[BC_u16u16; 2]>);
    reg!(v, "bulk", false, HashMap<u8, BC_u16u16, Det>);
    reg!(v, "bulk", false, BTreeMap<u16, BC_u8u16>);
    reg!(v, "bulk", false, BTreeMap<u8, BP_u8u16>);
    reg!(v, "bulk", false, [[BC_u16u16; 2]; 2]);
    reg!(v, "bulk", false, Option<BC_u16u16>);
    reg!(v, "bulk", false, BTreeMap<u16, [u16; 2]>);
    reg!(v, "attr", false, Sk_first);
    reg!(v, "attr", false, Vec<Sk_first>);
    reg!(v, "attr", false, Option<Sk_first>);
    reg!(v, "attr", false, SkT_first);
    reg!(v, "attr", false, [SkT_first; 2]);
    reg!(v, "attr", false, Sk_last);
    reg!(v, "attr", false, Vec<Sk_last>);
    reg!(v, "attr", false, Option<Sk_last>);
    reg!(v, "attr", false, SkT_last);
    reg!(v, "attr", false, [SkT_last; 2]);
    reg!(v, "attr", false, Sk_mid);
    reg!(v, "attr", false, Vec<Sk_mid>);
    reg!(v, "attr", false, Option<Sk_mid>);
    reg!(v, "attr", false, SkT_mid);
    reg!(v, "attr", false, [SkT_mid; 2]);
    reg!(v, "attr", false, Sk_only);
}
fn part2(v: &mut Vec<Entry>) {
    reg!(v, "attr", false, Vec<Sk_only>);
    reg!(v, "attr", false, Option<Sk_only>);
    reg!(v, "attr", false, SkT_only);
    reg!(v, "attr", false, [SkT_only; 2]);
    reg!(v, "attr", false, Sk_str);
    reg!(v, "attr", false, Vec<Sk_str>);
    reg!(v, "attr", false, Option<Sk_str>);
    reg!(v, "attr", false, SkT_str);
    reg!(v, "attr", false, [SkT_str; 2]);
    reg!(v, "attr", false, Sk_vec);
    reg!(v, "attr", false, Vec<Sk_vec>);
    reg!(v, "attr", false, Option<Sk_vec>);
    reg!(v, "attr", false, SkT_vec);
    reg!(v, "attr", false, [SkT_vec; 2]);
    reg!(v, "attr", false, Vi_only);
    reg!(v, "attr", false, Vec<Vi_only>);
    reg!(v, "attr", false, [Vi_only; 2]);
    reg!(v, "attr", false, ViT_only);
    reg!(v, "attr", false, Cow<'static, [ViT_only]>);
    reg!(v, "attr", false, Vi_two);
    reg!(v, "attr", false, Vec<Vi_two>);
    reg!(v, "attr", false, [Vi_two; 2]);
    reg!(v, "attr", false, ViT_two);
    reg!(v, "attr", false, Cow<'static, [ViT_two]>);
    reg!(v, "attr", false, Vi_mid);
    reg!(v, "attr", false, Vec<Vi_mid>);
    reg!(v, "attr", false, [Vi_mid; 2]);
    reg!(v, "attr", false, ViT_mid);
    reg!(v, "attr", false, Cow<'static, [ViT_mid]>);
    reg!(v, "attr", false, Vi_plain);
    reg!(v, "attr", false, Vec<Vi_plain>);
    reg!(v, "attr", false, [Vi_plain; 2]);
    reg!(v, "attr", false, ViT_plain);
    reg!(v, "attr", false, Cow<'static, [ViT_plain]>);
    reg!(v, "attr", false, Pf0);
    reg!(v, "attr", false, Vec<Pf0>);
    reg!(v, "attr", false, Pf1);
    reg!(v, "attr", false, Vec<Pf1>);
    reg!(v, "attr", false, Pf2);
    reg!(v, "attr", false, Vec<Pf2>);
}
fn part3(v: &mut Vec<Entry>) {
    reg!(v, "attr", false, Pf3);
    reg!(v, "attr", false, Vec<Pf3>);
    reg!(v, "attr", false, Pf4);
    reg!(v, "attr", false, Vec<Pf4>);
    reg!(v, "attr", false, Pf5);
    reg!(v, "attr", false, Vec<Pf5>);
    reg!(v, "attr", false, Pf6);
    reg!(v, "attr", false, Vec<Pf6>);
    reg!(v, "attr", false, Pf7);
    reg!(v, "attr", false, Vec<Pf7>);
    reg!(v, "attr", false, Pf8);
    reg!(v, "attr", false, Vec<Pf8>);
    reg!(v, "attr", false, Pf9);
    reg!(v, "attr", false, Vec<Pf9>);
    reg!(v, "attr", false, Pf10);
    reg!(v, "attr", false, Vec<Pf10>);
    reg!(v, "attr", false, Pf11);
    reg!(v, "attr", false, Vec<Pf11>);
    reg!(v, "attr", false, Pf12);
    reg!(v, "attr", false, Vec<Pf12>);
    reg!(v, "attr", false, Pl3);
    reg!(v, "attr", false, Vec<Pl3>);
    reg!(v, "attr", false, Pl4);
    reg!(v, "attr", false, Vec<Pl4>);
    reg!(v, "attr", false, Pl5);
    reg!(v, "attr", false, Vec<Pl5>);
    reg!(v, "attr", false, Pl8);
    reg!(v, "attr", false, Vec<Pl8>);
    reg!(v, "attr", false, Pl9);
    reg!(v, "attr", false, Vec<Pl9>);
    reg!(v, "attr", false, Pl12);
    reg!(v, "attr", false, Vec<Pl12>);
    reg!(v, "attr", false, Pl15);
    reg!(v, "attr", false, Vec<Pl15>);
    reg!(v, "attr", false, Pl16);
    reg!(v, "attr", false, Vec<Pl16>);
    reg!(v, "attr", false, Pl17);
    reg!(v, "attr", false, Vec<Pl17>);
    reg!(v, "attr", false, Pl24);
    reg!(v, "attr", false, Vec<Pl24>);
}
fn part4(v: &mut Vec<Entry>) {
    reg!(v, "attr", false, Pl31);
    reg!(v, "attr", false, Vec<Pl31>);
    reg!(v, "attr", false, Pl32);
    reg!(v, "attr", false, Vec<Pl32>);
    reg!(v, "attr", false, Pl33);
    reg!(v, "attr", false, Vec<Pl33>);
    reg!(v, "attr", false, Pl48);
    reg!(v, "attr", false, Pl64);
    reg!(v, "attr", false, Pl65);
    reg!(v, "attr", false, Pl100);
    reg!(v, "attr", false, Pl_two);
    reg!(v, "attr", false, Vec<Pl_two>);
    reg!(v, "attr", false, [Pl_two; 2]);
    reg!(v, "attr", false, Pl_skip);
    reg!(v, "attr", false, SkE_n);
    reg!(v, "attr", false, Vec<SkE_n>);
    reg!(v, "attr", false, Option<SkE_n>);
    reg!(v, "attr", false, SkE_t);
    reg!(v, "attr", false, Vec<SkE_t>);
    reg!(v, "attr", false, [SkE_t; 2]);
    reg!(v, "attr", false, SkE_p);
    reg!(v, "attr", false, Vec<SkE_p>);
    reg!(v, "attr", false, Pf_unit);
    reg!(v, "attr", false, Vec<Pf_unit>);
    reg!(v, "attr", false, Option<Pf_unit>);
    reg!(v, "attr", false, Pf_first);
    reg!(v, "attr", false, Vec<Pf_first>);
    reg!(v, "attr", false, [Pf_first; 2]);
    reg!(v, "attr", false, Pf_varint);
    reg!(v, "attr", false, Pf_arr);
    reg!(v, "attr", false, Pf_len);
    reg!(v, "attr", false, AbC_skip);
    reg!(v, "attr", false, Vec<AbC_skip>);
    reg!(v, "attr", false, [AbC_skip; 3]);
    reg!(v, "attr", false, AbC_skipf);
    reg!(v, "attr", false, Vec<AbC_skipf>);
    reg!(v, "attr", false, [AbC_skipf; 3]);
    reg!(v, "attr", false, AbC_var);
    reg!(v, "attr", false, Vec<AbC_var>);
    reg!(v, "attr", false, [AbC_var; 3]);
}
fn part5(v: &mut Vec<Entry>) {
    reg!(v, "attr", false, AbC_pre);
    reg!(v, "attr", false, Vec<AbC_pre>);
    reg!(v, "attr", false, [AbC_pre; 3]);
    reg!(v, "eof", false, AbC_eof);
    reg!(v, "attr", false, AbP_skip);
    reg!(v, "attr", false, Vec<AbP_skip>);
    reg!(v, "attr", false, [AbP_skip; 3]);
    reg!(v, "attr", false, AbP_skipf);
    reg!(v, "attr", false, Vec<AbP_skipf>);
    reg!(v, "attr", false, [AbP_skipf; 3]);
    reg!(v, "attr", false, AbP_var);
    reg!(v, "attr", false, Vec<AbP_var>);
    reg!(v, "attr", false, [AbP_var; 3]);
    reg!(v, "attr", false, AbP_pre);
    reg!(v, "attr", false, Vec<AbP_pre>);
    reg!(v, "attr", false, [AbP_pre; 3]);
    reg!(v, "eof", false, AbP_eof);
    reg!(v, "attr", false, AbR_skip);
    reg!(v, "attr", false, Vec<AbR_skip>);
    reg!(v, "attr", false, [AbR_skip; 3]);
    reg!(v, "attr", false, AbR_skipf);
    reg!(v, "attr", false, Vec<AbR_skipf>);
    reg!(v, "attr", false, [AbR_skipf; 3]);
    reg!(v, "attr", false, AbR_var);
    reg!(v, "attr", false, Vec<AbR_var>);
    reg!(v, "attr", false, [AbR_var; 3]);
    reg!(v, "attr", false, AbR_pre);
    reg!(v, "attr", false, Vec<AbR_pre>);
    reg!(v, "attr", false, [AbR_pre; 3]);
    reg!(v, "eof", false, AbR_eof);
    reg!(v, "attr", false, AbT_var);
    reg!(v, "attr", false, Vec<AbT_var>);
    reg!(v, "attr", false, [AbT_var; 3]);
    reg!(v, "attr", false, AbT_pre);
    reg!(v, "attr", false, Vec<AbT_pre>);
    reg!(v, "attr", false, [AbT_pre; 3]);
    reg!(v, "attr", false, AbT_skip);
    reg!(v, "attr", false, Vec<AbT_skip>);
    reg!(v, "attr", false, [AbT_skip; 3]);
    reg!(v, "eof", false, AbT_eof);
}
fn part6(v: &mut Vec<Entry>) {
    reg!(v, "attr", false, Ab_nest);
    reg!(v, "attr", false, Vec<Ab_nest>);
    reg!(v, "attr", false, [Ab_nest; 3]);
}
