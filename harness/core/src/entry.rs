//! Type-erased access to the real implementation: one `Entry` per catalogued type.
use crate::val::*;
use speedy::{Endianness, IsEof};
use std::io::{Read, Write};
use std::path::Path;

pub enum Src<'x> { Buffer(&'x [u8]), Copying(&'x [u8]), Unbuf(&'x mut dyn Read), Buf(&'x mut dyn Read), File(&'x Path) }
pub enum Sink<'x> { Vec(&'x mut Vec<u8>), Buffer(&'x mut [u8]), Stream(&'x mut dyn Write), File(&'x Path), Needed(&'x mut usize) }

/// The observable class of an error.
#[derive(Clone, PartialEq, Debug)]
pub enum Cls { Eof, TooSmall, Other, Io(std::io::ErrorKind) }
impl Cls {
    /// Is this an end-of-input error, in any of its forms?
    pub fn is_end(&self) -> bool { matches!(self, Cls::Eof | Cls::TooSmall | Cls::Io(std::io::ErrorKind::UnexpectedEof)) }
}

pub fn classify(e: &speedy::Error) -> Cls {
    use std::error::Error;
    if let Some(io) = e.source().and_then(|s| s.downcast_ref::<std::io::Error>()) { return Cls::Io(io.kind()); }
    if e.is_eof() { return Cls::Eof; }
    if e.to_string().starts_with("input buffer is too small") { return Cls::TooSmall; }
    Cls::Other
}

pub struct DecOut { pub val: Result<Val, speedy::Error>, pub used: Option<usize> }

#[derive(Clone)]
pub struct Entry {
    pub name: &'static str,
    pub group: &'static str,
    pub shape: std::sync::Arc<Shape>,
    /// Implementation's `minimum_bytes_needed`.
    pub min: fn() -> usize,
    /// Inherently borrowing (fails on every non-borrowing source).
    pub borrows: bool,
    pub enc: fn(&Val, Endianness, Sink) -> (Val, Result<(), speedy::Error>),
    pub dec: fn(Src, Endianness) -> DecOut,
}

/// Interpreters would take long to make all of the shapes.
pub static NO_SHAPES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[macro_export]
macro_rules! reg {
    ($v:ident, $group:expr, $borrows:expr, $($t:ty),* $(,)?) => { $(
        $v.push({
            fn min() -> usize { <$t as speedy::Readable<speedy::Endianness>>::minimum_bytes_needed() }
            fn enc(v: &$crate::Val, en: speedy::Endianness, s: $crate::Sink) -> ($crate::Val, Result<(), speedy::Error>) {
                use speedy::Writable;
                let x = <$t as $crate::M>::from_val(v);
                let order = $crate::M::to_val(&x);
                let r = match s {
                    $crate::Sink::Vec(o) => x.write_to_vec_with_ctx(en).map(|b| { *o = b; }),
                    $crate::Sink::Buffer(b) => x.write_to_buffer_with_ctx(en, b),
                    $crate::Sink::Stream(w) => x.write_to_stream_with_ctx(en, w),
                    $crate::Sink::File(p) => x.write_to_file_with_ctx(en, p),
                    $crate::Sink::Needed(n) => <$t as Writable<speedy::Endianness>>::bytes_needed(&x).map(|k| { *n = k; }),
                };
                (order, r)
            }
            fn dec(s: $crate::Src, en: speedy::Endianness) -> $crate::DecOut {
                use speedy::Readable;
                let (r, used) = match s {
                    $crate::Src::Buffer(b) => { let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) }; /* The value does not outlive this function. */ let (r, n) = <$t>::read_with_length_from_buffer_with_ctx(en, b); (r.map(|x| $crate::M::to_val(&x)), Some(n)) }
                    $crate::Src::Copying(b) => { let (r, n) = <$t>::read_with_length_from_buffer_copying_data_with_ctx(en, b); (r.map(|x| $crate::M::to_val(&x)), Some(n)) }
                    $crate::Src::Unbuf(s) => (<$t>::read_from_stream_unbuffered_with_ctx(en, s).map(|x| $crate::M::to_val(&x)), None),
                    $crate::Src::Buf(s) => (<$t>::read_from_stream_buffered_with_ctx(en, s).map(|x| $crate::M::to_val(&x)), None),
                    $crate::Src::File(p) => (<$t>::read_from_file_with_ctx(en, p).map(|x| $crate::M::to_val(&x)), None),
                };
                $crate::DecOut { val: r, used }
            }
            $crate::Entry { name: stringify!($t), group: $group, shape: std::sync::Arc::new(if $crate::NO_SHAPES.load(std::sync::atomic::Ordering::Relaxed) { $crate::Shape::Rec(vec![]) } else { <$t as $crate::M>::shape() }), min, borrows: $borrows, enc, dec }
        });
    )* }
}
