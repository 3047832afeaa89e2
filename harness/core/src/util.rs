//! What the checks have in common.
use crate::env::Split;
use crate::val::Val;
use speedy::{Context, Endianness, Readable, Reader};
use std::cell::Cell;
use std::io::{ErrorKind, Read};
use std::sync::atomic::Ordering::Relaxed;

pub fn en(be: bool) -> Endianness { if be { Endianness::BigEndian } else { Endianness::LittleEndian } }
pub const BES: [bool; 2] = [false, true];
pub fn hex(b: &[u8]) -> String {
    if b.len() > 80 { return format!("{}..({} bytes)", hex(&b[..80]), b.len()); }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn show(v: &Val) -> String { let s = format!("{v:?}"); if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s } }
pub fn ends(be: bool) -> &'static str { if be { "BE" } else { "LE" } }

pub fn set_capacity(n: usize) {
    #[cfg(speedy_verif)]
    speedy::verif::STREAM_CAPACITY.store(n, Relaxed);
    let _ = (n, Relaxed);
}
/// The capacities of the internal stream buffer which are explored; 0 is the default.
pub fn capacities(thorough: bool) -> &'static [usize] {
    if !cfg!(speedy_verif) { &[0] } else if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17] } else { &[0, 1, 2, 3, 5, 8] }
}

/// Places data at a chosen offset from a 16 byte boundary.
#[derive(Default)]
pub struct Scratch { buf: Vec<u128> }
impl Scratch {
    pub fn place(&mut self, off: usize, data: &[u8]) -> &[u8] {
        let need = (off + data.len()) / 16 + 2;
        if self.buf.len() < need { self.buf.resize(need, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaau128); }
        let p = self.buf.as_mut_ptr() as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(off), data.len());
            std::slice::from_raw_parts(p.add(off), data.len())
        }
    }
}

/// A reader with nothing but the required functions, as a user might write it.
pub struct UserReader<'a, C> { pub data: &'a [u8], pub pos: usize, pub ctx: C }
impl<'a, C: Context> Reader<'a, C> for UserReader<'a, C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> { self.peek_bytes(out)?; self.pos += out.len(); Ok(()) }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> {
        if self.data.len() - self.pos < out.len() { return Err(speedy::Error::from(eof()).into()); }
        out.copy_from_slice(&self.data[self.pos..self.pos + out.len()]);
        Ok(())
    }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}
/// There is no public way to make an end-of-input error, other than to run into one.
pub struct Eof;
fn eof() -> Eof { Eof }
impl From<Eof> for speedy::Error { fn from(_: Eof) -> Self { <u8 as Readable<Endianness>>::read_from_stream_unbuffered_with_ctx(Endianness::LittleEndian, &b""[..]).unwrap_err() } }

/// Where to read from; a stream is split at every set bit of the mask.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Feed { Buffer, Copying, User, Unbuf(u64, bool), Buf(usize, u64, bool) }
/// Wraps a stream, and fails once.
pub struct Faulty<'x, R> { pub inner: R, pub calls: u64, pub at: u64, pub kind: ErrorKind, pub hit: &'x Cell<bool> }
impl<'x, R: Read> Read for Faulty<'x, R> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.at { self.hit.set(true); return Err(self.kind.into()); }
        self.inner.read(out)
    }
}
pub fn read_as<'a, C: Context, T: Readable<'a, C>>(ctx: C, from: Feed, data: &'a [u8], fault: u64, kind: ErrorKind, hit: &Cell<bool>) -> Result<T, C::Error> {
    match from {
        Feed::Buffer => T::read_from_buffer_with_ctx(ctx, data),
        Feed::Copying => T::read_from_buffer_copying_data_with_ctx(ctx, data),
        Feed::User => T::read_from(&mut UserReader { data, pos: 0, ctx }),
        Feed::Unbuf(mask, int) => T::read_from_stream_unbuffered_with_ctx(ctx, Faulty { inner: Split::new(data, mask, int), calls: 0, at: fault, kind, hit }),
        Feed::Buf(cap, mask, int) => { set_capacity(cap); let r = T::read_from_stream_buffered_with_ctx(ctx, Faulty { inner: Split::new(data, mask, int), calls: 0, at: fault, kind, hit }); set_capacity(0); r }
    }
}

