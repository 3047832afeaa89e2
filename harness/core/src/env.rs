//! The environment explorer: a depth first enumeration of every sequence of answers a `Read` or a
//! `Write` may give, by re-execution (stateless model checking), within a bound on how many of the
//! answers deviate from the default one.
use std::io::{self, ErrorKind, Read, Write};

/// The choices of one execution; `next` moves on to the following one in depth first order.
#[derive(Default, Clone)]
pub struct Choices {
    stack: Vec<(u32, u32)>,
    pos: usize,
    /// How many more choices may deviate from the default in this execution.
    left: u32,
    pub bound: u32,
    pub points: u64,
}
impl Choices {
    pub fn new(bound: u32) -> Self { Choices { bound, left: bound, ..Default::default() } }
    /// Picks one of `n`; anything but 0 uses up one deviation.
    pub fn pick(&mut self, n: u32) -> u32 {
        let n = if self.left == 0 { 1 } else { n };
        if self.pos == self.stack.len() { self.stack.push((0, n)); self.points += 1; }
        let (c, m) = self.stack[self.pos];
        assert_eq!(m, n, "harness: the execution is not a function of the choices");
        self.pos += 1;
        if c != 0 { self.left -= 1; }
        c
    }
    pub fn next(&mut self) -> bool {
        self.pos = 0;
        self.left = self.bound;
        while let Some(top) = self.stack.last_mut() {
            if top.0 + 1 < top.1 { top.0 += 1; self.points += 1; return true; }
            self.stack.pop();
        }
        false
    }
    pub fn trace(&self) -> Vec<u32> { self.stack.iter().map(|x| x.0).collect() }
}

/// What a source may answer.
#[derive(Clone, Copy)]
pub struct Menu<'a> {
    /// Which chunk lengths are offered besides "everything".
    pub chunks: Chunks,
    pub interrupted: bool,
    pub errors: &'a [ErrorKind],
    /// The most bytes the default answer gives or takes.
    pub base: usize,
}
impl<'a> Menu<'a> {
    pub fn new(chunks: Chunks, interrupted: bool, errors: &'a [ErrorKind], base: usize) -> Self { Menu { chunks, interrupted, errors, base } }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Chunks { Whole, All, Few }

/// A stream which is split in exactly the given places: bit `i` of the mask is a split after byte `i`.
/// With `interrupted`, every other call is interrupted.
pub struct Split<'a> { pub data: &'a [u8], pub pos: usize, pub mask: u64, pub interrupted: bool, pub calls: u64 }
impl<'a> Split<'a> {
    pub fn new(data: &'a [u8], mask: u64, interrupted: bool) -> Self { Split { data, pos: 0, mask, interrupted, calls: 0 } }
}
impl<'a> Read for Split<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 { panic!("the stream is read over and over"); }
        if self.interrupted && self.calls % 2 == 1 { return Err(ErrorKind::Interrupted.into()); }
        let most = out.len().min(self.data.len() - self.pos);
        let mut n = 0;
        while n < most { n += 1; if self.pos + n <= 64 && self.mask >> (self.pos + n - 1) & 1 == 1 { break; } }
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A stream with scripted answers.
pub struct Env<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub ch: &'a mut Choices,
    pub menu: Menu<'a>,
    /// The first error which was delivered, other than `Interrupted`.
    pub delivered: Option<ErrorKind>,
    /// The position at which it was.
    pub at: usize,
    pub calls: u64,
    pub interrupts: u32,
    pub eofs: u32,
}
impl<'a> Env<'a> {
    pub fn new(data: &'a [u8], ch: &'a mut Choices, menu: Menu<'a>) -> Self { Env { data, pos: 0, ch, menu, delivered: None, at: 0, calls: 0, interrupts: 0, eofs: 0 } }
}
impl<'a> Read for Env<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 { panic!("the stream is read over and over"); }
        if out.is_empty() { return Ok(0); }
        if self.delivered == Some(ErrorKind::UnexpectedEof) { return Ok(0); }
        let most = out.len().min(self.data.len() - self.pos).min(self.menu.base);
        // The default comes first, and then the shorter chunks, `Interrupted` and the errors.
        let mut sizes: [usize; 4] = [0; 4];
        let few = match self.menu.chunks {
            Chunks::Whole => 0,
            Chunks::All => most.saturating_sub(1),
            Chunks::Few => { let mut n = 0; for k in [1, most / 2, most.saturating_sub(1)] { if k > 0 && k < most && !sizes[..n].contains(&k) { sizes[n] = k; n += 1; } } n }
        } as u32;
        let int = self.menu.interrupted as u32;
        let c = self.ch.pick(1 + few + int + self.menu.errors.len() as u32);
        let n = if c == 0 { most }
            else if c <= few { if self.menu.chunks == Chunks::All { c as usize } else { sizes[c as usize - 1] } }
            else if c <= few + int { self.interrupts += 1; return Err(ErrorKind::Interrupted.into()); }
            else {
                let k = self.menu.errors[(c - 1 - few - int) as usize];
                if self.delivered.is_none() { self.delivered = Some(k); self.at = self.pos; }
                return Err(k.into());
            };
        if n == 0 { self.eofs += 1; }
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A sink with scripted answers.
pub struct SinkEnv<'a> {
    pub got: Vec<u8>,
    pub ch: &'a mut Choices,
    pub menu: Menu<'a>,
    pub zero: bool,
    pub flush_errors: bool,
    pub delivered: Option<ErrorKind>,
    pub zeroed: bool,
    pub calls: u64,
    pub after_fault: u64,
    pub flushes: u32,
}
impl<'a> SinkEnv<'a> {
    pub fn new(ch: &'a mut Choices, menu: Menu<'a>) -> Self { SinkEnv { got: vec![], ch, menu, zero: false, flush_errors: false, delivered: None, zeroed: false, calls: 0, after_fault: 0, flushes: 0 } }
}
impl<'a> Write for SinkEnv<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 { panic!("the sink is written to over and over"); }
        if self.delivered.is_some() || self.zeroed { self.after_fault += 1; }
        if b.is_empty() { return Ok(0); }
        let most = b.len().min(self.menu.base);
        let mut sizes: [usize; 4] = [0; 4];
        let few = match self.menu.chunks {
            Chunks::Whole => 0,
            Chunks::All => most - 1,
            Chunks::Few => { let mut n = 0; for k in [1, most / 2, most - 1] { if k > 0 && k < most && !sizes[..n].contains(&k) { sizes[n] = k; n += 1; } } n }
        } as u32;
        let (int, zero) = (self.menu.interrupted as u32, self.zero as u32);
        let c = self.ch.pick(1 + few + int + zero + self.menu.errors.len() as u32);
        let n = if c == 0 { most }
            else if c <= few { if self.menu.chunks == Chunks::All { c as usize } else { sizes[c as usize - 1] } }
            else if c <= few + int { return Err(ErrorKind::Interrupted.into()); }
            else if c <= few + int + zero { self.zeroed = true; return Ok(0); }
            else {
                let k = self.menu.errors[(c - 1 - few - int - zero) as usize];
                if self.delivered.is_none() { self.delivered = Some(k); }
                return Err(k.into());
            };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.flush_errors && self.ch.pick(2) == 1 {
            if self.delivered.is_none() { self.delivered = Some(ErrorKind::StorageFull); }
            return Err(ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}
