//! Exploration of all sequences of `Reader` operations, up to a depth, against a model of a cursor (C20),
//! and of all sequences of `Writer` operations against concatenation (C21).
use vcore::util::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{ErrorKind, Read};
use vcore::env::Split;
use vcore::run::Check;
use vcore::*;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum W { U8, U16, Pair, F64 }
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Op {
    Read(usize), Peek(usize), ReadPtr(usize), PeekPtr(usize), Skip(usize),
    Borrow(usize), BorrowR(usize), BorrowEof, Can(usize),
    Num(u8), PeekNum(u8), Varint, PeekVarint,
    Vect(W, usize), Cowt(W, usize), Coll(W, usize), Set(usize), Map(usize), Map8(usize), Str(usize),
    VecEof(W), CowEof(W), CollEof(W), Order(bool), ValU32, ValVec16, ValPair,
}
use Op::*;
/// Width in bytes of the numbers, in the order of their functions.
const NUMS: [(u8, &str); 12] = [(1, "u8"), (1, "i8"), (2, "u16"), (2, "i16"), (4, "u32"), (4, "i32"), (8, "u64"), (8, "i64"), (16, "u128"), (16, "i128"), (4, "f32"), (8, "f64")];

#[derive(Debug, PartialEq)]
enum Obs { Ok(Vec<u128>), Eof, Bad, Io(ErrorKind), NoSupport, Bool(Option<bool>), WrongPlace }
type E = speedy::Error;
fn err(e: E) -> Obs {
    match classify(&e) { Cls::Eof | Cls::TooSmall => Obs::Eof, Cls::Io(ErrorKind::UnexpectedEof) => Obs::Eof, Cls::Io(k) => Obs::Io(k), Cls::Other => Obs::Bad }
}
fn ob(r: Result<Vec<u128>, E>) -> Obs { match r { Ok(v) => Obs::Ok(v), Err(e) => err(e) } }
fn by(b: &[u8]) -> Vec<u128> { b.iter().map(|x| *x as u128).collect() }
fn one<T>(r: Result<T, E>, f: impl FnOnce(T) -> u128) -> Obs { ob(r.map(|x| vec![f(x)])) }
fn f64s(x: Vec<f64>) -> Vec<u128> { x.into_iter().map(|x| x.to_bits() as u128).collect() }
fn u16s(x: Vec<u16>) -> Vec<u128> { x.into_iter().map(|x| x as u128).collect() }
fn pairs(x: Vec<(u8, u8)>) -> Vec<u128> { x.into_iter().flat_map(|x| [x.0 as u128, x.1 as u128]).collect() }
fn cow<T: Clone>(c: Cow<[T]>) -> Vec<T> { c.into_owned() }

struct Session<'s> { ops: &'s [Op], data: &'s [u8], be: bool, pos: Vec<usize>, from: Feed, hit: &'s Cell<bool>, fault: Option<String>, steps: u64, stay: bool, drain: bool }

fn exec<'a, R: Reader<'a, Endianness>>(r: &mut R, op: Op, s: &Session) -> Obs {
    let mut buf = [0x5au8; 64];
    let base = s.data.as_ptr() as usize;
    // A slice out of the input has to be the right one, as two parts of it might look the same.
    let place = |b: &[u8]| if s.from == Feed::Buffer && !b.is_empty() && !s.pos.contains(&(b.as_ptr() as usize).wrapping_sub(base)) { Obs::WrongPlace } else { Obs::Ok(by(b)) };
    match op {
        Read(n) => { let mut v = vec![]; let b = if n <= 64 { &mut buf[..n] } else { v.resize(n, 0); &mut v[..] }; let x = r.read_bytes(b); ob(x.map(|()| by(b))) }
        Peek(n) => { let mut v = vec![]; let b = if n <= 64 { &mut buf[..n] } else { v.resize(n, 0); &mut v[..] }; let x = r.peek_bytes(b); ob(x.map(|()| by(b))) }
        ReadPtr(n) => { let x = unsafe { r.read_bytes_into_ptr(buf.as_mut_ptr(), n) }; if buf[n..].iter().any(|x| *x != 0x5a) { return Obs::WrongPlace; } ob(x.map(|()| by(&buf[..n]))) }
        PeekPtr(n) => { let x = unsafe { r.peek_bytes_into_ptr(buf.as_mut_ptr(), n) }; if buf[n..].iter().any(|x| *x != 0x5a) { return Obs::WrongPlace; } ob(x.map(|()| by(&buf[..n]))) }
        Skip(n) => ob(r.skip_bytes(n).map(|()| vec![])),
        Borrow(n) => match r.read_bytes_borrowed(n) { None => Obs::NoSupport, Some(Err(e)) => err(e), Some(Ok(b)) => place(b) },
        BorrowR(n) => match r.read_bytes_borrowed_from_reader(n) { None => Obs::NoSupport, Some(Err(e)) => err(e), Some(Ok(b)) => place(b) },
        BorrowEof => match r.read_bytes_borrowed_until_eof() { None => Obs::NoSupport, Some(b) => place(b) },
        Can(n) => Obs::Bool(r.can_read_at_least(n)),
        Num(0) => one(r.read_u8(), |x| x as u128), Num(1) => one(r.read_i8(), |x| x as u8 as u128),
        Num(2) => one(r.read_u16(), |x| x as u128), Num(3) => one(r.read_i16(), |x| x as u16 as u128),
        Num(4) => one(r.read_u32(), |x| x as u128), Num(5) => one(r.read_i32(), |x| x as u32 as u128),
        Num(6) => one(r.read_u64(), |x| x as u128), Num(7) => one(r.read_i64(), |x| x as u64 as u128),
        Num(8) => one(r.read_u128(), |x| x), Num(9) => one(r.read_i128(), |x| x as u128),
        Num(10) => one(r.read_f32(), |x| x.to_bits() as u128), Num(_) => one(r.read_f64(), |x| x.to_bits() as u128),
        PeekNum(0) => one(r.peek_u8(), |x| x as u128), PeekNum(1) => one(r.peek_i8(), |x| x as u8 as u128),
        PeekNum(2) => one(r.peek_u16(), |x| x as u128), PeekNum(3) => one(r.peek_i16(), |x| x as u16 as u128),
        PeekNum(4) => one(r.peek_u32(), |x| x as u128), PeekNum(5) => one(r.peek_i32(), |x| x as u32 as u128),
        PeekNum(6) => one(r.peek_u64(), |x| x as u128), PeekNum(7) => one(r.peek_i64(), |x| x as u64 as u128),
        PeekNum(8) => one(r.peek_u128(), |x| x), PeekNum(9) => one(r.peek_i128(), |x| x as u128),
        PeekNum(10) => one(r.peek_f32(), |x| x.to_bits() as u128), PeekNum(_) => one(r.peek_f64(), |x| x.to_bits() as u128),
        Varint => one(r.read_u64_varint(), |x| x as u128),
        PeekVarint => one(r.peek_u64_varint(), |x| x as u128),
        Vect(w, n) => match w { W::U8 => ob(r.read_vec::<u8>(n).map(|x| by(&x))), W::U16 => ob(r.read_vec::<u16>(n).map(u16s)), W::Pair => ob(r.read_vec::<(u8, u8)>(n).map(pairs)), W::F64 => ob(r.read_vec::<f64>(n).map(f64s)) },
        Cowt(w, n) => match w { W::U8 => ob(r.read_cow::<u8>(n).map(|x| by(&x))), W::U16 => ob(r.read_cow::<u16>(n).map(|x| u16s(cow(x)))), W::Pair => ob(r.read_cow::<(u8, u8)>(n).map(|x| pairs(cow(x)))), W::F64 => ob(r.read_cow::<f64>(n).map(|x| f64s(cow(x)))) },
        Coll(w, n) => match w { W::U8 => ob(r.read_collection::<u8, Vec<u8>>(n).map(|x| by(&x))), W::U16 => ob(r.read_collection::<u16, Vec<u16>>(n).map(u16s)), W::Pair => ob(r.read_collection::<(u8, u8), Vec<_>>(n).map(pairs)), W::F64 => ob(r.read_collection::<f64, Vec<_>>(n).map(f64s)) },
        Set(n) => ob(r.read_collection::<u16, BTreeSet<u16>>(n).map(|x| x.into_iter().map(|x| x as u128).collect())),
        Map(n) => ob(r.read_key_value_collection::<u8, u16, BTreeMap<u8, u16>>(n).map(|x| x.into_iter().flat_map(|x| [x.0 as u128, x.1 as u128]).collect())),
        Map8(n) => ob(r.read_key_value_collection::<u8, i8, BTreeMap<u8, i8>>(n).map(|x| x.into_iter().flat_map(|x| [x.0 as u128, x.1 as u8 as u128]).collect())),
        Str(n) => ob(r.read_string(n).map(|x| by(x.as_bytes()))),
        VecEof(w) => match w { W::U8 => ob(r.read_vec_until_eof::<u8>().map(|x| by(&x))), W::U16 => ob(r.read_vec_until_eof::<u16>().map(u16s)), W::Pair => ob(r.read_vec_until_eof::<(u8, u8)>().map(pairs)), W::F64 => ob(r.read_vec_until_eof::<f64>().map(f64s)) },
        CowEof(w) => match w { W::U8 => ob(r.read_cow_until_eof::<u8>().map(|x| by(&x))), W::U16 => ob(r.read_cow_until_eof::<u16>().map(|x| u16s(cow(x)))), W::Pair => ob(r.read_cow_until_eof::<(u8, u8)>().map(|x| pairs(cow(x)))), W::F64 => ob(r.read_cow_until_eof::<f64>().map(|x| f64s(cow(x)))) },
        CollEof(w) => match w { W::U8 => ob(r.read_collection_until_eof::<u8, Vec<_>>().map(|x| by(&x))), W::U16 => ob(r.read_collection_until_eof::<u16, Vec<_>>().map(u16s)), W::Pair => ob(r.read_collection_until_eof::<(u8, u8), Vec<_>>().map(pairs)), W::F64 => ob(r.read_collection_until_eof::<f64, Vec<_>>().map(f64s)) },
        Order(be) => { *r.context_mut() = en(be); Obs::Bool(Some(r.endianness() == en(be) && r.context().endianness() == en(be))) }
        ValU32 => one(r.read_value::<u32>(), |x| x as u128),
        ValVec16 => ob(r.read_value::<Vec<u16>>().map(u16s)),
        ValPair => ob(r.read_value::<(u8, u16)>().map(|x| vec![x.0 as u128, x.1 as u128])),
    }
}

/// What an operation does at a given position, according to the model.
enum Exp { Ok(Vec<u128>, usize, usize), Eof(usize, usize), Bad(usize, usize) }
fn num(d: &[u8], be: bool) -> u128 { let mut v = 0u128; for i in 0..d.len() { v |= (d[if be { d.len() - 1 - i } else { i }] as u128) << (8 * i); } v }
fn width(w: W) -> usize { match w { W::U8 => 1, W::U16 | W::Pair => 2, W::F64 => 8 } }
fn elems_of(d: &[u8], w: W, be: bool) -> Vec<u128> { match w { W::U8 | W::Pair => by(d), _ => d.chunks(width(w)).map(|c| num(c, be)).collect() } }
fn spec(op: Op, d: &[u8], p: usize, be: bool) -> Exp {
    let left = d.len() - p;
    let end = d.len();
    let take = |n: Option<usize>, f: &dyn Fn(&[u8]) -> Vec<u128>| match n { Some(n) if n <= left => Exp::Ok(f(&d[p..p + n]), p + n, p + n), _ => Exp::Eof(p, end) };
    let bytes = |b: &[u8]| by(b);
    match op {
        Read(n) | ReadPtr(n) | Borrow(n) | BorrowR(n) => take(Some(n), &bytes),
        Skip(n) => take(Some(n), &|_| vec![]),
        Peek(n) | PeekPtr(n) => if n <= left { Exp::Ok(by(&d[p..p + n]), p, p) } else { Exp::Eof(p, p) },
        BorrowEof => Exp::Ok(by(&d[p..]), end, end),
        Num(k) => take(Some(NUMS[k as usize].0 as usize), &|b| vec![num(b, be)]),
        PeekNum(k) => { let n = NUMS[k as usize].0 as usize; if n <= left { Exp::Ok(vec![num(&d[p..p + n], be)], p, p) } else { Exp::Eof(p, p) } }
        Varint | PeekVarint => {
            let mut c = Cur::new(&d[p..], be);
            let peek = op == PeekVarint;
            match c.varint() { Ok(v) => { let q = if peek { p } else { p + c.pos }; Exp::Ok(vec![v as u128], q, q) } Err(_) => Exp::Eof(p, if peek { p } else { end }) }
        }
        Vect(w, n) | Cowt(w, n) | Coll(w, n) => take(n.checked_mul(width(w)), &|b| elems_of(b, w, be)),
        Set(n) => take(n.checked_mul(2), &|b| { let s: BTreeSet<u128> = elems_of(b, W::U16, be).into_iter().collect(); s.into_iter().collect() }),
        Map(n) => take(n.checked_mul(3), &|b| { let s: BTreeMap<u8, u128> = b.chunks(3).map(|c| (c[0], num(&c[1..], be))).collect(); s.into_iter().flat_map(|x| [x.0 as u128, x.1]).collect() }),
        Map8(n) => take(n.checked_mul(2), &|b| { let s: BTreeMap<u8, u128> = b.chunks(2).map(|c| (c[0], c[1] as u128)).collect(); s.into_iter().flat_map(|x| [x.0 as u128, x.1]).collect() }),
        Str(n) => if n <= left { if std::str::from_utf8(&d[p..p + n]).is_ok() { Exp::Ok(by(&d[p..p + n]), p + n, p + n) } else { Exp::Bad(p, end) } } else { Exp::Eof(p, end) },
        VecEof(w) | CowEof(w) | CollEof(w) => { let k = left / width(w) * width(w); Exp::Ok(elems_of(&d[p..p + k], w, be), p + k, end) }
        ValU32 => take(Some(4), &|b| vec![num(b, be)]),
        ValPair => take(Some(3), &|b| vec![b[0] as u128, num(&b[1..], be)]),
        ValVec16 => { if left < 4 { Exp::Eof(p, end) } else { let n = num(&d[p..p + 4], be) as usize; if 4 + 2 * n <= left { let q = p + 4 + 2 * n; Exp::Ok(elems_of(&d[p + 4..q], W::U16, be), q, q) } else { Exp::Eof(p, end) } } }
        Can(_) | Order(_) => Exp::Ok(vec![], p, p),
    }
}
fn step<'a, R: Reader<'a, Endianness>>(r: &mut R, op: Op, s: &mut Session) -> bool {
    s.hit.set(false);
    let o = exec(r, op, s);
    s.steps += 1;
    let hit = s.hit.get();
    let bad = |s: &mut Session, m: String| { s.fault = Some(m); false };
    if let Order(be) = op { s.be = be; return if o == Obs::Bool(Some(true)) { true } else { bad(s, "the new byte order is not in effect".into()) }; }
    if let Can(n) = op {
        let Obs::Bool(b) = o else { unreachable!() };
        let (yes, no) = (s.pos.iter().any(|p| s.data.len() - p >= n), s.pos.iter().any(|p| s.data.len() - p < n));
        return match b { Some(true) if !yes => bad(s, format!("can_read_at_least({n}) says yes at {:?} of {}", s.pos, s.data.len())), Some(false) if !no => bad(s, format!("can_read_at_least({n}) says no at {:?} of {}", s.pos, s.data.len())), _ => true };
    }
    if o == Obs::NoSupport { return if s.from == Feed::Buffer && matches!(op, Borrow(_)) { bad(s, format!("{op:?} is not supported by a buffer")) } else { true }; }
    let peek = matches!(op, Peek(_) | PeekPtr(_) | PeekNum(_) | PeekVarint);
    let mut next: Vec<usize> = vec![];
    let mut add = |a: usize, b: usize| for q in a..=b { if !next.contains(&q) { next.push(q); } };
    if hit && !matches!(o, Obs::Io(_)) { return bad(s, format!("an I/O error came up during {op:?}, and the result is {o:?}")); }
    match &o {
        Obs::Io(_) if hit => for p in &s.pos { add(*p, if peek { *p } else { s.data.len() }); },
        _ => for p in &s.pos {
            match (spec(op, s.data, *p, s.be), &o) {
                (Exp::Ok(v, a, b), Obs::Ok(w)) if v == *w => add(a, b),
                (Exp::Eof(a, b), Obs::Eof) => if s.stay { add(a, a) } else { add(a, b) },
                // Absurd lengths are refused with whatever error.
                (Exp::Eof(a, b), Obs::Bad) if matches!(op, Coll(_, n) | Set(n) | Map(n) | Map8(n) if n > 1 << 40) => add(a, b),
                (Exp::Bad(a, b), Obs::Bad) => add(a, b),
                _ => {}
            }
        },
    }
    if next.is_empty() { let m = format!("{op:?} at {:?} of {} bytes gives {o:?}", s.pos, s.data.len()); return bad(s, m); }
    s.pos = next;
    true
}
thread_local!(static SESSION: Cell<*mut Session<'static>> = const { Cell::new(std::ptr::null_mut()) });
struct Ops;
impl<'a> Readable<'a, Endianness> for Ops {
    fn read_from<R: Reader<'a, Endianness>>(r: &mut R) -> Result<Self, E> {
        let s = unsafe { &mut *SESSION.with(|c| c.get()) };
        for op in s.ops { if !step(r, *op, s) { return Ok(Ops); } }
        // Whatever is left has to come out as it is.
        if s.drain { for _ in 0..=s.data.len() { if !step(r, Num(0), s) { return Ok(Ops); } if s.pos == [s.data.len()] { break; } } step(r, Read(1), s); }
        Ok(Ops)
    }
}
fn run_ops(r: &mut Run, ops: &[Op], data: &[u8], be: bool, from: Feed, fault: u64, drain: bool) {
    r.case(|| format!("{ops:?} on {} {} {from:?} fault at {fault}", hex(data), ends(be)));
    let hit = Cell::new(false);
    let mut s = Session { ops, data, be, pos: vec![0], from, hit: &hit, fault: None, steps: 0, stay: false, drain };
    SESSION.with(|c| c.set(unsafe { std::mem::transmute::<*mut Session<'_>, *mut Session<'static>>(&mut s) }));
    let res = guard(|| read_as::<_, Ops>(en(be), from, data, fault, ErrorKind::PermissionDenied, &hit).map(|_| ()));
    set_capacity(0);
    r.traces += 1;
    r.transitions += s.steps;
    let m = match (res, s.fault.take()) { (Err(p), _) => Some(p), (_, Some(m)) => Some(m), (Ok(Err(e)), _) => Some(format!("reading fails with {e:?}")), _ => None };
    if let Some(m) = m {
        let culprit = ops.get((s.steps as usize).saturating_sub(1));
        r.fail(&format!("{:?} {culprit:?}", std::mem::discriminant(&from)), format!("{from:?}{} ({}), input {}: {ops:?}: {m}", if fault > 0 { format!(", failing at the {fault}. read") } else { String::new() }, ends(be), hex(data)));
    }
}
const HUGE: usize = usize::MAX;
fn full_menu() -> Vec<Op> {
    let mut v = vec![Read(0), Read(1), Read(3), Read(8), Peek(0), Peek(1), Peek(2), Peek(4), Peek(9), ReadPtr(2), PeekPtr(3), Skip(0), Skip(1), Skip(3), Skip(HUGE), Borrow(0), Borrow(2), Borrow(HUGE), BorrowR(1), BorrowR(3), BorrowEof, Can(0), Can(1), Can(3), Can(HUGE)];
    for k in 0..12 { v.push(Num(k)); v.push(PeekNum(k)); }
    v.extend([Varint, PeekVarint, ValU32, ValVec16, ValPair, Order(false), Order(true)]);
    for w in [W::U8, W::U16, W::Pair, W::F64] { v.extend([Vect(w, 0), Vect(w, 1), Vect(w, 3), Vect(w, HUGE), Vect(w, HUGE / 2 + 2), Cowt(w, 1), Cowt(w, 2), Cowt(w, HUGE), Coll(w, 1), Coll(w, 2), Coll(w, HUGE), VecEof(w), CowEof(w), CollEof(w)]); }
    v.extend([Set(0), Set(2), Set(HUGE / 2), Map(0), Map(1), Map(2), Map(HUGE / 3 + 1), Map8(1), Map8(2), Map8(HUGE), Str(0), Str(1), Str(4), Str(HUGE)]);
    v
}
fn core_menu() -> Vec<Op> { vec![Read(1), Read(2), Read(5), Peek(1), Peek(3), Peek(7), Skip(2), Num(2), PeekNum(4), Varint, PeekVarint, Vect(W::U16, 1), BorrowR(2), Order(true)] }
fn inputs(n: usize) -> [Vec<u8>; 4] {
    [(0..n).map(|i| 0x21 + i as u8).collect(), (0..n).map(|i| [0x80u8, 0xc3, 0xe1, 0x12, 0xff, 0x83, 0xfe, 0xa9][i % 8].wrapping_add((i / 8) as u8)).collect(), (0..n).map(|i| if i == 0 || i == 3 { 1 } else { (i / 4) as u8 }).collect(), (0..n).map(|i| [0xf0u8, 1, 2, 3, 4, 0x81, 5, 0xff][i % 8]).collect()]
}
fn feeds(all: bool) -> Vec<Feed> {
    let mut v = vec![Feed::Buffer, Feed::Copying, Feed::User];
    let masks: &[(u64, bool)] = if all { &[(0, false), (u64::MAX, false), (0b10_1010_1010, true), (0b100_1001_0010, false)] } else { &[(0, true), (u64::MAX, false)] };
    for &(m, i) in masks { v.push(Feed::Unbuf(m, i)); for &c in if !cfg!(speedy_verif) { &[0usize][..] } else if all { &[0, 1, 2, 3, 4, 5, 8][..] } else { &[0, 1, 3][..] } { v.push(Feed::Buf(c, m, i)); } }
    v
}
/// Every sequence of `n` operations.
fn sequences(menu: &[Op], n: usize, f: &mut dyn FnMut(&[Op])) {
    let mut idx = vec![0; n];
    let mut seq: Vec<Op> = vec![menu[0]; n];
    loop {
        f(&seq);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            idx[i] += 1;
            if idx[i] < menu.len() { seq[i] = menu[idx[i]]; break; }
            idx[i] = 0;
            seq[i] = menu[0];
        }
    }
}
fn c20(r: &mut Run) {
    let th = r.thorough;
    let (full, core) = (full_menu(), core_menu());
    // All pairs out of everything, on inputs of every length up to a bound.
    for first in &full { for n in if th { (0..=10).chain([16, 17, 33]).collect() } else { vec![0usize, 1, 2, 3, 4, 6, 9, 17] } {
        if !r.unit() { continue; }
        for (k, d) in inputs(n).iter().enumerate() { for from in feeds(true) { for be in BES {
            if be && k > 1 && !th { continue; }
            r.see(&(be, k, from, n));
            run_ops(r, &[*first], d, be, from, 0, true);
            for second in &full { if r.stop() { return; } r.states += 1; run_ops(r, &[*first, *second], d, be, from, 0, true); }
        } } }
        r.sample(|| format!("every two operations starting with {first:?} on inputs of {n} bytes, from {} kinds of sources", feeds(true).len()));
    } }
    // All triples out of everything.
    for first in &full { for n in if th { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 24] } else { vec![5, 11] } {
        if !r.unit() { continue; }
        let ds = inputs(n);
        for (k, d) in ds.iter().enumerate() {
            if !th && k != (n > 5) as usize { continue; }
            for from in if th { feeds(false) } else { vec![Feed::Buffer, Feed::Copying, Feed::Unbuf(2, false), Feed::Buf(3, 0x12, false)] } {
                for second in &full { for third in &full { if r.stop() { return; } r.states += 1; run_ops(r, &[*first, *second, *third], d, k == 1, from, 0, true); } }
            }
        }
    } }
    // Longer ones out of a few which matter most to the buffering.
    let depth = if th { 5 } else { 4 };
    for first in &core { for second in &core { for (k, n) in if th { vec![(0, 6), (1, 6), (0, 9), (1, 11), (3, 12), (0, 17)] } else { vec![(0, 6), (1, 11), (3, 12)] } {
        if !r.unit() { continue; }
        let d = &inputs(n)[k];
        let fs = feeds(false);
        sequences(&core, depth - 2, &mut |rest| {
            let mut ops = vec![*first, *second];
            ops.extend_from_slice(rest);
            for from in &fs { if r.stop() { return; } r.states += 1; run_ops(r, &ops, d, false, *from, 0, true); }
        });
        r.sample(|| format!("every {depth} operations starting with {first:?}, {second:?} on {}", hex(d)));
    } } }
    // Every way to split a stream.
    for first in &core { for n in if th { vec![3, 5, 7, 9] } else { vec![3, 6] } {
        if !r.unit() { continue; }
        for k in [0, 3] { let d = &inputs(n)[k]; for mask in 0..1u64 << (n - 1) { for cap in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
            let from = match cap { None => Feed::Unbuf(mask, false), Some(c) => Feed::Buf(c, mask, mask % 2 == 1) };
            sequences(&core, if th { 3 } else { 2 }, &mut |rest| { if r.stop() { return; } let mut ops = vec![*first]; ops.extend_from_slice(rest); r.states += 1; run_ops(r, &ops, d, false, from, 0, true); });
        } } }
    } }
    // An error at every read of the stream, which goes on afterwards.
    let faulty: Vec<Op> = core.iter().copied().chain([VecEof(W::U8), VecEof(W::U16), CollEof(W::Pair), Str(3), Skip(6), Set(2), PeekNum(6), Vect(W::Pair, 2)]).collect();
    for first in &faulty { for second in &faulty {
        if !r.unit() { continue; }
        for (k, n) in [(0, 7), (3, 12)] { let d = &inputs(n)[k]; for mask in [0u64, u64::MAX, 0b1010_1010, 0b100_1001] { for cap in [None, Some(0), Some(1), Some(2), Some(3), Some(8)] { for at in 1..=if th { 12 } else { 6 } {
            let from = match cap { None => Feed::Unbuf(mask, false), Some(c) => Feed::Buf(c, mask, false) };
            for third in &faulty { if r.stop() { return; } r.states += 1; run_ops(r, &[*first, *second, *third], d, false, from, at, true); }
        } } } }
    } }
    // Large ones.
    for n in [1023usize, 1024, 1025, 2048, 2049, 3000, 8191, 8192, 8193, 20000] { for first in [Skip(0), Read(1), Peek(3), PeekNum(6), Num(4), Peek(1024), Peek(5000)] {
        if !r.unit() { continue; }
        let d: Vec<u8> = (0..n + 7).map(|i| (i % 251) as u8).collect();
        for from in [Feed::Buffer, Feed::Copying, Feed::User, Feed::Unbuf(0, false), Feed::Buf(0, 0, false), Feed::Buf(0, 0x10, true), Feed::Buf(100, 4, false)] { for second in [Skip(n - 1), Skip(n), Read(n), Read(n - 1), Peek(n), Vect(W::U8, n), Coll(W::U16, n / 2), Skip(n + 8), Read(n + 8), Peek(n + 8), Str(n)] { for third in [Read(1), Num(2), Peek(5), Read(7), VecEof(W::U8), Skip(n)] {
            if r.stop() { return; }
            r.states += 1;
            // A failed read leaves the position open, which is too many positions to go on with.
            let mut ops = vec![first, second];
            if !matches!(second, Skip(m) | Read(m) if m > n) && second != Str(n) && (first == Skip(0) || matches!(first, Peek(_) | PeekNum(_)) || matches!(second, Peek(_))) { ops.push(third); }
            run_ops(r, &ops, &d, false, from, 0, false);
        } } }
    } }
}


// ---- Writers ----

/// A user-written writer with nothing but the required functions.
struct UserWriter { out: Vec<u8>, ctx: Endianness }
impl Writer<Endianness> for UserWriter {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), E> { self.out.extend_from_slice(b); Ok(()) }
    fn context(&self) -> &Endianness { &self.ctx }
    fn context_mut(&mut self) -> &mut Endianness { &mut self.ctx }
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Put { Bytes(usize), Num(u8, u128), Varint(u64), Slice8(usize), Slice16(usize), SliceF(usize), SliceTuple(usize), SlicePrim(usize), SliceBool(usize), Coll16(usize), CollStr(usize), Val(u128), ValStr(usize), ValVec(usize), ValVarint(u64), Unit(usize), Order(bool), Can(usize) }
const DATA16: [u16; 4] = [0x0102, 0xfffe, 0, 0x8000];
const DATAF: [f64; 3] = [1.5, -0.0, f64::NAN];
#[derive(Readable, Writable, Clone, Copy)]
#[repr(packed)]
struct Prim { a: u8, b: u16 }
#[derive(Writable, Clone, Copy)]
struct Var { #[speedy(varint)] x: u64 }
const TUPLES: [(u8, u16); 3] = [(1, 0x0203), (0xff, 0xfffe), (0, 7)];
/// What the operation has to append.
fn put_bytes(op: Put, be: bool) -> Vec<u8> {
    let n = |v: u128, w: usize| -> Vec<u8> { (0..w).map(|i| (v >> (8 * if be { w - 1 - i } else { i })) as u8).collect() };
    match op {
        Put::Bytes(k) => (0..k).map(|i| 0x30 + i as u8).collect(),
        Put::Num(k, v) => n(v, NUMS[k as usize].0 as usize),
        Put::Varint(v) | Put::ValVarint(v) => { let mut o = vec![]; put_varint(v, &mut o); o }
        Put::Slice8(k) => (0..k).map(|i| 0x80 + i as u8).collect(),
        Put::Slice16(k) | Put::Coll16(k) => DATA16[..k].iter().flat_map(|x| n(*x as u128, 2)).collect(),
        Put::SliceF(k) => DATAF[..k].iter().flat_map(|x| n(x.to_bits() as u128, 8)).collect(),
        Put::SliceTuple(k) | Put::SlicePrim(k) => TUPLES[..k].iter().flat_map(|x| { let mut o = vec![x.0]; o.extend(n(x.1 as u128, 2)); o }).collect(),
        Put::SliceBool(k) => (0..k).map(|i| (i % 2 == 0) as u8).collect(),
        Put::CollStr(k) => (0..k).flat_map(|i| { let mut o = n(i as u128, 4); o.extend(vec![b'x'; i]); o }).collect(),
        Put::Val(v) => n(v & u32::MAX as u128, 4),
        Put::ValStr(k) => { let mut o = n(k as u128, 4); o.extend(vec![b'y'; k]); o }
        Put::ValVec(k) => { let mut o = n(k as u128, 4); o.extend(DATA16[..k].iter().flat_map(|x| n(*x as u128, 2))); o }
        Put::Unit(_) | Put::Order(_) | Put::Can(_) => vec![],
    }
}
pub fn put_varint(v: u64, o: &mut Vec<u8>) {
    let bits = 64 - v.leading_zeros() as usize;
    let extra = if bits <= 7 { 0 } else if bits > 56 { 8 } else { (bits - 1) / 7 };
    let ones = if extra == 8 { 0xff } else { !(0xffu16 >> extra) as u8 };
    o.push(ones | if extra == 8 { 0 } else { (v >> (8 * extra)) as u8 });
    for i in 0..extra { o.push((v >> (8 * i)) as u8); }
}
fn put<T: ?Sized + Writer<Endianness>>(w: &mut T, op: Put) -> Result<(), E> {
    match op {
        Put::Bytes(k) => w.write_bytes(&(0..k).map(|i| 0x30 + i as u8).collect::<Vec<_>>()),
        Put::Num(0, v) => w.write_u8(v as u8), Put::Num(1, v) => w.write_i8(v as i8), Put::Num(2, v) => w.write_u16(v as u16), Put::Num(3, v) => w.write_i16(v as i16),
        Put::Num(4, v) => w.write_u32(v as u32), Put::Num(5, v) => w.write_i32(v as i32), Put::Num(6, v) => w.write_u64(v as u64), Put::Num(7, v) => w.write_i64(v as i64),
        Put::Num(8, v) => w.write_u128(v), Put::Num(9, v) => w.write_i128(v as i128), Put::Num(10, v) => w.write_f32(f32::from_bits(v as u32)), Put::Num(_, v) => w.write_f64(f64::from_bits(v as u64)),
        Put::Varint(v) => w.write_u64_varint(v),
        Put::ValVarint(v) => w.write_value(&Var { x: v }),
        Put::Slice8(k) => w.write_slice(&(0..k).map(|i| 0x80 + i as u8).collect::<Vec<_>>()),
        Put::Slice16(k) => w.write_slice(&DATA16[..k]),
        Put::SliceF(k) => w.write_slice(&DATAF[..k]),
        Put::SliceTuple(k) => w.write_slice(&TUPLES[..k]),
        Put::SlicePrim(k) => w.write_slice(&TUPLES[..k].iter().map(|t| Prim { a: t.0, b: t.1 }).collect::<Vec<_>>()),
        Put::SliceBool(k) => w.write_slice(&(0..k).map(|i| i % 2 == 0).collect::<Vec<_>>()),
        Put::Coll16(k) => w.write_collection(DATA16[..k].iter().copied().filter(|_| true)),
        Put::CollStr(k) => w.write_collection((0..k).map(|i| "x".repeat(i))),
        Put::Val(v) => w.write_value(&(v as u32)),
        Put::ValStr(k) => w.write_value(&"y".repeat(k)),
        Put::ValVec(k) => w.write_value(&DATA16[..k].to_vec()),
        Put::Unit(k) => w.write_slice(&vec![(); k]),
        Put::Order(be) => { *w.context_mut() = en(be); if w.endianness() != en(be) || w.context().endianness() != en(be) { panic!("the new byte order is not in effect"); } Ok(()) }
        Put::Can(_) => Ok(()),
    }
}
/// Writes a script; `need` replaces the size calculation, which may be too small on purpose.
struct Puts<'s> { ops: &'s [Put], need: Option<usize>, log: &'s Cell<(usize, Option<(usize, Option<bool>)>)>, cans: std::cell::RefCell<Vec<(usize, Option<bool>)>> }
impl<'s> Writable<Endianness> for Puts<'s> {
    fn write_to<T: ?Sized + Writer<Endianness>>(&self, w: &mut T) -> Result<(), E> {
        self.cans.borrow_mut().clear();
        for (i, op) in self.ops.iter().enumerate() {
            self.log.set((i, None));
            if let Put::Can(n) = op { self.cans.borrow_mut().push((i, w.can_write_at_least(*n))); continue; }
            put(w, *op)?;
        }
        self.log.set((self.ops.len(), None));
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, E> {
        match self.need { Some(n) => Ok(n), None => { struct Plain<'x, 's>(&'x Puts<'s>); impl<'x, 's> Writable<Endianness> for Plain<'x, 's> { fn write_to<T: ?Sized + Writer<Endianness>>(&self, w: &mut T) -> Result<(), E> { self.0.write_to(w) } } Plain(self).bytes_needed() } }
    }
}
/// The same, but it disregards failures and goes on.
struct Stubborn<'s> { ops: &'s [Put], need: usize, said: &'s std::cell::RefCell<Vec<Said>> }
#[derive(Clone, Copy, Debug)]
enum Said { Done(bool), Can(Option<bool>) }
impl<'s> Writable<Endianness> for Stubborn<'s> {
    fn write_to<T: ?Sized + Writer<Endianness>>(&self, w: &mut T) -> Result<(), E> {
        for op in self.ops {
            let x = if let Put::Can(n) = op { Said::Can(w.can_write_at_least(*n)) } else { Said::Done(put(w, *op).is_ok()) };
            self.said.borrow_mut().push(x);
        }
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, E> { Ok(self.need) }
}
/// An operation which fails leaves any part of its bytes which fits; the ones after it are still appended as long as they fit.
fn run_stubborn(r: &mut Run, ops: &[Put], be: bool, limit: usize) {
    r.case(|| format!("{ops:?} {} to a buffer, of which {limit} may be used, disregarding failures", ends(be)));
    r.traces += 1; r.transitions += ops.len() as u64;
    let said = Default::default();
    let mut buf = vec![0xeeu8; limit + 1];
    let res = guard(|| Stubborn { ops, need: limit, said: &said }.write_to_buffer_with_ctx(en(be), &mut buf));
    let said = said.into_inner();
    let fail = |r: &mut Run, m: String| r.fail(&format!("going on {:?}", ops.last()), format!("{ops:?} ({}) to a buffer, of which {limit} may be used, disregarding failures: {m}", ends(be)));
    match res { Ok(Ok(())) => {}, x => return fail(r, format!("{x:?} after {said:?}")) }
    if buf[limit] != 0xee { return fail(r, "something was written beyond it".into()); }
    let mut order = be;
    let mut states: Vec<Vec<u8>> = vec![vec![]];
    for (i, op) in ops.iter().enumerate() {
        if let Put::Order(b) = op { order = *b; }
        let bytes = put_bytes(*op, order);
        let mut next: Vec<Vec<u8>> = vec![];
        for s in states {
            let left = limit - s.len();
            match said[i] {
                Said::Can(c) => if let Put::Can(n) = op { if c.is_none() || c == Some(left >= *n) { next.push(s); } },
                Said::Done(true) => if bytes.len() <= left { next.push([&s[..], &bytes[..]].concat()); },
                Said::Done(false) => if bytes.len() > left { for k in 0..=left { next.push([&s[..], &bytes[..k]].concat()); } },
            }
        }
        next.sort(); next.dedup();
        if next.is_empty() { return fail(r, format!("operation {i} says {:?}, which cannot be, after {:?}", said[i], &said[..i])); }
        states = next;
    }
    if !states.iter().any(|s| buf[..s.len()] == s[..]) { fail(r, format!("{} cannot be, after {said:?}; it could be {}", hex(&buf[..limit]), hex(&states[0]))); }
}
fn run_puts(r: &mut Run, ops: &[Put], be: bool) {
    // The model.
    let mut want = vec![];
    let mut ends_at = vec![0];
    let mut order = be;
    let switches = ops.iter().any(|o| matches!(o, Put::Order(_)));
    for o in ops { if let Put::Order(b) = o { order = *b; } want.extend(put_bytes(*o, order)); ends_at.push(want.len()); }
    let fail = |r: &mut Run, sink: &str, m: String| { let culprit = ops.last(); r.fail(&format!("{sink} {culprit:?}"), format!("{ops:?} ({}) to {sink}: {m}", ends(be))); };
    let log = Cell::new((0, None));
    let new = |need| Puts { ops, need, log: &log, cans: Default::default() };
    let need = if switches { Some(want.len()) } else { None };
    let whole = want.len();
    for sink in 0..4 {
        let name = ["a vector", "a stream", "a user's writer", "bytes_needed"][sink];
        r.case(|| format!("{ops:?} {} to {name}", ends(be)));
        r.traces += 1; r.transitions += ops.len() as u64;
        let p = new(need);
        let mut out = vec![];
        let res = guard(|| match sink {
            0 => p.write_to_vec_with_ctx(en(be)).map(|v| out = v),
            1 => p.write_to_stream_with_ctx(en(be), &mut out),
            2 => { let mut w = UserWriter { out: vec![], ctx: en(be) }; let x = p.write_to(&mut w); out = w.out; x }
            _ => p.bytes_needed().map(|n| out = vec![0; n]),
        });
        match res {
            Err(m) => fail(r, name, m),
            Ok(Err(e)) => fail(r, name, format!("error {e:?}")),
            Ok(Ok(())) => if sink == 3 { if out.len() != whole { fail(r, name, format!("{} bytes instead of {whole}", out.len())); } } else if out != want { fail(r, name, format!("{} instead of {}", hex(&out), hex(&want))); },
        }
        if sink != 0 { for (i, c) in p.cans.borrow().iter() { if *c == Some(false) { fail(r, name, format!("operation {i} says that nothing can be written")); } } }
    }
    // Buffers of every size, with a size calculation which promises that it will fit.
    for limit in 0..=whole + 2 {
        for slack in [0usize, 2] {
            r.case(|| format!("{ops:?} {} to a buffer, of which {limit} may be used", ends(be)));
            r.traces += 1; r.transitions += ops.len() as u64;
            let p = new(Some(limit));
            let mut buf = vec![0xeeu8; limit + slack];
            let res = guard(|| p.write_to_buffer_with_ctx(en(be), &mut buf));
            let name = "a buffer";
            let done = log.get().0;
            // The first operation which does not fit.
            let first = (0..ops.len()).find(|i| ends_at[i + 1] > limit);
            match (res, first) {
                (Err(m), _) => fail(r, name, format!("limit {limit}: {m}")),
                (Ok(Ok(())), None) => {}
                (Ok(Err(e)), Some(i)) if done == i => if !matches!(classify(&e), Cls::Eof) { fail(r, name, format!("limit {limit}: error {e:?}")); },
                (x, i) => fail(r, name, format!("limit {limit}: {x:?} at operation {done}, and the first one which does not fit is {i:?}")),
            }
            let sure = ends_at[first.unwrap_or(ops.len())];
            if buf[..sure] != want[..sure] { fail(r, name, format!("limit {limit}: {} instead of {}", hex(&buf[..sure]), hex(&want[..sure]))); }
            if buf[limit..].iter().any(|b| *b != 0xee) { fail(r, name, format!("limit {limit}: something was written beyond it")); }
            // What comes after a failure may be in part the data, but has to be the data.
            for k in sure..limit.min(whole) { if buf[k] != 0xee && buf[k] != want[k] { fail(r, name, format!("limit {limit}: byte {k} is {:#x}", buf[k])); break; } }
            for (i, c) in p.cans.borrow().iter() {
                let Put::Can(n) = ops[*i] else { continue };
                let fits = limit.saturating_sub(ends_at[*i]) >= n;
                if *c == Some(!fits) { fail(r, name, format!("limit {limit}: can_write_at_least({n}) at {} says {c:?}", ends_at[*i])); }
            }
        }
        if limit < whole && ops.len() > 1 { run_stubborn(r, ops, be, limit); }
        // A buffer which is too small for what the size calculation asks for.
        if limit < whole && !switches {
            r.case(|| format!("{ops:?} {} to a buffer of {limit} bytes", ends(be)));
            r.traces += 1;
            let mut buf = vec![0xeeu8; limit];
            match guard(|| new(None).write_to_buffer_with_ctx(en(be), &mut buf)) { Ok(Err(_)) => {}, x => fail(r, "a small buffer", format!("{limit} bytes: {x:?}")) }
        }
    }
}
fn c21(r: &mut Run) {
    let th = r.thorough;
    let mut menu = vec![Put::Bytes(0), Put::Bytes(1), Put::Bytes(5), Put::Order(false), Put::Order(true), Put::Can(0), Put::Can(1), Put::Can(3), Put::Can(HUGE), Put::Unit(3)];
    for k in 0..12u8 { menu.push(Put::Num(k, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10)); menu.push(Put::Num(k, 0xfffe_8001_7f00_ff80_8123_4567_89ab_cdef)); }
    for v in [0, 0x7f, 0x80, 0x3fff, 0x4000, 0x1f_ffff, 0x20_0000, 0xfff_ffff, 0x1000_0000, 0x7_ffff_ffff, 0x8_0000_0000, 0x3ff_ffff_ffff, 0x400_0000_0000, 0x1_ffff_ffff_ffff, 0x2_0000_0000_0000, 0xff_ffff_ffff_ffff, 0x100_0000_0000_0000, u64::MAX] { menu.push(Put::Varint(v)); if v & (v.wrapping_add(1)) == 0 { menu.push(Put::ValVarint(v)); } }
    for k in 0..=3 { menu.extend([Put::Slice8(k), Put::Slice16(k), Put::SliceF(k), Put::SliceTuple(k), Put::SlicePrim(k), Put::SliceBool(k), Put::Coll16(k), Put::CollStr(k), Put::ValStr(k), Put::ValVec(k)]); }
    menu.push(Put::Val(0xdead_beef));
    let small = [Put::Bytes(1), Put::Num(2, 0x1234), Put::Num(4, 0x1122_3344), Put::Varint(0x4000), Put::Slice16(2), Put::SliceTuple(1), Put::SlicePrim(2), Put::Order(true), Put::Order(false), Put::Can(2), Put::ValStr(1), Put::Num(11, 0x3ff8_0000_0000_0001), Put::Coll16(1)];
    for first in &menu { for be in BES {
        if !r.unit() { continue; }
        r.see(&(first, be));
        run_puts(r, &[*first], be);
        for second in &menu {
            r.states += 1;
            run_puts(r, &[*first, *second], be);
            for third in &menu { if r.stop() { return; } r.states += 1; run_puts(r, &[*first, *second, *third], be); if th { for fourth in &small { r.states += 1; run_puts(r, &[*first, *second, *third, *fourth], be); } } }
        }
        r.sample(|| format!("every three operations starting with {first:?} ({}), to every kind of writer and buffers of every size", ends(be)));
    } }
    for first in &small { for second in &small { for be in BES {
        if !r.unit() { continue; }
        for third in &small { for fourth in &small {
            r.states += 1;
            run_puts(r, &[*first, *second, *third, *fourth], be);
            for fifth in &small { r.states += 1; if r.stop() { return; } run_puts(r, &[*first, *second, *third, *fourth, *fifth], be); if th { for sixth in &small { r.states += 1; run_puts(r, &[*first, *second, *third, *fourth, *fifth, *sixth], be); } } }
            if r.stop() { return; }
        } }
    } } }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C20", level: "model_checking", run: c20, rule: "Every sequence of up to 3 out of 126 Reader operations, and of up to 4 (thorough: 5) out of 14 which matter to the buffering, on inputs of many lengths, from buffers, copying buffers, user-written readers and streams (with capacities from 1 up, every split of short inputs, interruptions, and an I/O error at every read), is compared with a model of a cursor which keeps the set of possible positions; state: (operations so far, input, source).", assumptions: &["after a failed read the position may be anywhere from where it was to the end of the input"] },
        Check { id: "C21", level: "model_checking", run: c21, rule: "Every sequence of up to 3 out of 103 Writer operations (thorough: 3 followed by each of 13), and of up to 5 (thorough: 6) out of 13, is written to a vector, a stream, a user-written writer, the size calculation and buffers of every size, and compared with the concatenation of what each operation should append; also by code which disregards the failures in a buffer which is too small and goes on, where the model keeps the set of possible contents; state: (operations so far, byte order).", assumptions: &["operations are compared as a whole: where a failed one stops in the middle is open"] },
    ]
}
