//! C19: whatever goes wrong while reading, what was read before is dropped exactly once, and nothing else is.
use vcore::util::*;
use speedy::{Context, Endianness, Readable, Reader};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::hash::{Hash, Hasher};
use std::io::{ErrorKind, Read};
use vcore::env::Split;
use vcore::run::{alloc, Check};
use vcore::*;

const BAD: u8 = 0xfe;
const PANIC: u8 = 0xfd;
const MOST: usize = 4096;
/// What became of every element since the last reset.
struct Ledger { made: Cell<usize>, live: Cell<usize>, state: Box<[Cell<u8>]>, wrong: RefCell<Option<String>>, zst: Cell<i64>, prims: RefCell<Vec<(u8, u8)>> }
thread_local!(static LEDGER: Ledger = Ledger { made: Cell::new(0), live: Cell::new(0), state: vec![Cell::new(0); MOST].into(), wrong: Default::default(), zst: Cell::new(0), prims: RefCell::new(Vec::with_capacity(256)) });
fn reset() { LEDGER.with(|l| { for i in 0..l.made.get() { l.state[i].set(0); } l.made.set(0); l.live.set(0); *l.wrong.borrow_mut() = None; l.zst.set(0); l.prims.borrow_mut().clear(); }) }
fn birth() -> u16 { LEDGER.with(|l| { let n = l.made.get(); assert!(n < MOST); l.made.set(n + 1); l.live.set(l.live.get() + 1); l.state[n].set(1); n as u16 }) }
fn death(id: u16, magic: bool) { LEDGER.with(|l| {
    let ok = magic && (id as usize) < l.made.get() && l.state[id as usize].get() == 1;
    if !ok { if l.wrong.borrow().is_none() { *l.wrong.borrow_mut() = Some(if magic { format!("element {id} is dropped again") } else { "something which is not an element is dropped".into() }); } return; }
    l.state[id as usize].set(2);
    l.live.set(l.live.get() - 1);
}) }

/// An element, on the heap if `H`.
pub struct D<const H: bool> { magic: u32, id: u16, key: u8, _heap: Option<Box<u64>> }
const MAGIC: u32 = 0x5eed_1e55;
impl<const H: bool> Drop for D<H> { fn drop(&mut self) { death(self.id, self.magic == MAGIC); self.magic = 0xdead_dead; } }
impl<const H: bool> D<H> { fn new(key: u8) -> Self { D { magic: MAGIC, id: birth(), key, _heap: if H { Some(Box::new(7)) } else { None } } } }
impl<const H: bool> Default for D<H> { fn default() -> Self { D::new(0) } }
impl<const H: bool> Clone for D<H> { fn clone(&self) -> Self { D::new(self.key) } }
impl<const H: bool> PartialEq for D<H> { fn eq(&self, o: &Self) -> bool { self.key == o.key } }
impl<const H: bool> Eq for D<H> {}
impl<const H: bool> PartialOrd for D<H> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<const H: bool> Ord for D<H> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.key.cmp(&o.key) } }
impl<const H: bool> Hash for D<H> { fn hash<S: Hasher>(&self, s: &mut S) { self.key.hash(s) } }
fn read_key<'a, C: Context, R: Reader<'a, C>>(r: &mut R) -> Result<u8, C::Error> {
    let k = r.read_u8()?;
    if k == BAD { return Err(speedy::Error::custom("bad").into()); }
    if k == PANIC { panic!("the element's reader panics"); }
    r.read_u16()?;
    Ok(k)
}
impl<'a, C: Context, const H: bool> Readable<'a, C> for D<H> {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { Ok(D::new(read_key(r)?)) }
    fn minimum_bytes_needed() -> usize { 3 }
}
/// An element without a size.
pub struct Z;
impl Default for Z { fn default() -> Self { LEDGER.with(|l| { l.zst.set(l.zst.get() + 1); l.made.set(l.made.get() + 0); }); Z } }
impl Clone for Z { fn clone(&self) -> Self { Z::default() } }
impl Drop for Z { fn drop(&mut self) { LEDGER.with(|l| { l.zst.set(l.zst.get() - 1); if l.zst.get() < 0 && l.wrong.borrow().is_none() { *l.wrong.borrow_mut() = Some("more elements are dropped than there are".into()); } }) } }
impl<'a, C: Context> Readable<'a, C> for Z {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { read_key(r)?; Ok(Z::default()) }
    fn minimum_bytes_needed() -> usize { 3 }
}
/// An element which is copied in bulk, but still has something to do when dropped.
#[derive(Readable)]
pub struct Pd { a: u8, b: u8, c: u8 }
impl Drop for Pd { fn drop(&mut self) { LEDGER.with(|l| l.prims.borrow_mut().push((self.a, self.b))) } }
impl Clone for Pd { fn clone(&self) -> Self { Pd { a: self.a, b: self.b, c: self.c } } }
impl Default for Pd { fn default() -> Self { Pd { a: 0, b: 0, c: 0 } } }
#[derive(Readable)] #[repr(transparent)] pub struct Pt(Pd);

type A = D<false>;
type B = D<true>;
#[derive(Readable)] pub struct S1 { _a: A, _b: B, _c: Vec<A>, _d: A }
#[derive(Readable)] pub struct S2 { _n: u8, #[speedy(length = _n)] _a: Vec<B>, #[speedy(length = _n)] _b: BTreeSet<A>, _c: (B, A) }
#[derive(Readable)] pub struct S3 { _a: A, #[speedy(default_on_eof)] _b: Vec<B>, #[speedy(default_on_eof)] _c: A }
#[derive(Readable)] pub struct S4 { _a: B, #[speedy(length = ..)] _b: Vec<B> }
#[derive(Readable)] pub struct S5 { #[speedy(skip)] _s: B, #[speedy(length_type = u8)] _a: Vec<A>, #[speedy(length_type = u64_varint)] _b: Option<Vec<B>>, _c: [A; 2] }
#[derive(Readable)] pub struct S6([B; 3], A);
#[derive(Readable)] pub struct S7 { _a: A, #[speedy(length = .., default_on_eof)] _b: Vec<A> }
#[derive(Readable)] pub enum E1 { V0(A, B), V1 { _a: Vec<B>, _b: A }, V2([A; 2]) }
#[derive(Readable)] #[speedy(peek_tag, tag_type = u8)] pub enum E2 { #[speedy(tag = 1)] V1(A, [B; 2]), #[speedy(tag = 2)] V2(A, Vec<B>) }
#[derive(Readable)] pub struct G<T, U> { _a: T, _b: Vec<U>, _c: T }
#[derive(Readable)] pub struct S8<'a> { #[speedy(length_type = u16)] _a: HashMap<A, B>, #[speedy(length_type = u16)] _b: Cow<'a, [A]>, #[speedy(constant_prefix = b"X")] _c: A }
#[derive(Readable)] pub struct S9 { _a: u8, #[speedy(length = ..)] _b: BTreeSet<A> }
#[derive(Readable)] pub struct S10 { _a: u8, #[speedy(length = ..)] _b: Vec<Pd> }
#[derive(Readable)] pub struct S11 { _a: u8, #[speedy(length = ..)] _b: HashMap<A, B> }
#[derive(Readable)] pub struct S12<'a> { _a: u8, #[speedy(length = ..)] _b: Cow<'a, [B]> }

/// Lays an input out; element keys come from a supply.
pub struct Lay { b: Vec<u8>, at: Vec<usize>, keys: Vec<u8>, used: usize }
impl Lay {
    fn e(&mut self) -> &mut Self { let k = if self.keys.is_empty() { 1 + self.used as u8 } else { self.keys[self.used % self.keys.len()] }; self.used += 1; self.at.push(self.b.len()); self.b.extend([k, 0x33, 0x44]); self }
    fn es(&mut self, n: usize) -> &mut Self { for _ in 0..n { self.e(); } self }
    fn n(&mut self, n: usize) -> &mut Self { self.b.extend((n as u32).to_le_bytes()); self }
    fn vec(&mut self, n: usize) -> &mut Self { self.n(n).es(n) }
    fn raw(&mut self, b: &[u8]) -> &mut Self { self.b.extend(b); self }
}
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum From { Buffer, Copying, User, Unbuf, Buf(usize), File }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { None, Io, Panic }
struct Src<'a> { inner: Split<'a>, calls: u64, at: u64, fault: Fault, hit: &'a Cell<bool> }
impl<'a> Read for Src<'a> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.at { self.hit.set(true); match self.fault { Fault::Io => return Err(ErrorKind::Other.into()), Fault::Panic => panic!("the stream panics"), Fault::None => {} } }
        self.inner.read(out)
    }
}
/// Everything there is to see from the outside.
#[derive(Debug, Default)]
struct Seen { result: Option<bool>, made: usize, live: usize, zst: i64, wrong: Option<String>, bytes: isize, after: usize, after_zst: i64, prims: Vec<(u8, u8)>, after_prims: Vec<(u8, u8)>, hit: bool }
struct Case { name: &'static str, lay: fn(&mut Lay, usize), run: fn(&Run, &[u8], From, u64, u64, Fault) -> Seen, most: usize, until_eof: bool }

fn observe<T>(f: impl FnOnce(&Cell<bool>) -> Result<T, speedy::Error>) -> Seen {
    reset();
    let hit = Cell::new(false);
    let before = alloc::live();
    let r = guard(|| f(&hit));
    let (made, live, zst) = LEDGER.with(|l| (l.made.get(), l.live.get(), l.zst.get()));
    let prims = LEDGER.with(|l| l.prims.borrow().clone());
    let p = std::mem::size_of_val(&prims[..]);
    let mut s = Seen { made, live, zst, hit: hit.get(), ..Default::default() };
    s.result = match r { Err(_) => None, Ok(Err(e)) => { drop(e); Some(false) } Ok(Ok(x)) => { drop(x); Some(true) } };
    s.bytes = alloc::live() as isize - before as isize - p as isize;
    LEDGER.with(|l| { s.after = l.live.get(); s.after_zst = l.zst.get(); s.wrong = l.wrong.borrow().clone(); s.after_prims = l.prims.borrow()[prims.len()..].to_vec(); });
    s.prims = prims;
    s
}
macro_rules! case { ($v:ident, $t:ty, $most:expr, $eof:expr, $lay:expr) => { $v.push({
    fn run(r: &Run, d: &[u8], from: From, mask: u64, at: u64, fault: Fault) -> Seen {
        let en = Endianness::LittleEndian;
        match from {
            // The value does not outlive the call.
            From::Buffer => { let d: &'static [u8] = unsafe { std::mem::transmute::<&[u8], _>(d) }; observe(|_| <$t>::read_from_buffer_with_ctx(en, d)) }
            From::Copying => observe(|_| <$t>::read_from_buffer_copying_data_with_ctx(en, d)),
            From::User => { let d: &'static [u8] = unsafe { std::mem::transmute::<&[u8], _>(d) }; observe(|_| <$t>::read_from(&mut UserReader { data: d, pos: 0, ctx: en })) }
            From::Unbuf => observe(|hit| <$t>::read_from_stream_unbuffered_with_ctx(en, Src { inner: Split::new(d, mask, false), calls: 0, at, fault, hit })),
            From::Buf(cap) => { set_capacity(cap); let s = observe(|hit| <$t>::read_from_stream_buffered_with_ctx(en, Src { inner: Split::new(d, mask, false), calls: 0, at, fault, hit })); set_capacity(0); s }
            From::File => { let p = r.dir.join("in"); std::fs::write(&p, d).unwrap(); observe(|_| <$t>::read_from_file_with_ctx(en, &p)) }
        }
    }
    Case { name: stringify!($t), lay: $lay, run, most: $most, until_eof: $eof }
}) } }
fn cases() -> Vec<Case> {
    let mut v = vec![];
    macro_rules! lists { ($($t:ty)*) => { $( case!(v, $t, 6, false, |l, n| { l.vec(n); }); )* } }
    lists!(Vec<A> Vec<B> Vec<Z> Box<[A]> Box<[B]> Box<[Z]> BTreeSet<A> BTreeSet<B> HashSet<A> HashSet<B> Cow<'static, [A]> Cow<'static, [B]> Cow<'static, BTreeSet<A>> Cow<'static, HashSet<B>> smallvec::SmallVec<[A; 2]> smallvec::SmallVec<[B; 4]> indexmap_v1::IndexSet<A> indexmap_v2::IndexSet<B> Vec<Pd> Box<[Pd]> Vec<Pt> Cow<'static, [Pd]> Vec<(A,)> Vec<Box<B>>);
    macro_rules! maps { ($($t:ty)*) => { $( case!(v, $t, 4, false, |l, n| { l.n(n); for _ in 0..n { l.e().e(); } }); )* } }
    maps!(BTreeMap<A, B> BTreeMap<B, A> HashMap<A, B> HashMap<B, Z> Cow<'static, BTreeMap<A, B>> Cow<'static, HashMap<A, B>> indexmap_v1::IndexMap<A, B> indexmap_v2::IndexMap<A, B> Vec<(A, B)> Vec<[B; 2]> Box<[[A; 2]]> smallvec::SmallVec<[(A, B); 1]>);
    macro_rules! arrays { ($($t:ty, $n:literal;)*) => { $( case!(v, $t, 0, false, |l, _| { l.es($n); }); )* } }
    arrays!([A; 0], 0; [A; 1], 1; [B; 2], 2; [A; 3], 3; [B; 5], 5; [Z; 4], 4; [Pd; 3], 3; [Pt; 2], 2; [[A; 2]; 3], 6; (A,), 1; (A, B), 2; (B, A, B), 3; (A, A, A, A), 4; (A, B, A, B, A), 5; (A, A, A, A, A, A), 6; (A, A, A, A, A, A, B), 7; (A, A, A, A, A, A, A, B), 8; (A, A, A, A, A, A, A, A, B), 9; (A, A, A, A, A, A, A, A, A, B), 10;
        Box<A>, 1; std::ops::Range<A>, 2; std::ops::RangeInclusive<B>, 2; S6, 4; (A, [B; 2], Box<A>), 4; [(A, B); 2], 4; [Box<B>; 3], 3;);
    case!(v, Option<A>, 1, false, |l, n| { l.raw(&[n as u8]); l.es(n); });
    case!(v, Option<[B; 2]>, 1, false, |l, n| { l.raw(&[n as u8]); l.es(2 * n); });
    case!(v, Result<(A, B), Vec<B>>, 4, false, |l, n| { if n == 0 { l.raw(&[1]).es(2); } else { l.raw(&[0]).vec(n); } });
    case!(v, Vec<Option<B>>, 4, false, |l, n| { l.n(n); for i in 0..n { if i % 2 == 0 { l.raw(&[1]).e(); } else { l.raw(&[0]); } } });
    case!(v, Vec<Vec<B>>, 4, false, |l, n| { l.n(n); for i in 0..n { l.vec(i); } });
    case!(v, Vec<Result<A, Vec<B>>>, 4, false, |l, n| { l.n(n); for i in 0..n { if i % 2 == 0 { l.raw(&[1]).e(); } else { l.raw(&[0]).vec(i); } } });
    case!(v, [Vec<B>; 3], 4, false, |l, n| { for i in 0..3 { l.vec((n + i) % 4); } });
    case!(v, [Option<A>; 3], 4, false, |l, n| { for i in 0..3 { if (n + i) % 2 == 0 { l.raw(&[1]).e(); } else { l.raw(&[0]); } } });
    case!(v, HashMap<u8, Vec<B>>, 4, false, |l, n| { l.n(n); for i in 0..n { l.raw(&[i as u8 / 2]).vec(i); } });
    case!(v, BTreeMap<u8, [A; 2]>, 4, false, |l, n| { l.n(n); for i in 0..n { l.raw(&[i as u8 / 2]).es(2); } });
    case!(v, S1, 4, false, |l, n| { l.es(2).vec(n).e(); });
    case!(v, S2, 4, false, |l, n| { l.raw(&[n as u8]).es(2 * n + 2); });
    case!(v, S3, 4, true, |l, n| { l.e().vec(n).e(); });
    case!(v, S4, 4, true, |l, n| { l.es(n + 1); });
    case!(v, S5, 3, false, |l, n| { l.raw(&[n as u8]).es(n).raw(&[1, n as u8]).es(n + 2); });
    case!(v, S7, 3, true, |l, n| { l.es(n + 1); });
    case!(v, S8<'static>, 2, false, |l, n| { l.raw(&[n as u8, 0]).es(2 * n).raw(&[n as u8, 0]).es(n).raw(b"X").e(); });
    case!(v, S9, 4, true, |l, n| { l.raw(&[7]).es(n); });
    case!(v, S10, 4, true, |l, n| { l.raw(&[7]).es(n); });
    case!(v, S11, 3, true, |l, n| { l.raw(&[7]).es(2 * n); });
    case!(v, S12<'static>, 4, true, |l, n| { l.raw(&[7]).es(n); });
    case!(v, E1, 4, false, |l, n| { match n { 0 => { l.n(0).es(2); } 4 => { l.n(2).es(2); } _ => { l.n(1).vec(n).e(); } } });
    case!(v, E2, 4, false, |l, n| { if n == 0 { l.raw(&[]); l.keys = vec![1]; l.es(3); } else { l.keys = vec![2]; l.e().vec(n); } });
    case!(v, G<A, B>, 4, false, |l, n| { l.e().vec(n).e(); });
    case!(v, G<[B; 2], (A, Option<B>)>, 3, false, |l, n| { l.es(2).n(n); for i in 0..n { l.e().raw(&[(i % 2) as u8]); if i % 2 == 1 { l.e(); } } l.es(2); });
    case!(v, Vec<S1>, 3, false, |l, n| { l.n(n); for i in 0..n { l.es(2).vec(i).e(); } });
    case!(v, Vec<E1>, 3, false, |l, n| { l.n(n); for i in 0..n { if i % 2 == 0 { l.n(0).es(2); } else { l.n(1).vec(i).e(); } } });
    v
}
/// What is wrong with it, if anything.
fn judge(s: &Seen, panics: bool, keys: &[(u8, u8)]) -> Option<String> {
    if let Some(w) = &s.wrong { return Some(w.clone()); }
    match s.result {
        None if !panics => return Some("it panics".into()),
        // Leaking is fine after a panic.
        None => {}
        Some(ok) => {
            if !ok && (s.live != 0 || s.zst != 0) { return Some(format!("{} of {} elements are not dropped after a failure", s.live + s.zst as usize, s.made)); }
            if ok && (s.after != 0 || s.after_zst != 0) { return Some(format!("{} of {} elements are never dropped", s.after + s.after_zst as usize, s.made)); }
            if s.bytes != 0 { return Some(format!("{} bytes are leaked", s.bytes)); }
        }
    }
    // Those which are copied in bulk have no identity, but their contents say which ones they are.
    let mut left = keys.to_vec();
    for p in s.prims.iter().chain(&s.after_prims) {
        match left.iter().position(|k| k == p) { Some(i) => { left.remove(i); } None => return Some(format!("an element {p:?} is dropped, which there is not, or not any more")) }
    }
    None
}
fn try_one(r: &mut Run, c: &Case, d: &[u8], from: From, mask: u64, at: u64, fault: Fault, keys: &[(u8, u8)], prim: bool, what: &str) -> Seen {
    r.case(|| format!("{} from {} via {from:?} (splits {mask:x}), {fault:?} at read {at}: {what}", c.name, hex(d)));
    r.traces += 1; r.transitions += 1;
    let s = (c.run)(r, d, from, mask, at, fault);
    let panics = what.contains("panic") || fault == Fault::Panic && s.hit;
    let m = judge(&s, panics, keys).or_else(|| if prim && !c.name.contains("Cow") && s.result == Some(true) && s.prims.len() + s.after_prims.len() != keys.len() && what == "whole" { Some(format!("{} elements are dropped instead of {}", s.prims.len() + s.after_prims.len(), keys.len())) } else { None });
    if let Some(m) = m { r.fail(&format!("{} {from:?} {what}", c.name), format!("{} from {} via {from:?} (splits {mask:x}), {fault:?} at read {at}, {what}: {m}", c.name, hex(d))); }
    s
}
fn c19(r: &mut Run) {
    let th = r.thorough;
    for c in cases() {
        let prim = c.name.contains("Pd") || c.name.contains("Pt") || c.name == "S10";
        for n in 0..=if th && c.most >= 4 && !c.name.starts_with('E') { c.most * 2 } else { c.most } {
            if !r.unit() { continue; }
            // All different, and (for the sake of sets and maps) all ways to be equal.
            let mut supplies: Vec<Vec<u8>> = vec![vec![]];
            if !prim { for k in 1..=n.min(if th { 6 } else { 5 }) { for m in 0..1u32 << k { supplies.push((0..k).map(|i| 1 + (m >> i & 1) as u8).collect()); } } }
            for keys in supplies {
                let mut l = Lay { b: vec![], at: vec![], keys, used: 0 };
                (c.lay)(&mut l, n);
                r.states += 1;
                r.see(&(c.name, &l.b));
                let have = |d: &[u8]| -> Vec<(u8, u8)> { if prim { l.at.iter().filter(|a| **a + 3 <= d.len()).map(|a| (d[*a], d[*a + 1])).collect() } else { vec![] } };
                let froms = [From::Buffer, From::Copying, From::User, From::Unbuf, From::Buf(1), From::Buf(2), From::Buf(5), From::Buf(0), From::File];
                for from in froms {
                    if matches!(from, From::Buf(c) if c != 0 && capacities(false).len() == 1) { continue; }
                    if from == From::File && n > 2 { continue; }
                    let stream = matches!(from, From::Unbuf | From::Buf(_));
                    let s = try_one(r, &c, &l.b, from, 0, 0, Fault::None, &have(&l.b), prim, "whole");
                    if s.result != Some(true) { r.fail(&format!("{} {from:?} fails", c.name), format!("{} from {} via {from:?} fails", c.name, hex(&l.b))); }
                    if from == From::File { continue; }
                    // The input ends early.
                    for cut in 0..l.b.len() { try_one(r, &c, &l.b[..cut], from, 0, 0, Fault::None, &have(&l.b[..cut]), prim, "cut"); }
                    // An element is invalid, or its reader panics; and a second one further on is, too.
                    if !prim { for (i, a) in l.at.iter().enumerate() {
                        for (what, k) in [("an invalid element", BAD), ("a panic", PANIC)] {
                            // Only an element's reader knows what this means.
                            let mut d = l.b.clone();
                            d[*a] = k;
                            try_one(r, &c, &d, from, 0, 0, Fault::None, &[], prim, what);
                            if let Some(b) = l.at.get(i + 1) { for k2 in [BAD, PANIC] { let mut d = d.clone(); d[*b] = k2; try_one(r, &c, &d, from, 0, 0, Fault::None, &[], prim, if k == BAD { "invalid elements or a panic" } else { "a panic" }); } }
                        }
                    } }
                    // The stream fails, or panics, at every call, for some ways to split it.
                    if stream { for mask in [0u64, !0, 0x9249_2492_4924_9249, 0xaaaa_aaaa_aaaa_aaaa] { for fault in [Fault::Io, Fault::Panic] { for at in 1.. {
                        let s = try_one(r, &c, &l.b, from, mask, at, fault, &have(&l.b), prim, "a failing stream");
                        if !s.hit { break; }
                        if s.result == Some(true) && !c.until_eof { r.fail(&format!("{} ignored", c.name), format!("{} from {} via {from:?}: a failure of the stream is ignored", c.name, hex(&l.b))); }
                    } } } }
                    if r.stop() { return; }
                }
                if n == 3 { r.sample(|| format!("{} from {}: cut everywhere, invalid everywhere, panicking everywhere", c.name, hex(&l.b))); }
            }
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C19", level: "fault_enumeration", run: c19, rule: "Every container of a list (about 90, of elements on and off the heap, without a size, and copied in bulk) x every number of elements up to a bound x every way in which elements may be equal x every fault: the end of the input at every byte, an invalid element or a panicking reader at every element (and another one at the next), an I/O error or a panic at every read call under four ways of splitting the stream. A ledger records the birth and death of every element, and an allocator that of every byte. State: (type, input).", assumptions: &["after a panic elements may be leaked, but never dropped twice"] }]
}
