//! C24: small but complete enumerations, to be run by an interpreter which notices undefined behaviour.
//! Usage: mem plan <other|quick|thorough> <shards> <dir>   or   mem run <file>   or   mem names
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::env::Split;
use vcore::gen::vals;
use vcore::util::*;
use vcore::*;

/// Memory is limited.
struct Small;
static CAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for Small {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > CAP.load(std::sync::atomic::Ordering::Relaxed) { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > CAP.load(std::sync::atomic::Ordering::Relaxed) { return std::ptr::null_mut(); } System.realloc(p, l, n) }
}
#[global_allocator]
static A: Small = Small;

/// Looks at every byte of a value, so that the interpreter notices those which are not there.
fn touch(v: &Val, unordered: bool) -> u64 {
    match v {
        Val::U(x) => (*x as u64) ^ ((*x >> 64) as u64),
        Val::S(x) => x.iter().fold(1u64, |a, b| a.wrapping_mul(31) ^ *b as u64),
        Val::L(x) if unordered => x.iter().fold(x.len() as u64, |a, b| a.wrapping_add(mix(touch(b, true), 1))),
        Val::L(x) => x.iter().fold(2u64, |a, b| a.wrapping_mul(33) ^ touch(b, unordered)),
        Val::E(i, x) => touch(x, unordered) ^ *i as u64,
    }
}

/// What is to be interpreted: for every type, what to write (as its encoding) and what to read.
fn plan(tier: &str, shards: usize, dir: &str) {
    // "other" and "others" are for other platforms, where the numbers which do not fit into an usize are different.
    let depth = match tier { "thorough" => 2, "quick" | "others" => 1, _ => 0 };
    let others = tier.starts_with("other");
    let thorough = depth == 2;
    DEPTH.store(depth, std::sync::atomic::Ordering::Relaxed);
    let mut out: Vec<Vec<u8>> = vec![vec![]; shards];
    let (mut types, mut cases, mut distinct) = (0u64, 0u64, 0u64);
    for (i, e) in all().iter().enumerate() {
        if e.name.contains("Regex") { continue; }
        types += 1;
        let unordered = hashes(&e.shape);
        let mut text = vec![0u8, unordered as u8, i as u8, (i >> 8) as u8];
        let mut add_case = |kind: u8, be: bool, data: &[u8]| {
            CAP.store(1 << 20, std::sync::atomic::Ordering::Relaxed);
            let d = if kind == 1 { writes(e, be, data, unordered) } else { reads(e, be, data, unordered) };
            CAP.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
            text.extend([kind, be as u8, data.len() as u8, (data.len() >> 8) as u8]);
            text.extend(data);
            text.extend(d.to_le_bytes());
        };
        let mut vs = vals(&e.shape, if thorough { 1 } else { 0 });
        let most = if thorough { 4 } else { 2 };
        if vs.len() > most { let n = vs.len(); vs = (0..most).map(|i| vs[i * (n - 1) / (most - 1)].clone()).collect(); }
        if others && e.name.contains("usize") { vs.retain(small); }
        let mut inputs: Vec<(bool, Vec<u8>)> = vec![];
        for be in BES {
            for (i, v) in vs.iter().enumerate() {
                let Ok(want) = vcore::enc(&e.shape, v, be) else { continue };
                if want.len() > if thorough { 600 } else { 160 } { continue; }
                // One byte order differs from the other only in the order of the bytes.
                let brief = !thorough && i + 1 != vs.len() || depth == 0;
                // The simplest one only once.
                if !thorough && be && i + 1 != vs.len() { continue; }
                add_case(1, be, &want); cases += ways(false).len() as u64;
                let n = want.len();
                let mut add = |x: Vec<u8>| if !inputs.contains(&(be, x.clone())) { inputs.push((be, x)); };
                for k in 0..n { if thorough && n <= 12 || depth != 0 && k + 1 == n || thorough && k == n / 2 { add(want[..k].to_vec()); } }
                for (i, x) in (0..n).flat_map(|i| [0, 1, 0x80, 0xff].map(|x| (i, x))) { if thorough && n <= 8 || !brief && x == 0xff && (i == 0 || i + 1 == n) { let mut w = want.clone(); w[i] = if others && x == 0xff { 7 } else { x }; add(w); } }
                let mut w = want.clone(); w.extend([1, 2, 3]); add(w);
            }
        }
        if others && e.name.contains("usize") {
            inputs.retain(|(be, data)| match dec(&e.shape, data, *be).val { Ok(v) => small(&v), Err(_) => true });
        }
        // Their attributes say `as usize`.
        if others && (e.name.contains("X_u64") || e.name.contains("X_varint")) { inputs.retain(|(be, data)| dec(&e.shape, data, *be).val.is_ok()); }
        // How much of a truncated field with a default is read is not specified.
        inputs.retain(|(be, data)| { let m = dec(&e.shape, data, *be); m.val != Err(DecErr::Unbacked) && !m.ambiguous && !(others && m.recovered) });
        for (be, data) in &inputs { add_case(2, *be, data); cases += ways(true).len() as u64; }
        distinct += inputs.len() as u64;
        let least = (0..shards).min_by_key(|i| out[*i].len()).unwrap();
        out[least].extend(text);
    }
    for (i, t) in out.iter().enumerate() { std::fs::write(format!("{dir}/{i}"), [&[depth as u8], &t[..]].concat()).unwrap(); }
    println!("{types} {cases} {distinct}");
}
fn small(v: &Val) -> bool { match v { Val::U(x) => *x >> 32 == 0, Val::S(_) => true, Val::L(x) => x.iter().all(small), Val::E(_, x) => small(x) } }
/// Are there any collections whose order depends on the platform, or on the run?
fn hashes(s: &Shape) -> bool {
    match s {
        Shape::Seq(_, x, k) => *k != Kind::List || hashes(x),
        Shape::Arr(_, x) | Shape::Prefix(_, x) | Shape::OnEof(x, _) | Shape::Custom(x, _) => hashes(x),
        Shape::Rec(xs) => xs.iter().any(hashes),
        Shape::Flag(a, b) => hashes(a) || hashes(b),
        Shape::Enum { vars, .. } => vars.iter().any(|x| hashes(&x.1)),
        _ => false,
    }
}
/// How much of the enumeration: 0 for other platforms, 1 for a quick one, 2 for a thorough one.
static SHOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn ways(reads: bool) -> &'static [u64] {
    match (DEPTH.load(std::sync::atomic::Ordering::Relaxed), reads) { (2, true) => &[0, 1, 2, 3, 4, 5], (2, false) => &[0, 1, 2, 3, 4], (1, true) => &[0, 1, 3, 4], (1, false) => &[0, 1, 2, 3], (_, true) => &[0, 4], (_, false) => &[0, 3] }
}

/// Carries out what the file says; says whether the same comes out.
fn run(file: &str) {
    CAP.store(1 << 20, std::sync::atomic::Ordering::Relaxed);
    NO_SHAPES.store(true, std::sync::atomic::Ordering::Relaxed);
    let text = std::fs::read(file).unwrap();
    let all = all();
    let (mut e, mut unordered, mut at) = (&all[0], false, 1);
    DEPTH.store(text[0] as usize, std::sync::atomic::Ordering::Relaxed);
    while at < text.len() {
        let (kind, flag, len) = (text[at], text[at + 1] != 0, text[at + 2] as usize | (text[at + 3] as usize) << 8);
        if kind == 0 { e = &all[len]; unordered = flag; at += 4; continue; }
        // Said before it happens, to know what it was.
        say(at, b'@');
        let data = &text[at + 4..at + 4 + len];
        let got = if kind == 1 { writes(e, flag, data, unordered) } else { reads(e, flag, data, unordered) };
        let mut want = [0; 8];
        want.copy_from_slice(&text[at + 4 + len..at + 12 + len]);
        if got != u64::from_le_bytes(want) { say(at, b'!'); }
        at += 12 + len;
    }
    println!("done");
}
fn say(mut n: usize, mark: u8) {
    let mut b = [b'0'; 10];
    for i in (1..9).rev() { b[i] = b'0' + (n % 10) as u8; n /= 10; }
    b[0] = mark;
    b[9] = b'\n';
    let _ = std::io::Write::write_all(&mut std::io::stderr(), &b);
}

/// An allocation of just that many bytes, so that whatever is read after them is noticed, aligned by 16 or not at all.
struct Exact { p: *mut u8, size: usize, off: usize }
impl Exact {
    fn layout(n: usize) -> Layout { Layout::from_size_align(n.max(1), 16).unwrap() }
    fn new(data: &[u8], off: usize) -> Self {
        let size = data.len() + off;
        unsafe {
            let p = std::alloc::alloc(Self::layout(size));
            std::ptr::write_bytes(p, 0, off);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(off), data.len());
            Exact { p, size, off }
        }
    }
    fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p.add(self.off), self.size - self.off) } }
    fn get_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.p.add(self.off), self.size - self.off) } }
}
impl Drop for Exact { fn drop(&mut self) { unsafe { std::alloc::dealloc(self.p, Self::layout(self.size)) } } }

const PANIC: u64 = 3;
fn fold(b: &[u8]) -> u64 { b.iter().fold(7 + b.len() as u64, |a, b| a.wrapping_mul(31) ^ *b as u64) }
fn mix(a: u64, b: u64) -> u64 { a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b }
fn caught(f: impl FnOnce() -> u64) -> u64 { catch_unwind(AssertUnwindSafe(f)).unwrap_or(PANIC) }

fn writes(e: &Entry, be: bool, data: &[u8], unordered: bool) -> u64 {
    let exact = Exact::new(data, 0);
    let Ok(v) = (e.dec)(Src::Buffer(exact.get()), en(be)).val else { return 0 };
    let digest = |b: &[u8]| if unordered { b.iter().fold(b.len() as u64, |a, b| a + ((*b as u64) << 8)) } else { fold(b) };
    ways(false).iter().fold(0, |all, &k| mix(all, caught(|| {
        let mut out = vec![];
        // Just as much room as it takes, or half of it.
        let mut room = Exact::new(&vec![0u8; match k { 1 => data.len(), 2 => data.len() / 2, _ => 0 }], 0);
        let mut n = 0;
        let ok = match k {
            0 => (e.enc)(&v, en(be), Sink::Vec(&mut out)).1.is_ok(),
            1 | 2 => (e.enc)(&v, en(be), Sink::Buffer(room.get_mut())).1.is_ok(),
            3 => (e.enc)(&v, en(be), Sink::Stream(&mut out)).1.is_ok(),
            _ => (e.enc)(&v, en(be), Sink::Needed(&mut n)).1.is_ok(),
        };
        mix(mix(ok as u64, n as u64), mix(digest(&out), digest(room.get())))
    })))
}

fn reads(e: &Entry, be: bool, data: &[u8], unordered: bool) -> u64 {
    ways(true).iter().fold(0, |all, &k| mix(all, caught(|| {
        let exact = Exact::new(data, (k % 2) as usize);
        let b = exact.get();
        let d = match k {
            0 | 1 => (e.dec)(Src::Buffer(b), en(be)),
            2 => (e.dec)(Src::Copying(b), en(be)),
            3 => (e.dec)(Src::Unbuf(&mut Split::new(b, 0x15, false) as &mut dyn Read), en(be)),
            4 => { set_capacity(3); let n = (e.dec)(Src::Buf(&mut Split::new(b, 0x92, false) as &mut dyn Read), en(be)); set_capacity(0); n }
            _ => { set_capacity(17); let n = (e.dec)(Src::Buf(&mut { b }), en(be)); set_capacity(0); n }
        };
        if SHOW.load(std::sync::atomic::Ordering::Relaxed) { println!("{k}: {:?} {:?}", d.val, d.used); }
        // How much of it was read before an error may depend on how much memory there is.
        match d.val { Ok(v) => mix(touch(&v, unordered), d.used.unwrap_or(0) as u64), Err(e) => { if k == 0 { std::hint::black_box(e.to_string().len()); } 5 } }
    })))
}

fn all() -> Vec<Entry> { [cat_std::all(), cat_gen0::all(), cat_gen1::all(), cat_gen2::all(), cat_gen3::all()].concat() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "plan" => { std::panic::set_hook(Box::new(|_| {})); plan(&a[2], a[3].parse().unwrap(), &a[4]) }
        "names" => for e in all() { println!("{}", e.name); },
        _ => { std::panic::set_hook(Box::new(|_| {})); SHOW.store(a[1] == "show", std::sync::atomic::Ordering::Relaxed); run(&a[2]); }
    }
}
