//! Exploration of the implementation under every behaviour of the streams below it (C04, C07, C08).
use crate::codec::*;
use std::io::ErrorKind;
use vcore::env::*;
use vcore::gen::{string_of, vals};
use vcore::inputs::encodings;
use vcore::run::{sys, Check};
use vcore::*;

/// A couple of valid encodings of the type, short ones first, and everything near to the first of them.
fn stream_inputs(e: &Entry, be: bool, valid: usize, near: bool, max: usize) -> Vec<Vec<u8>> {
    let vs = vals(&e.shape, 1);
    let mut o: Vec<Vec<u8>> = encodings(&e.shape, &vs, be).into_iter().map(|x| x.1).filter(|b| b.len() <= max).collect();
    let mut seen = std::collections::HashSet::new();
    o.retain(|b| seen.insert(b.clone()));
    o.sort_by_key(|b| (b.len() < 3, b.len()));
    o.truncate(valid);
    if near {
        let mut more = vec![];
        for b in o.iter().take(2) {
            for n in 0..b.len() { more.push(b[..n].to_vec()); }
            for i in 0..b.len() { for x in [0u8, 1, 0xff] { let mut c = b.clone(); c[i] = x; more.push(c); } }
            let mut c = b.clone(); c.extend([1, 2, 3]); more.push(c);
        }
        for b in more { if seen.insert(b.clone()) { o.push(b); } }
    }
    o
}
fn same(a: &Out, b: &Out) -> bool { match (a, b) { (Out::Val(x), Out::Val(y)) => x == y, (Out::Err(_), Out::Err(_)) => true, _ => false } }

fn disagree(r: &mut Run, e: &Entry, be: bool, data: &[u8], how: &str, got: &Out, want: &Out) {
    r.fail(&format!("{} {}", e.name, how.split(' ').next().unwrap_or("")), format!("{} ({}): {} read {how} gives {}, and from a buffer {}", e.name, ends(be), hex(data), show_out(got), show_out(want)));
}
fn c04_one(r: &mut Run, e: &Entry, be: bool, data: &[u8], file: bool) {
    let m = dec(&e.shape, data, be);
    if m.ambiguous || m.val == Err(DecErr::Unbacked) { r.count("unspecified_inputs_skipped", 1); return; }
    r.case(|| format!("read {} {} from a buffer of {}", e.name, ends(be), hex(data)));
    let (want, _) = outcome(e, decode(r, e, S::Buffer, data, be));
    if let Out::Panic(p) = &want { r.fail(&format!("{} buffer", e.name), format!("{} ({}): {}: {p}", e.name, ends(be), hex(data))); return; }
    r.see(&(be, data));
    for s in [S::Copying, S::File] {
        if s == S::File && !file { continue; }
        r.case(|| format!("read {} {} {s:?} of {}", e.name, ends(be), hex(data)));
        r.traces += 1; r.transitions += 1;
        let (got, _) = outcome(e, decode(r, e, s, data, be));
        if e.borrows { if !matches!(got, Out::Err(_)) && got != want { disagree(r, e, be, data, &format!("{s:?}, which cannot be borrowed from,"), &got, &want); } continue; }
        if !same(&got, &want) { disagree(r, e, be, data, &format!("{s:?}"), &got, &want); }
    }
    let caps: Vec<Option<usize>> = std::iter::once(None).chain(capacities(r.thorough).iter().map(|c| Some(*c))).collect();
    for cap in caps {
        let read = |rd: &mut dyn std::io::Read| { match cap { None => (e.dec)(Src::Unbuf(rd), en(be)), Some(c) => { set_capacity(c); let o = (e.dec)(Src::Buf(rd), en(be)); o } } };
        let name = || match cap { None => "unbuffered".to_string(), Some(0) => "buffered".to_string(), Some(c) => format!("buffered (capacity {c})") };
        if e.borrows {
            r.case(|| format!("read {} {} {} of {}", e.name, ends(be), name(), hex(data)));
            let mut d = data;
            let got = outcome(e, guard(|| read(&mut d))).0;
            set_capacity(0);
            r.traces += 1; r.transitions += 1;
            if !matches!(got, Out::Err(_)) && got != want { disagree(r, e, be, data, &format!("{} stream", name()), &got, &want); }
            continue;
        }
        // Every way to split the stream.
        let n = data.len();
        let full = if r.thorough { 13 } else { 8 };
        let masks: Vec<u64> = if n == 0 { vec![0] } else if n <= full { (0..1u64 << (n - 1)).collect() } else {
            // One byte at a time, evenly, and every one and every two splits.
            let k = n.min(64) - 1;
            let mut v = vec![u64::MAX, 0x5555_5555_5555_5555, 0x2492_4924_9249_2492, 0x8080_8080_8080_8080, 0];
            for i in 0..k { v.push(1 << i); v.push(u64::MAX << i); if n <= 24 || r.thorough { for j in i + 1..k { v.push(1 << i | 1 << j); } } }
            v
        };
        for mask in masks { for int in [false, true] {
            r.case(|| format!("read {} {} {} of {} split at {mask:#x}{}", e.name, ends(be), name(), hex(data), if int { ", interrupted" } else { "" }));
            let mut sp = Split::new(data, mask, int);
            let got = outcome(e, guard(|| read(&mut sp))).0;
            r.traces += 1; r.transitions += sp.calls;
            if !same(&got, &want) { set_capacity(0); disagree(r, e, be, data, &format!("{} from a stream split at {mask:#x}{}", name(), if int { " and interrupted at every other call" } else { "" }), &got, &want); }
        } }
        // Every answer depending on what is asked for, within the deviation bound.
        let bound = if n <= 5 { 3 } else if n <= 9 || (r.thorough && n <= 16) { 2 } else { 1 };
        let mut ch = Choices::new(bound);
        loop {
            r.case(|| format!("read {} {} {} of {} with answers {:?}", e.name, ends(be), name(), hex(data), ch.trace()));
            let res = guard(|| { let mut en_ = Env::new(data, &mut ch, Menu::new(Chunks::All, true, &[], usize::MAX)); let o = read(&mut en_); (o, en_.calls) });
            let (got, calls) = match res { Ok((o, c)) => (outcome(e, Ok(o)).0, c), Err(p) => (Out::Panic(p), 0) };
            r.traces += 1; r.transitions += calls;
            if !same(&got, &want) { set_capacity(0); disagree(r, e, be, data, &format!("{} from a stream which answers {:?}", name(), ch.trace()), &got, &want); }
            if r.stop() || !ch.next() { break; }
        }
        set_capacity(0);
        if r.stop() { return; }
    }
}
/// Long values of the type, of about that many bytes.
fn long_val(sh: &Shape, bytes: usize) -> Option<Val> {
    Some(match sh {
        Shape::Str(_) => Val::S(string_of(bytes)),
        Shape::Seq(_, e, Kind::List) => {
            let each = enc(e, &vals(e, 0)[0], false).ok()?.len().max(1);
            let n = (bytes + each - 1) / each;
            let pool = vals(e, 1);
            Val::L((0..n).map(|i| match &**e { Shape::Bits(b) => Val::U((i as u128).wrapping_mul(0x0101_0107) & if *b == 16 { u128::MAX } else { (1u128 << (8 * *b as u32)) - 1 }), _ => pool[i % pool.len()].clone() }).collect())
        }
        _ => return None,
    })
}
pub const LONG: [&str; 14] = ["Vec<u8>", "Vec<u16>", "Vec<u64>", "Vec<bool>", "Vec<char>", "String", "Box<str>", "Cow<'static, [u32]>", "Cow<'static, str>", "Vec<String>", "Vec<Option<u16>>", "Box<[u8]>", "Vec<[u8; 3]>", "smallvec::SmallVec<[u16; 2]>"];
fn c04(r: &mut Run) {
    for e in catalog() {
        for be in BES {
            if !r.unit() { continue; }
            let ins = stream_inputs(&e, be, if r.thorough { 12 } else { 4 }, true, if r.thorough { 60 } else { 40 });
            r.sample(|| format!("{} {}: {} inputs, such as {}, under every split and every answer within the bounds", e.name, ends(be), ins.len(), hex(ins.first().map(|x| &x[..]).unwrap_or(&[]))));
            for (i, d) in ins.iter().enumerate() { if r.stop() { break; } c04_one(r, &e, be, d, i < if r.thorough { 30 } else { 6 }); }
        }
    }
    // Around the capacity of the internal buffer.
    for e in catalog().into_iter().filter(|e| LONG.contains(&e.name)) {
        for size in [1000usize, 1020, 1024, 4092, 8180, 8184, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8196, 12288, 16380, 16384, 20000] {
            if !r.unit() { continue; }
            let Some(v) = long_val(&e.shape, size) else { continue };
            let b = enc(&e.shape, &v, false).unwrap();
            let want = Out::Val(canon(&e.shape, &v));
            for cut in [0usize, 1] {
                let b = &b[..b.len() - cut];
                for s in SOURCES {
                    r.case(|| format!("read {} {s:?} of a {} byte encoding", e.name, b.len()));
                    let got = outcome(&e, decode(r, &e, s, b, false)).0;
                    r.traces += 1; r.transitions += 1;
                    if (cut == 0 && got != want) || (cut > 0 && !matches!(got, Out::Err(_))) { disagree(r, &e, false, b, &format!("{s:?} ({} bytes)", b.len()), &got, &want); }
                }
                for chunk in [1usize, 2, 3, 7, 100, 1023, 1024, 1025, 4096, 5000, 8191, 8192, 8193, 16384, usize::MAX] { for first in [0usize, 1, 4, 5] { for buffered in [false, true] {
                    r.case(|| format!("read {} of a {} byte encoding in chunks of {chunk} after one of {first}, buffered: {buffered}", e.name, b.len()));
                    let mut a = First(&b[..first.min(b.len())], Chunked(&b[first.min(b.len())..], chunk));
                    let got = outcome(&e, guard(|| if buffered { (e.dec)(Src::Buf(&mut a), en(false)) } else { (e.dec)(Src::Unbuf(&mut a), en(false)) })).0;
                    r.traces += 1; r.transitions += 1;
                    r.see(&(cut, chunk, first, buffered));
                    if (cut == 0 && got != want) || (cut > 0 && !matches!(got, Out::Err(_))) { disagree(r, &e, false, b, &format!("{} in chunks of {chunk} ({} bytes)", if buffered { "buffered" } else { "unbuffered" }, b.len()), &got, &want); }
                } } }
            }
        }
    }
    crate::big::big(r, crate::big::What { chunks: true, ..Default::default() });
}
struct First<'a>(&'a [u8], Chunked<'a>);
impl std::io::Read for First<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return self.1.read(out); }
        std::io::Read::read(&mut self.0, out)
    }
}

const KINDS: [ErrorKind; 11] = [ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::ConnectionReset, ErrorKind::OutOfMemory];
fn c07_one(r: &mut Run, e: &Entry, be: bool, data: &[u8], cap: Option<usize>, base: usize, bound: u32) {
    let plain = dec(&e.shape, data, be);
    if plain.ambiguous || plain.val == Err(DecErr::Unbacked) { return; }
    let name = || match cap { None => "unbuffered".to_string(), Some(c) => format!("buffered (capacity {c})") };
    let kinds: &[ErrorKind] = &KINDS;
    let mut ch = Choices::new(bound);
    loop {
        r.case(|| format!("read {} {} {} of {} (default chunks of {base}) with answers {:?}", e.name, ends(be), name(), hex(data), ch.trace()));
        let res = guard(|| {
            let mut en_ = Env::new(data, &mut ch, Menu::new(Chunks::Whole, true, kinds, base));
            if let Some(c) = cap { set_capacity(c); }
            let o = match cap { None => (e.dec)(Src::Unbuf(&mut en_), en(be)), _ => (e.dec)(Src::Buf(&mut en_), en(be)) };
            (o, en_.delivered, en_.pos, en_.calls)
        });
        set_capacity(0);
        let (got, delivered, pos, calls) = match res { Ok((o, d, p, c)) => (outcome(e, Ok(o)).0, d, p, c), Err(p) => (Out::Panic(p), None, 0, 0) };
        r.transitions += calls; r.traces += 1;
        if delivered.is_some() { r.count("faults_delivered", 1); }
        let what = match delivered {
            Some(ErrorKind::UnexpectedEof) => {
                // The same as a stream which ends there.
                let m = dec(&e.shape, &data[..pos], be);
                if m.ambiguous { None } else {
                    match (&m.val, &got) {
                        (Ok(v), Out::Val(g)) if canon(&e.shape, v) == *g => None,
                        (Err(DecErr::Eof), Out::Err(c)) if c.is_end() => None,
                        (Err(DecErr::Bad), Out::Err(_)) => None,
                        _ => Some(format!("and should give what ending there gives: {:?}", m.val)),
                    }
                }
            }
            Some(k) => if got == Out::Err(Cls::Io(k)) { None } else { Some(format!("and should give the error {k:?}")) },
            None => match (&plain.val, &got) {
                (Ok(v), Out::Val(g)) if canon(&e.shape, v) == *g => None,
                (Err(_), Out::Err(_)) => None,
                _ => Some(format!("and should give {:?}", plain.val)),
            },
        };
        if let Some(w) = what { r.fail(&format!("{} {} {delivered:?}", e.name, cap.is_some()), format!("{} ({}): {} read {} (chunks of {base}) while the stream answers {:?} (delivering {delivered:?} after {pos} bytes) gives {}, {w}", e.name, ends(be), hex(data), name(), ch.trace(), show_out(&got))); }
        if r.stop() || !ch.next() { return; }
    }
}
fn c07(r: &mut Run) {
    for e in catalog() {
        if e.borrows { continue; }
        for be in BES {
            if !r.unit() { continue; }
            let ins = stream_inputs(&e, be, if r.thorough { 16 } else { 8 }, false, 60);
            for (i, data) in ins.iter().enumerate() {
                // Also when the stream goes on after the value.
                for tail in [0usize, 2] {
                    if tail > 0 && (recovers_eof(&e.shape) || i > 2) { continue; }
                    let mut data = data.clone();
                    data.extend_from_slice(&[1, 2][..tail]);
                    r.see(&(be, &data));
                    for &base in &[usize::MAX, 1, 3][..if data.len() <= 40 || r.thorough { 3 } else { 2 }] {
                        let bound = if data.len() <= if r.thorough { 24 } else { 12 } { 2 } else { 1 };
                        c07_one(r, &e, be, &data, None, base, bound);
                        for &c in if r.thorough { &[0usize, 1, 2, 3, 5, 8][..] } else { &[0, 2, 5] } { if r.stop() { return; } if c == 0 || cfg!(speedy_verif) { c07_one(r, &e, be, &data, Some(c), base, bound); } }
                    }
                }
            }
            r.sample(|| format!("{} {}: a fault at every Read call of {} values such as {}", e.name, ends(be), ins.len(), hex(ins.first().map(|x| &x[..]).unwrap_or(&[]))));
        }
    }
}

fn c08_one(r: &mut Run, e: &Entry, be: bool, v: &Val, want: &[u8], base: usize, bound: u32, chunks: Chunks) {
    let kinds: &[ErrorKind] = &[ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::WriteZero];
    let mut ch = Choices::new(bound);
    loop {
        r.case(|| format!("write {} {} {} to a stream (taking at most {base} bytes) with answers {:?}", e.name, show(v), ends(be), ch.trace()));
        let res = guard(|| {
            let mut w = SinkEnv::new(&mut ch, Menu::new(chunks, true, kinds, base));
            w.zero = true;
            w.flush_errors = true;
            let (_, x) = (e.enc)(v, en(be), Sink::Stream(&mut w));
            (x.map_err(|x| classify(&x)), w.got, w.delivered, w.zeroed, w.calls)
        });
        r.traces += 1;
        let bad = match res {
            Err(p) => Some(p),
            Ok((res, got, delivered, zeroed, calls)) => {
                r.transitions += calls;
                if delivered.is_some() || zeroed { r.count("faults_delivered", 1); }
                let expect = match (delivered, zeroed) { (Some(k), false) => Err(Cls::Io(k)), (None, true) => Err(Cls::Io(ErrorKind::WriteZero)), (None, false) => Ok(()), _ => Err(Cls::Other) };
                let right = match (&res, &expect) { (Ok(()), Ok(())) => got == want, (Err(a), Err(b)) => (a == b || *b == Cls::Other) && want.starts_with(&got), _ => false };
                if right { None } else { Some(format!("{res:?} with {} in the sink, and should be {expect:?}", hex(&got))) }
            }
        };
        if let Some(b) = bad { r.fail(&format!("{} stream", e.name), format!("{} ({}): writing {} ({}) to a stream (taking at most {base} bytes at once) which answers {:?} gives {b}", e.name, ends(be), show(v), hex(want), ch.trace())); }
        if r.stop() || !ch.next() { return; }
    }
}
fn c08_file(r: &mut Run, e: &Entry, be: bool, v: &Val, want: &[u8], limits: &[usize]) {
    let p = r.dir.join("lim");
    for &limit in limits {
        r.case(|| format!("write {} {} {} ({} bytes) to a file limited to {limit} bytes", e.name, show(v), ends(be), want.len()));
        let _ = std::fs::remove_file(&p);
        let old = sys::soft_limit(sys::RLIMIT_FSIZE);
        sys::limit(sys::RLIMIT_FSIZE, limit as u64);
        let res = guard(|| (e.enc)(v, en(be), Sink::File(&p)).1.map_err(|x| classify(&x)));
        sys::limit(sys::RLIMIT_FSIZE, old);
        r.traces += 1; r.transitions += 1;
        let got = std::fs::read(&p).unwrap_or_default();
        let fits = limit >= want.len();
        if !fits { r.count("faults_delivered", 1); }
        let ok = match &res { Ok(Ok(())) => fits && got == want, Ok(Err(c)) => !fits && *c == Cls::Io(ErrorKind::FileTooLarge) && want.starts_with(&got), Err(_) => false };
        if !ok { r.fail(&format!("{} file", e.name), format!("{} ({}): writing {} ({} bytes) to a file which cannot have more than {limit} bytes gives {res:?} and the contents {}", e.name, ends(be), show(v), want.len(), hex(&got))); }
    }
    // A device which is full.
    r.case(|| format!("write {} {} {} to /dev/full", e.name, show(v), ends(be)));
    let res = guard(|| (e.enc)(v, en(be), Sink::File(std::path::Path::new("/dev/full"))).1.map_err(|x| classify(&x)));
    r.traces += 1; r.transitions += 1;
    let ok = match &res { Ok(Ok(())) => want.is_empty(), Ok(Err(c)) => !want.is_empty() && *c == Cls::Io(ErrorKind::StorageFull), Err(_) => false };
    if !ok { r.fail(&format!("{} /dev/full", e.name), format!("{} ({}): writing {} ({}) to a full device gives {res:?}", e.name, ends(be), show(v), hex(want))); }
}
fn c08(r: &mut Run) {
    for e in catalog() {
        if shuffled(&e) { continue; }
        for be in BES {
            if !r.unit() { continue; }
            let vs = vals(&e.shape, 1);
            let mut done = 0;
            let mut seen = std::collections::HashSet::new();
            for v in &vs {
                if r.stop() { break; }
                r.case(|| format!("write {} {} {}", e.name, show(v), ends(be)));
                // What is written when nothing fails; other checks compare it with the reference.
                let mut want = vec![];
                let Ok((_, res)) = guard(|| (e.enc)(v, en(be), Sink::Vec(&mut want))) else { continue };
                if res.is_err() || !seen.insert(want.clone()) { continue; }
                done += 1;
                if done > if r.thorough { 40 } else { 12 } { break; }
                r.see(&(be, &want));
                for base in [usize::MAX, 1, 3] {
                    let bound = if want.len() <= if r.thorough { 16 } else { 8 } { 2 } else { 1 };
                    c08_one(r, &e, be, v, &want, base, bound, if want.len() <= 12 { Chunks::All } else { Chunks::Few });
                }
                if done <= if r.thorough { 8 } else { 2 } {
                    let l = want.len();
                    let limits: Vec<usize> = if l <= 40 { (0..=l + 1).collect() } else { vec![0, 1, 2, l / 2, l - 1, l, l + 1] };
                    c08_file(r, &e, be, v, &want, &limits);
                }
            }
            r.sample(|| format!("{} {}: {done} values, a fault at every write and every file size limit", e.name, ends(be)));
        }
    }
    // Larger than the buffer of write_to_file.
    for e in catalog().into_iter().filter(|e| LONG.contains(&e.name)) {
        for size in [8000usize, 8184, 8188, 8192, 8196, 16384, 20000] {
            if !r.unit() { continue; }
            let Some(v) = long_val(&e.shape, size) else { continue };
            let want = enc(&e.shape, &v, false).unwrap();
            let l = want.len();
            let mut limits = vec![0, 1, 3, 4, 5, 4096, 8191, 8192, 8193, l - 1, l, l + 1];
            if r.thorough { limits.extend((0..l).step_by(97)); }
            c08_file(r, &e, false, &v, &want, &limits);
            // Only where there are few writes: the faults are at every one of them.
            struct Calls(u64);
            impl std::io::Write for Calls { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += 1; Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
            let mut calls = Calls(0);
            let _ = guard(|| (e.enc)(&v, en(false), Sink::Stream(&mut calls)).1.is_ok());
            if calls.0 <= 40 { c08_one(r, &e, false, &v, &want, 5000, 1, Chunks::Few); }
            r.see(&(e.name, size));
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C04", level: "model_checking", run: c04, rule: "For every catalogued type, byte order and enumerated input (valid encodings, their truncations and corruptions): every split of the stream for short inputs and all pairs of splits for longer ones, with and without interruptions, and every sequence of answers (any chunk size, Interrupted) within the deviation bound, unbuffered and through internal buffers of several capacities; compared with reading from a buffer. State: (byte order, input); transition: one answer of the stream; trace: one complete read.", assumptions: &["streams answer with any chunk or Interrupted; more deviations than the bound from the default answer are only explored for uniform splits"] },
        Check { id: "C07", level: "fault_enumeration", run: c07, rule: "A fault of every kind at every Read call, for default chunks of everything, 1 and 3 bytes, for every catalogued type and several values with and without data following, unbuffered and buffered with several capacities; two deviations (faults and Interrupted) for short ones; distinct: (type, byte order, input).", assumptions: &["the reference model in harness/core/src/val.rs"] },
        Check { id: "C08", level: "fault_enumeration", run: c08, rule: "An error, a zero-length write, Interrupted or a short write at every write call, for sinks taking everything, 1 and 3 bytes at once, of every enumerated value of every catalogued type (two deviations for short ones), files limited to every size (RLIMIT_FSIZE) and a full device; distinct: (type, byte order, encoding).", assumptions: &[] },
    ]
}
