//! Checks which compare the implementation with the reference model of the format, over
//! exhaustive enumerations of values and of inputs (C01, C02, C03, C05, C06, C10, C11).
use speedy::Endianness;
use std::sync::atomic::Ordering::Relaxed;
use vcore::gen::vals;
use vcore::inputs::*;
use vcore::run::Check;
pub use vcore::util::*;
use vcore::*;

pub fn catalog() -> Vec<Entry> { [cat_std::all(), cat_gen0::all(), cat_gen1::all(), cat_gen2::all(), cat_gen3::all()].concat() }
/// Is the iteration order of something in there different in every execution?
pub fn shuffled(e: &Entry) -> bool { e.group.ends_with('*') || (e.name.contains("Hash") && !e.name.contains("Det")) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S { Buffer, Copying, Unbuf, Buf, File }
pub const SOURCES: [S; 5] = [S::Buffer, S::Copying, S::Unbuf, S::Buf, S::File];

/// Reads `data` from the given kind of source, with a plain environment.
pub fn decode(r: &Run, e: &Entry, s: S, data: &[u8], be: bool) -> Result<DecOut, String> {
    match s {
        S::Buffer => guard(|| (e.dec)(Src::Buffer(data), en(be))),
        S::Copying => guard(|| (e.dec)(Src::Copying(data), en(be))),
        S::Unbuf => guard(|| { let mut d = data; (e.dec)(Src::Unbuf(&mut d), en(be)) }),
        S::Buf => guard(|| { let mut d = data; (e.dec)(Src::Buf(&mut d), en(be)) }),
        S::File => { let p = r.dir.join("in"); std::fs::write(&p, data).unwrap(); guard(|| (e.dec)(Src::File(&p), en(be))) }
    }
}
/// The outcome in a comparable form.
#[derive(Clone, PartialEq, Debug)]
pub enum Out { Val(Val), Err(Cls), Panic(String) }
pub fn outcome(e: &Entry, r: Result<DecOut, String>) -> (Out, Option<usize>) {
    match r {
        Err(p) => (Out::Panic(p), None),
        Ok(d) => match d.val { Ok(v) => (Out::Val(canon(&e.shape, &v)), d.used), Err(x) => (Out::Err(classify(&x)), d.used) },
    }
}
pub fn show_out(o: &Out) -> String { match o { Out::Val(v) => show(v), Out::Err(c) => format!("error {c:?}"), Out::Panic(p) => p.clone() } }

/// Does the type, or anything in it, borrow? Then only `S::Buffer` can work.
pub fn applicable(e: &Entry, s: S) -> bool { !e.borrows || s == S::Buffer }

/// Writes into a `Vec`; the encoding of the reference comes with it.
pub fn write_vec(r: &mut Run, e: &Entry, v: &Val, be: bool) -> Option<(Val, Result<Vec<u8>, Cls>, Result<Vec<u8>, EncErr>)> {
    r.case(|| format!("write {} {} {}", e.name, show(v), ends(be)));
    let mut out = vec![];
    match guard(|| (e.enc)(v, en(be), Sink::Vec(&mut out))) {
        Err(p) => { r.fail(&format!("{} write panic", e.name), format!("writing {} as {} ({}) {p}", show(v), e.name, ends(be))); None }
        Ok((order, res)) => { let m = enc(&e.shape, &order, be); Some((order, res.map(|_| out).map_err(|x| classify(&x)), m)) }
    }
}

pub fn c01_type(r: &mut Run, e: &Entry, level: u8, offs: &[usize]) {
    let mut scratch = Scratch::default();
    let mut last = (0, false);
    for (i, v) in vals(&e.shape, level).iter().enumerate() {
        for be in BES {
            let Some((order, res, _)) = write_vec(r, e, v, be) else { continue };
            r.transitions += 1;
            let Ok(bytes) = res else { r.count("refused_writes", 1); continue };
            let want = canon(&e.shape, &reread(&e.shape, &order));
            r.see(&(be, &want));
            for s in SOURCES {
                if !applicable(e, s) { continue; }
                // A file costs a lot more than anything else; a couple of values of every type will do.
                if s == S::File && i >= if r.thorough { 60 } else { 6 } { continue; }
                let offs: &[usize] = if matches!(s, S::Buffer | S::Copying) { offs } else { &[0] };
                for &off in offs {
                    if off != 0 && s == S::Copying && off != 1 { continue; }
                    r.case(|| format!("read {} {} {s:?} of {} at offset {off}", e.name, ends(be), hex(&bytes)));
                    let data = scratch.place(off, &bytes);
                    let (got, _) = outcome(e, decode(r, e, s, data, be));
                    r.transitions += 1;
                    r.traces += 1;
                    if got != Out::Val(want.clone()) {
                        r.fail(&format!("{} {s:?}", e.name), format!("{} ({}): {} was written as {}, which reads back from {s:?} (offset {off}) as {}", e.name, ends(be), show(v), hex(&bytes), show_out(&got)));
                    }
                }
            }
            if (i, be) != last && i == 2 { r.sample(|| format!("{} {}: {} -> {} -> equal from all sources", e.name, ends(be), show(v), hex(&bytes))); }
            last = (i, be);
        }
        if r.stop() { return; }
    }
}
fn c01(r: &mut Run) {
    let level = if r.thorough { 3 } else { 2 };
    for e in catalog() {
        if !r.unit() { continue; }
        let offs: &[usize] = if e.borrows && e.shape_is_wide() { &[0] } else if r.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 1, 2, 4] };
        c01_type(r, &e, level, offs);
    }
    crate::big::big(r, crate::big::What { sources: true, ..Default::default() });
}

pub fn c02_type(r: &mut Run, e: &Entry, level: u8) {
    for (i, v) in vals(&e.shape, level).iter().enumerate() {
        for be in BES {
            let Some((order, res, want)) = write_vec(r, e, v, be) else { continue };
            r.see(&(be, &order));
            r.transitions += 1;
            r.traces += 1;
            if res.clone().ok() != want.clone().ok() {
                r.fail(e.name, format!("{} ({}): {} is written as {:?}, and should be {:?}", e.name, ends(be), show(v), res.map(|b| hex(&b)), want.map(|b| hex(&b))));
            } else if i == 1 && be { r.sample(|| format!("{} {}: {} -> {:?}", e.name, ends(be), show(v), want.map(|b| hex(&b)))); }
        }
        if r.stop() { return; }
    }
}
fn c02(r: &mut Run) {
    let level = if r.thorough { 3 } else { 2 };
    for e in catalog() { if r.unit() { c02_type(r, &e, level); } }
    crate::big::big(r, crate::big::What { sinks: true, ..Default::default() });
}

/// Compares decoding one input with the reference.
pub fn dec_one(r: &mut Run, e: &Entry, scratch: &mut Scratch, off: usize, s: S, be: bool, data: &[u8], m: &Dec) {
    r.case(|| format!("read {} {} {s:?} at offset {off} of {}", e.name, ends(be), hex(data)));
    r.traces += 1;
    r.transitions += 1 + m.used as u64;
    let placed = scratch.place(off, data);
    let (got, used) = outcome(e, decode(r, e, s, placed, be));
    // However reading ends, it cannot have consumed more than there is.
    if used.map_or(false, |u| u > data.len()) { r.fail(&format!("{} length", e.name), format!("{} ({}): {} read from {s:?} gives {} and a length of {used:?}", e.name, ends(be), hex(data), show_out(&got))); }
    let ok = match (&got, &m.val) {
        (Out::Val(a), Ok(b)) => a == b || *a == canon(&e.shape, b),
        (Out::Err(_), Err(_)) => true,
        _ => false,
    };
    if !ok {
        let want = match &m.val { Ok(v) => show(v), Err(x) => format!("an error ({x:?})") };
        r.fail(&format!("{} {}", e.name, ends(be)), format!("{} ({}): {} read from {s:?} (offset {off}) gives {}, and should be {want}", e.name, ends(be), hex(data), show_out(&got)));
    }
}
/// Every input of the C03 enumeration of a type.
pub fn each_input(e: &Entry, be: bool, thorough: bool, f: &mut dyn FnMut(&[u8])) {
    let vs = vals(&e.shape, if thorough { 2 } else { 1 });
    let mut done = std::collections::HashSet::new();
    for (_, b) in encodings(&e.shape, &vs, be) {
        if b.len() > if thorough { 120 } else { 48 } || !done.insert(b.clone()) { continue; }
        if done.len() > if thorough { 400 } else { 60 } { break; }
        let subst: &[u8] = if thorough { &ALL } else { &SUBST };
        ball(&b, subst, f);
        if thorough && b.len() <= 12 && done.len() <= 40 { ball2(&b, &[0, 1, 2, 3, 0x7f, 0x80, 0xc3, 0xff], f); }
    }
}
pub fn each_string(thorough: bool, f: &mut dyn FnMut(&[u8])) {
    strings(&ALL, 2, f);
    if thorough {
        for n in 3..=7 { strings_of(&[0, 1, 2, 3, 0x7f, 0x80, 0xff], n, f); }
        for n in 8..=12 { strings_of(&[0, 1, 0xff], n, f); }
    } else {
        for n in 3..=5 { strings_of(&[0, 1, 2, 0x80, 0xff], n, f); }
        for n in 6..=9 { strings_of(&[0, 1, 0xff], n, f); }
    }
}
pub fn c03_type(r: &mut Run, e: &Entry, be: bool) {
    let mut scratch = Scratch::default();
    let th = r.thorough;
    let mut good = 0u64;
    let mut one = |r: &mut Run, data: &[u8], fresh: bool| {
        if r.stop() { return; }
        let m = dec(&e.shape, data, be);
        if m.ambiguous || m.val == Err(DecErr::Unbacked) { r.count("unspecified_inputs_skipped", 1); return; }
        if fresh { r.see(&data); } else { r.states += 1; r.distinct += 1; }
        if m.val.is_ok() { good += 1; if good == 5 { r.sample(|| format!("{} {}: {} -> {}", e.name, ends(be), hex(data), show(m.val.as_ref().unwrap()))); } }
        dec_one(r, e, &mut scratch, if e.borrows { 0 } else { 1 }, S::Buffer, be, data, &m);
    };
    each_string(th, &mut |d| one(r, d, false));
    each_input(e, be, th, &mut |d| if d.len() > 2 { one(r, d, true) });
    r.count("accepted_inputs", good);
}
fn c03(r: &mut Run) {
    for e in catalog() { for be in BES { if r.unit() { c03_type(r, &e, be); } } }
    crate::big::big(r, crate::big::What { sources: true, ..Default::default() });
}

fn c05(r: &mut Run) {
    let level = if r.thorough { 3 } else { 2 };
    for e in catalog() {
        if !r.unit() { continue; }
        let vs = vals(&e.shape, level);
        let mut first = true;
        for be in BES { for (i, b) in encodings(&e.shape, &vs, be) {
            if r.stop() { break; }
            let pattern: Vec<u8> = (0..300u32).map(|x| (x * 37 + 1) as u8).collect();
            let tails: [Vec<u8>; 10] = [vec![], vec![0], vec![1, 2], vec![0xff; 5], b.clone(), vec![0; 40], pattern[..8].to_vec(), pattern[..17].to_vec(), vec![0xff; 33], pattern];
            let alone = dec(&e.shape, &b, be);
            for t in &tails {
                let mut data = b.clone();
                data.extend_from_slice(t);
                let m = dec(&e.shape, &data, be);
                // The lengths of types which consume everything depend on what follows.
                let eats = recovers_eof(&e.shape);
                if m.ambiguous || (eats && m.val.is_err()) { continue; }
                if !eats { assert!(m.used == b.len() && m.val == alone.val, "harness: the reference over-reads {}", e.name); }
                let want = m.val.clone().unwrap();
                let want = canon(&e.shape, &want);
                r.see(&(be, &data));
                for s in [S::Buffer, S::Copying] {
                    if !applicable(&e, s) { continue; }
                    r.case(|| format!("read {} {} {s:?} of {}", e.name, ends(be), hex(&data)));
                    r.traces += 1; r.transitions += 1;
                    let (got, used) = outcome(&e, decode(r, &e, s, &data, be));
                    // Incomplete trailing elements may be counted or not.
                    let exact = used.map_or(false, |u| u >= m.at && u <= m.used);
                    if got != Out::Val(want.clone()) || !exact {
                        r.fail(&format!("{} {s:?}", e.name), format!("{} ({}): {} followed by {} read from {s:?} gives {} and a length of {used:?}, and should give {} and {}", e.name, ends(be), hex(&b), hex(t), show_out(&got), show(&want), m.used));
                    }
                }
                if e.borrows { continue; }
                // Exactly the bytes of the value are taken from an unbuffered stream, whatever its chunks.
                let mut ch = env::Choices::new(if data.len() <= 8 { 2 } else { 1 });
                loop {
                    let menu = env::Menu::new(env::Chunks::All, false, &[], usize::MAX);
                    r.case(|| format!("read {} {} unbuffered of {} with chunks {:?}", e.name, ends(be), hex(&data), ch.trace()));
                    let res = guard(|| { let mut en_ = env::Env::new(&data, &mut ch, menu); let o = (e.dec)(Src::Unbuf(&mut en_), en(be)); (o, en_.pos, en_.calls) });
                    r.traces += 1;
                    let (got, pos, calls) = match res { Ok((o, p, c)) => (outcome(&e, Ok(o)).0, p, c), Err(p) => (Out::Panic(p), 0, 0) };
                    r.transitions += calls;
                    if got != Out::Val(want.clone()) || (pos != m.used && !m.recovered) {
                        r.fail(&format!("{} unbuffered", e.name), format!("{} ({}): {} followed by {} read from an unbuffered stream (answers {:?}) gives {} and takes {pos} bytes, and should give {} and take {}", e.name, ends(be), hex(&b), hex(t), ch.trace(), show_out(&got), show(&want), m.used));
                    }
                    if i > 3 && !r.thorough { break; }
                    if !ch.next() { break; }
                }
            }
            // Values written back to back are read back in order from one stream.
            if !e.borrows && !recovers_eof(&e.shape) {
                let others: Vec<Vec<u8>> = encodings(&e.shape, &vs[..vs.len().min(3)], be).into_iter().map(|x| x.1).collect();
                let mut data = b.clone();
                for o in &others { data.extend_from_slice(o); }
                data.extend_from_slice(&b);
                let mut rest = &data[..];
                let mut list = vec![&b]; list.extend(others.iter()); list.push(&b);
                for (k, part) in list.iter().enumerate() {
                    r.case(|| format!("read {} {} number {k} from one stream of {}", e.name, ends(be), hex(&data)));
                    r.traces += 1; r.transitions += 1;
                    let want = canon(&e.shape, &dec(&e.shape, part, be).val.unwrap());
                    let (got, _) = outcome(&e, guard(|| (e.dec)(Src::Unbuf(&mut rest), en(be))));
                    if got != Out::Val(want.clone()) { r.fail(&format!("{} back to back", e.name), format!("{} ({}): value {k} of the values {} in one stream is read as {}, and should be {}", e.name, ends(be), hex(&data), show_out(&got), show(&want))); break; }
                }
                if !rest.is_empty() && !r.stop() { r.fail(&format!("{} back to back", e.name), format!("{} ({}): {} bytes are left over of {}", e.name, ends(be), rest.len(), hex(&data))); }
            }
            if first { first = false; r.sample(|| format!("{} {}: {} with 10 tails, from buffers and chunked streams", e.name, ends(be), hex(&b))); }
        } }
    }
    crate::big::big(r, crate::big::What { sources: true, ..Default::default() });
}
/// Types whose reading goes on until the end of the input.
pub fn recovers_eof(sh: &Shape) -> bool { any(sh, &mut |s| matches!(s, Shape::Str(Len::Eof) | Shape::Seq(Len::Eof, ..))) }

pub fn c06_type(r: &mut Run, e: &Entry, level: u8) {
    const CANARY: [u8; 2] = [0xa5, 0x5a];
    for (i, v) in vals(&e.shape, level).iter().enumerate() {
        for be in BES {
            if r.stop() { return; }
            let Some((order0, res0, _)) = write_vec(r, e, v, be) else { continue };
            r.see(&(be, &order0));
            // Hash tables are iterated in another order every time, so those are compared through the reference.
            let expect = |order: &Val| -> Result<Vec<u8>, ()> { if *order == order0 { res0.clone().map_err(|_| ()) } else { enc(&e.shape, order, be).map_err(|_| ()) } };
            let what = |sink: &str| format!("{} ({}): writing {} to {sink}", e.name, ends(be), show(v));
            let len = res0.as_ref().map(|b| b.len());
            // The size.
            r.case(|| what("bytes_needed"));
            let mut n = usize::MAX;
            r.transitions += 1;
            match guard(|| (e.enc)(v, en(be), Sink::Needed(&mut n))) {
                Err(p) => r.fail(&format!("{} bytes_needed", e.name), format!("{}: bytes_needed: {p}", what("a vector"))),
                Ok((_, Ok(()))) => if let Ok(l) = len { if n != l { r.fail(&format!("{} bytes_needed", e.name), format!("{}: {l} bytes are written, and bytes_needed is {n}", what("a vector"))); } },
                Ok((_, Err(x))) => if len.is_ok() { r.fail(&format!("{} bytes_needed", e.name), format!("{} works, and bytes_needed fails with {x}", what("a vector"))); },
            }
            // Buffers of every size around it.
            let l = len.clone().unwrap_or(n.min(64));
            let sizes: Vec<usize> = if l <= 24 || r.thorough { (0..=l + 3).collect() } else { let mut s: Vec<usize> = (0..6).collect(); s.extend(l - 6..=l + 3); s };
            for size in sizes.into_iter().chain([l + 8, l + 9, l + 16, l + 40, l + 300]) { for c in CANARY {
                r.case(|| what(&format!("a buffer of {size} bytes")));
                r.transitions += 1; r.traces += 1;
                let mut buf = vec![c; size + 16];
                let res = guard(|| (e.enc)(v, en(be), Sink::Buffer(&mut buf[8..8 + size])));
                let (ok, order) = match res {
                    Err(p) => { r.fail(&format!("{} buffer", e.name), format!("{}: {p}", what(&format!("a buffer of {size} bytes")))); continue; }
                    Ok((o, x)) => (x.is_ok(), o),
                };
                let want = expect(&order);
                let fits = want.as_ref().map_or(false, |b| b.len() <= size);
                if ok != fits { r.fail(&format!("{} buffer", e.name), format!("{} which takes {:?} bytes {}", what(&format!("a buffer of {size} bytes")), want.as_ref().map(|b| b.len()), if ok { "succeeds" } else { "fails" })); continue; }
                if ok && buf[8..8 + l] != want.clone().unwrap()[..] { r.fail(&format!("{} buffer", e.name), format!("{} gives {}, and to a vector {}", what("a buffer"), hex(&buf[8..8 + l]), hex(&want.clone().unwrap()))); }
                let past = if ok { 8 + l } else { 8 + size };
                if buf[..8].iter().chain(&buf[past..]).any(|x| *x != c) { r.fail(&format!("{} buffer", e.name), format!("{} touches bytes outside of the encoding", what(&format!("a buffer of {size} bytes")))); }
            } }
            // Streams with short writes.
            let mut ch = env::Choices::new(if l <= 8 { 2 } else { 1 });
            loop {
                let menu = env::Menu::new(env::Chunks::All, false, &[], usize::MAX);
                r.case(|| what(&format!("a stream with short writes {:?}", ch.trace())));
                let res = guard(|| { let mut w = env::SinkEnv::new(&mut ch, menu); let (o, x) = (e.enc)(v, en(be), Sink::Stream(&mut w)); (o, x.is_ok(), w.got, w.calls) });
                r.traces += 1;
                match res {
                    Err(p) => r.fail(&format!("{} stream", e.name), format!("{}: {p}", what("a stream"))),
                    Ok((o, ok, got, calls)) => {
                        r.transitions += calls;
                        let want = expect(&o);
                        if ok != want.is_ok() || (ok && want != Ok(got.clone())) { r.fail(&format!("{} stream", e.name), format!("{} (answers {:?}) gives {} ({}), and to a vector {:?}", what("a stream"), ch.trace(), hex(&got), if ok { "ok" } else { "an error" }, want.map(|b| hex(&b)))); }
                    }
                }
                if (i > 2 && !r.thorough) || shuffled(e) || !ch.next() { break; }
            }
            // Files.
            if i < if r.thorough { 40 } else { 4 } {
                let p = r.dir.join("out");
                let _ = std::fs::write(&p, b"old contents which are longer than most of the values");
                r.case(|| what("a file"));
                r.traces += 1; r.transitions += 1;
                match guard(|| (e.enc)(v, en(be), Sink::File(&p))) {
                    Err(x) => r.fail(&format!("{} file", e.name), format!("{}: {x}", what("a file"))),
                    Ok((o, x)) => {
                        let want = expect(&o);
                        let got = std::fs::read(&p).unwrap();
                        if x.is_ok() != want.is_ok() || (x.is_ok() && want != Ok(got.clone())) { r.fail(&format!("{} file", e.name), format!("{} gives {} ({}), and to a vector {:?}", what("a file"), hex(&got), if x.is_ok() { "ok" } else { "an error" }, want.map(|b| hex(&b)))); }
                    }
                }
            }
            if i == 1 { r.sample(|| format!("{} {}: {} -> {:?} to vectors, buffers of every size, chunked streams and files", e.name, ends(be), show(v), res0.as_ref().map(|b| hex(b)))); }
        }
    }
}
fn c06(r: &mut Run) {
    let level = if r.thorough { 3 } else { 2 };
    for e in catalog() { if r.unit() { c06_type(r, &e, level); } }
    crate::big::big(r, crate::big::What { sinks: true, ..Default::default() });
}

fn c10(r: &mut Run) {
    let level = if r.thorough { 3 } else { 2 };
    for e in catalog() {
        if recovers(&e.shape) || !r.unit() { continue; }
        let vs = vals(&e.shape, level);
        let mut seen = std::collections::HashSet::new();
        for be in BES { for (i, b) in encodings(&e.shape, &vs, be) {
            if !seen.insert((be, b.clone())) { continue; }
            let cuts: Vec<usize> = if b.len() <= 64 || r.thorough { (0..b.len()).collect() } else { (0..32).chain(b.len() - 32..b.len()).collect() };
            for cut in cuts {
                if r.stop() { break; }
                let data = &b[..cut];
                r.see(&(be, data));
                for s in SOURCES {
                    if !applicable(&e, s) || (s == S::File && i >= if r.thorough { 20 } else { 2 }) { continue; }
                    r.case(|| format!("read {} {} {s:?} of {} cut to {cut} bytes", e.name, ends(be), hex(&b)));
                    r.traces += 1; r.transitions += 1;
                    let res = decode(r, &e, s, data, be);
                    let bad = match &res {
                        Err(p) => Some(p.clone()),
                        Ok(DecOut { val: Ok(v), .. }) => Some(format!("the value {}", show(v))),
                        Ok(DecOut { val: Err(x), .. }) => {
                            use speedy::IsEof;
                            let c = classify(x);
                            // A file is read as a buffer of the length of the file.
                            let whole = matches!(s, S::Buffer | S::Copying | S::File);
                            if x.is_eof() || (whole && c == Cls::TooSmall && cut < least(&e.shape)) { None } else { Some(format!("the error {x} ({c:?})")) }
                        }
                    };
                    if let Some(bad) = bad { r.fail(&format!("{} {s:?}", e.name), format!("{} ({}): the first {cut} bytes of {} read from {s:?} give {bad}, and should give an end-of-input error", e.name, ends(be), hex(&b))); continue; }
                    if let Ok(DecOut { val: Err(x), .. }) = res {
                        use speedy::IsEof;
                        let eof = x.is_eof();
                        let k = std::io::Error::from(x).kind();
                        if eof && k != std::io::ErrorKind::UnexpectedEof { r.fail("io kind", format!("{} ({}): the end-of-input error of the first {cut} bytes of {} from {s:?} is turned into an io::Error of kind {k:?}", e.name, ends(be), hex(&b))); }
                    }
                }
                if e.borrows { continue; }
                // Streams ending there in chunks, through small internal buffers.
                for &cap in capacities(r.thorough) { for chunk in [1usize, 3] {
                    r.case(|| format!("read {} {} through a buffer of {cap} in chunks of {chunk} of {} cut to {cut} bytes", e.name, ends(be), hex(&b)));
                    r.traces += 1;
                    set_capacity(cap);
                    let res = guard(|| (e.dec)(Src::Buf(&mut Chunked(data, chunk)), en(be)));
                    set_capacity(0);
                    r.transitions += (cut / chunk) as u64;
                    let bad = match res { Err(p) => Some(p), Ok(DecOut { val: Ok(v), .. }) => Some(show(&v)), Ok(DecOut { val: Err(x), .. }) => { use speedy::IsEof; if x.is_eof() { None } else { Some(format!("{x}")) } } };
                    if let Some(bad) = bad { r.fail(&format!("{} chunked", e.name), format!("{} ({}): the first {cut} bytes of {} from a stream (chunks of {chunk}, internal buffer {cap}) give {bad}", e.name, ends(be), hex(&b))); }
                } }
            }
            if i == 0 && be { r.sample(|| format!("{} {}: every prefix of {}", e.name, ends(be), hex(&b))); }
        } }
    }
    crate::big::big(r, crate::big::What { cuts: true, ..Default::default() });
}
/// A stream giving at most that many bytes at a time.
pub struct Chunked<'a>(pub &'a [u8], pub usize);
impl std::io::Read for Chunked<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.1).min(self.0.len());
        out[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn c11(r: &mut Run) {
    for e in catalog() {
        if !r.unit() { continue; }
        let min = (e.min)();
        let bound = least(&e.shape);
        r.case(|| format!("minimum_bytes_needed of {}", e.name));
        r.transitions += 1;
        if min > bound { r.fail(e.name, format!("{}: minimum_bytes_needed is {min}, but its shortest encoding has {bound} bytes", e.name)); continue; }
        if let Some(n) = fixed(&e.shape) { if n != min { r.fail(e.name, format!("{}: minimum_bytes_needed is {min}, but every encoding has {n} bytes", e.name)); continue; } }
        // Exact buffers of every encoding are not rejected up front, nor are the shortest ones, nor many of them in a row.
        let vs = vals(&e.shape, if r.thorough { 3 } else { 2 });
        let mut shortest = usize::MAX;
        for be in BES { for (_, b) in encodings(&e.shape, &vs, be) {
            shortest = shortest.min(b.len());
            if !r.see(&(be, &b)) { continue; }
            if b.len() < min { r.fail(e.name, format!("{}: minimum_bytes_needed is {min}, but {} is valid", e.name, hex(&b))); }
            let m = dec(&e.shape, &b, be);
            if m.val.is_err() { continue; }
            for s in [S::Buffer, S::Copying] {
                if !applicable(&e, s) { continue; }
                r.case(|| format!("read {} {} {s:?} of {}", e.name, ends(be), hex(&b)));
                r.traces += 1; r.transitions += 1;
                let (got, _) = outcome(&e, decode(r, &e, s, &b, be));
                if !matches!(got, Out::Val(_)) { r.fail(e.name, format!("{} ({}): the valid {} read from {s:?} is rejected: {}", e.name, ends(be), hex(&b), show_out(&got))); }
            }
        } }
        r.sample(|| format!("{}: minimum {min}, reference bound {bound}, shortest enumerated encoding {shortest}, fixed size {:?}", e.name, fixed(&e.shape)));
    }
}

pub trait Wide { fn shape_is_wide(&self) -> bool; }
impl Wide for Entry { fn shape_is_wide(&self) -> bool { false } }

const TRUST: &str = "the reference model in harness/core/src/val.rs, written from the documentation";
pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", level: "model_checking", run: c01, rule: "Every value of every catalogued type up to the level's bounds, in both byte orders, is written and read back from each kind of source; state: (byte order, value), transition: one write or read of the implementation, trace: a read compared with the model.", assumptions: &[TRUST, "values beyond the enumerated boundary values behave like them"] },
        Check { id: "C02", level: "model_checking", run: c02, rule: "Every enumerated value of every catalogued type is written in both byte orders and compared with the encoding of the reference model; state: (byte order, value).", assumptions: &[TRUST] },
        Check { id: "C03", level: "model_checking", run: c03, rule: "All byte strings up to 2 bytes, longer ones over small alphabets, and the neighbourhood (every truncation, substitution, insertion, removal and some extensions) of enumerated valid encodings, decoded by the implementation and by the reference; state: (type, byte order, input), transitions: the input bytes consumed.", assumptions: &[TRUST] },
        Check { id: "C05", level: "model_checking", run: c05, rule: "Every enumerated encoding followed by 10 different tails (of up to 300 bytes), from buffers and from unbuffered streams under all chunkings within the deviation bound; state: (byte order, input).", assumptions: &[TRUST] },
        Check { id: "C06", level: "model_checking", run: c06, rule: "Every enumerated value is written to vectors, to buffers of every size around its length with two canaries, to streams with every pattern of short writes within the deviation bound, and to files.", assumptions: &["values beyond the enumerated boundary values behave like them"] },
        Check { id: "C10", level: "fault_enumeration", run: c10, rule: "Every strict prefix of every enumerated encoding, from every kind of source, and from chunked streams through internal buffers of several capacities; distinct: (type, byte order, prefix).", assumptions: &[TRUST] },
        Check { id: "C11", level: "exploration", run: c11, rule: "minimum_bytes_needed of every catalogued type compared with the least size given by the reference model and with every enumerated encoding, which have to be accepted from a buffer of exactly their size; distinct: (type, byte order, encoding).", assumptions: &[TRUST] },
    ]
}
