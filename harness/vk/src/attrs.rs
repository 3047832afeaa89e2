//! Checks of what derived types do, by enumerating around what each attribute is about (C12 - C15, C17),
//! and of inputs made to do harm (C09).
use crate::codec::*;
use vcore::gen::{elems, string_of, vals};
use vcore::inputs::*;
use vcore::run::{alloc, Check};
use vcore::*;

/// The ways to read which are compared with the reference.
#[derive(Clone, Copy, Debug)]
pub enum Way { Plain(S), Chunks(usize, usize) }
pub const FAST: [Way; 3] = [Way::Plain(S::Buffer), Way::Plain(S::Unbuf), Way::Chunks(3, 2)];
pub const ALL_WAYS: [Way; 7] = [Way::Plain(S::Buffer), Way::Plain(S::Copying), Way::Plain(S::Unbuf), Way::Plain(S::Buf), Way::Chunks(0, 1), Way::Chunks(2, 1), Way::Chunks(5, 3)];
pub fn read_way(r: &Run, e: &Entry, w: Way, data: &[u8], be: bool) -> Out {
    match w {
        Way::Plain(s) => outcome(e, decode(r, e, s, data, be)).0,
        Way::Chunks(cap, n) => {
            set_capacity(cap);
            let o = outcome(e, guard(|| (e.dec)(Src::Buf(&mut Chunked(data, n)), en(be)))).0;
            set_capacity(0);
            o
        }
    }
}
/// Compares reading an input in the given ways with the reference.
pub fn conform(r: &mut Run, e: &Entry, be: bool, data: &[u8], ways: &[Way]) -> Option<bool> {
    let res = conform_exactly(r, e, be, data, ways);
    // How much there is behind it must not matter, except where it says so.
    if res.is_some() && data.len() <= 64 {
        let mut long = data.to_vec();
        long.extend((0..40u8).map(|x| x.wrapping_mul(29) ^ 0xa5));
        conform_exactly(r, e, be, &long, &[Way::Plain(S::Buffer)]);
    }
    res
}
fn conform_exactly(r: &mut Run, e: &Entry, be: bool, data: &[u8], ways: &[Way]) -> Option<bool> {
    let m = dec(&e.shape, data, be);
    if m.ambiguous || m.val == Err(DecErr::Unbacked) { r.count("unspecified_inputs_skipped", 1); return None; }
    let want = match &m.val { Ok(v) => Out::Val(canon(&e.shape, v)), Err(_) => Out::Err(Cls::Other) };
    for &w in ways {
        if e.borrows && !matches!(w, Way::Plain(S::Buffer)) { continue; }
        r.case(|| format!("read {} {} {w:?} of {}", e.name, ends(be), hex(data)));
        r.transitions += 1 + m.used as u64;
        r.traces += 1;
        let got = read_way(r, e, w, data, be);
        let ok = match (&got, &want) { (Out::Val(a), Out::Val(b)) => a == b, (Out::Err(_), Out::Err(_)) => true, _ => false };
        if !ok {
            r.fail(&format!("{} {}", e.name, ends(be)), format!("{} ({}): {} ({} bytes) read in the way {w:?} gives {}, and should be {}", e.name, ends(be), hex(data), data.len(), show_out(&got), match &m.val { Ok(v) => show(v), Err(x) => format!("an error ({x:?})") }));
            return Some(false);
        }
    }
    Some(m.val.is_ok())
}
/// Writes a value into every kind of sink and compares with the reference; `Some` has the bytes.
pub fn write_all(r: &mut Run, e: &Entry, v: &Val, be: bool) -> Option<Vec<u8>> {
    let mut bytes = None;
    for sink in 0..5 {
        r.case(|| format!("write {} {} {} to sink {sink}", e.name, show(v), ends(be)));
        r.transitions += 1; r.traces += 1;
        let (mut out, mut n) = (vec![], 0usize);
        let p = r.dir.join("w");
        let res = guard(|| match sink {
            0 => (e.enc)(v, en(be), Sink::Vec(&mut out)),
            1 => (e.enc)(v, en(be), Sink::Stream(&mut out)),
            2 => (e.enc)(v, en(be), Sink::Needed(&mut n)),
            3 => { out = vec![0xee; enc(&e.shape, v, be).map_or(300, |b| b.len() + 3)]; (e.enc)(v, en(be), Sink::Buffer(&mut out)) }
            _ => (e.enc)(v, en(be), Sink::File(&p)),
        });
        let name = ["a vector", "a stream", "bytes_needed", "a buffer", "a file"][sink];
        let (order, got) = match res { Ok((o, x)) => (o, x.map_err(|x| classify(&x))), Err(p) => { r.fail(&format!("{} write", e.name), format!("{} ({}): writing {} to {name}: {p}", e.name, ends(be), show(v))); return None; } };
        let want = enc(&e.shape, &order, be);
        if sink == 4 { out = std::fs::read(&p).unwrap_or_default(); }
        let ok = match (&got, &want) {
            (Ok(()), Ok(w)) => match sink { 2 => n == w.len(), 3 => out.starts_with(w), _ => out == *w },
            (Err(c), Err(_)) => !matches!(c, Cls::Eof | Cls::TooSmall | Cls::Io(_)),
            _ => false,
        };
        if !ok { r.fail(&format!("{} write", e.name), format!("{} ({}): writing {} to {name} gives {got:?} with {} ({} bytes, size {n}), and should be {:?}", e.name, ends(be), show(v), hex(&out), out.len(), want.map(|b| hex(&b)))); return None; }
        if sink == 0 { bytes = want.ok(); }
    }
    bytes
}
fn group<'x>(g: &'x str) -> impl Iterator<Item = Entry> + 'x { catalog().into_iter().filter(move |e| e.group.trim_end_matches('*') == g) }

/// Sets the length of the `k`-th container (in order) which `pick` selects; `None` if there is none, or not that many elements.
fn with_len(sh: &Shape, v: &Val, k: &mut usize, n: &dyn Fn(Tag) -> Option<usize>) -> Option<Val> {
    match (sh, v) {
        (Shape::Str(Len::T(t)), _) => { if *k == 0 { *k = usize::MAX; Some(Val::S(string_of(n(*t)?))) } else { *k -= (*k != usize::MAX) as usize; Some(v.clone()) } }
        (Shape::Seq(Len::T(t), e, kind), _) => { if *k == 0 { *k = usize::MAX; Some(Val::L(elems(e, n(*t)?, *kind, 0)?)) } else { *k -= (*k != usize::MAX) as usize; Some(v.clone()) } }
        (Shape::Rec(fs), Val::L(xs)) => Some(Val::L(fs.iter().zip(xs).map(|(f, x)| with_len(f, x, k, n)).collect::<Option<_>>()?)),
        (Shape::Flag(a, b), Val::E(i, x)) => Some(Val::E(*i, Box::new(with_len(if *i == 0 { a } else { b }, x, k, n)?))),
        (Shape::Enum { vars, .. }, Val::E(i, x)) => Some(Val::E(*i, Box::new(with_len(&vars[*i as usize].1, x, k, n)?))),
        (Shape::Prefix(_, s), _) | (Shape::OnEof(s, _), _) => with_len(s, v, k, n),
        _ => Some(v.clone()),
    }
}
/// Replaces every container with a `length` expression by one of `n` elements.
fn with_wrong_len(sh: &Shape, v: &Val, n: usize) -> Option<Val> {
    Some(match (sh, v) {
        (Shape::Str(Len::Expr(_)), _) => Val::S(string_of(n)),
        (Shape::Seq(Len::Expr(_), e, kind), _) => Val::L(elems(e, n, *kind, 0)?),
        (Shape::Rec(fs), Val::L(xs)) => Val::L(fs.iter().zip(xs).map(|(f, x)| with_wrong_len(f, x, n)).collect::<Option<_>>()?),
        (Shape::Enum { vars, .. }, Val::E(i, x)) => Val::E(*i, Box::new(with_wrong_len(&vars[*i as usize].1, x, n)?)),
        (Shape::Prefix(_, s), _) | (Shape::OnEof(s, _), _) => with_wrong_len(s, v, n)?,
        _ => v.clone(),
    })
}
/// Values with lengths around the limits of their types, and with lengths other than the announced ones.
pub fn odd_lengths(e: &Entry, thorough: bool, f: &mut dyn FnMut(&Val)) {
    let vs = vals(&e.shape, 1);
    for base in vs.iter().take(if thorough { 10 } else { 3 }) { for k in 0..4 { for size in [127usize, 128, 255, 256, 65535, 65536] {
        let mut kk = k;
        let v = with_len(&e.shape, base, &mut kk, &|t| if match t { Tag::U7 => size <= 256, Tag::U8 => size >= 255 && size <= 256 || size == 65536, Tag::U16 => size >= 65535, _ => false } { Some(size) } else { None });
        if let (Some(v), usize::MAX) = (v, kk) { f(&v); }
    } } }
    for v in &vs { for n in 0..4 { if let Some(w) = with_wrong_len(&e.shape, v, n) { if w != *v { f(&w); } } } }
}
fn c12(r: &mut Run) {
    for e in group("len") {
        for be in BES {
            if !r.unit() { continue; }
            let vs = vals(&e.shape, 2);
            // Length prefixes around their limits.
            let sizes = [126usize, 127, 128, 129, 254, 255, 256, 257, 16383, 16384, 65534, 65535, 65536, 65537];
            let mut firsts: Vec<Val> = vec![];
            for v in &vs { if let Val::E(i, _) = v { if firsts.iter().all(|f| f.e().0 != *i) { firsts.push(v.clone()); } } else if firsts.len() < 2 { firsts.push(v.clone()); } }
            for base in &firsts { for k in 0..4 { for size in sizes {
                let limit = |t: Tag| match t { Tag::U7 | Tag::U8 => size <= 257 || size == 65536, Tag::U16 => size > 60000 || size == 256, Tag::Var => size == 16383 || size == 16384 || size < 130, _ => size == 256 || size == 65536 };
                let mut kk = k;
                let Some(v) = with_len(&e.shape, base, &mut kk, &|t| if limit(t) { Some(size) } else { None }) else { continue };
                if kk != usize::MAX { break; }
                if !r.see(&(be, &v)) { continue; }
                if let Some(b) = write_all(r, &e, &v, be) {
                    conform(r, &e, be, &b, if b.len() > 5000 { &FAST } else { &ALL_WAYS });
                    if b.len() < 5000 { conform(r, &e, be, &b[..b.len() - 1], &FAST); }
                } else { r.count("rejected_lengths", 1); }
                if r.stop() { return; }
            } } }
            // Every pair of an announced and an actual length.
            for v in &vs {
                if with_wrong_len(&e.shape, v, 0).as_ref() == Some(v) && with_wrong_len(&e.shape, v, 1).as_ref() == Some(v) { break; }
                for n in 0..=if r.thorough { 20 } else { 9 } {
                    let Some(w) = with_wrong_len(&e.shape, v, n) else { continue };
                    if !r.see(&(be, &w)) { continue; }
                    match write_all(r, &e, &w, be) { Some(b) => { conform(r, &e, be, &b, &ALL_WAYS); } None => r.count("rejected_lengths", 1) }
                    if r.stop() { return; }
                }
            }
            // Every announced length, with data behind it.
            let th = r.thorough;
            let mut tail: Vec<u8> = (0..if th { 1200u32 } else { 600 }).map(|i| (i % 7) as u8).collect();
            strings_of(&ALL, 2, &mut |p| {
                if r.stop() || (!th && p[0] > 3 && p[0] % 8 != 7 && p[1] > 3 && p[1] % 16 != 15) { return; }
                tail[..2].copy_from_slice(p);
                r.see(&p);
                conform(r, &e, be, &tail[..40], &FAST);
                if p[1] < 2 || p[1] == 255 { conform(r, &e, be, &tail, &FAST); }
            });
            for v in vs.iter().take(if th { 200 } else { 40 }) { if let Ok(b) = enc(&e.shape, v, be) { if b.len() <= 60 { ball(&b, &SUBST, &mut |d| if !r.stop() { r.see(&d); conform(r, &e, be, d, &FAST); }); } } }
            r.sample(|| format!("{} {}: lengths {sizes:?}, every wrong length up to 9, every first two bytes", e.name, ends(be)));
        }
    }
}

fn c13(r: &mut Run) {
    for e in group("eof") {
        for be in BES {
            if !r.unit() { continue; }
            let vs = vals(&e.shape, if r.thorough { 3 } else { 2 });
            let mut n = 0;
            for (_, b) in encodings(&e.shape, &vs, be) {
                if b.len() > 200 || !r.see(&(be, &b)) { continue; }
                n += 1;
                if n > if r.thorough { 400 } else { 60 } { break; }
                // Every point at which the input may end, and something invalid everywhere before it.
                for cut in (0..=b.len()).rev() {
                    r.see(&(be, &b[..cut]));
                    conform(r, &e, be, &b[..cut], &ALL_WAYS);
                    if cut > 40 && !r.thorough { continue; }
                    let mut c = b[..cut].to_vec();
                    for i in 0..cut { let o = c[i]; for x in if n <= 6 || r.thorough { &SUBST[..] } else { &SUBST[..6] } { c[i] = *x; if *x != o { r.see(&(be, &c)); conform(r, &e, be, &c, &FAST); } } c[i] = o; }
                    if r.stop() { return; }
                }
                for x in [0u8, 1, 0xff] { let mut c = b.clone(); for _ in 0..9 { c.push(x); r.see(&(be, &c)); conform(r, &e, be, &c, &ALL_WAYS); } }
            }
            let th = r.thorough;
            strings_of(&ALL, 2, &mut |d| if !r.stop() { r.see(&d); conform(r, &e, be, d, &FAST[..2]); });
            for k in 3..=if th { 8 } else { 6 } { strings_of(&[0, 1, 2, 0xff], k, &mut |d| if !r.stop() { r.see(&d); conform(r, &e, be, d, &FAST[..2]); }); }
            r.sample(|| format!("{} {}: {n} encodings ending at every byte, with every kind of corruption", e.name, ends(be)));
        }
    }
}

fn tags(sh: &Shape) -> Vec<Tag> {
    let mut o = vec![];
    any(sh, &mut |s| { if let Shape::Enum { tag, .. } = s { if !o.contains(tag) { o.push(*tag); } } false });
    o
}
fn c14(r: &mut Run) {
    for e in catalog() {
        let ts = tags(&e.shape);
        if ts.is_empty() { continue; }
        for be in BES {
            if !r.unit() { continue; }
            // Every value, i.e. every variant, there and back.
            for v in vals(&e.shape, if r.thorough { 3 } else { 2 }) {
                if let Some(b) = write_all(r, &e, &v, be) { r.see(&(be, &v)); if conform(r, &e, be, &b, &ALL_WAYS) == Some(false) { r.fail(&format!("{} variants", e.name), format!("{} ({}): {} cannot be read back from {}", e.name, ends(be), show(&v), hex(&b))); } }
                if r.stop() { return; }
            }
            // Every tag: exhaustively for up to two bytes, and all the patterns of two bytes in the wider ones,
            // with different data following.
            let mut one = |r: &mut Run, p: &[u8]| {
                for tail in [[0u8; 24], [1; 24]] { let mut d = p.to_vec(); d.extend(tail); r.see(&(be, &d)); conform(r, &e, be, &d, &FAST); }
                conform(r, &e, be, p, &FAST[..1]);
            };
            strings_of(&ALL, 1, &mut |p| if !r.stop() { one(r, p) });
            if ts.iter().any(|t| !matches!(t, Tag::U7 | Tag::U8)) || r.thorough { strings_of(&ALL, 2, &mut |p| if !r.stop() { one(r, p) }); }
            if ts.iter().any(|t| matches!(t, Tag::U32 | Tag::U64 | Tag::Var)) {
                let n = if ts.contains(&Tag::U32) { 4 } else { 8 };
                for i in 0..n { for j in i + 1..n { for &x in &SUBST { for &y in &SUBST { for fill in [0u8, 0xff] {
                    let mut p = vec![fill; n]; p[i] = x; p[j] = y;
                    if !r.stop() { one(r, &p); }
                } } } } }
            }
            if ts.contains(&Tag::Var) {
                // Values in every possible encoding, also the ones which are longer than necessary.
                let known: Vec<u64> = { let mut k = vec![]; any(&e.shape, &mut |s| { if let Shape::Enum { tag: Tag::Var, vars, .. } = s { k.extend(vars.iter().map(|x| x.0)); } false }); k };
                for k in known { for near in [k.wrapping_sub(1), k, k.wrapping_add(1), k ^ (1 << 32), k << 8, k >> 8] { for extra in 0..=8usize {
                    if extra < 8 && (near as u128) >> (7 * (extra + 1)) != 0 { continue; }
                    let ones = (0xff00u16 >> extra) as u8;
                    let mut p = vec![if extra < 8 { ones | (near as u128 >> (8 * extra)) as u8 } else { 0xff }];
                    for i in 0..extra { p.push((near >> (8 * i)) as u8); }
                    if !r.stop() { one(r, &p); }
                } } }
            }
            r.sample(|| format!("{} {}: every variant, every tag of up to two bytes, patterns in wider ones ({ts:?})", e.name, ends(be)));
        }
    }
}

fn c15(r: &mut Run) {
    for e in group("attr").chain(group("pair")) {
        for be in BES {
            if !r.unit() { continue; }
            let vs = vals(&e.shape, if r.thorough { 3 } else { 2 });
            let mut n = 0;
            for v in &vs {
                let Some(b) = write_all(r, &e, v, be) else { continue };
                if !r.see(&(be, &b)) || b.len() > 200 { continue; }
                conform(r, &e, be, &b, &ALL_WAYS);
                if r.stop() { return; }
                n += 1;
                // Everything near to it; every byte takes every value, so every byte of a prefix is corrupted in every way.
                if n <= if r.thorough { 60 } else { 8 } { ball(&b, if n <= 3 || r.thorough { &ALL } else { &SUBST }, &mut |d| if !r.stop() { r.see(&(be, d)); conform(r, &e, be, d, if n == 1 { &ALL_WAYS } else { &FAST }); }); }
            }
            r.sample(|| format!("{} {}: {n} values, written and read back, with every byte of some of them replaced by every other", e.name, ends(be)));
        }
    }
}

/// The encodings of elements one at a time, by the implementation itself.
fn c17(r: &mut Run) {
    let bulk: Vec<Entry> = group("bulk").chain(group("struct")).collect();
    for e in &bulk {
        for be in BES {
            if !r.unit() { continue; }
            // Containers of every length, also ones which do not fit into the internal buffers.
            let mut todo: Vec<Val> = vals(&e.shape, if r.thorough { 3 } else { 2 });
            if let Shape::Seq(_, el, k) = &*e.shape {
                for n in (0..=if r.thorough { 300 } else { 40 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193]) { if let Some(x) = elems(el, n, *k, n) { todo.push(Val::L(x)); } }
            }
            let mut scratch = Scratch::default();
            for v in &todo {
                let Some(b) = write_all(r, e, v, be) else { continue };
                if !r.see(&(be, &b)) { continue; }
                let big = b.len() > 3000;
                conform(r, e, be, &b, if big { &[Way::Plain(S::Buffer), Way::Plain(S::Unbuf), Way::Plain(S::Buf), Way::Plain(S::File), Way::Chunks(0, 1000)] } else { &ALL_WAYS });
                // At every alignment, and one byte short.
                if !big && b.len() < 200 { for off in 1..if r.thorough { 16 } else { 9 } { let d = scratch.place(off, &b).to_vec(); let m = dec(&e.shape, &d, be); if m.ambiguous || m.val == Err(DecErr::Unbacked) { break; } let mut s2 = Scratch::default(); let p = s2.place(off, &b); dec_one(r, e, &mut Scratch::default(), off, S::Buffer, be, p, &m); if off == 1 && !e.borrows { dec_one(r, e, &mut Scratch::default(), off, S::Copying, be, p, &m); } } }
                if !b.is_empty() { conform(r, e, be, &b[..b.len() - 1], if big { &FAST[..2] } else { &ALL_WAYS }); }
                if r.stop() { return; }
            }
            r.sample(|| format!("{} {}: {} values of all lengths, from every source and at every alignment", e.name, ends(be), todo.len()));
        }
    }
    // The encoding of a container is the length and the encodings of its elements, all made by the implementation.
    for e in &bulk {
        let (Shape::Seq(Len::T(Tag::U32), ..) | Shape::Arr(..)) = &*e.shape else { continue };
        // `Vec<T>`, `Box<[T]>`, `Cow<'static, [T]>` and `[T; N]`, of the T in the same catalogue.
        let strip = |p: &str, q: &str| e.name.strip_prefix(p).and_then(|x| x.strip_suffix(q));
        let Some(inner) = strip("Vec<", ">").or(strip("Box<[", "]>")).or(strip("Cow<'static, [", "]>")).or(if e.name.starts_with('[') { e.name[1..].rsplit_once(';').map(|x| x.0) } else { None }) else { continue };
        let Some(el) = catalog().into_iter().find(|x| x.name == inner) else { continue };
        for be in BES {
            if !r.unit() { continue; }
            for v in vals(&e.shape, 2) {
                let mut whole = vec![];
                r.case(|| format!("write {} {} {}", e.name, show(&v), ends(be)));
                let Ok((_, Ok(()))) = guard(|| (e.enc)(&v, en(be), Sink::Vec(&mut whole))) else { continue };
                let mut parts = vec![];
                if matches!(&*e.shape, Shape::Seq(..)) { let n = v.l().len() as u32; parts.extend(if be { n.to_be_bytes() } else { n.to_le_bytes() }); }
                for x in v.l() { let mut one = vec![]; let _ = guard(|| (el.enc)(x, en(be), Sink::Vec(&mut one)).1.is_ok()); parts.extend(one); }
                r.traces += 1; r.transitions += 1 + v.l().len() as u64;
                r.see(&(be, &v));
                r.count("containers_compared_with_their_elements", 1);
                if whole != parts { r.fail(&format!("{} elements", e.name), format!("{} ({}): {} is written as {}, and its elements one at a time as {}", e.name, ends(be), show(&v), hex(&whole), hex(&parts))); }
            }
        }
    }
    crate::big::big(r, crate::big::What { all: true, sinks: true, sources: true, cuts: true, ..Default::default() });
}

/// Are there sequences of elements which may take no bytes at all?
fn unbacked(sh: &Shape) -> bool { any(sh, &mut |s| matches!(s, Shape::Seq(_, e, _) if least(e) == 0)) }
fn c09_one(r: &mut Run, e: &Entry, be: bool, data: &[u8], ways: &[Way], careful: bool) {
    if careful && dec(&e.shape, data, be).val == Err(DecErr::Unbacked) { r.count("unspecified_inputs_skipped", 1); return; }
    for &w in ways {
        r.case(|| format!("read {} {} {w:?} of {}", e.name, ends(be), hex(data)));
        let base = alloc::reset_peak();
        let out = match w { Way::Plain(s) => decode(r, e, s, data, be).map(|o| o.val.is_ok()), Way::Chunks(cap, n) => { set_capacity(cap); let o = guard(|| (e.dec)(Src::Buf(&mut Chunked(data, n)), en(be)).val.is_ok()); set_capacity(0); o } };
        let used = alloc::peak().saturating_sub(base);
        match out {
            Err(p) => r.fail(&format!("{} panic", e.name), format!("{} ({}): reading {} in the way {w:?}: {p}", e.name, ends(be), hex(data))),
            Ok(ok) => if ok { r.count("accepted", 1) } else { r.count("rejected", 1) },
        }
        // A buffer says how much there is, so there is no excuse for allocating a lot more.
        let most = 65536 + 2048 * data.len();
        if matches!(w, Way::Plain(S::Buffer | S::Copying)) && used > most && !careful && !peeks(&e.shape) && !e.name.contains("Regex") { r.fail(&format!("{} memory", e.name), format!("{} ({}): reading the {} bytes {} in the way {w:?} allocates {used} bytes", e.name, ends(be), data.len(), hex(data))); }
    }
}
fn c09(r: &mut Run) {
    const NUMS: [u64; 22] = [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 61, (1 << 61) + 1, 1 << 60, (1 << 60) - 1, 1 << 48, 1 << 40, 1 << 33, 1 << 32, u32::MAX as u64, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 29, 1 << 28, 0x00ff_ffff, 0xffff, 0x7fff];
    let other = [Way::Plain(S::Copying), Way::Plain(S::Unbuf), Way::Plain(S::Buf), Way::Chunks(2, 1)];
    for e in catalog() {
        let careful = unbacked(&e.shape);
        for be in BES {
            if !r.unit() { continue; }
            let th = r.thorough;
            let b = Way::Plain(S::Buffer);
            let ways: Vec<Way> = std::iter::once(b).chain(other).collect();
            // Small inputs.
            strings(&ALL, 1, &mut |d| { r.see(&d); c09_one(r, &e, be, d, &ways, careful) });
            for n in 2..=if th { 7 } else { 5 } { strings_of(&[0, 1, 2, 0x7f, 0x80, 0xff], n, &mut |d| if !r.stop() { r.distinct += 1; r.states += 1; c09_one(r, &e, be, d, if n <= 4 || th { &ways } else { &ways[..3] }, careful) }); }
            strings_of(&ALL, 2, &mut |d| if !r.stop() { c09_one(r, &e, be, d, if th { &ways } else { &ways[..1] }, careful) });
            // Numbers, such as lengths and counts, which the input does not back; anywhere.
            let vs = vals(&e.shape, if th { 2 } else { 1 });
            let mut bases: Vec<Vec<u8>> = encodings(&e.shape, &vs, be).into_iter().map(|x| x.1).filter(|b| b.len() <= 60).collect();
            bases.sort(); bases.dedup();
            bases.truncate(if th { 100 } else { 16 });
            for p in [vec![0u8; 24], vec![1; 24], vec![0xff; 24]] { bases.push(p); }
            for base in &bases { for i in 0..base.len() { for w in [1usize, 2, 4, 8] {
                if r.stop() { return; }
                if i + w > base.len() { continue; }
                for x in NUMS {
                    if w < 8 && x >> (8 * w) != 0 && x != u64::MAX { continue; }
                    let mut d = base.clone();
                    for k in 0..w { d[if be { i + w - 1 - k } else { i + k }] = (x >> (8 * k)) as u8; }
                    if r.see(&d) { c09_one(r, &e, be, &d, if i < 12 || th { &ways } else { &ways[..2] }, careful); }
                    let d = &d[..i + w];
                    if r.see(&d) { c09_one(r, &e, be, d, &ways, careful); }
                }
                // Varints.
                if w == 1 { for first in [0xffu8, 0xfe, 0xfc, 0xf8, 0xf0] { let mut d = base[..i].to_vec(); d.push(first); d.extend([0xff; 8]); if r.see(&d) { c09_one(r, &e, be, &d, &ways, careful); } } }
            } } }
            for base in bases.iter().take(if th { 40 } else { 6 }) { if base.len() <= 40 { ball(base, if th { &ALL } else { &SUBST }, &mut |d| if !r.stop() { r.see(&d); c09_one(r, &e, be, d, &ways, careful) }); } }
            // From files.
            for base in bases.iter().take(3) { for cut in [base.len(), base.len() / 2] { let mut d = base[..cut].to_vec(); c09_one(r, &e, be, &d, &[Way::Plain(S::File)], careful); for x in d.iter_mut().take(4) { *x = 0xff; } c09_one(r, &e, be, &d, &[Way::Plain(S::File)], careful); } }
            r.sample(|| format!("{} {}: numbers of every size written over every position of {} inputs, such as {}", e.name, ends(be), bases.len(), hex(&bases[0])));
        }
    }
}

const TRUST: &str = "the reference model in harness/core/src/val.rs, written from the documentation";
pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C09", level: "exploration", run: c09, rule: "Every string over small alphabets, every neighbour of some valid encodings, and numbers of every magnitude written over every position of valid and other inputs, read from buffers, copying buffers, streams and files by every catalogued type: neither a panic, an abort, a crash, a hang nor (from buffers) a disproportionate allocation; requests over 256 MB are refused as if out of memory. Distinct: (type, byte order, input).", assumptions: &["sequences of elements which take no bytes, with absurd lengths, are out of scope: no input backs them", "types are not nested without a bound", "what the regex crate allocates for a pattern is not bounded here"] },
        Check { id: "C12", level: "model_checking", run: c12, rule: "For every derived type with `length_type` or `length`: containers of every length around each limit, every pair of an announced and an actual length up to 9, and inputs with every first two bytes, compared with the reference model; state: (byte order, value or input).", assumptions: &[TRUST] },
        Check { id: "C13", level: "fault_enumeration", run: c13, rule: "For every derived type with `default_on_eof` or `length = ..`: every enumerated encoding ending at every byte, with every position before it corrupted, and all small inputs, from every source; compared with the reference. Distinct: (byte order, input).", assumptions: &[TRUST, "what follows a recovered field whose partial data is left over is not compared: sources may differ there"] },
        Check { id: "C14", level: "model_checking", run: c14, rule: "For every catalogued type with an enum: every variant there and back, all one and two byte tags, patterns of any two bytes in wider tags, every encoding of tags near to the known ones for varints; compared with the reference. State: (byte order, value or input).", assumptions: &[TRUST] },
        Check { id: "C15", level: "model_checking", run: c15, rule: "For every derived type with `skip`, `varint` or `constant_prefix` (each alone, combined in pairs, with every repr, and in containers): every enumerated value to every sink and back, and encodings with every byte replaced by every other; compared with the reference. State: (byte order, value or input).", assumptions: &[TRUST] },
        Check { id: "C17", level: "model_checking", run: c17, rule: "For every element type which is, or nearly is, eligible for bulk copying: containers of every length up to a bound and around the sizes of internal buffers, to every sink, from every source, at every alignment; compared with the reference and with the implementation's own encodings of the elements. State: (byte order, value).", assumptions: &[TRUST] },
    ]
}
