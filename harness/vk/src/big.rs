//! Containers which are larger than anything that might be read or written in one piece.
use crate::codec::*;
use crate::stream::LONG;
use vcore::gen::vals;
use vcore::inputs::*;
use vcore::*;

/// The `i`-th element; they differ in what is not much shorter than `i`.
fn element(sh: &Shape, i: usize, pool: &[Val]) -> Val {
    match sh {
        Shape::Bits(b) => Val::U((i as u128).wrapping_mul(0x0101_0107).wrapping_add((i as u128) << 64) & if *b >= 16 { u128::MAX } else { (1u128 << (8 * *b as u32)) - 1 }),
        Shape::Str(_) => Val::S(format!("{i}").into()),
        Shape::Rec(fs) => Val::L(fs.iter().map(|f| element(f, i, &[])).collect()),
        _ if pool.is_empty() => { let p = vals(sh, 1); p[i % p.len()].clone() }
        _ => pool[i % pool.len()].clone(),
    }
}
fn big_val(sh: &Shape, n: usize) -> Option<Val> {
    match sh {
        Shape::Str(_) => { let mut s = String::new(); while s.len() < n { s.push_str("abcdéfg€h"); } let mut k = n; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); while s.len() < n { s.push('x'); } Some(Val::S(s.into())) }
        Shape::Seq(_, e, kind) => {
            let pool = vals(e, 1);
            let mut out = vec![];
            let mut keys = std::collections::HashSet::new();
            for i in 0..n {
                let x = element(e, i, &pool);
                let fresh = match kind { Kind::List => true, Kind::Map | Kind::IndexMap => keys.insert(x.l()[0].clone()), _ => keys.insert(x.clone()) };
                if !fresh { return None; }
                out.push(x);
            }
            Some(Val::L(out))
        }
        _ => None,
    }
}
fn lengths(e: &Entry, thorough: bool) -> Vec<usize> {
    let sh = &*e.shape;
    let each = match sh { Shape::Seq(_, e, _) => enc(e, &element(e, 100, &[]), false).map_or(1, |b| b.len().max(1)), _ => 1 };
    let simple = matches!(sh, Shape::Str(_)) || matches!(sh, Shape::Seq(_, e, Kind::List) if matches!(**e, Shape::Bits(_)));
    let core = ["Vec<u8>", "Vec<u16>", "Vec<u64>", "String", "Cow<'static, [u32]>", "&'static [u8]", "&'static str"].contains(&e.name);
    let mut out = vec![];
    if !thorough {
        out.push((1 << 16) / each + 1);
        if core { out.extend([(1 << 16) / each - 1, (1 << 16) / each, (1 << 20) / each + 1]); }
        if each == 2 { out.extend([65535, 65537]); }
    } else {
        let bytes: &[usize] = if simple { &[1 << 15, 1 << 16, 3 << 15, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 3 << 20, 1 << 22] } else { &[1 << 16, 1 << 17, 1 << 18, 1 << 20] };
        for b in bytes { out.extend([b / each - 1, b / each, b / each + 1]); }
        if each > 1 { out.extend([65535, 65536, 65537]); }
    }
    out.sort(); out.dedup();
    out
}

#[derive(Clone, Copy, Default)]
pub struct What { pub all: bool, pub sinks: bool, pub sources: bool, pub chunks: bool, pub cuts: bool }
pub fn big(r: &mut Run, what: What) {
    const MORE: [&str; 24] = ["Vec<u32>", "Vec<u128>", "Vec<f64>", "Vec<i16>", "Vec<[u16; 2]>", "Vec<usize>", "Vec<AtomicU16>", "Vec<Ipv4Addr>", "Cow<'static, [u8]>", "Cow<'static, [u64]>", "Box<[u32]>", "BTreeSet<u32>", "BTreeMap<u16, u64>", "HashMap<u32, String, Det>", "HashSet<u64>", "Vec<(u8, u16)>", "Vec<Vec<u16>>", "Vec<Duration>", "indexmap_v2::IndexSet<u16>", "indexmap_v2::IndexMap<u8, u16>", "Vec<Vec3>", "&'static [u8]", "&'static str", "Vec<uuid::Uuid>"];
    for e in catalog().into_iter().filter(|e| LONG.contains(&e.name) || MORE.contains(&e.name) || what.all && matches!(&*e.shape, Shape::Seq(Len::T(Tag::U32), ..)) && (e.group == "bulk" || e.group == "struct")) {
        for n in lengths(&e, r.thorough) {
            if !r.unit() { continue; }
            let Some(v) = big_val(&e.shape, n) else { continue };
            let text = matches!(&*e.shape, Shape::Str(_)) || e.name.contains("u8]") || e.name == "Vec<u8>";
            for be in BES {
            if (text || n > 100_000) && be != (n % 2 == 1) { continue; }
            let Some((order, got, want)) = write_vec(r, &e, &v, be) else { continue };
            let Ok(want) = want else { continue };
            let expected = Out::Val(canon(&e.shape, &reread(&e.shape, &order)));
            r.see(&(e.name, n));
            r.transitions += 1; r.traces += 1;
            let brief = |b: &[u8]| format!("{} bytes, {}", b.len(), hex(&b[..b.len().min(20)]));
            let off = |a: &[u8]| a.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(a.len().min(want.len()));
            let bytes = match got {
                Ok(b) => b,
                Err(c) => { r.fail(&format!("{} big", e.name), format!("writing {} elements as {} ({}) fails with {c:?}", n, e.name, ends(be))); continue }
            };
            if bytes != want { r.fail(&format!("{} big", e.name), format!("{} elements of {} ({}) are written to a vector as {} (wrong from the {}. byte on), and should be {}", n, e.name, ends(be), brief(&bytes), off(&bytes), brief(&want))); continue; }
            if what.sinks {
                for sink in 1..5 {
                    if sink == 4 && n % 2 == 0 { continue; }
                    r.case(|| format!("write {n} elements of {} to sink {sink}", e.name));
                    r.transitions += 1; r.traces += 1;
                    let (mut out, mut needed) = (vec![], 0);
                    let p = r.dir.join("big");
                    let res = guard(|| match sink {
                        1 => (e.enc)(&v, en(be), Sink::Stream(&mut out)),
                        2 => (e.enc)(&v, en(be), Sink::Needed(&mut needed)),
                        3 => { out = vec![0xee; want.len()]; (e.enc)(&v, en(be), Sink::Buffer(&mut out)) }
                        _ => (e.enc)(&v, en(be), Sink::File(&p)),
                    });
                    let (order, res) = match res { Ok((o, x)) => (o, x.map_err(|x| format!("{x:?}"))), Err(p) => (v.clone(), Err(p)) };
                    let want = if shuffled(&e) { enc(&e.shape, &order, be).unwrap_or_default() } else { want.clone() };
                    if sink == 4 { out = std::fs::read(&p).unwrap_or_default(); }
                    if let Err(x) = res { r.fail(&format!("{} big", e.name), format!("writing {n} elements of {} ({}) to {} fails: {x}", e.name, ends(be), ["a stream", "bytes_needed", "a buffer", "a file"][sink - 1])); }
                    else if if sink == 2 { needed != want.len() } else { out != want } { r.fail(&format!("{} big", e.name), format!("writing {n} elements of {} ({}) to {} gives {} (or a size of {needed}) instead of {}", e.name, ends(be), ["a stream", "bytes_needed", "a buffer", "a file"][sink - 1], brief(&out), brief(&want))); }
                }
            }
            let wrong = |r: &mut Run, how: &str, got: &Out, b: &[u8]| {
                let what = match got { Out::Val(x) => format!("something else ({} bytes if written)", enc(&e.shape, x, be).map_or(0, |b| b.len())), o => show_out(o) };
                r.fail(&format!("{} big", e.name), format!("{n} elements of {} ({}; {}) are read from {how} as {what}", e.name, ends(be), brief(b)));
            };
            if what.sources {
                for s in SOURCES {
                    if !applicable(&e, s) || s == S::File && n % 2 == 0 { continue; }
                    r.case(|| format!("read {n} elements of {} from {s:?}", e.name));
                    r.transitions += 1; r.traces += 1;
                    let (got, used) = outcome(&e, decode(r, &e, s, &bytes, be));
                    if got != expected { wrong(r, &format!("{s:?}"), &got, &bytes); }
                    else if used.map_or(false, |u| u != bytes.len()) { r.fail(&format!("{} big", e.name), format!("{n} elements of {} ({}): {used:?} of {} bytes are consumed", e.name, ends(be), bytes.len())); }
                }
            }
            if what.chunks && !e.borrows {
                for chunk in [4096usize, 10_000, 65536, usize::MAX] { for buffered in [false, true] {
                    r.case(|| format!("read {n} elements of {} in chunks of {chunk}, buffered: {buffered}", e.name));
                    r.transitions += 1; r.traces += 1;
                    let mut a = Chunked(&bytes, chunk);
                    let got = outcome(&e, guard(|| if buffered { (e.dec)(Src::Buf(&mut a), en(be)) } else { (e.dec)(Src::Unbuf(&mut a), en(be)) })).0;
                    if got != expected { wrong(r, &format!("{} stream in chunks of {chunk}", if buffered { "a buffered" } else { "an unbuffered" }), &got, &bytes); }
                } }
            }
            if what.cuts {
                for cut in [1, bytes.len() / 2, bytes.len().saturating_sub(65536).max(1)] { for s in SOURCES {
                    if !applicable(&e, s) || s == S::File && cut != 1 || cut >= bytes.len() { continue; }
                    r.case(|| format!("read {n} elements of {} from {s:?} with the last {cut} bytes missing", e.name));
                    r.transitions += 1; r.traces += 1;
                    let got = outcome(&e, decode(r, &e, s, &bytes[..bytes.len() - cut], be)).0;
                    // What is missing might have a default.
                    if e.group == "struct" && dec(&e.shape, &bytes[..bytes.len() - cut], be).val.is_ok() { continue; }
                    if !matches!(&got, Out::Err(c) if c.is_end()) { wrong(r, &format!("{s:?} with the last {cut} bytes missing"), &got, &bytes); }
                } }
            }
            if r.stop() { return; }
            }
        }
    }
}
