//! What errors say (C28).
use crate::codec::*;
use speedy::{Error, IsEof};
use std::error::Error as _;
use std::io::ErrorKind as K;
use vcore::gen::vals;
use vcore::inputs::*;
use vcore::run::Check;
use vcore::*;

/// What an error says, as far as a user can tell.
struct Said { text: String, eof: bool, io: Option<(std::io::ErrorKind, String)>, raw: Option<i32> }
/// Looks at an error from all sides, which have to agree.
fn examine(e: Error) -> Result<Said, String> {
    let (text, eof, again) = (e.to_string(), e.is_eof(), e.to_string());
    if text != again { return Err(format!("the message is {text:?}, and then {again:?}")); }
    if format!("{e:?}").is_empty() { return Err("there is no Debug output".into()); }
    let io = match e.source() {
        None => None,
        Some(s) => match s.downcast_ref::<std::io::Error>() { Some(x) => Some((x.kind(), x.to_string())), None => return Err(format!("the source is {s}")) },
    };
    let eof2 = io.as_ref().map(|x| x.0 == std::io::ErrorKind::UnexpectedEof);
    if eof2.map_or(false, |x| x != eof) { return Err(format!("is_eof says {eof} for {io:?}")); }
    if io.as_ref().map_or(false, |x| x.1 != text) { return Err(format!("the message is {text:?} for {io:?}")); }
    let c: std::io::Error = e.into();
    let kind = match &io { Some(x) => x.0, None if eof => std::io::ErrorKind::UnexpectedEof, None => std::io::ErrorKind::InvalidData };
    if c.kind() != kind { return Err(format!("{text:?} becomes an io::Error of kind {:?} instead of {kind:?}", c.kind())); }
    if c.to_string() != text { return Err(format!("{text:?} becomes an io::Error which says {:?}", c.to_string())); }
    Ok(Said { text, eof, io, raw: c.raw_os_error() })
}
fn reason(w: Why) -> String {
    match w {
        Why::Length => "out of range length".into(),
        Why::Utf8 => "encountered invalid utf-8".into(),
        Why::Variant => "invalid enum variant".into(),
        Why::Constant(n) => format!("expected a predefined {n} bytes(s) long constant"),
        Why::Char => "out of range char".into(),
        Why::Zero => "a field which is supposed to be non-zero is zero".into(),
        Why::Time => "encountered invalid system time object".into(),
        Why::Regex => "regex".into(),
    }
}
fn read_error(r: &mut Run, e: &Entry, be: bool, data: &[u8], scratch: &mut vcore::util::Scratch, ss: &[S]) {
    let m = dec(&e.shape, data, be);
    if m.ambiguous || m.val == Err(DecErr::Unbacked) { r.count("unspecified_inputs_skipped", 1); return; }
    let Err(want) = m.val else { return };
    for &s in ss {
        if !applicable(e, s) { continue; }
        r.case(|| format!("read {} {} {s:?} of {}", e.name, ends(be), hex(data)));
        r.traces += 1; r.transitions += 1;
        let placed = scratch.place(0, data);
        let Ok(DecOut { val: Err(x), .. }) = decode(r, e, s, placed, be) else { continue }; // C03 is about these.
        let bad = match examine(x) {
            Err(m) => Some(m),
            Ok(said) => {
                let stream = matches!(s, S::Unbuf | S::Buf);
                let small = format!("input buffer is too small; expected at least {} bytes, got {}", (e.min)(), data.len());
                let is_small = !stream && data.len() < (e.min)() && said.text == small && !said.eof && said.io.is_none();
                let ended = said.eof && said.io.as_ref().map_or(said.text == "unexpected end of input", |_| stream);
                let ok = match want {
                    DecErr::Eof => ended || is_small || (m.huge && said.text == "value cannot fit into an usize on this architecture"),
                    _ => {
                        let w = m.why.expect("harness: a reason");
                        let exact = if w == Why::Regex { said.io.as_ref().map_or(false, |x| x.0 == std::io::ErrorKind::Other) } else { said.text == reason(w) && !said.eof && said.io.is_none() };
                        exact || is_small || (m.short && ended)
                    }
                };
                r.count(match want { DecErr::Eof => "ends_of_input", _ => "malformed_inputs" }, 1);
                if ok { None } else { Some(format!("the error is {:?} ({:?}, is_eof {}), and should be about {}", said.text, said.io, said.eof, match want { DecErr::Eof => "the end of the input".to_string(), _ => reason(m.why.unwrap()) })) }
            }
        };
        if let Some(b) = bad { r.fail(&format!("{} read", e.name), format!("{} ({}): {} read from {s:?}: {b}", e.name, ends(be), hex(data))); return; }
    }
}
fn write_error(r: &mut Run, e: &Entry, be: bool, v: &Val) {
    for sink in 0..4 {
        r.case(|| format!("write {} {} {} to sink {sink}", e.name, show(v), ends(be)));
        r.traces += 1; r.transitions += 1;
        let (mut out, mut n) = (vec![], 0usize);
        let res = guard(|| match sink {
            0 => (e.enc)(v, en(be), Sink::Vec(&mut out)),
            1 => (e.enc)(v, en(be), Sink::Stream(&mut out)),
            2 => (e.enc)(v, en(be), Sink::Needed(&mut n)),
            _ => { out = vec![0; 100_000]; (e.enc)(v, en(be), Sink::Buffer(&mut out)) }
        });
        let Ok((order, Err(x))) = res else { continue };
        let want = enc(&e.shape, &order, be);
        let bad = match (examine(x), want) {
            (Err(m), _) => Some(m),
            (Ok(said), Err(w)) => {
                let name = |k: usize| [format!("the length of '{}' is not the same as its 'length' attribute", "abcdefghijkl".as_bytes()[k] as char), format!("the length of 't{k}' is not the same as its 'length' attribute")];
                let ok = !said.eof && said.io.is_none() && match w { EncErr::Range => said.text == "out of range length", EncErr::Mismatch(k) => name(k).contains(&said.text) };
                r.count("refused_writes", 1);
                if ok { None } else { Some(format!("the error is {:?}, and should be {w:?}", said.text)) }
            }
            _ => None, // C02 is about these.
        };
        if let Some(b) = bad { r.fail(&format!("{} write", e.name), format!("{} ({}): writing {} to sink {sink}: {b}", e.name, ends(be), show(v))); return; }
    }
    // Buffers which are too small.
    let Ok(b) = enc(&e.shape, v, be) else { return };
    if b.len() > 40 || shuffled(e) { return; }
    for n in 0..b.len() {
        r.case(|| format!("write {} {} {} to a buffer of {n} bytes", e.name, show(v), ends(be)));
        r.traces += 1; r.transitions += 1;
        let mut out = vec![0; n];
        let Ok((_, Err(x))) = guard(|| (e.enc)(v, en(be), Sink::Buffer(&mut out))) else { continue };
        let bad = match examine(x) {
            Err(m) => Some(m),
            Ok(said) => if said.text == format!("output buffer is too small; expected at least {} bytes, got {n}", b.len()) && !said.eof && said.io.is_none() { None } else { Some(format!("the error is {:?}", said.text)) },
        };
        r.count("small_buffers", 1);
        if let Some(m) = bad { r.fail(&format!("{} buffer", e.name), format!("{} ({}): writing {} ({} bytes) to a buffer of {n}: {m}", e.name, ends(be), show(v), b.len())); return; }
    }
}
fn c28(r: &mut Run) {
    let th = r.thorough;
    for e in catalog() {
        if !r.unit() { continue; }
        let mut scratch = vcore::util::Scratch::default();
        for be in BES {
            for v in vals(&e.shape, if th { 3 } else { 2 }) { if r.stop() { return; } r.see(&(be, &v)); write_error(r, &e, be, &v); }
            crate::attrs::odd_lengths(&e, th, &mut |v| { if !r.stop() { r.see(&(be, &v)); write_error(r, &e, be, v) } });
            let mut n = 0u64;
            let mut one = |r: &mut Run, d: &[u8], ss: &[S]| { if r.stop() { return; } r.see(&(be, d)); n += 1; read_error(r, &e, be, d, &mut scratch, ss); };
            each_input(&e, be, false, &mut |d| one(r, d, if th || d.len() < 6 { &[S::Buffer, S::Copying, S::Unbuf, S::Buf] } else { &[S::Buffer, S::Unbuf] }));
            strings(&ALL, if th { 2 } else { 1 }, &mut |d| one(r, d, &[S::Buffer, S::Copying, S::Unbuf, S::Buf]));
            for n in 3..=if th { 7 } else { 5 } { strings_of(&[0, 1, 2, 0xff], n, &mut |d| one(r, d, &[S::Buffer, S::Unbuf])); }
            r.sample(|| format!("{} {}: the errors of {n} inputs", e.name, ends(be)));
        }
    }
    // Errors of streams, custom errors.
    if r.unit() { for k in [K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::UnexpectedEof, K::Unsupported, K::OutOfMemory, K::Other] { for msg in ["y", "xyz", "é\n"] {
        for what in 0..3 {
            r.case(|| format!("an error of kind {k:?} ({msg:?}), way {what}"));
            r.states += 1; r.distinct += 1; r.traces += 1; r.transitions += 1;
            let make = || match what { 0 => std::io::Error::new(k, msg), 1 => std::io::Error::from(k), _ => std::io::Error::from_raw_os_error(5 + msg.len() as i32) };
            struct One(Option<std::io::Error>);
            impl std::io::Read for One { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(self.0.take().expect("read again after an error")) } }
            impl std::io::Write for One { fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(self.0.take().expect("written again after an error")) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
            use speedy::{Readable, Writable};
            let all = [
                ("a buffered stream", guard(|| u32::read_from_stream_buffered(One(Some(make()))).map(|_| ()))),
                ("an unbuffered stream", guard(|| u32::read_from_stream_unbuffered(One(Some(make()))).map(|_| ()))),
                ("a written stream", guard(|| 5u32.write_to_stream(One(Some(make()))))),
            ];
            for (name, res) in all {
                let bad = match res {
                    Err(p) => Some(p),
                    Ok(Ok(())) => Some("success".into()),
                    Ok(Err(x)) => {
                        match examine(x) {
                            Err(m) => Some(m),
                            Ok(s) => if s.io == Some((make().kind(), make().to_string())) && s.raw == make().raw_os_error() { None } else { Some(format!("it says {:?}, {:?}", s.io, s.raw)) },
                        }
                    }
                };
                if let Some(b) = bad { r.fail("stream error", format!("an error {:?} of {name}: {b}", make())); }
            }
        }
        let c = Error::custom(msg);
        let text = c.to_string();
        let io: std::io::Error = c.into();
        if text != msg || io.to_string() != msg || io.kind() != std::io::ErrorKind::Other { r.fail("custom", format!("the custom error {msg:?} says {text:?}, and becomes {io:?}")); }
    } } }
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C28", level: "model_checking", run: c28, rule: "Every failing write (values of all lengths around limits, wrong lengths, every buffer which is too small) and every failing read (the neighbours of valid encodings, all short strings) of every catalogued type: the message, is_eof, the source and the io::Error made of it have to agree with each other and with the first thing which the reference model finds wrong, including sizes, names of fields and lengths of constants; errors of 19 kinds of streams. State: (type, byte order, value or input).", assumptions: &["the messages are taken to be what a user sees"] }]
}
