//! C22: everything nested sees the caller's context, and errors of the user's own type come back as they are.
use vcore::util::*;
use speedy::{BigEndian, Context, Endianness, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::*;
use std::io::ErrorKind;
use vcore::env::Split;
use vcore::run::Check;
use vcore::*;

/// An error type of the user's own.
#[derive(Debug)]
pub enum Mine { Lib(speedy::Error), Own { code: u8, eof: bool } }
impl From<speedy::Error> for Mine { fn from(e: speedy::Error) -> Self { Mine::Lib(e) } }
impl IsEof for Mine { fn is_eof(&self) -> bool { match self { Mine::Lib(e) => e.is_eof(), Mine::Own { eof, .. } => *eof } } }
/// A context of the user's own.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctx { be: bool, count: u32 }
impl Context for Ctx { type Error = Mine; fn endianness(&self) -> Endianness { en(self.be) } }

/// Something which looks at the context, and changes it.
#[derive(Clone, Debug, PartialEq)]
pub enum Act { Set(bool), Toggle, Bump, Num(u16), Nums(Vec<u16>), Wide(u128), Fail(u8, bool), WFail(u8, bool) }
/// And what it saw.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Step { act: Act, seen: Option<(bool, u32)> }
impl Default for Act { fn default() -> Self { Act::Num(0) } }
impl<'a> Readable<'a, Ctx> for Step {
    fn read_from<R: Reader<'a, Ctx>>(r: &mut R) -> Result<Self, Mine> {
        let act = match r.read_u8()? {
            0 => { let be = r.read_u8()? != 0; r.context_mut().be = be; Act::Set(be) }
            1 => { let c = r.context_mut(); c.be = !c.be; Act::Toggle }
            2 => { r.context_mut().count += 1; Act::Bump }
            3 => Act::Num(r.read_u16()?),
            4 => Act::Nums(r.read_value()?),
            5 => Act::Wide(r.read_u128()?),
            k => { let code = r.read_u8()?; return Err(Mine::Own { code, eof: k == 7 }); }
        };
        Ok(Step { act, seen: Some((r.context().be, r.context().count)) })
    }
}
impl Writable<Ctx> for Step {
    fn write_to<W: ?Sized + Writer<Ctx>>(&self, w: &mut W) -> Result<(), Mine> {
        match &self.act {
            Act::Set(be) => { w.write_u8(0)?; w.write_u8(*be as u8)?; w.context_mut().be = *be; Ok(()) }
            Act::Toggle => { w.write_u8(1)?; let c = w.context_mut(); c.be = !c.be; Ok(()) }
            Act::Bump => { w.write_u8(2)?; w.context_mut().count += 1; Ok(()) }
            Act::Num(n) => { w.write_u8(3)?; w.write_u16(*n) }
            Act::Nums(n) => { w.write_u8(4)?; w.write_value(n) }
            Act::Wide(n) => { w.write_u8(5)?; w.write_u128(*n) }
            Act::Fail(c, eof) => { w.write_u8(6 + *eof as u8)?; w.write_u8(*c) }
            Act::WFail(c, eof) => Err(Mine::Own { code: *c, eof: *eof }),
        }
    }
}

/// The model: the bytes, and the context at the end of them.
struct Model { out: Vec<u8>, be: bool, count: u32, wfail: Option<(u8, bool)> }
impl Model {
    fn num(&mut self, v: u128, w: usize) { if self.wfail.is_some() { return; } for i in 0..w { self.out.push((v >> (8 * if self.be { w - 1 - i } else { i })) as u8); } }
    fn step(&mut self, s: &Step) {
        if self.wfail.is_some() { return; }
        match &s.act {
            Act::Set(be) => { self.out.extend([0, *be as u8]); self.be = *be; }
            Act::Toggle => { self.out.push(1); self.be = !self.be; }
            Act::Bump => { self.out.push(2); self.count += 1; }
            Act::Num(n) => { self.out.push(3); self.num(*n as u128, 2); }
            Act::Nums(n) => { self.out.push(4); self.num(n.len() as u128, 4); for x in n { self.num(*x as u128, 2); } }
            Act::Wide(n) => { self.out.push(5); self.num(*n, 16); }
            Act::Fail(c, eof) => self.out.extend([6 + *eof as u8, *c]),
            Act::WFail(c, eof) => self.wfail = Some((*c, *eof)),
        }
    }
}
/// What reading gives, according to the model: an error ends it, unless something recovers from it.
struct Replay { be: bool, count: u32 }
type Fails = (u8, bool);
impl Replay {
    fn step(&mut self, s: &Step) -> Result<Step, Fails> {
        match &s.act {
            Act::Set(be) => self.be = *be,
            Act::Toggle => self.be = !self.be,
            Act::Bump => self.count += 1,
            Act::Fail(c, e) => return Err((*c, *e)),
            _ => {}
        }
        Ok(Step { act: s.act.clone(), seen: Some((self.be, self.count)) })
    }
}
/// How steps may be nested.
trait Nest: Sized + PartialEq + std::fmt::Debug {
    const STEPS: usize;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self;
    fn enc(&self, m: &mut Model);
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails>;
}
impl Nest for Step {
    const STEPS: usize = 1;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { s.next().unwrap() }
    fn enc(&self, m: &mut Model) { m.step(self) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { r.step(self) }
}
impl<T: Nest, const N: usize> Nest for [T; N] {
    const STEPS: usize = T::STEPS * N;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { std::array::from_fn(|_| T::build(s)) }
    fn enc(&self, m: &mut Model) { self.iter().for_each(|x| x.enc(m)) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { let v: Vec<T> = self.iter().map(|x| x.dec(r)).collect::<Result<_, _>>()?; Ok(v.try_into().unwrap()) }
}
/// Two or three elements, according to which list.
macro_rules! lists { ($($t:ty, $n:literal;)*) => { $(impl Nest for $t {
    const STEPS: usize = $n;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { (0..$n).map(|_| Nest::build(s)).collect() }
    fn enc(&self, m: &mut Model) { m.num($n, 4); self.iter().for_each(|x| x.enc(m)) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { self.iter().map(|x| x.dec(r)).collect() }
})* } }
lists!(Vec<Step>, 3; Box<[Step]>, 3;);
impl Nest for Cow<'static, [Step]> {
    const STEPS: usize = 3;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { Cow::Owned(Nest::build(s)) }
    fn enc(&self, m: &mut Model) { self.to_vec().enc(m) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(Cow::Owned(self.to_vec().dec(r)?)) }
}
impl Nest for Option<Step> {
    const STEPS: usize = 1;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { s.next() }
    fn enc(&self, m: &mut Model) { m.num(1, 1); m.step(self.as_ref().unwrap()) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(Some(r.step(self.as_ref().unwrap())?)) }
}
impl Nest for Result<Step, Vec<Step>> {
    const STEPS: usize = 3;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { Err(Nest::build(s)) }
    fn enc(&self, m: &mut Model) { m.num(0, 1); self.as_ref().unwrap_err().enc(m) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(Err(self.as_ref().unwrap_err().dec(r)?)) }
}
impl Nest for Box<Step> {
    const STEPS: usize = 1;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { Box::new(s.next().unwrap()) }
    fn enc(&self, m: &mut Model) { m.step(self) }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(Box::new(r.step(self)?)) }
}
impl Nest for BTreeMap<u16, Step> {
    const STEPS: usize = 3;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { (0..3).map(|i| (i * 259, s.next().unwrap())).collect() }
    fn enc(&self, m: &mut Model) { m.num(3, 4); for (k, v) in self { if m.wfail.is_some() { return; } m.num(*k as u128, 2); m.step(v); } }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { self.iter().map(|(k, v)| Ok((*k, r.step(v)?))).collect() }
}
impl Nest for HashMap<u16, Step> {
    const STEPS: usize = 1;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { (0..1).map(|_| (259, s.next().unwrap())).collect() }
    fn enc(&self, m: &mut Model) { m.num(1, 4); for (k, v) in self { m.num(*k as u128, 2); m.step(v); } }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { self.iter().map(|(k, v)| Ok((*k, r.step(v)?))).collect() }
}
macro_rules! parts { ($([$($g:tt)*] $t:ty, $($f:tt: $ft:ty),*;)*) => { $(impl<$($g)*> Nest for $t {
    const STEPS: usize = 0 $(+ <$ft as Nest>::STEPS)*;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { let mut x: Self = Default::default(); $(x.$f = <$ft>::build(s);)* x }
    fn enc(&self, m: &mut Model) { $(self.$f.enc(m);)* }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { let mut x: Self = Default::default(); $(x.$f = self.$f.dec(r)?;)* Ok(x) }
})* } }
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct N1<S> { a: S, b: S, c: S }
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct N2<S>(S, N3<S>, S);
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct N3<S> { a: S, b: Option<S> }
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct N4<T> { a: T, b: [T; 2] }
parts!([] (Step, Step, Step), 0: Step, 1: Step, 2: Step; [] (Step, [Step; 2], Step), 0: Step, 1: [Step; 2], 2: Step; [] (Vec<Step>, Step), 0: Vec<Step>, 1: Step; [] N1<Step>, a: Step, b: Step, c: Step; [] N2<Step>, 0: Step, 1: N3<Step>, 2: Step; [] N3<Step>, a: Step, b: Option<Step>; [] N4<Step>, a: Step, b: [Step; 2];
    [] (Step, HashMap<u16, Step>, Option<Step>), 0: Step, 1: HashMap<u16, Step>, 2: Option<Step>; [] (Step, Vec<Step>, [Step; 2]), 0: Step, 1: Vec<Step>, 2: [Step; 2]; [] (Step, Vec<Step>), 0: Step, 1: Vec<Step>;);
/// What recovers from an end of the input recovers from errors which claim to be one.
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct R1<S> { a: S, #[speedy(default_on_eof)] b: Vec<S> }
impl Nest for R1<Step> {
    const STEPS: usize = 4;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { R1 { a: Nest::build(s), b: Nest::build(s) } }
    fn enc(&self, m: &mut Model) { self.a.enc(m); self.b.enc(m); }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(R1 { a: self.a.dec(r)?, b: match self.b.dec(r) { Err((_, true)) => vec![], x => x? } }) }
}
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct R2<S> { a: S, #[speedy(length = ..)] b: Vec<S> }
impl Nest for R2<Step> {
    const STEPS: usize = 4;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { R2 { a: Nest::build(s), b: Nest::build(s) } }
    fn enc(&self, m: &mut Model) { self.a.enc(m); self.b.iter().for_each(|x| x.enc(m)); }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> {
        let a = self.a.dec(r)?;
        let mut b = vec![];
        for x in &self.b { match x.dec(r) { Ok(x) => b.push(x), Err((_, true)) => break, Err(e) => return Err(e) } }
        Ok(R2 { a, b })
    }
}
/// An error swallowed by the first field does not make it to the second one.
#[derive(Readable, Writable, PartialEq, Debug, Default)] struct R3<S: Default> { #[speedy(default_on_eof)] a: S, b: S, #[speedy(default_on_eof)] c: S }
impl Nest for R3<Step> {
    const STEPS: usize = 3;
    fn build(s: &mut dyn Iterator<Item = Step>) -> Self { R3 { a: Nest::build(s), b: Nest::build(s), c: Nest::build(s) } }
    fn enc(&self, m: &mut Model) { self.a.enc(m); self.b.enc(m); self.c.enc(m); }
    fn dec(&self, r: &mut Replay) -> Result<Self, Fails> { Ok(R3 { a: match self.a.dec(r) { Err((_, true)) => Step::default(), x => x? }, b: self.b.dec(r)?, c: match self.c.dec(r) { Err((_, true)) => Step::default(), x => x? } }) }
}
/// The size calculation has no context, so it has to be done by hand.
struct Top<'x, T>(&'x T, usize);
impl<'x, T: Writable<Ctx>> Writable<Ctx> for Top<'x, T> {
    fn write_to<W: ?Sized + Writer<Ctx>>(&self, w: &mut W) -> Result<(), Mine> { self.0.write_to(w) }
    fn bytes_needed(&self) -> Result<usize, Mine> { Ok(self.1) }
}
struct UserWriter<'x> { out: &'x mut Vec<u8>, ctx: &'x mut Ctx }
impl<'x> Writer<Ctx> for UserWriter<'x> {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), Mine> { self.out.extend_from_slice(b); Ok(()) }
    fn context(&self) -> &Ctx { self.ctx }
    fn context_mut(&mut self) -> &mut Ctx { self.ctx }
}

fn same<T: PartialEq + std::fmt::Debug>(got: &Result<T, Mine>, want: &Result<T, Fails>) -> bool {
    match (got, want) { (Ok(a), Ok(b)) => a == b, (Err(Mine::Own { code, eof }), Err(w)) => (*code, *eof) == *w, _ => false }
}
fn explore<T: Nest + Readable<'static, Ctx> + Writable<Ctx>>(r: &mut Run, name: &str, menu: &[Act]) {
    let n = T::STEPS;
    let total = menu.len().pow(n as u32);
    for start in 0..total {
        // A unit for every choice of the first step.
        if start % (total / menu.len()).max(1) == 0 && !r.unit() { continue; }
        if start % (total / menu.len()).max(1) != 0 && !r.in_unit() { continue; }
        let mut k = start;
        let mut acts: Vec<Act> = (0..n).map(|_| { let a = menu[k % menu.len()].clone(); k /= menu.len(); a }).collect();
        acts.reverse();
        // Every failure has a code of its own.
        for (i, a) in acts.iter_mut().enumerate() { if let Act::Fail(c, _) | Act::WFail(c, _) = a { *c = 0x40 + i as u8; } }
        let value = T::build(&mut acts.iter().map(|a| Step { act: a.clone(), seen: None }));
        for be in BES {
            let ctx = Ctx { be, count: 5 };
            let mut m = Model { out: vec![], be, count: 5, wfail: None };
            value.enc(&mut m);
            r.states += 1;
            r.see(&(name, start, be));
            let end = Ctx { be: m.be, count: m.count };
            let wfail = m.wfail;
            for sink in 0..7 {
                let label = ["write_to_vec_with_ctx", "write_to_vec_with_ctx_mut", "write_to_buffer_with_ctx", "write_to_buffer_with_ctx_mut", "write_to_stream_with_ctx", "a user's writer", "write_to_file_with_ctx"][sink];
                if sink == 6 && start % 64 != 0 { continue; }
                r.case(|| format!("{name} {acts:?} {} to {label}", ends(be)));
                r.traces += 1; r.transitions += n as u64;
                let mut c = ctx;
                let mut out = vec![];
                // When it fails, what was written before is in there, except for a vector.
                let top = Top(&value, m.out.len());
                let res = guard(|| match sink {
                    0 => top.write_to_vec_with_ctx(ctx).map(|v| out = v),
                    1 => top.write_to_vec_with_ctx_mut(&mut c).map(|v| out = v),
                    2 => { out = vec![0; m.out.len()]; top.write_to_buffer_with_ctx(ctx, &mut out) }
                    3 => { out = vec![0; m.out.len()]; top.write_to_buffer_with_ctx_mut(&mut c, &mut out) }
                    4 => top.write_to_stream_with_ctx(ctx, &mut out),
                    5 => top.write_to(&mut UserWriter { out: &mut out, ctx: &mut c }),
                    _ => { let p = r.dir.join("out"); let x = top.write_to_file_with_ctx(ctx, &p); out = std::fs::read(&p).unwrap(); x }
                });
                let want: Result<(), Fails> = match wfail { Some(e) => Err(e), None => Ok(()) };
                let bytes = match (&want, sink) { (Err(_), 0 | 1) => vec![], _ => m.out.clone() };
                let m = match res {
                    Err(m) => m,
                    Ok(x) if !same(&x, &want) => format!("{x:?} instead of {want:?}"),
                    Ok(_) if out != bytes => format!("{} instead of {}", hex(&out), hex(&bytes)),
                    Ok(_) if matches!(sink, 1 | 3 | 5) && c != end => format!("the context is {c:?} instead of {end:?} afterwards"),
                    _ => continue,
                };
                r.fail(&format!("{name} {label}"), format!("{name} {acts:?} ({}), {label}: {m}", ends(be)));
            }
            if wfail.is_some() { continue; }
            let mut re = Replay { be, count: 5 };
            let want = value.dec(&mut re);
            let end = Ctx { be: re.be, count: re.count };
            let d: &'static [u8] = unsafe { std::mem::transmute::<&[u8], _>(&m.out[..]) };
            for src in 0..9 {
                let label = ["read_from_buffer_with_ctx", "read_from_buffer_copying_data_with_ctx", "read_with_length_from_buffer_copying_data_with_ctx_mut", "a user's reader", "read_from_stream_unbuffered_with_ctx", "read_from_stream_buffered_with_ctx", "read_from_stream_buffered_with_ctx (3)", "read_with_length_from_buffer_with_ctx", "read_from_file_with_ctx"][src];
                if src == 8 && start % 64 != 0 { continue; }
                r.case(|| format!("{name} {acts:?} {} from {label}", ends(be)));
                r.traces += 1; r.transitions += n as u64;
                let mut c = None;
                let res: Result<Result<T, Mine>, String> = guard(|| match src {
                    0 => T::read_from_buffer_with_ctx(ctx, d),
                    1 => T::read_from_buffer_copying_data_with_ctx(ctx, d),
                    2 => { let mut x = ctx; let v = T::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut x, d).0; c = Some(x); v }
                    3 => { let mut u = UserReader { data: d, pos: 0, ctx }; let v = T::read_from(&mut u); c = Some(u.ctx); v }
                    4 => T::read_from_stream_unbuffered_with_ctx(ctx, Split::new(d, !0, true)),
                    5 => T::read_from_stream_buffered_with_ctx(ctx, d),
                    6 => { set_capacity(3); let v = T::read_from_stream_buffered_with_ctx(ctx, Split::new(d, 0x5555_5555_5555_5555, true)); set_capacity(0); v }
                    7 => T::read_with_length_from_buffer_with_ctx(ctx, d).0,
                    _ => { let p = r.dir.join("in"); std::fs::write(&p, d).unwrap(); T::read_from_file_with_ctx(ctx, &p) }
                });
                let m = match res {
                    Err(m) => m,
                    Ok(x) if !same(&x, &want) => format!("{x:?} instead of {want:?}"),
                    Ok(_) if c.map_or(false, |c| c != end) => format!("the context is {c:?} instead of {end:?} afterwards"),
                    _ => continue,
                };
                r.fail(&format!("{name} {label}"), format!("{name} {acts:?} ({}) from {}, {label}: {m}", ends(be), hex(d)));
            }
        }
        if start == total / 3 { r.sample(|| format!("{name} {acts:?}: the same bytes everywhere, the same context afterwards")); }
        if r.stop() { return; }
    }
}

#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct F1 { a: u16, b: Vec<u32>, #[speedy(length_type = u16)] c: String, d: Option<u64>, #[speedy(varint)] e: u64 }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] #[speedy(tag_type = u16)] enum F2 { A, B(u32, F3), C { x: [u16; 3] } }
#[derive(Readable, Writable, PartialEq, Debug, Clone, Copy)] #[repr(C)] struct F3 { a: u16, b: u16 }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct F4 { x: u16, #[speedy(default_on_eof)] y: Vec<u16>, #[speedy(default_on_eof)] z: u32 }
trait In<C: Context>: Readable<'static, C> + Writable<C> {}
impl<T: Readable<'static, C> + Writable<C>, C: Context> In<C> for T {}
trait Value: In<Endianness> + In<LittleEndian> + In<BigEndian> + In<Ctx> + PartialEq + std::fmt::Debug {}
impl<T: In<Endianness> + In<LittleEndian> + In<BigEndian> + In<Ctx> + PartialEq + std::fmt::Debug> Value for T {}
/// The same under every context which has that order.
fn under<C: Context, T: In<C> + PartialEq + std::fmt::Debug>(r: &mut Run, name: &str, label: &str, be: bool, v: &T, ctx: fn(bool) -> C, one: &'static [u8]) where C::Error: std::fmt::Debug {
    r.case(|| format!("{name} ({}) under {label}", ends(be)));
    r.traces += 12; r.transitions += 12;
    let dir = r.dir.clone();
    let m = guard(|| {
        let mut wrong: Vec<&str> = vec![];
        let mut buf = vec![0u8; one.len()];
        let mut s = vec![];
        if v.write_to_vec_with_ctx(ctx(be)).ok().as_deref() != Some(one) { wrong.push("write_to_vec_with_ctx"); }
        if v.write_to_vec_with_ctx_mut(&mut ctx(be)).ok().as_deref() != Some(one) { wrong.push("write_to_vec_with_ctx_mut"); }
        if v.write_to_buffer_with_ctx(ctx(be), &mut buf).is_err() || buf != *one { wrong.push("write_to_buffer_with_ctx"); }
        if v.write_to_stream_with_ctx(ctx(be), &mut s).is_err() || s != *one { wrong.push("write_to_stream_with_ctx"); }
        if T::read_from_buffer_with_ctx(ctx(be), one).ok().as_ref() != Some(v) { wrong.push("read_from_buffer_with_ctx"); }
        if T::read_from_buffer_copying_data_with_ctx(ctx(be), one).ok().as_ref() != Some(v) { wrong.push("read_from_buffer_copying_data_with_ctx"); }
        if T::read_from_stream_unbuffered_with_ctx(ctx(be), one).ok().as_ref() != Some(v) { wrong.push("read_from_stream_unbuffered_with_ctx"); }
        if T::read_from_stream_buffered_with_ctx(ctx(be), one).ok().as_ref() != Some(v) { wrong.push("read_from_stream_buffered_with_ctx"); }
        let (a, b) = (T::read_with_length_from_buffer_with_ctx(ctx(be), one), T::read_with_length_from_buffer_copying_data_with_ctx(ctx(be), one));
        if a.0.ok().as_ref() != Some(v) || a.1 != one.len() { wrong.push("read_with_length_from_buffer_with_ctx"); }
        if b.0.ok().as_ref() != Some(v) || b.1 != one.len() { wrong.push("read_with_length_from_buffer_copying_data_with_ctx"); }
        let (p, q) = (dir.join("a"), dir.join("b"));
        if v.write_to_file_with_ctx(ctx(be), &p).is_err() || std::fs::read(&p).unwrap() != one { wrong.push("write_to_file_with_ctx"); }
        std::fs::write(&q, one).unwrap();
        if T::read_from_file_with_ctx(ctx(be), &q).ok().as_ref() != Some(v) { wrong.push("read_from_file_with_ctx"); }
        wrong.join(", ")
    });
    match m { Ok(m) if m.is_empty() => {} Ok(m) | Err(m) => r.fail(&format!("{name} {label}"), format!("{name} ({}) is different under {label}: {m}", ends(be))) }
}
fn read4<C: Context, T: In<C>>(k: usize, c: C, b: &'static [u8]) -> Result<Result<T, C::Error>, String> {
    guard(|| match k { 0 => T::read_from_buffer_with_ctx(c, b), 1 => T::read_from_buffer_copying_data_with_ctx(c, b), 2 => T::read_from_stream_unbuffered_with_ctx(c, b), _ => T::read_from_stream_buffered_with_ctx(c, b) })
}
fn fixed_one<T: Value>(r: &mut Run, name: &str, v: T) {
    if !r.unit() { return; }
    for be in BES {
        let one: &'static [u8] = Vec::leak(v.write_to_vec_with_ctx(en(be)).unwrap());
        r.see(&(name, be, &one));
        r.states += 1;
        if be { under(r, name, "BigEndian", be, &v, |_| BigEndian {}, one); } else { under(r, name, "LittleEndian", be, &v, |_| LittleEndian {}, one); }
        under(r, name, "Endianness", be, &v, en, one);
        under(r, name, "a context of the user's own", be, &v, |be| Ctx { be, count: 0 }, one);
        // What goes wrong goes wrong in the same way, apart from the type of the error.
        let mut bad: Vec<Vec<u8>> = (0..one.len()).map(|n| one[..n].to_vec()).collect();
        for i in 0..one.len() { for x in [0, 1, 2, 0x7f, 0x80, 0xff] { let mut b = one.to_vec(); b[i] = x; bad.push(b); } }
        for b in bad {
            let b: &'static [u8] = Vec::leak(b);
            for k in 0..4 {
                r.case(|| format!("{name} ({}) from {} with another type of errors", ends(be), hex(b)));
                r.traces += 2; r.transitions += 2;
                let lib = read4::<Endianness, T>(k, en(be), b);
                let own = read4::<Ctx, T>(k, Ctx { be, count: 0 }, b);
                let fine = match (&lib, &own) { (Ok(Ok(a)), Ok(Ok(b))) => a == b || format!("{a:?}") == format!("{b:?}"), (Ok(Err(a)), Ok(Err(Mine::Lib(b)))) => classify(a) == classify(b) && a.to_string() == b.to_string(), (Err(a), Err(b)) => a == b, _ => false };
                if !fine { r.fail(&format!("{name} errors"), format!("{name} ({}) from {}: {lib:?}, but {own:?} with errors of the user's own", ends(be), hex(b))); }
            }
        }
    }
}
/// Without a context it is little endian.
macro_rules! fixed { ($r:ident, $($t:ty = $v:expr;)*) => { $( fixed_one::<$t>($r, stringify!($t), $v); if $r.in_unit() { fn plain(r: &mut Run) {
    let v: $t = $v;
    let name = stringify!($t);
    r.case(|| format!("{name} without a context"));
    r.traces += 10; r.transitions += 10;
    let le: &'static [u8] = Vec::leak(v.write_to_vec_with_ctx(en(false)).unwrap());
    let dir = r.dir.clone();
    let m = guard(|| {
        let mut wrong: Vec<&str> = vec![];
        let mut buf = vec![0u8; le.len()];
        let mut s = vec![];
        let p = dir.join("c");
        if v.write_to_vec().ok().as_deref() != Some(le) { wrong.push("write_to_vec"); }
        if v.write_to_buffer(&mut buf).is_err() || buf != *le { wrong.push("write_to_buffer"); }
        if v.write_to_stream(&mut s).is_err() || s != *le { wrong.push("write_to_stream"); }
        if v.write_to_file(&p).is_err() || std::fs::read(&p).unwrap() != le { wrong.push("write_to_file"); }
        if <$t>::read_from_buffer(le).ok().as_ref() != Some(&v) { wrong.push("read_from_buffer"); }
        if <$t>::read_from_buffer_copying_data(le).ok().as_ref() != Some(&v) { wrong.push("read_from_buffer_copying_data"); }
        if <$t>::read_from_stream_unbuffered(le).ok().as_ref() != Some(&v) { wrong.push("read_from_stream_unbuffered"); }
        if <$t>::read_from_stream_buffered(le).ok().as_ref() != Some(&v) { wrong.push("read_from_stream_buffered"); }
        if <$t>::read_from_file(&p).ok().as_ref() != Some(&v) { wrong.push("read_from_file"); }
        let (a, b) = (<$t>::read_with_length_from_buffer(le), <$t>::read_with_length_from_buffer_copying_data(le));
        if a.0.ok().as_ref() != Some(&v) || a.1 != le.len() || b.0.ok().as_ref() != Some(&v) || b.1 != le.len() { wrong.push("read_with_length_from_buffer"); }
        wrong.join(", ")
    });
    match m { Ok(m) if m.is_empty() => {} Ok(m) | Err(m) => r.fail(&format!("{name} default"), format!("{name} is not little endian without a context: {m}")) }
} plain($r); } )* } }

fn c22(r: &mut Run) {
    fixed!(r, u8 = 0x12; u16 = 0x1234; u32 = 0x1234_5678; u64 = 0x0102_0304_0506_0708; u128 = 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10; i8 = -5; i16 = -500; i32 = -0x123456; i64 = -0x1234_5678_9abc; i128 = -0x1234_5678_9abc; f32 = 1.5; f64 = -2.25e-30; bool = true; char = '\u{1f600}'; usize = 0x1234;
        String = "h\u{e9}llo".into(); Vec<u8> = vec![1, 2, 3]; Vec<u16> = vec![0x102, 0x304]; Vec<u64> = vec![1 << 40]; Vec<F3> = vec![F3 { a: 0x102, b: 0x304 }; 2]; [u32; 2] = [0x0102_0304, 9]; Option<u16> = Some(0x1ff); Result<u16, u32> = Err(0x1_0002); (u8, u16, u32) = (1, 0x203, 0x4050607);
        BTreeMap<u16, u32> = [(0x102, 5), (0x304, 6)].into(); HashMap<u16, String> = [(0x102, "x".to_string())].into(); BTreeSet<u32> = [1, 256].into(); Cow<'static, [u16]> = vec![0x102, 0x304].into(); Cow<'static, str> = "abc".into(); Box<[u32]> = vec![1, 2].into();
        std::time::Duration = std::time::Duration::new(0x102, 0x304); std::num::NonZeroU32 = 0x102.try_into().unwrap(); std::net::Ipv4Addr = [1, 2, 3, 4].into(); std::ops::Range<u16> = 0x102..0x304;
        F1 = F1 { a: 0x102, b: vec![3, 0x405], c: "xyz".into(), d: Some(7), e: 300 }; F2 = F2::B(0x102, F3 { a: 0x304, b: 5 }); F2 = F2::C { x: [1, 0x203, 4] }; F2 = F2::A; F4 = F4 { x: 1, y: vec![0x203, 4], z: 5 };);
    let th = r.thorough;
    let menu = [Act::Num(0x1234), Act::Set(false), Act::Set(true), Act::Toggle, Act::Bump, Act::Nums(vec![0x102, 0x304]), Act::Wide(0x0102_0304_0506_0708), Act::Fail(0, false), Act::Fail(0, true), Act::WFail(0, false), Act::WFail(0, true)];
    macro_rules! nests { ($($t:ty),*) => { $( explore::<$t>(r, stringify!($t), &menu); )* } }
    nests!(Step, Box<Step>, Option<Step>, [Step; 2], N3<Step>, [Step; 3], Vec<Step>, Box<[Step]>, Cow<'static, [Step]>, Result<Step, Vec<Step>>, BTreeMap<u16, Step>, HashMap<u16, Step>, (Step, Step, Step), N1<Step>, N4<Step>, (Step, HashMap<u16, Step>, Option<Step>), (Step, [Step; 2], Step), (Vec<Step>, Step), (Step, Vec<Step>), N2<Step>, R1<Step>, R2<Step>, R3<Step>);
    nests!([Step; 5], [N3<Step>; 2]);
    if th { nests!([Step; 6], (Step, Vec<Step>, [Step; 2]), [N3<Step>; 3]); }
    // A context is not always there, which is a defect (see known_findings.txt).
    if r.unit() {
        r.case(|| "the size of something which changes the context".into());
        if guard(|| Step { act: Act::Toggle, seen: None }.write_to_vec_with_ctx(Ctx { be: false, count: 0 })).is_err() { r.fail("bytes_needed panics for a Writable whose write_to looks at the context, unless it has a bytes_needed of its own", "bytes_needed panics for a Writable whose write_to looks at the context".into()); }
    }
    let _ = ErrorKind::Other;
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C22", level: "model_checking", run: c22, rule: "Every sequence of up to 5 (thorough: 6) out of 11 steps (set, toggle or count in the context, numbers, vectors, failures while reading or writing, claiming to be an end of input or not), nested in 25 (28) ways, through every function taking a context, in both initial byte orders; the bytes, what every step saw, the error and the context afterwards are compared with a model. Besides, 41 values under 5 kinds of contexts through every function, with every truncation and six replacements for every byte. State: (nesting, steps, byte order).", assumptions: &["the size calculation has no context (a known finding), so the types here calculate their size themselves"] }]
}
