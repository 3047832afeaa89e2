//! Operations do not influence each other (C30).
//!
//! A *task* reads or writes one value, and yields wherever control gets out of the library: whenever its stream is read from or written
//! to, and whenever a `Readable` or `Writable` of the user is called. Two tasks are run under every schedule with few switches, either in
//! two threads of which only one is allowed to go on at a time, or in one thread, in which one runs in the middle of the other.
use crate::codec::*;
use speedy::{Context, Readable, Reader, Writable, Writer};
use std::cell::{Cell, RefCell};
use std::io::{ErrorKind, Read, Write};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use vcore::gen::vals;
use vcore::inputs::*;
use vcore::run::Check;
use vcore::*;

thread_local!(static HOOK: RefCell<Option<Box<dyn FnMut(u64)>>> = const { RefCell::new(None) });
thread_local!(static COUNT: Cell<u64> = const { Cell::new(0) });
/// Control is outside of the library. Whatever runs in here runs in the middle of the current task.
fn yields() {
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if let Some(mut h) = HOOK.with(|h| h.borrow_mut().take()) {
        h(n);
        HOOK.with(|x| *x.borrow_mut() = Some(h));
        COUNT.with(|c| c.set(n));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate { Fine, Fails(u64), Panics(u64) }
impl Fate {
    fn strike(self, call: u64) -> std::io::Result<()> {
        match self { Fate::Fails(n) if n == call => Err(ErrorKind::WouldBlock.into()), Fate::Panics(n) if n == call => panic!("the stream panics"), _ => Ok(()) }
    }
}
struct In<'x> { data: &'x [u8], chunk: usize, calls: u64, fate: Fate }
impl Read for In<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        yields();
        self.fate.strike(self.calls)?;
        let n = out.len().min(self.data.len()).min(self.chunk);
        out[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct Outlet<'x> { got: &'x mut Vec<u8>, chunk: usize, calls: u64, fate: Fate }
impl Write for Outlet<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        yields();
        self.fate.strike(self.calls)?;
        let n = b.len().min(self.chunk);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { yields(); Ok(()) }
}
/// An element of the user's, which yields. 0xee panics, and 0xef is rejected.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Y(u16);
fn rejection() -> speedy::Error { speedy::Error::custom("rejected by the user") }
impl<'a, C: Context> Readable<'a, C> for Y {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        yields();
        let x = r.read_u16()?;
        yields();
        if x == 0xee { panic!("the user panics"); }
        if x == 0xef { return Err(rejection().into()); }
        Ok(Y(x))
    }
    fn minimum_bytes_needed() -> usize { 2 }
}
impl<C: Context> Writable<C> for Y {
    fn write_to<T: ?Sized + Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> {
        yields();
        if self.0 == 0xee { panic!("the user panics"); }
        if self.0 == 0xef { return Err(rejection().into()); }
        w.write_u16(self.0)?;
        yields();
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, C::Error> { yields(); Ok(2) }
}
#[derive(Readable, Writable, Clone, PartialEq, Debug)]
struct Users {
    #[speedy(length_type = u8)] a: Vec<Y>,
    b: [Y; 2],
    #[speedy(varint)] c: u64,
    d: Option<Y>,
    #[speedy(skip)] e: u8,
    #[speedy(constant_prefix = "ab")] f: (Y, u32),
    g: std::collections::BTreeMap<Y, String>,
    #[speedy(default_on_eof)] h: Box<[Y]>,
}
fn users(bad: u16) -> Users {
    let y = Y;
    Users { a: vec![y(1), y(2)], b: [y(3), y(bad)], c: 1 << 40, d: Some(y(5)), e: 0, f: (y(6), 0x01020304), g: [(y(7), "x".to_string()), (y(8), String::new())].into(), h: vec![y(9)].into() }
}

#[derive(Clone, PartialEq, Debug)]
struct Seen { how: String, bytes: Vec<u8> }
struct Task { name: String, run: Box<dyn Fn() -> Seen + Send + Sync>, want: Option<Seen> }
fn seen(r: Result<(Result<String, speedy::Error>, Vec<u8>), String>) -> Seen {
    match r {
        Err(p) => Seen { how: p.split(" at ").next().unwrap().to_string(), bytes: vec![] },
        Ok((Ok(v), b)) => Seen { how: v, bytes: b },
        Ok((Err(e), b)) => Seen { how: format!("{:?}: {e}", classify(&e)), bytes: b },
    }
}
fn reads(e: &Entry, data: &[u8], be: bool, buffered: Option<usize>, chunk: usize, fate: Fate) -> Task {
    let m = dec(&e.shape, data, be);
    let want = if fate == Fate::Fine { m.val.ok().map(|v| Seen { how: format!("{:?}", canon(&e.shape, &v)), bytes: vec![] }) } else { None };
    let (e2, d) = (e.clone(), data.to_vec());
    Task { name: format!("read {} {} of {} from a stream ({buffered:?}, {chunk}, {fate:?})", e.name, ends(be), hex(data)), want, run: Box::new(move || {
        seen(guard(|| {
            let mut s = In { data: &d, chunk, calls: 0, fate };
            let o = match buffered {
                None => (e2.dec)(Src::Unbuf(&mut s), en(be)),
                // Only one of the threads goes on at a time, and the capacity is looked at before the stream is.
                Some(c) => { set_capacity(c); (e2.dec)(Src::Buf(&mut s), en(be)) }
            };
            (o.val.map(|v| format!("{:?}", canon(&e2.shape, &v))), vec![])
        }))
    }) }
}
fn writes(e: &Entry, v: &Val, be: bool, chunk: usize, fate: Fate) -> Task {
    // In the order in which the container yields them.
    let order = guard(|| (e.enc)(v, en(be), Sink::Vec(&mut vec![])).0).unwrap_or(v.clone());
    let want = if fate == Fate::Fine && !shuffled(e) { enc(&e.shape, &order, be).ok().map(|b| Seen { how: "written".into(), bytes: b }) } else { None };
    let (e2, v2) = (e.clone(), v.clone());
    Task { name: format!("write {} {} {} to a stream ({chunk}, {fate:?})", e.name, show(v), ends(be)), want, run: Box::new(move || {
        seen(guard(|| {
            let mut got = vec![];
            let r = { let mut s = Outlet { got: &mut got, chunk, calls: 0, fate }; (e2.enc)(&v2, en(be), Sink::Stream(&mut s)).1 };
            (r.map(|_| "written".to_string()), got)
        }))
    }) }
}
/// Skips more than any buffer has room for.
#[derive(PartialEq, Debug)]
struct Skipper(u8, u16, Y, u8);
impl<'a, C: Context> Readable<'a, C> for Skipper {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let a = r.read_u8()?;
        r.skip_bytes(5000)?;
        let b = r.peek_u16()?;
        let c = r.read_value()?;
        r.skip_bytes(3)?;
        Ok(Skipper(a, b, c, r.read_u8()?))
    }
}
static FILES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn of_users(be: bool, thorough: bool, dir: &std::path::Path) -> Vec<Task> {
    let mut out = vec![];
    let good = users(4);
    let bytes = good.write_to_vec_with_ctx(en(be)).unwrap();
    for bad in [4u16, 0xee, 0xef] {
        let v = users(bad);
        for sink in 0..5 {
            if sink > 1 && bad != 4 && !thorough { continue; }
            let (v, want, dir) = (v.clone(), bytes.clone(), dir.to_path_buf());
            out.push(Task { name: format!("write {v:?} {} to sink {sink}", ends(be)), want: if bad == 4 && sink != 3 { Some(Seen { how: "written".into(), bytes: want.clone() }) } else { None }, run: Box::new(move || seen(guard(|| {
                let mut got = vec![];
                let r = match sink {
                    0 => v.write_to_vec_with_ctx(en(be)).map(|b| got = b),
                    1 => { let mut s = Outlet { got: &mut got, chunk: 7, calls: 0, fate: Fate::Fine }; v.write_to_stream_with_ctx(en(be), &mut s) }
                    2 => { got = vec![0; want.len()]; v.write_to_buffer_with_ctx(en(be), &mut got) }
                    4 => { let p = dir.join(format!("y{}", FILES.fetch_add(1, std::sync::atomic::Ordering::Relaxed))); let r = guard(|| v.write_to_file_with_ctx(en(be), &p)); got = std::fs::read(&p).unwrap_or_default(); let _ = std::fs::remove_file(&p); match r { Ok(r) => { if r.is_err() { got.clear(); } r }, Err(m) => std::panic::resume_unwind(Box::new(m)) } }
                    _ => Writable::<speedy::Endianness>::bytes_needed(&v).map(|n| got = n.to_le_bytes().to_vec()),
                };
                (r.map(|_| "written".to_string()), got)
            }))) });
        }
        let mut data = bytes.clone();
        let at = data.windows(2).position(|w| w == if be { [0, 4] } else { [4, 0] }).unwrap();
        data[at] = if be { 0 } else { bad as u8 }; data[at + 1] = if be { bad as u8 } else { 0 };
        for source in 0..5 {
            if source > 1 && bad != 4 && !thorough { continue; }
            let (d, good, dir) = (data.clone(), good.clone(), dir.to_path_buf());
            out.push(Task { name: format!("read {} {} from source {source}", hex(&d), ends(be)), want: if bad == 4 { Some(Seen { how: format!("{good:?}"), bytes: vec![] }) } else { None }, run: Box::new(move || seen(guard(|| {
                let r = match source {
                    0 => Users::read_from_buffer_with_ctx(en(be), &d),
                    1 => { set_capacity(4); Users::read_from_stream_buffered_with_ctx(en(be), In { data: &d, chunk: 5, calls: 0, fate: Fate::Fine }) }
                    2 => Users::read_from_buffer_copying_data_with_ctx(en(be), &d),
                    4 => { let p = dir.join(format!("y{}", FILES.fetch_add(1, std::sync::atomic::Ordering::Relaxed))); std::fs::write(&p, &d).unwrap(); let r = guard(|| Users::read_from_file_with_ctx(en(be), &p)); let _ = std::fs::remove_file(&p); match r { Ok(r) => r, Err(m) => std::panic::resume_unwind(Box::new(m)) } }
                    _ => Users::read_from_stream_unbuffered_with_ctx(en(be), In { data: &d, chunk: 5, calls: 0, fate: Fate::Fine }),
                };
                (r.map(|v| format!("{v:?}")), vec![])
            }))) });
        }
    }
    let mut d: Vec<u8> = (0..5008u32).map(|x| (x * 7) as u8).collect();
    d[5001] = 1; d[5002] = 2;
    let want = Skipper(d[0], if be { 0x0102 } else { 0x0201 }, Y(if be { 0x0102 } else { 0x0201 }), d[5006]);
    for (source, fate) in (0..3).flat_map(|s| [Fate::Fine, Fate::Fails(3), Fate::Panics(3)].map(|f| (s, f))) {
        let d = d.clone();
        out.push(Task { name: format!("skip a lot {} from source {source} ({fate:?})", ends(be)), want: if fate == Fate::Fine { Some(Seen { how: format!("{want:?}"), bytes: vec![] }) } else { None }, run: Box::new(move || seen(guard(|| {
            let s = In { data: &d, chunk: 700, calls: 0, fate };
            let r = match source {
                0 => Skipper::read_from_stream_unbuffered_with_ctx(en(be), s),
                1 => { set_capacity(0); Skipper::read_from_stream_buffered_with_ctx(en(be), s) }
                _ => { set_capacity(6); Skipper::read_from_stream_buffered_with_ctx(en(be), s) }
            };
            (r.map(|v| format!("{v:?}")), vec![])
        }))) });
    }
    out
}
/// The tasks; few of them are enough for threads.
fn tasks(thorough: bool, few: bool, dir: &std::path::Path) -> Vec<Task> {
    let mut out = vec![];
    let all = catalog();
    let mut groups: Vec<&str> = all.iter().map(|e| e.group).collect();
    groups.sort(); groups.dedup();
    for g in groups {
        let here: Vec<&Entry> = all.iter().filter(|e| e.group == g && !e.borrows && !shuffled(e)).collect();
        let want = match (thorough, few) { (false, false) => 4, (false, true) => 1, (true, false) => 10, (true, true) => 3 };
        let mut taken = 0;
        // Evenly from the group.
        for k in 0..here.len() {
            if taken * here.len() > k * want { continue; }
            let e = here[k];
            let vs = vals(&e.shape, 1);
            let be = k % 2 == 0;
            let Some((i, b)) = encodings(&e.shape, &vs, be).into_iter().filter(|x| x.1.len() >= 4 && x.1.len() <= 24).max_by_key(|x| x.1.len().min(12)) else { continue };
            taken += 1;
            out.push(reads(e, &b, be, None, 3, Fate::Fine));
            out.push(reads(e, &b, be, Some(5), 2, Fate::Fine));
            out.push(writes(e, &vs[i], be, 2, Fate::Fine));
            if few && taken > 1 { continue; }
            out.push(reads(e, &b[..b.len() - 1], be, Some(0), 3, Fate::Fine));
            out.push(reads(e, &b, be, None, 1, Fate::Fails(2)));
            out.push(writes(e, &vs[i], be, 1, Fate::Fails(2)));
            out.push(reads(e, &b, be, Some(3), 1, Fate::Panics(2)));
            out.push(writes(e, &vs[i], be, 1, Fate::Panics(2)));
        }
    }
    for be in BES { out.extend(of_users(be, thorough, dir)); }
    out
}

/// Runs a task on its own; also returns how often it yields.
fn alone(t: &Task) -> (Seen, u64) {
    COUNT.with(|c| c.set(0));
    let s = (t.run)();
    (s, COUNT.with(|c| c.get()))
}

/// A thread which runs tasks, and stops where it is told to.
struct Actor { to: Sender<Order>, from: Receiver<Option<Seen>> }
enum Order { Start(usize, Vec<u64>), Go }
fn actor(tasks: Arc<Vec<Task>>) -> Actor {
    let (to, orders) = channel::<Order>();
    let (tell, from) = channel();
    std::thread::spawn(move || {
        let orders = std::rc::Rc::new(orders);
        while let Ok(o) = orders.recv() {
            let Order::Start(i, stops) = o else { continue };
            let (orders2, tell2) = (orders.clone(), tell.clone());
            COUNT.with(|c| c.set(0));
            HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move |n| if stops.contains(&n) { let _ = tell2.send(None); let _ = orders2.recv(); })));
            let s = (tasks[i].run)();
            HOOK.with(|h| *h.borrow_mut() = None);
            if tell.send(Some(s)).is_err() { return; }
        }
    });
    Actor { to, from }
}

fn c30(r: &mut Run) {
    let th = r.thorough;
    // One in the middle of the other; nothing is a thread.
    let ts = tasks(th, false, &r.dir);
    let solo: Vec<(Seen, u64)> = ts.iter().map(alone).collect();
    for (i, a) in ts.iter().enumerate() {
        if !r.unit() { continue; }
        r.case(|| format!("{} alone", a.name));
        r.traces += 1;
        if let Some(w) = &a.want { if solo[i].0 != *w { r.fail("alone", format!("{} gives {:?}, and should give {w:?}", a.name, solo[i].0)); } }
        for (j, b) in ts.iter().enumerate() {
            if r.stop() { return; }
            for k in 1..=solo[i].1 {
                r.case(|| format!("{} when {} is run at its {k}. interruption", a.name, b.name));
                r.see(&(i, j, k));
                r.traces += 1; r.transitions += solo[i].1 + solo[j].1;
                COUNT.with(|c| c.set(0));
                let inner: std::rc::Rc<RefCell<Option<Seen>>> = Default::default();
                let inner2 = inner.clone();
                // The hook outlives neither the task nor this loop.
                let bt: &'static Task = unsafe { &*(b as *const Task) };
                HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move |n| if n == k { *inner2.borrow_mut() = Some((bt.run)()); })));
                let outer = (a.run)();
                HOOK.with(|h| *h.borrow_mut() = None);
                let inner = inner.borrow_mut().take();
                if outer != solo[i].0 { r.fail(&format!("outer {i}"), format!("{} gives {:?} when it is interrupted ({k}.) by {}, and {:?} otherwise", a.name, outer, b.name, solo[i].0)); }
                if inner.as_ref() != Some(&solo[j].0) { r.fail(&format!("inner {j}"), format!("{} gives {:?} in the middle ({k}.) of {}, and {:?} otherwise", b.name, inner, a.name, solo[j].0)); }
            }
        }
        r.sample(|| format!("{}: interrupted at each of {} places by each of {} other tasks", a.name, solo[i].1, ts.len()));
    }
    // Two threads.
    let ts = Arc::new(tasks(th, true, &r.dir));
    let solo: Vec<(Seen, u64)> = ts.iter().map(alone).collect();
    let mut pair: Option<(Actor, Actor)> = None;
    for i in 0..ts.len() {
        if !r.unit() { continue; }
        let (x, y) = pair.get_or_insert_with(|| (actor(ts.clone()), actor(ts.clone())));
        for j in 0..ts.len() {
            // The first runs until its k-th stop, the second until its l-th, and so on in turns.
            let (n, m) = (solo[i].1, solo[j].1);
            let mut schedules: Vec<(Vec<u64>, Vec<u64>)> = vec![];
            for k in 0..=n { for l in 1..=m { schedules.push((vec![k], vec![l])); } }
            if th && n <= 12 && m <= 12 { for k in 0..=n { for l in 1..=m { for k2 in k + 1..=n { schedules.push((vec![k, k2], vec![l])); } } } }
            for (p, q) in schedules {
                if r.stop() { return; }
                r.case(|| format!("{} in one thread, which stops at {p:?}, and {} in another, which stops at {q:?}", ts[i].name, ts[j].name));
                r.see(&(i, j, &p, &q, 1));
                r.traces += 1; r.transitions += n + m;
                let (mut a, mut b) = (None, None);
                let at = |t: &Actor| t.from.recv().ok().flatten();
                let first = !p.contains(&0);
                if first { x.to.send(Order::Start(i, p.clone())).unwrap(); a = at(x); }
                y.to.send(Order::Start(j, q.clone())).unwrap();
                b = b.or(at(y));
                if !first { x.to.send(Order::Start(i, p.clone())).unwrap(); a = at(x); }
                while a.is_none() || b.is_none() {
                    if a.is_none() { x.to.send(Order::Go).unwrap(); a = at(x); }
                    if b.is_none() { y.to.send(Order::Go).unwrap(); b = at(y); }
                }
                for (t, got) in [(i, a), (j, b)] {
                    let got = got.unwrap();
                    if got != solo[t].0 { r.fail(&format!("threads {t}"), format!("{} gives {got:?} instead of {:?} when {} runs in a thread which stops at {p:?}, and {} in another which stops at {q:?}", ts[t].name, solo[t].0, ts[i].name, ts[j].name)); }
                }
            }
        }
        r.sample(|| format!("{} and each of {} tasks in two threads, under every schedule with up to {} switches", ts[i].name, ts.len(), if th { 4 } else { 3 }));
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C30", level: "model_checking", run: c30, rule: "Pairs of tasks (a value read or written, with a plain, failing, panicking or ending stream, or with types of the user's which yield, fail or panic) x every position at which control is outside of the library: the second task runs in the middle of the first one in the same thread, or both run in two threads under every schedule with up to three (four) switches; state: (pair, schedule).", assumptions: &["switches happen where control leaves the library (calls of streams, and of Readable and Writable implementations); races between such points are not explored"] }]
}
