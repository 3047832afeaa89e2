//! Runs a check: a parent process hands the units of an enumeration out to worker processes, watches
//! them for crashes and hangs, and collects what they counted and found.
//!
//! The enumeration is deterministic: the n-th unit and the m-th case in it are always the same, so
//! (check, tier, unit, case) is enough to replay anything.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub mod sys {
    use std::ffi::c_void;
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
        pub fn signal(s: i32, h: usize) -> usize;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    pub const RLIMIT_FSIZE: i32 = 1;
    pub const RLIMIT_CORE: i32 = 4;
    pub const RLIMIT_NOFILE: i32 = 7;
    pub fn limit(what: i32, soft: u64) {
        unsafe { let mut l = [0u64; 2]; getrlimit(what, &mut l); l[0] = soft.min(l[1]); setrlimit(what, &l); }
    }
    pub fn soft_limit(what: i32) -> u64 { unsafe { let mut l = [0u64; 2]; getrlimit(what, &mut l); l[0] } }
}

/// Counts what is allocated, and refuses absurd requests, as a system out of memory would.
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub const CAP: usize = 256 << 20;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    static REFUSED: AtomicUsize = AtomicUsize::new(0);
    pub struct Counting;
    fn add(n: usize) { let l = LIVE.fetch_add(n, Relaxed) + n; if l > PEAK.load(Relaxed) { PEAK.store(l, Relaxed); } }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() > CAP { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            add(l.size());
            unsafe { System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if l.size() > CAP { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            add(l.size());
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); unsafe { System.dealloc(p, l) } }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if n > CAP { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            let q = unsafe { System.realloc(p, l, n) };
            if !q.is_null() { if n > l.size() { add(n - l.size()) } else { LIVE.fetch_sub(l.size() - n, Relaxed); } }
            q
        }
    }
    pub fn reset_peak() -> usize { let l = LIVE.load(Relaxed); PEAK.store(l, Relaxed); REFUSED.store(0, Relaxed); l }
    pub fn peak() -> usize { PEAK.load(Relaxed) }
    pub fn live() -> usize { LIVE.load(Relaxed) }
    pub fn refused() -> usize { REFUSED.load(Relaxed) }
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));
thread_local!(static QUIET: RefCell<bool> = RefCell::new(false));
/// Runs the code under test; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {m}{at}"));
    }));
}

const MAX_SHARDS: usize = 64;
#[repr(C)]
struct Note { next: AtomicU64, at: [(AtomicU64, AtomicU64); MAX_SHARDS] }
fn map_note(path: &Path) -> &'static Note {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
    let p = unsafe { sys::mmap(std::ptr::null_mut(), std::mem::size_of::<Note>(), 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    unsafe { &*(p as *const Note) }
}

pub struct Fail { pub unit: u64, pub case: u64, pub key: String, pub msg: String }

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub dir: PathBuf,
    note: &'static Note,
    shard: usize,
    only: Option<u64>,
    describe: Option<(u64, u64, PathBuf)>,
    claim: Option<u64>,
    unit: u64,
    case: u64,
    seen: HashSet<u64>,
    pub evals: u64,
    pub distinct: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub extra: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    pub known_hit: HashSet<usize>,
    units_done: u64,
    active: bool,
}
pub const MAX_FAILS: usize = 4;
impl Run {
    /// Moves on to the next unit of the enumeration; is it ours?
    pub fn unit(&mut self) -> bool {
        let u = self.unit;
        self.unit += 1;
        if self.fails.len() >= MAX_FAILS { self.active = false; return false; }
        let mine = match self.only {
            Some(o) => u == o,
            None => {
                let c = *self.claim.get_or_insert_with(|| self.note.next.fetch_add(1, Relaxed));
                if c == u { self.claim = None; }
                c == u
            }
        };
        self.active = mine;
        if mine {
            self.units_done += 1;
            self.case = 0;
            self.seen = HashSet::new();
            self.note.at[self.shard].1.store(0, Relaxed);
            self.note.at[self.shard].0.store(u, Relaxed);
        }
        mine
    }
    /// Is the current unit ours?
    pub fn in_unit(&self) -> bool { self.active }
    /// Has to be called before every run of the code under test.
    #[inline]
    pub fn case(&mut self, what: impl FnOnce() -> String) {
        self.case += 1;
        self.evals += 1;
        self.note.at[self.shard].1.store(self.case, Relaxed);
        if let Some((u, c, p)) = &self.describe { if *u + 1 == self.unit && *c == self.case { fs::write(p, what()).unwrap(); } }
    }
    /// Counts a state, unless it was seen in this unit before.
    #[inline]
    pub fn see<T: std::hash::Hash>(&mut self, x: &T) -> bool {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        let n = self.seen.insert(h.finish());
        if n { self.states += 1; self.distinct += 1; }
        n
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 3 { let s = f(); self.samples.push(s); } }
    pub fn count(&mut self, k: &str, n: u64) { *self.extra.entry(k.to_string()).or_default() += n; }
    pub fn stop(&self) -> bool { self.fails.len() >= MAX_FAILS }
    /// Reports a violation. `key` identifies it independently of the rest of the message.
    pub fn fail(&mut self, key: &str, msg: String) {
        if let Some(i) = self.known.iter().position(|(p, k)| *p == self.prop && k == key) { self.known_hit.insert(i); return; }
        if self.fails.len() >= MAX_FAILS { return; }
        if self.fails.iter().any(|f| f.key == key) { return; }
        self.fails.push(Fail { unit: self.unit.wrapping_sub(1), case: self.case, key: key.to_string(), msg });
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&mut Run),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}
pub fn root() -> PathBuf { std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap()) }

fn known_findings() -> Vec<(String, String)> {
    let s = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (p, r) = l.split_once(" key=")?;
        Some((p.to_string(), r.to_string()))
    }).collect()
}

fn worker(c: &Check, args: &[String]) {
    // args: shard, note, out, only, describe, thorough
    let shard: usize = args[0].parse().unwrap();
    let out = PathBuf::from(&args[2]);
    let only = args[3].parse().ok();
    let describe = args[4].split_once(':').map(|(u, k)| (u.parse().unwrap(), k.parse().unwrap(), out.with_extension("what")));
    let dir = out.with_extension("dir");
    let _ = fs::create_dir_all(&dir);
    unsafe { sys::prctl(1, 9, 0, 0, 0); sys::signal(25, 1); }
    sys::limit(sys::RLIMIT_CORE, 0);
    install_hook();
    let mut r = Run {
        prop: c.id.into(), thorough: args[5] == "thorough", dir, note: map_note(Path::new(&args[1])), shard, only, describe, claim: None, unit: 0, case: 0, seen: HashSet::new(),
        evals: 0, distinct: 0, states: 0, transitions: 0, traces: 0, samples: vec![], fails: vec![], extra: BTreeMap::new(), known: known_findings(), known_hit: HashSet::new(), units_done: 0, active: false,
    };
    if let Err(e) = guard(|| (c.run)(&mut r)) { r.fail(&e.clone(), format!("{e} (outside of the calls under test)")); }
    let mut o = String::new();
    for (k, v) in [("evals", r.evals), ("distinct", r.distinct), ("states", r.states), ("transitions", r.transitions), ("traces", r.traces), ("units", r.units_done), ("total", r.unit)] { o += &format!("n {k} {v}\n"); }
    for (k, v) in &r.extra { o += &format!("x {k}\t{v}\n"); }
    for s in &r.samples { o += &format!("s {}\n", s.replace('\n', " ")); }
    for i in &r.known_hit { o += &format!("k {i}\n"); }
    for f in &r.fails { o += &format!("f {}\t{}\t{}\t{}\n", f.unit, f.case, f.key.replace(['\n', '\t'], " "), f.msg.replace(['\n', '\t'], " ")); }
    o += "end\n";
    fs::write(&out, o).unwrap();
}

fn cpu_s(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let r: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    if r.len() < 13 { return 0.0; }
    (r[11].parse::<f64>().unwrap_or(0.0) + r[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

enum End { Ok, Crash(String), Hang, Lost(String) }
fn spawn(id: &str, shard: usize, note: &Path, out: &Path, only: &str, describe: &str, tier: &str) -> Child {
    Command::new(std::env::current_exe().unwrap()).args(["worker", id, &shard.to_string()]).arg(note).arg(out).args([only, describe, tier])
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(if std::env::var_os("VK_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() }).spawn().unwrap()
}
const HANG_S: f64 = 40.0;
fn wait_all(mut ch: Vec<(usize, Child)>, note: &'static Note) -> Vec<(usize, End)> {
    use std::os::unix::process::ExitStatusExt;
    let mut last: BTreeMap<usize, ((u64, u64), f64)> = BTreeMap::new();
    let mut done = vec![];
    let mut tick = 0u32;
    while !ch.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        tick += 1;
        ch.retain_mut(|(s, c)| {
            if let Some(st) = c.try_wait().unwrap() {
                done.push((*s, match (st.code(), st.signal()) {
                    (Some(0), _) => End::Ok,
                    (_, Some(9)) => End::Lost("a worker was killed (out of memory?)".into()),
                    (_, Some(n)) => End::Crash(format!("the process was ended by signal {n}{}", match n { 6 => " (abort)", 11 => " (segmentation fault)", 7 => " (bus error)", _ => "" })),
                    (c, _) => End::Crash(format!("the process exited with {c:?}")),
                }));
                return false;
            }
            if tick % 50 == 0 {
                let at = (note.at[*s].0.load(Relaxed), note.at[*s].1.load(Relaxed));
                let cpu = cpu_s(c.id());
                match last.get(s) {
                    Some((a, since)) if *a == at => if cpu - since > HANG_S { let _ = c.kill(); let _ = c.wait(); done.push((*s, End::Hang)); return false; },
                    _ => { last.insert(*s, (at, cpu)); }
                }
            }
            true
        });
    }
    done
}

pub fn run_check(c: &Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("vk-{}-{}", c.id, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let code = run_in(c, tier, &tmp, t0);
    let _ = fs::remove_dir_all(&tmp);
    code
}
fn run_in(c: &Check, tier: &str, tmp: &Path, t0: Instant) -> i32 {
    let shards = std::env::var("VK_SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let notef = tmp.join("note");
    fs::write(&notef, vec![0u8; std::mem::size_of::<Note>()]).unwrap();
    let note = map_note(&notef);
    let out = |s: usize| tmp.join(format!("out{s}"));
    let ends = wait_all((0..shards).map(|s| (s, spawn(c.id, s, &notef, &out(s), "-", "-", tier))).collect(), note);
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<(u64, u64, String, String)> = vec![];
    let mut known: HashSet<usize> = HashSet::new();
    let mut broken = None;
    for (s, e) in ends {
        match e {
            End::Ok => {}
            End::Lost(m) => { broken = Some(m); }
            End::Crash(_) | End::Hang => {
                let (u, k) = (note.at[s].0.load(Relaxed), note.at[s].1.load(Relaxed));
                let o2 = tmp.join(format!("again{s}"));
                let ends2 = wait_all(vec![(s, spawn(c.id, s, &notef, &o2, &u.to_string(), &format!("{u}:{k}"), tier))], note);
                let what = fs::read_to_string(o2.with_extension("what")).unwrap_or_default();
                let how = match &e { End::Crash(m) => m.clone(), _ => format!("no progress in {HANG_S} s of CPU time") };
                let again = match ends2.first() { Some((_, End::Crash(_))) | Some((_, End::Hang)) => "reproduced", _ => "not reproduced when the unit was run alone" };
                if k == 0 { broken = Some(format!("a worker died outside of any case: {how}")); }
                else { fails.push((u, k, what.clone(), format!("{how} ({again}) while running: {what}"))); }
                continue;
            }
        }
        let text = fs::read_to_string(out(s)).unwrap_or_default();
        if !text.ends_with("end\n") { broken.get_or_insert("a worker left no result".into()); continue; }
        for l in text.lines() {
            let (k, v) = l.split_at(l.len().min(2));
            match k {
                "n " => { let (a, b) = v.split_once(' ').unwrap(); let b: u64 = b.parse().unwrap(); if a == "total" { let e = n.entry(a.into()).or_default(); *e = (*e).max(b); } else { *n.entry(a.into()).or_default() += b; } }
                "x " => { let (a, b) = v.split_once('\t').unwrap(); *extra.entry(a.into()).or_default() += b.parse::<u64>().unwrap(); }
                "s " => samples.push(v.into()),
                "k " => { known.insert(v.parse().unwrap()); }
                "f " => { let p: Vec<&str> = v.splitn(4, '\t').collect(); fails.push((p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].into(), p[3].into())); }
                _ => {}
            }
        }
    }
    fails.sort();
    let wall = t0.elapsed().as_secs_f64();
    let all_known = known_findings();
    for i in &known { println!("KNOWN-FINDING: property={} {}", c.id, all_known[*i].1); }
    if fails.is_empty() && broken.is_none() && n.get("units") != n.get("total") { broken = Some(format!("only {:?} of {:?} units were run", n.get("units"), n.get("total"))); }
    // Evidence.
    let g = |k: &str| n.get(k).copied().unwrap_or(0);
    let mut cov = match c.level {
        "model_checking" => format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", g("states"), g("transitions"), g("traces")),
        _ => format!("\"evaluations\": {}, \"distinct_nontrivial\": {}", g("evals"), g("distinct")),
    };
    cov += &format!(", \"rule\": {}", esc(c.rule));
    let take: Vec<String> = samples.iter().take(8).map(|s| esc(s)).collect();
    cov += &format!(", \"samples\": [{}], \"units\": {}", take.join(", "), g("units"));
    if c.level == "model_checking" { cov += &format!(", \"executions\": {}", g("evals")); }
    for (k, v) in &extra { cov += &format!(", {}: {}", esc(k), v); }
    cov += &format!(", \"exhaustive\": {}", fails.is_empty() && broken.is_none());
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| esc(s)).collect();
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {}}}\n",
        esc(c.id), esc(tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), esc(c.level), assumptions.join(", "), fails.len());
    let evd = root().join("evidence");
    let _ = fs::create_dir_all(&evd);
    fs::write(evd.join(format!("{}.json", c.id)), ev).unwrap();
    println!("{} {tier}: {} executions, {} units, {:.1} s", c.id, g("evals"), g("units"), wall);
    if !fails.is_empty() {
        let rd = root().join("replay");
        let _ = fs::create_dir_all(&rd);
        for (i, (u, k, key, msg)) in fails.iter().take(5).enumerate() {
            let p = rd.join(format!("{}-{i}.txt", c.id));
            let _ = fs::write(&p, format!("property={}\ntier={tier}\nunit={u}\ncase={k}\nkey={key}\nmessage={msg}\nreplay with: ./run.sh replay {}\n", c.id, p.display()));
            println!("  unit {u} case {k}: {msg}");
            println!("VIOLATION property={} replay={}", c.id, p.display());
        }
        return 1;
    }
    if let Some(b) = broken { eprintln!("{}: {b}", c.id); return 2; }
    0
}

fn replay(checks: &[Check], p: &str) -> i32 {
    let s = fs::read_to_string(p).unwrap();
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let c = checks.iter().find(|c| c.id == get("property=")).expect("no such check");
    let tmp = std::env::temp_dir().join(format!("vk-replay-{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let notef = tmp.join("note");
    fs::write(&notef, vec![0u8; std::mem::size_of::<Note>()]).unwrap();
    let note = map_note(&notef);
    let out = tmp.join("out");
    let ends = wait_all(vec![(0, spawn(c.id, 0, &notef, &out, &get("unit="), &format!("{}:{}", get("unit="), get("case=")), &get("tier=")))], note);
    let mut code = 0;
    match &ends[0].1 { End::Crash(m) => { println!("{m}"); code = 1 } End::Hang => { println!("hang"); code = 1 } End::Lost(m) => { println!("{m}"); code = 2 } End::Ok => {} }
    if let Ok(w) = fs::read_to_string(out.with_extension("what")) { println!("case: {w}"); }
    for l in fs::read_to_string(&out).unwrap_or_default().lines() { if let Some(f) = l.strip_prefix("f ") { println!("{f}"); code = 1; } }
    let _ = fs::remove_dir_all(&tmp);
    if code == 1 { println!("VIOLATION property={} replay={p}", c.id); }
    code
}

pub fn main(checks: &[Check]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no such check: {id}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => { worker(find(&a[2]), &a[3..]); 0 }
        Some("check") => { let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into()); let tier = a.get(3).cloned().unwrap_or(tier); run_check(find(&a[2]), &tier) }
        Some("replay") => replay(checks, &a[2]),
        _ => { eprintln!("usage: vk check <id> [quick|thorough] | vk replay <file>"); 2 }
    }
}
