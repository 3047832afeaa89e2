//! C23: reading from and writing to files, with the system calls in between under control.
use vcore::util::*;
use speedy::{Context, LittleEndian, Readable, Reader, Writable, Writer};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::fs;
use std::path::{Path, PathBuf};
use vcore::env::Choices;
use vcore::run::Check;
use vcore::*;

// The functions of the C library are replaced in this program. They do what they always do, unless somebody is exploring what happens when they do not.
mod libc_level {
    use super::*;
    extern "C" { pub fn syscall(n: c_long, ...) -> c_long; pub fn __errno_location() -> *mut c_int; pub fn seteuid(u: u32) -> c_int; pub fn geteuid() -> u32; }
    const READ: c_long = 0; const WRITE: c_long = 1; const CLOSE: c_long = 3; const FSTAT: c_long = 5; const LSEEK: c_long = 8; const MMAP: c_long = 9; const MUNMAP: c_long = 11; const PREAD: c_long = 17; const WRITEV: c_long = 20; const MREMAP: c_long = 25; const MADVISE: c_long = 28; const FSYNC: c_long = 74; const FTRUNCATE: c_long = 77; const RENAME: c_long = 82; const OPENAT: c_long = 257; const STATX: c_long = 332;
    pub const EINTR: c_int = 4;
    const EIO: c_int = 5; const EAGAIN: c_int = 11; const ENOMEM: c_int = 12; const EACCES: c_int = 13; const ENODEV: c_int = 19; const EMFILE: c_int = 24; const ENOSPC: c_int = 28;
    #[derive(Default)]
    pub struct Watch { pub ch: Choices, pub log: Vec<String>, pub faults: Vec<c_int>, pub maps: BTreeMap<usize, usize>, pub wrong: Option<String> }
    static mut WATCH: Option<Box<Watch>> = None;
    #[allow(static_mut_refs)]
    fn watch() -> Option<&'static mut Watch> { unsafe { WATCH.as_deref_mut() } }
    pub fn begin(ch: Choices) { unsafe { WATCH = Some(Box::new(Watch { ch, ..Default::default() })); } }
    #[allow(static_mut_refs)]
    pub fn end() -> Watch { unsafe { *WATCH.take().unwrap() } }
    /// Does this call fail, or do only a part of what it is asked to?
    enum Do { All, Part(usize), No }
    fn ask(name: &str, errnos: &[c_int], asked: usize) -> Do {
        let Some(w) = watch() else { return Do::All };
        let mut parts = vec![];
        if asked > 1 { parts.push(1); }
        if asked > 2 { parts.push(asked - 1); }
        let k = w.ch.pick(1 + errnos.len() as u32 + parts.len() as u32) as usize;
        if k == 0 { w.log.push(name.into()); return Do::All; }
        if k <= errnos.len() {
            let e = errnos[k - 1];
            w.log.push(format!("{name}: {}", std::io::Error::from_raw_os_error(e)));
            w.faults.push(e);
            unsafe { *__errno_location() = e; }
            return Do::No;
        }
        let p = parts[k - 1 - errnos.len()];
        w.log.push(format!("{name}: {p} of {asked} bytes"));
        Do::Part(p)
    }
    macro_rules! c { ($n:expr $(, $a:expr)*) => { syscall($n $(, $a as c_long)*) } }
    unsafe fn open_at(fd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
        // Only files in the scratch directory are looked at.
        if let Do::No = ask("open", &[EINTR, EMFILE, EACCES, EIO], 0) { return -1; }
        c!(OPENAT, fd, p, flags, mode) as c_int
    }
    // Rust cannot define variadic functions, but on x86-64 the third argument is found in the same place.
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int { open_at(-100, p, flags, mode) }
    #[allow(invalid_runtime_symbol_definitions)] #[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int { open_at(-100, p, flags, mode) }
    #[no_mangle] pub unsafe extern "C" fn openat64(fd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int { open_at(fd, p, flags, mode) }
    #[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { c!(CLOSE, fd) as c_int }
    #[no_mangle] pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
        match ask("read", &[EINTR, EIO], n) { Do::No => -1, Do::Part(n) => c!(READ, fd, p, n) as isize, Do::All => c!(READ, fd, p, n) as isize }
    }
    #[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: usize, o: i64) -> isize {
        match ask("pread", &[EINTR, EIO], n) { Do::No => -1, Do::Part(n) => c!(PREAD, fd, p, n, o) as isize, Do::All => c!(PREAD, fd, p, n, o) as isize }
    }
    #[no_mangle] pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
        match ask("write", &[EINTR, EIO, ENOSPC], n) { Do::No => -1, Do::Part(n) => c!(WRITE, fd, p, n) as isize, Do::All => c!(WRITE, fd, p, n) as isize }
    }
    #[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, p: *const [usize; 2], n: c_int) -> isize {
        let len = if n > 0 { (*p)[1] } else { 0 };
        match ask("writev", &[EINTR, EIO, ENOSPC], len) { Do::No => -1, Do::Part(k) => c!(WRITE, fd, (*p)[0], k) as isize, Do::All => c!(WRITEV, fd, p, n) as isize }
    }
    #[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, p: *mut c_void) -> c_int { if let Do::No = ask("fstat", &[EIO], 0) { return -1; } c!(FSTAT, fd, p) as c_int }
    #[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, p: *mut c_void) -> c_int { if let Do::No = ask("fstat", &[EIO], 0) { return -1; } c!(FSTAT, fd, p) as c_int }
    #[no_mangle] pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, f: c_int, m: u32, o: *mut c_void) -> c_int { if !p.is_null() { if let Do::No = ask("statx", &[EIO], 0) { return -1; } } c!(STATX, fd, p, f, m, o) as c_int }
    #[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 { if let Do::No = ask("lseek", &[EIO], 0) { return -1; } c!(LSEEK, fd, o, w) as i64 }
    #[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if let Do::No = ask("fsync", &[EINTR, EIO], 0) { return -1; } c!(FSYNC, fd) as c_int }
    #[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int { if let Do::No = ask("ftruncate", &[EINTR, EIO], 0) { return -1; } c!(FTRUNCATE, fd, n) as c_int }
    #[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { if let Do::No = ask("rename", &[EIO], 0) { return -1; } c!(RENAME, a, b) as c_int }
    unsafe fn map(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
        if let Do::No = ask("mmap", &[ENOMEM, ENODEV, EACCES], 0) { return !0usize as *mut c_void; }
        let r = c!(MMAP, a, n, p, f, fd, o);
        if let (Some(w), true) = (watch(), r != -1) { w.maps.insert(r as usize, n); }
        r as *mut c_void
    }
    #[no_mangle] pub unsafe extern "C" fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void { map(a, n, p, f, fd, o) }
    #[no_mangle] pub unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void { map(a, n, p, f, fd, o) }
    #[no_mangle] pub unsafe extern "C" fn mremap(a: *mut c_void, o: usize, n: usize, f: c_int, x: *mut c_void) -> *mut c_void { c!(MREMAP, a, o, n, f, x) as *mut c_void }
    /// Is that within what was mapped? Otherwise it has to be kept from happening, since it might well be our stack.
    fn ours(what: &str, a: usize, n: usize) -> bool {
        let Some(w) = watch() else { return true };
        let up = |x: usize| x.checked_add(4095).map(|x| x / 4096 * 4096);
        let ok = match (w.maps.range(..=a).next_back(), up(n)) { (Some((s, l)), Some(n)) => a.checked_add(n).map_or(false, |e| e <= s + up(*l).unwrap()), _ => false };
        if !ok { w.wrong = Some(format!("{what} of {n} bytes which were not mapped in this call")); }
        ok
    }
    #[no_mangle] pub unsafe extern "C" fn munmap(a: *mut c_void, n: usize) -> c_int {
        if !ours("munmap", a as usize, n) { *__errno_location() = 22; return -1; }
        if let Some(w) = watch() { w.log.push("munmap".into()); if w.maps.get(&(a as usize)).map_or(false, |l| (*l + 4095) / 4096 <= (n + 4095) / 4096) { w.maps.remove(&(a as usize)); } }
        c!(MUNMAP, a, n) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn madvise(a: *mut c_void, n: usize, x: c_int) -> c_int {
        // Some kinds of advice throw the contents away.
        if !ours("madvise", a as usize, n) { *__errno_location() = 22; return -1; }
        if let Do::No = ask("madvise", &[EAGAIN, EIO], 0) { return -1; }
        c!(MADVISE, a, n, x) as c_int
    }
}
use libc_level::{begin, end, EINTR};

/// Which files are open, and what is mapped of anything in that directory.
fn held(dir: &Path) -> (Vec<(String, PathBuf)>, Vec<String>) {
    let mut fds: Vec<_> = fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| { let e = e.unwrap(); let t = fs::read_link(e.path()).ok()?; if t.starts_with("/proc") { return None; } Some((e.file_name().into_string().unwrap(), t)) }).collect();
    fds.sort();
    let d = dir.to_str().unwrap();
    (fds, fs::read_to_string("/proc/self/maps").unwrap().lines().filter(|l| l.contains(d)).map(|l| l.to_string()).collect())
}

#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct All { #[speedy(length = ..)] data: Vec<u8> }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct AllWords { a: u8, #[speedy(length = ..)] data: Vec<u32> }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct AllText { #[speedy(length = ..)] data: String }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct Tail { a: u32, #[speedy(default_on_eof)] b: Vec<u8>, #[speedy(default_on_eof)] c: u16 }
#[derive(Readable, Writable, PartialEq, Debug, Clone)] struct Big { a: [u16; 11], b: u16, c: u8 }
/// Something which panics, or fails, after having read or written a little.
#[derive(PartialEq, Debug, Clone)] struct Panics;
#[derive(PartialEq, Debug, Clone)] struct Fails(Vec<u8>);
impl<'a, C: Context> Readable<'a, C> for Panics { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_u8()?; panic!("this one panics") } }
impl<C: Context> Writable<C> for Panics { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_u8(1)?; panic!("this one panics") } fn bytes_needed(&self) -> Result<usize, C::Error> { Ok(2) } }
impl<'a, C: Context> Readable<'a, C> for Fails { fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> { r.read_vec::<u8>(3)?; Err(speedy::Error::custom("fails").into()) } }
impl<C: Context> Writable<C> for Fails { fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> { w.write_bytes(&self.0)?; Err(speedy::Error::custom("fails").into()) } }

fn check_held(r: &mut Run, before: &(Vec<(String, PathBuf)>, Vec<String>), what: &str) {
    let now = held(&r.dir);
    if now != *before {
        let left: Vec<_> = now.0.iter().filter(|x| !before.0.contains(x)).map(|x| x.1.display().to_string()).chain(now.1.iter().filter(|x| !before.1.contains(x)).map(|x| format!("the mapping {x}"))).collect();
        let gone: Vec<_> = before.0.iter().filter(|x| !now.0.contains(x)).map(|x| x.1.display().to_string()).collect();
        r.fail("held", format!("{what} leaves {left:?} open{}", if gone.is_empty() { String::new() } else { format!(" and closes {gone:?}") }));
    }
}
fn brief(b: &[u8]) -> String { if b.len() <= 24 { hex(b) } else { format!("{}.. ({} bytes)", hex(&b[..16]), b.len()) } }
type Got<T> = Result<Result<T, Cls>, String>;
fn cut<T: std::fmt::Debug>(x: &Got<T>) -> String { let s = format!("{x:?}"); if s.len() > 160 { format!("{}..", s.chars().take(150).collect::<String>()) } else { s } }

/// The contents of a file of that size.
fn contents(size: usize, kind: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..size).map(|i| (i * 7 + i / 256 + 1) as u8).collect();
    let n = (size as u32).wrapping_sub(4);
    let n = match kind { 0 => Some(n), 1 => Some(n.wrapping_add(1)), 2 => Some(n.wrapping_sub(1)), 3 => Some(n / 4), 4 => Some(n.wrapping_sub(2)), _ => None };
    if let Some(n) = n { for (d, s) in v.iter_mut().zip(n.to_le_bytes()) { *d = s; } }
    if kind == 5 { for b in &mut v { *b &= 0x7f; } }
    v
}
fn read_one<T>(r: &mut Run, name: &str, data: &[u8], p: &Path, before: &(Vec<(String, PathBuf)>, Vec<String>)) where T: for<'a> Readable<'a, speedy::Endianness> + for<'a> Readable<'a, LittleEndian> + PartialEq + std::fmt::Debug {
    for k in 0..3 {
        r.case(|| format!("{name} from a file with {} ({k})", brief(data)));
        r.traces += 1; r.transitions += 1;
        let cls = |x: Result<T, speedy::Error>| x.map_err(|e| classify(&e));
        let want: Got<T> = guard(|| cls(if k == 0 { <T as Readable<LittleEndian>>::read_from_buffer_copying_data_with_ctx(LittleEndian {}, data) } else { T::read_from_buffer_copying_data_with_ctx(en(k == 2), data) }));
        let got: Got<T> = guard(|| cls(if k == 0 { <T as Readable<LittleEndian>>::read_from_file_with_ctx(LittleEndian {}, p) } else { T::read_from_file_with_ctx(en(k == 2), p) }));
        // What a file which is too short looks like is not the same everywhere.
        let same = match (&got, &want) { (Ok(Err(a)), Ok(Err(b))) => a == b || (a.is_end() && b.is_end()), (a, b) => a == b };
        if !same { r.fail(&format!("{name} from a file"), format!("{name} from a file with {}: {} instead of {}", brief(data), cut(&got), cut(&want))); }
        check_held(r, before, &format!("reading {name} from a file with {}", brief(data)));
    }
}
fn read_all(r: &mut Run, sizes: &[usize]) {
    for &size in sizes {
        if !r.unit() { continue; }
        let p = r.dir.join("in");
        let before = held(&r.dir);
        for kind in 0..7 {
            let data = contents(size, kind);
            fs::write(&p, &data).unwrap();
            r.see(&data);
            r.states += 1;
            macro_rules! types { ($($t:ty),*) => { $( read_one::<$t>(r, stringify!($t), &data, &p, &before); )* } }
            types!(All, Vec<u8>, AllWords, AllText, Tail, Big, String, Vec<u32>, Vec<char>, (u64, u8), u128, [u8; 33], [u64; 3], Option<Vec<u16>>, (), Fails, Panics, BTreeMap<u8, u8>);
            // Independently of the other functions.
            r.case(|| format!("all of a file with {size} bytes"));
            match guard(|| All::read_from_file(&p)) { Ok(Ok(v)) if v.data == data => {} x => r.fail("all of it", format!("reading all of a file with {} gives {} bytes", brief(&data), x.map_or(0, |x| x.map_or(0, |x| x.data.len())))) }
            if r.stop() { return; }
        }
        r.sample(|| format!("a file with {size} bytes gives the same as a buffer with that many"));
        let _ = fs::remove_file(&p);
    }
}
fn out_one<T: Writable<LittleEndian> + Writable<speedy::Endianness>>(r: &mut Run, name: &str, v: &T, size: usize, old: Option<usize>, before: &(Vec<(String, PathBuf)>, Vec<String>)) {
    let p = r.dir.join("out");
    for k in 0..3 {
        match old { None => { let _ = fs::remove_file(&p); } Some(n) => fs::write(&p, vec![0xee; n]).unwrap() }
        r.case(|| format!("{name} with {size} bytes over {old:?}"));
        r.traces += 1; r.transitions += 1;
        r.states += 1;
        r.see(&(size, old, k, name));
        let want: Got<Vec<u8>> = guard(|| if k == 0 { v.write_to_vec_with_ctx(LittleEndian {}) } else { v.write_to_vec_with_ctx(en(k == 2)) }.map_err(|e| classify(&e)));
        let got: Got<()> = guard(|| if k == 0 { v.write_to_file_with_ctx(LittleEndian {}, &p) } else { v.write_to_file_with_ctx(en(k == 2), &p) }.map_err(|e| classify(&e)));
        let is = fs::read(&p).unwrap_or_default();
        let fine = match (&got, &want) { (Ok(Ok(())), Ok(Ok(w))) => is == *w, (Ok(Err(a)), Ok(Err(b))) => a == b, (Err(a), Err(b)) => a == b, _ => false };
        if !fine { r.fail("out", format!("{name} with {size} bytes over a file of {old:?}: {} and {}, expected {}", cut(&got), brief(&is), cut(&want))); }
        check_held(r, before, &format!("writing {name} with {size} bytes"));
    }
}
fn write_all(r: &mut Run, sizes: &[usize]) {
    for &size in sizes {
        if !r.unit() { continue; }
        let p = r.dir.join("out");
        let before = held(&r.dir);
        let data = contents(size, 6);
        let text: String = data.iter().map(|b| (b'a' + b % 26) as char).collect();
        let words: Vec<u32> = (0..size as u32 / 4).map(|i| i.wrapping_mul(0x1234567)).collect();
        // Over what was there before, or nothing.
        for old in [None, Some(0), Some(size.saturating_sub(1)), Some(size), Some(size + 5), Some(size * 2 + 4096)] {
            macro_rules! out { ($($v:expr),*) => { $( out_one(r, stringify!($v), &$v, size, old, &before); )* } }
            out!(All { data: data.clone() }, &data, &text, &words, Fails(data.clone()), Panics, (7u8, &data[..], 9u64), Some(&text), (), std::borrow::Cow::from(&text), &data[..size / 2]);
            if old.is_none() {
                r.case(|| format!("{size} bytes"));
                let _ = fs::remove_file(&p);
                let res = guard(|| All { data: data.clone() }.write_to_file(&p).is_ok());
                if res != Ok(true) || fs::read(&p).ok().as_ref() != Some(&data) { r.fail("out plain", format!("writing {} to a file: {res:?}, {}", brief(&data), brief(&fs::read(&p).unwrap_or_default()))); }
            }
            if r.stop() { return; }
        }
        let _ = fs::remove_file(&p);
    }
}
/// What happens when the system does not do what it is asked to.
fn faults(r: &mut Run, sizes: &[usize], bound: u32) {
    for &size in sizes { for what in 0..10 {
        if !r.unit() { continue; }
        let p = r.dir.join("f");
        let before = held(&r.dir);
        let data = contents(size, if what == 1 { 0 } else { 6 });
        let bound = if bound > 1 && size > 20000 { bound - 1 } else { bound };
        let mut ch = Choices::new(bound);
        loop {
            match what { 0 | 1 | 2 | 3 | 4 => fs::write(&p, &data).unwrap(), 5 | 7 => { let _ = fs::remove_file(&p); } _ => fs::write(&p, vec![0xee; size + 9]).unwrap() }
            r.case(|| format!("faults {what} {size} {:?}", ch.trace()));
            r.see(&(what, size, ch.trace()));
            r.states += 1;
            begin(std::mem::take(&mut ch));
            // What came back, whether that is right, and the kind of the error.
            let res: Result<Result<bool, Cls>, String> = guard(|| match what {
                0 => All::read_from_file(&p).map(|v| v.data == data),
                1 => Vec::<u8>::read_from_file(&p).map(|v| v[..] == data[4..]),
                2 => <[u8; 3]>::read_from_file(&p).map(|v| v[..] == data[..3]),
                3 => Fails::read_from_file(&p).map(|_| false),
                4 => Panics::read_from_file(&p).map(|_| false),
                5 | 6 => All { data: data.clone() }.write_to_file(&p).map(|_| true),
                7 => data.write_to_file(&p).map(|_| true),
                8 => Fails(data.clone()).write_to_file(&p).map(|_| false),
                _ => Panics.write_to_file(&p).map(|_| false),
            }.map_err(|e| classify(&e)));
            let w = end();
            r.traces += 1;
            r.transitions += w.log.len() as u64;
            r.count("faults_delivered", w.faults.len() as u64);
            let hard: Vec<std::io::ErrorKind> = w.faults.iter().filter(|e| **e != EINTR).map(|e| std::io::Error::from_raw_os_error(*e).kind()).collect();
            let is = fs::read(&p).unwrap_or_default();
            let verdict = match &res {
                Ok(Ok(true)) => match what { 5 | 6 => is == data, 7 => is == [&(size as u32).to_le_bytes()[..], &data].concat(), _ => true },
                Ok(Ok(false)) => false,
                Ok(Err(Cls::Io(k))) if hard.contains(k) => true,
                Ok(Err(Cls::Io(std::io::ErrorKind::Other))) => what == 3 || what == 8,
                Ok(Err(c)) => c.is_end() && match what { 1 => size < 4, 2 => size < 3, 3 => size < 3, 4 => size < 1, _ => false },
                Err(_) => what == 4 || what == 9,
            };
            let ops = ["reading all of it", "reading a vector", "reading three bytes", "reading something which fails", "reading something which panics", "writing", "writing over a longer file", "writing a vector", "writing something which fails", "writing something which panics"];
            let at = || format!("{} ({size} bytes) when the system calls do this: {}", ops[what], w.log.join(", "));
            if !verdict { r.fail("fault", format!("{}: {res:?}, with {} in the file", at(), brief(&is))); }
            if let Some(x) = &w.wrong { r.fail("unmap", format!("{}: {x}", at())); }
            if !w.maps.is_empty() { r.fail("mapped", format!("{}: {:?} is still mapped", at(), w.maps)); }
            check_held(r, &before, &at());
            ch = w.ch;
            if r.stop() { return; }
            if !ch.next() { break; }
        }
        r.sample(|| format!("all answers of the system for operation {what} on {size} bytes, up to {bound} deviations"));
        let _ = fs::remove_file(&p);
    } }
}
/// Sequences of operations on a few files.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Write(usize, usize), Text(usize), Read(usize), ReadText(usize), ReadWords(usize), ReadFails(usize), WriteFails(usize), Remove(usize), Truncate(usize), Scribble(usize), Append(usize), Swap, Link }
fn history(r: &mut Run, ops: &[Op], depth: usize) {
    let paths = [r.dir.join("h0"), r.dir.join("h1"), r.dir.join("h2")];
    let total = ops.len().pow(depth as u32);
    for start in 0..total {
        if start % ops.len().pow(depth as u32 - 2) == 0 { if !r.unit() { continue; } } else if !r.in_unit() { continue; }
        let mut k = start;
        let mut h: Vec<Op> = (0..depth).map(|_| { let o = ops[k % ops.len()]; k /= ops.len(); o }).collect();
        h.reverse();
        for p in &paths { let _ = fs::remove_file(p); }
        // The last one is a link to one of the others.
        std::os::unix::fs::symlink(&paths[0], &paths[2]).unwrap();
        let mut target = 0;
        let mut model: [Option<Vec<u8>>; 2] = [None, None];
        let mut kept: Vec<(All, Vec<u8>)> = vec![];
        let mut kept_text: Vec<(String, String)> = vec![];
        r.case(|| format!("{h:?}"));
        r.traces += 1;
        for (i, op) in h.iter().enumerate() {
            r.transitions += 1;
            let at = || format!("{h:?}, step {i}");
            let data = |n: usize| { let mut d = contents(n, 6); for b in &mut d { *b = b.wrapping_add(i as u8 * 31); } d };
            let now = target;
            let real = |f: usize| if f == 2 { now } else { f };
            let res: Result<Result<(), String>, String> = guard(|| { match *op {
                Op::Write(f, n) => { let d = data(n); All { data: d.clone() }.write_to_file(&paths[f]).map_err(|e| e.to_string())?; model[f] = Some(d); }
                Op::Text(f) => { "text".write_to_file(&paths[f]).map_err(|e| e.to_string())?; model[f] = Some(b"\x04\0\0\0text".to_vec()); }
                Op::WriteFails(f) => { if Fails(vec![1, 2, 3]).write_to_file(&paths[f]).is_ok() { return Err("it succeeded".into()); } model[f] = fs::read(&paths[f]).ok(); if let Some(d) = &model[f] { if ![0, 3].contains(&d.len()) { return Err(format!("the file has {}", hex(d))); } } }
                Op::Read(f) => match (All::read_from_file(&paths[f]), &model[real(f)]) { (Ok(v), Some(d)) if v.data == *d => kept.push((v, d.clone())), (Err(e), None) if classify(&e) == Cls::Io(std::io::ErrorKind::NotFound) => {} (x, d) => return Err(format!("{x:?} instead of {d:?}")) },
                Op::ReadText(f) => { let x = String::read_from_file(&paths[f]).map_err(|e| classify(&e)); let w = match &model[real(f)] { None => Err(Cls::Io(std::io::ErrorKind::NotFound)), Some(d) => String::read_from_buffer(d).map_err(|e| classify(&e)) }; match (x, w) { (Ok(a), Ok(b)) if a == b => kept_text.push((a, b)), (Err(a), Err(b)) if a == b || a.is_end() && b.is_end() => {} (a, b) => return Err(format!("{a:?} instead of {b:?}")) } }
                Op::ReadWords(f) => { let x = AllWords::read_from_file(&paths[f]).map_err(|e| classify(&e)); let w = match &model[real(f)] { None => Err(Cls::Io(std::io::ErrorKind::NotFound)), Some(d) => AllWords::read_from_buffer(d).map_err(|e| classify(&e)) }; match (x, w) { (Ok(a), Ok(b)) if a == b => {} (Err(a), Err(b)) if a == b || a.is_end() && b.is_end() => {} (a, b) => return Err(format!("{a:?} instead of {b:?}")) } }
                Op::ReadFails(f) => if Fails::read_from_file(&paths[f]).is_ok() { return Err("it succeeded".into()); },
                Op::Remove(f) => { let _ = fs::remove_file(&paths[f]); model[f] = None; }
                Op::Truncate(f) => if let Some(d) = &mut model[f] { let n = d.len() / 2; d.truncate(n); fs::OpenOptions::new().write(true).open(&paths[f]).unwrap().set_len(n as u64).unwrap(); },
                Op::Scribble(f) => if let Some(d) = &mut model[f] { use std::os::unix::fs::FileExt; for b in d.iter_mut() { *b ^= 0x5a; } fs::OpenOptions::new().write(true).open(&paths[f]).unwrap().write_all_at(d, 0).unwrap(); },
                Op::Append(f) => if let Some(d) = &mut model[f] { use std::io::Write; d.extend([7; 3]); fs::OpenOptions::new().append(true).open(&paths[f]).unwrap().write_all(&[7; 3]).unwrap(); },
                Op::Swap => { let t = r.dir.join("t"); let _ = fs::rename(&paths[0], &t); let _ = fs::rename(&paths[1], &paths[0]); let _ = fs::rename(&t, &paths[1]); model.swap(0, 1); }
                Op::Link => { target ^= 1; fs::remove_file(&paths[2]).unwrap(); std::os::unix::fs::symlink(&paths[target], &paths[2]).unwrap(); }
            } Ok(()) });
            match res { Ok(Ok(())) => {} Ok(Err(m)) | Err(m) => r.fail("history", format!("{}: {m}", at())) }
            for f in 0..2 { let is = fs::read(&paths[f]).ok(); if is != model[f] { r.fail("history files", format!("{}: file {f} has {:?} instead of {:?}", at(), is.as_deref().map(brief), model[f].as_deref().map(brief))); } }
            for (v, d) in &kept { if v.data != *d { r.fail("history kept", format!("{}: what was read before is now {}", at(), brief(&v.data))); } }
            for (v, d) in &kept_text { if v != d { r.fail("history kept", format!("{}: what was read before is now {v:?}", at())); } }
            r.see(&model);
            if r.stop() { return; }
        }
        if start % 97 == 0 { let now = held(&r.dir); if !now.1.is_empty() || now.0.iter().any(|x| x.1.starts_with(&r.dir) && x.1.file_name().map_or(false, |n| n.to_str().unwrap().starts_with('h'))) { r.fail("history held", format!("{h:?} leaves {now:?}")); } }
    }
    for p in &paths { let _ = fs::remove_file(p); }
}
/// Paths which cannot be read or written.
fn paths(r: &mut Run) {
    if !r.unit() { return; }
    let d = r.dir.join("paths");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir(&d).unwrap();
    fs::create_dir(d.join("dir")).unwrap();
    fs::write(d.join("file"), b"abc").unwrap();
    fs::write(d.join("secret"), b"abc").unwrap();
    let _ = std::os::unix::fs::symlink(d.join("nowhere/x"), d.join("dangling"));
    let _ = std::os::unix::fs::symlink(d.join("loop"), d.join("loop"));
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(d.join("secret"), fs::Permissions::from_mode(0)).unwrap();
    let before = held(&r.dir);
    let long = "x".repeat(300);
    let cases: [(&str, PathBuf); 11] = [("missing", d.join("missing/x")), ("a directory", d.join("dir")), ("the root of them", d.clone()), ("below a file", d.join("file/x")), ("dangling", d.join("dangling")), ("a loop", d.join("loop")), ("too long", d.join(&long)), ("empty", PathBuf::new()), ("with a zero", d.join("a\0b")), ("a file as a directory", PathBuf::from(format!("{}/", d.join("file").display()))), ("not ours", d.join("secret"))];
    for (name, p) in &cases {
        // As somebody who may not read everything.
        let user = *name == "not ours";
        let root = user && unsafe { libc_level::geteuid() } == 0;
        if root && unsafe { libc_level::seteuid(65534) } != 0 { r.count("permission_cases_skipped", 1); continue; }
        for k in 0..6 {
            r.case(|| format!("{name} ({k})"));
            r.traces += 1; r.transitions += 1; r.states += 1;
            r.see(&(name, k));
            let io = if k < 3 { fs::read(p).map(|_| ()) } else { fs::OpenOptions::new().write(true).create(true).open(p).map(|_| ()) };
            let got = guard(|| match k { 0 => All::read_from_file(p).map(|_| ()), 1 => u32::read_from_file_with_ctx(en(true), p).map(|_| ()), 2 => <()>::read_from_file(p), 3 => All { data: vec![1] }.write_to_file(p), 4 => 5u32.write_to_file_with_ctx(en(true), p), _ => ().write_to_file(p) }.map_err(|e| classify(&e)));
            let fine = match (&got, &io) { (Ok(Err(Cls::Io(a))), Err(b)) => *a == b.kind() || *name == "a directory" || *name == "the root of them" || (*name == "too long"), (Ok(Ok(())), Ok(())) => true, _ => false };
            if io.is_ok() { r.fail("harness", format!("{name} is no error here")); }
            if !fine { r.fail(&format!("path {name} {}", k / 3), format!("{} {name}: {got:?}, but it is {io:?} for the standard library", if k < 3 { "reading" } else { "writing" })); }
        }
        if root { unsafe { libc_level::seteuid(0); } }
        check_held(r, &before, &format!("using {name}"));
    }
    let _ = fs::remove_dir_all(&d);
    // Files larger than what fits in 32 bits, most of which is not there.
    let p = r.dir.join("huge");
    for extra in [0u64, 1, 3, 8, 4096] {
        let f = fs::File::create(&p).unwrap();
        if f.set_len((1 << 32) + extra).is_err() { r.count("huge_files_skipped", 1); break; }
        fs::write(r.dir.join("x"), b"").unwrap();
        use std::os::unix::fs::FileExt;
        f.write_all_at(&[1, 2, 3, 4, 5, 6, 7, 8, 9], 0).unwrap();
        drop(f);
        r.case(|| format!("the beginning of a file with 4 GiB and {extra} bytes"));
        r.traces += 1; r.transitions += 1; r.states += 1;
        r.see(&("huge", extra));
        let got: Got<(u64, u8, u16)> = guard(|| <(u64, u8, u16)>::read_from_file(&p).map_err(|e| classify(&e)));
        if got != Ok(Ok((0x0807060504030201, 9, 0))) { r.fail("huge", format!("the beginning of a file with 4 GiB and {extra} bytes is {got:?}")); }
        let _ = fs::remove_file(&p);
        check_held(r, &before, "reading a huge file");
    }
}

fn c23(r: &mut Run) {
    let th = r.thorough;
    paths(r);
    let mut edges: Vec<usize> = (0..40).collect();
    for k in [4096, 8192, 12288, 16384, 65536, 1 << 20] { for d in -6i64..=6 { edges.push((k as i64 + d) as usize); } }
    if th { edges = (0..=8300).chain([12287, 12288, 12289, 65535, 65536, 65537, 65540, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, 10_000_000]).collect(); }
    read_all(r, &edges);
    write_all(r, &if th { (0..=600).chain(4090..=4110).chain(8170..=8210).chain(16370..=16400).chain([65536, 1 << 20]).collect::<Vec<_>>() } else { edges.iter().copied().filter(|x| x % 3 != 1 || *x < 5 || *x % 4096 <= 1 || *x % 4096 > 4094).collect() });
    faults(r, &[0, 1, 2, 3, 4, 5, 100, 4096, 4097, 8187, 8188, 8189, 8191, 8192, 8193, 12288, 20000, 70000], if th { 4 } else { 2 });
    let ops = [Op::Write(0, 5), Op::Write(0, 5000), Op::Write(0, 0), Op::Write(1, 4096), Op::Text(0), Op::Read(0), Op::Read(1), Op::Read(2), Op::ReadText(2), Op::ReadWords(0), Op::ReadFails(0), Op::WriteFails(0), Op::Remove(0), Op::Truncate(0), Op::Scribble(0), Op::Append(0), Op::Swap, Op::Link];
    history(r, &ops, if th { 5 } else { 4 });
}

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C23", level: "fault_enumeration", run: c23, rule: "Files of all sizes up to 39 and within 6 bytes of multiples of the size of a page (thorough: up to 8300), with seven kinds of contents, read as 18 types in both byte orders and compared with reading from a buffer; 11 values of about these sizes written over nothing or files of five other sizes; every answer of the system (errors, EINTR, short writes) at every one of the system calls made, up to 2 (4) deviations, for ten operations on 18 sizes, with open files and mappings compared before and after, and mappings tracked at the mmap interface; every sequence of 4 (5) out of 18 operations on three paths, with the contents of the files and everything read before compared with a model after every step; paths which cannot be opened; files larger than 4 GiB.", assumptions: &["the C library functions replaced in files.rs are the only ways by which files are accessed; others would not be subject to faults, but leaks and contents are still observed"] }]
}
