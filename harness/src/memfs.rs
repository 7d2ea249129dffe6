//! libc file and clock calls, served by an in-memory file system with crash
//! points and fault injection for paths under /memfs, and passed through to the
//! kernel otherwise (native replay only). Linked into both the symbolic run and
//! the native replay, so both see the same file system.
#![allow(static_mut_refs, unknown_lints, suspicious_runtime_symbol_definitions)]
use crate::rt;
use std::os::raw::{c_char, c_int, c_long, c_void};
extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
    fn strlen(p: *const c_char) -> usize;
}
const ENOENT: c_int = 2; const EIO: c_int = 5; const EBADF: c_int = 9; const EEXIST: c_int = 17; const ENOTDIR: c_int = 20; const EISDIR: c_int = 21; const ENOSPC: c_int = 28;
pub struct Fd { pub path: String, pub pos: usize, pub open: bool, pub append: bool }
pub struct Dir { names: Vec<(String, bool)>, pos: usize, ent: [u64; 40] }
pub struct Fs {
    pub files: Vec<(String, Vec<u8>)>,
    pub dirs: Vec<String>,
    pub fds: Vec<Fd>,
    /// mutating operations so far
    pub ops: i64,
    pub crash_at: i64,
    /// how many bytes of the write under way at the crash reached the file
    pub torn: i64,
    pub crashed: bool,
    pub fault_at: i64,
    pub faulted: bool,
    /// listing order: 0 as created, 1 reversed, 2 nondeterministic
    pub order: u8,
    pub log: Vec<String>,
    pub now: u64,
    pub ticks: usize,
    pub tick: Option<Box<dyn FnMut(usize) -> u64>>,
}
static mut FS: Fs = Fs { files: Vec::new(), dirs: Vec::new(), fds: Vec::new(), ops: 0, crash_at: -1, torn: 0, crashed: false, fault_at: -1, faulted: false, order: 0, log: Vec::new(), now: 1_700_000_000_000_000_000, ticks: 0, tick: None };
pub fn fs() -> &'static mut Fs { unsafe { &mut FS } }
enum Op { Go, Torn, Dead, Fail }
impl Fs {
    fn op(&mut self, what: &str, path: &str) -> Op {
        if self.crashed { return Op::Dead; }
        let k = self.ops;
        self.ops += 1;
        self.log.push(format!("{} {}", what, path));
        if self.crash_at >= 0 && rt::fork(k == self.crash_at) { self.crashed = true; return Op::Torn; }
        if self.fault_at >= 0 && rt::fork(k == self.fault_at) { self.faulted = true; return Op::Fail; }
        Op::Go
    }
    pub fn find(&mut self, p: &str) -> Option<&mut Vec<u8>> { self.files.iter_mut().find(|f| f.0 == p).map(|f| &mut f.1) }
    pub fn is_dir(&self, p: &str) -> bool { p == "/memfs" || p == "/" || self.dirs.iter().any(|d| d == p) }
    pub fn names(&self) -> Vec<String> { self.files.iter().map(|f| f.0.clone()).collect() }
    /// end of the crashed process: a new one starts on what is on disk
    pub fn reboot(&mut self) { self.crashed = false; self.crash_at = -1; self.fault_at = -1; self.fds.clear(); }
}
fn err(e: c_int) -> c_int { unsafe { *__errno_location() = e; } -1 }
unsafe fn path(p: *const c_char) -> Option<String> {
    let n = strlen(p);
    let b = std::slice::from_raw_parts(p as *const u8, n);
    if !b.starts_with(b"/memfs") { return None; }
    let mut s = String::from_utf8_lossy(b).into_owned();
    while s.len() > 1 && s.ends_with('/') { s.pop(); }
    Some(s)
}
const FD0: c_int = 1000;
unsafe fn native() -> bool { rt::__sym_native() }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let Some(s) = path(p) else { return if native() { syscall(2, p, flags, mode) as c_int } else { err(ENOENT) } };
    let f = fs();
    let (creat, trunc, excl, append) = (flags & 0o100 != 0, flags & 0o1000 != 0, flags & 0o200 != 0, flags & 0o2000 != 0);
    let write = flags & 3 != 0;
    if f.is_dir(&s) { if write || creat { return err(EISDIR); } f.fds.push(Fd { path: s, pos: 0, open: true, append: false }); return FD0 + f.fds.len() as c_int - 1; }
    let parent = s.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
    let exists = f.find(&s).is_some();
    if !exists {
        if !creat || !f.is_dir(&parent) { return err(ENOENT); }
        match f.op("create", &s) { Op::Dead => return err(EIO), Op::Fail => return err(ENOSPC), Op::Torn => return err(EIO), Op::Go => {} }
        f.files.push((s.clone(), Vec::new()));
    } else {
        if excl && creat { return err(EEXIST); }
        if trunc && write && !f.find(&s).unwrap().is_empty() {
            match f.op("truncate", &s) { Op::Dead => return err(EIO), Op::Fail => return err(ENOSPC), Op::Torn => return err(EIO), Op::Go => {} }
            f.find(&s).unwrap().clear();
        }
    }
    f.fds.push(Fd { path: s, pos: 0, open: true, append });
    FD0 + f.fds.len() as c_int - 1
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if fd < FD0 { return if native() { syscall(0, fd as c_long, buf, n) as isize } else { err(EBADF) as isize } }
    let f = fs();
    let i = (fd - FD0) as usize;
    let (p, pos) = (f.fds[i].path.clone(), f.fds[i].pos);
    if f.is_dir(&p) { return err(EISDIR) as isize; }
    let Some(d) = f.find(&p) else { return 0 };
    let k = n.min(d.len().saturating_sub(pos));
    std::ptr::copy_nonoverlapping(d.as_ptr().add(pos), buf, k);
    f.fds[i].pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    if fd < FD0 { return if native() { syscall(1, fd as c_long, buf, n) as isize } else { n as isize } }
    let f = fs();
    let i = (fd - FD0) as usize;
    let p = f.fds[i].path.clone();
    let mut n = n;
    let mut dead = false;
    match f.op("write", &p) {
        Op::Dead => return err(EIO) as isize,
        Op::Fail => return err(ENOSPC) as isize,
        Op::Torn => { dead = true; n = (rt::concrete(f.torn).max(0) as usize).min(n); }
        Op::Go => {}
    }
    let (pos, append) = (f.fds[i].pos, f.fds[i].append);
    if let Some(d) = f.find(&p) {
        let at = if append { d.len() } else { pos };
        while d.len() < at + n { d.push(0); }
        std::ptr::copy_nonoverlapping(buf, d.as_mut_ptr().add(at), n);
        f.fds[i].pos = at + n;
    }
    if dead { return err(EIO) as isize; }
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < FD0 { return if native() { syscall(3, fd as c_long) as c_int } else { 0 } }
    fs().fds[(fd - FD0) as usize].open = false;
    0
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if fd < FD0 { return if native() { syscall(8, fd as c_long, off, wh as c_long) as i64 } else { err(EBADF) as i64 } }
    let f = fs();
    let i = (fd - FD0) as usize;
    let p = f.fds[i].path.clone();
    let len = f.find(&p).map(|d| d.len()).unwrap_or(0) as i64;
    let base = match wh { 0 => 0, 1 => f.fds[i].pos as i64, _ => len };
    f.fds[i].pos = (base + off) as usize;
    base + off
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if fd < FD0 && native() { return syscall(74, fd as c_long) as c_int; } 0 }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { if fd < FD0 && native() { return syscall(75, fd as c_long) as c_int; } 0 }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fd < FD0 { return if native() { syscall(77, fd as c_long, len) as c_int } else { err(EBADF) } }
    let f = fs();
    let p = f.fds[(fd - FD0) as usize].path.clone();
    match f.op("ftruncate", &p) { Op::Go => {} Op::Fail => return err(ENOSPC), _ => return err(EIO) }
    if let Some(d) = f.find(&p) { d.resize(len as usize, 0); }
    0
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_int) -> c_int {
    let Some(s) = path(p) else { return if native() { syscall(83, p, mode as c_long) as c_int } else { err(ENOENT) } };
    let f = fs();
    if f.is_dir(&s) || f.find(&s).is_some() { return err(EEXIST); }
    let parent = s.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
    if !f.is_dir(&parent) { return err(ENOENT); }
    match f.op("mkdir", &s) { Op::Go => {} Op::Fail => return err(ENOSPC), _ => return err(EIO) }
    f.dirs.push(s);
    0
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let Some(s) = path(p) else { return if native() { syscall(87, p) as c_int } else { err(ENOENT) } };
    let f = fs();
    if f.find(&s).is_none() { return err(ENOENT); }
    match f.op("unlink", &s) { Op::Go => {} Op::Fail => return err(EIO), _ => return err(EIO) }
    f.files.retain(|x| x.0 != s);
    0
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (Some(s), Some(t)) = (path(a), path(b)) else { return if native() { syscall(82, a, b) as c_int } else { err(ENOENT) } };
    let f = fs();
    if f.find(&s).is_none() { return err(ENOENT); }
    match f.op("rename", &s) { Op::Go => {} Op::Fail => return err(EIO), _ => return err(EIO) }
    f.files.retain(|x| x.0 != t);
    for x in f.files.iter_mut() { if x.0 == s { x.0 = t.clone(); } }
    for x in f.fds.iter_mut() { if x.path == s { x.path = t.clone(); } }
    0
}
fn kind(s: &str) -> Option<(u32, u64)> {
    let f = fs();
    if f.is_dir(s) { return Some((0o040755, 0)); }
    f.find(s).map(|d| (0o100644, d.len() as u64))
}
unsafe fn fill_stat(b: *mut u8, m: u32, size: u64) { std::ptr::write_bytes(b, 0, 144); *(b.add(24) as *mut u32) = m; *(b.add(48) as *mut u64) = size; *(b.add(16) as *mut u64) = 1; }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    let Some(s) = path(p) else { return if native() { syscall(4, p, b) as c_int } else { err(ENOENT) } };
    match kind(&s) { Some((m, n)) => { fill_stat(b, m, n); 0 } None => err(ENOENT) }
}
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u8) -> c_int { if path(p).is_none() && native() { return syscall(6, p, b) as c_int; } stat64(p, b) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut u8) -> c_int {
    if fd < FD0 { return if native() { syscall(5, fd as c_long, b) as c_int } else { err(EBADF) } }
    let s = fs().fds[(fd - FD0) as usize].path.clone();
    match kind(&s) { Some((m, n)) => { fill_stat(b, m, n); 0 } None => err(ENOENT) }
}
#[no_mangle] pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut u8) -> c_int {
    let s = if dirfd >= FD0 { fs().fds[(dirfd - FD0) as usize].path.clone() } else if p.is_null() {
        // std's availability probe
        return if native() { syscall(332, dirfd as c_long, p, flags as c_long, mask as c_long, b) as c_int } else { err(14) };
    } else { match path(p) { Some(s) => s, None => return if native() { syscall(332, dirfd as c_long, p, flags as c_long, mask as c_long, b) as c_int } else { err(ENOENT) } } };
    match kind(&s) {
        Some((m, n)) => {
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x7ff;
            *(b.add(28) as *mut u16) = m as u16;
            *(b.add(40) as *mut u64) = n;
            0
        }
        None => err(ENOENT),
    }
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let Some(s) = path(p) else { err(ENOENT); return std::ptr::null_mut() };
    let f = fs();
    if !f.is_dir(&s) { err(if f.find(&s).is_some() { ENOTDIR } else { ENOENT }); return std::ptr::null_mut(); }
    let pre = format!("{}/", s);
    let mut names: Vec<(String, bool)> = vec![];
    for d in &f.dirs { if let Some(r) = d.strip_prefix(&pre) { if !r.contains('/') { names.push((r.to_string(), true)); } } }
    for (d, _) in &f.files { if let Some(r) = d.strip_prefix(&pre) { if !r.contains('/') { names.push((r.to_string(), false)); } } }
    match f.order { 0 => {} 1 => names.reverse(), _ => { let mut o = vec![]; while !names.is_empty() { let k = if names.len() == 1 { 0 } else { rt::choice("dirorder", names.len() as i64) }; o.push(names.remove(k)); } names = o; } }
    Box::into_raw(Box::new(Dir { names, pos: 0, ent: [0; 40] })) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    let d = &mut *(d as *mut Dir);
    if d.pos >= d.names.len() { return std::ptr::null_mut(); }
    let (n, isdir) = d.names[d.pos].clone();
    d.pos += 1;
    let e = d.ent.as_mut_ptr() as *mut u8;
    std::ptr::write_bytes(e, 0, 320);
    *(e as *mut u64) = d.pos as u64;
    *(e.add(16) as *mut u16) = 280;
    *e.add(18) = if isdir { 4 } else { 8 };
    std::ptr::copy_nonoverlapping(n.as_ptr(), e.add(19), n.len());
    e
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int { drop(Box::from_raw(d as *mut Dir)); 0 }
#[no_mangle] pub unsafe extern "C" fn dirfd(_d: *mut c_void) -> c_int { -1 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_clk: c_int, ts: *mut i64) -> c_int {
    let f = fs();
    let k = f.ticks;
    f.ticks += 1;
    if let Some(mut t) = f.tick.take() { let d = t(k); f.now += d; f.tick = Some(t); }
    *ts = (f.now / 1_000_000_000) as i64;
    *ts.add(1) = (f.now % 1_000_000_000) as i64;
    0
}
/// hash-map keys: the ones the symbolic executor uses
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _flags: u32) -> isize {
    let k: [u8; 16] = [0x67, 0x45, 0x23, 1, 0, 0, 0, 0, 0xef, 0xcd, 0xab, 0x89, 0, 0, 0, 0];
    for i in 0..n { *b.add(i) = k[i % 16]; }
    n as isize
}
