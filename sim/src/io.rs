//! Interposed libc entry points. Outside library code they forward to the
//! kernel. Inside library code, calls on files of the run's scratch directory
//! are answered as the run's fault plan says.

use crate::choice::{self, choose64};
use crate::elem;
use crate::rt::{self, bump, hash_event, point, trace, Pt, IN_SUT};
use crate::sys::*;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hard {
    None,
    /// The n-th faultable call fails with this errno; `sticky`: so do all later ones.
    AtCall { n: u64, errno: i32, sticky: bool },
    /// The device takes this many more bytes, then reports this errno.
    AfterBytes { n: u64, errno: i32 },
    /// The n-th open of a scratch file fails.
    AtOpen { n: u64, errno: i32 },
    /// The process dies at the n-th call that changes files. A write has stored
    /// `torn`/256 of its bytes by then; other calls have happened if `torn` >= 128.
    CrashAt { n: u64, torn: u64 },
}

pub struct Io {
    pub root: String,
    /// benign faults (short transfers, EINTR): mean number of calls between them, 0 = never
    pub benign: u64,
    gap: u64,
    eintr_run: u32,
    /// longest series of interrupted calls
    pub eintr_max: u32,
    /// a slow device: no transfer moves more bytes than this, 0 = no limit
    pub drip: usize,
    pub hard: Hard,
    pub hard_hit: bool,
    pub crashed: bool,
    pub calls: u64,
    pub opens: u64,
    pub muts: u64,
    pub bytes: u64,
    /// called with the file's name after each call that may have changed it
    pub monitor: Option<fn(&str)>,
    pub log: bool,
}

static mut IO: Io = Io {
    root: String::new(),
    benign: 0,
    gap: 0,
    eintr_run: 0,
    eintr_max: 4,
    drip: 0,
    hard: Hard::None,
    hard_hit: false,
    crashed: false,
    calls: 0,
    opens: 0,
    muts: 0,
    bytes: 0,
    monitor: None,
    log: false,
};

const MAXFD: usize = 4096;
static FDS: [AtomicI32; MAXFD] = [const { AtomicI32::new(0) }; MAXFD];
static mut NAMES: BTreeMap<i32, String> = BTreeMap::new();

pub fn io() -> &'static mut Io {
    unsafe { &mut *std::ptr::addr_of_mut!(IO) }
}

fn names() -> &'static mut BTreeMap<i32, String> {
    unsafe { &mut *std::ptr::addr_of_mut!(NAMES) }
}

/// Puts an already open file under the control of the fault plan.
pub fn register(fd: i32, name: &str) {
    if (fd as usize) < MAXFD {
        FDS[fd as usize].store(1, SeqCst);
        names().insert(fd, name.to_string());
    }
}

fn registered(fd: i32) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && FDS[fd as usize].load(SeqCst) != 0
}

fn forget(fd: i32) {
    if registered(fd) {
        FDS[fd as usize].store(0, SeqCst);
    }
}

static mut HITS: BTreeMap<String, u64> = BTreeMap::new();

fn hit(name: &str) {
    io().hard_hit = true;
    *unsafe { &mut *std::ptr::addr_of_mut!(HITS) }.entry(name.to_string()).or_insert(0) += 1;
}

/// Number of errors reported so far on the file registered or opened under this name.
pub fn hits_on(name: &str) -> u64 {
    unsafe { (*std::ptr::addr_of!(HITS)).get(name).copied().unwrap_or(0) }
}

fn fname(fd: i32) -> String {
    names().get(&fd).cloned().unwrap_or_default()
}

/// Resets counters and installs a fault plan.
pub fn plan(benign: u64, hard: Hard) {
    let s = io();
    s.benign = benign;
    s.hard = hard;
    s.hard_hit = false;
    s.crashed = false;
    s.calls = 0;
    s.opens = 0;
    s.muts = 0;
    s.bytes = 0;
    s.eintr_run = 0;
    s.drip = 0;
    s.gap = 0;
    if benign > 0 {
        draw_gap();
    }
}

/// Adds the less common shapes of benign trouble to the plan.
pub fn slow_device() {
    let s = io();
    s.drip = choice::pick(&[1usize, 2, 3, 7, 10, 64, 100, 256, 500]);
    s.eintr_max = choice::pick(&[4u32, 20, 100]);
    trace(|| format!("no transfer moves more than {} bytes", s.drip));
}

fn draw_gap() {
    let s = io();
    s.gap = if choice::exhausted() {
        u64::MAX
    } else {
        match choose64(2 * s.benign + 1) {
            0 => 20 * s.benign,
            v => v,
        }
    };
}

enum Act {
    Go,
    Err(i32),
    Limit(usize),
    Crash(usize),
}

const READ: u64 = 1;
const WRITE: u64 = 2;
const OTHER: u64 = 3;

/// Decides how a transfer of `len` bytes is answered.
fn decide(fd: i32, kind: u64, len: usize) -> Act {
    let s = io();
    s.calls += 1;
    if kind == WRITE {
        s.muts += 1;
    }
    match s.hard {
        Hard::AtCall { n, errno, sticky } if s.calls == n + 1 || (sticky && s.calls > n) => {
            hit(&fname(fd));
            bump(match errno {
                EIO => "fault_eio",
                ENOSPC => "fault_enospc",
                _ => "fault_errno_other",
            });
            hash_event(0xE0 + errno as u64, s.calls);
            trace(|| format!("{}: call {} on {} -> errno {}", rt::tname(), s.calls, fname(fd), errno));
            return Act::Err(errno);
        }
        Hard::AfterBytes { n, errno } if kind == WRITE && len > 0 => {
            let left = n.saturating_sub(s.bytes) as usize;
            if left == 0 {
                hit(&fname(fd));
                bump("fault_disk_full");
                hash_event(0xE1, s.bytes);
                trace(|| format!("{}: write on {} after {} bytes -> errno {}", rt::tname(), fname(fd), s.bytes, errno));
                return Act::Err(errno);
            }
            if left < len {
                hit(&fname(fd));
                bump("fault_disk_full_partial");
                hash_event(0xE2, left as u64);
                trace(|| format!("{}: write of {} on {} -> stored {}", rt::tname(), len, fname(fd), left));
                return Act::Limit(left);
            }
        }
        Hard::CrashAt { n, torn } if kind == WRITE && s.muts == n + 1 => {
            hit(&fname(fd));
            let k = (len as u64 * torn / 256) as usize;
            bump("fault_crash");
            if k > 0 {
                bump("fault_torn_write");
            }
            hash_event(0xE3, s.muts * 1000 + k as u64);
            trace(|| format!("{}: crash at a write on {}, {} of {} bytes stored", rt::tname(), fname(fd), k, len));
            return Act::Crash(k);
        }
        _ => {}
    }
    if s.benign > 0 && kind != OTHER {
        s.gap = s.gap.saturating_sub(1);
        if s.gap == 0 {
            draw_gap();
            let eintr = s.eintr_run < s.eintr_max && (len <= 1 || choose64(3) == 2);
            if eintr {
                s.eintr_run += 1;
                bump("fault_eintr");
                hash_event(0xE4, s.calls);
                trace(|| format!("{}: call {} on {} -> EINTR", rt::tname(), s.calls, fname(fd)));
                return Act::Err(EINTR);
            }
            if len > 1 {
                // 0 = all but one byte
                let k = len - 1 - choose64(len as u64 - 1) as usize;
                bump(if kind == READ { "fault_short_read" } else { "fault_short_write" });
                hash_event(0xE5, k as u64);
                trace(|| {
                    format!(
                        "{}: {} of {} on {} -> {} bytes",
                        rt::tname(),
                        if kind == READ { "read" } else { "write" },
                        len,
                        fname(fd),
                        k
                    )
                });
                s.eintr_run = 0;
                return Act::Limit(k);
            }
        }
    }
    s.eintr_run = 0;
    if s.drip > 0 && kind != OTHER && len > s.drip {
        bump(if kind == READ { "fault_dripping_read" } else { "fault_dripping_write" });
        hash_event(0xE9, s.drip as u64);
        return Act::Limit(s.drip);
    }
    Act::Go
}

fn crash() -> ! {
    io().crashed = true;
    if let Some(m) = io().monitor {
        m("");
    }
    rt::die();
}

/// A call other than a write that changes files: a place to crash before or after.
fn mutation(what: &str, name: &str, call: impl Fn() -> isize) -> isize {
    let s = io();
    s.muts += 1;
    if let Hard::CrashAt { n, torn } = s.hard {
        if s.muts == n + 1 {
            hit(name);
            bump("fault_crash");
            hash_event(0xE8, s.muts * 2 + (torn >= 128) as u64);
            trace(|| format!("{}: crash {} {what} {name}", rt::tname(), if torn >= 128 { "after" } else { "before" }));
            if torn >= 128 {
                call();
            }
            crash();
        }
    }
    call()
}

/// Runs `call(limit)` for a transfer on a controlled file.
fn transfer(fd: i32, kind: u64, len: usize, call: impl Fn(usize) -> isize) -> isize {
    point(Pt::Io);
    IN_SUT.with(|f| f.set(false));
    let r = match decide(fd, kind, len) {
        Act::Go => call(len),
        Act::Limit(k) => call(k),
        Act::Err(e) => -(e as isize),
        Act::Crash(k) => {
            if k > 0 {
                call(k);
            }
            crash()
        }
    };
    if kind == WRITE && r > 0 {
        io().bytes += r as u64;
    }
    if io().log {
        trace(|| format!("{}: {} {} bytes on {} = {}", rt::tname(), if kind == READ { "read" } else { "write" }, len, fname(fd), r));
    }
    if kind != READ && r >= 0 {
        if let Some(m) = io().monitor {
            m(&fname(fd));
        }
    }
    IN_SUT.with(|f| f.set(true));
    ret(r)
}

fn controlled(fd: i32) -> bool {
    IN_SUT.with(|f| f.get()) && registered(fd)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if controlled(fd) {
        return transfer(fd, READ, n, |k| raw(SYS_READ, fd as usize, buf as usize, k, 0, 0, 0));
    }
    ret(raw(SYS_READ, fd as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if controlled(fd) {
        return transfer(fd, WRITE, n, |k| raw(SYS_WRITE, fd as usize, buf as usize, k, 0, 0, 0));
    }
    ret(raw(SYS_WRITE, fd as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if controlled(fd) {
        return transfer(fd, READ, n, |k| raw(SYS_PREAD64, fd as usize, buf as usize, k, off as usize, 0, 0));
    }
    ret(raw(SYS_PREAD64, fd as usize, buf as usize, n, off as usize, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    if controlled(fd) {
        return transfer(fd, WRITE, n, |k| raw(SYS_PWRITE64, fd as usize, buf as usize, k, off as usize, 0, 0));
    }
    ret(raw(SYS_PWRITE64, fd as usize, buf as usize, n, off as usize, 0, 0))
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}

unsafe fn vectored(sysno: usize, fd: i32, iov: *const IoVec, cnt: i32, kind: u64) -> isize {
    if !controlled(fd) {
        return ret(raw(sysno, fd as usize, iov as usize, cnt as usize, 0, 0, 0));
    }
    let v: Vec<IoVec> = rt::outside(|| std::slice::from_raw_parts(iov, cnt as usize).to_vec());
    let total: usize = v.iter().map(|x| x.len).sum();
    let r = transfer(fd, kind, total, |mut k| {
        let mut w = Vec::new();
        for x in &v {
            let t = x.len.min(k);
            w.push(IoVec { base: x.base, len: t });
            k -= t;
        }
        raw(sysno, fd as usize, w.as_ptr() as usize, w.len(), 0, 0, 0)
    });
    rt::outside(move || drop(v));
    r
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    vectored(SYS_READV, fd, iov, cnt, READ)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    vectored(SYS_WRITEV, fd, iov, cnt, WRITE)
}

fn simple(fd: i32, call: impl Fn() -> isize) -> isize {
    if controlled(fd) {
        return transfer(fd, OTHER, 0, |_| call());
    }
    ret(call())
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    simple(fd, || raw(SYS_FSYNC, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    simple(fd, || raw(SYS_FDATASYNC, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    let call = || raw(SYS_FTRUNCATE, fd as usize, len as usize, 0, 0, 0, 0);
    if controlled(fd) {
        return transfer(fd, OTHER, 0, |_| mutation("truncation of", &fname(fd), call)) as i32;
    }
    ret(call()) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    ftruncate64(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if controlled(fd) {
        point(Pt::Io);
    }
    forget(fd);
    ret(raw(SYS_CLOSE, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    let r = ret(raw(SYS_FCNTL, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32;
    // F_DUPFD, F_DUPFD_CLOEXEC
    if (cmd == 0 || cmd == 1030) && r >= 0 && registered(fd) {
        let n = rt::outside(|| fname(fd));
        rt::outside(|| register(r, &n));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}

/// Paths of the scratch directory; relative ones too, the run's working
/// directory is there whenever library code is given a relative path.
fn inside(p: &[u8]) -> bool {
    p.starts_with(io().root.as_bytes()) || !p.starts_with(b"/")
}

fn short_name(p: &[u8]) -> String {
    let p = p.strip_prefix(io().root.as_bytes()).unwrap_or(p);
    let p = p.strip_prefix(b"./").unwrap_or(p);
    String::from_utf8_lossy(p).into_owned()
}

unsafe fn do_open(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    let call = || raw(SYS_OPENAT, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if !IN_SUT.with(|f| f.get()) || io().root.is_empty() {
        return ret(call()) as i32;
    }
    let p = CStr::from_ptr(path as *const _).to_bytes();
    if !inside(p) {
        return ret(call()) as i32;
    }
    point(Pt::Io);
    IN_SUT.with(|f| f.set(false));
    let s = io();
    let writing = flags & O_ACCMODE != 0;
    if writing {
        s.opens += 1;
    }
    let short = short_name(p);
    let mut r = None;
    if let Hard::AtOpen { n, errno } = s.hard {
        if writing && s.opens == n + 1 {
            hit(&short);
            bump("fault_open");
            hash_event(0xE6, errno as u64);
            trace(|| format!("{}: open {} -> errno {}", rt::tname(), short, errno));
            r = Some(-(errno as isize));
        }
    }
    if r.is_none() && s.benign > 0 {
        s.gap = s.gap.saturating_sub(1);
        if s.gap == 0 {
            draw_gap();
            bump("fault_eintr_open");
            hash_event(0xE7, s.opens);
            trace(|| format!("{}: open {} -> EINTR", rt::tname(), short));
            r = Some(-(EINTR as isize));
        }
    }
    let r = r.unwrap_or_else(|| {
        let fd = if flags & (O_CREAT | O_TRUNC) != 0 { mutation("opening", &short, call) } else { call() };
        if fd >= 0 {
            register(fd as i32, &short);
        }
        fd
    });
    if writing && r >= 0 {
        if let Some(m) = io().monitor {
            m(&short);
        }
    }
    IN_SUT.with(|f| f.set(true));
    ret(r) as i32
}

const AT_FDCWD: i32 = -100;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}

/// A call on a path. Renaming stores content, so it can be refused; removing may
/// legitimately be done on a best-effort basis and is left alone.
unsafe fn path_op(what: &str, path: *const u8, refusable: bool, call: impl Fn() -> isize) -> i32 {
    if !IN_SUT.with(|f| f.get()) || io().root.is_empty() {
        return ret(call()) as i32;
    }
    let p = CStr::from_ptr(path as *const _).to_bytes();
    if !inside(p) {
        return ret(call()) as i32;
    }
    point(Pt::Io);
    IN_SUT.with(|f| f.set(false));
    let name = short_name(p);
    let mut r = None;
    if refusable {
        let s = io();
        s.calls += 1;
        if let Hard::AtCall { n, errno, sticky } = s.hard {
            if s.calls == n + 1 || (sticky && s.calls > n) {
                hit(&name);
                bump("fault_path_call");
                hash_event(0xE9, s.calls);
                trace(|| format!("{}: {what} {name} -> errno {errno}", rt::tname()));
                r = Some(-(errno as isize));
            }
        }
    }
    let r = r.unwrap_or_else(|| mutation(what, &name, call));
    if let Some(m) = io().monitor {
        m("");
    }
    IN_SUT.with(|f| f.set(true));
    ret(r) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    path_op("rename", a, true, || raw(SYS_RENAME, a as usize, b as usize, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const u8) -> i32 {
    path_op("removal of", a, false, || raw(SYS_UNLINK, a as usize, 0, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const u8, b: *const u8) -> i32 {
    path_op("link", a, true, || raw(SYS_LINK, a as usize, b as usize, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const u8, mode: u32) -> i32 {
    path_op("creation of directory", a, false, || raw(SYS_MKDIR, a as usize, mode as usize, 0, 0, 0, 0))
}

// ------------------------------------------------------- time, randomness, locks

fn now_ns() -> u64 {
    1_700_000_000_000_000_000 + rt::steps() * 1000
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if IN_SUT.with(|f| f.get()) {
        let t = now_ns();
        (*ts).s = (t / 1_000_000_000) as i64;
        (*ts).n = (t % 1_000_000_000) as i64;
        rt::STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}

unsafe fn sleep_for(ts: *const Timespec) {
    let ns = (*ts).s as u64 * 1_000_000_000 + (*ts).n as u64;
    rt::STEPS.fetch_add(ns / 1000, std::sync::atomic::Ordering::Relaxed);
    rt::yield_now();
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const Timespec, rem: *mut Timespec) -> i32 {
    if IN_SUT.with(|f| f.get()) || rt::managed() {
        sleep_for(ts);
        return 0;
    }
    ret(raw(SYS_NANOSLEEP, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, ts: *const Timespec, rem: *mut Timespec) -> i32 {
    if IN_SUT.with(|f| f.get()) || rt::managed() {
        if fl == 0 {
            sleep_for(ts);
        } else {
            rt::yield_now();
        }
        return 0;
    }
    -(raw(SYS_CLOCK_NANOSLEEP, clk as usize, fl as usize, ts as usize, rem as usize, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if IN_SUT.with(|f| f.get()) || rt::managed() {
        rt::yield_now();
        return 0;
    }
    ret(raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

static mut ENTROPY: u64 = 0x5eed;

unsafe fn entropy(buf: *mut u8, n: usize) -> isize {
    for i in 0..n {
        ENTROPY = ENTROPY.wrapping_add(1);
        *buf.add(i) = choice::mix(ENTROPY) as u8;
    }
    n as isize
}

/// Process number shown to the library; 0 for the real one.
pub static PID: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    let n = PID.load(std::sync::atomic::Ordering::Relaxed);
    if n != 0 && IN_SUT.with(|f| f.get()) {
        return n as i32;
    }
    raw(SYS_GETPID, 0, 0, 0, 0, 0, 0) as i32
}

/// The machine has as many processors as the simulated pool has threads.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if IN_SUT.with(|f| f.get()) && n >= 8 {
        std::ptr::write_bytes(mask, 0, n);
        for k in 0..rt::threads().min(n * 8) {
            *mask.add(k / 8) |= 1 << (k % 8);
        }
        return 0;
    }
    let r = raw(SYS_SCHED_GETAFFINITY, pid as usize, n, mask as usize, 0, 0, 0);
    if r > 0 {
        std::ptr::write_bytes(mask.add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    entropy(buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let nn = n as usize;
    if nn == SYS_FUTEX && rt::managed() {
        match b & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => return ret(rt::futex_wait(a, c as u32, d != 0)) as i64,
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                let k = rt::futex_wake(a, c);
                let r = raw(nn, a, b, c, d, e, f);
                return k.max(r) as i64;
            }
            _ => {}
        }
    }
    if nn == SYS_GETRANDOM {
        return entropy(a as *mut u8, b) as i64;
    }
    ret(raw(nn, a, b, c, d, e, f)) as i64
}

// -------------------------------------------------------------------- threads

type Start = extern "C" fn(*mut u8) -> *mut u8;
type CreateFn = unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32;
type JoinFn = unsafe extern "C" fn(usize, *mut *mut u8) -> i32;

static mut THREADS: BTreeMap<usize, usize> = BTreeMap::new();

fn threads() -> &'static mut BTreeMap<usize, usize> {
    unsafe { &mut *std::ptr::addr_of_mut!(THREADS) }
}

struct Boot {
    start: Start,
    arg: *mut u8,
    /// none for a thread outside the simulation
    task: Option<(usize, &'static rt::Sem)>,
    sut: bool,
    identity: bool,
}

thread_local! {
    /// What the thread runs once std has set it up is library code.
    static AFTER_SETUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// std calls this as the last step of setting a thread up and as the first of
/// taking it down. Threads are not preempted outside of that: std's own lock
/// would then stop threads that end outside the simulation.
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(new: *const AltStack, old: *mut AltStack) -> i32 {
    let r = raw(SYS_SIGALTSTACK, new as usize, old as usize, 0, 0, 0, 0);
    if !new.is_null() {
        IN_SUT.with(|f| f.set((*new).flags & 2 == 0 && AFTER_SETUP.with(|a| a.get())));
    }
    ret(r) as i32
}

#[repr(C)]
pub struct AltStack {
    at: *mut u8,
    flags: i32,
    size: usize,
}

extern "C" fn boot(p: *mut u8) -> *mut u8 {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    if let Some((id, sem)) = b.task {
        rt::task_begin(id, sem);
    }
    AFTER_SETUP.with(|f| f.set(b.sut));
    elem::set_identity(b.identity);
    let (start, arg, sim) = (b.start, b.arg, b.task.is_some());
    let r = start(arg);
    IN_SUT.with(|f| f.set(false));
    drop(b);
    if sim {
        rt::exiting();
        rt::task_end();
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    rt::unstep();
    let real: CreateFn = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_create".as_ptr() as *const u8));
    let identity = elem::identity();
    if !rt::managed() {
        if identity {
            let b = Box::new(Boot { start, arg, task: None, sut: false, identity });
            return real(th, attr, boot, Box::into_raw(b) as *mut u8);
        }
        return real(th, attr, start, arg);
    }
    let sut = IN_SUT.with(|f| f.replace(false));
    bump("library_threads");
    let id = rt::new_task();
    let b = Box::into_raw(Box::new(Boot { start, arg, task: Some((id, rt::sem_of(id))), sut, identity }));
    let r = real(th, attr, boot, b as *mut u8);
    if r == 0 {
        threads().insert(*th, id);
    } else {
        rt::forget_task(id);
    }
    IN_SUT.with(|f| f.set(sut));
    point(Pt::Io);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, out: *mut *mut u8) -> i32 {
    let real: JoinFn = std::mem::transmute(dlsym(RTLD_NEXT, c"pthread_join".as_ptr() as *const u8));
    if rt::managed() {
        rt::unstep();
        let id = rt::outside(|| threads().remove(&th));
        if let Some(id) = id {
            rt::join_task(id);
        }
    }
    real(th, out)
}

// ------------------------------------------------------------------ allocator

pub struct Alloc;

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        point(Pt::Alloc);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        point(Pt::Alloc);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        point(Pt::Alloc);
        std::alloc::System.alloc_zeroed(l)
    }
}
