//! Raw system calls and the few C declarations the simulator needs.
//! The harness interposes libc functions, so it must not go through them itself.
#![allow(dead_code)]

use std::arch::asm;

pub const SYS_READ: usize = 0;
pub const SYS_WRITE: usize = 1;
pub const SYS_CLOSE: usize = 3;
pub const SYS_LSEEK: usize = 8;
pub const SYS_MMAP: usize = 9;
pub const SYS_PREAD64: usize = 17;
pub const SYS_PWRITE64: usize = 18;
pub const SYS_READV: usize = 19;
pub const SYS_WRITEV: usize = 20;
pub const SYS_SCHED_YIELD: usize = 24;
pub const SYS_DUP2: usize = 33;
pub const SYS_NANOSLEEP: usize = 35;
pub const SYS_ALARM: usize = 37;
pub const SYS_GETPID: usize = 39;
pub const SYS_KILL: usize = 62;
pub const SYS_FCNTL: usize = 72;
pub const SYS_FSYNC: usize = 74;
pub const SYS_FDATASYNC: usize = 75;
pub const SYS_FTRUNCATE: usize = 77;
pub const SYS_RENAME: usize = 82;
pub const SYS_MKDIR: usize = 83;
pub const SYS_LINK: usize = 86;
pub const SYS_UNLINK: usize = 87;
pub const SYS_PERSONALITY: usize = 135;
pub const SYS_GETTID: usize = 186;
pub const SYS_TGKILL: usize = 234;
pub const SYS_SIGALTSTACK: usize = 131;
pub const SYS_MPROTECT: usize = 10;
pub const SYS_RT_SIGACTION: usize = 13;
pub const SYS_FUTEX: usize = 202;
pub const SYS_CLOCK_GETTIME: usize = 228;
pub const SYS_SCHED_GETAFFINITY: usize = 204;
pub const SYS_CLOCK_NANOSLEEP: usize = 230;
pub const SYS_EXIT_GROUP: usize = 231;
pub const SYS_OPENAT: usize = 257;
pub const SYS_GETRANDOM: usize = 318;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EDQUOT: i32 = 122;
pub const ETIMEDOUT: i32 = 110;
pub const EROFS: i32 = 30;

pub const O_TRUNC: i32 = 0o1000;
pub const O_CREAT: i32 = 0o100;
pub const O_ACCMODE: i32 = 3;

#[inline]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(addr: *mut u8, len: usize) -> i32;
    pub fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
pub const RTLD_NEXT: *mut u8 = -1isize as *mut u8;

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

pub fn errno() -> i32 {
    unsafe { *__errno_location() }
}

/// Kernel convention (negative errno) to libc convention.
pub fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Memory shared between a process and its forked children.
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x01 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
