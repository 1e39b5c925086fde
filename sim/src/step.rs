//! Preemption between two machine instructions.
//!
//! *Stepping*: the processor's trap flag makes every instruction of the thread
//! raise SIGTRAP; the handler counts those of the program itself and gives the
//! baton away at the chosen one. Instructions inside libc are not counted, so the
//! place does not depend on its version.
//!
//! *Watching*: every instruction that refers to a static variable of the library
//! gets a breakpoint, so that threads can be switched exactly where they touch
//! memory they all share. The unchanged library has no such variable.

use crate::choice::{choose, choose64, exhausted};
use crate::rt::{self, bump_by, hash_event, IN_SUT, STEPPING};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    /// instructions until the switch, counted from the trigger
    static LEFT: Cell<u64> = const { Cell::new(0) };
    /// waiting for an instruction that locks the bus or refers to a watched variable
    static SEEK: Cell<bool> = const { Cell::new(false) };
    /// such instructions to pass by
    static SKIP: Cell<u64> = const { Cell::new(0) };
    /// traps until the attempt is given up
    static LIMIT: Cell<u64> = const { Cell::new(0) };
    /// breakpoint to set again after this instruction
    static AGAIN: Cell<usize> = const { Cell::new(0) };
}

static BUDGET: AtomicI64 = AtomicI64::new(0);
static TRAPS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

fn base() -> usize {
    std::ptr::addr_of!(__executable_start) as usize
}

#[repr(C)]
struct Action {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}

std::arch::global_asm!(".globl sim_restore", "sim_restore:", "mov rax, 15", "syscall");
extern "C" {
    #[link_name = "sim_restore"]
    fn restore();
}

fn install() {
    static INSTALLED: AtomicBool = AtomicBool::new(false);
    if !INSTALLED.swap(true, Relaxed) {
        let a = Action { handler: on_trap as *const () as usize, flags: 0x4 | 0x0400_0000, restorer: restore as *const () as usize, mask: 0 };
        unsafe {
            sys::raw(sys::SYS_RT_SIGACTION, 5, std::ptr::addr_of!(a) as usize, 0, 8, 0, 0);
        }
    }
}

/// Allows a phase to execute this many instructions one by one.
pub fn begin(budget: i64) {
    BUDGET.store(budget, Relaxed);
    install();
}

pub fn count() {
    bump_by("single_steps", TRAPS.load(Relaxed));
}

/// Chooses where after this point the switch happens; false: at once.
pub fn plan() -> bool {
    if exhausted() || BUDGET.load(Relaxed) <= 0 {
        return false;
    }
    match choose(4) {
        0 => return false,
        1 | 2 => {
            let bits = choose(12);
            aim(1 + choose64(1 << bits), 0, false, 12_000);
        }
        _ => {
            let bits = choose(4);
            let skip = choose(1 << bits) as u64;
            aim(1 + choose(6) as u64, skip, true, 3_000);
        }
    }
    true
}

fn aim(left: u64, skip: u64, seek: bool, limit: u64) {
    LEFT.with(|l| l.set(left));
    SKIP.with(|l| l.set(skip));
    SEEK.with(|l| l.set(seek));
    LIMIT.with(|l| l.set(limit));
}

pub fn go() {
    STEPPING.with(|f| f.set(true));
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}

/// Does the instruction lock the bus?
unsafe fn locks(rip: usize) -> bool {
    let b = std::slice::from_raw_parts(rip as *const u8, 8);
    let mut i = 0;
    while i < 5 && matches!(b[i], 0x66 | 0xF2 | 0xF3 | 0xF0 | 0x64 | 0x65 | 0x2E | 0x3E) {
        if b[i] == 0xF0 {
            return true;
        }
        i += 1;
    }
    if b[i] & 0xF0 == 0x40 {
        i += 1;
    }
    (b[i] == 0x86 || b[i] == 0x87) && b[i + 1] < 0xC0
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    let regs = uc.add(40) as *mut u64;
    let (rip, flags) = (regs.add(16), regs.add(17));
    let again = AGAIN.with(|a| a.replace(0));
    if again != 0 && WATCHING.load(Relaxed) {
        *(again as *mut u8) = 0xCC;
    } else if again == 0 && sites().binary_search_by_key(&(*rip as usize - 1), |s| s.0).is_ok() && *((*rip - 1) as *const u8) == 0xCC {
        return at_site(*rip as usize - 1, rip, flags);
    }
    if !STEPPING.with(|f| f.get()) {
        *flags &= !0x100;
        return;
    }
    // what libc executes, allocating for instance, may depend on threads that are
    // just starting or ending
    let at = *rip as usize;
    if at < base() || at >= std::ptr::addr_of!(etext) as usize {
        return;
    }
    BUDGET.fetch_sub(1, Relaxed);
    TRAPS.fetch_add(1, Relaxed);
    if LIMIT.with(|l| l.replace(l.get() - 1)) <= 1 {
        STEPPING.with(|f| f.set(false));
        *flags &= !0x100;
        return;
    }
    if !IN_SUT.with(|f| f.get()) {
        return;
    }
    if SEEK.with(|s| s.get()) {
        if !locks(at) && !refers(at, regs) {
            return;
        }
        if SKIP.with(|s| s.get()) > 0 {
            SKIP.with(|s| s.set(s.get() - 1));
            return;
        }
        SEEK.with(|s| s.set(false));
    }
    let k = LEFT.with(|l| l.replace(l.get() - 1));
    if k > 1 {
        return;
    }
    STEPPING.with(|f| f.set(false));
    *flags &= !0x100;
    hash_event(0xA7, (at - base()) as u64);
    rt::switch_away("instruction_preemptions");
}

// ------------------------------------------------------------------- watching

/// Address and first byte of the instructions that refer to library statics.
static mut SITES: Vec<(usize, u8)> = Vec::new();
/// Where the static variables of the library are.
static mut VARS: Vec<(usize, usize)> = Vec::new();
static WATCHING: AtomicBool = AtomicBool::new(false);
static HITS: AtomicU64 = AtomicU64::new(0);
const MAX_HITS: u64 = 1000;

fn sites() -> &'static Vec<(usize, u8)> {
    unsafe { &*std::ptr::addr_of!(SITES) }
}

fn watched(at: usize) -> bool {
    unsafe { (*std::ptr::addr_of!(VARS)).iter().any(|(lo, hi)| at >= *lo && at < *hi) }
}

/// Does the instruction refer to a watched variable?
unsafe fn refers(at: usize, regs: *const u64) -> bool {
    if (*std::ptr::addr_of!(VARS)).is_empty() {
        return false;
    }
    let b = std::slice::from_raw_parts(at as *const u8, 15);
    let Some(d) = decode(b) else { return false };
    let Some(m) = d.memory else { return false };
    let reg = |r: u8| *regs.add([13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7][r as usize]) as usize;
    let mut to = m.disp as isize as usize;
    if m.relative {
        to = to.wrapping_add(at + d.len);
    }
    if let Some(r) = m.base {
        to = to.wrapping_add(reg(r));
    }
    if let Some((r, scale)) = m.index {
        to = to.wrapping_add(reg(r) << scale);
    }
    watched(to)
}

unsafe fn at_site(site: usize, rip: *mut u64, flags: *mut u64) {
    let k = sites().binary_search_by_key(&site, |s| s.0).unwrap();
    *rip = site as u64;
    if rt::managed() {
        HITS.fetch_add(1, Relaxed);
        // a switch on the way here would come too late
        if STEPPING.with(|f| f.replace(false)) {
            rt::switch_away("shared_preemptions");
        } else if !exhausted() {
            match choose(4) {
                2 => {
                    hash_event(0xA8, (site - base()) as u64);
                    rt::switch_away("shared_preemptions");
                }
                3 if BUDGET.load(Relaxed) > -4_000 => {
                    // the address may be used only later on
                    let bits = choose(5);
                    let skip = choose(1 << bits) as u64;
                    aim(1 + choose(3) as u64, skip, true, 1_000);
                    STEPPING.with(|f| f.set(true));
                }
                _ => {}
            }
        }
        if HITS.load(Relaxed) >= MAX_HITS {
            show(false);
        }
    }
    // execute the instruction itself, then set the breakpoint again
    *(site as *mut u8) = sites()[k].1;
    AGAIN.with(|a| a.set(site));
    *flags |= 0x100;
}

unsafe fn show(on: bool) {
    WATCHING.store(on, Relaxed);
    for (at, byte) in sites() {
        *(*at as *mut u8) = if on { 0xCC } else { *byte };
    }
}

/// Sets or removes the breakpoints.
pub fn watch(on: bool) {
    if sites().is_empty() || on == WATCHING.load(Relaxed) || (on && HITS.load(Relaxed) >= MAX_HITS) {
        return;
    }
    install();
    unsafe {
        let (lo, hi) = (base() & !4095, (std::ptr::addr_of!(etext) as usize + 4095) & !4095);
        if sys::raw(sys::SYS_MPROTECT, lo, hi - lo, 7, 0, 0, 0) < 0 {
            return;
        }
        show(on);
    }
}

/// Finds the static variables of the library in the program's symbol table and
/// the instructions that refer to them.
pub fn learn() {
    let Ok(f) = std::fs::read("/proc/self/exe") else { return };
    let n = |at: usize, len: usize| f.get(at..at + len).map(|b| b.iter().rev().fold(0usize, |a, x| a << 8 | *x as usize)).unwrap_or(0);
    let (sh, ents) = (n(0x28, 8), n(0x3C, 2));
    let mut vars = vec![];
    let mut code = vec![];
    let mut data = vec![];
    for i in 0..ents {
        let s = sh + i * 64;
        if n(s + 4, 4) == 1 && n(s + 8, 8) & 0x403 == 3 {
            data.push((base() + n(s + 0x10, 8), base() + n(s + 0x10, 8) + n(s + 0x20, 8)));
        }
        if n(s + 4, 4) != 2 {
            continue; // not the symbol table
        }
        let (off, size, link) = (n(s + 0x18, 8), n(s + 0x20, 8), n(s + 0x28, 4));
        let names = n(sh + link * 64 + 0x18, 8);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let (name, info, section) = (n(e, 4), n(e + 4, 1), n(e + 6, 2));
            let (at, len) = (base() + n(e + 8, 8), n(e + 16, 8));
            if section == 0 || section >= ents {
                continue;
            }
            if info & 0xF == 2 {
                code.push((at, len));
            }
            if info & 0xF == 1 && n(sh + section * 64 + 8, 8) & 1 == 1 {
                let text: Vec<u8> = f[names + name..].iter().take_while(|b| **b != 0).copied().collect();
                if String::from_utf8_lossy(&text).contains("7renplex") {
                    vars.push((at, at + len));
                }
            }
        }
    }
    if vars.is_empty() {
        return;
    }
    let total = vars.len();
    unsafe { VARS = vars }
    let mut found = vec![];
    let (lo, hi) = (base(), std::ptr::addr_of!(etext) as usize);
    for (at, len) in code {
        if at < lo || at + len > hi {
            continue;
        }
        let b = unsafe { std::slice::from_raw_parts(at as *const u8, len) };
        let mut i = 0;
        while i < len {
            let Some(d) = decode(&b[i..]) else { break };
            if let Some(m) = d.memory.filter(|m| m.relative) {
                let to = (at as isize + i as isize + d.len as isize + m.disp as isize) as usize;
                // directly, or through a table of addresses
                let through = to % 8 == 0 && data.iter().any(|(lo, hi)| to >= *lo && to + 8 <= *hi);
                if watched(to) || (through && watched(unsafe { *(to as *const usize) })) {
                    found.push((at + i, b[i]));
                }
            }
            i += d.len;
        }
    }
    found.sort();
    found.dedup();
    if crate::DEBUG.load(Relaxed) {
        eprintln!("{} static variables in the library, {} references", total, found.len());
    }
    unsafe { SITES = found }
}

struct Memory {
    base: Option<u8>,
    index: Option<(u8, u8)>,
    disp: i32,
    /// counted from the instruction pointer
    relative: bool,
}

struct Decoded {
    len: usize,
    memory: Option<Memory>,
}

/// Length and memory operand of an instruction.
fn decode(b: &[u8]) -> Option<Decoded> {
    let at = |i: usize| b.get(i).copied();
    let mut i = 0;
    let mut short = false;
    while matches!(at(i)?, 0x66 | 0x67 | 0xF2 | 0xF3 | 0xF0 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65) {
        short |= b[i] == 0x66;
        i += 1;
    }
    let mut wide = false;
    // upper bits of the index and base registers
    let (mut x, mut y) = (0, 0);
    if at(i)? & 0xF0 == 0x40 {
        wide = b[i] & 8 != 0;
        (x, y) = ((b[i] & 2) << 2, (b[i] & 1) << 3);
        i += 1;
    }
    let op = at(i)?;
    i += 1;
    let word = if short { 2 } else { 4 };
    // (has a ModRM byte, bytes of immediate operand)
    let (modrm, imm) = match op {
        0xC5 | 0xC4 | 0x62 => {
            let (map, skip) = match op {
                0xC5 => (1, 1),
                0xC4 => (at(i)? & 0x1F, 2),
                _ => (at(i)? & 7, 3),
            };
            if op != 0xC5 {
                (x, y) = ((!b[i] & 0x40) >> 3, (!b[i] & 0x20) >> 2);
            }
            i += skip;
            let o = at(i)?;
            i += 1;
            match map {
                1 if o == 0x77 => (false, 0),
                1 if matches!(o, 0x70..=0x73 | 0xC2 | 0xC4..=0xC6) => (true, 1),
                3 => (true, 1),
                _ => (true, 0),
            }
        }
        0x0F => {
            let o = at(i)?;
            i += 1;
            match o {
                0x38 => {
                    i += 1;
                    (true, 0)
                }
                0x3A => {
                    i += 1;
                    (true, 1)
                }
                0x05 | 0x06 | 0x08 | 0x09 | 0x0B | 0x30..=0x37 | 0x77 | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF => (false, 0),
                0x80..=0x8F => (false, 4),
                0x70..=0x73 | 0xA4 | 0xAC | 0xBA | 0xC2 | 0xC4..=0xC6 => (true, 1),
                _ => (true, 0),
            }
        }
        0x00..=0x3F => match op & 7 {
            0..=3 => (true, 0),
            4 => (false, 1),
            5 => (false, word),
            _ => return None,
        },
        0x50..=0x5F | 0x90..=0x99 | 0x9B..=0x9F | 0xA4..=0xA7 | 0xAA..=0xAF | 0xC3 | 0xC9 | 0xCC | 0xCF | 0xEC..=0xEF | 0xF1 | 0xF4 | 0xF5 | 0xF8..=0xFD => (false, 0),
        0x63 | 0x84..=0x8F | 0xD0..=0xD3 | 0xD8..=0xDF | 0xFE | 0xFF => (true, 0),
        0x69 | 0x81 | 0xC7 => (true, word),
        0x6B | 0x80 | 0x83 | 0xC0 | 0xC1 | 0xC6 => (true, 1),
        0x68 | 0xA9 => (false, word),
        0xE8 | 0xE9 => (false, 4),
        0x6A | 0x70..=0x7F | 0xA8 | 0xB0..=0xB7 | 0xCD | 0xE0..=0xE7 | 0xEB => (false, 1),
        0xB8..=0xBF => (false, if wide { 8 } else { word }),
        0xA0..=0xA3 => (false, 8),
        0xC2 => (false, 2),
        0xC8 => (false, 3),
        0xF6 | 0xF7 => {
            let test = (at(i)? >> 3) & 7 < 2;
            (true, if !test { 0 } else if op == 0xF6 { 1 } else { word })
        }
        _ => return None,
    };
    let mut memory = None;
    if modrm {
        let m = at(i)?;
        i += 1;
        let (mode, rm) = (m >> 6, m & 7);
        if mode != 3 {
            let mut size = [0, 1, 4][mode as usize];
            let mut mem = Memory { base: Some(rm | y), index: None, disp: 0, relative: false };
            if rm == 4 {
                let sib = at(i)?;
                i += 1;
                let index = (sib >> 3) & 7 | x;
                mem.index = (index != 4).then_some((index, sib >> 6));
                mem.base = Some(sib & 7 | y);
                if mode == 0 && sib & 7 == 5 {
                    mem.base = None;
                    size = 4;
                }
            } else if mode == 0 && rm == 5 {
                mem.base = None;
                mem.relative = true;
                size = 4;
            }
            mem.disp = match size {
                1 => at(i)? as i8 as i32,
                4 => i32::from_le_bytes([at(i)?, at(i + 1)?, at(i + 2)?, at(i + 3)?]),
                _ => 0,
            };
            i += size;
            memory = Some(mem);
        }
    }
    Some(Decoded { len: i + imm, memory })
}
