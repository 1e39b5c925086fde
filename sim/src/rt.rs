//! Run-time of one simulated execution: baton scheduler, statistics, trace and
//! the reporting of outcomes.
//!
//! Only the holder of the baton (one task, or the driver when no tasks are
//! active) touches the global state below, so plain statics are enough; the
//! hand-over through `Sem` orders the accesses.

use crate::choice::{self, choose};
use crate::step;
use crate::sys;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

pub const NONE: usize = usize::MAX;

thread_local! {
    /// The thread is executing library code (or harness code called from it).
    pub static IN_SUT: Cell<bool> = const { Cell::new(false) };
    pub static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The thread uses a lock of the scheduler itself, or is past its end.
    static IN_RT: Cell<bool> = const { Cell::new(false) };
}

pub struct Sem {
    m: Mutex<bool>,
    c: Condvar,
}

impl Sem {
    fn new() -> &'static Sem {
        Box::leak(Box::new(Sem { m: Mutex::new(false), c: Condvar::new() }))
    }
    fn post(&self) {
        let was = IN_RT.with(|f| f.replace(true));
        *self.m.lock().unwrap() = true;
        self.c.notify_one();
        IN_RT.with(|f| f.set(was));
    }
    fn wait(&self) {
        let was = IN_RT.with(|f| f.replace(true));
        let mut g = self.m.lock().unwrap();
        while !*g {
            g = self.c.wait(g).unwrap();
        }
        *g = false;
        drop(g);
        IN_RT.with(|f| f.set(was));
    }
}

#[derive(Clone, Copy)]
enum Wait {
    No,
    Futex { addr: usize, val: u32, woken: bool, timed: bool },
    Join(usize),
}

struct Task {
    sem: &'static Sem,
    done: bool,
    dead: bool,
    wait: Wait,
    timed_out: bool,
}

struct Sched {
    tasks: Vec<Task>,
    driver: Option<&'static Sem>,
    mean: u64,
}

static mut SCHED: Sched = Sched { tasks: Vec::new(), driver: None, mean: 0 };
static ACTIVE: AtomicBool = AtomicBool::new(false);
static COUNTDOWN: AtomicI64 = AtomicI64::new(i64::MAX);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_CAP: AtomicU64 = AtomicU64::new(u64::MAX);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
static EXEC_HASH: AtomicU64 = AtomicU64::new(0x1234567);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
static THREADS: AtomicU64 = AtomicU64::new(4);

fn sched() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(SCHED) }
}

static EVENTS: AtomicU64 = AtomicU64::new(0);

/// Adds an event to the identity of the execution.
pub fn hash_event(a: u64, b: u64) {
    EVENTS.store(EVENTS.load(Relaxed) + 1, Relaxed);
    let h = EXEC_HASH.load(Relaxed);
    EXEC_HASH.store(choice::mix(h ^ choice::mix(a).wrapping_add(b)), Relaxed);
}

pub fn exec_hash() -> u64 {
    EXEC_HASH.load(Relaxed)
}

pub fn step_cap(n: u64) {
    STEP_CAP.store(n, Relaxed);
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

// ------------------------------------------------------------------ counters

static mut NOTES: BTreeMap<&'static str, u64> = BTreeMap::new();

pub fn bump(name: &'static str) {
    bump_by(name, 1)
}

pub fn bump_by(name: &'static str, n: u64) {
    let was = IN_SUT.with(|f| f.replace(false));
    unsafe {
        *(*std::ptr::addr_of_mut!(NOTES)).entry(name).or_insert(0) += n;
    }
    IN_SUT.with(|f| f.set(was));
}

pub fn count_of(name: &'static str) -> u64 {
    unsafe { (*std::ptr::addr_of!(NOTES)).get(name).copied().unwrap_or(0) }
}

// --------------------------------------------------------------------- trace

pub static TRACING: AtomicBool = AtomicBool::new(false);
static mut TRACE: Vec<String> = Vec::new();
static mut TRACE_DROPPED: u64 = 0;
const TRACE_MAX: usize = 600;

pub fn trace(f: impl FnOnce() -> String) {
    if !TRACING.load(Relaxed) {
        return;
    }
    let was = IN_SUT.with(|f| f.replace(false));
    unsafe {
        let t = &mut *std::ptr::addr_of_mut!(TRACE);
        if t.len() < TRACE_MAX {
            t.push(f());
        } else {
            TRACE_DROPPED += 1;
        }
    }
    IN_SUT.with(|f| f.set(was));
}

pub fn tname() -> String {
    let t = TASK.with(|t| t.get());
    if t == NONE {
        "driver".into()
    } else {
        format!("T{t}")
    }
}

// ------------------------------------------------------------------- outcome

pub const RESULT_LEN: usize = 1 << 20;
static mut RESULT: *mut u8 = std::ptr::null_mut();

pub fn set_result_buf(p: *mut u8) {
    unsafe { RESULT = p }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub hash: u64,
    pub notes: BTreeMap<String, u64>,
    pub trace: Vec<String>,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn write_result(v: Option<(&str, &str)>) {
    let mut s = String::new();
    bump_by("steps", steps());
    step::count();
    bump_by("events", EVENTS.load(Relaxed));
    bump_by("switches", SWITCHES.load(Relaxed));
    if let Some((c, m)) = v {
        let mut m = m.to_string();
        if m.len() > 4000 {
            m = m.chars().take(4000).collect();
        }
        s.push_str(&format!("V {}\t{}\n", c, esc(&m)));
    }
    s.push_str(&format!("H {}\n", exec_hash()));
    unsafe {
        for (k, n) in (*std::ptr::addr_of!(NOTES)).iter() {
            s.push_str(&format!("C {k} {n}\n"));
        }
        for t in (*std::ptr::addr_of!(TRACE)).iter() {
            if s.len() + t.len() + 64 > RESULT_LEN - 64 {
                break;
            }
            s.push_str(&format!("T {}\n", esc(t)));
        }
        if TRACE_DROPPED > 0 {
            s.push_str(&format!("T ... {} more events\n", TRACE_DROPPED));
        }
    }
    s.push_str("E\n");
    let b = s.as_bytes();
    unsafe {
        let len = b.len().min(RESULT_LEN - 8);
        std::ptr::copy_nonoverlapping(b.as_ptr(), RESULT.add(8), len);
        *(RESULT as *mut u64) = len as u64;
    }
}

pub fn read_result(p: *const u8) -> Option<Outcome> {
    let s = unsafe {
        let len = *(p as *const u64) as usize;
        if len == 0 {
            return None;
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(p.add(8), len)).into_owned()
    };
    let mut o = Outcome::default();
    let mut complete = false;
    for line in s.lines() {
        let (k, rest) = line.split_at(line.len().min(2));
        match k.trim() {
            "V" => {
                let mut it = rest.splitn(2, '\t');
                let c = it.next().unwrap_or("").to_string();
                o.violation = Some((c, unesc(it.next().unwrap_or(""))));
            }
            "H" => o.hash = rest.trim().parse().unwrap_or(0),
            "C" => {
                let mut it = rest.rsplitn(2, ' ');
                let n = it.next().unwrap_or("0").parse().unwrap_or(0);
                o.notes.insert(it.next().unwrap_or("").to_string(), n);
            }
            "T" => o.trace.push(unesc(rest)),
            "E" => complete = true,
            _ => {}
        }
    }
    if complete {
        Some(o)
    } else {
        None
    }
}

/// Reports a violation and ends the run, from wherever it is called.
pub fn fail(class: &str, msg: impl AsRef<str>) -> ! {
    IN_SUT.with(|f| f.set(false));
    write_result(Some((class, msg.as_ref())));
    sys::exit_now(0);
}

pub fn finish() -> ! {
    IN_SUT.with(|f| f.set(false));
    write_result(None);
    sys::exit_now(0);
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::rt::fail($class, format!($($arg)*)) }
    };
}

// ----------------------------------------------------------------- scheduler

/// Preemption intensity of the run: mean number of points between switches.
pub fn set_preemption(mean: u64, alloc_points: bool) {
    sched().mean = mean;
    ALLOC_POINTS.store(alloc_points, Relaxed);
}

pub fn set_threads(n: usize) {
    THREADS.store(n as u64, Relaxed);
}

pub fn threads() -> usize {
    THREADS.load(Relaxed) as usize
}

fn draw_gap() {
    let mean = sched().mean;
    let g = if mean == 0 || choice::exhausted() {
        i64::MAX
    } else {
        match choice::choose64(2 * mean + 1) {
            0 => (50 * mean) as i64,
            v => v as i64,
        }
    };
    COUNTDOWN.store(g, Relaxed);
}

fn runnable(t: &Task) -> bool {
    if t.done {
        return false;
    }
    match t.wait {
        Wait::No => true,
        Wait::Futex { addr, val, woken, .. } => {
            woken || unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val
        }
        Wait::Join(k) => sched().tasks[k].done,
    }
}

/// Gives the baton to another task if one can run; from a signal handler.
pub fn switch_away(why: &'static str) {
    IN_SUT.with(|f| f.set(false));
    let e = sys::errno();
    let c = candidates(TASK.with(|t| t.get()));
    if !c.is_empty() {
        let k = c[choose(c.len())];
        bump(why);
        switch_to(k);
    }
    sys::set_errno(e);
    IN_SUT.with(|f| f.set(true));
}

fn candidates(except: usize) -> Vec<usize> {
    let s = sched();
    (0..s.tasks.len()).filter(|&i| i != except && runnable(&s.tasks[i])).collect()
}

fn switch_to(next: usize) {
    let me = TASK.with(|t| t.get());
    SWITCHES.fetch_add(1, Relaxed);
    hash_event(0x51 + ((me as u64) << 32) + next as u64, steps());
    trace(|| format!("step {}: switch T{} -> T{}", steps(), me, next));
    let s = sched();
    let (mine, other) = (s.tasks[me].sem, s.tasks[next].sem);
    other.post();
    mine.wait();
    acquired();
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pt {
    Op,
    Alloc,
    Io,
}

/// A possible preemption point inside library code.
#[inline]
pub fn point(kind: Pt) {
    if !IN_SUT.with(|f| f.get()) {
        return;
    }
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s >= STEP_CAP.load(Relaxed) {
        step_cap(u64::MAX);
        fail("no-progress", format!("{} did not finish within the step budget of {} steps", tname(), s));
    }
    if !ACTIVE.load(Relaxed) || TASK.with(|t| t.get()) == NONE {
        return;
    }
    if kind == Pt::Alloc && !ALLOC_POINTS.load(Relaxed) {
        return;
    }
    if STEPPING.with(|f| f.get()) {
        return preempt();
    }
    let c = COUNTDOWN.load(Relaxed) - 1;
    COUNTDOWN.store(c, Relaxed);
    if c > 0 {
        return;
    }
    preempt();
}

#[cold]
#[inline(never)]
fn preempt() {
    IN_SUT.with(|f| f.set(false));
    let late = STEPPING.with(|f| f.replace(false));
    if !late {
        draw_gap();
    }
    let me = TASK.with(|t| t.get());
    let c = candidates(me);
    if !c.is_empty() {
        if !late && FINE.load(Relaxed) && step::plan() {
            IN_SUT.with(|f| f.set(true));
            step::go();
            return;
        }
        let k = c[choose(c.len())];
        bump("preemptions");
        switch_to(k);
    }
    IN_SUT.with(|f| f.set(true));
}

pub static FINE: AtomicBool = AtomicBool::new(false);
static FINE_ODDS: AtomicU64 = AtomicU64::new(8);

static FINE_BUDGET: AtomicI64 = AtomicI64::new(8_000);

/// One phase out of `odds` may switch threads between any two instructions, as
/// long as it executes at most `budget` instructions one by one.
pub fn set_fine(odds: u64, budget: i64) {
    FINE_ODDS.store(odds, Relaxed);
    FINE_BUDGET.store(budget, Relaxed);
}

thread_local! {
    /// The thread executes instruction by instruction towards its next switch.
    pub static STEPPING: Cell<bool> = const { Cell::new(false) };
}

/// A lock may be held by a thread that is just ending outside the simulation
/// (destructors of thread-local values); gives it real time to let go.
fn settle() -> bool {
    for _ in 0..200 {
        unsafe {
            let ts = [0i64, 1_000_000];
            sys::raw(sys::SYS_NANOSLEEP, ts.as_ptr() as usize, 0, 0, 0, 0, 0);
        }
        if !candidates(NONE).is_empty() {
            bump("unmanaged_wakes");
            return true;
        }
    }
    false
}

/// After a simulated crash the memory of the dead process is still around: a
/// lock it held stays locked, which a restarted process would not see.
static RESTARTED: AtomicBool = AtomicBool::new(false);

pub fn restarted() {
    RESTARTED.store(true, SeqCst);
}

fn deadlock() -> ! {
    if RESTARTED.load(SeqCst) {
        bump("skipped_stale_lock");
        finish();
    }
    fail("deadlock", "all threads wait for each other");
}

/// Gives the baton away if anybody else can run.
pub fn yield_now() {
    unstep();
    let was = IN_SUT.with(|f| f.replace(false));
    let me = TASK.with(|t| t.get());
    if me != NONE && ACTIVE.load(Relaxed) {
        let c = candidates(me);
        if !c.is_empty() {
            let k = c[choose(c.len())];
            switch_to(k);
        }
    }
    IN_SUT.with(|f| f.set(was));
}

/// Blocks the current task until its wait condition is over.
fn block(w: Wait) -> bool {
    unstep();
    let me = TASK.with(|t| t.get());
    sched().tasks[me].wait = w;
    sched().tasks[me].timed_out = false;
    loop {
        let c = candidates(NONE);
        if c.is_empty() {
            // nothing can run: a timed wait expires, otherwise it is a deadlock
            let s = sched();
            let timed: Vec<usize> = (0..s.tasks.len())
                .filter(|&i| !s.tasks[i].done && matches!(s.tasks[i].wait, Wait::Futex { timed: true, .. }))
                .collect();
            if timed.is_empty() {
                if settle() {
                    continue;
                }
                deadlock();
            }
            let k = timed[choose(timed.len())];
            s.tasks[k].timed_out = true;
            if let Wait::Futex { woken, .. } = &mut s.tasks[k].wait {
                *woken = true;
            }
            continue;
        }
        if c.contains(&me) {
            break;
        }
        let k = c[choose(c.len())];
        switch_to(k);
        if runnable(&sched().tasks[me]) {
            break;
        }
    }
    let t = &mut sched().tasks[me];
    t.wait = Wait::No;
    t.timed_out
}

/// Waiting, here, is up to the scheduler. This includes library code the harness
/// calls without preemption: a preempted thread may hold a lock it needs.
pub fn managed() -> bool {
    ACTIVE.load(Relaxed) && TASK.with(|t| t.get()) != NONE && !IN_RT.with(|f| f.get())
}

/// futex(WAIT) from library code.
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> isize {
    let was = IN_SUT.with(|f| f.replace(false));
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    let r = if cur != val {
        -(sys::EAGAIN as isize)
    } else {
        bump("lock_waits");
        if block(Wait::Futex { addr, val, woken: false, timed }) {
            -(sys::ETIMEDOUT as isize)
        } else {
            0
        }
    };
    IN_SUT.with(|f| f.set(was));
    r
}

pub fn futex_wake(addr: usize, n: usize) -> isize {
    let was = IN_SUT.with(|f| f.replace(false));
    let mut k = 0;
    for t in sched().tasks.iter_mut() {
        if k >= n {
            break;
        }
        if let Wait::Futex { addr: a, woken, .. } = &mut t.wait {
            if *a == addr && !*woken {
                *woken = true;
                k += 1;
            }
        }
    }
    IN_SUT.with(|f| f.set(was));
    k as isize
}

/// Registers a thread that the library is about to start.
pub fn new_task() -> usize {
    let s = sched();
    s.tasks.push(Task { sem: Sem::new(), done: false, dead: false, wait: Wait::No, timed_out: false });
    s.tasks.len() - 1
}

pub fn forget_task(id: usize) {
    sched().tasks[id].done = true;
}

pub fn sem_of(id: usize) -> &'static Sem {
    sched().tasks[id].sem
}

/// Called on a new thread, which must not touch the shared state before it gets
/// the baton; its semaphore is handed in.
pub fn task_begin(id: usize, sem: &'static Sem) {
    TASK.with(|t| t.set(id));
    sem.wait();
    acquired();
}

/// Ends stepping, before code that runs with signals blocked or depends on real time.
pub fn unstep() {
    STEPPING.with(|f| f.set(false));
}

static EXITING: AtomicU32 = AtomicU32::new(0);

/// The current thread ends: whoever gets the baton next waits until it
/// is gone, because its tear-down takes locks inside std.
pub fn exiting() {
    unstep();
    let tid = unsafe { sys::raw(sys::SYS_GETTID, 0, 0, 0, 0, 0, 0) };
    EXITING.store(tid as u32, SeqCst);
}

fn acquired() {
    let tid = EXITING.swap(0, SeqCst);
    if tid == 0 {
        return;
    }
    for i in 0..2000 {
        unsafe {
            let pid = sys::raw(sys::SYS_GETPID, 0, 0, 0, 0, 0, 0);
            if sys::raw(sys::SYS_TGKILL, pid as usize, tid as usize, 0, 0, 0, 0) < 0 {
                return;
            }
            if i < 100 {
                sys::raw(sys::SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
            } else {
                let ts = [0i64, 50_000];
                sys::raw(sys::SYS_NANOSLEEP, ts.as_ptr() as usize, 0, 0, 0, 0, 0);
            }
        }
    }
}

pub fn task_end() {
    IN_SUT.with(|f| f.set(false));
    IN_RT.with(|f| f.set(true));
    let me = TASK.with(|t| t.get());
    let s = sched();
    s.tasks[me].done = true;
    pass_on();
}

fn pass_on() {
    loop {
        let s = sched();
        if s.tasks.iter().all(|t| t.done) {
            s.driver.unwrap().post();
            return;
        }
        let c = candidates(NONE);
        if c.is_empty() {
            let timed: Vec<usize> = (0..s.tasks.len())
                .filter(|&i| !s.tasks[i].done && matches!(s.tasks[i].wait, Wait::Futex { timed: true, .. }))
                .collect();
            if timed.is_empty() {
                if settle() {
                    continue;
                }
                deadlock();
            }
            let k = timed[choose(timed.len())];
            s.tasks[k].timed_out = true;
            if let Wait::Futex { woken, .. } = &mut s.tasks[k].wait {
                *woken = true;
            }
            continue;
        }
        let k = c[choose(c.len())];
        hash_event(0x77 + k as u64, steps());
        trace(|| format!("step {}: {} done, continue with T{}", steps(), tname(), k));
        s.tasks[k].sem.post();
        return;
    }
}

pub fn join_task(id: usize) {
    let was = IN_SUT.with(|f| f.replace(false));
    if !sched().tasks[id].done {
        block(Wait::Join(id));
    }
    IN_SUT.with(|f| f.set(was));
}

/// All tasks die on the spot (crash of their process): they never run again and
/// their stacks are never unwound. Tasks that had ended before are not affected.
pub fn die() -> ! {
    unstep();
    IN_SUT.with(|f| f.set(false));
    for t in sched().tasks.iter_mut() {
        if !t.done {
            t.done = true;
            t.dead = true;
        }
    }
    pass_on();
    loop {
        Sem::new().wait();
    }
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn take(self) -> T {
        self.0
    }
}

/// Runs one task alone, never preempted (threads it starts run when it waits).
pub fn solo(f: impl FnOnce() + 'static) {
    let (mean, alloc) = (sched().mean, ALLOC_POINTS.load(Relaxed));
    set_preemption(0, false);
    run_tasks(vec![Box::new(f)]);
    set_preemption(mean, alloc);
}

/// Runs the tasks under the scheduler until all have ended.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce()>>) {
    let s = sched();
    s.tasks.clear();
    let driver = Sem::new();
    s.driver = Some(driver);
    let n = tasks.len();
    for _ in 0..n {
        new_task();
    }
    ACTIVE.store(true, SeqCst);
    draw_gap();
    let on = s.mean > 0 && !choice::exhausted();
    let fine = on && choice::chance(1, FINE_ODDS.load(Relaxed) as usize);
    FINE.store(fine, Relaxed);
    if fine {
        step::begin(FINE_BUDGET.load(Relaxed));
    }
    step::watch(on);
    // Thread start-up and tear-down take locks inside std. They must not overlap
    // with simulated execution: wait for every thread to be ready before the
    // first one runs, and for every thread to be gone before returning.
    let ready = Sem::new();
    let mut handles = vec![];
    for (i, t) in tasks.into_iter().enumerate() {
        let t = Force(t);
        let sem = sem_of(i);
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                let t = t.take();
                ready.post();
                task_begin(i, sem);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                IN_SUT.with(|f| f.set(false));
                if r.is_err() {
                    fail("harness-panic", format!("task T{i}: {}", last_panic()));
                }
                exiting();
                task_end();
            })
            .expect("spawn");
        handles.push(h);
        ready.wait();
    }
    pass_on();
    driver.wait();
    acquired();
    ACTIVE.store(false, SeqCst);
    for (i, h) in handles.into_iter().enumerate() {
        if !sched().tasks[i].dead {
            let _ = h.join();
        }
    }
}

// --------------------------------------------------------- calling the library

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let was = IN_SUT.with(|f| f.replace(false));
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic: {m} at {loc}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        IN_SUT.with(|f| f.set(was));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// Runs library code; a panic in it is returned as `Err(message)`.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_SUT.with(|f| f.replace(true));
    point(Pt::Op);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|f| f.set(was));
    r.map_err(|_| last_panic())
}

/// Harness code called from library code (callbacks).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_SUT.with(|f| f.replace(false));
    let r = f();
    IN_SUT.with(|f| f.set(was));
    r
}

// ------------------------------------------------------------ rayon-core seam

#[no_mangle]
fn __sim_choose(n: usize) -> usize {
    if !managed() || !IN_SUT.with(|f| f.get()) || sched().mean == 0 {
        return 0;
    }
    let was = IN_SUT.with(|f| f.replace(false));
    let v = choose(n);
    hash_event(0x99, v as u64);
    bump("parallel_splits");
    IN_SUT.with(|f| f.set(was));
    v
}

#[no_mangle]
fn __sim_threads() -> usize {
    THREADS.load(Relaxed) as usize
}
