//! Stand-in for `rayon-core` inside the simulator.
//!
//! The work-stealing pool is replaced by decisions of the simulator: the two
//! halves of a `join` run one after the other in either order, or concurrently
//! as two simulated tasks. Threads are started through `std::thread`, which the
//! simulator intercepts. The `rayon` crate itself (splitting, iterators,
//! collectors) is the real one.

use std::any::Any;
use std::cell::Cell;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

extern "Rust" {
    fn __sim_choose(n: usize) -> usize;
    fn __sim_threads() -> usize;
}

fn choose(n: usize) -> usize {
    unsafe { __sim_choose(n) }
}

thread_local! {
    static POOL: Cell<usize> = const { Cell::new(0) };
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
}
static LIVE: AtomicUsize = AtomicUsize::new(0);
const MAX_LIVE: usize = 12;

fn with_worker<R>(pool: usize, index: Option<usize>, f: impl FnOnce() -> R) -> R {
    struct Reset(usize, Option<usize>);
    impl Drop for Reset {
        fn drop(&mut self) {
            POOL.with(|p| p.set(self.0));
            INDEX.with(|p| p.set(self.1));
        }
    }
    let _r = Reset(POOL.with(|p| p.replace(pool)), INDEX.with(|p| p.replace(index)));
    f()
}

fn enter<R>(f: impl FnOnce() -> R) -> R {
    let n = current_num_threads();
    let idx = INDEX.with(|i| i.get()).unwrap_or(0);
    with_worker(n, Some(idx), f)
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}

pub fn current_num_threads() -> usize {
    let p = POOL.with(|p| p.get());
    if p > 0 {
        p
    } else {
        unsafe { __sim_threads() }
    }
}

pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|i| i.get())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    std::thread::yield_now();
    current_thread_index().map(|_| Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    enter(|| {
        let mut mode = choose(3);
        if mode == 2 && LIVE.load(Ordering::SeqCst) >= MAX_LIVE {
            mode = 1;
        }
        let (ra, rb) = match mode {
            0 => {
                let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
                // a panic in the first half still waits for a half that was
                // stolen, but a half nobody took is dropped
                let ra = match ra {
                    Ok(v) => Ok(v),
                    Err(e) => resume_unwind(e),
                };
                (ra, catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(false)))))
            }
            1 => {
                let rb = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(true))));
                (catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false)))), rb)
            }
            _ => {
                let pool = current_num_threads();
                let idx = choose(pool.max(1));
                LIVE.fetch_add(1, Ordering::SeqCst);
                let r = std::thread::scope(|s| {
                    let h = s.spawn(move || with_worker(pool, Some(idx), || oper_b(FnContext::new(true))));
                    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
                    (ra, h.join())
                });
                LIVE.fetch_sub(1, Ordering::SeqCst);
                r
            }
        };
        match (ra, rb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) => resume_unwind(e),
            (_, Err(e)) => resume_unwind(e),
        }
    })
}

type Job = Box<dyn FnOnce() + Send + 'static>;

struct ScopeBase {
    queue: Mutex<Vec<Job>>,
    threads: Mutex<Vec<std::thread::JoinHandle<()>>>,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}

impl ScopeBase {
    fn new() -> Self {
        ScopeBase { queue: Mutex::new(vec![]), threads: Mutex::new(vec![]), panic: Mutex::new(None) }
    }
    fn record(&self, r: std::thread::Result<()>) {
        if let Err(e) = r {
            let mut p = self.panic.lock().unwrap();
            if p.is_none() {
                *p = Some(e);
            }
        }
    }
    fn push(&self, job: Job) {
        if choose(2) == 1 && LIVE.load(Ordering::SeqCst) < MAX_LIVE {
            LIVE.fetch_add(1, Ordering::SeqCst);
            let pool = current_num_threads();
            let idx = choose(pool.max(1));
            let h = std::thread::spawn(move || {
                with_worker(pool, Some(idx), job);
                LIVE.fetch_sub(1, Ordering::SeqCst);
            });
            self.threads.lock().unwrap().push(h);
        } else {
            self.queue.lock().unwrap().push(job);
        }
    }
    fn complete(&self) {
        loop {
            let job = {
                let mut q = self.queue.lock().unwrap();
                let n = q.len();
                if n > 0 {
                    let k = choose(n);
                    Some(q.remove(k))
                } else {
                    None
                }
            };
            if let Some(j) = job {
                j();
                continue;
            }
            let h = self.threads.lock().unwrap().pop();
            match h {
                Some(h) => {
                    let _ = h.join();
                }
                None => break,
            }
        }
    }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident, $spawn_b:ident, $scope_fn:ident, $in_place:ident) => {
        pub struct $name<'scope> {
            base: ScopeBase,
            #[allow(clippy::type_complexity)]
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }

        impl<'scope> $name<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                struct P<T>(*const T);
                unsafe impl<T> Send for P<T> {}
                impl<T> P<T> {
                    fn get(&self) -> *const T {
                        self.0
                    }
                }
                let me = P(self as *const Self);
                let job: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
                    let s = unsafe { &*me.get() };
                    let r = catch_unwind(AssertUnwindSafe(|| body(s)));
                    s.base.record(r);
                });
                // the scope waits for all jobs before it returns
                let job: Job = unsafe { std::mem::transmute(job) };
                self.base.push(job);
            }

            pub fn $spawn_b<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let body = std::sync::Arc::new(body);
                for i in 0..current_num_threads() {
                    let body = body.clone();
                    self.$spawn(move |s| {
                        with_worker(current_num_threads(), Some(i), || body(s, BroadcastContext::new(i)))
                    });
                }
            }
        }

        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }

        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let s = $name { base: ScopeBase::new(), marker: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.base.complete();
            let p = s.base.panic.lock().unwrap().take();
            match (r, p) {
                (Ok(v), None) => v,
                (Err(e), _) | (_, Some(e)) => resume_unwind(e),
            }
        }

        pub fn $scope_fn<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            enter(|| $in_place(op))
        }
    };
}

scope_type!(Scope, spawn, spawn_broadcast, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, spawn_broadcast, scope_fifo, in_place_scope_fifo);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    let pool = current_num_threads();
    if choose(2) == 1 {
        let idx = choose(pool.max(1));
        std::thread::spawn(move || with_worker(pool, Some(idx), func));
    } else {
        let _ = catch_unwind(AssertUnwindSafe(|| with_worker(pool, Some(0), func)));
    }
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

pub struct BroadcastContext<'a> {
    index: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}

impl<'a> BroadcastContext<'a> {
    fn new(index: usize) -> Self {
        BroadcastContext { index, _m: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}

impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| with_worker(n, Some(i), || op(BroadcastContext::new(i)))).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let n = current_num_threads();
    for i in 0..n {
        with_worker(n, Some(i), || op(BroadcastContext::new(i)));
    }
}

pub struct ThreadPool {
    n: usize,
}

impl ThreadPool {
    #[deprecated(note = "Use `ThreadPoolBuilder::build`")]
    pub fn new(_c: ()) -> Result<ThreadPool, Box<dyn std::error::Error>> {
        Ok(ThreadPool { n: 2 })
    }
    fn run<R>(&self, op: impl FnOnce() -> R) -> R {
        with_worker(self.n, Some(0), op)
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        self.run(op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        self.run(|| broadcast(op))
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_index().map(|_| false)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.run(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.run(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.run(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        self.run(|| in_place_scope(op))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        self.run(|| in_place_scope_fifo(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.run(|| spawn(op))
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.run(|| spawn(op))
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        self.run(|| spawn_broadcast(op))
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.n).finish()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());

impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool could not be built")
    }
}

impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}

impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug, Default)]
pub struct DefaultSpawn;
#[derive(Debug)]
pub struct CustomSpawn<F>(#[allow(dead_code)] F);

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    #[allow(dead_code)]
    s: S,
}

impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, s: DefaultSpawn }
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(with_pool(&self.build()?))
    }
}

impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n > 0 { self.n } else { unsafe { __sim_threads() } };
        Ok(ThreadPool { n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        ThreadPoolBuilder { n: self.n, s: CustomSpawn(spawn) }
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _s: usize) -> Self {
        self
    }
    #[deprecated]
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}

impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").field("num_threads", &self.n).finish()
    }
}
