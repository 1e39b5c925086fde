//! C08: whole pipelines are reproducible.

use crate::choice::{chance, choose, choose64, pick, range};
use crate::elem::{Elem, S32, S64};
use crate::io::{self, Hard};
use crate::model::{Pool, Sh, Spec, C, L};
use crate::net::*;
use crate::orch::scratch;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::s_load::{make_files, Files};
use crate::Prop;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc;
use std::fs::File;
use std::os::fd::AsRawFd;

pub const C08: Prop = Prop {
    id: "C08",
    run: run_c08,
    quick: 8000,
    thorough: 250000,
    rule: "One to three pipelines (initialisation, generated, drawn or loaded data, training, loss and accuracy records, exports) are run alone, then all concurrently under a drawn interleaving with short and interrupted reads and writes, then alone again in reverse order in the same process; all products are compared bit for bit.",
    real: &[
        "renplex random numbers, initialisation, loaders, signal generation, training, evaluation, export (compiled from /repo)",
        "rayon iterators, std::fs on the kernel's file system (scratch directory)",
        "OS threads",
    ],
    stub: &[
        "libc file entry points: forward to the kernel, short, or interrupted",
        "thread scheduling: baton scheduler driven by the choice stream",
        "rayon-core: join/scope replaced by simulated tasks",
        "clock, OS randomness, process number and number of processors: simulated",
    ],
    assume: &["Only benign faults: no read or write is refused."],
};

#[derive(Clone)]
enum Source {
    Signal { samples: usize, noise: f32, seeds: (u128, u128) },
    Images(Files),
    Drawn { seed: u128 },
}

#[derive(Clone)]
struct Pipe {
    elem: usize,
    source: Source,
    plan: Plan,
    batches: Vec<usize>,
    epochs: usize,
    lr: C,
    entropy: bool,
}

type Log = Vec<(&'static str, Vec<u64>)>;

fn dense_chain(i: usize, o: usize) -> Spec {
    let mut s = Spec::new(Sh::S(i));
    let mut n = i;
    for _ in 0..choose(3) {
        let w = range(1, 6);
        s.push(L::Dense { i: n, o: w, act: pick(&crate::model::ACTS) });
        n = w;
    }
    s.push(L::Dense { i: n, o: range(1, 4), act: pick(&crate::model::ACTS) });
    let Sh::S(n) = s.out() else { unreachable!() };
    s.push(L::Dense { i: n, o, act: pick(&crate::model::ACTS) });
    s
}

fn image_net() -> Spec {
    let mut s = Spec::new(Sh::M(1, 28, 28));
    if choose(2) == 1 {
        s.push(L::Conv { ch: 1, f: range(1, 2), kh: range(1, 3), kw: range(1, 3), act: pick(&crate::model::ACTS) });
        if let Sh::M(ch, h, w) = s.out() {
            if h % 2 == 0 && w % 2 == 0 {
                s.push(L::Reduce { ch, bh: 2, bw: 2, pool: Pool::Mean, kh: 3, kw: 3, k: vec![0.125; 9] });
            }
        }
    }
    let Sh::M(ch, h, w) = s.out() else { unreachable!() };
    s.push(L::Flatten { h, w, ch });
    if choose(2) == 1 {
        s.push(L::Dense { i: ch * h * w, o: range(1, 4), act: pick(&crate::model::ACTS) });
    }
    let Sh::S(i) = s.out() else { unreachable!() };
    s.push(L::Dense { i, o: 10, act: pick(&crate::model::ACTS) });
    s
}

fn gen_pipe(k: usize, dir: &str) -> Pipe {
    let _ = dir;
    let mut elem = choose(4);
    let long = chance(1, 6);
    let mut batches: Vec<usize> = (0..range(1, 3)).map(|_| if long { range(3, 24) } else { range(1, 4) }).collect();
    let (source, spec) = match choose(4) {
        0 | 1 => {
            let p = Plan::gen(Opts { trainable: true, vector_out: true, big: false, smooth: false, dense_only: false });
            (Source::Drawn { seed: 1 + choose64(1 << 40) as u128 }, p.spec)
        }
        2 => {
            elem = 2;
            let samples = 2 * range(1, 8);
            let seeds = (1 + choose64(1 << 40) as u128, 1 + choose64(1 << 40) as u128);
            (Source::Signal { samples, noise: pick(&[0.1f32, 0.0, 0.5]), seeds }, dense_chain(samples, samples))
        }
        _ => {
            let n = range(1, 6);
            batches = (0..range(1, 3)).map(|_| range(1, 3)).collect();
            (Source::Images(make_files(&format!("p{k}"), n, n, &[], None)), image_net())
        }
    };
    Pipe {
        elem,
        source,
        plan: Plan { spec, method: choose(5), seed: 1 + choose64(1 << 40) as u128, adj: 0, scale: 0.0 },
        batches,
        epochs: range(1, 2),
        lr: pick(&[C { re: 0.1, im: 0.0 }, C { re: 0.02, im: 0.05 }]),
        entropy: chance(1, 4),
    }
}

fn dataset_bits<T: Elem>(d: &Dataset<T, T>) -> Vec<u64> {
    let mut v = vec![d.get_n_points() as u64];
    for i in 0..d.get_n_points() {
        let (x, y) = d.get_point(i);
        v.extend(bits_of(x));
        v.extend(bits_of(y));
    }
    v
}

fn file_bits(path: &str) -> Vec<u64> {
    match std::fs::read(path) {
        Ok(b) => b.iter().map(|b| *b as u64).collect(),
        Err(_) => vec![u64::MAX],
    }
}

/// Data source of one pipeline run.
struct Feed<T> {
    next: Box<dyn FnMut(usize) -> Result<Dataset<T, T>, String>>,
}

fn images<T: Elem>(f: &Files, tag: &str) -> Feed<T> {
    let mut img = File::open(&f.img).unwrap();
    let mut lab = File::open(&f.lab).unwrap();
    io::register(img.as_raw_fd(), &format!("images {tag}"));
    io::register(lab.as_raw_fd(), &format!("labels {tag}"));
    let mut tracker = 0;
    Feed { next: Box::new(move |n| rt::sut(|| Dataset::<T, T>::minist_as_complex_batch(&mut img, &mut lab, n, &mut tracker))) }
}

fn drawn<T: Elem>(seed: u128, spec: &Spec) -> Feed<T> {
    let mut s = seed;
    let spec = spec.clone();
    Feed {
        next: Box::new(move |n| {
            rt::sut(|| {
                let mut d = Dataset::new();
                for _ in 0..n {
                    let mut take = |sh: Sh| {
                        let v: Vec<C> = (0..sh.len())
                            .map(|_| {
                                let (re, im) = T::gen(&mut s, 1).parts();
                                C { re, im }
                            })
                            .collect();
                        io_of::<T>(sh, &v)
                    };
                    let x = take(spec.input);
                    let y = take(spec.out());
                    d.add_point((x, y));
                }
                d
            })
        }),
    }
}

fn signal(samples: usize, noise: f32, seeds: (u128, u128)) -> Feed<Cf32> {
    let (mut a, mut b) = seeds;
    let mut held_out = false;
    Feed {
        next: Box::new(move |n| {
            rt::sut(|| {
                let (tr, te) = Dataset::<Cf32, Cf32>::signal_reconstruction(samples, n, noise, &mut a, &mut b);
                held_out = !held_out;
                if held_out {
                    tr
                } else {
                    te
                }
            })
        }),
    }
}

fn pipeline<T: Elem>(p: &Pipe, mut feed: Feed<T>, dir: &str, tag: &str) -> Log {
    let mut log: Log = vec![];
    let spec = &p.plan.spec;
    let mut net = match rt::sut(|| p.plan.build::<T>()) {
        Ok(n) => n,
        Err(e) => fail("init-failed", format!("initialisation failed: {e}")),
    };
    let fp = |n: &_| fingerprint(n, spec).unwrap_or_else(|e| fail("unreadable", e));
    log.push(("the initial network", fp(&net)));
    let lf = || if p.entropy { ComplexLossFunc::NormCrossEntropy } else { ComplexLossFunc::MeanSquare };
    let mut last: Option<Dataset<T, T>> = None;
    for _ in 0..p.epochs {
        for n in &p.batches {
            let d = match (feed.next)(*n) {
                Ok(d) => d,
                Err(e) => fail("load-failed", format!("{tag}: getting data failed: {e}")),
            };
            log.push(("a data batch", dataset_bits(&d)));
            if d.get_n_points() == 0 {
                continue;
            }
            let copy = d.clone();
            let r = rt::sut(|| net.gradient_opt(copy, &lf(), T::mk(p.lr.re, p.lr.im)).is_ok());
            log.push(("the outcome of a training step", vec![r.map_or(2, |ok| ok as u64)]));
            log.push(("a trained network", fp(&net)));
            let l = rt::sut(|| net.loss(&d, &lf()).ok().map(T::pbits));
            log.push(("a recorded loss", vec![l.ok().flatten().unwrap_or(u64::MAX)]));
            let a = rt::sut(|| T::pbits(net.max_pred_test(&d)));
            log.push(("a recorded accuracy", vec![a.unwrap_or(u64::MAX)]));
            last = Some(d);
        }
    }
    if let Some(d) = last {
        // results go to files
        let mut rows: Vec<T> = vec![];
        let mut width = 0;
        for i in 0..d.get_n_points() {
            let x = d.get_point(i).0.clone();
            if let Ok(Ok(IOType::Scalar(o))) = rt::sut(|| net.forward(&x)) {
                width = o.len();
                rows.extend(o);
            }
        }
        if width > 0 {
            let m = Matrix::from_body(rows.clone(), [rows.len() / width, width]);
            let path = format!("{dir}{tag}-pred.csv");
            let r = rt::sut(|| m.to_csv(path.clone()).is_ok());
            if r != Ok(true) {
                fail("export-failed", format!("{tag}: exporting predictions failed: {r:?}"));
            }
            log.push(("an exported matrix", file_bits(&path)));
        }
        if matches!(d.get_point(0), (IOType::Scalar(_), IOType::Scalar(_))) {
            let path = format!("{dir}{tag}-data.csv");
            let r = rt::sut(|| d.to_csv(path.clone()).is_ok());
            if r != Ok(true) {
                fail("export-failed", format!("{tag}: exporting data failed: {r:?}"));
            }
            log.push(("an exported data batch", file_bits(&path)));
        }
    }
    log
}

fn run_pipe(p: &Pipe, dir: &str, tag: &str) -> Log {
    fn go<T: Elem>(p: &Pipe, dir: &str, tag: &str) -> Log {
        let feed = match &p.source {
            Source::Images(f) => images::<T>(f, tag),
            Source::Drawn { seed } => drawn::<T>(*seed, &p.plan.spec),
            Source::Signal { .. } => unreachable!(),
        };
        pipeline(p, feed, dir, tag)
    }
    match (&p.source, p.elem) {
        (Source::Signal { samples, noise, seeds }, _) => pipeline::<Cf32>(p, signal(*samples, *noise, *seeds), dir, tag),
        (_, 0) => go::<S32>(p, dir, tag),
        (_, 1) => go::<S64>(p, dir, tag),
        (_, 2) => go::<Cf32>(p, dir, tag),
        _ => go::<Cf64>(p, dir, tag),
    }
}

fn compare(i: usize, want: &Log, got: &Log, when: &str) {
    bump("checks");
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            fail("not-reproducible", format!("pipeline {i} {when}: {} (product {k}) differs from the first run", g.0));
        }
    }
    if want.len() != got.len() {
        fail("not-reproducible", format!("pipeline {i} {when}: {} products instead of {}", got.len(), want.len()));
    }
    rt::bump_by("products_compared", got.len() as u64);
}

/// Every phase may see another machine and another process.
fn machine() {
    rt::set_threads(pick(&[4usize, 1, 2, 3, 8, 16]));
    io::PID.store(1 + choose(30_000) as u32, std::sync::atomic::Ordering::Relaxed);
}

fn run_c08() {
    machine();
    let dir: &'static str = Box::leak(scratch().into_boxed_str());
    io::io().root = dir.to_string();
    let k = pick(&[2usize, 1, 3]);
    let mut pipes: Vec<Pipe> = vec![];
    for i in 0..k {
        // sometimes the same pipeline twice
        let p = if i > 0 && chance(1, 4) { pipes[0].clone() } else { gen_pipe(i, dir) };
        trace(|| {
            let s = match &p.source {
                Source::Signal { samples, .. } => format!("signals of {samples}"),
                Source::Images(_) => "images".to_string(),
                Source::Drawn { .. } => "drawn data".to_string(),
            };
            format!("T{i}: {s}, element {}, {}, batches {:?} x {}", p.elem, p.plan.describe(), p.batches, p.epochs)
        });
        pipes.push(p);
    }
    let pipes: &'static Vec<Pipe> = Box::leak(Box::new(pipes));
    let want = Ptr::new(Vec::<Log>::new());
    io::plan(0, Hard::None);
    rt::solo(move || {
        for (i, p) in pipes.iter().enumerate() {
            want.get().push(run_pipe(p, dir, &format!("first{i}")));
        }
    });
    machine();
    io::plan(pick(&[3u64, 1, 10, 0]), Hard::None);
    if chance(1, 25) {
        io::slow_device();
    }
    if chance(1, 2) {
        rt::set_preemption(pick(&[40u64, 5, 400]), chance(1, 2));
    } else {
        rt::set_preemption(pick(&[4u64, 1, 20]), true);
    }
    let got = Ptr::new((0..k).map(|_| None).collect::<Vec<Option<Log>>>());
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for (i, p) in pipes.iter().enumerate() {
        tasks.push(Box::new(move || {
            got.get()[i] = Some(run_pipe(p, dir, &format!("with{i}")));
            hash_event(0x08, i as u64);
        }));
    }
    rt::run_tasks(tasks);
    for i in 0..k {
        let g = got.get()[i].take().unwrap();
        compare(i, &want.get()[i], &g, "beside others");
    }
    machine();
    rt::solo(move || {
        for i in (0..k).rev() {
            let g = run_pipe(&pipes[i], dir, &format!("again{i}"));
            compare(i, &want.get()[i], &g, "again");
        }
    });
}
