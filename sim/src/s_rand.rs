//! C11 and C12: random draws, initialisation and synthetic signals.

use crate::choice::{chance, choose, choose64, crew, pick, range, Rng};
use crate::elem::{Elem, S32, S64};
use crate::ensure;
use crate::model::{Act, Sh, C, L};
use crate::net::{act_func, bits_of, extract_layer, io_of, Ptr};
use crate::rt::{self, bump, bump_by, fail, hash_event, trace};
use crate::Prop;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::dataset::Dataset;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::Real;

pub const C11: Prop = Prop {
    id: "C11",
    run: run_c11,
    quick: 150000,
    thorough: 1500000,
    rule: "One to four random streams (seed, list of draws, weights and layers) are consumed by one thread each in a drawn interleaving, before and after which each is consumed alone; values and follow-up seeds are compared bit for bit. Seeds are drawn, tiny, huge, fixed points of the generator, or computed so that a chosen later draw is the smallest or largest possible. A part of the runs draws thousands of values and compares their mean square with the distribution's.",
    real: &["renplex random numbers, initialisation and layer construction (compiled from /repo)", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream", "element type wrapper S32/S64: delegates to Cf32/Cf64, adds preemption points"],
    assume: &["Limits are between 1 and 2^64-1.", "The scale is compared with a margin of 25 % over at least 1500 values, on seeds that are not fixed points of the generator."],
};

pub const C12: Prop = Prop {
    id: "C12",
    run: run_c12,
    quick: 120000,
    thorough: 3000000,
    rule: "One to three generators (seed pair, samples, noise, list of batch sizes) run concurrently under a drawn interleaving in several calls that carry the seeds on, and are compared bit for bit with one call for the whole batch made alone. Seeds include ones for which a chosen draw is zero.",
    real: &["renplex signal generation, dataset and complex arithmetic code (compiled from /repo)", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream (preemption at allocations)"],
    assume: &["Magnitude one is checked to 1e-5."],
};

// ------------------------------------------------------------------------- seeds

const P: u128 = (1 << 31) - 1;
const A: u128 = 1103515245;
const B: u128 = 12345;

/// The seed for which the `k`-th draw leaves the state `x`.
fn seed_before(x: u128, k: usize) -> u128 {
    // inverse of A modulo P
    let inv = {
        let (mut e, mut b, mut r) = (P - 2, A % P, 1u128);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        r
    };
    let mut s = x % P;
    for _ in 0..k {
        s = (s + P - B % P) % P * inv % P;
    }
    s
}

fn fixed_point() -> u128 {
    // s = A s + B
    let (mut e, mut b, mut r) = (P - 2, (A - 1) % P, 1u128);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    (P - B % P) * r % P
}

fn wide_seed() -> u128 {
    match choose(6) {
        0 => u128::MAX - choose(3) as u128,
        1 => 1 << range(31, 127),
        2 => (choose64(u64::MAX) as u128) << 64 | choose64(u64::MAX) as u128,
        _ => (choose64(1 << 47) as u128) << 48 | choose64(1 << 47) as u128,
    }
}

fn gen_seed(extreme: bool) -> u128 {
    match choose(if extreme { 8 } else { 4 }) {
        0 => 1 + choose64(1 << 31) as u128,
        1 => choose(20) as u128,
        2 => wide_seed(),
        3 => P - choose(4) as u128,
        4 => seed_before(0, range(1, 12)),
        5 => seed_before(P - 1 - choose(3) as u128, range(1, 12)),
        // far into the stream
        6 => seed_before(pick(&[0u128, 1, P - 1]), range(13, 200)),
        _ => fixed_point(),
    }
}

// ------------------------------------------------------------------------- C11

#[derive(Clone, Debug)]
enum Draw {
    F32,
    F64,
    Index(u128),
    Real32(usize),
    Real64(usize),
    Weight { elem: usize, method: usize, n: usize },
    Dense { elem: usize, method: usize, i: usize, o: usize },
    Conv { elem: usize, method: usize, ch: usize, f: usize, kh: usize, kw: usize },
}

fn meth(k: usize, n: usize) -> InitMethod {
    match k {
        0 => InitMethod::Uniform(n),
        1 => InitMethod::XavierGlorotU(n),
        2 => InitMethod::XavierGlorotN(n),
        3 => InitMethod::Xavier(n),
        _ => InitMethod::HeInit(n),
    }
}

const METHODS: [&str; 5] = ["Uniform", "XavierGlorotU", "XavierGlorotN", "Xavier", "HeInit"];

/// Mean of the squared magnitude.
fn mean_square(k: usize, n: usize) -> f64 {
    let n = n as f64;
    match k {
        0 => n * n / 3.0,
        3 => 4.0 / n,
        _ => 2.0 / n,
    }
}

/// Largest possible magnitude, if there is one.
fn bound(k: usize, n: usize) -> f64 {
    let n = n as f64;
    match k {
        0 => n,
        1 => (6.0 / n).sqrt(),
        3 => (12.0 / n).sqrt(),
        _ => f64::INFINITY,
    }
}

fn gen_draw() -> Draw {
    let elem = choose(4);
    let method = choose(5);
    match choose(9) {
        0 => Draw::F32,
        1 => Draw::F64,
        2 | 3 => Draw::Index(match choose(6) {
            5 => pick(&[P, P + 1, P + 2, 2 * P, 1 << 40, u64::MAX as u128]),
            0 => range(1, 12) as u128,
            1 => 1,
            2 => P - choose(3) as u128,
            3 => (1 << 30) + choose(3) as u128,
            _ => 1 + choose64(P as u64 - 1) as u128,
        }),
        4 => {
            let s = range(1, 50);
            if choose(2) == 0 {
                Draw::Real32(s)
            } else {
                Draw::Real64(s)
            }
        }
        5 | 6 => Draw::Weight { elem, method, n: if chance(1, 4) { range(1, 5000) } else { range(1, 20) } },
        7 if chance(1, 30) => {
            let (i, o) = pick(&[(300usize, 1usize), (257, 2), (1, 130), (2, 300), (3, 70)]);
            Draw::Dense { elem, method, i, o }
        }
        7 if chance(1, 12) => Draw::Dense { elem, method, i: range(7, 40), o: range(7, 40) },
        7 => Draw::Dense { elem, method, i: range(1, 6), o: range(1, 6) },
        8 if chance(1, 12) => {
            let (ch, f) = pick(&[(1usize, 24usize), (1, 40), (2, 65), (9, 2), (33, 1), (20, 3)]);
            Draw::Conv { elem, method, ch, f, kh: range(1, 2), kw: range(1, 2) }
        }
        _ => Draw::Conv { elem, method, ch: range(1, 3), f: range(1, 3), kh: range(1, 3), kw: range(1, 3) },
    }
}

fn cheap_draw() -> Draw {
    match choose(5) {
        0 => Draw::F32,
        1 => Draw::F64,
        2 => Draw::Index(range(1, 300) as u128),
        3 => Draw::Real64(range(1, 50)),
        _ => Draw::Weight { elem: choose(4), method: choose(5), n: range(1, 20) },
    }
}

fn weight<T: Elem>(m: &InitMethod, seed: &mut u128) -> C {
    let w: T = m.gen(seed);
    let (re, im) = w.parts();
    C { re, im }
}

fn layer<T: Elem>(l: &L, method: usize, n: usize, seed: &mut u128) -> CLayer<T> {
    let r = match l {
        L::Dense { i, o, .. } => {
            DenseCLayer::<T>::init(IOShape::Scalar(*i), *o, act_func(Act::None), meth(method, n), seed).map(|l| l.wrap())
        }
        L::Conv { ch, f, kh, kw, .. } => {
            ConvCLayer::<T>::init(IOShape::Matrix(*ch), *f, [*kh, *kw], act_func(Act::None), meth(method, n), seed).map(|l| l.wrap())
        }
        _ => unreachable!(),
    };
    r.unwrap_or_else(|e| fail("init-refused", format!("initialising {l:?} was refused: {e:?}")))
}

/// What a layer answers to zero (its biases) and to a fixed input, and its weights
/// if they can be read.
fn read_layer<T: Elem>(l: &L, layer: &CLayer<T>) -> (Vec<C>, Vec<u64>, Vec<C>) {
    let sh = match l {
        L::Dense { i, .. } => Sh::S(*i),
        L::Conv { ch, kh, kw, .. } => Sh::M(*ch, *kh, *kw),
        _ => unreachable!(),
    };
    let mut rng = Rng(11);
    let x: Vec<C> = (0..sh.len()).map(|_| C { re: rng.sym(), im: rng.sym() }).collect();
    let zero = vec![C::default(); sh.len()];
    let go = |x: &[C]| layer.foward(&io_of::<T>(sh, x)).unwrap_or_else(|e| fail("layer-failed", format!("{l:?}: {e:?}")));
    let mut bits = bits_of(&go(&x));
    let b = crate::net::flat(&go(&zero));
    let mut w = vec![];
    if T::WRAPPED {
        match extract_layer(layer, l) {
            Ok((p, more)) => {
                bits.extend(more);
                w = p.w;
            }
            Err(e) => fail("layer-failed", format!("{l:?}: {e}")),
        }
    }
    (b, bits, w)
}

fn layer_draw<T: Elem>(l: &L, method: usize, n: usize, seed: &mut u128, out: &mut Vec<u64>) {
    let built = rt::sut(|| layer::<T>(l, method, n, seed)).unwrap_or_else(|e| fail("init-failed", format!("initialising {l:?} failed: {e}")));
    let was = rt::IN_SUT.with(|f| f.replace(false));
    let (b, bits, w) = read_layer(l, &built);
    rt::IN_SUT.with(|f| f.set(was));
    ensure!(b.iter().all(|c| c.re == 0.0 && c.im == 0.0), "bias-not-zero", "{l:?} ({}): initial biases {b:?}", METHODS[method]);
    let bd = bound(method, n) * 1.001;
    for c in w {
        ensure!(c.finite() && c.abs() <= bd, "weight-out-of-range", "{l:?} ({}): weight {c:?}", METHODS[method]);
    }
    out.extend(bits);
}

fn draw(d: &Draw, seed: &mut u128) -> Vec<u64> {
    let mut out = vec![];
    let lost = |e: String| -> ! { fail("draw-failed", format!("{d:?} failed: {e}")) };
    let from = *seed;
    match d {
        Draw::F32 => {
            let v = rt::sut(|| lcgf32(seed)).unwrap_or_else(|e| lost(e));
            ensure!((0.0..=1.0).contains(&v), "draw-out-of-range", "uniform draw {v} from seed {from}");
            out.push(v.to_bits() as u64);
        }
        Draw::F64 => {
            let v = rt::sut(|| lcgf64(seed)).unwrap_or_else(|e| lost(e));
            ensure!((0.0..=1.0).contains(&v), "draw-out-of-range", "uniform draw {v} from seed {from}");
            out.push(v.to_bits());
        }
        Draw::Index(n) => {
            let v = rt::sut(|| lcgi(seed, *n)).unwrap_or_else(|e| lost(e));
            ensure!((v as u128) < *n, "index-out-of-range", "index draw {v} for limit {n} from seed {from}");
            out.push(v as u64);
        }
        Draw::Real32(s) => {
            let v = rt::sut(|| f32::gen(seed, *s)).unwrap_or_else(|e| lost(e));
            ensure!(v.abs() <= *s as f32 * 1.0001, "draw-out-of-range", "draw {v} of scale {s} from seed {from}");
            out.push(v.to_bits() as u64);
        }
        Draw::Real64(s) => {
            let v = rt::sut(|| f64::gen(seed, *s)).unwrap_or_else(|e| lost(e));
            ensure!(v.abs() <= *s as f64 * 1.0001, "draw-out-of-range", "draw {v} of scale {s} from seed {from}");
            out.push(v.to_bits());
        }
        Draw::Weight { elem, method, n } => {
            let m = meth(*method, *n);
            let w = rt::sut(|| match elem {
                0 => weight::<S32>(&m, seed),
                1 => weight::<S64>(&m, seed),
                2 => weight::<Cf32>(&m, seed),
                _ => weight::<Cf64>(&m, seed),
            })
            .unwrap_or_else(|e| lost(e));
            ensure!(
                w.finite() && w.abs() <= bound(*method, *n) * 1.001,
                "weight-out-of-range",
                "{}({n}) weight {w:?} from seed {from}",
                METHODS[*method]
            );
            out.extend([w.re.to_bits(), w.im.to_bits()]);
        }
        Draw::Dense { elem, method, i, o } => {
            let l = L::Dense { i: *i, o: *o, act: Act::None };
            layer_of(*elem, &l, *method, i + o, seed, &mut out);
        }
        Draw::Conv { elem, method, ch, f, kh, kw } => {
            let l = L::Conv { ch: *ch, f: *f, kh: *kh, kw: *kw, act: Act::None };
            layer_of(*elem, &l, *method, ch * kh * kw, seed, &mut out);
        }
    }
    bump("draws");
    out.push(*seed as u64);
    out.push((*seed >> 64) as u64);
    out
}

fn layer_of(elem: usize, l: &L, method: usize, n: usize, seed: &mut u128, out: &mut Vec<u64>) {
    match elem {
        0 => layer_draw::<S32>(l, method, n, seed, out),
        1 => layer_draw::<S64>(l, method, n, seed, out),
        2 => layer_draw::<Cf32>(l, method, n, seed, out),
        _ => layer_draw::<Cf64>(l, method, n, seed, out),
    }
}

fn run_c11() {
    if chance(1, 12) {
        return scale_c11();
    }
    let k = crew(1, 4);
    // streams may share a seed
    let first = gen_seed(true);
    let plan: Vec<(u128, Vec<Draw>)> = (0..k)
        .map(|i| {
            let seed = if i > 0 && chance(1, 3) { first } else { gen_seed(true) };
            let n = match choose(50) {
                0..=4 => range(20, 60),
                // long streams of cheap draws
                5 => return (if i == 0 { first } else { seed }, (0..range(150, 400)).map(|_| cheap_draw()).collect()),
                _ => range(1, 12),
            };
            (if i == 0 { first } else { seed }, (0..n).map(|_| gen_draw()).collect())
        })
        .collect();
    for (t, (s, d)) in plan.iter().enumerate() {
        trace(|| format!("T{t}: seed {s}: {}", d.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>().join(", ")));
    }
    let plan: &'static Vec<(u128, Vec<Draw>)> = Box::leak(Box::new(plan));
    let want = Ptr::new(Vec::<Vec<Vec<u64>>>::new());
    let alone = move |i: usize| {
        let mut s = plan[i].0;
        plan[i].1.iter().map(|d| draw(d, &mut s)).collect::<Vec<_>>()
    };
    rt::solo(move || {
        for i in 0..k {
            want.get().push(alone(i));
        }
    });
    rt::set_preemption(pick(&[2u64, 1, 4, 10]), chance(1, 2));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for i in 0..k {
        tasks.push(Box::new(move || {
            let mut s = plan[i].0;
            for (j, d) in plan[i].1.iter().enumerate() {
                let got = draw(d, &mut s);
                hash_event(0x11, (i as u64) << 32 | got[0] & 0xFFFF_FFFF);
                bump("checks");
                if got != want.get()[i][j] {
                    fail("different-draw", format!("draw {j} ({d:?}) of seed {} gave another value while other streams were drawn", plan[i].0));
                }
                let _ = rt::sut(|| rt::point(rt::Pt::Op));
            }
        }));
    }
    rt::run_tasks(tasks);
    rt::solo(move || {
        for i in (0..k).rev() {
            bump("checks");
            if alone(i) != want.get()[i] {
                fail("different-draw", format!("the stream of seed {} is different the second time", plan[i].0));
            }
        }
    });
}

fn scale_c11() {
    let (elem, method) = (choose(4), choose(5));
    let n = pick(&[1usize, 2, 3, 7, 16, 100, 784, 2000]);
    let seed = gen_seed(false);
    if seed % P == fixed_point() || (A * (seed % P) + B) % P == fixed_point() {
        return;
    }
    let how = choose(3);
    trace(|| format!("scale of {}({n}), element {elem}, seed {seed}, by {}", METHODS[method], ["weights", "dense layer", "convolution layer"][how]));
    rt::solo(move || {
        let mut s = seed;
        let ws: Vec<C> = match how {
            0 => {
                let m = meth(method, n);
                rt::sut(|| {
                    (0..4000)
                        .map(|_| match elem {
                            0 => weight::<S32>(&m, &mut s),
                            1 => weight::<S64>(&m, &mut s),
                            2 => weight::<Cf32>(&m, &mut s),
                            _ => weight::<Cf64>(&m, &mut s),
                        })
                        .collect()
                })
                .unwrap_or_else(|e| fail("draw-failed", e))
            }
            _ => {
                let l = if how == 1 { L::Dense { i: 40, o: 40, act: Act::None } } else { L::Conv { ch: 8, f: 24, kh: 3, kw: 3, act: Act::None } };
                fn of<T: Elem>(l: &L, method: usize, n: usize, s: &mut u128) -> Vec<C> {
                    let built = layer::<T>(l, method, n, s);
                    read_layer(l, &built).2
                }
                if elem % 2 == 0 {
                    of::<S32>(&l, method, n, &mut s)
                } else {
                    of::<S64>(&l, method, n, &mut s)
                }
            }
        };
        let m = ws.iter().map(|c| c.sq()).sum::<f64>() / ws.len() as f64;
        let want = mean_square(method, n);
        hash_event(0x12, m.to_bits());
        ensure!(
            m > 0.75 * want && m < 1.3 * want,
            "wrong-scale",
            "{}({n}) has mean square {m} over {} values, should be {want}",
            METHODS[method],
            ws.len()
        );
        let re = ws.iter().map(|c| c.re * c.re).sum::<f64>() / ws.len() as f64;
        ensure!(re > 0.35 * want && re < 0.7 * want, "wrong-scale", "{}({n}): real parts have mean square {re} of {want}", METHODS[method]);
        bump("checks");
        bump_by("values_for_scale", ws.len() as u64);
    });
}

// ------------------------------------------------------------------------- C12

#[derive(Clone)]
struct Gen {
    samples: usize,
    noise: f32,
    seeds: (u128, u128),
    calls: Vec<usize>,
}

type Data = Vec<(Vec<u64>, Vec<u64>)>;

fn collect(g: &Gen, d: &Dataset<Cf32, Cf32>, n: usize, what: &str, out: &mut Data) {
    ensure!(d.get_n_points() == n, "wrong-count", "{what}: {} points instead of {n}", d.get_n_points());
    let (xs, ys) = d.points_as_iter();
    for (x, y) in xs.zip(ys) {
        let (IOType::Scalar(xs), IOType::Scalar(ys)) = (x, y) else { fail("wrong-shape", format!("{what}: a point is not a pair of vectors")) };
        ensure!(xs.len() == g.samples && ys.len() == g.samples, "wrong-shape", "{what}: {} and {} samples instead of {}", xs.len(), ys.len(), g.samples);
        let fin = |v: &[Cf32]| v.iter().all(|c| c.x.is_finite() && c.y.is_finite());
        ensure!(fin(ys), "not-finite", "{what}: a clean sample is not finite");
        ensure!(fin(xs), "not-finite", "{what}: a noisy sample is not finite (seeds {:?})", g.seeds);
        let top = ys.iter().map(|c| ((c.x as f64).powi(2) + (c.y as f64).powi(2)).sqrt()).fold(0.0, f64::max);
        ensure!((top - 1.0).abs() < 1e-5, "not-normalised", "{what}: largest magnitude {top}");
        if g.noise == 0.0 {
            ensure!(xs.iter().zip(ys).all(|(a, b)| a.x == b.x && a.y == b.y), "noise", "{what}: input differs from target without noise");
        }
        out.push((bits_of(x), bits_of(y)));
        bump("points");
    }
}

fn generate(g: &Gen, calls: &[usize], what: &str) -> (Data, Data, (u128, u128)) {
    let (mut a, mut b) = g.seeds;
    let (mut tr, mut te) = (vec![], vec![]);
    for n in calls {
        let r = rt::sut(|| Dataset::<Cf32, Cf32>::signal_reconstruction(g.samples, *n, g.noise, &mut a, &mut b));
        let (x, y) = r.unwrap_or_else(|e| fail("generation-failed", format!("{what}: {e}")));
        collect(g, &x, *n, &format!("{what}, training"), &mut tr);
        collect(g, &y, *n, &format!("{what}, test"), &mut te);
    }
    (tr, te, (a, b))
}

fn run_c12() {
    let k = crew(1, 3);
    let gens: Vec<Gen> = (0..k)
        .map(|_| {
            let calls: Vec<usize> = (0..range(1, 5)).map(|_| pick(&[1usize, 2, 3, 0, 5])).collect();
            let calls = match choose(72) {
                0..=5 => vec![range(10, 40), range(1, 10)],
                6 => vec![range(60, 160), range(1, 160)],
                7 => vec![1; range(10, 60)],
                _ => calls,
            };
            let a = gen_seed12();
            let b = if chance(1, 8) { a } else { gen_seed12() };
            let many = calls.iter().sum::<usize>() > 60;
            Gen {
                samples: 2 * match choose(48) {
                    0..=5 if !many => range(20, 130),
                    6 if !many => range(131, 600),
                    _ => range(1, 16),
                },
                noise: pick(&[0.0f32, 0.1, 0.01, 1.0, -0.25, 1e-6, 30.0, 0.5]),
                seeds: (a, b),
                calls,
            }
        })
        .collect();
    for (t, g) in gens.iter().enumerate() {
        trace(|| format!("T{t}: {} samples, noise {}, seeds {:?}, calls {:?}", g.samples, g.noise, g.seeds, g.calls));
    }
    let gens: &'static Vec<Gen> = Box::leak(Box::new(gens));
    let want = Ptr::new(vec![]);
    let early = choose(2) == 0;
    let whole = move || {
        for g in gens.iter() {
            let n = g.calls.iter().sum();
            want.get().push(generate(g, &[n], "one call"));
        }
    };
    if early {
        rt::solo(whole);
    }
    let got = Ptr::new((0..k).map(|_| None).collect::<Vec<_>>());
    rt::set_preemption(pick(&[4u64, 1, 2, 15]), true);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for (i, g) in gens.iter().enumerate() {
        tasks.push(Box::new(move || {
            let r = generate(g, &g.calls, "several calls");
            hash_event(0x12, i as u64 ^ r.2 .0 as u64);
            got.get()[i] = Some(r);
        }));
    }
    rt::run_tasks(tasks);
    rt::solo(move || {
        if !early {
            whole();
        }
        for i in 0..k {
            bump("checks");
            let (a, b) = (got.get()[i].take().unwrap(), &want.get()[i]);
            ensure!(a.0 == b.0, "stream-broken", "training points in {} calls differ from those of one call", gens[i].calls.len());
            ensure!(a.1 == b.1, "stream-broken", "test points in {} calls differ from those of one call", gens[i].calls.len());
            ensure!(a.2 == b.2, "stream-broken", "follow-up seeds differ between several calls and one");
        }
    });
}

/// A seed; some make one of the first draws zero.
fn gen_seed12() -> u128 {
    match choose(5) {
        0 => 1 + choose64(1 << 31) as u128,
        1 => seed_before(0, range(1, 60)),
        2 => seed_before(P - 1, range(1, 60)),
        3 => wide_seed(),
        _ => pick(&[0u128, 1, P - 1, P, fixed_point()]),
    }
}
