//! C05, C06, C07, C09, C13: networks under concurrency, histories and faults.

use crate::choice::{chance, choose, crew, pick, range, Rng};
use crate::elem::{arm, fault_hit, fault_points, Elem, S32, S64};
use crate::ensure;
use crate::model::{self, Loss, Sh, Spec, C, L, P, V};
use crate::net::*;
use crate::rt::{self, bump, bump_by, fail, hash_event, trace};
use crate::Prop;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc;
use std::sync::RwLock;

const REAL: &[&str] = &[
    "renplex network, layers, matrix, activation, loss and complex arithmetic code (compiled from /repo)",
    "rayon iterators, std locks",
    "OS threads",
];
const STUB: &[&str] = &[
    "thread scheduling: baton scheduler driven by the choice stream",
    "rayon-core: join/scope replaced by simulated tasks",
    "element type wrapper S32/S64: delegates to Cf32/Cf64, adds preemption and fault points",
];

pub const C05: Prop = Prop {
    id: "C05",
    run: run_c05,
    quick: 60000,
    thorough: 900000,
    rule: "Two networks of equal structure and a pool of evaluation calls (some malformed, some with an injected fault) are drawn; two to four threads issue calls on them under a drawn interleaving with preemption at every element operation or allocation. Every answer is compared bit for bit with that of a freshly built copy asked only once; state readings before and after.",
    real: REAL,
    stub: STUB,
    assume: &["Pooling functions given by the caller are pure."],
};

pub const C06: Prop = Prop {
    id: "C06",
    run: run_c06,
    quick: 50000,
    thorough: 1000000,
    rule: "One to three networks (drawn structure, parameters, batches, real or complex learning rates) are trained for one to forty steps each, interleaved at element operations. After each step every parameter is read back and compared with the reference gradient.",
    real: REAL,
    stub: STUB,
    assume: &["Interpolation kernels of pooling layers are real and of odd size.", "Steps with a unit closer to a non-differentiable point than its rounding bound are not judged."],
};

pub const C07: Prop = Prop {
    id: "C07",
    run: run_c07,
    quick: 50000,
    thorough: 900000,
    rule: "Histories of two to thirty calls on a network, of which drawn ones fail: malformed point at a drawn position of the batch, injected failure at a drawn activation, derivative, loss or pooling evaluation, empty batch, unfitting layer. State bits are compared around each failing call and at the end with a twin that never saw the failing calls.",
    real: REAL,
    stub: STUB,
    assume: &["A failure is an error result or a panic that the caller catches."],
};

pub const C09: Prop = Prop {
    id: "C09",
    run: run_c09,
    quick: 80000,
    thorough: 700000,
    rule: "A network behind a reader-writer lock is grown, trained, asked and made to fail by two to four threads in a drawn interleaving; under each read guard the parameters are read and one query is compared with the reference model.",
    real: REAL,
    stub: STUB,
    assume: &["Queries with a unit closer to a branch of its activation, or an argmax closer to a tie, than the rounding bound are not judged."],
};

pub const C13: Prop = Prop {
    id: "C13",
    run: run_c13,
    quick: 120000,
    thorough: 800000,
    rule: "Histories of three to forty, sometimes up to 150, layer additions (fitting, unfitting, without units, first layer twice, further layer on an empty network) mixed with training, evaluation and failing calls; after each the structure is compared with the list of accepted layers, and each layer with a copy that was never added.",
    real: REAL,
    stub: STUB,
    assume: &["Shapes are compared as the library reports them: number of features, or number of maps."],
};

fn threads_setup() {
    rt::set_threads(pick(&[4usize, 1, 2, 3, 8]));
}

fn preemption<T: Elem>() {
    if T::WRAPPED {
        rt::set_preemption(pick(&[30u64, 3, 8, 100, 500]), chance(1, 3));
    } else {
        rt::set_preemption(pick(&[4u64, 1, 2, 15]), true);
    }
}

// ------------------------------------------------------------------------- C05

enum Call<T> {
    Forward(IOType<T>),
    Intercept(IOType<T>, usize),
    Acts(IOType<T>),
    Loss(Dataset<T, T>, ComplexLossFunc),
    Acc(Dataset<T, T>),
    Layer(IOType<T>, IOType<T>, usize),
}

struct Query<T> {
    call: Call<T>,
    inject: u64,
    net: usize,
    /// a copy is passed, at an address other values have had before
    moved: bool,
    what: String,
}

/// Answer of a query as comparable bits: kind, then content.
fn answer<T: Elem>(net: &CNetwork<T>, q: &Query<T>) -> Vec<u64> {
    let mut out = vec![];
    arm(q.inject);
    let r: Result<Result<(), String>, String> = match &q.call {
        Call::Forward(x) => {
            let copy;
            let x = if q.moved {
                copy = x.clone();
                &copy
            } else {
                x
            };
            rt::sut(|| net.forward(x)).map(|r| r.map(|o| out = bits_of(&o)).map_err(|e| format!("{e:?}")))
        }
        Call::Intercept(x, i) => {
            let x = x.clone();
            rt::sut(|| net.intercept(x, *i)).map(|r| {
                r.map(|(a, l)| {
                    out = bits_of(&a);
                    out.push(shape_bits(&l.get_input_shape()));
                    out.push(shape_bits(&l.get_output_shape()));
                })
                .map_err(|e| format!("{e:?}"))
            })
        }
        Call::Acts(x) => {
            let x = x.clone();
            rt::sut(|| net.collect_acts(x)).map(|r| {
                r.map(|v| v.iter().for_each(|a| out.extend(bits_of(a)))).map_err(|e| format!("{e:?}"))
            })
        }
        Call::Loss(d, l) => {
            let copy;
            let d = if q.moved {
                copy = d.clone();
                &copy
            } else {
                d
            };
            rt::sut(|| net.loss(d, l)).map(|r| r.map(|v| out.push(T::pbits(v))).map_err(|e| format!("{e:?}")))
        }
        Call::Acc(d) => {
            let copy;
            let d = if q.moved {
                copy = d.clone();
                &copy
            } else {
                d
            };
            rt::sut(|| net.max_pred_test(d)).map(|v| {
                out.push(T::pbits(v));
                Ok(())
            })
        }
        Call::Layer(zero, x, i) => {
            let zero = zero.clone();
            rt::sut(|| net.intercept(zero, *i).map(|(_, l)| l.foward(x))).map(|r| match r {
                Ok(Ok(o)) => {
                    out = bits_of(&o);
                    Ok(())
                }
                Ok(Err(e)) => Err(format!("{e:?}")),
                Err(e) => Err(format!("{e:?}")),
            })
        }
    };
    arm(0);
    match r {
        Ok(Ok(())) => out.push(0),
        Ok(Err(_)) => out = vec![1],
        Err(_) => out = vec![2],
    }
    out
}

/// An input that does not fit.
fn bad_input<T: Elem>(rng: &mut Rng, sh: Sh) -> IOType<T> {
    match (sh, rng.below(3)) {
        (Sh::S(n), 0) => io_of(Sh::S(n + 1), &vec![C { re: 1.0, im: 0.5 }; n + 1]),
        (Sh::S(n), 1) => io_of(Sh::S(n - 1), &vec![C { re: 1.0, im: 0.5 }; n - 1]),
        (Sh::S(n), _) => io_of(Sh::M(1, 1, n), &vec![C { re: 1.0, im: 0.5 }; n]),
        (Sh::M(m, h, w), 0) => io_of(Sh::M(m + 1, h, w), &vec![C { re: 1.0, im: 0.5 }; (m + 1) * h * w]),
        (Sh::M(m, h, w), _) => io_of(Sh::S(m * h * w), &vec![C { re: 1.0, im: 0.5 }; m * h * w]),
    }
}

fn run_c05() {
    match choose(4) {
        0 => c05::<S32>(),
        1 => c05::<S64>(),
        2 => c05::<Cf32>(),
        _ => c05::<Cf64>(),
    }
}

fn gen_query<T: Elem>(rng: &mut Rng, spec: &Spec, nets: usize, seen: &mut Vec<Vec<C>>) -> Query<T> {
    let x = if !seen.is_empty() && chance(1, 3) {
        let k = choose(seen.len());
        if chance(1, 4) {
            seen[k].clone()
        } else {
            vary::<T>(rng, &seen[k])
        }
    } else {
        gen_values::<T>(rng, spec.input.len())
    };
    seen.push(x.clone());
    let vector = matches!(spec.out(), Sh::S(_));
    let kind = choose(7);
    let bad = kind != 6 && chance(1, 8);
    let inp = if bad { bad_input(rng, spec.input) } else { io_of(spec.input, &x) };
    let n = if chance(1, 20) { range(30, 70) } else { range(1, 4) };
    let mk = |rng: &mut Rng| {
        let mut d = dataset(spec, &gen_batch::<T>(rng, spec, n));
        if bad {
            d.add_point((bad_input(rng, spec.input), io_of(spec.out(), &vec![C::default(); spec.out().len()])));
        }
        d
    };
    let (call, what) = match kind {
        0 => (Call::Forward(inp), "predict".to_string()),
        1 => {
            let i = choose(spec.layers.len());
            (Call::Intercept(inp, i), format!("intercept at {i}"))
        }
        2 => (Call::Acts(inp), "activations".to_string()),
        3 => (Call::Loss(mk(rng), ComplexLossFunc::MeanSquare), format!("squared loss of {n}")),
        4 => (Call::Loss(mk(rng), ComplexLossFunc::NormCrossEntropy), format!("entropy loss of {n}")),
        5 if vector => (Call::Acc(mk(rng)), format!("accuracy of {n}")),
        5 => (Call::Intercept(inp, spec.layers.len()), "intercept past the end".to_string()),
        _ => {
            let i = choose(spec.layers.len());
            let v = gen_values::<T>(rng, spec.before(i).len());
            let zero = io_of(spec.input, &vec![C { re: 0.5, im: 0.0 }; spec.input.len()]);
            (Call::Layer(zero, io_of(spec.before(i), &v), i), format!("layer {i} alone"))
        }
    };
    let inject = if T::WRAPPED && chance(1, 10) { range(1, 6) as u64 } else { 0 };
    let net = choose(nets);
    let what = format!("{what} on net {net}{}{}", if bad { " (malformed)" } else { "" }, if inject > 0 { " (fault)" } else { "" });
    Query { call, inject, net, moved: chance(1, 2), what }
}

fn train_once<T: Elem>(net: &mut CNetwork<T>, spec: &Spec, pts: &[Point], lr: C) {
    let d = dataset(spec, pts);
    let _ = rt::sut(|| net.gradient_opt(d, &ComplexLossFunc::MeanSquare, T::mk(lr.re, lr.im)));
}

fn c05<T: Elem>() {
    threads_setup();
    let nets = range(1, 2);
    let plan = Plan::gen(Opts { trainable: false, vector_out: choose(2) == 0, big: true, smooth: false, dense_only: false });
    let plans: Vec<Plan> = (0..nets).map(|i| Plan { seed: plan.seed + i as u128 * 977, adj: plan.adj + i as u64 * 31, ..plan.clone() }).collect();
    let spec: &'static Spec = Box::leak(Box::new(plan.spec.clone()));
    let mut rng = Rng::drawn();
    let prelude: Vec<Vec<Point>> = if spec.layers.len() > 1 && chance(1, 3) {
        (0..range(1, 2)).map(|_| gen_batch::<T>(&mut rng, spec, 2)).collect()
    } else {
        vec![]
    };
    let fresh = move |i: usize| {
        let mut n = plans[i].build::<T>();
        for p in &prelude {
            train_once(&mut n, spec, p, C { re: 0.125, im: 0.0 });
        }
        n
    };
    let cost: usize = spec.layers.iter().enumerate().map(|(i, l)| layer_cost(l, spec.before(i))).sum();
    let mut seen = vec![];
    let queries: &'static Vec<Query<T>> =
        Box::leak(Box::new((0..if cost < 60 && chance(1, 25) { range(7, 60) } else { range(1, 6) }).map(|_| gen_query::<T>(&mut rng, spec, nets, &mut seen)).collect()));
    let long = cost < 60 && chance(1, 60);
    trace(|| format!("{} {} and {} calls", T::NAME, plan.describe(), queries.len()));
    let want = Ptr::new(Vec::<Vec<u64>>::new());
    let shared = Ptr::new(Vec::<CNetwork<T>>::new());
    let fp = Ptr::new(Vec::<Vec<u64>>::new());
    let fpo = |n: &CNetwork<T>| fingerprint(n, spec).unwrap_or_else(|e| fail("unreadable", format!("reading the parameters failed: {e}")));
    rt::solo(move || {
        for q in queries.iter() {
            let n = fresh(q.net);
            want.get().push(answer(&n, q));
        }
        for i in 0..nets {
            fp.get().push(fpo(&fresh(i)));
            shared.get().push(fresh(i));
        }
    });
    let k = if cost < 2000 { crew(2, 4) } else { range(2, 4) };
    preemption::<T>();
    let judge = move |i: usize, got: Vec<u64>, when: &str| {
        let q = &queries[i];
        bump("checks");
        hash_event(0x05, i as u64);
        bump(if got.last() == Some(&0) { "answers" } else { "refusals" });
        if q.inject > 0 {
            return;
        }
        if got != want.get()[i] {
            fail("different-answer", format!("{when}: {} gave another answer than alone on a fresh copy", q.what));
        }
    };
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let calls = if long {
            range(50, 200)
        } else if chance(1, 15) {
            range(5, 40)
        } else {
            range(1, 4)
        };
        let list: Vec<usize> = (0..calls).map(|_| choose(queries.len())).collect();
        trace(|| format!("T{t}: {}", list.iter().map(|i| queries[*i].what.clone()).collect::<Vec<_>>().join("; ")));
        tasks.push(Box::new(move || {
            for i in list {
                let got = answer(&shared.get()[queries[i].net], &queries[i]);
                judge(i, got, "concurrently");
            }
        }));
    }
    rt::run_tasks(tasks);
    rt::solo(move || {
        for i in 0..nets {
            bump("checks");
            let f = fpo(&shared.get()[i]);
            ensure!(f == fp.get()[i], "network-changed", "evaluations changed network {i}");
        }
        for i in (0..queries.len()).rev() {
            let got = answer(&shared.get()[queries[i].net], &queries[i]);
            judge(i, got, "afterwards");
        }
        for i in 0..nets {
            let f = fpo(&shared.get()[i]);
            ensure!(f == fp.get()[i], "network-changed", "evaluations changed network {i}");
        }
    });
}

// ------------------------------------------------------------------------- C06

fn run_c06() {
    match choose(2) {
        0 => c06::<S64>(),
        _ => c06::<S32>(),
    }
}

fn gen_lr<T: Elem>() -> C {
    let v = match choose(10) {
        7 => C { re: 0.001, im: 0.0 },
        8 => C { re: 0.00001, im: 0.00002 },
        9 => C { re: 4.0, im: -3.0 },
        0 => C { re: 0.5, im: 0.0 },
        1 => C { re: 0.1, im: 0.0 },
        2 => C { re: 0.05, im: 0.2 },
        3 => C { re: 0.0, im: -0.25 },
        4 => C { re: -0.3, im: 0.1 },
        5 => C { re: 1.0, im: 0.0 },
        _ => C::default(),
    };
    let (re, im) = T::mk(v.re, v.im).parts();
    C { re, im }
}

fn gen_batch_size(big: bool, tiny: bool) -> usize {
    match choose(if big { 20 } else { 12 }) {
        0..=3 => 1,
        4..=15 => range(2, 8),
        16 | 17 => range(9, 20),
        18 => pick(&[31usize, 32, 33, 64, 65]),
        _ if tiny && chance(1, 6) => pick(&[513usize, 600, 1025]),
        _ => pick(&[100usize, 129, 150, 257]),
    }
}

fn bits_hash(b: &[u64]) -> u64 {
    b.iter().fold(7, |h, x| (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23))
}

fn read_params<T: Elem>(n: &CNetwork<T>, spec: &Spec) -> (Vec<P>, Vec<u64>) {
    extract(n, spec).unwrap_or_else(|e| fail("unreadable", format!("reading the parameters failed: {e}")))
}

fn largest(p: &[P]) -> f64 {
    p.iter().flat_map(|p| p.w.iter().chain(&p.b)).map(|c| if c.finite() { c.abs() } else { f64::INFINITY }).fold(0.0, f64::max)
}

fn c06<T: Elem>() {
    threads_setup();
    let k = pick(&[1usize, 1, 2, 3]);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let plan = Plan::gen(Opts { trainable: true, vector_out: false, big: k == 1, smooth: false, dense_only: false });
        let cost: usize = plan.spec.layers.iter().enumerate().map(|(i, l)| layer_cost(l, plan.spec.before(i))).sum();
        let mut steps = vec![];
        let mut rng = Rng::drawn();
        let long = cost < 80 && chance(1, 12);
        let most = if cost < 40 && chance(1, 8) { 140 } else { 40 };
        for _ in 0..if long { range(4, most) } else { range(1, 3) } {
            let n = if long { range(1, 2) } else { gen_batch_size(cost < 500, cost < 30) };
            steps.push((gen_batch::<T>(&mut rng, &plan.spec, n), gen_lr::<T>()));
        }
        trace(|| {
            let s: Vec<String> = steps.iter().map(|(b, lr)| format!("{} points at rate {}{:+}i", b.len(), lr.re, lr.im)).collect();
            format!("T{t}: {} {}; train {}", T::NAME, plan.describe(), s.join(", "))
        });
        tasks.push(Box::new(move || {
            let mut net = plan.build::<T>();
            let (mut before, _) = read_params(&net, &plan.spec);
            for (si, (batch, lr)) in steps.iter().enumerate() {
                let d = dataset(&plan.spec, batch);
                let r = rt::sut(|| net.gradient_opt(d, &ComplexLossFunc::MeanSquare, T::mk(lr.re, lr.im)));
                hash_event(0x06, (t * 16 + si) as u64);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => fail("step-refused", format!("training step {si} of {} was refused: {e:?}", plan.spec.describe())),
                    Err(e) => {
                        // a zero modulus cannot be normalised
                        if model::gradient(&plan.spec, &before, batch, T::EPS).is_none() {
                            bump("skipped_singular");
                            return;
                        }
                        fail("step-failed", format!("training step {si} of {} panicked: {e}", plan.spec.describe()))
                    }
                }
                let (after, bits) = read_params(&net, &plan.spec);
                hash_event(0x60, bits_hash(&bits));
                judge_step::<T>(&plan.spec, &before, &after, batch, *lr, si);
                if largest(&after) > 50.0 {
                    bump("stopped_large");
                    return;
                }
                before = after;
            }
        }));
    }
    preemption::<T>();
    rt::run_tasks(tasks);
}

fn layer_cost(l: &L, sh: Sh) -> usize {
    match (l, sh) {
        (L::Dense { i, o, .. }, _) => i * o,
        (L::Conv { ch, f, kh, kw, .. }, Sh::M(_, h, w)) => ch * f * kh * kw * (h + 1 - kh) * (w + 1 - kw),
        (_, s) => s.len(),
    }
}

fn judge_step<T: Elem>(spec: &Spec, before: &[P], after: &[P], batch: &[Point], lr: C, si: usize) {
    let Some(g) = model::gradient(spec, before, batch, T::EPS) else {
        bump("skipped_singular");
        return;
    };
    let n = batch.len() as f64;
    let mut weak = 0;
    let mut strong = 0;
    for (li, (gl, (b, a))) in g.iter().zip(before.iter().zip(after)).enumerate() {
        let bmax = b.b.iter().chain(&a.b).map(|c| c.abs()).fold(0.0, f64::max);
        for (kind, gs, bs, as_) in [("weight", &gl.0, &b.w, &a.w), ("bias", &gl.1, &b.b, &a.b)] {
            for (k, ((gv, b), a)) in gs.iter().zip(bs).zip(as_).enumerate() {
                let d = (lr * gv.v).scale(1.0 / n);
                let want = *b - d.conj();
                let tol = 8.0 * lr.abs() / n * gv.e + T::EPS * (32.0 * (b.abs() + a.abs() + d.abs()) + 4.0 * bmax) + 1e-300;
                let diff = (*a - want).abs();
                if !tol.is_finite() {
                    continue;
                }
                if tol < 0.2 * d.abs() {
                    strong += 1;
                } else {
                    weak += 1;
                }
                if !(diff <= tol) {
                    fail(
                        "wrong-step",
                        format!(
                            "step {si} of {} ({}, {} points, rate {}{:+}i): {kind} {k} of layer {li} moved from {b:?} to {a:?}, should be {want:?} (off by {diff:e}, allowed {tol:e})",
                            spec.describe(), T::NAME, batch.len(), lr.re, lr.im
                        ),
                    );
                }
            }
        }
    }
    bump("checks");
    bump_by("parameters_compared", strong + weak);
    bump_by("of_these_sharp", strong);
}

// ------------------------------------------------------------------------- C07

fn run_c07() {
    match choose(6) {
        0 | 1 => c07::<S64>(),
        2 | 3 => c07::<S32>(),
        4 => c07::<Cf32>(),
        _ => c07::<Cf64>(),
    }
}

enum Op7 {
    Train { pts: Vec<Point>, lr: C, bad: Option<(usize, u64)>, inject: bool, loss: usize },
    Eval { pts: Vec<Point>, kind: usize, bad: bool, inject: bool },
    Add { kind: usize, layer: L },
}

/// Data batch with a point that cannot be processed at position `at`.
fn bad_dataset<T: Elem>(spec: &Spec, pts: &[Point], at: usize, how: u64) -> Dataset<T, T> {
    let mut d = Dataset::new();
    let mut rng = Rng(how);
    for (i, (x, y)) in pts.iter().enumerate() {
        let mut x: IOType<T> = io_of(spec.input, x);
        let mut y: IOType<T> = io_of(spec.out(), y);
        if i == at {
            match how % 4 {
                0 | 1 => x = bad_input(&mut rng, spec.input),
                2 => y = bad_input(&mut rng, spec.out()),
                _ => {
                    y = match spec.out() {
                        Sh::S(n) => io_of(Sh::M(1, 1, n), &vec![C::default(); n]),
                        s => io_of(Sh::S(s.len()), &vec![C::default(); s.len()]),
                    }
                }
            }
        }
        d.add_point((x, y));
    }
    d
}

fn gen_op7<T: Elem>(rng: &mut Rng, spec: &Spec, big: bool) -> Op7 {
    let inject = T::WRAPPED && chance(1, 3);
    match choose(6) {
        0..=3 => {
            let n = if big && chance(1, 12) { range(30, 70) } else { range(1, 6) };
            let n = if chance(1, 25) { 0 } else { n };
            let bad = if n > 0 && !inject && chance(1, 2) {
                // often the last point
                let at = if chance(1, 3) { n - 1 } else { choose(n) };
                Some((at, rng.next()))
            } else {
                None
            };
            let mut pts = gen_batch::<T>(rng, spec, n);
            if n > 0 && chance(1, 12) {
                let k = choose(n);
                pts[k].0.iter_mut().for_each(|c| *c = C::default());
            }
            Op7::Train { pts, lr: gen_lr::<T>(), bad, inject, loss: choose(2) }
        }
        4 => {
            let n = range(1, 3);
            Op7::Eval { pts: gen_batch::<T>(rng, spec, n), kind: choose(7), bad: chance(1, 2), inject }
        }
        _ => {
            let kind = choose(7);
            let layer = match (kind, spec.out()) {
                (0, Sh::S(n)) => L::Dense { i: n + 1, o: 2, act: model::Act::Tanh },
                (0, Sh::M(m, ..)) => L::Conv { ch: m + 1, f: 1, kh: 1, kw: 1, act: model::Act::Tanh },
                (1, Sh::S(n)) => L::Dense { i: n, o: 0, act: model::Act::Tanh },
                (1, Sh::M(m, ..)) => L::Dense { i: m, o: 2, act: model::Act::Tanh },
                (2, Sh::S(n)) => L::Flatten { h: 1, w: n, ch: 1 },
                (2, Sh::M(m, ..)) => L::Flatten { h: 2, w: 2, ch: m + 1 },
                // layers without units, as further and as first ones
                (4, Sh::M(m, ..)) => L::Conv { ch: m, f: 0, kh: 1, kw: 1, act: model::Act::Tanh },
                (4, Sh::S(n)) => L::Dense { i: n + 1, o: 0, act: model::Act::Tanh },
                (5, _) => L::Dense { i: spec.input.len(), o: 0, act: model::Act::Tanh },
                (6, _) => L::Conv { ch: 1, f: 0, kh: 1, kw: 1, act: model::Act::Tanh },
                // a second first layer
                _ => L::Dense { i: spec.input.len(), o: 2, act: model::Act::Tanh },
            };
            Op7::Add { kind, layer }
        }
    }
}

/// Applies the call. Gives the outcome, whether the fault struck and how many
/// places there were for one.
fn apply7<T: Elem>(net: &mut CNetwork<T>, spec: &Spec, op: &Op7, inject_at: u64) -> (Result<(), String>, bool, u64) {
    let loss = |k: usize| if k == 0 { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy };
    let r = match op {
        Op7::Train { pts, lr, bad, loss: l, .. } => {
            let d = match bad {
                None => dataset(spec, pts),
                Some((at, how)) => bad_dataset(spec, pts, *at, *how),
            };
            let l = loss(*l);
            arm(inject_at);
            rt::sut(|| net.gradient_opt(d, &l, T::mk(lr.re, lr.im))).map(|r| r.map_err(|e| format!("{e:?}")))
        }
        Op7::Eval { pts, kind, bad, .. } => {
            let d: Dataset<T, T> = if *bad { bad_dataset(spec, pts, pts.len() - 1, *kind as u64) } else { dataset(spec, pts) };
            let x = d.get_point(pts.len() - 1).0.clone();
            arm(inject_at);
            match kind {
                0 => rt::sut(|| net.forward(&x)).map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))),
                1 => rt::sut(|| net.collect_acts(x)).map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))),
                2 => rt::sut(|| net.intercept(x, spec.layers.len() - 1).map(|_| ()))
                    .map(|r| r.map_err(|e| format!("{e:?}"))),
                3 => rt::sut(|| net.loss(&d, &ComplexLossFunc::MeanSquare)).map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))),
                5 => rt::sut(|| net.loss(&d, &ComplexLossFunc::NormCrossEntropy)).map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))),
                6 => rt::sut(|| net.intercept(x, spec.layers.len()).map(|_| ())).map(|r| r.map_err(|e| format!("{e:?}"))),
                _ => rt::sut(|| net.max_pred_test(&d)).map(|_| Ok(())),
            }
        }
        Op7::Add { kind, layer } => {
            let mut seed = 99u128;
            let l: CLayer<T> = make_layer(layer, 0, &mut seed, &mut Rng(5), 0.0);
            rt::sut(|| if matches!(*kind, 3 | 5 | 6) { net.add_input(l) } else { net.add(l) }).map(|r| r.map_err(|e| format!("{e:?}")))
        }
    };
    let (hit, n) = (fault_hit(), fault_points());
    arm(0);
    (r.and_then(|r| r), hit, n)
}

fn c07<T: Elem>() {
    threads_setup();
    let k = pick(&[1usize, 1, 2]);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let plan = Plan::gen(Opts { trainable: !chance(1, 12), vector_out: choose(2) == 0, big: true, smooth: choose(3) == 0, dense_only: false });
        let cost: usize = plan.spec.layers.iter().enumerate().map(|(i, l)| layer_cost(l, plan.spec.before(i))).sum();
        let mut rng = Rng::drawn();
        let calls = if cost < 80 && chance(1, 15) { range(7, 60) } else { range(2, 6) };
        let ops: Vec<Op7> = (0..calls).map(|_| gen_op7::<T>(&mut rng, &plan.spec, cost < 400)).collect();
        let places: Vec<usize> = ops.iter().map(|_| choose(1 << 20)).collect();
        trace(|| format!("T{t}: {} {}, {} calls", T::NAME, plan.describe(), ops.len()));
        tasks.push(Box::new(move || history7::<T>(t, &plan, &ops, &places)));
    }
    preemption::<T>();
    rt::run_tasks(tasks);
}

fn history7<T: Elem>(t: usize, plan: &Plan, ops: &[Op7], places: &[usize]) {
    let spec = &plan.spec;
    let fpo = |n: &CNetwork<T>| fingerprint(n, spec).unwrap_or_else(|e| fail("unreadable", format!("reading the parameters failed: {e}")));
    let mut net = plan.build::<T>();
    let mut twin = plan.build::<T>();
    let mut done: Vec<&Op7> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let inject = matches!(op, Op7::Train { inject: true, .. } | Op7::Eval { inject: true, .. });
        let mut at = 0;
        if inject {
            // how many places are there to fail at? ask a copy in the same state
            let mut copy = plan.build::<T>();
            for u in &done {
                let _ = apply7(&mut copy, spec, u, 0);
            }
            let (_, _, n) = apply7(&mut copy, spec, op, u64::MAX);
            if n > 0 {
                at = 1 + (places[i] as u64 * n >> 20);
            }
        }
        let before = fpo(&net);
        let (r, hit, _) = apply7(&mut net, spec, op, at);
        hash_event(0x07, (i as u64) << 8 | r.is_ok() as u64);
        let what = describe7(op, at);
        trace(|| format!("T{t}: call {i}: {what}: {}", if r.is_ok() { "ok" } else { "failed" }));
        match r {
            Err(e) => {
                bump("failed_calls");
                bump("checks");
                let after = fpo(&net);
                hash_event(0x70, bits_hash(&after));
                if after != before {
                    fail("changed-by-failure", format!("{what} on {} failed ({e}) and changed the network", spec.describe()));
                }
            }
            Ok(()) if hit => {
                // the library dealt with the failure itself; nothing to compare with
                bump("absorbed_faults");
                return;
            }
            Ok(()) => {
                if let Op7::Add { .. } = op {
                    fail("accepted-layer", format!("an unfitting layer was accepted by {}: {what}", spec.describe()));
                }
                let (r2, ..) = apply7(&mut twin, spec, op, 0);
                bump("checks");
                if let Err(e) = r2 {
                    fail("twin-differs", format!("{what} succeeded after failures but fails without them: {e}"));
                }
                done.push(op);
                if fpo(&net) != fpo(&twin) {
                    fail("twin-differs", format!("after {what} on {} the network differs from one that saw no failed call", spec.describe()));
                }
            }
        }
    }
    // it still evaluates and trains like one that saw no failure
    let mut rng = Rng(plan.adj ^ 0x55);
    let pts = gen_batch::<T>(&mut rng, spec, 2);
    let x: IOType<T> = io_of(spec.input, &pts[0].0);
    let a = rt::sut(|| net.forward(&x).map(|o| bits_of(&o)).ok());
    let b = rt::sut(|| twin.forward(&x).map(|o| bits_of(&o)).ok());
    ensure!(a == b, "twin-differs", "prediction of {} differs after failed calls", spec.describe());
    let op = Op7::Train { pts, lr: C { re: 0.25, im: 0.125 }, bad: None, inject: false, loss: 0 };
    let (a, ..) = apply7(&mut net, spec, &op, 0);
    let (b, ..) = apply7(&mut twin, spec, &op, 0);
    ensure!(a.is_ok() == b.is_ok(), "twin-differs", "training of {} ends differently after failed calls: {a:?} / {b:?}", spec.describe());
    ensure!(fpo(&net) == fpo(&twin), "twin-differs", "training of {} differs after failed calls", spec.describe());
    bump("checks");
}

fn describe7(op: &Op7, at: u64) -> String {
    match op {
        Op7::Train { pts, bad, .. } => {
            let mut s = format!("training on {} points", pts.len());
            if let Some((p, how)) = bad {
                s += &format!(", point {p} malformed ({})", how % 4);
            }
            if at > 0 {
                s += &format!(", fault at evaluation {at}");
            }
            s
        }
        Op7::Eval { kind, bad, .. } => {
            let k = ["prediction", "activations", "interception", "loss", "accuracy", "entropy", "interception past the end"][*kind];
            format!("{k}{}{}", if *bad { " of a malformed point" } else { "" }, if at > 0 { " with a fault" } else { "" })
        }
        Op7::Add { kind, layer } => format!("adding ({kind}) {layer:?}"),
    }
}

// ------------------------------------------------------------------------- C09

struct Shared9<T> {
    net: CNetwork<T>,
    depth: usize,
}

fn prefix(s: &Spec, d: usize) -> Spec {
    Spec { input: s.input, layers: s.layers[..d].to_vec(), shapes: s.shapes[..d].to_vec() }
}

fn run_c09() {
    match choose(2) {
        0 => c09::<S64>(),
        _ => c09::<S32>(),
    }
}

fn c09<T: Elem>() {
    threads_setup();
    let plan = Plan::gen(Opts { trainable: false, vector_out: choose(3) > 0, big: true, smooth: false, dense_only: false });
    let spec: &'static Spec = Box::leak(Box::new(plan.spec.clone()));
    let plan: &'static Plan = Box::leak(Box::new(plan));
    let d0 = if chance(1, 3) { range(1, spec.layers.len()) } else { spec.layers.len() };
    trace(|| format!("{} {}, {d0} layers at first", T::NAME, plan.describe()));
    let mut net = CNetwork::new();
    for i in 0..d0 {
        let l = plan.layer::<T>(i);
        let r = if i == 0 { net.add_input(l) } else { net.add(l) };
        ensure!(r.is_ok(), "rejected-layer", "a fitting layer was rejected: {r:?}");
    }
    let lock: &'static RwLock<Shared9<T>> = Box::leak(Box::new(RwLock::new(Shared9 { net, depth: d0 })));
    let lock = Ptr(lock as *const _ as *mut RwLock<Shared9<T>>);
    let cost: usize = spec.layers.iter().enumerate().map(|(i, l)| layer_cost(l, spec.before(i))).sum();
    let k = if cost < 500 && chance(1, 40) { range(5, 24) } else { pick(&[2usize, 1, 3, 4]) };
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let calls = if cost < 80 && chance(1, 15) { range(5, if chance(1, 4) { 120 } else { 25 }) } else { range(1, 4) };
        let ops: Vec<(usize, u64, usize)> = (0..calls).map(|_| (choose(13), choose(1 << 30) as u64, choose(1 << 10))).collect();
        tasks.push(Box::new(move || {
            for (o, r, z) in ops {
                op9::<T>(t, lock, plan, spec, o, Rng(r), z);
            }
        }));
    }
    preemption::<T>();
    rt::run_tasks(tasks);
    rt::solo(move || {
        op9::<T>(9, lock, plan, spec, 0, Rng(plan.adj), 0);
    });
}

fn op9<T: Elem>(t: usize, lock: Ptr<RwLock<Shared9<T>>>, plan: &Plan, spec: &Spec, o: usize, mut rng: Rng, z: usize) {
    hash_event(0x09, (t * 16 + o) as u64);
    if o >= 9 {
        // writers
        let mut g = match rt::sut(|| lock.get().write()) {
            Ok(Ok(g)) => g,
            _ => fail("poisoned", "the lock is poisoned"),
        };
        let d = g.depth;
        let s = prefix(spec, d);
        match o {
            9 if d < spec.layers.len() => {
                let l = plan.layer::<T>(d);
                trace(|| format!("T{t}: add layer {d}"));
                let r = rt::sut(|| g.net.add(l));
                ensure!(matches!(r, Ok(Ok(()))), "rejected-layer", "a fitting layer was rejected: {r:?}");
                g.depth += 1;
            }
            10 => {
                // a failing training step
                let n = 1 + z % 4;
                let pts = gen_batch::<T>(&mut rng, &s, n);
                let op = Op7::Train { pts, lr: C { re: 0.1, im: 0.1 }, bad: Some((n - 1, rng.next())), inject: false, loss: 0 };
                let at = if z & 1 == 1 { 1 + rng.below(6) } else { 0 };
                trace(|| format!("T{t}: failing training step"));
                let _ = apply7(&mut g.net, &s, &op, at);
                bump("failed_calls");
            }
            _ => {
                let n = 1 + z % 5;
                let pts = gen_batch::<T>(&mut rng, &s, n);
                let d = dataset(&s, &pts);
                trace(|| format!("T{t}: train on {n} points"));
                let _ = rt::sut(|| g.net.gradient_opt(d, &ComplexLossFunc::MeanSquare, T::mk(0.2, if z & 8 == 0 { 0.0 } else { 0.1 })));
                bump("training_steps");
            }
        }
        let _ = rt::sut(|| drop(g));
        return;
    }
    let g = match rt::sut(|| lock.get().read()) {
        Ok(Ok(g)) => g,
        _ => fail("poisoned", "the lock is poisoned"),
    };
    let s = prefix(spec, g.depth);
    query9(t, &g.net, &s, o, &mut rng, z, plan.adj);
    let _ = rt::sut(|| drop(g));
}

fn query9<T: Elem>(t: usize, net: &CNetwork<T>, s: &Spec, o: usize, rng: &mut Rng, z: usize, base: u64) {
    let (p, _) = read_params(net, s);
    if !(largest(&p) < 1e3) {
        bump("skipped_large");
        return;
    }
    if z % 8 == 5 {
        for (i, l) in s.layers.iter().enumerate() {
            let zeros = io_of::<T>(s.input, &vec![C { re: 0.5, im: 0.25 }; s.input.len()]);
            let Ok(Ok((_, layer))) = rt::sut(|| net.intercept(zeros, i)) else { break };
            bump("layers_read_twice");
            if let Err(e) = cross_check(layer, l, &p[i]) {
                fail("wrong-value", format!("layer {i} of {} ({}): {e}", s.describe(), T::NAME));
            }
        }
    }
    let mut x = gen_values::<T>(rng, s.input.len());
    if z & 0x300 == 0 {
        // an input asked before, or nearly the same
        x = gen_values::<T>(&mut Rng(base), s.input.len());
        if z & 0x80 == 0 {
            x = vary::<T>(rng, &x);
        }
    }
    let xi = || io_of::<T>(s.input, &x);
    let m = model::forward(s, &p, &x, T::EPS);
    let what = ["prediction", "prediction", "activations", "activations", "interception", "interception", "loss", "entropy", "accuracy"][o];
    trace(|| format!("T{t}: {what}"));
    let where_ = || format!("{what} of {} ({})", s.describe(), T::NAME);
    let want_ok = |e: String| -> ! { fail("query-failed", format!("{} failed: {e}", where_())) };
    if o < 6 && m.kink {
        // it may be asked all the same, but is not judged
        bump("skipped_singular");
        let _ = rt::sut(|| net.forward(&xi()));
        return;
    }
    match o {
        0 | 1 => {
            let x = xi();
            let r = match rt::sut(|| net.forward(&x)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => want_ok(format!("{e:?}")),
                Err(e) => want_ok(e),
            };
            ensure!(has_shape(&r, s.out()), "wrong-shape", "{}: shape of the answer", where_());
            if let Err(e) = near::<T>(&flat(&r), m.acts.last().unwrap()) {
                fail("wrong-value", format!("{}: {e}", where_()));
            }
        }
        2 | 3 => {
            let xv = xi();
            let r = match rt::sut(|| net.collect_acts(xv)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => want_ok(format!("{e:?}")),
                Err(e) => want_ok(e),
            };
            ensure!(r.len() == s.layers.len() + 1, "wrong-shape", "{}: {} activations for {} layers", where_(), r.len(), s.layers.len());
            for (i, a) in r.iter().enumerate() {
                let sh = s.before(i);
                ensure!(has_shape(a, sh), "wrong-shape", "{}: shape of activation {i}", where_());
                if let Err(e) = near::<T>(&flat(a), &m.acts[i]) {
                    fail("wrong-value", format!("{}: activation {i}: {e}", where_()));
                }
            }
        }
        4 | 5 => {
            let i = z % (s.layers.len() + 1);
            let xv = xi();
            if i == s.layers.len() {
                let r = rt::sut(|| net.intercept(xv, i).is_ok());
                ensure!(r != Ok(true), "wrong-value", "{} past the last layer succeeded", where_());
                bump("checks");
                return;
            }
            let (a, l) = match rt::sut(|| net.intercept(xv, i)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => want_ok(format!("{e:?}")),
                Err(e) => want_ok(e),
            };
            ensure!(has_shape(&a, s.before(i)), "wrong-shape", "{} at {i}: shape", where_());
            if let Err(e) = near::<T>(&flat(&a), &m.acts[i]) {
                fail("wrong-value", format!("{} at {i}: {e}", where_()));
            }
            let r = match rt::sut(|| l.foward(&a)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => want_ok(format!("{e:?}")),
                Err(e) => want_ok(e),
            };
            ensure!(has_shape(&r, s.before(i + 1)), "wrong-shape", "{} at {i}: shape of the layer's output", where_());
            if let Err(e) = near::<T>(&flat(&r), &m.acts[i + 1]) {
                fail("wrong-value", format!("{} at {i}: the layer returned is another: {e}", where_()));
            }
        }
        _ => {
            let vector = matches!(s.out(), Sh::S(_));
            let cost: usize = s.layers.iter().enumerate().map(|(i, l)| layer_cost(l, s.before(i))).sum();
            let n = match z % 64 {
                0 if cost < 40 => [257, 300, 513, 600, 1025][z / 64 % 5],
                16 | 32 | 48 => 20 + z % 115,
                _ => 1 + z % 5,
            };
            let mut pts = gen_batch::<T>(rng, s, n);
            if z & 64 != 0 {
                // targets that equal the prediction in the largest component
                for (x, y) in pts.iter_mut() {
                    let m = model::forward(s, &p, x, T::EPS);
                    if let Some(k) = model::argmax(m.acts.last().unwrap(), T::EPS) {
                        y.iter_mut().enumerate().for_each(|(i, c)| *c = C { re: 0.0, im: (i == k) as u64 as f64 });
                    }
                }
            }
            let traces: Vec<model::Trace> = pts.iter().map(|(x, _)| model::forward(s, &p, x, T::EPS)).collect();
            let judged = !traces.iter().any(|t| t.kink);
            let d = dataset::<T>(s, &pts);
            if o == 8 {
                if !vector {
                    return;
                }
                let got = match rt::sut(|| net.max_pred_test(&d)) {
                    Ok(v) => T::pval(v),
                    Err(e) if judged => want_ok(e),
                    Err(_) => return,
                };
                let mut hits = 0;
                let mut open = 0;
                for (tr, (_, y)) in traces.iter().zip(&pts) {
                    let yv: Vec<V> = y.iter().map(|c| V { v: *c, e: 0.0 }).collect();
                    match (model::argmax(tr.acts.last().unwrap(), T::EPS), model::argmax(&yv, T::EPS)) {
                        _ if tr.kink => open += 1,
                        (Some(a), Some(b)) => hits += (a == b) as usize,
                        _ => open += 1,
                    }
                }
                let (lo, hi) = (hits as f64 / n as f64, (hits + open) as f64 / n as f64);
                ensure!(
                    got >= lo - 1e-6 && got <= hi + 1e-6,
                    "wrong-value",
                    "{} over {n} points is {got}, should be in [{lo}, {hi}]",
                    where_()
                );
                // a fraction of n
                let f = got * n as f64;
                ensure!((f - f.round()).abs() < 1e-4, "wrong-value", "{} over {n} points is {got}, not a multiple of 1/{n}", where_());
            } else {
                let kind = if o == 6 { Loss::MeanSquare } else { Loss::CrossEntropy };
                let lf = if o == 6 { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy };
                let got = match rt::sut(|| net.loss(&d, &lf)) {
                    Ok(Ok(v)) => T::pval(v),
                    Ok(Err(e)) if judged => want_ok(format!("{e:?}")),
                    Err(e) if judged => want_ok(e),
                    _ => return,
                };
                if !judged {
                    bump("skipped_singular");
                    return;
                }
                let (mut v, mut e, mut mag) = (0.0, 0.0, 0.0);
                for (tr, (_, y)) in traces.iter().zip(&pts) {
                    let Some((a, b)) = model::loss(kind, tr.acts.last().unwrap(), y, T::EPS) else {
                        bump("skipped_large");
                        return;
                    };
                    v += a;
                    e += b;
                    mag += a.abs();
                }
                let nf = n as f64;
                let tol = 8.0 * e / nf + T::EPS * (8.0 + nf) * mag / nf + 1e-300;
                ensure!(
                    (got - v / nf).abs() <= tol,
                    "wrong-value",
                    "{} over {n} points is {got}, should be {} (allowed {tol:e})",
                    where_(),
                    v / nf
                );
            }
        }
    }
    bump("checks");
    bump(match o {
        0 | 1 => "predictions_judged",
        2 | 3 => "activations_judged",
        4 | 5 => "interceptions_judged",
        6 | 7 => "losses_judged",
        _ => "accuracies_judged",
    });
}

// ------------------------------------------------------------------------- C13

fn run_c13() {
    match choose(4) {
        0 => c13::<S32>(),
        1 => c13::<S64>(),
        2 => c13::<Cf32>(),
        _ => c13::<Cf64>(),
    }
}

struct Accepted {
    l: L,
    seed: u128,
}

fn c13<T: Elem>() {
    threads_setup();
    let k = pick(&[1usize, 1, 2]);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        // everything is drawn here so that tasks do not draw out of order
        let wide = chance(1, 300);
        let n = match choose(150) {
            _ if wide => range(3, 7),
            0 => range(60, 150),
            1..=10 => range(15, 40),
            _ => range(3, 14),
        };
        let draws: Vec<Vec<usize>> = (0..n).map(|_| (0..12).map(|_| choose(1 << 16)).collect()).collect();
        let input = match choose(2) {
            _ if wide => Sh::S(pick(&[300usize, 257, 64, 70_000])),
            0 => Sh::S(range(1, 5)),
            _ => Sh::M(range(1, 3), range(3, 8), range(3, 8)),
        };
        tasks.push(Box::new(move || history13::<T>(t, input, &draws)));
    }
    preemption::<T>();
    rt::run_tasks(tasks);
}

fn history13<T: Elem>(t: usize, input: Sh, draws: &[Vec<usize>]) {
    let mut net: CNetwork<T> = CNetwork::new();
    let mut spec = Spec::new(input);
    let mut acc: Vec<Accepted> = vec![];
    check13(&net, &spec, &acc, "new network");
    for (i, d) in draws.iter().enumerate() {
        let mut rng = Rng(d[11] as u64);
        let op = d[0] % 10;
        let what;
        match op {
            0..=6 => {
                let cur = spec.out();
                let fits = d[1] % 3 > 0;
                let l = layer13(cur, fits, &d[2..]);
                let unit_less = matches!(&l, L::Dense { o: 0, .. } | L::Conv { f: 0, .. });
                let first = if acc.is_empty() { d[10] % 6 > 0 } else { d[10] % 6 == 0 };
                let seed = 1 + d[9] as u128 + i as u128 * 65537;
                let layer = build13::<T>(&l, seed);
                let (li, lo) = (shape_bits(&layer.get_input_shape()), shape_bits(&layer.get_output_shape()));
                let expect_in = declared_in(&l);
                ensure!(li == expect_in && lo == declared_out(&l), "wrong-shape", "a layer {l:?} reports shapes {li}/{lo}");
                what = format!("{} {l:?}", if first { "first layer" } else { "further layer" });
                let before = structure(&net);
                let r = rt::sut(|| if first { net.add_input(layer) } else { net.add(layer) });
                hash_event(0x13, (i * 4 + matches!(r, Ok(Ok(()))) as usize) as u64);
                let ok = matches!(r, Ok(Ok(())));
                let should = !unit_less
                    && if first { acc.is_empty() } else { !acc.is_empty() && expect_in == out_bits(&acc.last().unwrap().l) };
                trace(|| format!("T{t}: {what}: {}", if ok { "accepted" } else { "rejected" }));
                ensure!(ok == should, "wrong-decision", "{what} after {} was {}", spec.describe(), if ok { "accepted" } else { "rejected" });
                bump("checks");
                if ok {
                    bump("layers_accepted");
                    if acc.is_empty() {
                        // the first layer decides what the input is
                        spec = Spec::new(input_for(&l, input));
                    }
                    spec.push(l.clone());
                    acc.push(Accepted { l, seed });
                } else {
                    bump("layers_rejected");
                    ensure!(before == structure(&net), "changed-by-rejection", "{what} was rejected and changed the structure");
                }
            }
            7 => {
                let n = 1 + d[1] % 3;
                let pts = gen_batch::<T>(&mut rng, &spec, n);
                what = "training".to_string();
                if !acc.is_empty() && acc.len() <= 10 {
                    // a zero rate: the layers stay comparable with their copies
                    let data = dataset(&spec, &pts);
                    let _ = rt::sut(|| net.gradient_opt(data, &ComplexLossFunc::MeanSquare, T::mk(0.0, 0.0)));
                    hash_event(0x14, i as u64);
                }
            }
            8 => {
                what = "evaluation".to_string();
                let x = io_of::<T>(spec.input, &gen_values::<T>(&mut rng, spec.input.len()));
                let r = rt::sut(|| net.forward(&x));
                if acc.is_empty() {
                    ensure!(!matches!(r, Ok(Ok(_))), "wrong-decision", "a network without layers evaluated something");
                } else if let Ok(Ok(o)) = r {
                    ensure!(has_shape(&o, spec.out()), "wrong-shape", "{}: shape of the answer", spec.describe());
                }
                hash_event(0x15, i as u64);
            }
            _ => {
                what = "failing evaluation".to_string();
                let x = bad_input::<T>(&mut rng, spec.input);
                let _ = rt::sut(|| net.forward(&x).is_ok());
                hash_event(0x16, i as u64);
            }
        }
        check13(&net, &spec, &acc, &what);
    }
}

fn input_for(l: &L, hint: Sh) -> Sh {
    match (l, hint) {
        (L::Dense { i, .. }, _) => Sh::S(*i),
        (L::Flatten { h, w, ch }, _) => Sh::M(*ch, *h, *w),
        (L::Conv { ch, .. } | L::Reduce { ch, .. }, Sh::M(_, h, w)) => Sh::M(*ch, h, w),
        (L::Conv { ch, kh, kw, .. }, _) => Sh::M(*ch, kh + 2, kw + 2),
        (L::Reduce { ch, bh, bw, .. }, _) => Sh::M(*ch, bh * 2, bw * 2),
    }
}

fn declared_in(l: &L) -> u64 {
    match l {
        L::Dense { i, .. } => *i as u64,
        L::Conv { ch, .. } | L::Reduce { ch, .. } | L::Flatten { ch, .. } => *ch as u64 | 1 << 40,
    }
}

fn declared_out(l: &L) -> u64 {
    out_bits(l)
}

fn out_bits(l: &L) -> u64 {
    match l {
        L::Dense { o, .. } => *o as u64,
        L::Conv { f, .. } => *f as u64 | 1 << 40,
        L::Reduce { ch, .. } => *ch as u64 | 1 << 40,
        L::Flatten { h, w, ch } => (h * w * ch) as u64,
    }
}

fn params13(l: &L) -> usize {
    match l {
        L::Dense { i, o, .. } => i * o + o,
        L::Conv { ch, f, kh, kw, .. } => ch * f * kh * kw + f,
        _ => 0,
    }
}

/// A layer to offer; it fits the current output exactly if `fits`.
fn layer13(cur: Sh, fits: bool, d: &[usize]) -> L {
    let act = model::ACTS[d[0] % 5];
    let pool = model::Pool::Sum;
    match cur {
        Sh::S(n) => {
            if fits {
                // wide layers stay among themselves
                let o = match d[1] % 12 {
                    0 => 0,
                    1..=3 if n > 60 && n < 400 => [300, 257, 64][d[3] % 3],
                    _ => 1 + d[1] % 5,
                };
                return L::Dense { i: n, o, act };
            }
            match d[2] % 6 {
                0 if d[3] % 16 == 0 => L::Dense { i: n + [256, 65536, 128][d[4] % 3], o: 1, act },
                0 => L::Dense { i: n + 1, o: 1 + d[1] % 4, act },
                1 => L::Dense { i: n.max(2) - 1, o: 1 + d[1] % 4, act },
                2 => L::Conv { ch: n, f: 1 + d[1] % 3, kh: 1, kw: 1, act },
                3 => L::Reduce { ch: n, bh: 1, bw: 1, pool, kh: 1, kw: 1, k: vec![1.0] },
                4 => L::Flatten { h: 1, w: 1, ch: n },
                _ => L::Dense { i: n + 2, o: 0, act },
            }
        }
        Sh::M(m, h, w) => {
            let (kh, kw) = (1 + d[3] % h.min(3), 1 + d[4] % w.min(3));
            let (bh, bw) = (if h % 2 == 0 { 2 } else { 1 }, if w % 3 == 0 { 3 } else { 1 });
            if fits {
                return match d[2] % 4 {
                    0 | 1 => L::Conv { ch: m, f: if d[1] % 12 == 0 { 0 } else { 1 + d[1] % 3 }, kh, kw, act },
                    2 => L::Reduce { ch: m, bh, bw, pool, kh: 3, kw: 1, k: vec![0.25, 0.5, 0.25] },
                    _ => L::Flatten { h, w, ch: m },
                };
            }
            match d[2] % 7 {
                0 if d[3] % 16 == 0 => L::Conv { ch: m + 256, f: 1, kh: 1, kw: 1, act },
                0 => L::Conv { ch: m + 1, f: 1 + d[1] % 3, kh, kw, act },
                1 => L::Dense { i: m, o: 1 + d[1] % 4, act },
                2 => L::Dense { i: m * h * w, o: 1 + d[1] % 4, act },
                3 => L::Reduce { ch: m + 1, bh, bw, pool, kh: 1, kw: 1, k: vec![1.0] },
                4 => L::Flatten { h, w, ch: m + 1 },
                5 => L::Conv { ch: m + 1, f: 0, kh, kw, act },
                _ => L::Conv { ch: m, f: 0, kh, kw, act },
            }
        }
    }
}

fn build13<T: Elem>(l: &L, seed: u128) -> CLayer<T> {
    let mut s = seed;
    match l {
        L::Dense { i, o: 0, act } => DenseCLayer::<T>::init(IOShape::Scalar(*i), 0, act_func(*act), method(0, 1, 1), &mut s).unwrap().wrap(),
        L::Conv { ch, f: 0, kh, kw, act } => {
            ConvCLayer::<T>::init(IOShape::Matrix(*ch), 0, [*kh, *kw], act_func(*act), method(0, 1, 1), &mut s).unwrap().wrap()
        }
        L::Flatten { h, w, ch } => Flatten::init([*h, *w], *ch).wrap(),
        l => make_layer(l, (seed % 5) as usize, &mut s, &mut Rng(seed as u64), 1.0),
    }
}

/// The structure must be that of the accepted layers.
fn check13<T: Elem>(net: &CNetwork<T>, spec: &Spec, acc: &[Accepted], what: &str) {
    bump("checks");
    let n: usize = acc.iter().map(|a| params13(&a.l)).sum();
    let (first, last) = match (acc.first(), acc.last()) {
        (Some(a), Some(b)) => (declared_in(&a.l), out_bits(&b.l)),
        _ => (u64::MAX, u64::MAX),
    };
    let got = structure(net);
    if got != vec![n as u64, first, last] {
        fail(
            "wrong-structure",
            format!("after {what}: parameters/input/output {got:?}, accepted layers {} give {:?}", spec.describe(), [n as u64, first, last]),
        );
    }
    let was = rt::IN_SUT.with(|f| f.replace(false));
    for (i, a) in acc.iter().enumerate() {
        let copy = build13::<T>(&a.l, a.seed);
        let mut rng = Rng(a.seed as u64 + 3);
        let x = io_of::<T>(spec.before(i), &gen_values::<T>(&mut rng, spec.before(i).len()));
        let zero = io_of::<T>(spec.input, &gen_values::<T>(&mut rng, spec.input.len()));
        let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| copy.foward(&x).map(|o| bits_of(&o)).ok()));
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            net.intercept(zero, i).ok().and_then(|(_, l)| l.foward(&x).map(|o| bits_of(&o)).ok())
        }));
        // a singular input of an activation may be refused by either
        if let (Ok(w), Ok(g)) = (want, got) {
            if w != g {
                fail("wrong-layer", format!("after {what}: layer {i} of {} is not the one that was added", spec.describe()));
            }
        } else {
            bump("skipped_singular");
        }
    }
    let extra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let zero = io_of::<T>(spec.input, &vec![C { re: 0.5, im: 0.25 }; spec.input.len()]);
        net.intercept(zero, acc.len()).is_ok()
    }));
    rt::IN_SUT.with(|f| f.set(was));
    ensure!(!matches!(extra, Ok(true)), "wrong-structure", "after {what}: there is a layer beyond the {} accepted", acc.len());
}
