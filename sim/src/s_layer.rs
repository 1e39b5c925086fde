//! C17: derivatives and adjustments of single layers.

use crate::choice::{chance, choose, choose64, crew, pick, range, Rng};
use crate::elem::{arm, Elem, S32, S64};
use crate::ensure;
use crate::model::{self, Sh, Spec, C, L, P, V};
use crate::net::*;
use crate::rt::{self, bump, bump_by, fail, hash_event, trace};
use crate::Prop;
use renplex::cvnn::layer::CLayer;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};

pub const C17: Prop = Prop {
    id: "C17",
    run: run_c17,
    quick: 35000,
    thorough: 1000000,
    rule: "A drawn dense, convolution or pooling layer goes through one to four rounds. In each it is given accepted and refused adjustments, and two to four threads then ask it for derivatives and outputs in a drawn interleaving, some with values that do not fit or with a fault in the arithmetic. Answers are compared bit for bit with those of a fresh copy asked alone, and with the reference model; parameters with the running sum of the accepted adjustments.",
    real: &["renplex layers, activations, matrix operations (compiled from /repo)", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream", "element type wrapper S32/S64: delegates to Cf32/Cf64, adds preemption and fault points"],
    assume: &["The loss derivatives handed in are a vector and its conjugate.", "Answers with a unit closer to a branch of its activation than the rounding bound are compared with the solo answer only."],
};

fn run_c17() {
    match choose(6) {
        0 | 1 => c17::<S64>(),
        2 | 3 => c17::<S32>(),
        4 => c17::<Cf32>(),
        _ => c17::<Cf64>(),
    }
}

#[derive(Clone)]
struct Kind {
    spec: Spec, // of one layer
    method: usize,
    seed: u128,
    adj: u64,
    scale: f64,
}

impl Kind {
    fn gen() -> Kind {
        let o = Opts { trainable: false, vector_out: false, big: true, smooth: false, dense_only: false };
        let spec = gen_layer(&o);
        Kind { spec, method: choose(5), seed: 1 + choose64(1 << 40) as u128, adj: choose64(1 << 40), scale: pick(&[1.0, 0.5, 0.0, 2.0]) }
    }
    /// A layer of the same shape and kind, with other parameters.
    fn sibling(&self) -> Kind {
        let mut k = self.clone();
        k.seed += 1 + choose(1000) as u128;
        k.adj ^= 1;
        k.scale = pick(&[1.0, 0.5, 2.0]);
        match &mut k.spec.layers[0] {
            L::Reduce { k, .. } => k.iter_mut().enumerate().for_each(|(i, v)| *v = 0.25 - *v + 0.125 * (i % 3) as f64),
            L::Dense { act, .. } | L::Conv { act, .. } if chance(1, 3) => *act = pick(&model::ACTS),
            _ => {}
        }
        k
    }
    fn l(&self) -> &L {
        &self.spec.layers[0]
    }
    fn fresh<T: Elem>(&self) -> CLayer<T> {
        make_layer(self.l(), self.method, &mut self.seed.clone(), &mut Rng(self.adj), self.scale)
    }
    fn params(&self) -> (usize, usize) {
        match self.l() {
            L::Dense { i, o, .. } => (i * o, *o),
            L::Conv { ch, f, kh, kw, .. } => (ch * f * kh * kw, *f),
            _ => (0, 0),
        }
    }
}

enum Ask<T> {
    Derive { x: Vec<C>, d: Vec<C> },
    Eval { x: Vec<C> },
    /// does not fit; only has to leave the layer alone
    Odd { x: IOType<T>, d: Vec<T>, eval: bool },
}

struct Question<T> {
    ask: Ask<T>,
    inject: u64,
}

fn gen_question<T: Elem>(rng: &mut Rng, k: &Kind, seen: &mut Vec<(Vec<C>, Vec<C>)>) -> Question<T> {
    let (sh, out) = (k.spec.input, k.spec.out());
    let mut x = gen_values::<T>(rng, sh.len());
    let mut d = gen_values::<T>(rng, out.len());
    // often values asked about before, or nearly so
    if !seen.is_empty() {
        let old = &seen[choose(seen.len())];
        match choose(5) {
            0 => x = old.0.clone(),
            1 => (x, d) = old.clone(),
            2 => x = vary::<T>(rng, &old.0),
            _ => {}
        }
    }
    seen.push((x.clone(), d.clone()));
    let ask = match choose(8) {
        0..=4 => Ask::Derive { x, d },
        5 | 6 => Ask::Eval { x },
        _ => {
            let one = C { re: 1.0, im: 0.5 };
            let grown = match sh {
                Sh::S(n) => Sh::S(n + 1),
                Sh::M(m, h, w) => Sh::M(m + 1, h, w),
            };
            let swapped = match sh {
                Sh::S(n) => Sh::M(1, 1, n),
                s => Sh::S(s.len()),
            };
            let n = out.len();
            let (xs, n) = match choose(4) {
                0 => (grown, n),
                1 => (swapped, n),
                2 => (sh, n + 1),
                _ => (sh, n - 1),
            };
            Ask::Odd { x: io_of(xs, &vec![one; xs.len()]), d: vec![T::mk(0.5, -1.0); n], eval: choose(3) == 0 }
        }
    };
    let inject = if T::WRAPPED && chance(1, 10) { range(1, 12) as u64 } else { 0 };
    Question { ask, inject }
}

/// Bits of the answer, and the answer itself: derivatives for weights, biases, the
/// input and its conjugate; or the output.
fn answer<T: Elem>(layer: &CLayer<T>, sh: Sh, q: &Question<T>) -> (Vec<u64>, Vec<Vec<C>>) {
    let vals = |v: &[T]| v.iter().map(|e| e.parts()).map(|(re, im)| C { re, im }).collect::<Vec<C>>();
    let mut parts: Vec<Vec<C>> = vec![];
    let mut bits = vec![];
    arm(q.inject);
    let r = match &q.ask {
        Ask::Derive { x, d } => {
            let x: IOType<T> = io_of(sh, x);
            let dl: Vec<T> = d.iter().map(|c| T::mk(c.re, c.im)).collect();
            let dc: Vec<T> = d.iter().map(|c| T::mk(c.re, -c.im)).collect();
            derive(layer, &x, dl, dc)
        }
        Ask::Odd { x, d, eval: false } => {
            let dc = d.clone();
            derive(layer, x, d.clone(), dc)
        }
        Ask::Odd { x, eval: true, .. } => rt::sut(|| layer.foward(x)).map_err(|e| e).and_then(|r| r.map(|o| (vec![], vec![], vec![], vec![], Some(o))).map_err(|e| format!("{e:?}"))),
        Ask::Eval { x } => {
            let x: IOType<T> = io_of(sh, x);
            rt::sut(|| layer.foward(&x)).and_then(|r| r.map(|o| (vec![], vec![], vec![], vec![], Some(o))).map_err(|e| format!("{e:?}")))
        }
    };
    arm(0);
    match r {
        Ok((w, b, n, c, o)) => {
            for v in [&w, &b, &n, &c] {
                bits.push(v.len() as u64);
                bits.extend(v.iter().flat_map(|e| [e.bits().0, e.bits().1]));
                parts.push(vals(v));
            }
            if let Some(o) = o {
                bits.extend(bits_of(&o));
                parts.push(flat(&o));
            }
            bits.push(0);
        }
        Err(_) => bits.push(1),
    }
    (bits, parts)
}

type Derived<T> = (Vec<T>, Vec<T>, Vec<T>, Vec<T>, Option<IOType<T>>);

fn derive<T: Elem>(layer: &CLayer<T>, x: &IOType<T>, d: Vec<T>, dc: Vec<T>) -> Result<Derived<T>, String> {
    rt::sut(|| layer.compute_derivatives(x, d, dc)).and_then(|r| r.map(|(w, b, n, c)| (w, b, n, c, None)).map_err(|e| format!("{e:?}")))
}

/// Bits that identify the state of a layer, and its parameters if they can be read.
fn state<T: Elem>(layer: &CLayer<T>, k: &Kind) -> (Vec<u64>, Option<P>) {
    let lost = |e: String| -> ! { fail("unreadable", format!("reading the layer failed: {e}")) };
    if T::WRAPPED {
        let (p, bits) = extract_one(layer, k.l()).unwrap_or_else(|e| lost(e));
        return (bits, Some(p));
    }
    let was = rt::IN_SUT.with(|f| f.replace(false));
    let mut rng = Rng(99);
    let mut bits = vec![];
    for _ in 0..3 {
        let x: Vec<C> = (0..k.spec.input.len()).map(|_| rnd::<T>(&mut rng, 2.0)).collect();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| layer.foward(&io_of(k.spec.input, &x)))) {
            Ok(Ok(r)) => bits.extend(bits_of(&r)),
            Ok(Err(e)) => lost(format!("{e:?}")),
            Err(_) => bits.push(2),
        }
    }
    rt::IN_SUT.with(|f| f.set(was));
    (bits, None)
}

fn c17<T: Elem>() {
    rt::set_threads(pick(&[4usize, 1, 2, 8]));
    let k: &'static Kind = Box::leak(Box::new(Kind::gen()));
    let mut rng = Rng::drawn();
    let rounds = range(1, 4);
    let mut seen = vec![];
    trace(|| format!("{} {} init {} seed {} scale {}, {rounds} rounds", T::NAME, k.spec.describe(), k.method, k.seed, k.scale));
    let layer = Ptr::new(k.fresh::<T>());
    // a second layer of the same shape is asked the same questions, but never adjusted
    let k2: Option<&'static Kind> = if chance(1, 3) { Some(Box::leak(Box::new(k.sibling()))) } else { None };
    let layer2 = Ptr::new(k2.map(|k| k.fresh::<T>()));
    let first = choose(2) == 1;
    let accepted = Ptr::new(Vec::<(Vec<T>, Vec<T>)>::new());
    rt::solo(move || {
        let (nw, nb) = k.params();
        let got = rt::sut(|| layer.get().params_len());
        ensure!(got == Ok((nw, nb)), "wrong-count", "{} reports {got:?} parameters", k.spec.describe());
    });
    let mut tracked: Option<(P, f64)> = state(layer.get(), k).1.map(|p| (p, 0.0));
    for round in 0..rounds {
        // adjustments, one after the other
        let many = if chance(1, 20) { range(20, 80) } else { range(0, 4) };
        let plan: Vec<(usize, u64)> = (0..many).map(|_| (choose(10), rng.next())).collect();
        let tr = Ptr::new(tracked.take());
        rt::solo(move || {
            for (i, (how, r)) in plan.iter().enumerate() {
                adjust::<T>(layer.get(), accepted.get(), tr.get(), k, *how, Rng(*r), (round, i));
            }
        });
        tracked = tr.get().take();
        // questions
        let qs: &'static Vec<Question<T>> = Box::leak(Box::new((0..range(1, 4)).map(|_| gen_question::<T>(&mut rng, k, &mut seen)).collect()));
        let want = Ptr::new(vec![]);
        let want2 = Ptr::new(vec![]);
        let before = Ptr::new(vec![]);
        let p = Ptr::new(None);
        rt::solo(move || {
            let alone = || {
                let mut l = k.fresh::<T>();
                for (w, b) in accepted.get().iter() {
                    let r = rt::sut(|| l.neg_conj_adjustment(w.clone(), b.clone()).is_ok());
                    ensure!(r == Ok(true), "refused-adjustment", "an adjustment accepted before is refused by a copy");
                }
                l
            };
            for q in qs.iter() {
                let other = || {
                    if let Some(k) = k2 {
                        want2.get().push(answer(&k.fresh::<T>(), k.spec.input, q));
                    }
                };
                if first {
                    other();
                }
                want.get().push(answer(&alone(), k.spec.input, q));
                if !first {
                    other();
                }
            }
            let (bits, par) = state(layer.get(), k);
            ensure!(bits == state(&alone(), k).0, "twin-differs", "{}: the layer differs from a copy that only saw the accepted adjustments", k.spec.describe());
            *before.get() = bits;
            *p.get() = par;
        });
        // what the model says
        for (q, w) in qs.iter().zip(want.get().iter()) {
            if let (Some(p), 0) = (p.get(), q.inject) {
                judge::<T>(k, p, q, w);
            }
        }
        if let Some(k) = k2 {
            let l2 = layer2.get().as_ref().unwrap();
            if let Some(p) = state(l2, k).1 {
                for (q, w) in qs.iter().zip(want2.get().iter()).filter(|(q, _)| q.inject == 0) {
                    judge::<T>(k, &p, q, w);
                }
            }
        }
        let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
        for t in 0..crew(2, 4) {
            let calls = if chance(1, 15) { range(5, 40) } else { range(1, 3) };
            let list: Vec<(usize, bool)> = (0..calls).map(|_| (choose(qs.len()), k2.is_some() && choose(2) == 1)).collect();
            tasks.push(Box::new(move || {
                for (i, second) in list {
                    if second {
                        let got = answer(layer2.get().as_ref().unwrap(), k.spec.input, &qs[i]);
                        bump("checks");
                        if qs[i].inject == 0 && got.0 != want2.get()[i].0 {
                            fail("different-answer", format!("{}: a question to the second layer of this shape got another answer than alone", k.spec.describe()));
                        }
                        continue;
                    }
                    let got = answer(&*layer.get(), k.spec.input, &qs[i]);
                    hash_event(0x17, (t * 64 + i) as u64);
                    bump("checks");
                    if qs[i].inject == 0 && got.0 != want.get()[i].0 {
                        fail("different-answer", format!("{}: a question asked concurrently got another answer than alone", k.spec.describe()));
                    }
                }
            }));
        }
        if T::WRAPPED {
            rt::set_preemption(pick(&[30u64, 3, 8, 100, 500]), chance(1, 3));
        } else {
            rt::set_preemption(pick(&[4u64, 1, 2, 15]), true);
        }
        rt::run_tasks(tasks);
        rt::solo(move || {
            ensure!(state(layer.get(), k).0 == *before.get(), "changed-by-question", "{}: asking changed the layer", k.spec.describe());
            for (q, w) in qs.iter().zip(want.get().iter()) {
                if q.inject == 0 {
                    let got = answer(&*layer.get(), k.spec.input, q);
                    ensure!(got.0 == w.0, "different-answer", "{}: a question asked afterwards got another answer", k.spec.describe());
                }
            }
        });
    }
}

fn adjust<T: Elem>(layer: &mut CLayer<T>, accepted: &mut Vec<(Vec<T>, Vec<T>)>, tracked: &mut Option<(P, f64)>, k: &Kind, how: usize, mut rng: Rng, at: (usize, usize)) {
    let (nw, nb) = k.params();
    let (w, b) = match how {
        0 => (nw + 1, nb),
        1 => (nw.max(1) - 1, nb),
        2 => (nw, nb + 1),
        3 if nb > 0 => (nw, nb - 1),
        4 if rng.below(2) == 0 => (nb, nw),
        4 if nb > 0 && rng.below(2) == 0 => (nw + 1, nb - 1),
        4 if nw > 0 && rng.below(2) == 0 => (nw - 1, nb + 1),
        // everything in one list
        4 if nb > 0 && rng.below(2) == 0 => (nw + nb, 0),
        _ => (nw, nb),
    };
    let scale = [1.0, 0.1, 0.0, 1e-4][rng.below(4) as usize];
    let dw: Vec<T> = (0..w).map(|_| T::mk(rng.sym() * scale, rng.sym() * scale)).collect();
    let db: Vec<T> = (0..b).map(|_| T::mk(rng.sym() * scale, rng.sym() * scale)).collect();
    let fits = (w, b) == (nw, nb);
    let trainable = matches!(k.l(), L::Dense { .. } | L::Conv { .. });
    if !trainable && !fits {
        return;
    }
    let before = state(layer, k).0;
    let (gw, gb) = (dw.clone(), db.clone());
    let r = rt::sut(|| layer.neg_conj_adjustment(gw, gb).map_err(|e| format!("{e:?}"))).and_then(|r| r);
    hash_event(0x18, (at.1 as u64) << 1 | r.is_ok() as u64);
    bump("checks");
    trace(|| format!("round {} adjustment {}: {w}+{b} values for {nw}+{nb}: {}", at.0, at.1, if r.is_ok() { "accepted" } else { "refused" }));
    ensure!(r.is_ok() == fits, "wrong-decision", "{}: an adjustment of {w}+{b} values for {nw}+{nb} parameters: {r:?}", k.spec.describe());
    let (after, p) = state(layer, k);
    if !fits {
        bump("adjustments_refused");
        ensure!(after == before, "changed-by-refusal", "{}: a refused adjustment changed the layer", k.spec.describe());
        return;
    }
    bump("adjustments_accepted");
    if let (Some(p), Some((q, e))) = (p, tracked.as_mut()) {
        let add = |a: &mut Vec<C>, d: &[T]| {
            for (a, d) in a.iter_mut().zip(d) {
                let (re, im) = d.parts();
                *a = *a - C { re, im: -im };
            }
        };
        add(&mut q.w, &dw);
        add(&mut q.b, &db);
        let most = q.w.iter().chain(&q.b).map(|c| c.abs()).fold(1.0, f64::max);
        *e += 16.0 * T::EPS * most;
        for (kind, have, want) in [("weight", &p.w, &q.w), ("bias", &p.b, &q.b)] {
            ensure!(have.len() == want.len(), "wrong-sum", "{}: number of parameters", k.spec.describe());
            for (i, (h, w)) in have.iter().zip(want).enumerate() {
                let d = (*h - *w).abs();
                ensure!(d <= *e, "wrong-sum", "{} ({}): {kind} {i} is {h:?} after an adjustment, should be {w:?} (off by {d:e}, allowed {e:e})", k.spec.describe(), T::NAME);
            }
        }
        bump_by("parameters_compared", (p.w.len() + p.b.len()) as u64);
    }
    accepted.push((dw, db));
}

fn judge<T: Elem>(k: &Kind, p: &P, q: &Question<T>, (bits, parts): &(Vec<u64>, Vec<Vec<C>>)) {
    let x = match &q.ask {
        Ask::Derive { x, .. } | Ask::Eval { x } => x,
        Ask::Odd { .. } => return,
    };
    let ps = [p.clone()];
    let t = model::forward(&k.spec, &ps, x, T::EPS);
    let where_ = || format!("{} ({})", k.spec.describe(), T::NAME);
    if t.kink || t.dkink {
        bump("skipped_singular");
        return;
    }
    ensure!(bits.last() == Some(&0), "refused-question", "{}: a fitting question was refused", where_());
    match &q.ask {
        Ask::Eval { .. } => {
            if let Err(e) = near::<T>(&parts[4], &t.acts[1]) {
                fail("wrong-value", format!("output of {}: {e}", where_()));
            }
        }
        Ask::Derive { d, .. } => {
            let d: Vec<V> = d.iter().map(|c| V { v: *c, e: 0.0 }).collect();
            let mut gw = vec![V::default(); p.w.len()];
            let mut gb = vec![V::default(); p.b.len()];
            let nd = model::back(k.l(), k.spec.input, p, &t.acts[0], &t.q[0], &d, T::EPS, &mut gw, &mut gb);
            let nc: Vec<V> = nd.iter().map(|v| V { v: v.v.conj(), e: v.e }).collect();
            for (what, got, want) in
                [("weights", &parts[0], &gw), ("biases", &parts[1], &gb), ("input", &parts[2], &nd), ("conjugate input", &parts[3], &nc)]
            {
                if let Err(e) = near::<T>(got, want) {
                    fail("wrong-derivative", format!("derivatives of {} for the {what}: {e}", where_()));
                }
            }
            bump("derivatives_judged");
        }
        _ => {}
    }
    bump("checks");
}
