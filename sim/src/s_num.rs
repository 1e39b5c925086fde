//! C14, C15, C19: complex arithmetic, activation functions, losses and one-hot
//! targets are functions of their arguments alone.

use crate::choice::{chance, choose, crew, pick, range, Rng};
use crate::elem::{Elem, S32, S64};
use crate::ensure;
use crate::model::{self, c, Act, Loss, ACTS, C, V};
use crate::net::{act_func, flat, io_of, rnd, vary};
use crate::model::Sh;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::Prop;
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Real;
use renplex::opt::ComplexLossFunc;

const REAL: &[&str] = &["renplex complex numbers, activation functions, losses (compiled from /repo)", "OS threads"];
const STUB: &[&str] = &["thread scheduling: baton scheduler driven by the choice stream, also between single machine instructions", "element type wrapper S32/S64: delegates to Cf32/Cf64, adds preemption points"];

pub const C14: Prop = Prop {
    id: "C14",
    run: run_c14,
    quick: 60000,
    thorough: 600000,
    rule: "Two to four threads apply drawn operations, in every form they are offered in, to numbers from a small common pool and to look-alikes of them, in a drawn interleaving that may switch threads between any two machine instructions; some divisions are by zero. Every result is compared with one computed in double precision from the definition.",
    real: REAL,
    stub: STUB,
    assume: &["Moduli between 2^-40 and 2^40 (single) and 2^-300 and 2^300 (double precision), or zero."],
};

pub const C15: Prop = Prop {
    id: "C15",
    run: run_c15,
    quick: 60000,
    thorough: 600000,
    rule: "Two to four threads evaluate drawn activation functions and their two derivatives on single numbers and slices from a small common pool and look-alikes, in a drawn interleaving that may switch threads between any two machine instructions. Every value is compared with the definition and its independently derived Wirtinger derivatives.",
    real: REAL,
    stub: STUB,
    assume: &["Components up to 200 in magnitude.", "Points where a function is not differentiable are not judged; saturated sigmoids may be off by the library's clamping."],
};

pub const C19: Prop = Prop {
    id: "C19",
    run: run_c19,
    quick: 60000,
    thorough: 600000,
    rule: "Two to four threads compute losses and their derivatives of vectors and feature maps, some of unequal kind, and one-hot targets for valid and invalid classes, in a drawn interleaving that may switch threads between any two machine instructions. Every result is compared with its definition.",
    real: REAL,
    stub: STUB,
    assume: &["Targets and predictions have equally many values, at least one.", "Cross-entropy with squared moduli up to 30; its derivative is a documented stand-in and not judged."],
};

// ----------------------------------------------------------------- arithmetic

/// Operators on references.
trait Refs: Elem {
    fn by_ref(k: usize, a: &Self, b: &Self) -> Self;
}
macro_rules! refs {
    ($t:ty, $v:ident, $e:expr, $wrap:expr) => {
        impl Refs for $t {
            fn by_ref(k: usize, a: &Self, b: &Self) -> Self {
                let get = |$v: &Self| $e;
                let (a, b) = (get(a), get(b));
                $wrap(match k {
                    0 => &a + &b,
                    1 => &a - &b,
                    2 => &a * &b,
                    _ => &a / &b,
                })
            }
        }
    };
}
refs!(Cf32, x, *x, |v| v);
refs!(Cf64, x, *x, |v| v);
refs!(S32, x, x.0, S32);
refs!(S64, x, x.0, S64);

fn quotient(a: C, b: C) -> C {
    // scaled so that nothing overflows
    let s = 1.0 / b.re.abs().max(b.im.abs());
    let (x, y) = (a.scale(s), b.scale(s));
    (x * y.conj()).scale(1.0 / y.sq())
}

fn gen_number<T: Elem>(rng: &mut Rng) -> C {
    let span = if T::WIDE { 300 } else { 40 };
    let mut z = match rng.below(12) {
        0 => c(rng.below(7) as f64 - 3.0, rng.below(7) as f64 - 3.0),
        1 => c(rnd::<T>(rng, 2.0).re, 0.0),
        2 => c(0.0, rnd::<T>(rng, 2.0).im),
        3 => c(0.0, 0.0),
        4 | 5 => {
            let k = rng.below(2 * span + 1) as i32 - span as i32;
            rnd::<T>(rng, 1.0).scale(2f64.powi(k))
        }
        6 => {
            let z = rnd::<T>(rng, 1.0);
            c(z.re, z.im * 2f64.powi(-(rng.below(40) as i32)))
        }
        7 => c([3.0, -3.0, 5.0, 0.6][rng.below(4) as usize], [4.0, -4.0, 12.0, 0.8][rng.below(4) as usize]),
        _ => rnd::<T>(rng, 3.0),
    };
    if z.abs() < 2f64.powi(-(span as i32)) {
        z = c(0.0, 0.0);
    }
    let (re, im) = T::mk(z.re, z.im).parts();
    c(re, im)
}

/// Numbers that share something with others already in the pool.
fn gen_numbers<T: Elem>(rng: &mut Rng) -> Vec<C> {
    let mut v = vec![gen_number::<T>(rng)];
    for _ in 1..if chance(1, 25) { range(9, 200) } else { range(2, 8) } {
        let old = v[rng.below(v.len() as u64) as usize];
        let z = match rng.below(6) {
            0 => vary::<T>(rng, &[old])[0],
            1 => c(-old.re, -old.im),
            2 => c(old.re, gen_number::<T>(rng).im),
            _ => gen_number::<T>(rng),
        };
        let span = if T::WIDE { -300 } else { -40 };
        v.push(if z.abs() < 2f64.powi(span) { c(0.0, 0.0) } else { z });
    }
    v
}

fn number<T: Elem>(z: C) -> T {
    T::mk(z.re, z.im)
}

fn value<T: Elem>(z: &T) -> C {
    let (re, im) = z.parts();
    c(re, im)
}

fn close(t: usize, what: &dyn Fn() -> String, got: C, want: C, tol: f64) {
    bump("checks");
    let d = (got - want).abs();
    ensure!(d <= tol, "wrong-value", "T{t}: {} is {got:?}, should be {want:?} (off by {d:e}, allowed {tol:e})", what());
}

fn c14<T: Refs>() {
    let mut rng = Rng::drawn();
    let pool: &'static Vec<C> = Box::leak(Box::new(gen_numbers::<T>(&mut rng)));
    trace(|| format!("{} {pool:?}", T::NAME));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..crew(2, 4) {
        let n = if chance(1, 20) { range(20, 120) } else { range(1, 12) };
        let ops: Vec<(usize, C, C)> = (0..n)
            .map(|_| {
                let a = pool[rng.below(pool.len() as u64) as usize];
                let b = pool[rng.below(pool.len() as u64) as usize];
                (if rng.below(3) > 0 { rng.below(12) as usize } else { rng.below(24) as usize }, a, b)
            })
            .collect();
        tasks.push(Box::new(move || {
            for (k, a, b) in &ops {
                calculate::<T>(t, *k, *a, *b);
            }
        }));
    }
    rt::set_preemption(pick(&[2u64, 1, 4, 10]), choose(2) == 0);
    rt::set_fine(2, 12_000);
    rt::run_tasks(tasks);
}

fn calculate<T: Refs>(t: usize, k: usize, za: C, zb: C) {
    let (a, b) = (number::<T>(za), number::<T>(zb));
    hash_event(0x14, (t as u64) << 32 | k as u64);
    let eps = T::EPS;
    let tiny = if T::WIDE { 1e-300 } else { 1e-37 };
    let bad = |m: String| -> ! { fail("unexpected-refusal", format!("T{t}: operation {k} on {za:?} and {zb:?} failed: {m}")) };
    let p = |x: f64| T::mk(x, 0.0).re();
    if k < 12 {
        // + - * / by value, by reference, assigning
        let (op, form) = (k % 4, k / 4);
        let name = || format!("{za:?} {} {zb:?} (form {form})", ["+", "-", "*", "/"][op]);
        let mut m = a;
        let r = rt::sut(|| match form {
            0 => match op {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                _ => a / b,
            },
            1 => T::by_ref(op, &a, &b),
            _ => {
                match op {
                    0 => m += b,
                    1 => m -= b,
                    2 => m *= b,
                    _ => m /= b,
                }
                m
            }
        });
        if op == 3 && zb.abs() == 0.0 {
            bump("refusals");
            ensure!(r.is_err(), "not-refused", "T{t}: {} gave {:?}", name(), value(&r.unwrap()));
            ensure!(m.bits() == a.bits(), "changed-by-refusal", "T{t}: {} left {:?} behind", name(), value(&m));
            return;
        }
        let got = match r {
            Ok(v) => value(&v),
            Err(m) => bad(m),
        };
        match op {
            0 | 1 => {
                let want = if op == 0 { za + zb } else { za - zb };
                bump("checks");
                let near = |g: f64, w: f64| (g - w).abs() <= eps * w.abs() + tiny;
                ensure!(near(got.re, want.re) && near(got.im, want.im), "wrong-value", "T{t}: {} is {got:?}, should be {want:?}", name());
            }
            2 => close(t, &name, got, za * zb, 8.0 * eps * za.abs() * zb.abs() + tiny),
            _ => {
                let want = quotient(za, zb);
                close(t, &name, got, want, 16.0 * eps * want.abs() + tiny)
            }
        }
        return;
    }
    let name = || format!("operation {k} on {za:?}");
    macro_rules! ask {
        ($e:expr) => {
            match rt::sut(|| $e) {
                Ok(v) => v,
                Err(m) => bad(m),
            }
        };
    }
    match k {
        12 => close(t, &name, value(&ask!(a.conj())), za.conj(), 0.0),
        13 => close(t, &name, c(T::pval(ask!(a.norm())), 0.0), c(za.abs(), 0.0), 8.0 * eps * za.abs() + tiny),
        14 => close(t, &name, c(T::pval(ask!(a.norm_sq())), 0.0), c(za.sq(), 0.0), 8.0 * eps * za.sq() + tiny),
        15 if za.abs() > 0.0 => {
            let want = za.im.atan2(za.re);
            close(t, &name, c(T::pval(ask!(a.phase())), 0.0), c(want, 0.0), 8.0 * eps * want.abs() + tiny)
        }
        16 => {
            let (x, y) = ask!((a.re(), a.im()));
            close(t, &name, c(T::pval(x), T::pval(y)), za, 0.0)
        }
        17 => close(t, &name, value(&ask!(T::new(p(za.re), p(zb.im)))), c(za.re, zb.im), 0.0),
        18 => {
            // polar form, angles up to a few turns
            let ang = T::pval(p(zb.re.clamp(-20.0, 20.0)));
            let want = c(ang.cos(), ang.sin()).scale(za.re);
            close(t, &name, value(&ask!(T::newe(p(za.re), p(ang)))), want, 8.0 * eps * za.re.abs() + tiny)
        }
        19 => {
            let n = (za.re.abs().min(1e9)) as usize;
            close(t, &name, value(&ask!(T::usize_to_complex(n))), c(n as f64, 0.0), eps * n as f64);
            close(t, &name, c(T::pval(ask!(<T::Precision as Real>::usize_to_real(n))), 0.0), c(n as f64, 0.0), eps * n as f64)
        }
        20 => {
            close(t, &name, value(&ask!(T::unit())), c(1.0, 0.0), 0.0);
            close(t, &name, value(&ask!(T::iunit())), c(0.0, 1.0), 0.0);
            close(t, &name, value(&ask!(T::default())), c(0.0, 0.0), 0.0);
            close(t, &name, c(T::pval(ask!(<T::Precision as Real>::unit())), 0.0), c(1.0, 0.0), 0.0)
        }
        21 => {
            let same = ask!(a == b);
            bump("checks");
            ensure!(same == (za == zb), "wrong-order", "T{t}: {za:?} == {zb:?} is {same}");
        }
        22 | 23 => {
            // ordered by modulus
            let b = if k == 23 { a.conj() } else { b };
            let zb = value(&b);
            let (lt, le, gt, ge, cmp) = ask!((a < b, a <= b, a > b, a >= b, a.partial_cmp(&b)));
            use std::cmp::Ordering::*;
            let want = if za.sq() == zb.sq() && (za.re.abs() == zb.re.abs()) {
                Equal
            } else if (za.abs() - zb.abs()).abs() <= 16.0 * eps * za.abs().max(zb.abs()) {
                return;
            } else if za.abs() < zb.abs() {
                Less
            } else {
                Greater
            };
            bump("checks");
            ensure!(
                (lt, le, gt, ge, cmp) == (want == Less, want != Greater, want == Greater, want != Less, Some(want)),
                "wrong-order",
                "T{t}: moduli of {za:?} and {zb:?}: < {lt}, <= {le}, > {gt}, >= {ge}, order {cmp:?}"
            );
        }
        _ => {}
    }
}

fn run_c14() {
    match choose(4) {
        0 => c14::<Cf32>(),
        1 => c14::<Cf64>(),
        2 => c14::<S32>(),
        _ => c14::<S64>(),
    }
}

// ---------------------------------------------------------------- activations

/// The functions of the enumeration, beside the trait of the numbers.
trait Direct: Elem {
    fn list(f: &renplex::act::ComplexActFunc, d: usize, v: &mut [Self]);
    fn one(f: &renplex::act::ComplexActFunc, d: usize, v: &Self) -> Self;
    fn func(f: &renplex::act::ComplexActFunc, d: usize, v: Self) -> Self;
}
macro_rules! direct {
    ($t:ident, $l0:ident, $l1:ident, $l2:ident, $o0:ident, $o1:ident, $o2:ident, $f0:ident, $f1:ident, $f2:ident) => {
        impl Direct for $t {
            fn list(f: &renplex::act::ComplexActFunc, d: usize, v: &mut [Self]) {
                match d {
                    0 => f.$l0(v),
                    1 => f.$l1(v),
                    _ => f.$l2(v),
                }
            }
            fn one(f: &renplex::act::ComplexActFunc, d: usize, v: &Self) -> Self {
                match d {
                    0 => f.$o0(v),
                    1 => f.$o1(v),
                    _ => f.$o2(v),
                }
            }
            fn func(f: &renplex::act::ComplexActFunc, d: usize, v: Self) -> Self {
                match d {
                    0 => f.$f0()(v),
                    1 => f.$f1()(v),
                    _ => f.$f2()(v),
                }
            }
        }
    };
}
direct!(Cf32, compute_cf32, compute_d_cf32, compute_d_conj_cf32, compute_val_cf32, compute_d_val_cf32, compute_d_conj_val_cf32, release_func_cf32, release_dfunc_cf32, release_dfunc_conj_cf32);
direct!(Cf64, compute_cf64, compute_d_cf64, compute_d_conj_cf64, compute_val_cf64, compute_d_val_cf64, compute_d_conj_val_cf64, release_func_cf64, release_dfunc_cf64, release_dfunc_conj_cf64);

struct Ask {
    act: Act,
    /// 0 value, 1 derivative, 2 conjugate derivative
    d: usize,
    form: usize,
    x: Vec<C>,
}

fn gen_arg<T: Elem>(rng: &mut Rng) -> C {
    let z = match rng.below(12) {
        0 => rnd::<T>(rng, 40.0),
        1 => rnd::<T>(rng, 200.0),
        2 => rnd::<T>(rng, 1e-3),
        3 => c(rng.below(9) as f64 - 4.0, rng.below(9) as f64 - 4.0),
        4 => c(rnd::<T>(rng, 2.0).re, 0.0),
        5 => c(0.0, rnd::<T>(rng, 2.0).im),
        6 => {
            // around the clamping of the sigmoid
            let k = [15.0, -15.0, 30.0, -30.0][rng.below(4) as usize];
            c(k + rnd::<T>(rng, 0.5).re, rnd::<T>(rng, 3.0).im)
        }
        7 | 8 => rnd::<T>(rng, 10.0),
        _ => rnd::<T>(rng, 2.0),
    };
    let (re, im) = T::mk(z.re, z.im).parts();
    c(re, im)
}

fn c15<T: Direct>() {
    let mut rng = Rng::drawn();
    let mut pool: Vec<C> = (0..if chance(1, 25) { range(9, 200) } else { range(2, 8) }).map(|_| gen_arg::<T>(&mut rng)).collect();
    for _ in 0..choose(4) {
        let z = vary::<T>(&mut rng, &[pool[0]])[0];
        pool.push(z);
    }
    trace(|| format!("{} {pool:?}", T::NAME));
    let few = choose(2) == 0;
    let favourite = pick(&ACTS);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..crew(2, 4) {
        let n = if chance(1, 20) { range(20, 80) } else { range(1, 10) };
        let asks: Vec<Ask> = (0..n)
            .map(|_| {
                let act = if few { favourite } else { ACTS[rng.below(7) as usize] };
                let form = rng.below(5) as usize;
                let len = match form {
                    0 | 1 => match rng.below(40) {
                        0 => 100 + rng.below(1000),
                        1 => 0,
                        2..=8 => 8 + rng.below(40),
                        _ => 1 + rng.below(8),
                    },
                    _ => 1,
                };
                let x = (0..len).map(|_| if rng.below(4) > 0 { pool[rng.below(pool.len() as u64) as usize] } else { gen_arg::<T>(&mut rng) }).collect();
                Ask { act, d: rng.below(3) as usize, form, x }
            })
            .collect();
        tasks.push(Box::new(move || {
            for a in &asks {
                activation::<T>(t, a);
            }
        }));
    }
    rt::set_preemption(pick(&[2u64, 1, 4, 10]), choose(2) == 0);
    rt::set_fine(2, 12_000);
    rt::run_tasks(tasks);
}

fn activation<T: Direct>(t: usize, a: &Ask) {
    hash_event(0x15, (t as u64) << 32 | (a.form as u64) << 8 | a.d as u64);
    let f = act_func(a.act);
    let mut v: Vec<T> = a.x.iter().map(|z| number(*z)).collect();
    let r = rt::sut(|| match (a.form, a.d) {
        (0, d) => T::list(&f, d, &mut v),
        (1, 0) => T::activate_mut(&mut v, &f),
        (1, 1) => T::d_activate_mut(&mut v, &f),
        (1, _) => T::d_conj_activate_mut(&mut v, &f),
        (2, d) => v[0] = T::one(&f, d, &v[0]),
        (3, d) => v[0] = T::func(&f, d, v[0]),
        (_, 0) => v[0] = v[0].activate(&f),
        (_, 1) => v[0] = v[0].d_activate(&f),
        _ => v[0] = v[0].d_conj_activate(&f),
    });
    if let Err(m) = r {
        // modulus division at zero has no value
        let zero = a.act == Act::ModZ && a.x.iter().any(|z| z.abs() == 0.0);
        ensure!(zero, "unexpected-refusal", "T{t}: {:?} (derivative {}) of {:?} failed: {m}", a.act, a.d, a.x);
        bump("refusals");
        return;
    }
    for (i, (x, g)) in a.x.iter().zip(&v).enumerate() {
        match a.act.reference(*x, a.d, T::EPS) {
            None => bump("not_judged"),
            Some(w) => {
                let what = || format!("{:?} (derivative {}, form {}) of {x:?}, number {i} of {}", a.act, a.d, a.form, a.x.len());
                close(t, &what, value(g), w.v, w.e)
            }
        }
    }
}

fn run_c15() {
    match choose(2) {
        0 => c15::<Cf32>(),
        _ => c15::<Cf64>(),
    }
}

// --------------------------------------------------------------------- losses

enum Q {
    Loss { kind: Loss, d: bool, sh: Sh, y: Vec<C>, p: Vec<C> },
    Mixed { kind: Loss, d: bool, n: usize, maps_first: bool },
    Hot { n: usize, i: usize, real: bool },
}

fn gen_shape(rng: &mut Rng) -> Sh {
    let n = match rng.below(40) {
        0 => 100 + rng.below(1000),
        1..=4 => 10 + rng.below(60),
        _ => 1 + rng.below(9),
    } as usize;
    match rng.below(3) {
        0 => Sh::M(1 + rng.below(4) as usize, 1 + rng.below(4) as usize, 1 + n / 4),
        _ => Sh::S(n),
    }
}

fn c19<T: Elem>() {
    let mut rng = Rng::drawn();
    let shapes: Vec<Sh> = (0..if chance(1, 15) { range(3, 9) } else { range(1, 2) }).map(|_| gen_shape(&mut rng)).collect();
    // values per shape: targets and predictions
    let sets: Vec<Vec<Vec<C>>> = shapes
        .iter()
        .map(|s| {
            let n = s.len();
            let mut v: Vec<Vec<C>> = vec![];
            for k in 0..range(2, 5) {
                v.push(match rng.below(5) {
                    0 if k > 0 => vary::<T>(&mut rng, &v[0]),
                    1 => {
                        let hot = rng.below(n as u64) as usize;
                        (0..n).map(|i| c((i == hot) as u8 as f64, 0.0)).collect()
                    }
                    2 => (0..n).map(|_| rnd::<T>(&mut rng, 3.0)).collect(),
                    _ => (0..n).map(|_| rnd::<T>(&mut rng, 1.0)).collect(),
                });
            }
            v
        })
        .collect();
    trace(|| format!("{} {shapes:?}", T::NAME));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..crew(2, 4) {
        let n = if chance(1, 20) { range(20, 80) } else { range(1, 10) };
        let qs: Vec<Q> = (0..n)
            .map(|_| {
                let kind = if rng.below(3) > 0 { Loss::MeanSquare } else { Loss::CrossEntropy };
                let d = rng.below(2) == 0;
                match rng.below(10) {
                    0 => Q::Mixed { kind, d, n: 1 + rng.below(6) as usize, maps_first: rng.below(2) == 0 },
                    1 | 2 => {
                        let n = if rng.below(12) == 0 { 10 + rng.below(600) } else { rng.below(12) };
                        let i = if rng.below(4) == 0 { n + rng.below(4) } else { rng.below(n.max(1)) };
                        Q::Hot { n: n as usize, i: i as usize, real: rng.below(3) == 0 }
                    }
                    _ => {
                        let s = rng.below(shapes.len() as u64) as usize;
                        let a = rng.below(sets[s].len() as u64) as usize;
                        let b = rng.below(sets[s].len() as u64) as usize;
                        Q::Loss { kind, d, sh: shapes[s], y: sets[s][a].clone(), p: sets[s][b].clone() }
                    }
                }
            })
            .collect();
        tasks.push(Box::new(move || {
            for q in &qs {
                question::<T>(t, q);
            }
        }));
    }
    rt::set_preemption(pick(&[2u64, 1, 4, 10]), choose(2) == 0);
    rt::set_fine(2, 12_000);
    rt::run_tasks(tasks);
}

fn loss_func(l: Loss) -> ComplexLossFunc {
    match l {
        Loss::MeanSquare => ComplexLossFunc::MeanSquare,
        Loss::CrossEntropy => ComplexLossFunc::NormCrossEntropy,
    }
}

fn question<T: Elem>(t: usize, q: &Q) {
    match q {
        Q::Loss { kind, d, sh, y, p } => {
            hash_event(0x19, (t as u64) << 32 | *d as u64);
            let (iy, ip): (IOType<T>, IOType<T>) = (io_of(*sh, y), io_of(*sh, p));
            let f = loss_func(*kind);
            let what = || format!("{kind:?} over {sh:?}, target {y:?}, prediction {p:?}");
            if *d {
                let r = rt::sut(|| T::d_loss(&iy, &ip, &f));
                let Ok(Ok(g)) = r else { fail("unexpected-refusal", format!("T{t}: derivative of {} failed: {:?}", what(), r.err())) };
                bump("checks");
                if *kind == Loss::MeanSquare {
                    ensure!(g.len() == p.len(), "wrong-length", "T{t}: derivative of {} has {} values", what(), g.len());
                    for (i, ((g, y), p)) in g.iter().zip(y).zip(p).enumerate() {
                        let w = (*p - *y).conj();
                        let name = || format!("derivative {i} of {}", what());
                        close(t, &name, value(g), w, 2.0 * T::EPS * w.abs());
                    }
                }
            } else {
                let r = rt::sut(|| T::loss(&iy, &ip, &f));
                let Ok(Ok(g)) = r else { fail("unexpected-refusal", format!("T{t}: {} failed: {:?}", what(), r.err())) };
                let out: Vec<V> = p.iter().map(|v| V { v: *v, e: 0.0 }).collect();
                if let Some((w, e)) = model::loss(*kind, &out, y, T::EPS) {
                    close(t, &what, c(T::pval(g), 0.0), c(w, 0.0), 8.0 * e + 4.0 * T::EPS * w.abs() + 1e-300);
                }
            }
            ensure!(flat(&iy) == *y && flat(&ip) == *p, "operand-changed", "T{t}: {} changed its operands", what());
        }
        Q::Mixed { kind, d, n, maps_first } => {
            let x = vec![c(1.0, 0.0); *n];
            let (a, b): (IOType<T>, IOType<T>) = (io_of(Sh::M(1, 1, *n), &x), io_of(Sh::S(*n), &x));
            let (y, p) = if *maps_first { (a, b) } else { (b, a) };
            let f = loss_func(*kind);
            let r = if *d { rt::sut(|| T::d_loss(&y, &p, &f).is_err()) } else { rt::sut(|| T::loss(&y, &p, &f).is_err()) };
            bump("refusals");
            ensure!(r == Ok(true), "not-refused", "T{t}: {kind:?} between a vector and a feature map of {n} values: {r:?}");
        }
        Q::Hot { n, i, real } => {
            let r = if *real {
                rt::sut(|| <T::Precision as Real>::gen_pred(*n, *i, &PredictModel::Sparse).ok().map(|v| v.into_iter().map(|x| c(T::pval(x), 0.0)).collect::<Vec<_>>()))
            } else {
                rt::sut(|| T::gen_pred(*n, *i, &PredictModel::Sparse).ok().map(|v| v.iter().map(value).collect::<Vec<_>>()))
            };
            let want = (i < n).then(|| (0..*n).map(|k| c((k == *i) as u8 as f64, 0.0)).collect::<Vec<_>>());
            bump("checks");
            ensure!(r == Ok(want), "wrong-target", "T{t}: the target for class {i} of {n} is {r:?}");
        }
    }
}

fn run_c19() {
    match choose(4) {
        0 => c19::<Cf32>(),
        1 => c19::<Cf64>(),
        2 => c19::<S32>(),
        _ => c19::<S64>(),
    }
}
