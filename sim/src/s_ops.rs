//! C16: matrix and slice operations equal their definitions, whoever else computes.

use crate::choice::{chance, choose, crew, pick, range, Rng};
use crate::elem::{arm, fault_point, Elem, S32, S64};
use crate::ensure;
use crate::net::Ptr;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::Prop;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use renplex::math::BasicOperations;

pub const C16: Prop = Prop {
    id: "C16",
    run: run_c16,
    quick: 150000,
    thorough: 1500000,
    rule: "Two to four threads apply drawn operations to matrices they share and to copies of their own, in a drawn interleaving; block reductions get user functions that fail at a chosen call or use matrix operations themselves, and some operands do not fit. Elements are whole numbers small enough for exact arithmetic, so each result is compared exactly with one computed from the definition.",
    real: &["renplex matrix and slice operations, complex arithmetic (compiled from /repo)", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream", "element type wrapper S32/S64: delegates to Cf32/Cf64, adds preemption points"],
    assume: &["Matrices, kernels and blocks have at least one row and column."],
};

trait Num: BasicOperations<Self> + PartialEq {
    fn of(z: Z) -> Self;
    fn z(&self) -> Z;
    /// imaginary parts are dropped
    const REAL: bool;
}

macro_rules! complex {
    ($($t:ty),*) => { $(
        impl Num for $t {
            const REAL: bool = false;
            fn of(z: Z) -> Self {
                <$t as Elem>::mk(z.0 as f64, z.1 as f64)
            }
            fn z(&self) -> Z {
                whole(self.parts())
            }
        }
    )* };
}
complex!(S32, S64, Cf32, Cf64);
macro_rules! real {
    ($($t:ty),*) => { $(
        impl Num for $t {
            const REAL: bool = true;
            fn of(z: Z) -> Self {
                z.0 as $t
            }
            fn z(&self) -> Z {
                whole((*self as f64, 0.0))
            }
        }
    )* };
}
real!(f32, f64);

const ODD: i64 = i64::MIN / 4;

fn whole((a, b): (f64, f64)) -> Z {
    let f = |x: f64| if x.fract() == 0.0 && x.abs() < 1e15 { x as i64 } else { ODD };
    Z(f(a), f(b))
}

/// Whole complex number.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Z(i64, i64);
impl Z {
    fn add(self, o: Z) -> Z {
        Z(self.0 + o.0, self.1 + o.1)
    }
    fn mul(self, o: Z) -> Z {
        Z(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}

#[derive(Clone, PartialEq, Debug)]
struct M {
    h: usize,
    w: usize,
    v: Vec<Z>,
}

impl M {
    fn at(&self, i: usize, j: usize) -> Z {
        self.v[i * self.w + j]
    }
    fn build(h: usize, w: usize, f: impl Fn(usize, usize) -> Z) -> M {
        M { h, w, v: (0..h * w).map(|k| f(k / w, k % w)).collect() }
    }
    fn mat<T: Num>(&self) -> Matrix<T> {
        Matrix::from_body(self.v.iter().map(|z| T::of(*z)).collect(), [self.h, self.w])
    }
    fn is<T: Num>(&self, m: &Matrix<T>) -> bool {
        m.get_shape() == [self.h, self.w] && m.get_body().len() == self.v.len() && m.get_body().iter().zip(&self.v).all(|(a, b)| a.z() == *b)
    }
    fn conv(&self, k: &M) -> Option<M> {
        if k.h > self.h || k.w > self.w {
            return None;
        }
        Some(M::build(self.h + 1 - k.h, self.w + 1 - k.w, |i, j| {
            let mut s = Z(0, 0);
            for u in 0..k.h {
                for v in 0..k.w {
                    s = s.add(self.at(i + u, j + v).mul(k.at(u, v)));
                }
            }
            s
        }))
    }
    fn pad(&self, p: usize, q: usize) -> M {
        M::build(self.h + 2 * p, self.w + 2 * q, |i, j| {
            if i >= p && i < p + self.h && j >= q && j < q + self.w {
                self.at(i - p, j - q)
            } else {
                Z(0, 0)
            }
        })
    }
    fn flip(&self) -> M {
        M::build(self.h, self.w, |i, j| self.at(self.h - 1 - i, self.w - 1 - j))
    }
    fn reduce(&self, b: [usize; 2], f: impl Fn(&[Z]) -> Z) -> Option<M> {
        if self.h % b[0] != 0 || self.w % b[1] != 0 {
            return None;
        }
        Some(M::build(self.h / b[0], self.w / b[1], |i, j| {
            let mut block = vec![];
            for u in 0..b[0] {
                for v in 0..b[1] {
                    block.push(self.at(i * b[0] + u, j * b[1] + v));
                }
            }
            f(&block)
        }))
    }
    fn up(&self, b: [usize; 2], k: &M) -> Option<M> {
        if k.h % 2 == 0 || k.w % 2 == 0 {
            return None;
        }
        let (cy, cx) = ((b[0] - 1) / 2, (b[1] - 1) / 2);
        let wide = M::build(self.h * b[0], self.w * b[1], |i, j| {
            if i % b[0] == cy && j % b[1] == cx {
                self.at(i / b[0], j / b[1])
            } else {
                Z(0, 0)
            }
        });
        wide.pad((k.h - 1) / 2, (k.w - 1) / 2).conv(k)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Conv(usize, usize),
    Pad(usize, usize, usize),
    Flip(usize),
    /// matrix, block, function, failing call
    Reduce(usize, [usize; 2], usize, u64),
    Up(usize, [usize; 2], usize),
    Add(usize, usize),
    AddNumber(usize, Z),
    Scale(usize, Z),
    /// the matrix times 16, divided by a power of two
    Divide(usize, Z, bool),
    /// with a matrix nothing was ever put into, on the left or on the right
    AddEmpty(usize, bool),
    Vector(usize, Vec<Z>, bool),
    Slices(usize, Vec<Z>, Vec<Z>),
    Shape(usize, [usize; 2]),
}

fn z(rng: &mut Rng, real: bool) -> Z {
    let mut f = || rng.below(13) as i64 - 6;
    Z(f(), if real { 0 } else { f() })
}

fn gen_m(rng: &mut Rng, real: bool, h: usize, w: usize) -> M {
    let plain = rng.below(6);
    M {
        h,
        w,
        v: (0..h * w)
            .map(|k| match plain {
                // neighbours differ
                0 => Z((k % 53) as i64 + 1, if real { 0 } else { -((k % 53) as i64) }),
                1 if rng.below(2) == 0 => Z(0, 0),
                _ => z(rng, real),
            })
            .collect(),
    }
}

fn run_c16() {
    match choose(8) {
        0 | 1 => c16::<S64>(),
        2 | 3 => c16::<S32>(),
        4 => c16::<Cf32>(),
        5 => c16::<Cf64>(),
        6 => c16::<f32>(),
        _ => c16::<f64>(),
    }
}

fn gen_op<T: Num>(rng: &mut Rng, ms: &[M]) -> Op {
    let a = choose(ms.len());
    let b = choose(ms.len());
    let real = T::REAL;
    let m = &ms[a];
    match choose(15) {
        13 => {
            let n = pick(&[1i64, 2, 4, -2, -1, 8]);
            Op::Divide(a, if real || choose(2) == 0 { Z(n, 0) } else { Z(0, n) }, choose(2) == 0)
        }
        14 => Op::AddEmpty(a, choose(2) == 0),
        0 | 1 | 7 if m.v.len() * ms[b].v.len() > 100_000 => Op::Flip(a),
        0 | 1 => Op::Conv(a, b),
        2 if chance(1, 6) => Op::Pad(a, range(0, 12), range(0, 12)),
        2 => Op::Pad(a, choose(4), choose(4)),
        3 => Op::Flip(a),
        4..=6 => {
            let block = |n: usize| if chance(1, 6) { range(1, 5) } else { pick(&(1..=n).filter(|d| n % d == 0).collect::<Vec<_>>()) };
            let bl = [block(m.h), block(m.w)];
            let fault = if chance(1, 4) { range(1, 6) as u64 } else { 0 };
            Op::Reduce(a, bl, choose(6), fault)
        }
        7 if chance(1, 6) && m.v.len() <= 25 && ms[b].v.len() <= 25 => Op::Up(a, [range(1, 10), range(1, 10)], b),
        7 => Op::Up(a, [range(1, 4), range(1, 4)], b),
        8 => Op::Add(a, b),
        9 => {
            let n = z(rng, real);
            if choose(2) == 0 {
                Op::AddNumber(a, n)
            } else {
                Op::Scale(a, n)
            }
        }
        10 => {
            let n = if chance(1, 5) { range(1, 9) } else { m.w };
            Op::Vector(a, (0..n).map(|_| z(rng, real)).collect(), choose(2) == 0)
        }
        11 => {
            let n = match choose(60) {
                0 => pick(&[513usize, 784, 1025, 257]),
                1 | 2 => range(50, 300),
                _ => range(1, 9),
            };
            let k = if chance(1, 4) { n + 1 } else { n };
            Op::Slices(choose(6), (0..n).map(|_| z(rng, real)).collect(), (0..k).map(|_| z(rng, real)).collect())
        }
        _ => Op::Shape(a, if choose(3) == 0 { [m.h, m.w + 1] } else { [m.w, m.h] }),
    }
}

/// The user functions for block reductions: definition and implementation.
fn block_def(kind: usize, b: &[Z]) -> Z {
    match kind {
        0 => b.iter().fold(Z(0, 0), |a, x| a.add(*x)),
        1 => b[0],
        2 => b[b.len() - 1],
        3 => b.iter().enumerate().fold(Z(0, 0), |a, (i, x)| a.add(x.mul(Z((i % 7) as i64 + 1, 0)))),
        4 => Z(b.len() as i64, 0),
        _ => b.iter().fold(Z(0, 0), |a, x| a.add(*x)).mul(Z(3, 0)),
    }
}

fn block_fn<T: Num>(kind: usize, b: &[T]) -> T {
    fault_point("block function");
    let sum = |b: &[T]| b.iter().fold(T::default(), |a, x| a + *x);
    match kind {
        0 => sum(b),
        1 => b[0],
        2 => b[b.len() - 1],
        3 => b.iter().enumerate().fold(T::default(), |a, (i, x)| a + *x * T::of(Z((i % 7) as i64 + 1, 0))),
        4 => T::of(Z(b.len() as i64, 0)),
        _ => {
            // uses the library itself
            let m = b.to_matrix([1, b.len()]).unwrap();
            let k = Matrix::from_body(vec![T::of(Z(3, 0)); b.len()], [1, b.len()]);
            let c = m.convolution(&k).unwrap();
            let r = c.block_reduce(&[1, 1], |x| x[0]).unwrap();
            *r.elm(0, 0).unwrap()
        }
    }
}

fn c16<T: Num>() {
    let mut rng = Rng::drawn();
    let n = range(1, 4);
    let mut ms: Vec<M> = vec![];
    for _ in 0..n {
        let (h, w) = match choose(40) {
            0 if chance(1, 3) => {
                let long = pick(&[257usize, 65, 100, 129, 300, 513, 784, 1025]);
                let short = range(1, 3);
                if choose(3) > 0 {
                    (short, long)
                } else {
                    (long, short)
                }
            }
            0 => (range(1, 40), range(1, 40)),
            1..=8 => (range(1, 14), range(1, 14)),
            // a kernel
            9..=18 => (pick(&[1usize, 3, 5]), pick(&[1usize, 3, 5])),
            _ => (range(1, 7), range(1, 7)),
        };
        ms.push(gen_m(&mut rng, T::REAL, h, w));
    }
    let mats: Vec<Matrix<T>> = ms.iter().map(|m| m.mat()).collect();
    let ms: &'static Vec<M> = Box::leak(Box::new(ms));
    let shared = Ptr::new(mats);
    trace(|| format!("{} {}", std::any::type_name::<T>(), ms.iter().map(|m| format!("{}x{}", m.h, m.w)).collect::<Vec<_>>().join(", ")));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..crew(2, 4) {
        let calls = if chance(1, 20) { range(7, 60) } else { range(1, 6) };
        let ops: Vec<Op> = (0..calls).map(|_| gen_op::<T>(&mut rng, ms)).collect();
        tasks.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                apply::<T>(t, i, op, ms, shared.get());
            }
        }));
    }
    rt::set_preemption(pick(&[8u64, 2, 4, 30, 100]), choose(2) == 0);
    rt::run_tasks(tasks);
    rt::solo(move || {
        for (m, x) in ms.iter().zip(shared.get().iter()) {
            ensure!(m.is(x), "operand-changed", "a shared matrix was changed: {x:?} should be {m:?}");
        }
    });
}

fn apply<T: Num>(t: usize, i: usize, op: &Op, ms: &[M], mats: &[Matrix<T>]) {
    let mut left = None;
    // result: None if refused
    let (got, want): (Option<Matrix<T>>, Option<M>) = match op {
        Op::Conv(a, b) => (rt::sut(|| mats[*a].convolution(&mats[*b]).ok()).ok().flatten(), ms[*a].conv(&ms[*b])),
        Op::Pad(a, p, q) => {
            let m = mats[*a].clone();
            (rt::sut(|| m.pad((*p, *q))).ok(), Some(ms[*a].pad(*p, *q)))
        }
        Op::Flip(a) => (rt::sut(|| mats[*a].flip().ok()).ok().flatten(), Some(ms[*a].flip())),
        Op::Reduce(a, b, f, fault) => {
            arm(*fault);
            let r = rt::sut(|| mats[*a].block_reduce(b, |x: &[T]| block_fn(*f, x)).ok()).ok().flatten();
            let hit = crate::elem::fault_hit();
            arm(0);
            if hit {
                bump("failed_calls");
                ensure!(r.is_none(), "failure-ignored", "a block reduction whose function failed succeeded");
                (None, None)
            } else {
                (r, ms[*a].reduce(*b, |x| block_def(*f, x)))
            }
        }
        Op::Up(a, b, k) => (rt::sut(|| mats[*a].fractional_upsampling(b, &mats[*k]).ok()).ok().flatten(), ms[*a].up(*b, &ms[*k])),
        Op::Add(a, b) => {
            let mut m = mats[*a].clone();
            let ok = rt::sut(|| m.add_mut(&mats[*b]).is_ok()) == Ok(true);
            let (x, y) = (&ms[*a], &ms[*b]);
            let fits = x.h == y.h && x.w == y.w;
            left = (!ok).then(|| x.is(&m));
            (ok.then_some(m), fits.then(|| M { v: x.v.iter().zip(&y.v).map(|(a, b)| a.add(*b)).collect(), ..x.clone() }))
        }
        Op::AddNumber(a, n) => {
            let mut m = mats[*a].clone();
            let ok = rt::sut(|| m.add_mut_scalar(T::of(*n)).is_ok()) == Ok(true);
            let x = &ms[*a];
            (ok.then_some(m), Some(M { v: x.v.iter().map(|z| z.add(*n)).collect(), ..x.clone() }))
        }
        Op::Scale(a, n) => {
            let mut m = mats[*a].clone();
            let ok = rt::sut(|| m.mul_mut_scalar(T::of(*n)).is_ok()) == Ok(true);
            let x = &ms[*a];
            (ok.then_some(m), Some(M { v: x.v.iter().map(|z| z.mul(*n)).collect(), ..x.clone() }))
        }
        Op::Divide(a, n, slice) => {
            let big = M { v: ms[*a].v.iter().map(|z| z.mul(Z(16, 0))).collect(), ..ms[*a].clone() };
            let mut m: Matrix<T> = big.mat();
            let ok = rt::sut(|| if *slice { SliceOps::div_mut_scalar(m.get_body_as_mut(), T::of(*n)).is_ok() } else { m.div_mut_scalar(T::of(*n)).is_ok() }) == Ok(true);
            // 16 / n
            let k = if n.1 == 0 { Z(16 / n.0, 0) } else { Z(0, -16 / n.1) };
            (ok.then_some(m), Some(M { v: ms[*a].v.iter().map(|z| z.mul(k)).collect(), ..ms[*a].clone() }))
        }
        Op::AddEmpty(a, left) => {
            let mut m = if *left { Matrix::new() } else { mats[*a].clone() };
            let ok = rt::sut(|| if *left { m.add_mut(&mats[*a]).is_ok() } else { m.add_mut(&Matrix::new()).is_ok() }) == Ok(true);
            (ok.then_some(m), Some(ms[*a].clone()))
        }
        Op::Vector(a, v, slice) => {
            let x: Vec<T> = v.iter().map(|z| T::of(*z)).collect();
            let r = if *slice { rt::sut(|| mats[*a].mul_slice(&x).ok()) } else { rt::sut(|| mats[*a].mul_vec(x).ok()) };
            let m = &ms[*a];
            let want = (m.w == v.len()).then(|| M::build(1, m.h, |_, i| (0..m.w).fold(Z(0, 0), |s, j| s.add(m.at(i, j).mul(v[j])))));
            (r.ok().flatten().map(|v| row(v)), want)
        }
        Op::Slices(kind, a, b) => {
            let mut x: Vec<T> = a.iter().map(|z| T::of(*z)).collect();
            let y: Vec<T> = b.iter().map(|z| T::of(*z)).collect();
            let fits = a.len() == b.len();
            let pair = |f: fn(Z, Z) -> Z| fits.then(|| M { h: 1, w: a.len(), v: a.iter().zip(b).map(|(p, q)| f(*p, *q)).collect() });
            let before = a.clone();
            let (r, want) = match kind {
                0 => (rt::sut(|| x[..].add_slice_mut(&y).is_ok()).map(|ok| ok.then(|| x.clone())), pair(Z::add)),
                1 => (rt::sut(|| x[..].mul_slice_mut(&y).is_ok()).map(|ok| ok.then(|| x.clone())), pair(Z::mul)),
                2 => (rt::sut(|| x[..].add_slice(&y).ok()), pair(Z::add)),
                3 => (rt::sut(|| SliceOps::mul_slice(&x[..], &y).ok()), pair(Z::mul)),
                4 => (rt::sut(|| SliceOps::mul_mut_scalar(&mut x[..], y[0]).is_ok()).map(|ok| ok.then(|| x.clone())), {
                    Some(M { h: 1, w: a.len(), v: a.iter().map(|p| p.mul(b[0])).collect() })
                }),
                _ if fits => (rt::sut(|| Some(vec![x[..].scalar_prod(&y)])), {
                    Some(M { h: 1, w: 1, v: vec![a.iter().zip(b).fold(Z(0, 0), |s, (p, q)| s.add(p.mul(*q)))] })
                }),
                _ => return,
            };
            let r = r.ok().flatten();
            left = r.is_none().then(|| x.iter().map(|e| e.z()).collect::<Vec<_>>() == before);
            (r.map(|v| row(v)), want)
        }
        Op::Shape(a, s) => {
            let m = &ms[*a];
            let r = rt::sut(|| mats[*a].get_body().to_matrix(*s).ok()).ok().flatten();
            (r, (s[0] * s[1] == m.v.len()).then(|| M { h: s[0], w: s[1], v: m.v.clone() }))
        }
    };
    hash_event(0x16, (t as u64) << 32 | (i as u64) << 1 | got.is_some() as u64);
    bump("checks");
    bump(if got.is_some() { "results" } else { "refusals" });
    let dims = || ms.iter().map(|m| format!("{}x{}", m.h, m.w)).collect::<Vec<_>>().join(", ");
    ensure!(left != Some(false), "changed-by-refusal", "T{t}: {op:?} on {} was refused and changed its operand", dims());
    match (&got, &want) {
        (Some(g), Some(w)) => {
            if !w.is(g) {
                fail("wrong-result", format!("T{t}: {op:?} on {} gave {:?} {:?} instead of {w:?}", dims(), g.get_shape(), g.get_body()));
            }
        }
        (None, None) => {}
        (Some(_), None) => fail("wrong-decision", format!("T{t}: {op:?} on {} was accepted", dims())),
        (None, Some(_)) => fail("wrong-decision", format!("T{t}: {op:?} on {} was refused", dims())),
    }
}

fn row<T>(v: Vec<T>) -> Matrix<T> {
    let n = v.len();
    Matrix::from_body(v, [1, n])
}
