//! C18: a data set is the sequence of points added to it.

use crate::choice::{chance, choose, choose64, pick, range, Rng};
use crate::ensure;
use crate::net::Ptr;
use crate::rt::{self, bump, fail, hash_event, trace};
use crate::Prop;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

pub const C18: Prop = Prop {
    id: "C18",
    run: run_c18,
    quick: 80000,
    thorough: 2000000,
    rule: "One to three threads each apply a drawn history (points added, also equal ones and ones of changing shapes, copies made, points asked beyond the end) to their own data set and read one they share; after every step the count, every point, both iterators from both ends and, at the end, the consuming iterators are compared with a plain list, bit for bit.",
    real: &["renplex data set and value containers (compiled from /repo)", "OS threads"],
    stub: &["thread scheduling: baton scheduler driven by the choice stream (preemption at allocations)"],
    assume: &[],
};

trait Num: Copy + Send + Sync + 'static {
    fn mk(a: u64) -> Self;
    fn bits(&self) -> u64;
}
impl Num for f32 {
    fn mk(a: u64) -> Self {
        f32::from_bits(a as u32)
    }
    fn bits(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Num for f64 {
    fn mk(a: u64) -> Self {
        f64::from_bits(a)
    }
    fn bits(&self) -> u64 {
        self.to_bits()
    }
}
impl Num for Cf32 {
    fn mk(a: u64) -> Self {
        Cf32 { x: f32::from_bits(a as u32), y: f32::from_bits((a >> 32) as u32) }
    }
    fn bits(&self) -> u64 {
        self.x.to_bits() as u64 | (self.y.to_bits() as u64) << 32
    }
}
impl Num for Cf64 {
    fn mk(a: u64) -> Self {
        Cf64 { x: f64::from_bits(a), y: f64::from_bits(!a) }
    }
    fn bits(&self) -> u64 {
        self.x.to_bits() ^ (!self.y.to_bits()).rotate_left(1)
    }
}

/// What a value is made of.
#[derive(Clone, PartialEq, Debug)]
enum Val {
    Vector(Vec<u64>),
    Maps(Vec<([usize; 2], Vec<u64>)>),
}

fn raw(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 => 0,
        1 => 0x8000_0000_8000_0000,
        2 => f64::NAN.to_bits(),
        3 => 0x7F80_0000_7F80_0000,
        4 => 0x3F80_0000_3F80_0000,
        _ => rng.next(),
    }
}

fn gen_val(rng: &mut Rng, maps: bool) -> Val {
    if maps {
        let (h, w) = (1 + rng.below(4) as usize, 1 + rng.below(4) as usize);
        let (n, h, w) = match rng.below(40) {
            0 => (5 + rng.below(40), h, w),
            1 => (1, 20 + rng.below(20) as usize, 20 + rng.below(20) as usize),
            _ => (rng.below(4), h, w),
        };
        Val::Maps((0..n).map(|_| ([h, w], (0..h * w).map(|_| raw(rng)).collect())).collect())
    } else {
        let n = match rng.below(40) {
            0 => 100 + rng.below(1000),
            1 => 7 + rng.below(60),
            _ => rng.below(7),
        };
        Val::Vector((0..n).map(|_| raw(rng)).collect())
    }
}

fn make<T: Num>(v: &Val) -> IOType<T> {
    match v {
        Val::Vector(x) => IOType::Scalar(x.iter().map(|a| T::mk(*a)).collect()),
        Val::Maps(m) => IOType::Matrix(m.iter().map(|(s, x)| Matrix::from_body(x.iter().map(|a| T::mk(*a)).collect(), *s)).collect()),
    }
}

/// The same value as `v`, bit for bit?
fn same<T: Num>(io: &IOType<T>, v: &Val) -> bool {
    let eq = |x: &[T], y: &[u64]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.bits() == T::mk(*b).bits());
    match (io, v) {
        (IOType::Scalar(x), Val::Vector(y)) => eq(x, y),
        (IOType::Matrix(m), Val::Maps(k)) => {
            m.len() == k.len() && m.iter().zip(k).all(|(m, (s, y))| m.get_shape() == s && eq(m.get_body(), y))
        }
        _ => false,
    }
}

fn run_c18() {
    match choose(6) {
        0 => c18::<f32, f32>(),
        1 => c18::<f64, f64>(),
        2 => c18::<Cf32, Cf32>(),
        3 => c18::<Cf64, Cf64>(),
        4 => c18::<f32, Cf64>(),
        _ => c18::<Cf32, f64>(),
    }
}

type Points = Vec<(Val, Val)>;

fn c18<B: Num, T: Num>() {
    let k = if chance(1, 40) { range(4, 24) } else { pick(&[1usize, 1, 2, 3]) };
    let mut rng = Rng::drawn();
    let mut points: Points = vec![];
    let mut shared: Dataset<B, T> = Dataset::new();
    let big = chance(1, 40);
    for _ in 0..if big { range(100, 3000) } else { range(0, 9) } {
        let p = next_point(&mut rng, &points);
        shared.add_point((make(&p.0), make(&p.1)));
        points.push(p);
    }
    let shared = Ptr::new((shared, points));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for t in 0..k {
        let n = match choose(60) {
            0 => range(200, 2500),
            1..=4 => range(15, 90),
            _ => range(1, 12),
        };
        let seed = choose64(1 << 40);
        let glance = choose(3);
        trace(|| format!("T{t}: {n} steps, seed {seed}, {glance} looks at the shared data"));
        tasks.push(Box::new(move || {
            history::<B, T>(t, n, Rng(seed));
            for _ in 0..glance {
                read_all(&shared.get().0, &shared.get().1, &mut Rng(seed), "shared data");
            }
        }));
    }
    rt::set_preemption(pick(&[4u64, 1, 2, 15]), true);
    rt::run_tasks(tasks);
    rt::solo(move || read_all(&shared.get().0, &shared.get().1, &mut Rng(5), "shared data in the end"));
}

/// A new point, an equal one, or one with a part of an earlier one.
fn next_point(rng: &mut Rng, seen: &[(Val, Val)]) -> (Val, Val) {
    let maps = rng.below(3) == 0;
    let new = (gen_val(rng, maps), gen_val(rng, false));
    if seen.is_empty() {
        return new;
    }
    let i = match rng.below(3) {
        0 => seen.len() - 1,
        1 => 0,
        _ => rng.below(seen.len() as u64) as usize,
    };
    match rng.below(8) {
        0 => seen[i].clone(),
        1 => (seen[i].0.clone(), new.1),
        2 => (new.0, seen[i].1.clone()),
        3 => (seen[i].1.clone(), seen[i].0.clone()),
        _ => new,
    }
}

fn history<B: Num, T: Num>(t: usize, n: usize, mut rng: Rng) {
    let mut d: Dataset<B, T> = Dataset::new();
    let mut pts: Points = vec![];
    let mut copies: Vec<(Dataset<B, T>, Points)> = vec![];
    read_all(&d, &pts, &mut rng, "new data set");
    for i in 0..n {
        let op = rng.below(10);
        hash_event(0x18, (t as u64) << 32 | (i as u64) << 8 | op);
        match op {
            0 if copies.len() < 3 => {
                let c = rt::sut(|| d.clone()).unwrap_or_else(|e| fail("failed", format!("copying failed: {e}")));
                copies.push((c, pts.clone()));
                bump("copies");
            }
            1 => {
                let beyond = pts.len() + rng.below(3) as usize;
                let r = rt::sut(|| {
                    d.get_point(beyond);
                });
                ensure!(r.is_err(), "phantom-point", "point {beyond} of {} was delivered", pts.len());
                bump("refusals");
            }
            _ => {
                let p = next_point(&mut rng, &pts);
                let given = (make(&p.0), make(&p.1));
                let r = rt::sut(|| d.add_point(given));
                ensure!(r.is_ok(), "failed", "adding point {i} failed: {r:?}");
                pts.push(p);
                bump("points");
            }
        }
        // long histories are not read in full each time
        if n < 100 || i % 97 == 0 {
            read_all(&d, &pts, &mut rng, "after a step");
        } else {
            read_some(&d, &pts, &mut rng);
        }
    }
    read_all(&d, &pts, &mut rng, "in the end");
    for (c, p) in copies {
        read_all(&c, &p, &mut rng, "copy made earlier");
        consume(c, &p, &mut rng);
    }
    consume(d, &pts, &mut rng);
}

fn check<B: Num, T: Num>(x: &IOType<B>, y: &IOType<T>, p: &(Val, Val), i: usize, what: &str) {
    if !same(x, &p.0) {
        fail("wrong-point", format!("{what}: input of point {i} is not {:?}", p.0));
    }
    if !same(y, &p.1) {
        fail("wrong-point", format!("{what}: target of point {i} is not {:?}", p.1));
    }
}

fn read_some<B: Num, T: Num>(d: &Dataset<B, T>, pts: &Points, rng: &mut Rng) {
    let n = rt::sut(|| d.get_n_points());
    ensure!(n == Ok(pts.len()), "wrong-count", "{n:?} points instead of {}", pts.len());
    if let Some(i) = pts.len().checked_sub(1) {
        for i in [i, rng.below(pts.len() as u64) as usize] {
            let (x, y) = rt::sut(|| d.get_point(i)).unwrap_or_else(|e| fail("failed", format!("point {i} cannot be read: {e}")));
            check(x, y, &pts[i], i, "lookup");
        }
    }
}

fn read_all<B: Num, T: Num>(d: &Dataset<B, T>, pts: &Points, rng: &mut Rng, what: &str) {
    bump("checks");
    read_some(d, pts, rng);
    let lost = |e: String| -> ! { fail("failed", format!("{what}: reading failed: {e}")) };
    for (i, p) in pts.iter().enumerate() {
        let (x, y) = rt::sut(|| d.get_point(i)).unwrap_or_else(|e| lost(e));
        check(x, y, p, i, what);
        parts(x, &p.0, what);
        parts(y, &p.1, what);
    }
    let (mut xs, mut ys) = rt::sut(|| d.points_as_iter()).unwrap_or_else(|e| lost(e));
    ensure!(xs.len() == pts.len() && ys.len() == pts.len(), "wrong-count", "{what}: iterators of {} inputs and {} targets for {} points", xs.len(), ys.len(), pts.len());
    if rng.below(2) == 0 {
        for (i, p) in pts.iter().enumerate() {
            let (Some(x), Some(y)) = (xs.next(), ys.next()) else { fail("wrong-count", format!("{what}: iteration ends at {i}")) };
            check(x, y, p, i, "iteration");
        }
        ensure!(xs.next().is_none() && ys.next().is_none(), "phantom-point", "{what}: iteration goes on");
    } else {
        for (i, p) in pts.iter().enumerate().rev() {
            let (Some(x), Some(y)) = (xs.next_back(), ys.next_back()) else { fail("wrong-count", format!("{what}: iteration ends at {i}")) };
            check(x, y, p, i, "backward iteration");
        }
    }
}

/// The ways to get at the content of one value.
fn parts<T: Num>(io: &IOType<T>, v: &Val, what: &str) {
    let bits = |x: &[T]| x.iter().map(|a| a.bits()).collect::<Vec<u64>>();
    let want = |y: &[u64]| y.iter().map(|a| T::mk(*a).bits()).collect::<Vec<u64>>();
    match v {
        Val::Vector(y) => {
            let a = rt::sut(|| bits(io.as_slice()));
            let b = rt::sut(|| bits(&io.to_vec()));
            let c = rt::sut(|| io.clone().release_vec().ok().map(|v| bits(&v)));
            let e = rt::sut(|| bits(io.clone().as_mut()));
            let y = want(y);
            ensure!(a.as_ref() == Ok(&y) && b.as_ref() == Ok(&y) && e.as_ref() == Ok(&y), "wrong-content", "{what}: the features of a vector are read wrongly");
            ensure!(c == Ok(Some(y)), "wrong-content", "{what}: the features of a vector are released wrongly");
            ensure!(rt::sut(|| io.clone().release_maps().is_ok()) != Ok(true), "wrong-content", "{what}: a vector was released as maps");
        }
        Val::Maps(m) => {
            let c = rt::sut(|| io.clone().release_maps().ok().map(|v| v.iter().map(|m| bits(m.get_body())).collect::<Vec<_>>()));
            ensure!(c == Ok(Some(m.iter().map(|(_, y)| want(y)).collect())), "wrong-content", "{what}: maps are released wrongly");
            ensure!(rt::sut(|| io.clone().release_vec().is_ok()) != Ok(true), "wrong-content", "{what}: maps were released as a vector");
        }
    }
}

fn consume<B: Num, T: Num>(d: Dataset<B, T>, pts: &Points, rng: &mut Rng) {
    let (xs, ys) = rt::sut(|| d.points_into_iter()).unwrap_or_else(|e| fail("failed", format!("consuming failed: {e}")));
    ensure!(xs.len() == pts.len() && ys.len() == pts.len(), "wrong-count", "consuming gives {} inputs and {} targets for {} points", xs.len(), ys.len(), pts.len());
    if rng.below(4) == 0 {
        // left half way
        let m = pts.len() / 2;
        for (i, (x, y)) in xs.zip(ys).take(m).enumerate() {
            check(&x, &y, &pts[i], i, "consuming");
        }
        return;
    }
    for (i, (x, y)) in xs.zip(ys).enumerate() {
        check(&x, &y, &pts[i], i, "consuming");
    }
    bump("checks");
}
