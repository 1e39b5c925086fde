#![allow(dead_code)]
//! Independent double-precision model of the networks, with a running bound on
//! the rounding error the library may have made (`e` fields), so that a
//! comparison knows how far apart right answers can be.

use std::ops::*;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct C {
    pub re: f64,
    pub im: f64,
}

pub fn c(re: f64, im: f64) -> C {
    C { re, im }
}

impl C {
    pub fn abs(self) -> f64 {
        self.re.hypot(self.im)
    }
    pub fn sq(self) -> f64 {
        self.re * self.re + self.im * self.im
    }
    pub fn conj(self) -> C {
        c(self.re, -self.im)
    }
    pub fn scale(self, k: f64) -> C {
        c(self.re * k, self.im * k)
    }
    pub fn finite(self) -> bool {
        self.re.is_finite() && self.im.is_finite()
    }
}
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        c(self.re + o.re, self.im + o.im)
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        c(self.re - o.re, self.im - o.im)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        c(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}

/// Value with an error bound.
#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub v: C,
    pub e: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    None,
    ModZ,
    Sigmoid,
    Tanh,
    Relu,
    ZRelu,
    Cardioid,
}

pub const ACTS: [Act; 7] = [Act::None, Act::Tanh, Act::Sigmoid, Act::Relu, Act::ZRelu, Act::ModZ, Act::Cardioid];

fn sig(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
fn dsig(x: f64) -> f64 {
    sig(x) * sig(-x)
}

impl Act {
    fn f(self, q: C) -> C {
        match self {
            Act::None => q,
            Act::ModZ => q.scale(1.0 / q.abs()),
            Act::Sigmoid => c(sig(q.re), sig(q.im)),
            Act::Tanh => c(q.re.tanh(), q.im.tanh()),
            Act::Relu => c(q.re.max(0.0), q.im.max(0.0)),
            Act::ZRelu => {
                if q.re > 0.0 && q.im > 0.0 {
                    q
                } else {
                    c(0.0, 0.0)
                }
            }
            Act::Cardioid => {
                let p = q.im.atan2(q.re);
                c(p.cos(), p.sin()).scale(2.0 * (1.0 + p.cos()))
            }
        }
    }
    /// partial derivatives along the real and the imaginary axis
    fn partials(self, q: C) -> (C, C) {
        let r = q.abs();
        match self {
            Act::None => (c(1.0, 0.0), c(0.0, 1.0)),
            Act::ModZ => {
                let r3 = r * r * r;
                (c(1.0 / r, 0.0) - q.scale(q.re / r3), c(0.0, 1.0 / r) - q.scale(q.im / r3))
            }
            Act::Sigmoid => (c(dsig(q.re), 0.0), c(0.0, dsig(q.im))),
            Act::Tanh => {
                let (a, b) = (q.re.tanh(), q.im.tanh());
                (c(1.0 - a * a, 0.0), c(0.0, 1.0 - b * b))
            }
            Act::Relu => {
                let s = |x: f64| if x > 0.0 { 1.0 } else { 0.0 };
                (c(s(q.re), 0.0), c(0.0, s(q.im)))
            }
            Act::ZRelu => {
                if q.re > 0.0 && q.im > 0.0 {
                    (c(1.0, 0.0), c(0.0, 1.0))
                } else {
                    (c(0.0, 0.0), c(0.0, 0.0))
                }
            }
            Act::Cardioid => {
                let p = q.im.atan2(q.re);
                let e = c(p.cos(), p.sin());
                let dp = e.scale(-2.0 * p.sin()) + c(-e.im, e.re).scale(2.0 * (1.0 + p.cos()));
                (dp.scale(-q.im / (r * r)), dp.scale(q.re / (r * r)))
            }
        }
    }
    /// Wirtinger derivatives (d/dq, d/dq*)
    fn wirtinger(self, q: C) -> (C, C) {
        let (fx, fy) = self.partials(q);
        let ify = c(-fy.im, fy.re);
        ((fx - ify).scale(0.5), (fx + ify).scale(0.5))
    }
    /// Value (0), derivative (1) or conjugate derivative (2) at an exactly known
    /// argument, with the rounding allowed; `None` where there is none.
    pub fn reference(self, q: C, d: usize, eps: f64) -> Option<V> {
        let e = eps * q.abs();
        if (d == 0 && self.kink(q, e)) || (d > 0 && self.dkink(q, e)) {
            return None;
        }
        let v = match d {
            0 => self.f(q),
            1 => self.wirtinger(q).0,
            _ => self.wirtinger(q).1,
        };
        let mut e = match (self, d) {
            (Act::None | Act::Relu | Act::ZRelu, _) => 2.0 * eps * v.abs(),
            (Act::ModZ, 0) => 16.0 * eps,
            (Act::ModZ, _) => 32.0 * eps / q.abs(),
            (Act::Cardioid, 0) => 64.0 * eps,
            (Act::Cardioid, _) => 128.0 * eps / q.abs(),
            (_, 0) => 16.0 * eps * (v.abs() + q.abs().min(1.0)),
            _ => 16.0 * eps,
        };
        if self == Act::Sigmoid && (q.re.abs() > 13.0 || q.im.abs() > 13.0) {
            e += if eps > 1e-10 { 4e-6 } else { 4e-13 }; // the library clamps saturated units
        }
        Some(V { v, e })
    }
    fn lip(self, q: C) -> f64 {
        match self {
            Act::ModZ => 2.0 / q.abs(),
            Act::Cardioid => 8.0 / q.abs(),
            _ => 1.0,
        }
    }
    fn lip2(self, q: C) -> f64 {
        match self {
            Act::ModZ => 8.0 / q.sq(),
            Act::Cardioid => 40.0 / q.sq(),
            Act::Sigmoid | Act::Tanh => 1.0,
            _ => 0.0,
        }
    }
    /// The error bound does not exclude a different branch of the function.
    fn kink(self, q: C, e: f64) -> bool {
        let e = 16.0 * e + 1e-12;
        match self {
            Act::ZRelu => {
                // only edges of the open quadrant matter
                (q.re.abs() <= e && q.im > -e) || (q.im.abs() <= e && q.re > -e)
            }
            Act::ModZ | Act::Cardioid => q.abs() <= 50.0 * e,
            _ => false,
        }
    }
    fn dkink(self, q: C, e: f64) -> bool {
        let d = 16.0 * e + 1e-12;
        match self {
            Act::Relu => q.re.abs() <= d || q.im.abs() <= d,
            _ => self.kink(q, e),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pool {
    Mean,
    Sum,
    First,
    Weighted(Vec<C>),
}

#[derive(Clone, Debug)]
pub enum L {
    Dense { i: usize, o: usize, act: Act },
    Conv { ch: usize, f: usize, kh: usize, kw: usize, act: Act },
    Reduce { ch: usize, bh: usize, bw: usize, pool: Pool, kh: usize, kw: usize, k: Vec<f64> },
    Flatten { h: usize, w: usize, ch: usize },
}

/// Shape of a value: scalar features, or maps of h x w.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sh {
    S(usize),
    M(usize, usize, usize), // maps, h, w
}

impl Sh {
    pub fn len(self) -> usize {
        match self {
            Sh::S(n) => n,
            Sh::M(m, h, w) => m * h * w,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub input: Sh,
    pub layers: Vec<L>,
    pub shapes: Vec<Sh>, // shape after each layer
}

impl Spec {
    pub fn new(input: Sh) -> Spec {
        Spec { input, layers: vec![], shapes: vec![] }
    }
    pub fn out(&self) -> Sh {
        *self.shapes.last().unwrap_or(&self.input)
    }
    /// shape of the input of layer i
    pub fn before(&self, i: usize) -> Sh {
        if i == 0 {
            self.input
        } else {
            self.shapes[i - 1]
        }
    }
    pub fn push(&mut self, l: L) {
        let s = match (&l, self.out()) {
            (L::Dense { o, .. }, Sh::S(_)) => Sh::S(*o),
            (L::Conv { f, kh, kw, .. }, Sh::M(_, h, w)) => Sh::M(*f, h + 1 - kh, w + 1 - kw),
            (L::Reduce { bh, bw, .. }, Sh::M(m, h, w)) => Sh::M(m, h / bh, w / bw),
            (L::Flatten { .. }, s @ Sh::M(..)) => Sh::S(s.len()),
            _ => panic!("spec does not fit"),
        };
        self.layers.push(l);
        self.shapes.push(s);
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{:?}", self.input);
        for l in &self.layers {
            s += &match l {
                L::Dense { o, act, .. } => format!(" dense({o},{act:?})"),
                L::Conv { f, kh, kw, act, .. } => format!(" conv({f},{kh}x{kw},{act:?})"),
                L::Reduce { bh, bw, pool, kh, kw, .. } => {
                    let p = match pool {
                        Pool::Weighted(_) => "weighted".to_string(),
                        p => format!("{p:?}"),
                    };
                    format!(" pool({bh}x{bw},{p},kernel {kh}x{kw})")
                }
                L::Flatten { .. } => " flatten".to_string(),
            };
        }
        s
    }
}

/// Parameters of one layer, flattened like the library counts them.
#[derive(Clone, Debug, Default)]
pub struct P {
    pub w: Vec<C>,
    pub b: Vec<C>,
}

pub struct Trace {
    /// input, then the output of every layer (flattened map after map)
    pub acts: Vec<Vec<V>>,
    /// pre-activation values per layer
    pub q: Vec<Vec<V>>,
    pub kink: bool,
    pub dkink: bool,
}

pub fn forward(spec: &Spec, p: &[P], x: &[C], eps: f64) -> Trace {
    let x0: Vec<V> = x.iter().map(|v| V { v: *v, e: 0.0 }).collect();
    let mut t = Trace { acts: vec![x0], q: vec![], kink: false, dkink: false };
    for (li, l) in spec.layers.iter().enumerate() {
        let x = t.acts.last().unwrap();
        let sh = spec.before(li);
        let (q, a): (Vec<V>, Vec<V>) = match l {
            L::Dense { i, o, act } => {
                let mut q = Vec::with_capacity(*o);
                for r in 0..*o {
                    let mut acc = p[li].b[r];
                    let mut mag = acc.abs();
                    let mut e = 0.0;
                    for k in 0..*i {
                        let w = p[li].w[r * i + k];
                        acc = acc + w * x[k].v;
                        mag += w.abs() * x[k].v.abs();
                        e += w.abs() * x[k].e;
                    }
                    q.push(V { v: acc, e: e + eps * mag * (4.0 + *i as f64) });
                }
                let a = activate(*act, &q, eps, &mut t.kink, &mut t.dkink);
                (q, a)
            }
            L::Conv { ch, f, kh, kw, act } => {
                let Sh::M(_, h, w) = sh else { panic!() };
                let (oh, ow) = (h + 1 - kh, w + 1 - kw);
                let mut q = Vec::with_capacity(f * oh * ow);
                for fi in 0..*f {
                    for y in 0..oh {
                        for z in 0..ow {
                            let mut acc = p[li].b[fi];
                            let mut mag = acc.abs();
                            let mut e = 0.0;
                            for ci in 0..*ch {
                                for u in 0..*kh {
                                    for v in 0..*kw {
                                        let k = p[li].w[((fi * ch + ci) * kh + u) * kw + v];
                                        let xv = x[(ci * h + y + u) * w + z + v];
                                        acc = acc + k * xv.v;
                                        mag += k.abs() * xv.v.abs();
                                        e += k.abs() * xv.e;
                                    }
                                }
                            }
                            q.push(V { v: acc, e: e + eps * mag * (4.0 + (ch * kh * kw) as f64) });
                        }
                    }
                }
                let a = activate(*act, &q, eps, &mut t.kink, &mut t.dkink);
                (q, a)
            }
            L::Reduce { ch, bh, bw, pool, .. } => {
                let Sh::M(_, h, w) = sh else { panic!() };
                let mut a = vec![];
                for m in 0..*ch {
                    for y in 0..h / bh {
                        for z in 0..w / bw {
                            let mut block = vec![];
                            for u in 0..*bh {
                                for v in 0..*bw {
                                    block.push(x[(m * h + y * bh + u) * w + z * bw + v]);
                                }
                            }
                            a.push(reduce(pool, &block, eps));
                        }
                    }
                }
                (vec![], a)
            }
            L::Flatten { .. } => (vec![], x.clone()),
        };
        t.q.push(q);
        t.acts.push(a);
    }
    t
}

pub fn weights_of(pool: &Pool, n: usize) -> Vec<C> {
    match pool {
        Pool::Mean => vec![c(1.0 / n as f64, 0.0); n],
        Pool::Sum => vec![c(1.0, 0.0); n],
        Pool::First => (0..n).map(|i| if i == 0 { c(1.0, 0.0) } else { c(0.0, 0.0) }).collect(),
        Pool::Weighted(w) => w.clone(),
    }
}

fn reduce(pool: &Pool, block: &[V], eps: f64) -> V {
    let w = weights_of(pool, block.len());
    let mut r = V::default();
    let mut mag = 0.0;
    for (x, k) in block.iter().zip(&w) {
        r.v = r.v + *k * x.v;
        r.e += k.abs() * x.e;
        mag += k.abs() * x.v.abs();
    }
    r.e += eps * mag * (4.0 + block.len() as f64);
    r
}

fn activate(act: Act, q: &[V], eps: f64, kink: &mut bool, dkink: &mut bool) -> Vec<V> {
    q.iter()
        .map(|q| {
            *kink |= act.kink(q.v, q.e);
            *dkink |= act.dkink(q.v, q.e);
            let v = act.f(q.v);
            let mut e = act.lip(q.v) * q.e + 8.0 * eps * (v.abs() + q.v.abs().min(1.0));
            if act == Act::Sigmoid && (q.v.re.abs() > 13.0 || q.v.im.abs() > 13.0) {
                e += if eps > 1e-10 { 4e-6 } else { 4e-13 }; // the library clamps saturated units
            }
            V { v, e }
        })
        .collect()
}

/// Sum over the batch of the gradients of the squared error with respect to
/// every parameter, with error bounds. `None` if some unit is too close to a
/// point where its activation is not differentiable.
pub fn gradient(spec: &Spec, p: &[P], batch: &[(Vec<C>, Vec<C>)], eps: f64) -> Option<Vec<(Vec<V>, Vec<V>)>> {
    let mut g: Vec<(Vec<V>, Vec<V>)> =
        p.iter().map(|p| (vec![V::default(); p.w.len()], vec![V::default(); p.b.len()])).collect();
    for (x, y) in batch {
        let t = forward(spec, p, x, eps);
        if t.kink || t.dkink {
            return None;
        }
        let out = t.acts.last().unwrap();
        // dL/da
        let mut d: Vec<V> = out
            .iter()
            .zip(y)
            .map(|(o, y)| V { v: (o.v - *y).conj(), e: o.e + 2.0 * eps * (o.v.abs() + y.abs()) })
            .collect();
        for li in (0..spec.layers.len()).rev() {
            let (gw, gb) = &mut g[li];
            d = back(&spec.layers[li], spec.before(li), &p[li], &t.acts[li], &t.q[li], &d, eps, gw, gb);
        }
    }
    Some(g)
}

/// Adds the derivatives for the parameters of one layer to `gw` and `gb` and gives
/// the derivatives for its input.
#[allow(clippy::too_many_arguments)]
pub fn back(l: &L, sh: Sh, p: &P, prev: &[V], q: &[V], d: &[V], eps: f64, gw: &mut [V], gb: &mut [V]) -> Vec<V> {
    let add = |d: &mut V, x: V| {
        d.v = d.v + x.v;
        d.e += x.e + eps * (d.v.abs() + x.v.abs());
    };
    match l {
        L::Flatten { .. } => d.to_vec(),
        L::Dense { i, o, act } => {
            let h = through(*act, q, d, eps);
            let mut nd = vec![V::default(); *i];
            for r in 0..*o {
                add(&mut gb[r], h[r]);
                for k in 0..*i {
                    add(&mut gw[r * i + k], prod(h[r], prev[k], eps));
                    let w = p.w[r * i + k];
                    add(&mut nd[k], prod(h[r], V { v: w, e: 2.0 * eps * w.abs() }, eps));
                }
            }
            nd
        }
        L::Conv { ch, f, kh, kw, act } => {
            let Sh::M(_, hh, ww) = sh else { panic!() };
            let (oh, ow) = (hh + 1 - kh, ww + 1 - kw);
            let h = through(*act, q, d, eps);
            let mut nd = vec![V::default(); ch * hh * ww];
            for fi in 0..*f {
                for y in 0..oh {
                    for z in 0..ow {
                        let hv = h[(fi * oh + y) * ow + z];
                        add(&mut gb[fi], hv);
                        for ci in 0..*ch {
                            for u in 0..*kh {
                                for v in 0..*kw {
                                    let ki = ((fi * ch + ci) * kh + u) * kw + v;
                                    let xi = (ci * hh + y + u) * ww + z + v;
                                    add(&mut gw[ki], prod(hv, prev[xi], eps));
                                    let w = p.w[ki];
                                    add(&mut nd[xi], prod(hv, V { v: w, e: 2.0 * eps * w.abs() }, eps));
                                }
                            }
                        }
                    }
                }
            }
            nd
        }
        L::Reduce { ch, bh, bw, kh, kw, k, .. } => {
            let Sh::M(_, hh, ww) = sh else { panic!() };
            let (oh, ow) = (hh / bh, ww / bw);
            let mut nd = vec![V::default(); ch * hh * ww];
            // centre of a block, towards the upper left for even sizes
            let (cy, cx) = ((bh - 1) / 2, (bw - 1) / 2);
            let (ph, pw) = ((kh - 1) / 2, (kw - 1) / 2);
            for m in 0..*ch {
                for y in 0..oh {
                    for z in 0..ow {
                        let dv = d[(m * oh + y) * ow + z];
                        let (py, px) = (y * bh + cy, z * bw + cx);
                        for u in 0..*kh {
                            for v in 0..*kw {
                                // sliding window: target + (u - ph) is the source
                                let (ty, tx) = (py as isize - u as isize + ph as isize, px as isize - v as isize + pw as isize);
                                if ty < 0 || tx < 0 || ty >= hh as isize || tx >= ww as isize {
                                    continue;
                                }
                                let kv = k[u * kw + v];
                                add(
                                    &mut nd[(m * hh + ty as usize) * ww + tx as usize],
                                    prod(dv, V { v: c(kv, 0.0), e: eps * kv.abs() }, eps),
                                );
                            }
                        }
                    }
                }
            }
            nd
        }
    }
}

fn prod(a: V, b: V, eps: f64) -> V {
    let m = a.v.abs() * b.v.abs();
    V { v: a.v * b.v, e: a.e * b.v.abs() + b.e * a.v.abs() + a.e * b.e + 4.0 * eps * m }
}

/// dL/dq from dL/da
fn through(act: Act, q: &[V], d: &[V], eps: f64) -> Vec<V> {
    q.iter()
        .zip(d)
        .map(|(q, d)| {
            let (fq, fc) = act.wirtinger(q.v);
            let mut de = act.lip2(q.v) * q.e + 16.0 * eps * (fq.abs() + fc.abs() + act.lip(q.v));
            if act == Act::Sigmoid && (q.v.re.abs() > 13.0 || q.v.im.abs() > 13.0) {
                de += if eps > 1e-10 { 4e-6 } else { 4e-13 };
            }
            V {
                v: fq * d.v + fc.conj() * d.v.conj(),
                e: (fq.abs() + fc.abs()) * d.e + 2.0 * de * (d.v.abs() + d.e),
            }
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    MeanSquare,
    CrossEntropy,
}

/// Loss of one point with an error bound; `None` if it cannot be judged.
pub fn loss(kind: Loss, out: &[V], y: &[C], eps: f64) -> Option<(f64, f64)> {
    match kind {
        Loss::MeanSquare => {
            let n = out.len() as f64;
            let mut s = 0.0;
            let mut e = 0.0;
            for (o, y) in out.iter().zip(y) {
                let d = (o.v - *y).abs();
                let de = o.e + 2.0 * eps * (o.v.abs() + y.abs());
                s += d * d;
                e += 2.0 * d * de + de * de + 8.0 * eps * d * d * n;
            }
            Some((s / n, e / n))
        }
        Loss::CrossEntropy => {
            if out.iter().any(|o| o.v.sq() > 30.0) {
                return None;
            }
            let m: Vec<f64> = out.iter().map(|o| o.v.sq()).collect();
            let sum: f64 = m.iter().map(|x| x.exp()).sum();
            let emax = out.iter().map(|o| 2.0 * o.v.abs() * o.e + o.e * o.e + 8.0 * eps * o.v.sq()).fold(0.0, f64::max);
            let mut s = 0.0;
            let mut e = 0.0;
            for (x, y) in m.iter().zip(y) {
                let ls = x - sum.ln();
                s -= y.re * ls;
                e += y.re.abs() * (2.0 * emax + eps * (16.0 + 4.0 * ls.abs() + out.len() as f64));
            }
            Some((s, e))
        }
    }
}

/// Index of the largest magnitude (first one if several, 0 if all are zero);
/// `None` if the error bounds leave it open.
pub fn argmax(v: &[V], eps: f64) -> Option<usize> {
    let mut best = 0;
    let mut bm = 0.0;
    for (i, x) in v.iter().enumerate() {
        if x.v.sq() > bm {
            best = i;
            bm = x.v.sq();
        }
    }
    let be = v.get(best).map(|x| x.e).unwrap_or(0.0);
    for (i, x) in v.iter().enumerate() {
        if i != best {
            let exact = x.e == 0.0 && be == 0.0 && x.v == v[best].v;
            let zero = x.e == 0.0 && x.v.sq() == 0.0 && be == 0.0;
            if !exact && !zero && (bm.sqrt() - x.v.abs()).abs() <= 8.0 * (x.e + be) + 16.0 * eps * bm.sqrt() + 1e-300 {
                return None;
            }
        }
    }
    Some(best)
}
