#![allow(dead_code)]
//! Networks for the scenarios: drawing a structure, building it through the
//! public interface, reading parameters back, converting values.

use crate::choice::{chance, choose, choose64, pick, range, Rng};
use crate::elem::{fault_point, with_identity, Elem};
use crate::model::{weights_of, Act, Pool, Sh, Spec, ACTS, C, L, P, V};
use crate::rt;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::matrix::Matrix;

pub struct Ptr<T>(pub *mut T);
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        Ptr(self.0)
    }
}
impl<T> Copy for Ptr<T> {}
impl<T> Ptr<T> {
    pub fn new(t: T) -> Ptr<T> {
        Ptr(Box::into_raw(Box::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
}

pub fn act_func(a: Act) -> ComplexActFunc {
    match a {
        Act::None => ComplexActFunc::None,
        Act::ModZ => ComplexActFunc::ModZ,
        Act::Sigmoid => ComplexActFunc::RITSigmoid,
        Act::Tanh => ComplexActFunc::RITTanh,
        Act::Relu => ComplexActFunc::RITReLU,
        Act::ZRelu => ComplexActFunc::ZReLU,
        Act::Cardioid => ComplexActFunc::Cardioid,
    }
}

pub fn method(k: usize, i: usize, o: usize) -> InitMethod {
    match k {
        0 => InitMethod::Uniform(1),
        1 => InitMethod::XavierGlorotU(i + o),
        2 => InitMethod::XavierGlorotN(i + o),
        3 => InitMethod::Xavier(i),
        _ => InitMethod::HeInit(i),
    }
}

// ------------------------------------------------------------------ structures

#[derive(Clone, Copy)]
pub struct Opts {
    /// at least two layers
    pub trainable: bool,
    /// the output is a vector
    pub vector_out: bool,
    pub big: bool,
    /// leave out activations with a singular point
    pub smooth: bool,
    /// only dense layers
    pub dense_only: bool,
}

fn gen_act(o: &Opts) -> Act {
    if o.smooth {
        pick(&[Act::Tanh, Act::Sigmoid, Act::None, Act::Tanh])
    } else {
        pick(&ACTS)
    }
}

fn gen_width(o: &Opts) -> usize {
    if o.big && chance(1, 10) {
        match choose(3) {
            0 => pick(&[17usize, 33, 64, 65, 130]),
            _ => range(7, 70),
        }
    } else {
        range(1, 6)
    }
}

fn gen_maps(o: &Opts) -> usize {
    if o.big && chance(1, 25) {
        range(4, 12)
    } else {
        range(1, 3)
    }
}

fn divisors(n: usize) -> Vec<usize> {
    let most = if chance(1, 8) { 13 } else { 4 };
    (1..=n.min(most)).filter(|d| n % d == 0).collect()
}

pub fn gen_pool(n: usize, rng: &mut Rng) -> Pool {
    match choose(4) {
        0 => Pool::Mean,
        1 => Pool::Sum,
        2 => Pool::First,
        _ => Pool::Weighted((0..n).map(|_| C { re: (rng.sym() as f32) as f64, im: (rng.sym() as f32) as f64 }).collect()),
    }
}

fn push_conv(s: &mut Spec, o: &Opts) {
    let Sh::M(ch, h, w) = s.out() else { return };
    let most = if chance(1, 8) { 5 } else { 3 };
    let (kh, kw) = (range(1, h.min(most)), range(1, w.min(most)));
    let f = if o.big && chance(1, 40) { range(6, 12) } else { range(1, most) };
    s.push(L::Conv { ch, f, kh, kw, act: gen_act(o) });
}

fn push_reduce(s: &mut Spec) {
    let Sh::M(ch, h, w) = s.out() else { return };
    let (bh, bw) = (pick(&divisors(h)), pick(&divisors(w)));
    let mut rng = Rng::drawn();
    let pool = gen_pool(bh * bw, &mut rng);
    let (kh, kw) = (pick(&[1usize, 3, 3, 5]), pick(&[1usize, 3, 3, 5]));
    let k = match choose(3) {
        0 => vec![1.0 / (kh * kw) as f64; kh * kw],
        _ => (0..kh * kw).map(|_| rng.sym()).collect::<Vec<f64>>(),
    };
    // representable in both precisions
    let k = k.into_iter().map(|x| (x as f32) as f64).collect();
    s.push(L::Reduce { ch, bh, bw, pool, kh, kw, k });
}

fn push_flatten(s: &mut Spec) {
    let Sh::M(ch, h, w) = s.out() else { return };
    s.push(L::Flatten { h, w, ch });
}

fn push_dense(s: &mut Spec, o: &Opts) {
    let Sh::S(i) = s.out() else { return };
    s.push(L::Dense { i, o: gen_width(o), act: gen_act(o) });
}

/// A network of one layer with parameters or pooling.
pub fn gen_layer(o: &Opts) -> Spec {
    let kind = choose(5);
    if kind < 2 && o.big && chance(1, 30) {
        let i = pick(&[257usize, 300, 513, 784, 1025]);
        let mut s = Spec::new(Sh::S(i));
        s.push(L::Dense { i, o: range(1, 3), act: gen_act(o) });
        return s;
    }
    if kind < 2 {
        let mut s = Spec::new(Sh::S(gen_width(o)));
        push_dense(&mut s, o);
        return s;
    }
    let most = if o.big && chance(1, 10) { 13 } else { 8 };
    let mut s = Spec::new(Sh::M(gen_maps(o), range(1, most), range(1, most)));
    if kind < 4 {
        push_conv(&mut s, o);
    } else {
        push_reduce(&mut s);
    }
    s
}

/// A network with many inputs, few units.
fn gen_wide(o: &Opts) -> Spec {
    let small = Opts { big: false, ..*o };
    let mut s = if o.dense_only || choose(3) > 0 {
        Spec::new(Sh::S(pick(&[257usize, 200, 300, 513, 784, 1025])))
    } else {
        let mut s = Spec::new(Sh::M(1, pick(&[28usize, 17, 33]), pick(&[28usize, 16, 20])));
        if chance(1, 2) {
            let Sh::M(ch, ..) = s.out() else { unreachable!() };
            s.push(L::Conv { ch, f: 1, kh: range(1, 3), kw: range(1, 3), act: gen_act(o) });
        }
        push_flatten(&mut s);
        s
    };
    let n = range(1, 2);
    for _ in 0..n {
        let Sh::S(i) = s.out() else { unreachable!() };
        s.push(L::Dense { i, o: if i > 20 { range(1, 2) } else { gen_width(&small) }, act: gen_act(o) });
    }
    while o.trainable && s.layers.len() < 2 {
        push_dense(&mut s, &small);
    }
    s
}

pub fn gen_spec(o: Opts) -> Spec {
    if o.big && chance(1, 80) {
        return gen_wide(&o);
    }
    if o.dense_only || choose(2) == 0 {
        let mut s = Spec::new(Sh::S(gen_width(&o)));
        let n = if o.trainable { range(2, 4) } else { range(1, 4) };
        let n = if chance(1, 12) { range(5, 9) } else { n };
        let n = if chance(1, 150) { range(10, 30) } else { n };
        for _ in 0..n {
            push_dense(&mut s, &o);
        }
        return s;
    }
    let most = if o.big && chance(1, 10) { 13 } else { 9 };
    let (h, w) = (range(2, most), range(2, most));
    let mut s = Spec::new(Sh::M(gen_maps(&o), h, w));
    let vector = o.vector_out || choose(4) > 0;
    let blocks = range(if vector { 0 } else { 1 }, if chance(1, 20) { 8 } else { 3 });
    for _ in 0..blocks {
        if choose(3) < 2 {
            push_conv(&mut s, &o);
        } else {
            push_reduce(&mut s);
        }
    }
    if vector {
        push_flatten(&mut s);
        let n = if o.vector_out && chance(1, 6) { 0 } else { range(1, 2) };
        for _ in 0..n {
            push_dense(&mut s, &o);
        }
    }
    while o.trainable && s.layers.len() < 2 {
        if matches!(s.out(), Sh::M(..)) {
            push_conv(&mut s, &o);
        } else {
            push_dense(&mut s, &o);
        }
    }
    s
}

/// A network that can be built any number of times, always the same.
#[derive(Clone, Debug)]
pub struct Plan {
    pub spec: Spec,
    pub method: usize,
    pub seed: u128,
    pub adj: u64,
    pub scale: f64,
}

impl Plan {
    pub fn gen(o: Opts) -> Plan {
        let spec = gen_spec(o);
        Plan {
            spec,
            method: choose(5),
            seed: choose64(1 << 40) as u128 + 1,
            adj: choose64(1 << 40),
            scale: pick(&[1.0, 0.5, 0.0, 2.0]),
        }
    }
    pub fn describe(&self) -> String {
        format!("{} init {} seed {} scale {}", self.spec.describe(), self.method, self.seed, self.scale)
    }
    /// Layer `i`, initialised and with non-zero biases.
    pub fn layer<T: Elem>(&self, i: usize) -> CLayer<T> {
        let mut seed = self.seed.wrapping_mul(31).wrapping_add(i as u128 * 7919) % (1 << 60);
        let mut rng = Rng(self.adj.wrapping_add(i as u64 * 1_000_003));
        make_layer(&self.spec.layers[i], self.method, &mut seed, &mut rng, self.scale)
    }
    pub fn build<T: Elem>(&self) -> CNetwork<T> {
        let mut n = CNetwork::new();
        for i in 0..self.spec.layers.len() {
            let l = self.layer::<T>(i);
            let r = if i == 0 { n.add_input(l) } else { n.add(l) };
            if let Err(e) = r {
                rt::fail("rejected-layer", format!("a fitting layer {i} of {} was rejected: {e:?}", self.spec.describe()));
            }
        }
        n
    }
}

pub fn make_layer<T: Elem>(l: &L, m: usize, seed: &mut u128, rng: &mut Rng, scale: f64) -> CLayer<T> {
    match l {
        L::Dense { i, o, act } => {
            let mut l = DenseCLayer::<T>::init(IOShape::Scalar(*i), *o, act_func(*act), method(m, *i, *o), seed).unwrap().wrap();
            shift(&mut l, i * o, *o, *i, rng, scale);
            l
        }
        L::Conv { ch, f, kh, kw, act } => {
            let fan = ch * kh * kw;
            let mut l = ConvCLayer::<T>::init(IOShape::Matrix(*ch), *f, [*kh, *kw], act_func(*act), method(m, fan, f * kh * kw), seed)
                .unwrap()
                .wrap();
            shift(&mut l, f * fan, *f, fan, rng, scale);
            l
        }
        L::Reduce { ch, bh, bw, pool, kh, kw, k } => {
            let w: Vec<T> = weights_of(pool, bh * bw).iter().map(|c| T::mk(c.re, c.im)).collect();
            let k = Matrix::from_body(k.iter().map(|x| T::mk(*x, 0.0)).collect(), [*kh, *kw]);
            Reduce::init(*ch, [*bh, *bw], pool_func(pool.clone(), w), k).wrap()
        }
        L::Flatten { h, w, ch } => Flatten::init([*h, *w], *ch).wrap(),
    }
}

fn pool_func<T: Elem>(pool: Pool, w: Vec<T>) -> Box<dyn Fn(&[T]) -> T> {
    Box::new(move |b: &[T]| {
        fault_point("pooling function");
        match pool {
            Pool::First => b[0],
            Pool::Mean => b.iter().fold(T::default(), |a, x| a + *x) / T::usize_to_complex(b.len()),
            Pool::Sum => b.iter().fold(T::default(), |a, x| a + *x),
            Pool::Weighted(_) => b.iter().zip(&w).fold(T::default(), |a, (x, w)| a + *x * *w),
        }
    })
}

/// Moves the parameters of a fresh layer to generic values.
fn shift<T: Elem>(l: &mut CLayer<T>, nw: usize, nb: usize, fan: usize, rng: &mut Rng, scale: f64) {
    if scale == 0.0 {
        return;
    }
    let s = scale / (fan.max(1) as f64).sqrt();
    let dw = (0..nw).map(|_| T::mk(rng.sym() * s, rng.sym() * s)).collect();
    let db = (0..nb).map(|_| T::mk(rng.sym() * scale * 0.5, rng.sym() * scale * 0.5)).collect();
    l.neg_conj_adjustment(dw, db).unwrap();
}

// ---------------------------------------------------------------------- values

pub fn io_of<T: Elem>(sh: Sh, v: &[C]) -> IOType<T> {
    match sh {
        Sh::S(_) => IOType::Scalar(v.iter().map(|c| T::mk(c.re, c.im)).collect()),
        Sh::M(m, h, w) => IOType::Matrix(
            (0..m)
                .map(|k| Matrix::from_body(v[k * h * w..(k + 1) * h * w].iter().map(|c| T::mk(c.re, c.im)).collect(), [h, w]))
                .collect(),
        ),
    }
}

pub fn flat<T: Elem>(v: &IOType<T>) -> Vec<C> {
    let f = |e: &T| {
        let (re, im) = e.parts();
        C { re, im }
    };
    match v {
        IOType::Scalar(x) => x.iter().map(f).collect(),
        IOType::Matrix(m) => m.iter().flat_map(|m| m.get_body().iter().map(f)).collect(),
    }
}

/// Shape and bit patterns of a value.
pub fn bits_of<T: Elem>(v: &IOType<T>) -> Vec<u64> {
    let mut o = vec![];
    let mut put = |e: &T| {
        let (a, b) = e.bits();
        o.push(a);
        o.push(b);
    };
    match v {
        IOType::Scalar(x) => x.iter().for_each(&mut put),
        IOType::Matrix(m) => m.iter().for_each(|m| m.get_body().iter().for_each(&mut put)),
    }
    match v {
        IOType::Scalar(x) => o.push(x.len() as u64),
        IOType::Matrix(m) => {
            for m in m {
                o.push(m.get_shape()[0] as u64);
                o.push(m.get_shape()[1] as u64);
            }
            o.push(m.len() as u64 | 1 << 40);
        }
    }
    o
}

pub fn has_shape<T>(v: &IOType<T>, sh: Sh) -> bool {
    match (v, sh) {
        (IOType::Scalar(x), Sh::S(n)) => x.len() == n,
        (IOType::Matrix(ms), Sh::M(m, h, w)) => {
            ms.len() == m && ms.iter().all(|a| a.get_shape() == [h, w] && a.get_body().len() == h * w)
        }
        _ => false,
    }
}

/// A value exactly representable in T.
pub fn rnd<T: Elem>(rng: &mut Rng, scale: f64) -> C {
    let e = T::mk(rng.sym() * scale, rng.sym() * scale);
    let (re, im) = e.parts();
    C { re, im }
}

pub fn gen_values<T: Elem>(rng: &mut Rng, n: usize) -> Vec<C> {
    let kind = rng.below(22);
    let hot = rng.below(n.max(1) as u64) as usize;
    let same = rnd::<T>(rng, 1.0);
    (0..n)
        .map(|i| match kind {
            0 if rng.below(3) == 0 => C::default(),
            1 => C { re: rnd::<T>(rng, 1.0).re, im: 0.0 },
            2 | 3 => rnd::<T>(rng, 3.0),
            // saturated units
            4 => rnd::<T>(rng, 40.0),
            5 if i == hot => rnd::<T>(rng, 200.0),
            6 => rnd::<T>(rng, 1e-3),
            7 => rnd::<T>(rng, 1e-6),
            8 => same,
            9 => C { re: rng.below(3) as f64 - 1.0, im: rng.below(3) as f64 - 1.0 },
            10 if i != hot => C::default(),
            11 => C { re: 0.0, im: rnd::<T>(rng, 1.0).im },
            12 => C::default(),
            13 => {
                let scale = [1e-4, 1.0, 30.0][rng.below(3) as usize];
                rnd::<T>(rng, scale)
            }
            14 => C { re: -same.re.abs(), im: -rnd::<T>(rng, 1.0).im.abs() },
            _ => rnd::<T>(rng, 1.0),
        })
        .collect()
}

/// A value that is close to, or looks like, another one.
pub fn vary<T: Elem>(rng: &mut Rng, x: &[C]) -> Vec<C> {
    let mut v = x.to_vec();
    if v.is_empty() {
        return v;
    }
    let n = v.len() as u64;
    let i = rng.below(n) as usize;
    let j = rng.below(n) as usize;
    match rng.below(9) {
        0 => v.swap(i, j),
        1 => v.reverse(),
        2 => v[i].re = -v[i].re,
        3 => v[i] = v[i].conj(),
        4 => v.iter_mut().for_each(|c| *c = c.conj()),
        5 => {
            let l = v.len() - 1;
            v[l] = rnd::<T>(rng, 1.0);
        }
        6 => v[0] = rnd::<T>(rng, 1.0),
        7 => v[i] = C { re: v[i].im, im: v[i].re },
        _ => v[i] = rnd::<T>(rng, 1.0),
    }
    v
}

pub type Point = (Vec<C>, Vec<C>);

pub fn gen_point<T: Elem>(rng: &mut Rng, spec: &Spec) -> Point {
    let x = gen_values::<T>(rng, spec.input.len());
    let n = spec.out().len();
    let y = match rng.below(4) {
        0 | 1 => {
            let hot = rng.below(n as u64) as usize;
            (0..n).map(|i| C { re: (i == hot) as u64 as f64, im: 0.0 }).collect()
        }
        _ => gen_values::<T>(rng, n),
    };
    (x, y)
}

pub fn gen_batch<T: Elem>(rng: &mut Rng, spec: &Spec, n: usize) -> Vec<Point> {
    let mut v: Vec<Point> = vec![];
    for _ in 0..n {
        // sometimes the same point again, or one that is nearly the same
        if !v.is_empty() && rng.below(6) == 0 {
            let k = rng.below(v.len() as u64) as usize;
            let (mut x, mut y) = v[k].clone();
            match rng.below(3) {
                0 => {}
                1 => x = vary::<T>(rng, &x),
                _ => y = vary::<T>(rng, &y),
            }
            v.push((x, y));
        } else {
            v.push(gen_point::<T>(rng, spec));
        }
    }
    v
}

pub fn dataset<T: Elem>(spec: &Spec, pts: &[Point]) -> Dataset<T, T> {
    let mut d = Dataset::new();
    for (x, y) in pts {
        d.add_point((io_of(spec.input, x), io_of(spec.out(), y)));
    }
    d
}

// ------------------------------------------------------------------ parameters

const PROBE: f64 = 1048576.0;

/// Parameters of all layers, read through the public interface (wrapped element
/// types only). The second value holds the bits of all the readings.
pub fn extract<T: Elem>(net: &CNetwork<T>, spec: &Spec) -> Result<(Vec<P>, Vec<u64>), String> {
    assert!(T::WRAPPED);
    let was = rt::IN_SUT.with(|f| f.replace(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_identity(|| extract0(net, spec))));
    rt::IN_SUT.with(|f| f.set(was));
    r.unwrap_or_else(|_| Err(rt::last_panic()))
}

pub fn near<T: Elem>(got: &[C], want: &[V]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} values instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let tol = 8.0 * w.e + 4.0 * T::EPS * w.v.abs() + 1e-300;
        if !tol.is_finite() || !w.v.finite() {
            continue;
        }
        let d = (*g - w.v).abs();
        if !(d <= tol) {
            return Err(format!("value {i} is {g:?}, should be {:?} (off by {d:e}, allowed {tol:e})", w.v));
        }
    }
    Ok(())
}

/// Parameters of one layer, see `extract`.
pub fn extract_one<T: Elem>(layer: &CLayer<T>, l: &L) -> Result<(P, Vec<u64>), String> {
    assert!(T::WRAPPED);
    let was = rt::IN_SUT.with(|f| f.replace(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_identity(|| extract_layer(layer, l))));
    rt::IN_SUT.with(|f| f.set(was));
    r.unwrap_or_else(|_| Err(rt::last_panic()))
}

fn extract0<T: Elem>(net: &CNetwork<T>, spec: &Spec) -> Result<(Vec<P>, Vec<u64>), String> {
    let zeros = vec![C::default(); spec.input.len()];
    let mut ps = vec![];
    let mut bits = vec![];
    for (li, l) in spec.layers.iter().enumerate() {
        let (_, layer) = net.intercept(io_of(spec.input, &zeros), li).map_err(|e| format!("layer {li} is missing: {e:?}"))?;
        let (p, b) = extract_layer(layer, l).map_err(|e| format!("layer {li}: {e}"))?;
        ps.push(p);
        bits.extend(b);
    }
    Ok((ps, bits))
}

pub fn extract_layer<T: Elem>(layer: &CLayer<T>, l: &L) -> Result<(P, Vec<u64>), String> {
    let mut bits = vec![];
    let mut probe = |x: IOType<T>| -> Result<Vec<C>, String> {
        let r = layer.foward(&x).map_err(|e| format!("evaluation failed: {e:?}"))?;
        bits.extend(bits_of(&r));
        Ok(flat(&r))
    };
    let mut p = P::default();
    match l {
        L::Dense { i, o, .. } => {
            let mut x = vec![C::default(); *i];
            p.b = probe(io_of(Sh::S(*i), &x))?;
            if p.b.len() != *o {
                return Err(format!("{} outputs instead of {o}", p.b.len()));
            }
            p.w = vec![C::default(); i * o];
            for k in 0..*i {
                x[k].re = PROBE;
                let r = probe(io_of(Sh::S(*i), &x))?;
                x[k].re = 0.0;
                if r.len() != *o {
                    return Err(format!("{} outputs instead of {o}", r.len()));
                }
                for q in 0..*o {
                    p.w[q * i + k] = (r[q] - p.b[q]).scale(1.0 / PROBE);
                }
            }
        }
        L::Conv { ch, f, kh, kw, .. } => {
            let n = ch * kh * kw;
            let sh = Sh::M(*ch, *kh, *kw);
            let mut x = vec![C::default(); n];
            p.b = probe(io_of(sh, &x))?;
            if p.b.len() != *f {
                return Err(format!("{} outputs instead of {f}", p.b.len()));
            }
            p.w = vec![C::default(); f * n];
            for k in 0..n {
                x[k].re = PROBE;
                let r = probe(io_of(sh, &x))?;
                x[k].re = 0.0;
                if r.len() != *f {
                    return Err(format!("{} outputs instead of {f}", r.len()));
                }
                for q in 0..*f {
                    p.w[q * n + k] = (r[q] - p.b[q]).scale(1.0 / PROBE);
                }
            }
        }
        L::Reduce { ch, bh, bw, .. } => {
            let sh = Sh::M(*ch, *bh, *bw);
            let x: Vec<C> = (0..sh.len()).map(|i| C { re: 1.0 + i as f64, im: 0.5 }).collect();
            probe(io_of(sh, &x))?;
        }
        L::Flatten { h, w, ch } => {
            let sh = Sh::M(*ch, *h, *w);
            let x: Vec<C> = (0..sh.len()).map(|i| C { re: 1.0 + i as f64, im: 0.5 }).collect();
            probe(io_of(sh, &x))?;
        }
    }
    Ok((p, bits))
}

/// Parameters read in a second way, from the derivatives for the input. Evaluation
/// and derivation must be using the same ones.
pub fn cross_check<T: Elem>(layer: &CLayer<T>, l: &L, p: &P) -> Result<(), String> {
    let was = rt::IN_SUT.with(|f| f.replace(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_identity(|| cross_check0(layer, l, p))));
    rt::IN_SUT.with(|f| f.set(was));
    r.unwrap_or_else(|_| Err(rt::last_panic()))
}

fn cross_check0<T: Elem>(layer: &CLayer<T>, l: &L, p: &P) -> Result<(), String> {
    let (sh, out) = match l {
        L::Dense { i, o, .. } => (Sh::S(*i), *o),
        L::Conv { ch, f, kh, kw, .. } => (Sh::M(*ch, *kh, *kw), *f),
        _ => return Ok(()),
    };
    let n = sh.len();
    for q in 0..out {
        let one: Vec<T> = (0..out).map(|k| T::mk((k == q) as u64 as f64, 0.0)).collect();
        let x = io_of(sh, &vec![C::default(); n]);
        let (_, _, d, _) = layer.compute_derivatives(&x, one.clone(), one).map_err(|e| format!("derivation failed: {e:?}"))?;
        if d.len() != n {
            return Err(format!("{} derivatives for {n} inputs", d.len()));
        }
        for k in 0..n {
            let (re, im) = d[k].parts();
            let (a, b) = (C { re, im }, p.w[q * n + k]);
            if a.finite() && b.finite() && (a - b).abs() > T::EPS * (16.0 * a.abs() + p.b[q].abs() / 1024.0) + 1e-300 {
                return Err(format!("weight {k} of unit {q} acts as {b:?} in evaluation and as {a:?} in derivation"));
            }
        }
    }
    Ok(())
}

/// Bits that identify the state of a network: parameter readings for wrapped
/// types, otherwise its answers on fixed inputs; and its structure.
pub fn fingerprint<T: Elem>(net: &CNetwork<T>, spec: &Spec) -> Result<Vec<u64>, String> {
    let mut bits = if T::WRAPPED {
        extract(net, spec)?.1
    } else {
        let was = rt::IN_SUT.with(|f| f.replace(false));
        let mut b = vec![];
        let mut rng = Rng(77);
        for _ in 0..3 {
            let x: Vec<C> = (0..spec.input.len()).map(|_| rnd::<T>(&mut rng, 2.0)).collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| net.collect_acts(io_of(spec.input, &x))));
            match r {
                Ok(Ok(acts)) => acts.iter().for_each(|a| b.extend(bits_of(a))),
                Ok(Err(_)) => b.push(1),
                // for instance a zero modulus that is to be normalised
                Err(_) => b.push(2),
            }
        }
        rt::IN_SUT.with(|f| f.set(was));
        b
    };
    bits.extend(structure(net));
    Ok(bits)
}

pub fn shape_bits(s: &IOShape) -> u64 {
    match s {
        IOShape::Scalar(n) => *n as u64,
        IOShape::Matrix(n) => *n as u64 | 1 << 40,
    }
}

pub fn structure<T: Elem>(net: &CNetwork<T>) -> Vec<u64> {
    vec![
        net.params_len() as u64,
        net.get_input_shape().map(|s| shape_bits(&s)).unwrap_or(u64::MAX),
        net.get_output_shape().map(|s| shape_bits(&s)).unwrap_or(u64::MAX),
    ]
}
