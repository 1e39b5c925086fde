#![allow(dead_code)]
//! Element types. `S32`/`S64` wrap the library's own complex numbers: every
//! operation is delegated to the real implementation and is a preemption point;
//! activation, derivative and loss evaluations are also fault points.

use crate::rt::{point, Pt, IN_SUT};
use renplex::act::ComplexActFunc;
use renplex::err::{LossCalcError, PredicionError};
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{BasicOperations, Complex};
use renplex::opt::ComplexLossFunc;
use std::cell::Cell;
use std::fmt;
use std::ops::*;

thread_local! {
    static IDENTITY: Cell<bool> = const { Cell::new(false) };
    static FP_COUNT: Cell<u64> = const { Cell::new(0) };
    static FP_AT: Cell<u64> = const { Cell::new(0) };
    static FP_HIT: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` with activation functions of the wrapped types acting as identity.
pub fn with_identity<R>(f: impl FnOnce() -> R) -> R {
    struct R0(bool);
    impl Drop for R0 {
        fn drop(&mut self) {
            IDENTITY.with(|i| i.set(self.0));
        }
    }
    let _r = R0(IDENTITY.with(|i| i.replace(true)));
    f()
}

pub fn set_identity(on: bool) {
    IDENTITY.with(|i| i.set(on));
}

pub fn identity() -> bool {
    IDENTITY.with(|i| i.get())
}

/// Arms a fault at the `at`-th (1-based) fault point of this thread; 0 disarms.
pub fn arm(at: u64) {
    FP_COUNT.with(|c| c.set(0));
    FP_AT.with(|c| c.set(at));
    FP_HIT.with(|c| c.set(false));
}

pub fn fault_points() -> u64 {
    FP_COUNT.with(|c| c.get())
}

pub fn fault_hit() -> bool {
    FP_HIT.with(|c| c.get())
}

/// A place where processing a data point may fail.
pub fn fault_point(what: &'static str) {
    if !IN_SUT.with(|f| f.get()) {
        return;
    }
    let n = FP_COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == FP_AT.with(|c| c.get()) {
        FP_HIT.with(|c| c.set(true));
        crate::rt::bump("fault_compute");
        crate::rt::hash_event(0xF0, n);
        crate::rt::trace(|| format!("{}: computation fault at {} #{}", crate::rt::tname(), what, n));
        panic!("injected fault in {what}");
    }
}

/// What the harness needs from an element type.
pub trait Elem: Complex + BasicOperations<Self> {
    const NAME: &'static str;
    const WRAPPED: bool;
    /// unit roundoff
    const EPS: f64;
    const WIDE: bool;
    fn mk(re: f64, im: f64) -> Self;
    fn parts(&self) -> (f64, f64);
    fn bits(&self) -> (u64, u64);
    fn pbits(p: Self::Precision) -> u64;
    fn pval(p: Self::Precision) -> f64;
}

macro_rules! plain {
    ($t:ident, $p:ty, $bits:ty, $wide:expr) => {
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const WRAPPED: bool = false;
            const EPS: f64 = <$p>::EPSILON as f64;
            const WIDE: bool = $wide;
            fn mk(re: f64, im: f64) -> Self {
                $t { x: re as $p, y: im as $p }
            }
            fn parts(&self) -> (f64, f64) {
                (self.x as f64, self.y as f64)
            }
            fn bits(&self) -> (u64, u64) {
                (self.x.to_bits() as u64, self.y.to_bits() as u64)
            }
            fn pbits(p: $p) -> u64 {
                p.to_bits() as u64
            }
            fn pval(p: $p) -> f64 {
                p as f64
            }
        }
    };
}
plain!(Cf32, f32, u32, false);
plain!(Cf64, f64, u64, true);

fn unwrap_io<A: Copy, B>(v: &IOType<A>, f: impl Fn(A) -> B) -> IOType<B> {
    match v {
        IOType::Scalar(x) => IOType::Scalar(x.iter().map(|e| f(*e)).collect()),
        IOType::Matrix(ms) => IOType::Matrix(
            ms.iter()
                .map(|m| {
                    let s = m.get_shape();
                    Matrix::from_body(m.get_body().iter().map(|e| f(*e)).collect(), [s[0], s[1]])
                })
                .collect(),
        ),
    }
}

// methods the trait has gained since, delegated like the others
include!(concat!(env!("OUT_DIR"), "/extra.rs"));

/// The same value seen as the wrapped or the inner type.
#[allow(clippy::missing_safety_doc)]
unsafe fn conv<A, B>(a: A) -> B {
    assert_eq!((size_of::<A>(), align_of::<A>()), (size_of::<B>(), align_of::<B>()));
    let a = std::mem::ManuallyDrop::new(a);
    std::mem::transmute_copy(&*a)
}

macro_rules! wrapped {
    ($s:ident, $t:ident, $p:ty, $wide:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Default)]
        #[repr(transparent)]
        pub struct $s(pub $t);

        impl fmt::Display for $s {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl Add for $s {
            type Output = $s;
            fn add(self, r: $s) -> $s {
                point(Pt::Op);
                $s(self.0 + r.0)
            }
        }
        impl Sub for $s {
            type Output = $s;
            fn sub(self, r: $s) -> $s {
                point(Pt::Op);
                $s(self.0 - r.0)
            }
        }
        impl Mul for $s {
            type Output = $s;
            fn mul(self, r: $s) -> $s {
                point(Pt::Op);
                $s(self.0 * r.0)
            }
        }
        impl Div for $s {
            type Output = $s;
            fn div(self, r: $s) -> $s {
                point(Pt::Op);
                $s(self.0 / r.0)
            }
        }
        impl AddAssign for $s {
            fn add_assign(&mut self, r: $s) {
                point(Pt::Op);
                self.0 += r.0
            }
        }
        impl SubAssign for $s {
            fn sub_assign(&mut self, r: $s) {
                point(Pt::Op);
                self.0 -= r.0
            }
        }
        impl MulAssign for $s {
            fn mul_assign(&mut self, r: $s) {
                point(Pt::Op);
                self.0 *= r.0
            }
        }
        impl DivAssign for $s {
            fn div_assign(&mut self, r: $s) {
                point(Pt::Op);
                self.0 /= r.0
            }
        }
        impl $s {
            fn inner(vals: &mut [$s]) -> &mut [$t] {
                // repr(transparent)
                unsafe { std::slice::from_raw_parts_mut(vals.as_mut_ptr() as *mut $t, vals.len()) }
            }
        }
        impl Complex for $s {
            type Precision = $p;
            fn new(re: $p, im: $p) -> Self {
                $s($t::new(re, im))
            }
            fn newe(a: $p, p: $p) -> Self {
                $s($t::newe(a, p))
            }
            fn usize_to_complex(n: usize) -> Self {
                $s($t::usize_to_complex(n))
            }
            fn unit() -> Self {
                $s($t::unit())
            }
            fn iunit() -> Self {
                $s($t::iunit())
            }
            fn re(&self) -> $p {
                self.0.re()
            }
            fn im(&self) -> $p {
                self.0.im()
            }
            fn norm(&self) -> $p {
                self.0.norm()
            }
            fn norm_sq(&self) -> $p {
                self.0.norm_sq()
            }
            fn phase(&self) -> $p {
                self.0.phase()
            }
            fn conj(&self) -> Self {
                point(Pt::Op);
                $s(self.0.conj())
            }
            fn gen(seed: &mut u128, scale: usize) -> Self {
                point(Pt::Op);
                $s($t::gen(seed, scale))
            }
            fn gen_he(seed: &mut u128, u: usize) -> Self {
                point(Pt::Op);
                $s($t::gen_he(seed, u))
            }
            fn gen_xa(seed: &mut u128, u: usize) -> Self {
                point(Pt::Op);
                $s($t::gen_xa(seed, u))
            }
            fn gen_xagu(seed: &mut u128, u: usize) -> Self {
                point(Pt::Op);
                $s($t::gen_xagu(seed, u))
            }
            fn gen_xagn(seed: &mut u128, u: usize) -> Self {
                point(Pt::Op);
                $s($t::gen_xagn(seed, u))
            }
            fn gen_pred(size: usize, i: usize, m: &PredictModel) -> Result<Vec<Self>, PredicionError> {
                point(Pt::Op);
                $t::gen_pred(size, i, m).map(|v| v.into_iter().map($s).collect())
            }
            fn activate(&self, f: &ComplexActFunc) -> Self {
                point(Pt::Op);
                fault_point("activation");
                if identity() {
                    return *self;
                }
                $s(self.0.activate(f))
            }
            fn d_activate(&self, f: &ComplexActFunc) -> Self {
                point(Pt::Op);
                fault_point("activation derivative");
                if identity() {
                    return Self::unit();
                }
                $s(self.0.d_activate(f))
            }
            fn d_conj_activate(&self, f: &ComplexActFunc) -> Self {
                point(Pt::Op);
                fault_point("activation conjugate derivative");
                if identity() {
                    return Self::default();
                }
                $s(self.0.d_conj_activate(f))
            }
            fn activate_mut(vals: &mut [Self], f: &ComplexActFunc) {
                point(Pt::Op);
                fault_point("activation");
                if identity() {
                    return;
                }
                $t::activate_mut(Self::inner(vals), f);
                point(Pt::Op);
            }
            fn d_activate_mut(vals: &mut [Self], f: &ComplexActFunc) {
                point(Pt::Op);
                fault_point("activation derivative");
                if identity() {
                    vals.iter_mut().for_each(|v| *v = Self::unit());
                    return;
                }
                $t::d_activate_mut(Self::inner(vals), f)
            }
            fn d_conj_activate_mut(vals: &mut [Self], f: &ComplexActFunc) {
                point(Pt::Op);
                fault_point("activation conjugate derivative");
                if identity() {
                    vals.iter_mut().for_each(|v| *v = Self::default());
                    return;
                }
                $t::d_conj_activate_mut(Self::inner(vals), f)
            }
            fn loss(t: &IOType<Self>, p: &IOType<Self>, l: &ComplexLossFunc) -> Result<$p, LossCalcError> {
                point(Pt::Op);
                fault_point("loss");
                $t::loss(&unwrap_io(t, |e: $s| e.0), &unwrap_io(p, |e: $s| e.0), l)
            }
            fn d_loss(t: &IOType<Self>, p: &IOType<Self>, l: &ComplexLossFunc) -> Result<Vec<Self>, LossCalcError> {
                point(Pt::Op);
                fault_point("loss derivative");
                $t::d_loss(&unwrap_io(t, |e: $s| e.0), &unwrap_io(p, |e: $s| e.0), l)
                    .map(|v| v.into_iter().map($s).collect())
            }
            extra!($t);
        }
        impl Neg for $s {
            type Output = $s;
            fn neg(self) -> $s {
                point(Pt::Op);
                $s($t { x: -self.0.x, y: -self.0.y })
            }
        }
        impl std::iter::Sum for $s {
            fn sum<I: Iterator<Item = $s>>(i: I) -> $s {
                i.fold($s::default(), |a, b| a + b)
            }
        }
        impl std::iter::Product for $s {
            fn product<I: Iterator<Item = $s>>(i: I) -> $s {
                i.fold($s::unit(), |a, b| a * b)
            }
        }
        impl Elem for $s {
            const NAME: &'static str = stringify!($s);
            const WRAPPED: bool = true;
            const EPS: f64 = <$p>::EPSILON as f64;
            const WIDE: bool = $wide;
            fn mk(re: f64, im: f64) -> Self {
                $s($t::mk(re, im))
            }
            fn parts(&self) -> (f64, f64) {
                self.0.parts()
            }
            fn bits(&self) -> (u64, u64) {
                self.0.bits()
            }
            fn pbits(p: $p) -> u64 {
                $t::pbits(p)
            }
            fn pval(p: $p) -> f64 {
                $t::pval(p)
            }
        }
    };
}
wrapped!(S32, Cf32, f32, false);
wrapped!(S64, Cf64, f64, true);
