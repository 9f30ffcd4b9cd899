//! C29 densities and C30 generic programs evaluated in a number type that carries derivatives.
//!
//! `Dual<T>` is an ordinary number type (`Float`, `FloatConst`, …) that propagates a first
//! derivative by the rules of calculus; nested once more it propagates a second one. The monitored
//! code knows nothing of it: it must reach the derivative through the operations of the type.

use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

use num_traits::{Float, FloatConst, FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};

use crate::ft::{in_mj, in_sm};
use crate::re::{self, Env, R};
use crate::sym::{bx, env_txt, gen_expr};
use mathjit::final_tagless as mj;
use symbolic_math::Expr;
use symbolic_math::final_tagless as sm;
use crate::hp::{D, d};
use crate::mon::{Mon, Verdict, guard};
use crate::rng::{Rng, fnv, hs};
use measures_combinators::{MixtureMeasure, ProductMeasureExt};
use measures_core::{DotProduct, EvaluateAt, HasLogDensity, HasLogDensityDecomposition, LogDensity, LogDensityBuilder, Measure};
use measures_distributions::*;
use measures_exponential_family::exponential_family::jit::generate_zero_overhead_exp_fam;
use measures_exponential_family::{IID, SumSufficientStats, compute_exp_fam_log_density, compute_iid_exp_fam_log_density};

/// A value and its derivative with respect to the one seeded variable.
#[derive(Clone, Copy, Debug, Default)]
pub struct Dual<T> {
    pub v: T,
    pub e: T,
}

impl<T: Float> Dual<T> {
    pub fn new(v: T, e: T) -> Self {
        Dual { v, e }
    }
    pub fn c(v: T) -> Self {
        Dual { v, e: T::zero() }
    }
    /// f(v) with derivative f'(v)·e.
    fn chain(self, v: T, df: T) -> Self {
        // a constant stays a constant, whatever the slope
        Dual { v, e: if self.e.is_zero() { T::zero() } else { df * self.e } }
    }
}

impl<T: fmt::Display> fmt::Display for Dual<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl<T: Float> PartialEq for Dual<T> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<T: Float> PartialOrd for Dual<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
impl<T: Float> Add for Dual<T> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual { v: self.v + o.v, e: self.e + o.e }
    }
}
impl<T: Float> Sub for Dual<T> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual { v: self.v - o.v, e: self.e - o.e }
    }
}
fn times<T: Float>(slope: T, e: T) -> T {
    if e.is_zero() { T::zero() } else { slope * e }
}
impl<T: Float> Mul for Dual<T> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual { v: self.v * o.v, e: times(o.v, self.e) + times(self.v, o.e) }
    }
}
impl<T: Float> Div for Dual<T> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let q = self.v / o.v;
        Dual { v: q, e: (self.e - times(q, o.e)) / o.v }
    }
}
impl<T: Float> Rem for Dual<T> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        let q = (self.v / o.v).trunc();
        Dual { v: self.v % o.v, e: self.e - times(q, o.e) }
    }
}
impl<T: Float> Neg for Dual<T> {
    type Output = Self;
    fn neg(self) -> Self {
        Dual { v: -self.v, e: -self.e }
    }
}
impl<T: Float> std::ops::AddAssign for Dual<T> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o;
    }
}
impl<T: Float> std::ops::MulAssign for Dual<T> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o;
    }
}
impl<T: Float> std::ops::SubAssign for Dual<T> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o;
    }
}
impl<T: Float> std::ops::DivAssign for Dual<T> {
    fn div_assign(&mut self, o: Self) {
        *self = *self / o;
    }
}
impl<T: Float> std::iter::Sum for Dual<T> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, T: Float> std::iter::Sum<&'a Dual<T>> for Dual<T> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + *b)
    }
}
impl<T: Float> std::iter::Product for Dual<T> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::one(), |a, b| a * b)
    }
}
impl<T: Float> Zero for Dual<T> {
    fn zero() -> Self {
        Self::c(T::zero())
    }
    fn is_zero(&self) -> bool {
        // as a factor only an identically vanishing number may be skipped
        self.v.is_zero() && self.e.is_zero()
    }
}
impl<T: Float> One for Dual<T> {
    fn one() -> Self {
        Self::c(T::one())
    }
}
impl<T: Float> Num for Dual<T> {
    type FromStrRadixErr = T::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        T::from_str_radix(s, r).map(Self::c)
    }
}
impl<T: Float> ToPrimitive for Dual<T> {
    fn to_i64(&self) -> Option<i64> {
        self.v.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.v.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.v.to_f64()
    }
}
impl<T: Float> NumCast for Dual<T> {
    fn from<N: ToPrimitive>(n: N) -> Option<Self> {
        T::from(n).map(Self::c)
    }
}
impl<T: Float> FromPrimitive for Dual<T> {
    fn from_i64(n: i64) -> Option<Self> {
        T::from(n).map(Self::c)
    }
    fn from_u64(n: u64) -> Option<Self> {
        T::from(n).map(Self::c)
    }
    fn from_f64(n: f64) -> Option<Self> {
        T::from(n).map(Self::c)
    }
}
macro_rules! consts {
    ($($n:ident)*) => {
        impl<T: Float + FloatConst> FloatConst for Dual<T> {
            $(fn $n() -> Self { Self::c(T::$n()) })*
        }
    };
}
consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);

fn k<T: Float>(x: f64) -> T {
    T::from(x).unwrap()
}

macro_rules! fixed {
    ($($n:ident)*) => { $(fn $n() -> Self { Self::c(T::$n()) })* };
}
macro_rules! asks {
    ($($n:ident)*) => { $(fn $n(self) -> bool { self.v.$n() })* };
}
macro_rules! flat {
    ($($n:ident)*) => { $(fn $n(self) -> Self { Self::c(self.v.$n()) })* };
}
impl<T: Float> Float for Dual<T> {
    fixed!(nan infinity neg_infinity neg_zero min_value min_positive_value epsilon max_value);
    asks!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    flat!(floor ceil round trunc signum);
    fn classify(self) -> FpCategory {
        self.v.classify()
    }
    fn fract(self) -> Self {
        Dual { v: self.v.fract(), e: self.e }
    }
    fn abs(self) -> Self {
        if self.v.is_sign_negative() { -self } else { self }
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        let p = self * a + b;
        Dual { v: self.v.mul_add(a.v, b.v), e: p.e }
    }
    fn recip(self) -> Self {
        Self::one() / self
    }
    fn powi(self, n: i32) -> Self {
        if n == 0 {
            return Self::one();
        }
        self.chain(self.v.powi(n), k::<T>(n as f64) * self.v.powi(n - 1))
    }
    fn powf(self, n: Self) -> Self {
        let v = self.v.powf(n.v);
        let base = times(n.v * self.v.powf(n.v - T::one()), self.e);
        let exponent = if n.e.is_zero() { T::zero() } else { v * self.v.ln() * n.e };
        Dual { v, e: base + exponent }
    }
    fn sqrt(self) -> Self {
        let s = self.v.sqrt();
        self.chain(s, (s + s).recip())
    }
    fn exp(self) -> Self {
        let v = self.v.exp();
        self.chain(v, v)
    }
    fn exp2(self) -> Self {
        let v = self.v.exp2();
        self.chain(v, v * k(std::f64::consts::LN_2))
    }
    fn ln(self) -> Self {
        self.chain(self.v.ln(), self.v.recip())
    }
    fn log(self, b: Self) -> Self {
        self.ln() / b.ln()
    }
    fn log2(self) -> Self {
        self.chain(self.v.log2(), (self.v * k(std::f64::consts::LN_2)).recip())
    }
    fn log10(self) -> Self {
        self.chain(self.v.log10(), (self.v * k(std::f64::consts::LN_10)).recip())
    }
    fn max(self, o: Self) -> Self {
        if self.v >= o.v || o.v.is_nan() { self } else { o }
    }
    fn min(self, o: Self) -> Self {
        if self.v <= o.v || o.v.is_nan() { self } else { o }
    }
    #[allow(deprecated)]
    fn abs_sub(self, o: Self) -> Self {
        if self.v > o.v { self - o } else { Self::zero() }
    }
    fn cbrt(self) -> Self {
        let c = self.v.cbrt();
        self.chain(c, (k::<T>(3.0) * c * c).recip())
    }
    fn hypot(self, o: Self) -> Self {
        let h = self.v.hypot(o.v);
        Dual { v: h, e: times(self.v / h, self.e) + times(o.v / h, o.e) }
    }
    fn sin(self) -> Self {
        self.chain(self.v.sin(), self.v.cos())
    }
    fn cos(self) -> Self {
        self.chain(self.v.cos(), -self.v.sin())
    }
    fn tan(self) -> Self {
        let t = self.v.tan();
        self.chain(t, T::one() + t * t)
    }
    fn asin(self) -> Self {
        self.chain(self.v.asin(), (T::one() - self.v * self.v).sqrt().recip())
    }
    fn acos(self) -> Self {
        self.chain(self.v.acos(), -(T::one() - self.v * self.v).sqrt().recip())
    }
    fn atan(self) -> Self {
        self.chain(self.v.atan(), (T::one() + self.v * self.v).recip())
    }
    fn atan2(self, o: Self) -> Self {
        let r = self.v * self.v + o.v * o.v;
        Dual { v: self.v.atan2(o.v), e: times(o.v / r, self.e) - times(self.v / r, o.e) }
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Self {
        self.chain(self.v.exp_m1(), self.v.exp())
    }
    fn ln_1p(self) -> Self {
        self.chain(self.v.ln_1p(), (T::one() + self.v).recip())
    }
    fn sinh(self) -> Self {
        self.chain(self.v.sinh(), self.v.cosh())
    }
    fn cosh(self) -> Self {
        self.chain(self.v.cosh(), self.v.sinh())
    }
    fn tanh(self) -> Self {
        let t = self.v.tanh();
        self.chain(t, T::one() - t * t)
    }
    fn asinh(self) -> Self {
        self.chain(self.v.asinh(), T::one().hypot(self.v).recip())
    }
    fn acosh(self) -> Self {
        self.chain(self.v.acosh(), (self.v * self.v - T::one()).sqrt().recip())
    }
    fn atanh(self) -> Self {
        self.chain(self.v.atanh(), (T::one() - self.v * self.v).recip())
    }
    fn to_degrees(self) -> Self {
        Dual { v: self.v.to_degrees(), e: self.e.to_degrees() }
    }
    fn to_radians(self) -> Self {
        Dual { v: self.v.to_radians(), e: self.e.to_radians() }
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.v.integer_decode()
    }
}

// ---------------------------------------------------------------- the monitor

/// A sum of terms: its value, and the size of what was added.
#[derive(Clone, Copy)]
struct S {
    v: D,
    mag: f64,
}
fn s(ts: &[D]) -> S {
    let mut r = S { v: d(0.0), mag: 0.0 };
    for t in ts {
        r.v = r.v + *t;
        r.mag += t.f().abs();
    }
    r
}
impl S {
    fn plus(self, o: S) -> S {
        S { v: self.v + o.v, mag: self.mag + o.mag }
    }
    fn minus(self, o: S) -> S {
        S { v: self.v - o.v, mag: self.mag + o.mag }
    }
}

type D1 = Dual<f64>;
type D2 = Dual<D1>;

trait Num1: Float + FloatConst + fmt::Debug + fmt::Display + Default + Send + Sync + std::iter::Sum + 'static {
    const NAME: &'static str;
    fn c(x: f64) -> Self;
    fn seed(x: f64) -> Self;
    fn value(self) -> f64;
    fn first(self) -> [f64; 2];
    fn second(self) -> Option<f64>;
}
impl Num1 for D1 {
    const NAME: &'static str = "dual";
    fn c(x: f64) -> Self {
        Dual::c(x)
    }
    fn seed(x: f64) -> Self {
        Dual::new(x, 1.0)
    }
    fn value(self) -> f64 {
        self.v
    }
    fn first(self) -> [f64; 2] {
        [self.e, self.e]
    }
    fn second(self) -> Option<f64> {
        None
    }
}
impl Num1 for D2 {
    const NAME: &'static str = "hyperdual";
    fn c(x: f64) -> Self {
        Dual::c(Dual::c(x))
    }
    fn seed(x: f64) -> Self {
        Dual::new(Dual::new(x, 1.0), Dual::c(1.0))
    }
    fn value(self) -> f64 {
        self.v.v
    }
    fn first(self) -> [f64; 2] {
        [self.v.e, self.e.v]
    }
    fn second(self) -> Option<f64> {
        Some(self.e.e)
    }
}

const TOL: f64 = 2e-12;

fn close(want: S, got: f64, what: &str) -> Option<String> {
    let err = (d(got) - want.v).f().abs();
    (!(err <= TOL * want.mag + 1e-280)).then(|| format!("{what} {got:e}, expected {:e} (error {err:e}, allowed {:e})", want.v.f(), TOL * want.mag))
}

/// The value against the plain evaluation, the derivatives against calculus.
fn judge<T: Num1>(plain: Option<f64>, first: S, second: Option<S>, got: Result<T, String>) -> Verdict {
    let g = match got {
        Ok(g) => g,
        Err(p) => return Verdict::Violated(format!("panicked: {p}")),
    };
    if !first.v.is_finite() || !first.mag.is_finite() || first.mag > 1e100 || plain.is_some_and(|p| !p.is_finite()) {
        return Verdict::Inconclusive;
    }
    if let Some(p) = plain {
        if !((g.value() - p).abs() <= 1e-9 * (1.0 + p.abs())) {
            return Verdict::Violated(format!("value {:e}, evaluated in f64 {p:e}", g.value()));
        }
    }
    for f in g.first() {
        if let Some(t) = close(first, f, "derivative") {
            return Verdict::Violated(t);
        }
    }
    if let (Some(w), Some(f)) = (second, g.second()) {
        if w.v.is_finite() && w.mag < 1e100 {
            if let Some(t) = close(w, f, "second derivative") {
                return Verdict::Violated(t);
            }
        }
    }
    Verdict::Held
}

/// First and second derivative of a density with respect to its point.
struct Score {
    first: S,
    second: S,
}

fn sc(first: &[D], second: &[D], extra: f64) -> Score {
    let mut q = s(second);
    q.mag += extra;
    Score { first: s(first), second: q }
}

fn sq(x: D) -> D {
    x * x
}

/// A family over the real line: how to draw it, build it in a number type, and its score.
trait Cont {
    const NAME: &'static str;
    fn draw(r: &mut Rng) -> Vec<f64>;
    fn point(p: &[f64], r: &mut Rng) -> f64;
    fn score(p: &[f64], x: f64) -> Score;
}
trait Make<T>: Cont {
    type M: Measure<T> + HasLogDensity<T, T> + Clone;
    fn make(p: &[T]) -> Self::M;
}

fn scale(r: &mut Rng) -> f64 {
    r.pos().clamp(1e-12, 1e12)
}
fn loc(r: &mut Rng) -> f64 {
    r.loc().clamp(-1e12, 1e12)
}
fn spread(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.normal() * r.logu(-6.0, 6.0),
        1 => *r.pick(&[0.0, 1.0, -1.0, 2.0, -0.5]),
        _ => r.normal() * 2.0,
    }
}
fn shape(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[1.0, 2.0, 0.5, 3.0]),
        1 => r.logu(-8.0, 8.0),
        _ => r.logu(-1.0, 2.0),
    }
}
fn unit(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.logu(-12.0, -1.0),
        1 => 1.0 - r.logu(-9.0, -1.0),
        2 => *r.pick(&[0.5, 0.25, 0.75, 0.1]),
        _ => r.range(0.01, 0.99),
    }
}

macro_rules! family {
    ($Tag:ident, $M:ident, draw $dr:expr, point $pt:expr, score $sc:expr, make |$q:ident| $mk:expr, $($bound:tt)*) => {
        struct $Tag;
        impl Cont for $Tag {
            const NAME: &'static str = stringify!($M);
            fn draw(r: &mut Rng) -> Vec<f64> {
                let f: fn(&mut Rng) -> Vec<f64> = $dr;
                f(r)
            }
            fn point(p: &[f64], r: &mut Rng) -> f64 {
                let f: fn(&[f64], &mut Rng) -> f64 = $pt;
                f(p, r)
            }
            fn score(p: &[f64], x: f64) -> Score {
                let f: fn(&[D], D) -> Score = $sc;
                f(&p.iter().map(|v| d(*v)).collect::<Vec<_>>(), d(x))
            }
        }
        impl<T: $($bound)*> Make<T> for $Tag {
            type M = $M<T>;
            fn make($q: &[T]) -> $M<T> {
                $mk
            }
        }
    };
}

family!(FNormal, Normal, draw |r| vec![loc(r), scale(r)], point |p, r| p[0] + p[1] * spread(r),
    score |p, x| sc(&[(p[0] - x) / sq(p[1])], &[d(-1.0) / sq(p[1])], 0.0), make |q| Normal::new(q[0], q[1]), Float + FloatConst);
family!(FCauchy, Cauchy, draw |r| vec![loc(r), scale(r)], point |p, r| p[0] + p[1] * spread(r),
    score |p, x| {
        let z = (x - p[0]) / p[1];
        let w = d(1.0) + sq(z);
        sc(&[d(-2.0) * z / (p[1] * w)], &[d(-2.0) / sq(p[1] * w), d(2.0) * sq(z) / sq(p[1] * w)], (d(8.0) / (sq(p[1]) * w)).f())
    }, make |q| Cauchy::new(q[0], q[1]), Float + FloatConst);
family!(FStudent, StudentT, draw |r| vec![shape(r)], point |p, r| spread(r) * p[0].sqrt().max(1.0),
    score |p, x| {
        let w = p[0] + sq(x);
        sc(&[-(p[0] + d(1.0)) * x / w], &[-(p[0] + d(1.0)) * (p[0] - sq(x)) / sq(w)], ((p[0] + d(1.0)) * d(8.0) / w).f())
    }, make |q| StudentT::new(q[0]), Float + FloatConst + fmt::Debug);
family!(FExponential, Exponential, draw |r| vec![scale(r)], point |p, r| r.logu(-6.0, 3.0) / p[0],
    score |p, _| sc(&[-p[0]], &[], p[0].f()), make |q| Exponential::new(q[0]), Float);
family!(FGamma, Gamma, draw |r| vec![shape(r), scale(r)], point |p, r| p[0].max(0.01) / p[1] * r.logu(-4.0, 2.0),
    score |p, x| { let mut t = sc(&[(p[0] - d(1.0)) / x, -p[1]], &[-(p[0] - d(1.0)) / sq(x)], 0.0); t.first.mag += (d(1.0) / x).f(); t.second.mag += (d(1.0) / sq(x)).f(); t },
    make |q| Gamma::new(q[0], q[1]), Float);
family!(FChi, ChiSquared, draw |r| vec![shape(r)], point |p, r| p[0].max(0.01) * r.logu(-4.0, 2.0),
    score |p, x| { let a = p[0] / d(2.0) - d(1.0); let mut t = sc(&[a / x, d(-0.5)], &[-a / sq(x)], 0.0); t.first.mag += (d(1.0) / x).f(); t.second.mag += (d(1.0) / sq(x)).f(); t },
    make |q| ChiSquared::new(q[0]), Float);
family!(FBeta, Beta, draw |r| vec![shape(r), shape(r)], point |_, r| unit(r),
    score |p, x| {
        let (y, a, b) = (d(1.0) - x, p[0] - d(1.0), p[1] - d(1.0));
        let mut t = sc(&[a / x, -b / y], &[-a / sq(x), -b / sq(y)], 0.0);
        t.first.mag += (d(1.0) / x + d(1.0) / y).f();
        t.second.mag += (d(1.0) / sq(x) + d(1.0) / sq(y)).f();
        t
    }, make |q| Beta::new(q[0], q[1]), Float);

fn cs<T: Num1>(p: &[f64]) -> Vec<T> {
    p.iter().map(|v| T::c(*v)).collect()
}
fn cf(p: &[f64]) -> Vec<f64> {
    p.to_vec()
}

/// Every density, on its own, relative to another, in products and mixtures.
fn plain_routes<F, T: Num1>(mon: &mut Mon, n: usize)
where
    F: Make<T> + Make<f64>,
    <<F as Make<T>>::M as Measure<T>>::RootMeasure: Clone,
    LogDensity<T, <F as Make<T>>::M, <<F as Make<T>>::M as Measure<T>>::RootMeasure>: EvaluateAt<T, T>,
    LogDensity<T, <F as Make<T>>::M, <F as Make<T>>::M>: EvaluateAt<T, T>,
{
    let mut r = mon.rng.derive(&format!("c29{}{}", F::NAME, T::NAME));
    let kind = format!("{}/{}", F::NAME, T::NAME);
    for _ in 0..n {
        let (p, p2) = (F::draw(&mut r), F::draw(&mut r));
        let x = F::point(&p, &mut r);
        let Ok((m, m2)) = guard(|| (<F as Make<T>>::make(&cs(&p)), <F as Make<T>>::make(&cs(&p2)))) else {
            mon.observe(&kind, "generic:construct", hs(&format!("{p:?}")), true, || format!("{} {p:?}", F::NAME), Verdict::Violated("the constructor panicked".into()));
            continue;
        };
        let (f, f2) = (<F as Make<f64>>::make(&cf(&p)), <F as Make<f64>>::make(&cf(&p2)));
        let (v, v2) = (f.log_density_wrt_root(&x), f2.log_density_wrt_root(&x));
        let (w, w2) = (F::score(&p, x), F::score(&p2, x));
        let key = fnv(&p.iter().chain(&p2).chain([&x]).map(|v| v.to_bits()).collect::<Vec<_>>());
        let t = T::seed(x);
        let sg = format!("generic:{}", F::NAME);
        let case = |route: &str| format!("{} of {} {p:?} at {x:?} via {route}", T::NAME, F::NAME);
        let both = |a: Option<f64>, got| judge::<T>(a, w.first, Some(w.second), got);
        mon.observe(&kind, &sg, key, true, || case("root density"), both(Some(v), guard(|| m.log_density_wrt_root(&t))));
        mon.observe(&kind, &sg, key, true, || case("builder"), both(Some(v), guard(|| m.log_density().at(&t))));
        let rel = judge::<T>(Some(v - v2), w.first.minus(w2.first), Some(w.second.minus(w2.second)), guard(|| m.log_density().wrt(m2.clone()).at(&t)));
        mon.observe("relative", &format!("generic-relative:{}", F::NAME), key, true, || format!("{} relative to {p2:?}", case("builder")), rel);
        // a point that does not vary has no derivative
        let flat = judge::<T>(Some(v), S { v: d(0.0), mag: 0.0 }, Some(S { v: d(0.0), mag: 0.0 }), guard(|| m.log_density_wrt_root(&T::c(x))));
        mon.observe("constant", &sg, key, true, || case("constant point"), flat);
        // product: the derivative along one coordinate
        let y = F::point(&p2, &mut r);
        let vy = f2.log_density_wrt_root(&y);
        let pr = ProductMeasureExt::<T>::product::<_, T>(m.clone(), m2.clone());
        let got = guard(|| HasLogDensity::<(T, T), T>::log_density_wrt_root(&pr, &(t, T::c(y))));
        mon.observe("product", "generic-product", key, true, || format!("{} ⊗ {p2:?} at {y:?}, along the first", case("product")), judge::<T>(Some(v + vy), w.first, Some(w.second), got));
        let wy = F::score(&p2, y);
        let got = guard(|| HasLogDensity::<(T, T), T>::log_density_wrt_root(&pr, &(T::c(x), T::seed(y))));
        mon.observe("product", "generic-product", key ^ 1, true, || format!("{} ⊗ {p2:?} at {y:?}, along the second", case("product")), judge::<T>(Some(v + vy), wy.first, Some(wy.second), got));
        // mixture of k members
        let k = r.int(1, 5) as usize;
        let ps: Vec<Vec<f64>> = (0..k).map(|i| if i == 0 { p.clone() } else { F::draw(&mut r) }).collect();
        let ws: Vec<f64> = crate::refs::draw_probs::<f64>(&mut r, k, true);
        let mix = guard(|| MixtureMeasure::new(ps.iter().map(|q| <F as Make<T>>::make(&cs(q))).collect(), ws.iter().map(|w| T::c(*w)).collect::<Vec<T>>()));
        let ls: Vec<f64> = ps.iter().zip(&ws).map(|(q, w)| <F as Make<f64>>::make(&cf(q)).log_density_wrt_root(&x) + w.ln()).collect();
        let top = ls.iter().zip(&ws).filter(|(_, w)| **w > 0.0).map(|(l, _)| *l).fold(f64::NEG_INFINITY, f64::max);
        if top.is_finite() {
            let mut tot = d(0.0);
            let mut num = S { v: d(0.0), mag: 0.0 };
            for ((q, l), w) in ps.iter().zip(&ls).zip(&ws) {
                if *w > 0.0 && *l > top - 600.0 {
                    let g = (d(*l) - d(top)).exp();
                    let c = F::score(q, x).first;
                    tot = tot + g;
                    num.v = num.v + g * c.v;
                    // the plain log-densities enter the weights with their rounding
                    num.mag += (g.f() * c.mag) * (1.0 + l.abs());
                } else if *w > 0.0 {
                    // a member left out of the sum may still contribute a vanishing part
                    num.mag += 1e-240 * F::score(q, x).first.mag;
                }
            }
            let want = S { v: num.v / tot, mag: num.mag / tot.f() * (1.0 + top.abs()) * 4.0 };
            let got = match mix {
                Ok(mix) => guard(|| HasLogDensity::<T, T>::log_density_wrt_root(&mix, &t)),
                Err(p) => Err(p),
            };
            mon.observe("mixture", "generic-mixture", key, true, || format!("mixture of {} {ps:?} with weights {ws:?} at {x:?}", F::NAME), judge::<T>(None, want, None, got));
        }
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, n as u64 / 2);
}

/// The exponential-family routes of a density.
fn natural_routes<F, T: Num1>(mon: &mut Mon, n: usize)
where
    F: Make<T> + Make<f64>,
    <F as Make<T>>::M: ExponentialFamily<T, T>,
    <<F as Make<T>>::M as ExponentialFamily<T, T>>::NaturalParam: DotProduct<<<F as Make<T>>::M as ExponentialFamily<T, T>>::SufficientStat, Output = T> + Clone,
    <<F as Make<T>>::M as ExponentialFamily<T, T>>::SufficientStat: SumSufficientStats<<<F as Make<T>>::M as ExponentialFamily<T, T>>::SufficientStat>,
    <<F as Make<T>>::M as ExponentialFamily<T, T>>::BaseMeasure: HasLogDensity<T, T> + Clone,
    <<F as Make<T>>::M as Measure<T>>::RootMeasure: Clone,
{
    let mut r = mon.rng.derive(&format!("c29n{}{}", F::NAME, T::NAME));
    let kind = format!("natural/{}/{}", F::NAME, T::NAME);
    for _ in 0..n {
        let (p, p2) = (F::draw(&mut r), F::draw(&mut r));
        let xs: Vec<f64> = (0..r.int(1, 6)).map(|_| F::point(&p, &mut r)).collect();
        let Ok((m, m2)) = guard(|| (<F as Make<T>>::make(&cs(&p)), <F as Make<T>>::make(&cs(&p2)))) else { continue };
        let x = xs[0];
        let v = <F as Make<f64>>::make(&cf(&p)).log_density_wrt_root(&x);
        let mut w = F::score(&p, x);
        // η·T sums terms that the direct formula combines first
        if F::NAME == "Normal" {
            let k = d(p[1] * p[1]);
            w.first.mag += (d(p[0].abs()) / k + d(x.abs()) / k).f() * 2.0;
            w.second.mag *= 4.0;
        }
        let t = T::seed(x);
        let key = fnv(&p.iter().chain(&xs).map(|v| v.to_bits()).collect::<Vec<_>>());
        let sg = format!("generic-natural:{}", F::NAME);
        let case = |route: &str| format!("{} of {} {p:?} at {xs:?} via {route}", T::NAME, F::NAME);
        // (the values of this form are judged by C03)
        let mut route = |name: &str, got: Result<T, String>| mon.observe(&kind, &sg, key, true, || case(name), judge::<T>(None, w.first, Some(w.second), got));
        route("exp_fam_log_density", guard(|| m.exp_fam_log_density(&t)));
        route("compute_exp_fam_log_density", guard(|| compute_exp_fam_log_density::<T, T, _>(&m, &t)));
        route("zero-overhead", guard(|| generate_zero_overhead_exp_fam::<_, T, T>(m.clone())(&t)));
        // a joint along one of its observations
        let at = r.below(xs.len());
        let mut wi = F::score(&p, xs[at]);
        if F::NAME == "Normal" {
            let k = d(p[1] * p[1]);
            wi.first.mag += (d(p[0].abs()) / k + d(xs[at].abs()) / k).f() * 2.0;
            wi.second.mag *= 4.0;
        }
        let ts: Vec<T> = xs.iter().enumerate().map(|(i, x)| if i == at { T::seed(*x) } else { T::c(*x) }).collect();
        let iid = IID::new(m.clone());
        let mut joint = |name: &str, got: Result<T, String>| mon.observe("joint", &format!("generic-joint:{}", F::NAME), key ^ at as u64, true, || format!("{} along observation {at}", case(name)), judge::<T>(None, wi.first, Some(wi.second), got));
        joint("iid_log_density", guard(|| iid.iid_log_density::<T, T>(&ts)));
        joint("compute_iid_exp_fam_log_density", guard(|| compute_iid_exp_fam_log_density::<T, T, _>(&m, &ts)));
        joint("fallback", guard(|| iid.iid_log_density_fallback::<T, T>(&ts)));
        let _ = (v, &m2);
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, n as u64 / 2);
}

fn decompositions<T: Num1>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c29d{}", T::NAME));
    for _ in 0..n {
        macro_rules! one {
            ($Tag:ident) => {{
                let p = $Tag::draw(&mut r);
                let xs: Vec<f64> = (0..r.int(1, 6)).map(|_| $Tag::point(&p, &mut r)).collect();
                let at = r.below(xs.len());
                let mut w = $Tag::score(&p, xs[at]);
                if $Tag::NAME == "Normal" {
                    let k = d(p[1] * p[1]);
                    w.first.mag += (d(p[0].abs()) / k + d(xs[at].abs()) / k).f() * 2.0;
                    w.second.mag *= 4.0;
                }
                let m = <$Tag as Make<T>>::make(&cs(&p));
                let theta = m.params();
                let key = fnv(&p.iter().chain(&xs).map(|v| v.to_bits()).collect::<Vec<_>>());
                let case = || format!("{} of the decomposition of {} {p:?} at {xs:?} along {at}", T::NAME, $Tag::NAME);
                let sg = format!("generic-decomposition:{}", $Tag::NAME);
                let got = guard(|| HasLogDensityDecomposition::<T, _, T>::log_density_decomposition(&m).evaluate(&T::seed(xs[at]), &theta));
                mon.observe("decomposition", &sg, key, true, case, judge::<T>(None, w.first, Some(w.second), got));
                let ts: Vec<T> = xs.iter().enumerate().map(|(i, x)| if i == at { T::seed(*x) } else { T::c(*x) }).collect();
                let got = guard(|| m.log_density_iid(&ts));
                mon.observe("decomposition", &sg, key ^ 1, true, case, judge::<T>(None, w.first, Some(w.second), got));
                // every point of a batch carries its own derivative
                let got = guard(|| measures_core::log_density_batch::<T, T, _>(&m, &ts));
                let v = match got {
                    Ok(g) if g.len() == ts.len() => judge::<T>(None, w.first, Some(w.second), Ok(g[at])),
                    Ok(g) => Verdict::Violated(format!("{} values for {} points", g.len(), ts.len())),
                    Err(e) => Verdict::Violated(format!("panicked: {e}")),
                };
                mon.observe("batch", &format!("generic-batch:{}", $Tag::NAME), key, true, || format!("{} batch of {} {p:?} at {xs:?} along {at}", T::NAME, $Tag::NAME), v);
                let got = guard(|| measures_core::log_density_at::<T, T, _>(&m, &T::seed(xs[at])));
                mon.observe("batch", &format!("generic-batch:{}", $Tag::NAME), key ^ 2, true, || format!("{} log_density_at of {} {p:?} at {:?}", T::NAME, $Tag::NAME, xs[at]), judge::<T>(None, w.first, Some(w.second), got));
            }};
        }
        one!(FNormal);
        one!(FCauchy);
        one!(FStudent);
        // along a parameter of the decomposition
        let (mu, sd) = (loc(&mut r), scale(&mut r));
        let x = mu + sd * spread(&mut r);
        let j = r.below(2);
        let th = if j == 0 { (T::seed(mu), T::c(sd)) } else { (T::c(mu), T::seed(sd)) };
        let key = fnv(&[mu.to_bits(), sd.to_bits(), x.to_bits(), j as u64]);
        let case = |w: &str| format!("{} of the decomposition of {w} at {x:?} along parameter {j} of ({mu:?}, {sd:?})", T::NAME);
        let z = (d(x) - d(mu)) / d(sd);
        let u = d(1.0) + z * z;
        let twice = |mut t: S, extra: f64| {
            t.mag = 2.0 * t.mag + extra;
            t
        };
        let big = ((d(mu) * d(mu) + d(x) * d(x)) / (d(sd) * d(sd)) / d(sd)).f() * 8.0 + ((d(mu).abs() + d(x).abs()) / (d(sd) * d(sd))).f() * 4.0;
        let want = twice(if j == 0 { s(&[z / d(sd)]) } else { s(&[d(-1.0) / d(sd), z * z / d(sd)]) }, big);
        let m = <FNormal as Make<T>>::make(&cs(&[0.0, 1.0]));
        let got = guard(|| HasLogDensityDecomposition::<T, _, T>::log_density_decomposition(&m).evaluate(&T::c(x), &th));
        mon.observe("decomposition", "generic-decomposition-parameter:Normal", key, true, || case("Normal"), judge::<T>(None, want, None, got));
        let want = twice(if j == 0 { s(&[d(2.0) * z / (d(sd) * u)]) } else { s(&[d(-1.0) / d(sd), d(2.0) * z * z / (d(sd) * u)]) }, 0.0);
        let m = <FCauchy as Make<T>>::make(&cs(&[0.0, 1.0]));
        let got = guard(|| HasLogDensityDecomposition::<T, _, T>::log_density_decomposition(&m).evaluate(&T::c(x), &th));
        mon.observe("decomposition", "generic-decomposition-parameter:Cauchy", key ^ 1, true, || case("Cauchy"), judge::<T>(None, want, None, got));
    }
}

/// The derivative with respect to a parameter that enters through elementary functions.
fn parameters<T: Num1>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c29p{}", T::NAME));
    fn at<T: Num1>(p: &[f64], j: usize) -> Vec<T> {
        p.iter().enumerate().map(|(i, v)| if i == j { T::seed(*v) } else { T::c(*v) }).collect()
    }
    macro_rules! fam {
        ($name:literal, $r:ident, params $dr:expr, wrt $wrt:expr, points $X:ty = |$p:ident| $pt:expr,
         score |$q:ident, $x:ident, $j:ident| $sc:expr, make |$m:ident| $mk:expr, natural $nat:tt) => {{
            let $r = &mut r;
            let $p: Vec<f64> = $dr;
            let $j: usize = $wrt;
            let xs: Vec<$X> = (0..$r.int(1, 5)).map(|_| $pt).collect();
            let $q: Vec<D> = $p.iter().map(|v| d(*v)).collect();
            // the terms of one score, and those that only a rewritten form adds and removes
            let score = |x: &$X| -> (S, f64) {
                let $x = d(*x as f64);
                let (ts, extra): (Vec<D>, D) = $sc;
                let mut t = s(&ts);
                t.mag += ts.iter().map(|t| t.f().abs()).sum::<f64>();
                (t, extra.f().abs())
            };
            let $m: Vec<T> = at(&$p, $j);
            let key = hs(&format!("{} {:?} {xs:?}", $name, $p));
            let sg = format!("generic-parameter:{}", $name);
            let kind = format!("parameter/{}", $name);
            match guard(|| $mk) {
                Err(e) => mon.observe(&kind, &sg, key, true, || format!("{} {:?}", $name, $p), Verdict::Violated(format!("the constructor panicked: {e}"))),
                Ok(m) => {
                    let (one, extra) = score(&xs[0]);
                    let point = IntoPoint::<T>::into_point(xs[0].clone());
                    let case = |w: &str| format!("{} of {} {:?} along parameter {} at {xs:?} via {w}", T::NAME, $name, $p, $j);
                    mon.observe(&kind, &sg, key, true, || case("root density"), judge::<T>(None, one, None, guard(|| HasLogDensity::<_, T>::log_density_wrt_root(&m, &point))));
                    fam!(@nat $nat, mon, m, kind, sg, key, case, one, extra, xs, score, point);
                }
            }
        }};
        (@nat no, $($t:tt)*) => {};
        (@nat single, $mon:ident, $m:ident, $kind:ident, $sg:ident, $key:ident, $case:ident, $one:ident, $extra:ident, $xs:ident, $score:ident, $point:ident) => {
            let nat = S { v: $one.v, mag: $one.mag + $extra };
            $mon.observe(&$kind, &$sg, $key ^ 1, true, || $case("exp_fam_log_density"), judge::<T>(None, nat, None, guard(|| $m.exp_fam_log_density(&$point))));
        };
        (@nat yes, $mon:ident, $m:ident, $kind:ident, $sg:ident, $key:ident, $case:ident, $one:ident, $extra:ident, $xs:ident, $score:ident, $point:ident) => {
            fam!(@nat single, $mon, $m, $kind, $sg, $key, $case, $one, $extra, $xs, $score, $point);
            let mut sum = S { v: d(0.0), mag: 0.0 };
            for x in &$xs {
                let (t, e) = $score(x);
                sum = sum.plus(t);
                sum.mag += e;
            }
            let pts: Vec<_> = $xs.iter().map(|x| IntoPoint::<T>::into_point(x.clone())).collect();
            let iid = IID::new($m.clone());
            $mon.observe("parameter/joint", &$sg, $key ^ 2, true, || $case("iid_log_density"), judge::<T>(None, sum, None, guard(|| iid.iid_log_density(&pts))));
        };
    }
    /// Continuous points are constants of the number type, counts stay counts.
    trait IntoPoint<T> {
        type P;
        fn into_point(self) -> Self::P;
    }
    impl<T: Num1> IntoPoint<T> for f64 {
        type P = T;
        fn into_point(self) -> T {
            T::c(self)
        }
    }
    macro_rules! counts {
        ($($t:ty)*) => { $(impl<T: Num1> IntoPoint<T> for $t {
            type P = $t;
            fn into_point(self) -> $t { self }
        })* };
    }
    counts!(u8 u64 usize);
    fn j_of<T: Num1>(m: &[T]) -> usize {
        m.iter().position(|x| x.first()[0] != 0.0).unwrap()
    }
    let one = d(1.0);
    let two = d(2.0);
    for _ in 0..n {
        fam!("Normal", r, params vec![loc(r), scale(r)], wrt r.below(2), points f64 = |p| p[0] + p[1] * spread(r),
            score |q, x, j| {
                let z = (x - q[0]) / q[1];
                let big = (q[0] * q[0] + x * x) / sq(q[1]);
                if j == 0 { (vec![z / q[1]], (one + q[0].abs() + x.abs()) / sq(q[1]) * d(4.0)) } else { (vec![-one / q[1], sq(z) / q[1]], big / q[1] * d(8.0)) }
            }, make |m| Normal::new(m[0], m[1]), natural yes);
        fam!("Cauchy", r, params vec![loc(r), scale(r)], wrt r.below(2), points f64 = |p| p[0] + p[1] * spread(r),
            score |q, x, j| {
                let z = (x - q[0]) / q[1];
                let w = one + sq(z);
                if j == 0 { (vec![two * z / (q[1] * w)], one) } else { (vec![-one / q[1], two * sq(z) / (q[1] * w)], one) }
            }, make |m| Cauchy::new(m[0], m[1]), natural no);
        fam!("Exponential", r, params vec![scale(r)], wrt 0, points f64 = |p| r.logu(-6.0, 3.0) / p[0],
            score |q, x, j| { let _ = j; (vec![one / q[0], -x], d(0.0)) }, make |m| Exponential::new(m[0]), natural yes);
        fam!("Gamma", r, params vec![shape(r), scale(r)], wrt 1, points f64 = |p| p[0].max(0.01) / p[1] * r.logu(-4.0, 2.0),
            score |q, x, j| { let _ = j; (vec![q[0] / q[1], -x], d(0.0)) }, make |m| Gamma::new(m[0], m[1]), natural yes);
        fam!("Bernoulli", r, params vec![unit(r)], wrt 0, points u8 = |_p| r.below(2) as u8,
            score |q, x, j| { let _ = j; (vec![x / q[0], -(one - x) / (one - q[0])], one / (q[0] * (one - q[0]))) }, make |m| Bernoulli::new(m[0]), natural yes);
        fam!("Binomial", r, params vec![r.int(1, 60) as f64, unit(r)], wrt 1, points u64 = |p| r.below(p[0] as usize + 1) as u64,
            score |q, x, j| { let _ = j; (vec![x / q[1], -(q[0] - x) / (one - q[1])], q[0] / (q[1] * (one - q[1]))) }, make |m| { let _ = &m; Binomial::new(m[0].value() as u64, m[1]) }, natural yes);
        fam!("NegativeBinomial", r, params vec![r.int(1, 60) as f64, unit(r)], wrt 1, points u64 = |_p| r.below(80) as u64,
            score |q, x, j| { let _ = j; (vec![x / q[1], -q[0] / (one - q[1])], d(0.0)) }, make |m| NegativeBinomial::new(m[0].value() as u64, m[1]), natural no);
        fam!("Geometric", r, params vec![unit(r)], wrt 0, points u64 = |_p| r.int(1, 80) as u64,
            score |q, x, j| { let _ = j; (vec![one / q[0], -(x - one) / (one - q[0])], x / (q[0] * (one - q[0]))) }, make |m| Geometric::new(m[0]), natural yes);
        fam!("Poisson", r, params vec![scale(r)], wrt 0, points u64 = |p| (p[0].min(1e6) * r.logu(-2.0, 1.0)) as u64,
            score |q, x, j| { let _ = j; (vec![x / q[0], -one], d(0.0)) }, make |m| Poisson::new(m[0]), natural yes);
        let k = r.int(2, 6) as usize;
        fam!("Categorical", r, params crate::refs::draw_probs::<f64>(r, k, false), wrt r.below(k), points usize = |p| r.below(p.len()),
            // along the simplex: one probability grows as another shrinks
            score |q, x, j| {
                let (i, o) = (x.f() as usize, (j + 1) % q.len());
                (vec![if i == j { one / q[j] } else if i == o { -one / q[o] } else { d(0.0) }], q.iter().fold(d(0.0), |a, b| a + one / *b))
            }, make |m| {
                let (j, mut m) = (j_of(&m), m);
                let o = (j + 1) % m.len();
                m[o] = -T::seed(-m[o].value());
                Categorical::new(m)
            }, natural single);
        if mon.spent() {
            break;
        }
    }
    for f in ["Normal", "Cauchy", "Exponential", "Gamma", "Bernoulli", "Binomial", "NegativeBinomial", "Geometric", "Poisson", "Categorical", "joint"] {
        mon.require(&format!("parameter/{f}"), n as u64 / 2);
    }
}

pub fn c29(mon: &mut Mon) {
    mon.rule = "family × parameters × point × route, evaluated in a dual (first derivative) and a hyperdual (second derivative) number type; distinct by (family, parameters, point)".into();
    let n = mon.n(3000, 60_000);
    macro_rules! each {
        ($f:ident: $($Tag:ident)*) => { $( $f::<$Tag, D1>(mon, n); $f::<$Tag, D2>(mon, n / 3); )* };
    }
    each!(plain_routes: FNormal FCauchy FStudent FExponential FGamma FChi FBeta);
    each!(natural_routes: FNormal FExponential FGamma FChi FBeta);
    decompositions::<D1>(mon, n);
    decompositions::<D2>(mon, n / 3);
    parameters::<D1>(mon, n);
    parameters::<D2>(mon, n / 3);
    for k in ["relative", "product", "mixture", "joint", "decomposition", "constant", "batch"] {
        mon.require(k, n as u64);
    }
}

// ---------------------------------------------------------------- C30 generic programs

/// The derivative as a formula, composed the way the chain rule composes it; `None` is zero.
fn diff(e: &Expr, x: &str) -> Option<Expr> {
    let one = || Expr::Const(1.0);
    let mul = |a: Expr, b: Expr| Expr::Mul(bx(a), bx(b));
    let add = |a: Option<Expr>, b: Option<Expr>| match (a, b) {
        (Some(a), Some(b)) => Some(Expr::Add(bx(a), bx(b))),
        (a, b) => a.or(b),
    };
    match e {
        Expr::Const(_) => None,
        Expr::Var(n) => (n == x).then(one),
        Expr::Add(a, b) => add(diff(a, x), diff(b, x)),
        Expr::Sub(a, b) => match (diff(a, x), diff(b, x)) {
            (Some(a), Some(b)) => Some(Expr::Sub(bx(a), bx(b))),
            (a, None) => a,
            (None, Some(b)) => Some(Expr::Neg(bx(b))),
        },
        Expr::Mul(a, b) => add(diff(a, x).map(|q| mul((**b).clone(), q)), diff(b, x).map(|q| mul((**a).clone(), q))),
        Expr::Div(a, b) => {
            let (p, q) = (diff(a, x), diff(b, x));
            let q = q.map(|q| mul(e.clone(), q));
            let num = match (p, q) {
                (None, None) => return None,
                (Some(p), None) => p,
                (None, Some(q)) => Expr::Neg(bx(q)),
                (Some(p), Some(q)) => Expr::Sub(bx(p), bx(q)),
            };
            Some(Expr::Div(bx(num), b.clone()))
        }
        Expr::Pow(a, b) => {
            let base = diff(a, x).map(|p| mul(mul((**b).clone(), Expr::Pow(a.clone(), bx(Expr::Sub(b.clone(), bx(one()))))), p));
            let exponent = diff(b, x).map(|q| mul(mul(e.clone(), Expr::Ln(a.clone())), q));
            add(base, exponent)
        }
        Expr::Neg(a) => diff(a, x).map(|p| Expr::Neg(bx(p))),
        Expr::Ln(a) => diff(a, x).map(|p| Expr::Div(bx(p), a.clone())),
        Expr::Exp(a) => diff(a, x).map(|p| mul(e.clone(), p)),
        Expr::Sqrt(a) => diff(a, x).map(|p| Expr::Div(bx(p), bx(Expr::Add(bx(e.clone()), bx(e.clone()))))),
        Expr::Sin(a) => diff(a, x).map(|p| mul(Expr::Cos(a.clone()), p)),
        Expr::Cos(a) => diff(a, x).map(|p| Expr::Neg(bx(mul(Expr::Sin(a.clone()), p)))),
    }
}
fn nodes(e: &Expr) -> usize {
    match e {
        Expr::Const(_) | Expr::Var(_) => 1,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => 1 + nodes(a) + nodes(b),
        Expr::Neg(a) | Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) => 1 + nodes(a),
    }
}

/// A formula's value as an expectation, where it is decided.
fn expect(e: &Option<Expr>, at: &Env) -> Option<S> {
    let Some(e) = e else { return Some(S { v: d(0.0), mag: 0.0 }) };
    if nodes(e) > 4000 {
        return None;
    }
    match re::eval(e, at) {
        R::Val(v, err) => Some(S { v, mag: (32.0 * err + 1e-15 * v.f().abs()) / TOL }),
        _ => None,
    }
}

fn programs<T: Num1>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c30{}", T::NAME));
    let vars = ["x", "y"];
    for _ in 0..n {
        let depth = r.int(1, 5) as usize;
        let e = gen_expr(&mut r, &vars, depth);
        let along = *r.pick(&vars);
        let (e1, own) = (diff(&e, along), Some(e.clone()));
        let e2 = e1.as_ref().and_then(|q| if nodes(q) > 300 { None } else { diff(q, along) });
        let small = e1.as_ref().is_none_or(|q| nodes(q) <= 300);
        for _ in 0..3 {
            let at: Env = vars.iter().map(|v| ((*v).to_string(), if r.chance(0.2) { *r.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0]) } else { r.normal() * r.logu(-1.5, 1.5) })).collect();
            let vals = |v: &str| if v == along { T::seed(at[v]) } else { T::c(at[v]) };
            let (w0, w1) = (expect(&own, &at), expect(&e1, &at));
            let w2 = if small { expect(&e2, &at) } else { None };
            let key = hs(&format!("{e:?}{along}{}", env_txt(&at)));
            let case = |i: &str| format!("{} of {e:?} along {along} at {} by {i}", T::NAME, env_txt(&at));
            let kind = format!("program/{}", T::NAME);
            let mut look = |i: &str, got: Result<T, String>| {
                let v = match (w0, w1) {
                    (Some(w0), Some(w1)) => {
                        let value = got.as_ref().ok().and_then(|g| close(w0, g.value(), "value"));
                        match value {
                            Some(t) => Verdict::Violated(t),
                            None => judge::<T>(None, w1, w2, got),
                        }
                    }
                    _ => Verdict::Inconclusive,
                };
                mon.observe(&kind, &format!("generic-program:{i}"), key, e1.is_some(), || case(i), v);
            };
            look("symbolic DirectEval", guard(|| in_sm::build::<sm::DirectEval, T>(&e, &vals)));
            look("mathjit DirectEval", guard(|| in_mj::build::<mj::DirectEval, T>(&e, &vals)));
            look("ExpFamEval", guard(|| in_sm::build::<measures_exponential_family::exponential_family::final_tagless::ExpFamEval, T>(&e, &vals)));
            look("DistributionEval", guard(|| in_sm::build::<measures_distributions::distributions::final_tagless::DistributionEval, T>(&e, &vals)));
        }
        if mon.spent() {
            break;
        }
    }
    mon.require(&format!("program/{}", T::NAME), n as u64 / 2);
}

/// Smooth helper functions and polynomials.
fn smooth<T: Num1 + FromPrimitive>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c30h{}", T::NAME));
    for _ in 0..n {
        let x = match r.below(4) {
            0 => *r.pick(&[0.0, 1.0, -1.0, 0.5, 30.0, -30.0, 300.0, -300.0]),
            1 => r.normal() * 100.0,
            _ => r.normal() * r.logu(-3.0, 1.0),
        }
        .clamp(-300.0, 300.0);
        let t = T::seed(x);
        let g = (-d(x).abs()).exp();
        let den = d(1.0) + g;
        // p = 1/(1 + e^-x), p(1-p) and p(1-p)(1-2p)
        let (p, q) = if x >= 0.0 { (d(1.0) / den, g / den) } else { (g / den, d(1.0) / den) };
        let pq = p * q;
        let one = |v: D, mag: f64| S { v, mag };
        let key = fnv(&[x.to_bits()]);
        let loose = 1.0 + x.abs();
        let h = one(pq, pq.f() * loose);
        let hh = one(pq * (q - p), pq.f() * loose * 8.0);
        macro_rules! both {
            ($m:ident, $n:literal) => {
                let case = |w: &str| format!("{} of {w} at {x:?} by {}", T::NAME, $n);
                mon.observe("helper", "generic-helper:logistic", key, true, || case("logistic"), judge::<T>(Some(p.f()), h, Some(hh), guard(|| <$m::DirectEval as $m::StatisticalExpr>::logistic(t))));
                mon.observe("helper", "generic-helper:sigmoid", key, true, || case("sigmoid"), judge::<T>(Some(p.f()), h, Some(hh), guard(|| <$m::DirectEval as $m::StatisticalExpr>::sigmoid(t))));
                mon.observe("helper", "generic-helper:softplus", key, true, || case("softplus"), judge::<T>(None, one(p, p.f() * loose), Some(one(pq, pq.f() * loose * 8.0 + p.f() * q.f())), guard(|| <$m::DirectEval as $m::StatisticalExpr>::softplus(t))));
            };
        }
        both!(sm, "symbolic");
        both!(mj, "mathjit");
        // log-sum-exp along one of its arguments
        let k = r.int(1, 7) as usize;
        let xs: Vec<f64> = (0..k).map(|_| if r.chance(0.1) { 1.0 } else { r.normal() * r.logu(-1.0, 2.0) }).collect();
        let at = r.below(k);
        let top = xs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let tot = xs.iter().fold(d(0.0), |a, v| a + (d(*v) - d(top)).exp());
        let w = (d(xs[at]) - d(top)).exp() / tot;
        if xs[at] - top > -300.0 {
            let ts: Vec<T> = xs.iter().enumerate().map(|(i, v)| if i == at { T::seed(*v) } else { T::c(*v) }).collect();
            let w1 = one(w, w.f() * (1.0 + 2.0 * (top - xs[at])) + 2.0 * f64::EPSILON);
            let w2 = one(w * (d(1.0) - w), 4.0 * w.f() * (1.0 + top - xs[at]) + 4.0 * f64::EPSILON);
            mon.observe("log-sum-exp", "generic-log-sum-exp", hs(&format!("{xs:?}{at}")), k > 1, || format!("{} of ln_sum_exp {xs:?} along {at}", T::NAME), judge::<T>(None, w1, Some(w2), guard(|| sm::stable_ln_sum_exp(&ts))));
        }
        // polynomials and their derivatives
        let deg = r.len(10, 40);
        let c: Vec<f64> = (0..deg).map(|_| match r.below(4) {
            0 => 0.0,
            1 => r.int(-4, 4) as f64,
            _ => r.normal() * 3.0,
        }).collect();
        let x = if r.chance(0.2) && !c.is_empty() { *r.pick(&c) } else { r.normal() * r.logu(-1.5, 0.7) };
        let t = T::seed(x);
        // Σ i(i-1)…(i-m+1) cᵢ x^(i-m) and the size of what is added
        let der = |m: usize| {
            let (mut v, mut mag) = (d(0.0), 0.0);
            for (i, c) in c.iter().enumerate().skip(m).rev() {
                let f: f64 = (0..m).map(|j| (i - j) as f64).product();
                v = v * d(x) + d(*c) * d(f);
                mag = mag * x.abs() + (c * f).abs();
            }
            one(v, mag * (deg as f64 + 2.0))
        };
        let ts: Vec<T> = c.iter().map(|v| T::c(*v)).collect();
        let key = hs(&format!("{c:?}{x:?}"));
        let nt = deg > 1;
        let case = |w: &str| format!("{} of {w} {c:?} at {x:?}", T::NAME);
        use mj::polynomial as p;
        type E = mj::DirectEval;
        mon.observe("polynomial", "generic-polynomial:horner", key, nt, || case("horner"), judge::<T>(None, der(1), Some(der(2)), guard(|| p::horner::<E, T>(&ts, t))));
        mon.observe("polynomial", "generic-polynomial:horner_expr", key, nt, || case("horner_expr"), judge::<T>(None, der(1), Some(der(2)), guard(|| p::horner_expr::<E, T>(&ts, t))));
        mon.observe("polynomial", "generic-polynomial:horner_derivative", key, nt, || case("horner_derivative"), judge::<T>(None, der(2), Some(der(3)), guard(|| p::horner_derivative::<E, T>(&ts, t))));
        // along one coefficient: x^i
        if deg > 0 {
            let i = r.below(deg);
            let cs: Vec<T> = c.iter().enumerate().map(|(k, v)| if k == i { T::seed(*v) } else { T::c(*v) }).collect();
            let pow = (0..i).fold(d(1.0), |a, _| a * d(x));
            mon.observe("polynomial", "generic-polynomial:coefficient", key ^ 1, nt, || case(&format!("coefficient {i} of horner")), judge::<T>(None, one(pow, pow.f().abs() * (i as f64 + 2.0)), Some(one(d(0.0), 0.0)), guard(|| p::horner::<E, T>(&cs, T::c(x)))));
        }
        // Π (x - rᵢ)
        if deg <= 14 {
            let fs: Vec<D> = c.iter().map(|k| d(x) - d(*k)).collect();
            let without = |skip: &[usize]| fs.iter().enumerate().filter(|(i, _)| !skip.contains(i)).fold(d(1.0), |a, (_, f)| a * *f);
            let (mut a1, mut a2) = (one(d(0.0), 0.0), one(d(0.0), 0.0));
            for i in 0..deg {
                let t = without(&[i]);
                a1 = a1.plus(one(t, t.f().abs() * (deg as f64 + 2.0)));
                for j in 0..deg {
                    if i != j {
                        let t = without(&[i, j]);
                        a2 = a2.plus(one(t, t.f().abs() * (deg as f64 + 2.0)));
                    }
                }
            }
            mon.observe("polynomial", "generic-polynomial:from_roots", key, nt, || case("from_roots"), judge::<T>(None, a1, Some(a2), guard(|| p::from_roots::<E, T>(&ts, t))));
        }
        if mon.spent() {
            break;
        }
    }
    for k in ["helper", "polynomial", "log-sum-exp"] {
        mon.require(k, n as u64 / 2);
    }
}

pub fn c30(mon: &mut Mon) {
    mon.rule = "generic program × variable × assignment × interpreter, helper functions, polynomials, evaluated in a dual and a hyperdual number type; distinct by (program, variable, assignment)".into();
    mon.assumptions.push("a program is judged where it and its derivative formula are defined and well conditioned".into());
    let n = mon.n(1500, 60_000);
    programs::<D1>(mon, n);
    programs::<D2>(mon, n);
    smooth::<D1>(mon, n);
    smooth::<D2>(mon, n);
}
