//! Families under observation: how their parameters and points are drawn, and the
//! independent reference value of their log-density (double-double, from the textbook).

use std::fmt::{Debug, Display};

use measures_core::{HasLogDensity, Measure};
use measures_distributions::{
    Bernoulli, Beta, Binomial, Categorical, Cauchy, ChiSquared, Exponential, Gamma, Geometric,
    NegativeBinomial, Normal, Poisson, StdNormal, StudentT,
};
use num_traits::{Float, FloatConst};

use crate::hp::{D, PI, HALF_LN_2PI, Ref, d, di};
use crate::mon::Verdict;
use crate::rng::{Rng, fnv};

/// The floating-point types the library is generic over.
pub trait Fl: Float + FloatConst + Debug + Display + std::iter::Sum + Default + Send + Sync + 'static {
    /// Relative tolerance against the sum of term magnitudes.
    const TOL: f64;
    const NAME: &'static str;
    /// Largest exponent range used for drawn magnitudes.
    const HUGE: f64;
    fn of(x: f64) -> Self;
    fn w(self) -> f64;
}
impl Fl for f64 {
    const TOL: f64 = 1e-12;
    const NAME: &'static str = "f64";
    const HUGE: f64 = 1e100;
    fn of(x: f64) -> f64 {
        x
    }
    fn w(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const TOL: f64 = 2e-5;
    const NAME: &'static str = "f32";
    const HUGE: f64 = 1e12;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn w(self) -> f64 {
        f64::from(self)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Exp {
    NegInf,
    V(Ref),
    Skip,
}

impl Exp {
    pub fn judge<F: Fl>(&self, got: F) -> Verdict {
        self.judge_tol(got, F::TOL)
    }
    pub fn judge_tol<F: Fl>(&self, got: F, tol: f64) -> Verdict {
        match *self {
            Exp::Skip => Verdict::Inconclusive,
            Exp::NegInf => {
                if got.w() == f64::NEG_INFINITY {
                    Verdict::Held
                } else {
                    Verdict::Violated(format!("got {got:?}, expected -inf"))
                }
            }
            Exp::V(r) => {
                let max = F::max_value().w();
                if !r.v.is_finite() || !r.mag.is_finite() || r.mag > 1e-3 * max {
                    return Verdict::Inconclusive;
                }
                let slack = tol * (r.mag + 1.0);
                let err = (d(got.w()) - r.v).f().abs();
                if err <= slack {
                    Verdict::Held
                } else {
                    Verdict::Violated(format!(
                        "got {got:?}, expected {:e} (error {err:e}, allowed {slack:e})",
                        r.v.f()
                    ))
                }
            }
        }
    }
    pub fn value(&self) -> f64 {
        match self {
            Exp::NegInf => f64::NEG_INFINITY,
            Exp::V(r) => r.v.f(),
            Exp::Skip => f64::NAN,
        }
    }
    pub fn mag(&self) -> f64 {
        match self {
            Exp::V(r) => r.mag,
            _ => 0.0,
        }
    }
}

/// Sum of reference expectations (a joint density).
pub fn exp_sum(es: &[Exp]) -> Exp {
    let mut v = d(0.0);
    let mut mag = 0.0;
    let mut neg = false;
    for e in es {
        match e {
            Exp::Skip => return Exp::Skip,
            Exp::NegInf => neg = true,
            Exp::V(r) => {
                v = v + r.v;
                mag += r.mag;
            }
        }
    }
    // a running sum of n terms may be off by n half-ulps of its size
    if neg { Exp::NegInf } else { Exp::V(Ref { v, mag: mag * (1.0 + 0.003 * es.len() as f64) }) }
}

/// n·ln(q) where q was obtained from p by at most one rounding: its magnitude allows the
/// argument's own rounding error (an absolute error of about n ulps).
fn nln(t: &mut Vec<D>, extra: &mut f64, n: D, q: D) {
    if n.h == 0.0 {
        return;
    }
    t.push(n * q.ln());
    *extra += n.h.abs();
}
fn done(t: &[D], extra: f64) -> Exp {
    let mut r = Ref::sum(t);
    r.mag += extra;
    Exp::V(r)
}

/// Where a family's parameters may be degenerate (probability exactly 0 or 1).
pub trait Fam<X: Clone + Debug, F: Fl>: Measure<X> + HasLogDensity<X, F> + Clone {
    const NAME: &'static str;
    const DISCRETE: bool;
    fn draw(r: &mut Rng) -> Self;
    fn point(&self, r: &mut Rng) -> X;
    fn expect(&self, x: &X) -> Exp;
    fn pv(&self) -> Vec<f64>;
    /// A known, listed deviation of the natural form (see known_findings.txt): its exact
    /// value, so that any other deviation is still reported.
    fn listed_natural_form(&self, _x: &X) -> Option<Exp> {
        None
    }
    /// Parameters strictly inside the natural parameter space.
    fn interior(&self) -> bool {
        true
    }
    fn key(&self, x: &X) -> u64 {
        let mut v: Vec<u64> = self.pv().iter().map(|p| p.to_bits()).collect();
        v.push(crate::rng::hs(&format!("{x:?}")));
        v.push(crate::rng::hs(Self::NAME));
        fnv(&v)
    }
    fn show(&self, x: &X) -> String {
        format!("{}<{}>{:?} at {x:?}", Self::NAME, F::NAME, self.pv())
    }
}

fn real_point<F: Fl>(r: &mut Rng, loc: f64, scale: f64) -> F {
    F::of(match r.below(12) {
        0 => loc,
        1 => loc + scale,
        2 => 0.0,
        3 => loc - scale * r.logu(-6.0, 2.0),
        4 => loc + scale * r.logu(-6.0, 2.0),
        5 => r.int(-20, 20) as f64,
        6 => r.normal() * r.logu(0.0, 6.0),
        7 => r.normal() * r.logu(6.0, if F::NAME == "f32" { 12.0 } else { 100.0 }),
        8 => *r.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 10.0, -10.0]),
        _ => loc + scale * r.normal(),
    })
}
/// A point for a family on (0,∞): bulk, both tails, the boundary, and off support.
fn pos_point<F: Fl>(r: &mut Rng, mean: f64, sd: f64) -> F {
    F::of(match r.below(14) {
        0 => 0.0,
        1 => -r.logu(-10.0, 3.0),
        2 => -0.0,
        3 => mean,
        4 => 1.0,
        5 => mean * r.logu(-8.0, 0.0),
        6 => mean * r.logu(0.0, 3.0),
        7 => r.logu(-12.0, 6.0),
        8 => r.int(1, 30) as f64,
        9 => *r.pick(&[0.5, 1.5, 2.0, 0.25, 3.0, 10.0]),
        _ => (mean + sd * r.normal()).abs(),
    })
}
/// Largest count used with this float: every k up to it is exactly representable and the
/// conditioning of the textbook formula still leaves a sharp tolerance.
fn kmax<F: Fl>() -> u64 {
    if F::NAME == "f32" { 4000 } else { 2_000_000 }
}

impl<F: Fl> Fam<F, F> for Normal<F> {
    const NAME: &'static str = "Normal";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return Normal::default();
        }
        Normal::new(F::of(r.loc()), F::of(r.pos()))
    }
    fn point(&self, r: &mut Rng) -> F {
        real_point(r, self.mean.w(), self.std_dev.w())
    }
    fn expect(&self, x: &F) -> Exp {
        let (mu, s) = (d(self.mean.w()), d(self.std_dev.w()));
        let z = (d(x.w()) - mu) / s;
        done(&[-HALF_LN_2PI, -s.ln(), -(z * z) / d(2.0)], 0.0)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.mean.w(), self.std_dev.w()]
    }
}

impl<F: Fl> Fam<F, F> for Cauchy<F> {
    const NAME: &'static str = "Cauchy";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return if r.chance(0.5) { Cauchy::default() } else { Cauchy::standard() };
        }
        Cauchy::new(F::of(r.loc()), F::of(r.pos()))
    }
    fn point(&self, r: &mut Rng) -> F {
        if r.chance(0.06) {
            // far tail, where squares leave the type's range
            let e = if F::NAME == "f32" { r.range(18.0, 30.0) } else { r.range(150.0, 290.0) };
            return F::of(10f64.powf(e) * if r.chance(0.5) { 1.0 } else { -1.0 });
        }
        real_point(r, self.location().w(), self.scale().w())
    }
    fn expect(&self, x: &F) -> Exp {
        let (m, s) = (d(self.location().w()), d(self.scale().w()));
        let z = ((d(x.w()) - m) / s).abs();
        let t = if z.h > 1e100 { z.ln() * d(2.0) } else { (d(1.0) + z * z).ln() };
        done(&[-PI.ln(), -s.ln(), -t], 0.0)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.location().w(), self.scale().w()]
    }
}

impl<F: Fl> Fam<F, F> for StudentT<F> {
    const NAME: &'static str = "StudentT";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return StudentT::default();
        }
        StudentT::new(F::of(if r.chance(0.3) { r.int(1, 60) as f64 } else { r.pos() }))
    }
    fn point(&self, r: &mut Rng) -> F {
        if r.chance(0.06) {
            let e = if F::NAME == "f32" { r.range(18.0, 30.0) } else { r.range(150.0, 290.0) };
            return F::of(10f64.powf(e) * if r.chance(0.5) { 1.0 } else { -1.0 });
        }
        real_point(r, 0.0, 1.0)
    }
    fn expect(&self, x: &F) -> Exp {
        let nu = d(self.nu().w());
        let z = d(x.w()).abs();
        let h = (nu + d(1.0)) / d(2.0);
        let k = if z.h > 1e100 { z.ln() * d(2.0) - nu.ln() } else { (d(1.0) + z * z / nu).ln() };
        done(
            &[h.lgamma(), -(nu / d(2.0)).lgamma(), -(nu * PI).ln() / d(2.0), -(h * k)],
            // rounding of 1 + x²/ν inside the logarithm, multiplied by (ν+1)/2
            h.h,
        )
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.nu().w()]
    }
}

impl<F: Fl> Fam<F, F> for Exponential<F> {
    const NAME: &'static str = "Exponential";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return Exponential::default();
        }
        Exponential::new(F::of(r.pos()))
    }
    fn point(&self, r: &mut Rng) -> F {
        let m = 1.0 / self.rate.w();
        pos_point(r, m, m)
    }
    fn expect(&self, x: &F) -> Exp {
        if x.w() < 0.0 {
            return Exp::NegInf;
        }
        let l = d(self.rate.w());
        done(&[l.ln(), -(l * d(x.w()))], 0.0)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.rate.w()]
    }
}

fn gamma_ref(a: D, b: D, x: f64) -> Exp {
    if x <= 0.0 {
        return Exp::NegInf;
    }
    let x = d(x);
    done(&[a * b.ln(), -a.lgamma(), a * x.ln(), -x.ln(), -(b * x)], a.h.abs() * 1e-3)
}

impl<F: Fl> Fam<F, F> for Gamma<F> {
    const NAME: &'static str = "Gamma";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        match r.below(20) {
            0 => Gamma::default(),
            1 => {
                let s = F::of(r.pos());
                Gamma::from_shape_scale(F::of(r.pos()), s)
            }
            _ => Gamma::new(F::of(r.pos()), F::of(r.pos())),
        }
    }
    fn point(&self, r: &mut Rng) -> F {
        let (a, b) = (self.shape.w(), self.rate.w());
        pos_point(r, a / b, a.sqrt() / b)
    }
    fn expect(&self, x: &F) -> Exp {
        gamma_ref(d(self.shape.w()), d(self.rate.w()), x.w())
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.shape.w(), self.rate.w()]
    }
}

impl<F: Fl> Fam<F, F> for ChiSquared<F> {
    const NAME: &'static str = "ChiSquared";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return ChiSquared::default();
        }
        ChiSquared::new(F::of(if r.chance(0.4) { r.int(1, 60) as f64 } else { r.pos() }))
    }
    fn point(&self, r: &mut Rng) -> F {
        let k = self.degrees_of_freedom.w();
        pos_point(r, k, (2.0 * k).sqrt())
    }
    fn expect(&self, x: &F) -> Exp {
        gamma_ref(d(self.degrees_of_freedom.w() / 2.0), d(0.5), x.w())
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.degrees_of_freedom.w()]
    }
}

impl<F: Fl> Fam<F, F> for Beta<F> {
    const NAME: &'static str = "Beta";
    const DISCRETE: bool = false;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return Beta::default();
        }
        Beta::new(F::of(r.pos()), F::of(r.pos()))
    }
    fn point(&self, r: &mut Rng) -> F {
        F::of(match r.below(12) {
            0 => 0.0,
            1 => 1.0,
            2 => -r.logu(-10.0, 1.0),
            3 => 1.0 + r.logu(-6.0, 1.0),
            4 => 0.5,
            _ => r.prob(),
        })
    }
    fn expect(&self, x: &F) -> Exp {
        let x = x.w();
        if x <= 0.0 || x >= 1.0 {
            return Exp::NegInf;
        }
        let (a, b) = (d(self.alpha.w()), d(self.beta.w()));
        let mut t = vec![(a + b).lgamma(), -a.lgamma(), -b.lgamma()];
        let x = d(x);
        t.push(a * x.ln());
        t.push(-x.ln());
        let y = d(1.0) - x;
        t.push(b * y.ln());
        t.push(-y.ln());
        done(&t, b.h + 1.0)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.alpha.w(), self.beta.w()]
    }
}

impl<F: Fl> Fam<u8, F> for Bernoulli<F> {
    const NAME: &'static str = "Bernoulli";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        match r.below(24) {
            0 => Bernoulli::default(),
            1 => Bernoulli::new(F::zero()),
            2 => Bernoulli::new(F::one()),
            _ => Bernoulli::new(F::of(r.prob())),
        }
    }
    fn point(&self, r: &mut Rng) -> u8 {
        match r.below(8) {
            0 => r.int(2, 255) as u8,
            1 => 2,
            n => (n % 2) as u8,
        }
    }
    fn expect(&self, x: &u8) -> Exp {
        let p = d(self.prob.w());
        let q = match x {
            0 => d(1.0) - p,
            1 => p,
            _ => return Exp::NegInf,
        };
        if q.h == 0.0 {
            return Exp::NegInf;
        }
        done(&[q.ln()], 1.0)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.prob.w()]
    }
    fn interior(&self) -> bool {
        self.prob.w() > 0.0 && self.prob.w() < 1.0
    }
}

impl<F: Fl> Fam<u64, F> for Binomial<F> {
    const NAME: &'static str = "Binomial";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        let n = r.count(kmax::<F>());
        let p = match r.below(16) {
            0 => 0.0,
            1 => 1.0,
            _ => r.prob(),
        };
        Binomial::new(n, F::of(p))
    }
    fn point(&self, r: &mut Rng) -> u64 {
        let n = self.n;
        match r.below(10) {
            0 => 0,
            1 => n,
            2 => n + 1 + r.below(5) as u64,
            3 => n + r.count(1000),
            4 => (n as f64 * self.prob.w()) as u64,
            5 => n.saturating_sub(1),
            _ => r.int(0, n as i64) as u64,
        }
    }
    fn expect(&self, x: &u64) -> Exp {
        let (n, k) = (self.n, *x);
        if k > n {
            return Exp::NegInf;
        }
        let p = d(self.prob.w());
        let q = d(1.0) - p;
        if (k > 0 && p.h == 0.0) || (k < n && q.h == 0.0) {
            return Exp::NegInf;
        }
        let one = d(1.0);
        let mut t = vec![(di(n) + one).lgamma(), -(di(k) + one).lgamma(), -(di(n - k) + one).lgamma()];
        let mut e = 0.0;
        nln(&mut t, &mut e, di(k), p);
        nln(&mut t, &mut e, di(n - k), q);
        done(&t, e)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.n as f64, self.prob.w()]
    }
    fn interior(&self) -> bool {
        self.prob.w() > 0.0 && self.prob.w() < 1.0
    }
}

impl<F: Fl> Fam<u64, F> for NegativeBinomial<F> {
    const NAME: &'static str = "NegativeBinomial";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        loop {
            let p = F::of(r.prob());
            if p.w() > 0.0 && p.w() < 1.0 {
                return NegativeBinomial::new(1 + r.count(kmax::<F>() / 2), p);
            }
        }
    }
    fn point(&self, r: &mut Rng) -> u64 {
        let m = self.r as f64 * self.prob.w() / (1.0 - self.prob.w());
        match r.below(6) {
            0 => 0,
            1 => (m as u64).min(kmax::<F>() / 2),
            _ => r.count(kmax::<F>() / 2),
        }
    }
    fn expect(&self, x: &u64) -> Exp {
        // number of successes (probability p each) before the r-th failure
        let (r, k) = (self.r, *x);
        let p = d(self.prob.w());
        let mut t = vec![(di(k) + di(r)).lgamma(), -(di(k) + d(1.0)).lgamma(), -di(r).lgamma()];
        let mut e = 0.0;
        nln(&mut t, &mut e, di(k), p);
        nln(&mut t, &mut e, di(r), d(1.0) - p);
        done(&t, e)
    }
    fn listed_natural_form(&self, x: &u64) -> Option<Exp> {
        // the natural parameter is ln p, but the log-odds ln(p/(1−p)) is used
        let p = d(self.prob.w());
        match self.expect(x) {
            Exp::V(mut r) => {
                let t = di(*x) * (d(1.0) - p).ln();
                r.v = r.v - t;
                r.mag += t.f().abs() + *x as f64;
                Some(Exp::V(r))
            }
            e => Some(e),
        }
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.r as f64, self.prob.w()]
    }
}

impl<F: Fl> Fam<u64, F> for Geometric<F> {
    const NAME: &'static str = "Geometric";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        match r.below(24) {
            0 => Geometric::default(),
            1 => Geometric::new(F::one()),
            _ => loop {
                let p = F::of(r.prob());
                if p.w() > 0.0 && p.w() < 1.0 {
                    return Geometric::new(p);
                }
            },
        }
    }
    fn point(&self, r: &mut Rng) -> u64 {
        match r.below(5) {
            0 => 0,
            1 => 1,
            _ => r.count(kmax::<F>()),
        }
    }
    fn expect(&self, x: &u64) -> Exp {
        if *x == 0 {
            return Exp::NegInf;
        }
        let p = d(self.prob.w());
        let q = d(1.0) - p;
        if *x > 1 && q.h == 0.0 {
            return Exp::NegInf;
        }
        let mut t = vec![p.ln()];
        let mut e = 0.0;
        nln(&mut t, &mut e, di(*x - 1), q);
        done(&t, e)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.prob.w()]
    }
    fn interior(&self) -> bool {
        self.prob.w() < 1.0
    }
}

impl<F: Fl> Fam<u64, F> for Poisson<F> {
    const NAME: &'static str = "Poisson";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        if r.chance(0.04) {
            return Poisson::default();
        }
        Poisson::new(F::of(r.pos()))
    }
    fn point(&self, r: &mut Rng) -> u64 {
        match r.below(6) {
            0 => 0,
            1 => self.rate.w() as u64,
            2 => r.int(19, 24) as u64,
            _ => r.count(if F::NAME == "f32" { 4000 } else { 100_000 }),
        }
    }
    fn expect(&self, x: &u64) -> Exp {
        let l = d(self.rate.w());
        let k = di(*x);
        let mut t = vec![-l, -(k + d(1.0)).lgamma()];
        if *x > 0 {
            t.push(k * l.ln());
        }
        done(&t, k.h)
    }
    fn pv(&self) -> Vec<f64> {
        vec![self.rate.w()]
    }
}

pub fn draw_probs<F: Fl>(r: &mut Rng, k: usize, zeros: bool) -> Vec<F> {
    // Probabilities in F whose F-sum is 1 to within an ulp or so.
    let mut w: Vec<f64> = (0..k)
        .map(|_| if zeros && r.chance(0.2) { 0.0 } else { r.logu(-2.0, 1.0) })
        .collect();
    // Sometimes weights that vanish beside the others, but are not zero.
    if r.chance(0.25) {
        let low = if F::NAME == "f32" { -36.0 } else { -290.0 };
        for v in &mut w {
            if *v > 0.0 && r.chance(0.3) {
                let l = *r.pick(&[-12.0, -18.0, low]);
                *v = r.logu(l, -4.0);
            }
        }
    }
    if w.iter().all(|v| *v == 0.0) {
        w[0] = 1.0;
    }
    let s: f64 = w.iter().sum();
    w.iter().map(|v| F::of(v / s)).collect()
}

impl<F: Fl> Fam<usize, F> for Categorical<F> {
    const NAME: &'static str = "Categorical";
    const DISCRETE: bool = true;
    fn draw(r: &mut Rng) -> Self {
        let k = match r.below(8) {
            0 => 1,
            1 => 2,
            2 => r.int(10, 60) as usize,
            _ => r.int(2, 9) as usize,
        };
        match r.below(10) {
            0 => Categorical::uniform(k),
            _ => {
                let z = r.chance(0.15);
                Categorical::new(draw_probs::<F>(r, k, z))
            }
        }
    }
    fn point(&self, r: &mut Rng) -> usize {
        match r.below(8) {
            0 => self.probs.len(),
            1 => self.probs.len() + r.below(100),
            2 => self.probs.len() - 1,
            _ => r.below(self.probs.len()),
        }
    }
    fn expect(&self, x: &usize) -> Exp {
        match self.probs.get(*x) {
            Some(p) if p.w() > 0.0 => done(&[d(p.w()).ln()], 0.0),
            _ => Exp::NegInf,
        }
    }
    fn pv(&self) -> Vec<f64> {
        self.probs.iter().map(|p| p.w()).collect()
    }
    fn interior(&self) -> bool {
        self.probs.iter().all(|p| p.w() > 0.0)
    }
}

/// Reference for the standard normal (which has only the exponential-family route).
pub fn std_normal_expect<F: Fl>(_: &StdNormal<F>, x: F) -> Exp {
    let z = d(x.w());
    done(&[-HALF_LN_2PI, -(z * z) / d(2.0)], 0.0)
}

/// Run a generic check for every family in both float types.
#[macro_export]
macro_rules! all_families {
    ($f:ident, $($arg:expr),*) => {{
        use measures_distributions::*;
        $crate::all_families!(@one f64, $f, $($arg),*);
        $crate::all_families!(@one f32, $f, $($arg),*);
    }};
    (@one $F:ty, $f:ident, $($arg:expr),*) => {{
        $f::<$F, $F, Normal<$F>>($($arg),*);
        $f::<$F, $F, Cauchy<$F>>($($arg),*);
        $f::<$F, $F, StudentT<$F>>($($arg),*);
        $f::<$F, $F, Exponential<$F>>($($arg),*);
        $f::<$F, $F, Gamma<$F>>($($arg),*);
        $f::<$F, $F, ChiSquared<$F>>($($arg),*);
        $f::<$F, $F, Beta<$F>>($($arg),*);
        $f::<u8, $F, Bernoulli<$F>>($($arg),*);
        $f::<u64, $F, Binomial<$F>>($($arg),*);
        $f::<u64, $F, NegativeBinomial<$F>>($($arg),*);
        $f::<u64, $F, Geometric<$F>>($($arg),*);
        $f::<u64, $F, Poisson<$F>>($($arg),*);
        $f::<usize, $F, Categorical<$F>>($($arg),*);
    }};
}
/// Every family with the exponential-family interface and array statistics.
#[macro_export]
macro_rules! expfam_families {
    ($f:ident, $($arg:expr),*) => {{
        use measures_distributions::*;
        $crate::expfam_families!(@one f64, $f, $($arg),*);
        $crate::expfam_families!(@one f32, $f, $($arg),*);
    }};
    (@one $F:ty, $f:ident, $($arg:expr),*) => {{
        $f::<$F, $F, Normal<$F>>($($arg),*);
        $f::<$F, $F, Exponential<$F>>($($arg),*);
        $f::<$F, $F, Gamma<$F>>($($arg),*);
        $f::<$F, $F, ChiSquared<$F>>($($arg),*);
        $f::<$F, $F, Beta<$F>>($($arg),*);
        $f::<u8, $F, Bernoulli<$F>>($($arg),*);
        $f::<u64, $F, Binomial<$F>>($($arg),*);
        $f::<u64, $F, NegativeBinomial<$F>>($($arg),*);
        $f::<u64, $F, Geometric<$F>>($($arg),*);
        $f::<u64, $F, Poisson<$F>>($($arg),*);
    }};
}
