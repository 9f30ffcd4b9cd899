//! C01–C06, C24, C26: distributions, exponential families, IID products.

use std::fmt::Debug;

use measures_core::{
    DotProduct, EvaluateAt, HasLogDensity, LogDensity, LogDensityBuilder, Measure, float_constant,
    log_density_at, log_density_batch,
};
use measures_distributions::*;
use measures_exponential_family::exponential_family::iid::IIDBaseMeasure;
use measures_exponential_family::exponential_family::jit::{StaticInlineJITCompiler, ZeroOverheadOptimizer};
use measures_exponential_family::{
    AutoJITExt, CustomJITOptimizer, IID, SumSufficientStats, compute_exp_fam_log_density,
    compute_iid_exp_fam_log_density,
};

use crate::hp::{D, Ref, d};
use crate::mon::{Mon, Verdict, guard};
use crate::refs::{Exp, Fam, Fl, exp_sum, std_normal_expect};
use crate::rng::{Rng, fnv};
use crate::{all_families, expfam_families};

/// Draw a family member; a constructor that rejects valid parameters is reported by C26,
/// so every other check just draws again.
pub fn draw<X: Clone + Debug, F: Fl, M: Fam<X, F>>(r: &mut Rng) -> M {
    loop {
        if let Ok(m) = guard(|| M::draw(r)) {
            return m;
        }
    }
}

/// Signature of a deviation: family, what kind of point it is.
fn sig<X: Clone + Debug, F: Fl, M: Fam<X, F>>(m: &M, e: &Exp, tag: &str) -> String {
    let region = match e {
        Exp::NegInf => "zero-density",
        _ if !m.interior() => "degenerate",
        _ => "support",
    };
    format!("{tag}:{}:{region}", M::NAME)
}

/// Judge a value obtained through the natural form; a deviation that is exactly a listed
/// one gets that finding's signature.
fn natural<F: Fl>(e: &Exp, listed: Option<&Exp>, s: &str, tag: &str, name: &str, got: Result<F, String>) -> (String, Verdict) {
    let v = verdict(e, got.clone());
    if let (Verdict::Violated(_), Some(l), Ok(g)) = (&v, listed, &got) {
        if let (Exp::V(_), Verdict::Held) = (l, l.judge(*g)) {
            return (format!("{tag}:{name}:log-odds-as-natural-parameter"), v);
        }
    }
    if let (Verdict::Violated(_), Ok(g)) = (&v, &got) {
        if g.is_nan() && s.ends_with(":degenerate") {
            return (format!("{s}:nan"), v);
        }
    }
    (s.to_string(), v)
}

pub fn verdict<F: Fl>(e: &Exp, got: Result<F, String>) -> Verdict {
    match got {
        Ok(v) => e.judge(v),
        Err(p) => Verdict::Violated(format!("panicked: {p}")),
    }
}

// ---------------------------------------------------------------- C01

fn c01_family<X: Clone + Debug, F: Fl, M: Fam<X, F>>(mon: &mut Mon, draws: usize, pts: usize)
where
    LogDensity<X, M, M::RootMeasure>: EvaluateAt<X, F>,
    M::RootMeasure: Clone,
{
    let mut r = mon.rng.derive(&format!("c01{}{}", M::NAME, F::NAME));
    let kind = format!("{}<{}>", M::NAME, F::NAME);
    for _ in 0..draws {
        let m: M = draw(&mut r);
        let ld = m.log_density();
        for _ in 0..pts {
            let x = m.point(&mut r);
            let e = m.expect(&x);
            let s = sig(&m, &e, "density");
            let nt = !matches!(e, Exp::NegInf);
            let got = guard(|| ld.at::<F>(&x));
            mon.observe(&kind, &s, m.key(&x), nt, || m.show(&x), verdict(&e, got));
            let got = guard(|| m.log_density_wrt_root(&x));
            mon.observe(&kind, &s, m.key(&x), nt, || m.show(&x) + " (direct)", verdict(&e, got));
        }
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, (draws * pts / 2) as u64);
}

fn c01_grid<F: Fl>(mon: &mut Mon) {
    // Every count through the tables and past the thresholds the code switches at.
    let kind = format!("count-sweep<{}>", F::NAME);
    let top = mon.n(400, 4000) as u64;
    let mut r = mon.rng.derive("grid");
    let po = Poisson::<F>::new(F::of(3.5));
    let ge = Geometric::<F>::new(F::of(0.375));
    let nb = NegativeBinomial::<F>::new(7, F::of(0.25));
    for k in 0..=top {
        macro_rules! one {
            ($m:expr) => {{
                let e = $m.expect(&k);
                let s = sig(&$m, &e, "density");
                let got = guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&$m, &k));
                mon.observe(&kind, &s, $m.key(&k), true, || $m.show(&k), verdict(&e, got));
            }};
        }
        one!(po);
        one!(ge);
        one!(nb);
        let n = k.max(1);
        let bi = Binomial::<F>::new(n, F::of(r.prob()));
        for j in [0, 1, n / 3, n / 2, n - 1, n, n + 1] {
            let e = bi.expect(&j);
            let s = sig(&bi, &e, "density");
            let got = guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&bi, &j));
            mon.observe(&kind, &s, bi.key(&j), true, || bi.show(&j), verdict(&e, got));
        }
    }
    // Public log_pdf accessors.
    let kind = format!("log_pdf<{}>", F::NAME);
    for _ in 0..mon.n(4000, 200_000) {
        let c: Cauchy<F> = draw(&mut r);
        let x = c.point(&mut r);
        let e = c.expect(&x);
        mon.observe(&kind, "density:Cauchy:log_pdf", c.key(&x), true, || c.show(&x), verdict(&e, guard(|| c.log_pdf(x))));
        let t: StudentT<F> = draw(&mut r);
        let x = t.point(&mut r);
        let e = t.expect(&x);
        mon.observe(&kind, "density:StudentT:log_pdf", t.key(&x), true, || t.show(&x), verdict(&e, guard(|| t.log_pdf(x))));
    }
}

pub fn c01(mon: &mut Mon) {
    mon.rule = "family × parameters × point, parameters and points drawn from pools of ordinary, round, boundary, extreme and off-support values; non-trivial when the point has positive density; distinct by (family, parameters, point)".into();
    let (a, b) = (mon.n(350, 6000), mon.n(8, 12));
    all_families!(c01_family, mon, a, b);
    c01_grid::<f64>(mon);
    c01_grid::<f32>(mon);
    // Large counts stay cheap and finite.
    let mut r = mon.rng.derive("large");
    for _ in 0..mon.n(300, 5000) {
        let k = r.logu(5.0, 15.0) as u64;
        let p = Poisson::<f64>::new(r.logu(0.0, 12.0));
        let e = p.expect(&k);
        let v = verdict(&e, guard(|| HasLogDensity::<u64, f64>::log_density_wrt_root(&p, &k)));
        mon.observe("large-count", "density:Poisson:large-count", p.key(&k), true, || p.show(&k), v);
    }
}

// ---------------------------------------------------------------- C02

/// (mass, mean, variance) of a continuous density by the trapezoidal rule after a
/// variable change that makes the integrand decay at least exponentially.
fn integrate(lf: &dyn Fn(f64) -> f64, map: &dyn Fn(f64) -> (f64, f64), lo: f64, hi: f64, n: usize) -> (f64, f64, f64) {
    let h = (hi - lo) / n as f64;
    let (mut m0, mut m1, mut m2) = (0.0, 0.0, 0.0);
    for i in 0..=n {
        let u = lo + h * i as f64;
        let (x, lj) = map(u);
        let w = (lf(x) + lj).exp() * h;
        if w > 0.0 {
            m0 += w;
            m1 += w * x;
            m2 += w * x * x;
        }
    }
    (m0, m1, m2 - m1 * m1)
}

fn close(mon: &mut Mon, kind: &str, sg: &str, key: u64, case: &str, got: f64, want: f64, tol: f64) {
    let err = (got - want).abs();
    let v = if err <= tol * want.abs().max(tol) || got == want {
        Verdict::Held
    } else {
        Verdict::Violated(format!("got {got:e}, expected {want:e}"))
    };
    mon.observe(kind, sg, key, true, || case.to_string(), v);
}

fn support_check<X: Clone + Debug, F: Fl, M: Fam<X, F>>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("sup{}{}", M::NAME, F::NAME));
    let kind = format!("support/{}<{}>", M::NAME, F::NAME);
    for _ in 0..n {
        let m: M = draw(&mut r);
        let x = m.point(&mut r);
        let e = m.expect(&x);
        let ins = m.in_support(x.clone());
        let got = guard(|| m.log_density_wrt_root(&x));
        let v = match (&e, got) {
            (Exp::Skip, _) => Verdict::Inconclusive,
            (_, Err(p)) => Verdict::Violated(format!("panicked: {p}")),
            // outside the reported support the density is zero
            (_, Ok(g)) if !ins && g.w() != f64::NEG_INFINITY => {
                Verdict::Violated(format!("not in support but log-density {g:?}"))
            }
            // the support contains every point of positive density
            (Exp::V(_), Ok(_)) if !ins => Verdict::Violated("positive density but reported outside the support".into()),
            (Exp::NegInf, Ok(_)) if ins && m.interior() => {
                Verdict::Violated("zero density but reported inside the support".into())
            }
            (_, Ok(g)) if g.is_nan() => Verdict::Violated("log-density is NaN".into()),
            _ => Verdict::Held,
        };
        mon.observe(&kind, &sig(&m, &e, "support"), m.key(&x), true, || m.show(&x), v);
    }
    mon.require(&kind, n as u64 / 2);
}

pub fn c02(mon: &mut Mon) {
    mon.rule = "family × parameters; mass, mean and variance obtained by quadrature or summation of the library's own density and compared with 1 and with the accessors; support membership compared with the density at drawn points; distinct by parameters (and point)".into();
    let n = mon.n(60, 1500);
    let mut r = mon.rng.derive("c02");
    let tol = 2e-6;
    for _ in 0..n {
        // continuous families, parameters where the quadrature is accurate
        let (mu, s) = (r.normal() * 5.0, r.logu(-1.5, 1.5));
        let m = Normal::new(mu, s);
        let c = format!("Normal{:?}", m.pv());
        let key = fnv(&[mu.to_bits(), s.to_bits(), 1]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, m1, v) = integrate(&lf, &|u| (mu + s * u, s.ln()), -12.0, 12.0, 400);
        close(mon, "mass", "mass:Normal", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Normal", key, &c, m.mean - mu + m1, mu, tol * (1.0 + s));
        close(mon, "variance", "variance:Normal", key, &c, m.variance(), v, tol * (1.0 + mu * mu / v));

        let l = r.logu(-2.0, 2.0);
        let m = Exponential::new(l);
        let c = format!("Exponential[{l}]");
        let key = fnv(&[l.to_bits(), 2]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, m1, v) = integrate(&lf, &|u| (u.exp() / l, u - l.ln()), -40.0, 6.5, 1200);
        close(mon, "mass", "mass:Exponential", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Exponential", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:Exponential", key, &c, m.variance(), v, tol);

        let (a, b) = (r.range(0.4, 60.0), r.logu(-2.0, 2.0));
        let m = Gamma::new(a, b);
        let c = format!("Gamma[{a}, {b}]");
        let key = fnv(&[a.to_bits(), b.to_bits(), 3]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, m1, v) = integrate(&lf, &|u| (u.exp() / b, u - b.ln()), -70.0, 7.5, 4000);
        close(mon, "mass", "mass:Gamma", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Gamma", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:Gamma", key, &c, m.variance(), v, tol * 10.0);
        close(mon, "accessor", "scale:Gamma", key, &c, m.scale() * b, 1.0, 1e-12);
        let m2 = Gamma::from_shape_scale(a, 1.0 / b);
        close(mon, "accessor", "shape-scale:Gamma", key, &c, m2.rate, b, 1e-12);
        close(mon, "accessor", "shape-scale:Gamma", key, &c, m2.shape, a, 1e-12);

        let k = r.range(0.8, 60.0);
        let m = ChiSquared::new(k);
        let c = format!("ChiSquared[{k}]");
        let key = fnv(&[k.to_bits(), 4]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, m1, v) = integrate(&lf, &|u| (u.exp(), u), -70.0, 8.0, 4000);
        close(mon, "mass", "mass:ChiSquared", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:ChiSquared", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:ChiSquared", key, &c, m.variance(), v, tol * 10.0);
        close(mon, "accessor", "shape:ChiSquared", key, &c, m.shape(), k / 2.0, 1e-12);
        close(mon, "accessor", "rate:ChiSquared", key, &c, m.rate(), 0.5, 1e-12);

        let (a, b) = (r.range(0.6, 40.0), r.range(0.6, 40.0));
        let m = Beta::new(a, b);
        let c = format!("Beta[{a}, {b}]");
        let key = fnv(&[a.to_bits(), b.to_bits(), 5]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let sg = |u: f64| {
            let x = 1.0 / (1.0 + (-u).exp());
            (x, -(1.0 + (-u).exp()).ln() - (1.0 + u.exp()).ln())
        };
        let (m0, m1, v) = integrate(&lf, &sg, -60.0, 34.0, 4000);
        close(mon, "mass", "mass:Beta", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Beta", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:Beta", key, &c, m.variance(), v, tol * 10.0);

        let (x0, g) = (r.normal() * 5.0, r.logu(-1.5, 1.5));
        let m = Cauchy::new(x0, g);
        let c = format!("Cauchy[{x0}, {g}]");
        let key = fnv(&[x0.to_bits(), g.to_bits(), 6]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, _, _) = integrate(&lf, &|u| (x0 + g * u.sinh(), g.ln() + u.cosh().ln()), -35.0, 35.0, 3000);
        close(mon, "mass", "mass:Cauchy", key, &c, m0, 1.0, tol);

        let nu = r.range(0.8, 80.0);
        let m = StudentT::new(nu);
        let c = format!("StudentT[{nu}]");
        let key = fnv(&[nu.to_bits(), 7]);
        let lf = |x: f64| m.log_density().at::<f64>(&x);
        let (m0, _, _) = integrate(&lf, &|u| (u.sinh(), u.cosh().ln()), -40.0, 40.0, 4000);
        close(mon, "mass", "mass:StudentT", key, &c, m0, 1.0, tol);

        // discrete families by summation
        fn sum<X: Clone>(lf: &dyn Fn(&X) -> f64, it: impl Iterator<Item = (X, f64)>) -> (f64, f64, f64) {
            let ws: Vec<(f64, f64)> = it.map(|(x, v)| (lf(&x).exp(), v)).collect();
            let m0: f64 = ws.iter().map(|(w, _)| w).sum();
            let m1: f64 = ws.iter().map(|(w, v)| w * v).sum();
            // two passes, in double-double: nothing cancels
            let mut m = d(0.0);
            let mut t = d(0.0);
            for (w, v) in &ws {
                m = m + d(*w) * d(*v);
                t = t + d(*w);
            }
            let m = m / t;
            let mut var = d(0.0);
            for (w, v) in &ws {
                let z = d(*v) - m;
                var = var + d(*w) * z * z;
            }
            (m0, m1, var.f())
        }
        let nn = r.count(200);
        let p = r.range(0.01, 0.99);
        let m = Binomial::new(nn, p);
        let c = format!("Binomial[{nn}, {p}]");
        let key = fnv(&[nn, p.to_bits(), 8]);
        let lf = |x: &u64| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..=nn + 3).map(|k| (k, k as f64)));
        close(mon, "mass", "mass:Binomial", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Binomial", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:Binomial", key, &c, m.variance(), v, tol * 10.0);
        close(mon, "accessor", "log_odds:Binomial", key, &c, m.log_odds().exp(), p / (1.0 - p), 1e-10);

        let rr = 1 + r.count(40);
        let p = r.range(0.02, 0.8);
        let m = NegativeBinomial::new(rr, p);
        let c = format!("NegativeBinomial[{rr}, {p}]");
        let key = fnv(&[rr, p.to_bits(), 9]);
        let lf = |x: &u64| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..3000u64).map(|k| (k, k as f64)));
        close(mon, "mass", "mass:NegativeBinomial", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:NegativeBinomial", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:NegativeBinomial", key, &c, m.variance(), v, tol * 10.0);
        close(mon, "accessor", "failure_prob:NegativeBinomial", key, &c, m.failure_prob(), 1.0 - p, 1e-12);
        close(mon, "accessor", "log_odds:NegativeBinomial", key, &c, m.log_odds().exp(), p / (1.0 - p), 1e-10);

        let p = r.range(0.02, 1.0);
        let m = Geometric::new(p);
        let c = format!("Geometric[{p}]");
        let key = fnv(&[p.to_bits(), 10]);
        let lf = |x: &u64| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..2500u64).map(|k| (k, k as f64)));
        close(mon, "mass", "mass:Geometric", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Geometric", key, &c, m.mean(), m1, tol);
        close(mon, "variance", "variance:Geometric", key, &c, m.variance(), v, tol * 10.0);
        close(mon, "accessor", "failure_prob:Geometric", key, &c, m.failure_prob(), 1.0 - p, 1e-12);

        let l = r.logu(-1.5, 2.0);
        let m = Poisson::new(l);
        let c = format!("Poisson[{l}]");
        let key = fnv(&[l.to_bits(), 11]);
        let lf = |x: &u64| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..400u64).map(|k| (k, k as f64)));
        close(mon, "mass", "mass:Poisson", key, &c, m0, 1.0, tol);
        close(mon, "mean", "mean:Poisson", key, &c, m1, l, tol);
        close(mon, "variance", "variance:Poisson", key, &c, v, l, tol * 10.0);

        let p = r.prob();
        let m = Bernoulli::new(p);
        let c = format!("Bernoulli[{p}]");
        let key = fnv(&[p.to_bits(), 12]);
        let lf = |x: &u8| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..=255u8).map(|k| (k, f64::from(k))));
        close(mon, "mass", "mass:Bernoulli", key, &c, m0, 1.0, 1e-12);
        close(mon, "mean", "mean:Bernoulli", key, &c, m.mean(), m1, 1e-10);
        close(mon, "variance", "variance:Bernoulli", key, &c, m.variance(), v, 1e-8);
        close(mon, "accessor", "log_odds:Bernoulli", key, &c, m.log_odds(), (d(p) / (d(1.0) - d(p))).ln().f(), 1e-9);

        let m: Categorical<f64> = draw(&mut r);
        let c = format!("Categorical{:?}", m.probs);
        let key = fnv(&m.probs.iter().map(|p| p.to_bits()).collect::<Vec<_>>());
        let lf = |x: &usize| m.log_density().at::<f64>(x);
        let (m0, m1, v) = sum(&lf, (0..m.probs.len() + 5).map(|k| (k, k as f64)));
        close(mon, "mass", "mass:Categorical", key, &c, m0, 1.0, 1e-9);
        close(mon, "mean", "mean:Categorical", key, &c, m.mean(), m1, 1e-8);
        close(mon, "variance", "variance:Categorical", key, &c, m.variance(), v, 1e-8);
        close(mon, "accessor", "num_categories:Categorical", key, &c, m.num_categories() as f64, m.probs.len() as f64, 0.0);
        if mon.spent() {
            break;
        }
    }
    // Many categories with the mass on a few of them, far from category zero.
    fn sparse<F: Fl>(mon: &mut Mon, n: usize) {
        let mut r = mon.rng.derive(&format!("sparse{}", F::NAME));
        let eps = F::epsilon().w();
        for _ in 0..n {
            let k = 2 + r.logu(0.0, 4.8) as usize;
            let m = r.int(1, 4) as usize;
            let far = r.chance(0.6);
            let mut at: Vec<usize> = (0..m).map(|_| if far { k - 1 - r.below(k.min(6)) } else { r.below(k) }).collect();
            at.sort_unstable();
            at.dedup();
            let ps = crate::refs::draw_probs::<F>(&mut r, at.len(), false);
            let mut probs = vec![F::zero(); k];
            for (i, p) in at.iter().zip(&ps) {
                probs[*i] = *p;
            }
            let (mut m1, mut total) = (d(0.0), d(0.0));
            for (i, p) in at.iter().zip(&ps) {
                m1 = m1 + d(*i as f64) * d(p.w());
                total = total + d(p.w());
            }
            let m1 = m1 / total;
            let mut var = d(0.0);
            for (i, p) in at.iter().zip(&ps) {
                let z = d(*i as f64) - m1;
                var = var + d(p.w()) * z * z;
            }
            let var = (var / total).f();
            let c = Categorical::new(probs);
            let key = fnv(&at.iter().map(|i| *i as u64).chain(ps.iter().map(|p| p.w().to_bits())).chain([k as u64]).collect::<Vec<_>>());
            let name = format!("Categorical<{}> of {k}: {at:?} {ps:?}", F::NAME);
            let slip = 40.0 * eps * m1.f();
            let g = c.mean().w();
            let v = if (g - m1.f()).abs() <= slip { Verdict::Held } else { Verdict::Violated(format!("mean {g}, expected {}", m1.f())) };
            mon.observe("sparse", "moment:Categorical.mean", key, at.len() > 1, || name.clone(), v);
            let g = c.variance().w();
            let tol = if F::NAME == "f32" { 1e-3 } else { 1e-5 };
            let v = if g >= 0.0 && (g - var).abs() <= tol * var + slip * slip { Verdict::Held } else { Verdict::Violated(format!("variance {g}, expected {var}")) };
            mon.observe("sparse", "moment:Categorical.variance", key ^ 1, at.len() > 1, || name.clone(), v);
        }
        mon.require("sparse", n as u64);
    }
    let n = mon.n(150, 5000);
    sparse::<f64>(mon, n);
    sparse::<f32>(mon, n);
    // Accessors at extreme parameters and in both float types, against the closed forms.
    fn closed<F: Fl>(mon: &mut Mon, n: usize) {
        let mut r = mon.rng.derive("closed");
        let tol = if F::NAME == "f32" { 2e-5 } else { 1e-11 };
        let kind = format!("closed-form<{}>", F::NAME);
        for _ in 0..n {
            let mut ck = |name: &str, ps: &[f64], got: F, want: D, amp: f64| {
                let w = want.f();
                if !w.is_finite() || w.abs() > F::max_value().w() * 1e-3 || (w != 0.0 && w.abs() < F::min_positive_value().w() * 1e3) {
                    return;
                }
                let mut key: Vec<u64> = ps.iter().map(|p| p.to_bits()).collect();
                key.push(crate::rng::hs(name));
                let err = (got.w() - w).abs();
                let v = if err <= tol * amp * w.abs() { Verdict::Held } else { Verdict::Violated(format!("got {got:?}, expected {w:e}")) };
                mon.observe(&kind, &format!("moment:{name}"), fnv(&key), true, || format!("{name}{ps:?}"), v);
            };
            let m: Normal<F> = draw(&mut r);
            let ps = m.pv();
            ck("Normal.variance", &ps, m.variance(), d(ps[1]) * d(ps[1]), 1.0);
            let m: Exponential<F> = draw(&mut r);
            let ps = m.pv();
            ck("Exponential.mean", &ps, m.mean(), d(1.0) / d(ps[0]), 1.0);
            ck("Exponential.variance", &ps, m.variance(), d(1.0) / (d(ps[0]) * d(ps[0])), 1.0);
            let m: Gamma<F> = draw(&mut r);
            let ps = m.pv();
            ck("Gamma.mean", &ps, m.mean(), d(ps[0]) / d(ps[1]), 1.0);
            ck("Gamma.variance", &ps, m.variance(), d(ps[0]) / (d(ps[1]) * d(ps[1])), 1.0);
            ck("Gamma.scale", &ps, m.scale(), d(1.0) / d(ps[1]), 1.0);
            let m: Beta<F> = draw(&mut r);
            let ps = m.pv();
            let s = d(ps[0]) + d(ps[1]);
            ck("Beta.mean", &ps, m.mean(), d(ps[0]) / s, 1.0);
            ck("Beta.variance", &ps, m.variance(), d(ps[0]) * d(ps[1]) / (s * s * (s + d(1.0))), 1.0);
            let m: ChiSquared<F> = draw(&mut r);
            let ps = m.pv();
            ck("ChiSquared.mean", &ps, m.mean(), d(ps[0]), 1.0);
            ck("ChiSquared.variance", &ps, m.variance(), d(2.0) * d(ps[0]), 1.0);
            let m: Binomial<F> = draw(&mut r);
            let ps = m.pv();
            let q = d(1.0) - d(ps[1]);
            ck("Binomial.mean", &ps, m.mean(), d(ps[0]) * d(ps[1]), 1.0);
            ck("Binomial.variance", &ps, m.variance(), d(ps[0]) * d(ps[1]) * q, 1.0);
            let m: NegativeBinomial<F> = draw(&mut r);
            let ps = m.pv();
            let q = d(1.0) - d(ps[1]);
            ck("NegativeBinomial.mean", &ps, m.mean(), d(ps[0]) * d(ps[1]) / q, 1.0);
            ck("NegativeBinomial.variance", &ps, m.variance(), d(ps[0]) * d(ps[1]) / (q * q), 1.0);
            let m: Geometric<F> = draw(&mut r);
            let ps = m.pv();
            let q = d(1.0) - d(ps[0]);
            ck("Geometric.mean", &ps, m.mean(), d(1.0) / d(ps[0]), 1.0);
            ck("Geometric.variance", &ps, m.variance(), q / (d(ps[0]) * d(ps[0])), 1.0);
            let m: Bernoulli<F> = draw(&mut r);
            let ps = m.pv();
            ck("Bernoulli.mean", &ps, m.mean(), d(ps[0]), 1.0);
            ck("Bernoulli.variance", &ps, m.variance(), d(ps[0]) * (d(1.0) - d(ps[0])), 1.0);
        }
    }
    let n = mon.n(1500, 60_000);
    closed::<f64>(mon, n);
    closed::<f32>(mon, n);
    let n = mon.n(800, 40_000);
    all_families!(support_check, mon, n);
    for k in ["mass", "mean", "variance", "accessor"] {
        mon.require(k, 100);
    }
}

// ---------------------------------------------------------------- C03

/// Largest magnitude involved in η·T(x) − A + log h, for the tolerance: the reference's
/// own terms plus the terms of the natural form at this point.
fn ef_scale<X: Clone + Debug, F: Fl, M: Fam<X, F>>(m: &M, x: &X) -> f64
where
    M: MeasuresEf<X, F>,
{
    let (eta, a) = m.ef_parts();
    let t = m.ef_stat(x);
    let mut s = a.abs();
    for (e, t) in eta.iter().zip(&t) {
        s += (e * t).abs() + t.abs();
    }
    if s.is_finite() { s } else { 0.0 }
}

fn widen(e: Exp, by: f64) -> Exp {
    match e {
        Exp::V(mut r) => {
            r.mag += by;
            Exp::V(r)
        }
        e => e,
    }
}

/// The exponential-family interface with its array/vector types erased.
pub trait MeasuresEf<X: Clone, F: Fl>: Sized {
    fn ef_parts(&self) -> (Vec<f64>, f64);
    fn ef_split(&self) -> (Vec<f64>, f64);
    fn ef_stat(&self, x: &X) -> Vec<f64>;
    fn ef_base(&self, x: &X) -> f64;
    fn ef_density(&self, x: &X) -> F;
    fn ef_density2(&self, x: &X) -> F;
    /// Rebuild from natural parameters, where the family supports it.
    fn ef_from(eta: &[f64]) -> Option<Self>;
    fn zero(&self) -> Box<dyn Fn(&X) -> F>;
}

macro_rules! ef_impl {
    ($D:ident, $X:ty, $F:ty, $N:expr, $from:expr) => {
        impl MeasuresEf<$X, $F> for $D<$F> {
            fn ef_parts(&self) -> (Vec<f64>, f64) {
                let (e, a) = ExponentialFamily::<$X, $F>::natural_and_log_partition(self);
                (e.iter().map(|v| v.w()).collect(), a.w())
            }
            fn ef_split(&self) -> (Vec<f64>, f64) {
                let e = ExponentialFamily::<$X, $F>::to_natural(self);
                (e.iter().map(|v| v.w()).collect(), ExponentialFamily::<$X, $F>::log_partition(self).w())
            }
            fn ef_stat(&self, x: &$X) -> Vec<f64> {
                ExponentialFamily::<$X, $F>::sufficient_statistic(self, x).iter().map(|v| v.w()).collect()
            }
            fn ef_base(&self, x: &$X) -> f64 {
                let h: $F = ExponentialFamily::<$X, $F>::base_measure(self).log_density_wrt_root(x);
                h.w()
            }
            fn ef_density(&self, x: &$X) -> $F {
                ExponentialFamily::<$X, $F>::exp_fam_log_density(self, x)
            }
            fn ef_density2(&self, x: &$X) -> $F {
                compute_exp_fam_log_density::<$X, $F, _>(self, x)
            }
            #[allow(clippy::redundant_closure_call)]
            fn ef_from(eta: &[f64]) -> Option<Self> {
                if !$from {
                    return None;
                }
                let v: Vec<$F> = eta.iter().map(|e| <$F>::of(*e)).collect();
                let p: <Self as ExponentialFamily<$X, $F>>::NaturalParam = v.try_into().ok()?;
                Some(<Self as ExponentialFamily<$X, $F>>::from_natural(p))
            }
            fn zero(&self) -> Box<dyn Fn(&$X) -> $F> {
                Box::new(ZeroOverheadOptimizer::<$X, $F>::zero_overhead_optimize(self.clone()))
            }
        }
    };
}
macro_rules! ef_both {
    ($D:ident, $X:tt, $N:expr, $from:expr) => {
        ef_both!(@ $D, $X, $N, $from);
    };
    (@ $D:ident, real, $N:expr, $from:expr) => {
        ef_impl!($D, f64, f64, $N, $from);
        ef_impl!($D, f32, f32, $N, $from);
    };
    (@ $D:ident, $X:ty, $N:expr, $from:expr) => {
        ef_impl!($D, $X, f64, $N, $from);
        ef_impl!($D, $X, f32, $N, $from);
    };
}
ef_both!(Normal, real, 2, true);
ef_both!(Exponential, real, 1, true);
ef_both!(Gamma, real, 2, true);
ef_both!(ChiSquared, real, 2, true);
ef_both!(Beta, real, 2, true);
ef_both!(Bernoulli, u8, 1, true);
ef_both!(Binomial, u64, 1, false);
ef_both!(NegativeBinomial, u64, 1, false);
ef_both!(Geometric, u64, 1, true);
ef_both!(Poisson, u64, 1, true);
ef_both!(Categorical, usize, 0, true);

fn c03_family<X: Clone + Debug, F: Fl, M: Fam<X, F> + MeasuresEf<X, F>>(mon: &mut Mon, draws: usize, pts: usize) {
    let mut r = mon.rng.derive(&format!("c03{}{}", M::NAME, F::NAME));
    let kind = format!("form/{}<{}>", M::NAME, F::NAME);
    for _ in 0..draws {
        let m: M = draw(&mut r);
        if !m.interior() {
            continue;
        }
        // the two ways of asking for η and A agree
        let (eta, a) = m.ef_parts();
        let (eta2, a2) = m.ef_split();
        let same = eta.len() == eta2.len()
            && eta.iter().zip(&eta2).all(|(x, y)| (x - y).abs() <= 1e-5 * x.abs().max(1e-30))
            && (a - a2).abs() <= 1e-5 * (a.abs() + 1.0);
        let pk = fnv(&m.pv().iter().map(|p| p.to_bits()).collect::<Vec<_>>());
        mon.observe("parts", &format!("parts:{}", M::NAME), pk, true, || format!("{}{:?}", M::NAME, m.pv()), if same {
            Verdict::Held
        } else {
            Verdict::Violated(format!("combined {eta:?},{a} but separately {eta2:?},{a2}"))
        });
        for _ in 0..pts {
            let x = m.point(&mut r);
            let mut e = m.expect(&x);
            let s = sig(&m, &e, "form");
            if let Exp::V(rf) = &mut e {
                rf.mag += ef_scale::<X, F, M>(&m, &x);
            }
            let nt = !matches!(e, Exp::NegInf);
            let l = m.listed_natural_form(&x).map(|l| widen(l, ef_scale::<X, F, M>(&m, &x)));
            let (s1, v) = natural(&e, l.as_ref(), &s, "form", M::NAME, guard(|| m.ef_density(&x)));
            mon.observe(&kind, &s1, m.key(&x), nt, || m.show(&x), v);
            let (s1, v) = natural(&e, l.as_ref(), &s, "form", M::NAME, guard(|| m.ef_density2(&x)));
            mon.observe(&kind, &s1, m.key(&x), nt, || m.show(&x) + " (free function)", v);
            // the parts add up to the whole
            if let Exp::V(_) = e {
                let t = m.ef_stat(&x);
                let mut v = -a + m.ef_base(&x);
                for (p, q) in eta.iter().zip(&t) {
                    v += p * q;
                }
                let (s1, v) = natural(&e, l.as_ref(), &s, "form", M::NAME, Ok(F::of(v)));
                mon.observe(&kind, &s1, m.key(&x), nt, || m.show(&x) + " (η·T−A+log h)", v);
            }
        }
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, (draws * pts / 2) as u64);
}

pub fn c03(mon: &mut Mon) {
    mon.rule = "family × interior parameters × point: the natural form η·T(x)−A(η)+log h(x) is compared with the textbook log-density; non-trivial when the density is positive".into();
    let (a, b) = (mon.n(350, 5000), mon.n(8, 10));
    expfam_families!(c03_family, mon, a, b);
    c03_family::<usize, f64, Categorical<f64>>(mon, a, b);
    c03_family::<usize, f32, Categorical<f32>>(mon, a, b);
    fn std_normal<F: Fl>(mon: &mut Mon)
    where
        StdNormal<F>: ExponentialFamily<F, F, NaturalParam = [F; 2], SufficientStat = [F; 2]> + Default,
        <StdNormal<F> as ExponentialFamily<F, F>>::BaseMeasure: HasLogDensity<F, F>,
    {
        let mut r = mon.rng.derive("std");
        let m = StdNormal::<F>::default();
        for _ in 0..mon.n(2000, 50_000) {
            let x = Fam::<F, F>::point(&Normal::<F>::default(), &mut r);
            let e = std_normal_expect(&m, x);
            let got = guard(|| ExponentialFamily::<F, F>::exp_fam_log_density(&m, &x));
            mon.observe(&format!("form/StdNormal<{}>", F::NAME), "form:StdNormal", x.w().to_bits(), true, || format!("StdNormal at {x:?} (natural form)"), verdict(&e, got));
            let inside = guard(|| m.in_support(x));
            mon.observe(&format!("form/StdNormal<{}>", F::NAME), "form:StdNormal", x.w().to_bits() ^ 1, true, || format!("StdNormal support at {x:?}"), match inside {
                Ok(true) => Verdict::Held,
                other => Verdict::Violated(format!("in_support: {other:?}")),
            });
        }
    }
    std_normal::<f64>(mon);
    std_normal::<f32>(mon);
}

// ---------------------------------------------------------------- C04

fn c04_round<X: Clone + Debug, F: Fl, M: Fam<X, F> + MeasuresEf<X, F>>(mon: &mut Mon, draws: usize) {
    let mut r = mon.rng.derive(&format!("c04{}{}", M::NAME, F::NAME));
    let kind = format!("round-trip/{}<{}>", M::NAME, F::NAME);
    let tol = if F::NAME == "f32" { 3e-5 } else { 1e-11 };
    for _ in 0..draws {
        let m: M = draw(&mut r);
        if !m.interior() {
            continue;
        }
        let (eta, _) = m.ef_parts();
        let ps = m.pv();
        let case = || format!("{}<{}>{ps:?} η={eta:?}", M::NAME, F::NAME);
        let key = fnv(&ps.iter().map(|p| p.to_bits()).collect::<Vec<_>>());
        let sg = format!("round-trip:{}", M::NAME);
        let back = match guard(|| M::ef_from(&eta)) {
            Ok(Some(b)) => b,
            Ok(None) => return,
            Err(p) => {
                // A parameter that rounds onto the boundary of the space cannot come back.
                let near = ps.iter().any(|p| *p < 4.0 * F::epsilon().w() || (M::DISCRETE && (1.0 - p).abs() < 4.0 * F::epsilon().w()));
                let v = if near { Verdict::Inconclusive } else { Verdict::Violated(format!("panicked: {p}")) };
                mon.observe(&kind, &sg, key, true, case, v);
                continue;
            }
        };
        let qs = back.pv();
        let mut bad = String::new();
        for (i, (p, q)) in ps.iter().zip(&qs).enumerate() {
            // shapes are stored as η+1 and probabilities as 1−e^η: absolute error one ulp of 1
            let scale = p.abs() + if matches!(M::NAME, "Gamma" | "Beta" | "ChiSquared" | "Geometric") { 1.0 } else { 0.0 };
            let amp = match M::NAME {
                "Poisson" => 1.0 + eta[0].abs(),
                "Bernoulli" | "Geometric" | "Categorical" => 1.0 + eta.iter().fold(0.0f64, |a, e| a.max(e.abs())),
                _ => 1.0,
            };
            if !((p - q).abs() <= tol * scale * amp) {
                bad = format!("parameter {i}: {p} came back as {q}");
            }
        }
        if ps.len() != qs.len() {
            bad = format!("{} parameters came back as {}", ps.len(), qs.len());
        }
        mon.observe(&kind, &sg, key, true, case, if bad.is_empty() { Verdict::Held } else { Verdict::Violated(bad) });
    }
}

/// dA/dη_i by a four-point stencil on rebuilt members, against E[T_i].
fn slope<X: Clone, M: MeasuresEf<X, f64>>(eta: &[f64], i: usize, h: f64) -> Result<f64, String> {
    let at = |s: f64| -> Result<f64, String> {
        let mut e = eta.to_vec();
        e[i] += s;
        guard(|| M::ef_from(&e).unwrap().ef_parts().1)
    };
    Ok((8.0 * (at(h)? - at(-h)?) - (at(2.0 * h)? - at(-2.0 * h)?)) / (12.0 * h))
}

pub fn c04(mon: &mut Mon) {
    mon.rule = "family × interior parameters: parameters → natural parameters → parameters; and the gradient of the log-partition (finite differences over rebuilt members) against the expected sufficient statistic; natural parameters over the whole space including far tails".into();
    let n = mon.n(2500, 80_000);
    expfam_families!(c04_round, mon, n);
    c04_round::<usize, f64, Categorical<f64>>(mon, n);
    c04_round::<usize, f32, Categorical<f32>>(mon, n);
    let mut r = mon.rng.derive("slope");
    for _ in 0..mon.n(600, 20_000) {
        let mut ck = |name: &str, key: u64, case: String, got: Result<f64, String>, want: f64, scale: f64| {
            let v = match got {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(g) if (g - want).abs() <= 2e-5 * (want.abs() + scale) => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("dA/dη = {g}, E[T] = {want}")),
            };
            mon.observe("slope", &format!("slope:{name}"), key, true, || case.clone(), v);
        };
        let (mu, s) = (r.normal() * 2.0, r.range(0.3, 3.0));
        let m = Normal::new(mu, s);
        let (eta, _) = m.ef_parts();
        let k = fnv(&[mu.to_bits(), s.to_bits()]);
        let c = format!("Normal[{mu}, {s}]");
        ck("Normal", k, c.clone(), slope::<f64, Normal<f64>>(&eta, 0, 1e-3 * (1.0 + eta[0].abs())), mu, s);
        ck("Normal", k, c, slope::<f64, Normal<f64>>(&eta, 1, 1e-3 * eta[1].abs()), mu * mu + s * s, s);
        let l = r.logu(-1.0, 1.0);
        let m = Exponential::new(l);
        let (eta, _) = m.ef_parts();
        ck("Exponential", l.to_bits(), format!("Exponential[{l}]"), slope::<f64, Exponential<f64>>(&eta, 0, 1e-3 * l), 1.0 / l, 0.0);
        let (a, b) = (r.range(0.5, 20.0), r.logu(-1.0, 1.0));
        let m = Gamma::new(a, b);
        let (eta, _) = m.ef_parts();
        ck("Gamma", fnv(&[a.to_bits(), b.to_bits()]), format!("Gamma[{a}, {b}]"), slope::<f64, Gamma<f64>>(&eta, 1, 1e-3 * b), a / b, 0.0);
        let p = r.range(0.01, 0.99);
        let m = Bernoulli::new(p);
        let (eta, _) = m.ef_parts();
        ck("Bernoulli", p.to_bits(), format!("Bernoulli[{p}]"), slope::<u8, Bernoulli<f64>>(&eta, 0, 1e-3), p, 0.01);
        let m = Geometric::new(p);
        let (eta, _) = m.ef_parts();
        ck("Geometric", p.to_bits(), format!("Geometric[{p}]"), slope::<u64, Geometric<f64>>(&eta, 0, 1e-3 * eta[0].abs()), 1.0 / p, 0.0);
        let l = r.logu(-1.0, 2.0);
        let m = Poisson::new(l);
        let (eta, _) = m.ef_parts();
        ck("Poisson", l.to_bits(), format!("Poisson[{l}]"), slope::<u64, Poisson<f64>>(&eta, 0, 1e-3), l, 0.0);
        let k = r.int(2, 6) as usize;
        let m = Categorical::new(crate::refs::draw_probs::<f64>(&mut r, k, false));
        let (eta, _) = m.ef_parts();
        let i = r.below(k - 1);
        let key = fnv(&m.probs.iter().map(|p| p.to_bits()).collect::<Vec<_>>());
        ck("Categorical", key, format!("Categorical{:?} i={i}", m.probs), slope::<usize, Categorical<f64>>(&eta, i, 1e-3), m.probs[i], 0.01);
    }
    // The whole natural parameter space, not only images of drawn members.
    fn anywhere<F: Fl>(mon: &mut Mon)
    where
        Bernoulli<F>: MeasuresEf<u8, F>,
        Categorical<F>: MeasuresEf<usize, F>,
    {
        let mut r = mon.rng.derive("anywhere");
        for _ in 0..mon.n(1500, 40_000) {
            let eta = F::of(if r.chance(0.5) { r.normal() * 5.0 } else { r.normal() * 600.0 }).w();
            let want = if eta >= 0.0 {
                (d(1.0) / (d(1.0) + d(-eta).exp())).f()
            } else {
                let e = d(eta).exp();
                (e / (d(1.0) + e)).f()
            };
            let tol = if F::NAME == "f32" { 3e-5 } else { 1e-11 };
            let v = match guard(|| Bernoulli::<F>::ef_from(&[eta]).unwrap().prob.w()) {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(g) if (g - want).abs() <= tol * (want * (1.0 + eta.abs() * 0.1)) + F::min_positive_value().w() * 4.0 => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("p = {g:e}, expected {want:e}")),
            };
            mon.observe(&format!("natural-space/Bernoulli<{}>", F::NAME), "natural-space:Bernoulli", eta.to_bits(), true, || format!("Bernoulli from η={eta}"), v);
            let k = r.int(1, 12) as usize;
            let sc = if r.chance(0.5) { 3.0 } else { 500.0 };
            let es: Vec<f64> = (0..k).map(|_| F::of(r.normal() * sc).w()).collect();
            let top = es.iter().fold(0.0f64, |a, e| a.max(*e));
            let z = es.iter().fold(d(-top).exp(), |a, e| a + d(e - top).exp());
            let want: Vec<f64> = es.iter().chain(std::iter::once(&0.0)).map(|e| (d(e - top).exp() / z).f()).collect();
            let key = fnv(&es.iter().map(|e| e.to_bits()).collect::<Vec<_>>());
            let v = match guard(|| Categorical::<F>::ef_from(&es).unwrap().probs) {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(g) => {
                    let bad = g.len() != want.len()
                        || g.iter().zip(&want).any(|(a, b)| !((a.w() - b).abs() <= tol * (1.0 + 0.1 * sc) * b + tol * 1e-3));
                    if bad { Verdict::Violated(format!("{g:?}, expected {want:?}")) } else { Verdict::Held }
                }
            };
            mon.observe(&format!("natural-space/Categorical<{}>", F::NAME), "natural-space:Categorical", key, true, || format!("Categorical from η={es:?}"), v);
        }
    }
    anywhere::<f64>(mon);
    anywhere::<f32>(mon);
    mon.require("slope", 500);
}

// ---------------------------------------------------------------- C06

/// The exponential-family view of an IID product, where the library provides one.
trait IidNatural<X: Clone, F: Fl> {
    const NATURAL: bool;
    fn joint(&self, xs: &Vec<X>) -> F;
    fn total(&self, xs: &Vec<X>) -> Vec<F>;
}
macro_rules! iid_natural {
    ($($D:ident, $X:ty, $F:ty);*) => { $(
        impl IidNatural<$X, $F> for IID<$D<$F>> {
            const NATURAL: bool = true;
            fn joint(&self, xs: &Vec<$X>) -> $F {
                ExponentialFamily::<Vec<$X>, $F>::exp_fam_log_density(self, xs)
            }
            fn total(&self, xs: &Vec<$X>) -> Vec<$F> {
                ExponentialFamily::<Vec<$X>, $F>::sufficient_statistic(self, xs).to_vec()
            }
        }
    )* };
}
macro_rules! iid_plain {
    ($($D:ident, $X:ty, $F:ty);*) => { $(
        impl IidNatural<$X, $F> for IID<$D<$F>> {
            const NATURAL: bool = false;
            fn joint(&self, _: &Vec<$X>) -> $F {
                unreachable!()
            }
            fn total(&self, _: &Vec<$X>) -> Vec<$F> {
                Vec::new()
            }
        }
    )* };
}
iid_natural!(Normal, f64, f64; Exponential, f64, f64; Gamma, f64, f64; ChiSquared, f64, f64; Beta, f64, f64; Bernoulli, u8, f64; Geometric, u64, f64);
iid_natural!(Normal, f32, f32; Exponential, f32, f32; Gamma, f32, f32; ChiSquared, f32, f32; Beta, f32, f32; Bernoulli, u8, f32; Geometric, u64, f32);
iid_plain!(Binomial, u64, f64; NegativeBinomial, u64, f64; Poisson, u64, f64; Binomial, u64, f32; NegativeBinomial, u64, f32; Poisson, u64, f32);

fn c06_family<X, F: Fl, M>(mon: &mut Mon, draws: usize)
where
    X: Clone + Debug + PartialEq,
    M: Fam<X, F> + MeasuresEf<X, F> + ExponentialFamily<X, F>,
    M::NaturalParam: DotProduct<M::SufficientStat, Output = F>,
    M::SufficientStat: SumSufficientStats<M::SufficientStat>,
    <M as ExponentialFamily<X, F>>::BaseMeasure: HasLogDensity<X, F>,
    IID<M>: Measure<Vec<X>> + HasLogDensity<Vec<X>, F> + IidNatural<X, F>,
    <IID<M> as Measure<Vec<X>>>::RootMeasure: Clone,
    LogDensity<Vec<X>, IID<M>, <IID<M> as Measure<Vec<X>>>::RootMeasure>: EvaluateAt<Vec<X>, F>,
{
    let mut r = mon.rng.derive(&format!("c06{}{}", M::NAME, F::NAME));
    let kind = format!("joint/{}<{}>", M::NAME, F::NAME);
    for i in 0..draws {
        let m: M = draw(&mut r);
        let n = if F::NAME == "f64" { r.len(20, if i % 10 == 0 { 20_000 } else { 600 }) } else { r.len(20, 200) };
        // once per family a sample longer than any 16-bit count
        let n = if F::NAME == "f64" && i == draws / 2 { 65_536 + r.below(3000) } else { n };
        let clean_only = n > 65_000;
        let clean = r.chance(0.7) || clean_only;
        let mut xs: Vec<X> = Vec::new();
        while xs.len() < n {
            let x = m.point(&mut r);
            if clean && !matches!(m.expect(&x), Exp::V(_)) {
                continue;
            }
            // a degenerate parameter with an impossible point: the joint is −∞, skip rare noise
            xs.push(x);
        }
        let es: Vec<Exp> = xs.iter().map(|x| m.expect(x)).collect();
        let direct = exp_sum(&es);
        let mut ef = direct;
        if let Exp::V(rf) = &mut ef {
            if m.interior() {
                rf.mag += xs.iter().map(|x| ef_scale::<X, F, M>(&m, x)).sum::<f64>();
            }
        }
        let iid = IID::new(m.clone());
        let s = if m.interior() { sig(&m, &direct, "joint") } else { format!("joint:{}:degenerate", M::NAME) };
        let key = fnv(&xs.iter().map(|x| m.key(x)).chain([n as u64]).collect::<Vec<_>>());
        let nt = n > 1;
        let show = |route: &str| format!("IID {}<{}>{:?} n={n} first={:?} via {route}", M::NAME, F::NAME, m.pv(), xs.first());
        let ld = iid.log_density();
        let listed = m.interior().then(|| {
            let ls: Option<Vec<Exp>> = xs.iter().map(|x| m.listed_natural_form(x).map(|l| widen(l, ef_scale::<X, F, M>(&m, x)))).collect();
            ls.map(|l| exp_sum(&l))
        }).flatten();
        let mut route = |name: &str, got: Result<F, String>| {
            let (s1, v) = natural(&ef, listed.as_ref(), &s, "joint", M::NAME, got);
            mon.observe(&kind, &s1, key, nt, || show(name), v);
        };
        route("builder", guard(|| ld.at::<F>(&xs)));
        route("iid_log_density", guard(|| iid.iid_log_density::<X, F>(&xs)));
        if IID::<M>::NATURAL {
            route("exp_fam_log_density", guard(|| iid.joint(&xs)));
        }
        route("free function", guard(|| compute_iid_exp_fam_log_density::<X, F, M>(&m, &xs)));
        route("root density", guard(|| HasLogDensity::<Vec<X>, F>::log_density_wrt_root(&iid, &xs)));
        route("extension", guard(|| IIDExtension::<X, F>::iid(m.clone()).iid_log_density::<X, F>(&xs)));
        // order cannot matter
        let mut ys = xs.clone();
        r.shuffle(&mut ys);
        route("permuted", guard(|| iid.iid_log_density::<X, F>(&ys)));
        mon.observe(&kind, &format!("joint-sum:{}", M::NAME), key, nt, || show("fallback"), verdict(&direct, guard(|| iid.iid_log_density_fallback::<X, F>(&xs))));
        // membership
        let all = xs.iter().all(|x| m.in_support(x.clone()));
        let got = iid.in_support(xs.clone());
        mon.observe("joint-support", &format!("joint-support:{}", M::NAME), key, nt, || show("support"), if got == all { Verdict::Held } else { Verdict::Violated(format!("in_support {got}, points {all}")) });
        // summed sufficient statistic
        let t = iid.total(&xs);
        let mut bad = String::new();
        for (j, tj) in t.iter().enumerate() {
            let mut w = d(0.0);
            let mut mag = 0.0;
            for x in &xs {
                let v = m.ef_stat(x)[j];
                w = w + d(v);
                mag += v.abs();
            }
            if w.is_finite() && !((tj.w() - w.f()).abs() <= F::TOL * mag) {
                bad = format!("statistic {j}: {} expected {}", tj.w(), w.f());
            }
        }
        mon.observe("joint-statistic", &format!("joint-stat:{}", M::NAME), key, nt, || show("statistic"), if bad.is_empty() { Verdict::Held } else { Verdict::Violated(bad) });
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, draws as u64 * 2);
}

pub fn c06(mon: &mut Mon) {
    mon.rule = "family × parameters × sample (0 to 20000 points, 30% of samples with off-support points) × route; non-trivial when the sample has at least two points; distinct by (family, parameters, sample)".into();
    let n = mon.n(200, 6000);
    expfam_families!(c06_family, mon, n);
    // Decomposition-based IID routes.
    fn decomposed<F: Fl>(mon: &mut Mon) {
        let mut r = mon.rng.derive("deco");
        for _ in 0..mon.n(400, 20_000) {
            macro_rules! one {
                ($D:ident) => {{
                    let m: $D<F> = draw(&mut r);
                    let n = if F::NAME == "f64" { r.len(25, 2000) } else { r.len(25, 200) };
                    let xs: Vec<F> = (0..n).map(|_| m.point(&mut r)).collect();
                    let e = exp_sum(&xs.iter().map(|x| m.expect(x)).collect::<Vec<_>>());
                    let key = fnv(&xs.iter().map(|x| m.key(x)).chain([n as u64]).collect::<Vec<_>>());
                    let v = verdict(&e, guard(|| m.log_density_iid(&xs)));
                    mon.observe(&format!("log_density_iid/{}<{}>", stringify!($D), F::NAME), concat!("deco-iid:", stringify!($D)), key, n > 1, || format!("{}{:?} {xs:?}", stringify!($D), m.pv()), v);
                }};
            }
            one!(Normal);
            one!(Cauchy);
            one!(StudentT);
        }
    }
    decomposed::<f64>(mon);
    decomposed::<f32>(mon);
    // The joint's base measure, over a base measure with a bounded support.
    let mut r = mon.rng.derive("base");
    for _ in 0..mon.n(2000, 40_000) {
        let top = r.below(40) as u64;
        let h = IIDBaseMeasure::new(Bounded(top));
        let len = r.len(12, 200);
        let out = r.chance(0.5);
        let xs: Vec<u64> = (0..len).map(|_| if out && r.chance(0.3) { top + 1 + r.below(5) as u64 } else { r.below(top as usize + 1) as u64 }).collect();
        let inside = xs.iter().all(|x| *x <= top);
        let key = fnv(&xs.iter().copied().chain([top, len as u64]).collect::<Vec<_>>());
        let case = || format!("joint base measure over 0..={top} at {xs:?}");
        let got = guard(|| Measure::<Vec<u64>>::in_support(&h, xs.clone()));
        mon.observe("joint-base", "joint-base:support", key, len > 1, case, if got == Ok(inside) { Verdict::Held } else { Verdict::Violated(format!("in_support {got:?}, expected {inside}")) });
        let e = if inside { Exp::V(Ref { v: d(-0.5) * d(xs.iter().sum::<u64>() as f64), mag: xs.iter().sum::<u64>() as f64 }) } else { Exp::NegInf };
        mon.observe("joint-base", "joint-base:density", key, len > 1, case, verdict::<f64>(&e, guard(|| HasLogDensity::<Vec<u64>, f64>::log_density_wrt_root(&h, &xs))));
    }
    mon.require("joint-base", 2000);
}

/// Weights e^(−x/2) on 0..=n, relative to the counting measure.
#[derive(Clone)]
struct Bounded(u64);
impl measures_core::MeasureMarker for Bounded {
    type IsPrimitive = measures_core::False;
    type IsExponentialFamily = measures_core::False;
}
impl Measure<u64> for Bounded {
    type RootMeasure = measures_core::CountingMeasure<u64>;
    fn in_support(&self, x: u64) -> bool {
        x <= self.0
    }
    fn root_measure(&self) -> Self::RootMeasure {
        measures_core::CountingMeasure::new()
    }
}
impl HasLogDensity<u64, f64> for Bounded {
    fn log_density_wrt_root(&self, x: &u64) -> f64 {
        if *x <= self.0 { -0.5 * *x as f64 } else { f64::NEG_INFINITY }
    }
}

// ---------------------------------------------------------------- C24

fn c24_family<X, F: Fl, M>(mon: &mut Mon, draws: usize)
where
    X: Clone + Debug,
    M: Fam<X, F> + MeasuresEf<X, F> + ExponentialFamily<X, F> + ZeroOverheadOptimizer<X, F>,
    M::NaturalParam: DotProduct<M::SufficientStat, Output = F> + Clone,
    <M as ExponentialFamily<X, F>>::BaseMeasure: HasLogDensity<X, F> + Clone,
    M::RootMeasure: HasLogDensity<X, F> + Clone,
{
    let mut r = mon.rng.derive(&format!("c24{}{}", M::NAME, F::NAME));
    let kind = format!("zero-overhead/{}<{}>", M::NAME, F::NAME);
    for _ in 0..draws {
        let m: M = draw(&mut r);
        if !m.interior() {
            continue;
        }
        let f = m.zero();
        let other: M = draw(&mut r);
        let relf = m.clone().zero_overhead_optimize_wrt(other.clone());
        let root = m.clone().zero_overhead_optimize_wrt(m.root_measure());
        for _ in 0..6 {
            let x = m.point(&mut r);
            let mut e = m.expect(&x);
            let s = sig(&m, &e, "zero-overhead");
            let sc = ef_scale::<X, F, M>(&m, &x);
            if let Exp::V(rf) = &mut e {
                rf.mag += sc;
            }
            let nt = !matches!(e, Exp::NegInf);
            let l = m.listed_natural_form(&x).map(|l| widen(l, sc));
            let (s1, v) = natural(&e, l.as_ref(), &s, "zero-overhead", M::NAME, guard(|| f(&x)));
            mon.observe(&kind, &s1, m.key(&x), nt, || m.show(&x), v);
            let (s1, v) = natural(&e, l.as_ref(), &s, "zero-overhead", M::NAME, guard(|| root(&x)));
            mon.observe(&kind, &s1, m.key(&x), nt, || m.show(&x) + " wrt root", v);
            let b = other.expect(&x);
            if let (Exp::V(_), Exp::V(_)) = (&e, &b) {
                let l = l.map(|l| rel(&l, &b));
                let (s1, v) = natural(&rel(&e, &b), l.as_ref(), &s, "zero-overhead", M::NAME, guard(|| relf(&x)));
                mon.observe(&kind, &s1, m.key(&x), nt, || format!("{} wrt {:?}", m.show(&x), other.pv()), v);
            }
        }
        if mon.spent() {
            break;
        }
    }
    mon.require(&kind, draws as u64 * 3);
}

fn c24_iid<X, F: Fl, M>(mon: &mut Mon, draws: usize)
where
    X: Clone + Debug,
    M: Fam<X, F> + MeasuresEf<X, F> + ExponentialFamily<X, F>,
    IID<M>: ZeroOverheadOptimizer<Vec<X>, F>,
    <IID<M> as ExponentialFamily<Vec<X>, F>>::NaturalParam: DotProduct<<IID<M> as ExponentialFamily<Vec<X>, F>>::SufficientStat, Output = F> + Clone,
    <IID<M> as ExponentialFamily<Vec<X>, F>>::BaseMeasure: HasLogDensity<Vec<X>, F> + Clone,
{
    let mut r = mon.rng.derive(&format!("c24i{}{}", M::NAME, F::NAME));
    for _ in 0..draws {
        let m: M = draw(&mut r);
        if !m.interior() {
            continue;
        }
        let n = r.below(8);
        let xs: Vec<X> = (0..n).map(|_| loop {
            let x = m.point(&mut r);
            if matches!(m.expect(&x), Exp::V(_)) {
                break x;
            }
        }).collect();
        let mut e = exp_sum(&xs.iter().map(|x| m.expect(x)).collect::<Vec<_>>());
        if let Exp::V(rf) = &mut e {
            rf.mag += xs.iter().map(|x| ef_scale::<X, F, M>(&m, x)).sum::<f64>();
        }
        let f = IID::new(m.clone()).zero_overhead_optimize();
        let key = fnv(&xs.iter().map(|x| m.key(x)).chain([n as u64]).collect::<Vec<_>>());
        let s = if n == 1 { "zero-overhead-iid:n=1" } else { "zero-overhead-iid:n!=1" };
        mon.observe("zero-overhead/IID", s, key, n > 1, || format!("IID {}<{}>{:?} n={n}", M::NAME, F::NAME, m.pv()), verdict(&e, guard(|| f(&xs))));
    }
}

struct Quadratic {
    a: f64,
    b: f64,
}
impl CustomJITOptimizer<f64, f64> for Quadratic {
    /// a·x² − b·x + 1/2 with a and b as named parameters.
    fn custom_symbolic_log_density(&self) -> symbolic_math::CustomSymbolicLogDensity {
        use symbolic_math::Expr;
        let ps = [("pa".to_string(), self.a), ("pb".to_string(), self.b)].into_iter().collect();
        let x = Expr::variable("x");
        let e = Expr::variable("pa") * x.clone() * x.clone() - Expr::variable("pb") * x + Expr::constant(0.5);
        symbolic_math::CustomSymbolicLogDensity::new(e, ps)
    }
}

/// A registered pattern is found under its own type only, the latest registration wins,
/// and what it generates denotes the density it was given.
fn c24_registry(mon: &mut Mon) {
    use measures_exponential_family::exponential_family::auto_jit::{AutoJITPattern, AutoJITRegistry};
    use std::any::{Any, TypeId};
    use symbolic_math::{Expr, expr::SymbolicLogDensity};
    struct Shifted(f64);
    impl AutoJITPattern for Shifted {
        fn generate_symbolic(&self, m: &dyn Any) -> Result<SymbolicLogDensity, measures_exponential_family::JITError> {
            let m = m.downcast_ref::<Normal<f64>>().ok_or_else(|| measures_exponential_family::JITError::UnsupportedExpression("not a normal".into()))?;
            let z = (Expr::variable("x") - Expr::constant(m.mean)) / Expr::constant(m.std_dev);
            Ok(SymbolicLogDensity::new(Expr::constant(-0.5) * z.clone() * z + Expr::constant(self.0), std::collections::HashMap::new()))
        }
    }
    let mut r = mon.rng.derive("registry");
    for _ in 0..mon.n(50, 500) {
        let mut g = if r.chance(0.5) { AutoJITRegistry::new() } else { AutoJITRegistry::default() };
        let mut now: Option<f64> = None;
        for _ in 0..r.int(1, 6) {
            let key = |normal: bool| if normal { TypeId::of::<Normal<f64>>() } else { TypeId::of::<Normal<f32>>() };
            if r.chance(0.5) {
                let normal = r.chance(0.6);
                let c = r.normal();
                g.register_pattern(key(normal), Box::new(Shifted(c)));
                if normal {
                    now = Some(c);
                }
            }
            let m: Normal<f64> = draw(&mut r);
            let x = m.point(&mut r);
            let got = guard(|| g.get_pattern(key(true)).map(|p| p.generate_symbolic(&m).map(|s| s.evaluate_single("x", x).ok())));
            let v = match (now, got) {
                (None, Ok(None)) => Verdict::Held,
                (Some(c), Ok(Some(Ok(Some(v))))) => {
                    let z = (d(x) - d(m.mean)) / d(m.std_dev);
                    Exp::V(Ref::sum(&[-(d(0.5) * z * z), d(c)])).judge(v)
                }
                (w, g) => Verdict::Violated(format!("registered {w:?}, got {g:?}")),
            };
            mon.observe("registry", "registry", fnv(&[x.to_bits(), m.mean.to_bits()]), true, || m.show(&x), v);
        }
    }
}

pub fn c24(mon: &mut Mon) {
    mon.rule = "family × interior parameters × point through every optimised evaluator (zero-overhead closures, relative closures, static inline compilers, custom JIT default method, automatic JIT) against the textbook log-density; an optimiser may refuse (report an error) but not return a different value".into();
    let n = mon.n(150, 5000);
    expfam_families!(c24_family, mon, n);
    let n = mon.n(100, 3000);
    c24_iid::<f64, f64, Normal<f64>>(mon, n);
    c24_iid::<f64, f64, Exponential<f64>>(mon, n);
    c24_iid::<f64, f64, Gamma<f64>>(mon, n);
    c24_iid::<f64, f64, Beta<f64>>(mon, n);
    c24_iid::<f32, f32, ChiSquared<f32>>(mon, n);
    c24_iid::<u8, f64, Bernoulli<f64>>(mon, n);
    c24_iid::<u64, f64, Geometric<f64>>(mon, n);
    let mut r = mon.rng.derive("static");
    for _ in 0..mon.n(3000, 100_000) {
        let m: Normal<f64> = draw(&mut r);
        let x = m.point(&mut r);
        let f = StaticInlineJITCompiler::compile_normal(m.mean, m.std_dev);
        mon.observe("static/Normal", "static:Normal", m.key(&x), true, || m.show(&x), verdict(&m.expect(&x), guard(|| f.call(x))));
        // scales whose square is not representable
        let (mu, sigma) = (r.normal(), r.logu(-290.0, 290.0));
        let x = mu + sigma * r.normal() * 3.0;
        let z = (x - mu) / sigma;
        let e = Exp::V(Ref::sum(&[-(d(z) * d(z) * d(0.5)), -d(sigma).ln(), d(-0.918_938_533_204_672_7)]));
        // the difference is exact, or rounded as the evaluator rounds it
        let f = StaticInlineJITCompiler::compile_normal(mu, sigma);
        mon.observe("static/extreme", "static:Normal", fnv(&[x.to_bits(), sigma.to_bits()]), true, || format!("Normal({mu}, {sigma}) at {x}"), verdict(&e, guard(|| f.call(x))));
        let m: Exponential<f64> = draw(&mut r);
        let x = m.point(&mut r);
        let f = StaticInlineJITCompiler::compile_exponential(m.rate);
        mon.observe("static/Exponential", "static:Exponential", m.key(&x), true, || m.show(&x), verdict(&m.expect(&x), guard(|| f.call(x))));
    }
    for _ in 0..mon.n(40, 400) {
        let o = Quadratic { a: r.normal() * 3.0, b: r.normal() * 3.0 };
        let Ok(f) = o.compile_custom_jit() else {
            mon.observe("custom-jit", "custom-jit", 0, true, || "compile".into(), Verdict::Violated("refused a polynomial density".into()));
            continue;
        };
        for _ in 0..10 {
            let x = r.normal() * 5.0;
            let e = Exp::V(Ref::sum(&[d(o.a) * d(x) * d(x), -(d(o.b) * d(x)), d(0.5)]));
            mon.observe("custom-jit", "custom-jit", fnv(&[x.to_bits(), o.a.to_bits()]), true, || format!("{}x²−{}x+½ at {x}", o.a, o.b), verdict(&e, guard(|| f.call_single(x))));
        }
    }
    for _ in 0..mon.n(30, 300) {
        let m: Normal<f64> = draw(&mut r);
        if let Ok(f) = m.auto_jit() {
            let x = m.point(&mut r);
            mon.observe("auto-jit", "auto-jit", m.key(&x), true, || m.show(&x), verdict(&m.expect(&x), guard(|| f.call_single(x))));
        } else {
            mon.observe("auto-jit", "auto-jit", m.mean.to_bits(), false, || "auto_jit refused".into(), Verdict::Held);
        }
    }
    // the per-family compiler entry points: refuse, or compile the right function
    fn jit_entry<X: Clone + Debug, F: Fl, M: Fam<X, F> + measures_exponential_family::JITOptimizer<X, F>>(mon: &mut Mon, r: &mut Rng, as_f64: impl Fn(&X) -> f64) {
        for _ in 0..5 {
            let m: M = draw(r);
            let kind = "compile_jit";
            match guard(|| m.compile_jit()) {
                Err(p) => mon.observe(kind, &format!("compile_jit:{}", M::NAME), 0, true, || m.show(&m.point(&mut r.derive("p"))), Verdict::Violated(format!("panicked: {p}"))),
                Ok(Err(_)) => mon.observe(kind, "compile_jit:refused", crate::rng::hs(M::NAME), true, || M::NAME.into(), Verdict::Held),
                Ok(Ok(f)) => {
                    for _ in 0..20 {
                        let x = m.point(r);
                        mon.observe(kind, &format!("compile_jit:{}", M::NAME), m.key(&x), true, || m.show(&x), verdict(&m.expect(&x), guard(|| F::of(f.call_single(as_f64(&x))))));
                    }
                }
            }
        }
    }
    jit_entry::<f64, f64, Exponential<f64>>(mon, &mut r, |x| *x);
    jit_entry::<f64, f64, Gamma<f64>>(mon, &mut r, |x| *x);
    jit_entry::<f64, f64, Beta<f64>>(mon, &mut r, |x| *x);
    jit_entry::<f64, f64, ChiSquared<f64>>(mon, &mut r, |x| *x);
    jit_entry::<u8, f64, Bernoulli<f64>>(mon, &mut r, |x| f64::from(*x));
    jit_entry::<u64, f64, Binomial<f64>>(mon, &mut r, |x| *x as f64);
    jit_entry::<u64, f64, Geometric<f64>>(mon, &mut r, |x| *x as f64);
    jit_entry::<u64, f64, NegativeBinomial<f64>>(mon, &mut r, |x| *x as f64);
    jit_entry::<usize, f64, Categorical<f64>>(mon, &mut r, |x| *x as f64);
    c24_registry(mon);
    mon.require("static/Normal", 1000);
    mon.require("static/extreme", 1000);
    mon.require("custom-jit", 100);
}

// ---------------------------------------------------------------- C26

fn accept<T>(mon: &mut Mon, kind: &str, sg: &str, case: String, want: bool, f: impl FnOnce() -> T) {
    let got = guard(f).is_ok();
    let v = if got == want {
        Verdict::Held
    } else if want {
        Verdict::Violated("valid parameters rejected".into())
    } else {
        Verdict::Violated("invalid parameters accepted".into())
    };
    mon.observe(kind, sg, crate::rng::hs(&case), true, || case.clone(), v);
}

fn c26_float<F: Fl>(mon: &mut Mon) {
    let mut r = mon.rng.derive("c26");
    let nm = F::NAME;
    for _ in 0..mon.n(1500, 60_000) {
        let any = |r: &mut Rng| -> F {
            F::of(match r.below(9) {
                0 => 0.0,
                1 => -0.0,
                2 => f64::NAN,
                3 => -r.pos(),
                4 => f64::NEG_INFINITY,
                5 => -1e-30,
                6 => F::min_positive_value().w(),
                _ => r.pos(),
            })
        };
        let a = any(&mut r);
        let b = any(&mut r);
        let loc = F::of(r.loc());
        let ok = |v: F| v.w() > 0.0;
        let k = format!("positive/{nm}");
        accept(mon, &k, "accept:Normal", format!("Normal({loc}, {a})"), ok(a), || Normal::new(loc, a));
        accept(mon, &k, "accept:Cauchy", format!("Cauchy({loc}, {a})"), ok(a), || Cauchy::new(loc, a));
        accept(mon, &k, "accept:StudentT", format!("StudentT({a})"), ok(a), || StudentT::new(a));
        accept(mon, &k, "accept:Exponential", format!("Exponential({a})"), ok(a), || Exponential::new(a));
        accept(mon, &k, "accept:ChiSquared", format!("ChiSquared({a})"), ok(a), || ChiSquared::new(a));
        accept(mon, &k, "accept:Poisson", format!("Poisson({a})"), ok(a), || Poisson::new(a));
        accept(mon, &k, "accept:Gamma", format!("Gamma({a}, {b})"), ok(a) && ok(b), || Gamma::new(a, b));
        accept(mon, &k, "accept:Beta", format!("Beta({a}, {b})"), ok(a) && ok(b), || Beta::new(a, b));
        let p = F::of(match r.below(8) {
            0 => 0.0,
            1 => 1.0,
            2 => f64::NAN,
            3 => -r.prob(),
            4 => 1.0 + r.pos(),
            5 => 1.0 + F::epsilon().w(),
            _ => r.prob(),
        });
        let w = p.w();
        let k = format!("probability/{nm}");
        let n = r.count(1000);
        accept(mon, &k, "accept:Bernoulli", format!("Bernoulli({p})"), (0.0..=1.0).contains(&w), || Bernoulli::new(p));
        accept(mon, &k, "accept:Binomial", format!("Binomial({n}, {p})"), (0.0..=1.0).contains(&w), || Binomial::new(n, p));
        accept(mon, &k, "accept:Geometric", format!("Geometric({p})"), w > 0.0 && w <= 1.0, || Geometric::new(p));
        accept(mon, &k, "accept:NegativeBinomial", format!("NegativeBinomial({n}, {p})"), n > 0 && w > 0.0 && w < 1.0, || NegativeBinomial::new(n, p));
        // probability vectors: valid up to rounding in F, or clearly invalid
        let k = format!("simplex/{nm}");
        let m = r.int(1, 60) as usize;
        let mut ps = crate::refs::draw_probs::<F>(&mut r, m, true);
        let (want, what) = match r.below(8) {
            4 => {
                let i = r.below(m);
                ps[i] = F::nan();
                (false, "NaN entry")
            }
            5 if m > 2 => {
                // sums to one, but an entry anywhere in the vector is negative
                let (i, j) = (r.below(m), r.below(m));
                let q = ps[i].w() + r.prob() * 0.5 + 1e-3;
                if i == j {
                    (true, "valid")
                } else {
                    ps[i] = F::of(ps[i].w() - q);
                    ps[j] = F::of(ps[j].w() + q);
                    (false, "negative entry")
                }
            }
            0 => {
                ps[0] = F::of(ps[0].w() + 0.01);
                (false, "sum too large")
            }
            1 => {
                ps.clear();
                (false, "empty")
            }
            2 if m > 1 => {
                ps[0] = F::of(ps[0].w() + 0.5);
                ps[1] = F::of(ps[1].w() - 0.5);
                if ps[1].w() < 0.0 { (false, "negative entry") } else { (true, "shifted") }
            }
            3 => {
                for q in &mut ps {
                    *q = F::of(q.w() * 0.9);
                }
                (false, "sum too small")
            }
            _ => (true, "valid"),
        };
        accept(mon, &k, "accept:Categorical", format!("Categorical {what} {ps:?}"), want, || Categorical::new(ps.clone()));
        accept(mon, &k, "accept:Categorical-uniform", format!("Categorical::uniform({m})"), true, || Categorical::<F>::uniform(m));
        use measures_combinators::MixtureMeasure;
        let comps: Vec<Normal<F>> = ps.iter().map(|_| Normal::default()).collect();
        accept(mon, &k, "accept:Mixture", format!("Mixture {what} {ps:?}"), want, || MixtureMeasure::new(comps.clone(), ps.clone()));
        let mut short = ps.clone();
        short.push(F::zero());
        accept(mon, &k, "accept:Mixture-length", format!("Mixture length mismatch {}", ps.len()), false, || MixtureMeasure::new(comps.clone(), short.clone()));
        accept(mon, &k, "accept:Mixture-uniform", format!("Mixture::uniform({m})"), true, || MixtureMeasure::<_, F>::uniform(vec![Normal::<F>::default(); m]));
    }
    accept(mon, &format!("simplex/{nm}"), "accept:Categorical-uniform0", "Categorical::uniform(0)".into(), false, || Categorical::<F>::uniform(0));
    mon.require(&format!("positive/{nm}"), 1000);
    mon.require(&format!("simplex/{nm}"), 1000);
}

/// What an accepted constructor builds is the distribution that was asked for: the parameters
/// come back unchanged from fields and accessors, at every magnitude.
fn c26_stored<F: Fl + std::fmt::LowerExp>(mon: &mut Mon) {
    let mut r = mon.rng.derive("c26-stored");
    let nm = F::NAME;
    let k = format!("stored/{nm}");
    let ulps = |a: F, b: F, n: f64| a == b || (a.w() - b.w()).abs() <= n * F::epsilon().w() * b.w().abs().max(F::min_positive_value().w());
    let mut obs = |mon: &mut Mon, sg: &str, case: String, got: Result<Vec<(F, F)>, String>, n: f64| {
        let v = match got {
            Err(e) => Verdict::Violated(format!("panicked: {e}")),
            Ok(ps) => match ps.iter().find(|(g, w)| !ulps(*g, *w, n)) {
                Some((g, w)) => Verdict::Violated(format!("built with {g:e} where {w:e} was given")),
                None => Verdict::Held,
            },
        };
        mon.observe(&k, sg, crate::rng::hs(&case), true, || case.clone(), v);
    };
    let (lo, hi) = (F::min_positive_value().w().ln(), F::max_value().w().ln());
    for _ in 0..mon.n(4000, 120_000) {
        let mut pos = || -> F {
            let v = match r.below(8) {
                0 => F::min_positive_value(),
                1 => F::min_positive_value() * F::epsilon(),
                2 => F::max_value(),
                3 => F::epsilon(),
                4 => F::one(),
                _ => F::of((lo + (hi - lo) * r.u()).exp()),
            };
            if v > F::zero() && v.is_finite() { v } else { F::one() }
        };
        let (a, b) = (pos(), pos());
        let loc = if r.chance(0.5) { b } else { -b };
        let c2 = |n: &str| format!("{n}({a:e}, {b:e})");
        let c1 = |n: &str| format!("{n}({a:e})");
        obs(mon, "stored:Normal", format!("Normal({loc:e}, {a:e})"), guard(|| {
            let d = Normal::new(loc, a);
            let p = d.params();
            vec![(d.mean, loc), (d.std_dev, a), (p.0, loc), (p.1, a)]
        }), 0.0);
        obs(mon, "stored:Cauchy", format!("Cauchy({loc:e}, {a:e})"), guard(|| {
            let d = Cauchy::new(loc, a);
            let p = d.params();
            vec![(d.location(), loc), (d.scale(), a), (p.0, loc), (p.1, a)]
        }), 0.0);
        obs(mon, "stored:StudentT", c1("StudentT"), guard(|| {
            let d = StudentT::new(a);
            vec![(d.nu(), a), (d.params(), a)]
        }), 0.0);
        obs(mon, "stored:Exponential", c1("Exponential"), guard(|| vec![(Exponential::new(a).rate, a)]), 0.0);
        obs(mon, "stored:ChiSquared", c1("ChiSquared"), guard(|| {
            let d = ChiSquared::new(a);
            let half = F::of(0.5);
            vec![(d.degrees_of_freedom, a), (d.shape(), a * half), (d.rate(), half)]
        }), 2.0);
        obs(mon, "stored:Poisson", c1("Poisson"), guard(|| vec![(Poisson::new(a).rate, a)]), 0.0);
        obs(mon, "stored:Gamma", c2("Gamma"), guard(|| {
            let d = Gamma::new(a, b);
            vec![(d.shape, a), (d.rate, b)]
        }), 0.0);
        let inv = F::one() / b;
        if inv > F::zero() && inv.is_finite() {
            obs(mon, "stored:Gamma-scale", c2("Gamma::from_shape_scale"), guard(|| {
                let d = Gamma::from_shape_scale(a, b);
                vec![(d.shape, a), (d.rate, inv), (Gamma::new(a, b).scale(), inv)]
            }), 2.0);
        }
        obs(mon, "stored:Beta", c2("Beta"), guard(|| {
            let d = Beta::new(a, b);
            vec![(d.alpha, a), (d.beta, b)]
        }), 0.0);
        let p = match r.below(7) {
            0 => F::zero(),
            1 => F::one(),
            2 => F::min_positive_value(),
            3 => F::one() - F::epsilon(),
            4 => F::of(r.prob()),
            _ => F::of((lo * r.u()).exp()),
        };
        let n: u64 = match r.below(5) {
            0 => r.count(50),
            1 => u64::MAX,
            2 => u32::MAX as u64 + r.count(3),
            3 => u16::MAX as u64 + r.count(3),
            _ => r.next() >> r.below(64),
        };
        let cp = |nm: &str| format!("{nm}({n}, {p:e})");
        // counts are compared exactly, as integers
        let cnt = |g: u64| if g == n { (F::one(), F::one()) } else { (F::zero(), F::one()) };
        obs(mon, "stored:Bernoulli", format!("Bernoulli({p:e})"), guard(|| vec![(Bernoulli::new(p).prob, p)]), 0.0);
        obs(mon, "stored:Binomial", cp("Binomial"), guard(|| {
            let d = Binomial::new(n, p);
            vec![cnt(d.n), (d.prob, p)]
        }), 0.0);
        if p > F::zero() {
            obs(mon, "stored:Geometric", format!("Geometric({p:e})"), guard(|| {
                let d = Geometric::new(p);
                vec![(d.prob, p), (d.failure_prob(), F::one() - p)]
            }), 0.0);
            if n > 0 && p < F::one() {
                obs(mon, "stored:NegativeBinomial", cp("NegativeBinomial"), guard(|| {
                    let d = NegativeBinomial::new(n, p);
                    vec![cnt(d.r), (d.prob, p), (d.failure_prob(), F::one() - p)]
                }), 0.0);
            }
        }
        let m = r.int(1, 40) as usize;
        let ps = crate::refs::draw_probs::<F>(&mut r, m, true);
        use measures_combinators::MixtureMeasure;
        let lens = |g: usize| if g == m { (F::one(), F::one()) } else { (F::zero(), F::one()) };
        let tol = m as f64 + 4.0;
        obs(mon, "stored:Categorical", format!("Categorical({ps:?})"), guard(|| {
            let d = Categorical::new(ps.clone());
            let mut v: Vec<(F, F)> = d.probs.iter().copied().zip(ps.iter().copied()).collect();
            v.push(lens(d.num_categories()));
            v.push(lens(d.probs.len()));
            v
        }), tol);
        let u = F::of(1.0 / m as f64);
        obs(mon, "stored:Categorical-uniform", format!("Categorical::uniform({m})"), guard(|| {
            let d = Categorical::<F>::uniform(m);
            let mut v: Vec<(F, F)> = d.probs.iter().map(|&p| (p, u)).collect();
            v.push(lens(d.num_categories()));
            v
        }), tol);
        let means: Vec<F> = (0..m).map(|_| F::of(r.loc())).collect();
        let comps: Vec<Normal<F>> = means.iter().map(|&x| Normal::new(x, a)).collect();
        obs(mon, "stored:Mixture", format!("MixtureMeasure({means:?}, {ps:?})"), guard(|| {
            let d = MixtureMeasure::new(comps.clone(), ps.clone());
            let mut v: Vec<(F, F)> = d.weights.iter().copied().zip(ps.iter().copied()).collect();
            v.extend(d.components.iter().zip(&means).flat_map(|(c, &x)| [(c.mean, x), (c.std_dev, a)]));
            v.extend([lens(d.num_components()), lens(d.weights.len()), lens(d.components.len())]);
            v
        }), tol);
        obs(mon, "stored:Mixture-uniform", format!("MixtureMeasure::uniform({means:?})"), guard(|| {
            let d = MixtureMeasure::<_, F>::uniform(comps.clone());
            let mut v: Vec<(F, F)> = d.weights.iter().map(|&w| (w, u)).collect();
            v.extend(d.components.iter().zip(&means).flat_map(|(c, &x)| [(c.mean, x), (c.std_dev, a)]));
            v.extend([lens(d.num_components()), lens(d.weights.len()), lens(d.components.len())]);
            v
        }), tol);
    }
    let (z, o, h) = (F::zero(), F::one(), F::of(0.5));
    obs(mon, "default:Normal", "Normal::default()".into(), guard(|| { let d = Normal::<F>::default(); vec![(d.mean, z), (d.std_dev, o)] }), 0.0);
    obs(mon, "default:Cauchy", "Cauchy::default()/standard()".into(), guard(|| {
        let (d, s) = (Cauchy::<F>::default(), Cauchy::<F>::standard());
        vec![(d.location(), z), (d.scale(), o), (s.location(), z), (s.scale(), o)]
    }), 0.0);
    obs(mon, "default:StudentT", "StudentT::default()".into(), guard(|| vec![(StudentT::<F>::default().nu(), o)]), 0.0);
    obs(mon, "default:Exponential", "Exponential::default()".into(), guard(|| vec![(Exponential::<F>::default().rate, o)]), 0.0);
    obs(mon, "default:Gamma", "Gamma::default()".into(), guard(|| { let d = Gamma::<F>::default(); vec![(d.shape, o), (d.rate, o)] }), 0.0);
    obs(mon, "default:ChiSquared", "ChiSquared::default()".into(), guard(|| vec![(ChiSquared::<F>::default().degrees_of_freedom, o)]), 0.0);
    obs(mon, "default:Beta", "Beta::default()".into(), guard(|| { let d = Beta::<F>::default(); vec![(d.alpha, o), (d.beta, o)] }), 0.0);
    obs(mon, "default:Bernoulli", "Bernoulli::default()".into(), guard(|| vec![(Bernoulli::<F>::default().prob, h)]), 0.0);
    obs(mon, "default:Geometric", "Geometric::default()".into(), guard(|| vec![(Geometric::<F>::default().prob, h)]), 0.0);
    obs(mon, "default:Poisson", "Poisson::default()".into(), guard(|| vec![(Poisson::<F>::default().rate, o)]), 0.0);
    mon.require(&k, 10_000);
}

pub fn c26(mon: &mut Mon) {
    mon.rule = "constructor × parameters, valid and invalid (zero, negative, NaN, just outside, rounding-level off); the monitor observes acceptance or panic; distinct by the printed parameters".into();
    c26_float::<f64>(mon);
    c26_float::<f32>(mon);
    c26_stored::<f64>(mon);
    c26_stored::<f32>(mon);
}

// ---------------------------------------------------------------- C05

fn rel(a: &Exp, b: &Exp) -> Exp {
    match (a, b) {
        (Exp::V(x), Exp::V(y)) => Exp::V(Ref { v: x.v - y.v, mag: x.mag + y.mag }),
        (Exp::NegInf, Exp::V(_)) => Exp::NegInf,
        // zero reference density: the ratio is not defined
        _ => Exp::Skip,
    }
}

fn c05_pair<X, F: Fl, A, B>(mon: &mut Mon, n: usize)
where
    X: Clone + Debug,
    A: Fam<X, F>,
    B: Fam<X, F>,
    A::RootMeasure: Clone,
    B::RootMeasure: Clone,
    LogDensity<X, A, B>: EvaluateAt<X, F>,
    LogDensity<X, B, A>: EvaluateAt<X, F>,
    LogDensity<X, A, A>: EvaluateAt<X, F>,
    LogDensity<X, A, A::RootMeasure>: EvaluateAt<X, F>,
{
    let mut r = mon.rng.derive(&format!("c05{}{}{}", A::NAME, B::NAME, F::NAME));
    let kind = format!("relative<{}>", F::NAME);
    for _ in 0..n {
        let a: A = draw(&mut r);
        let b: B = draw(&mut r);
        let c: A = draw(&mut r);
        let ab = a.log_density().wrt(b.clone());
        let ba = b.log_density().wrt(a.clone());
        let aa = a.log_density().wrt(a.clone());
        let ac = a.log_density().wrt(c.clone());
        let cb = c.log_density().wrt(b.clone());
        for _ in 0..4 {
            let x = if r.chance(0.5) { a.point(&mut r) } else { b.point(&mut r) };
            let (ea, eb, ec) = (a.expect(&x), b.expect(&x), c.expect(&x));
            let key = fnv(&[a.key(&x), b.key(&x)]);
            let case = || format!("{} wrt {}{:?}", a.show(&x), B::NAME, b.pv());
            let s = |t: &str| format!("relative-{t}:{}:{}", A::NAME, B::NAME);
            let e_ab = rel(&ea, &eb);
            let v = verdict(&e_ab, guard(|| ab.at::<F>(&x)));
            mon.observe(&kind, &s("value"), key, matches!(e_ab, Exp::V(_)), case, v);
            let v = verdict(&rel(&eb, &ea), guard(|| ba.at::<F>(&x)));
            mon.observe(&kind, &s("value"), key ^ 1, matches!(e_ab, Exp::V(_)), case, v);
            if let Exp::V(ra) = ea {
                let zero = aa.at::<F>(&x).w();
                let v = Exp::V(Ref { v: d(0.0), mag: ra.mag }).judge(F::of(zero));
                mon.observe("self", &s("self"), key, true, case, v);
                if let (Exp::V(ra), Exp::V(rb), Exp::V(rc)) = (&ea, &eb, &ec) {
                    let (p, q) = (ab.at::<F>(&x).w(), ba.at::<F>(&x).w());
                    let v = Exp::V(Ref { v: d(-q), mag: ra.mag + rb.mag }).judge(F::of(p));
                    mon.observe("antisymmetry", &s("antisymmetry"), key, true, case, v);
                    // chain rule through a third measure
                    let got = ac.at::<F>(&x).w() + cb.at::<F>(&x).w();
                    let slack = F::TOL * (ra.mag + rb.mag + 2.0 * rc.mag + 1.0);
                    let v = if !slack.is_finite() || slack > F::max_value().w() * 1e-6 {
                        Verdict::Inconclusive
                    } else if (got - p).abs() <= slack {
                        Verdict::Held
                    } else {
                        Verdict::Violated(format!("{p} but through a third measure {got}"))
                    };
                    mon.observe("chain", &s("chain"), key, true, case, v);
                }
            }
            // helper routes
            let root = a.log_density().at::<F>(&x);
            let h1 = log_density_at::<X, F, A>(&a, &x);
            let most = if r.chance(0.1) { 5000 } else { 40 };
            let len = if r.chance(0.0004) { 65_530 + r.below(2000) } else { r.len(5, most) };
            let mut batch: Vec<X> = Vec::with_capacity(len);
            for i in 0..len {
                let y = match r.below(8) {
                    0 => x.clone(),
                    1 if i > 0 => batch[r.below(i)].clone(),
                    2 => b.point(&mut r),
                    _ => a.point(&mut r),
                };
                batch.push(y);
            }
            let h2 = guard(|| log_density_batch::<X, F, A>(&a, &batch));
            let same = |u: F, v: F| u == v || (u.is_nan() && v.is_nan()) || (u.w() - v.w()).abs() <= F::TOL * (1.0 + ea.mag());
            let v = if same(root, h1) { Verdict::Held } else { Verdict::Violated(format!("builder {root:?}, single {h1:?}")) };
            mon.observe("helpers", &s("helpers"), key, true, case, v);
            let v = match &h2 {
                Err(p) => Verdict::Violated(format!("batch of {len} panicked: {p}")),
                Ok(h) if h.len() != len => Verdict::Violated(format!("{} values for a batch of {len}", h.len())),
                Ok(h) => match (0..len).find(|&i| {
                    let one = a.log_density().at::<F>(&batch[i]);
                    !(one == h[i] || (one.is_nan() && h[i].is_nan()) || (one.w() - h[i].w()).abs() <= F::TOL * (1.0 + a.expect(&batch[i]).mag()))
                }) {
                    Some(i) => Verdict::Violated(format!("entry {i} of a batch of {len} is {:?} at {:?}", h[i], batch[i])),
                    None => Verdict::Held,
                },
            };
            mon.observe("batch", &s("batch"), fnv(&[key, len as u64]), len > 1, case, v);
        }
        // accessors and reuse of one evaluator over several points
        use measures_core::LogDensityTrait;
        let v = if ab.measure().pv() == a.pv() && ab.base_measure().pv() == b.pv() {
            Verdict::Held
        } else {
            Verdict::Violated("accessors do not return the measures given".into())
        };
        mon.observe("accessors", "relative-accessors", fnv(&[a.key(&a.point(&mut r))]), true, || A::NAME.into(), v);
        if mon.spent() {
            return;
        }
    }
}

pub fn c05(mon: &mut Mon) {
    mon.rule = "ordered pair of families sharing a root measure × parameters × point; non-trivial when both densities are positive; distinct by (both measures, point)".into();
    let n = mon.n(60, 1500);
    macro_rules! row {
        ($X:ty, $F:ty, $A:ident; $($B:ident),*) => { $( c05_pair::<$X, $F, $A<$F>, $B<$F>>(mon, n); )* };
    }
    macro_rules! square {
        ($X:ty, $F:ty; $($A:ident),*; $bs:tt) => { $( square!(@ $X, $F, $A, $bs); )* };
        (@ $X:ty, $F:ty, $A:ident, ($($B:ident),*)) => { row!($X, $F, $A; $($B),*); };
    }
    square!(f64, f64; Normal, Cauchy, StudentT, Exponential, Gamma, ChiSquared, Beta; (Normal, Cauchy, StudentT, Exponential, Gamma, ChiSquared, Beta));
    square!(u64, f64; Binomial, NegativeBinomial, Geometric, Poisson; (Binomial, NegativeBinomial, Geometric, Poisson));
    row!(f32, f32, Normal; Normal, Cauchy, Exponential, Beta);
    row!(f32, f32, Gamma; Normal, StudentT, ChiSquared, Exponential);
    row!(u8, f64, Bernoulli; Bernoulli);
    row!(usize, f64, Categorical; Categorical);
    // Measures with no stored parameters: every pair, including two of size zero.
    use measures_combinators::measures::derived::{BinomialCoefficientMeasure, FactorialMeasure, NegativeBinomialCoefficientMeasure};
    use measures_core::{CountingMeasure, LebesgueMeasure};
    let mut r = mon.rng.derive("zst");
    for _ in 0..mon.n(1500, 50_000) {
        let k = r.count(100_000);
        let lf = (crate::hp::di(k) + d(1.0)).lgamma();
        let e = Exp::V(Ref::sum(&[-lf]));
        let f = FactorialMeasure::<f64>::new();
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&f).at::<f64>(&k));
        mon.observe("parameterless", "zst:factorial-counting", k, k > 1, || format!("factorial measure wrt counting at {k}"), verdict(&e, got));
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&f).wrt(CountingMeasure::<u64>::new()).at::<f64>(&k));
        mon.observe("parameterless", "zst:factorial-counting", k, k > 1, || format!("factorial measure wrt counting at {k}"), verdict(&e, got));
        let e = Exp::V(Ref::sum(&[lf]));
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&CountingMeasure::<u64>::new()).wrt(f.clone()).at::<f64>(&k));
        mon.observe("parameterless", "zst:counting-factorial", k, k > 1, || format!("counting wrt factorial at {k}"), verdict(&e, got));
        let p: Poisson<f64> = draw(&mut r);
        let e = rel(&p.expect(&k), &Exp::V(Ref::sum(&[-lf])));
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&p).wrt(f.clone()).at::<f64>(&k));
        mon.observe("parameterless", "zst:poisson-factorial", fnv(&[p.key(&k)]), true, || p.show(&k) + " wrt factorial", verdict(&e, got));
        let n = k + r.count(1000);
        let b = BinomialCoefficientMeasure::<f64>::new(n);
        let e = Exp::V(Ref::sum(&[(crate::hp::di(n) + d(1.0)).lgamma(), -lf, -(crate::hp::di(n - k) + d(1.0)).lgamma(), lf]));
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&b).wrt(f.clone()).at::<f64>(&k));
        mon.observe("parameterless", "zst:binomial-factorial", fnv(&[n, k]), true, || format!("C({n},·) wrt factorial at {k}"), verdict(&e, got));
        let nb = NegativeBinomialCoefficientMeasure::<f64>::new(1 + n);
        let e0 = [(crate::hp::di(n) + crate::hp::di(k) + d(1.0)).lgamma(), -lf, -(crate::hp::di(n) + d(1.0)).lgamma()];
        let got = guard(|| LogDensityBuilder::<u64>::log_density(&nb).wrt(CountingMeasure::<u64>::new()).at::<f64>(&k));
        mon.observe("parameterless", "zst:nb-counting", fnv(&[n, k, 3]), true, || format!("NB coefficient r={} at {k}", n + 1), verdict(&Exp::V(Ref::sum(&e0)), got));
        let x = r.normal();
        let l = LebesgueMeasure::<f64>::new();
        let z: Result<f64, String> = guard(|| LogDensityBuilder::<f64>::log_density(&l).at(&x));
        mon.observe("parameterless", "zst:lebesgue", x.to_bits(), true, || format!("Lebesgue wrt Lebesgue at {x}"), verdict(&Exp::V(Ref::sum(&[d(0.0)])), z));
    }
    let _ = float_constant::<f64>(1.0);
    for k in ["relative<f64>", "relative<f32>", "batch", "self", "antisymmetry", "chain", "helpers", "accessors", "parameterless"] {
        mon.require(k, 100);
    }
}
