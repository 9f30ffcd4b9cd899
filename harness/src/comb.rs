//! C09 products, C10 mixtures, C11 pushforwards, C13 derived measures.

use num_traits::{Float as _, One as _};
use std::fmt::Debug;

use measures_combinators::measures::combinators::pushforward::transforms;
use measures_combinators::measures::derived::{
    BinomialCoefficientMeasure, Dirac, FactorialMeasure, IntegralMeasure,
    NegativeBinomialCoefficientMeasure, WeightedMeasure,
};
use measures_combinators::measures::derived::factorial::log_factorial;
use measures_combinators::measures::derived::binomial_coefficient::log_binomial_coefficient;
use measures_combinators::measures::derived::negative_binomial_coefficient::log_negative_binomial_coefficient;
use measures_combinators::{MixtureExt, MixtureMeasure, ProductMeasure, ProductMeasureExt, PushforwardExt, PushforwardMeasure};
use measures_core::{False, HasLogDensity, LogDensityBuilder, Measure, MeasureMarker};
use measures_distributions::*;

use crate::dist::{draw, verdict};
use crate::hp::{D, Ref, d, di, lchoose};
use crate::mon::{Mon, Verdict, guard};
use crate::refs::{Exp, Fam, Fl, draw_probs, exp_sum};
use crate::rng::{Rng, fnv};

fn bool_verdict(got: Result<bool, String>, want: bool, what: &str) -> Verdict {
    match got {
        Ok(g) if g == want => Verdict::Held,
        Ok(g) => Verdict::Violated(format!("{what}: got {g}, expected {want}")),
        Err(p) => Verdict::Violated(format!("panicked: {p}")),
    }
}

// ---------------------------------------------------------------- C09

fn c09_pair<X, Y, F: Fl, A, B>(mon: &mut Mon, n: usize)
where
    X: Clone + Debug,
    Y: Clone + Debug,
    A: Fam<X, F>,
    B: Fam<Y, F>,
    A::RootMeasure: Clone,
    B::RootMeasure: Clone,
    ProductMeasure<A::RootMeasure, B::RootMeasure>: Clone,
{
    let mut r = mon.rng.derive(&format!("c09{}{}{}", A::NAME, B::NAME, F::NAME));
    let nm = F::NAME;
    for _ in 0..n {
        let a: A = draw(&mut r);
        let b: B = draw(&mut r);
        let p = ProductMeasureExt::<X>::product::<B, Y>(a.clone(), b.clone());
        for _ in 0..3 {
            let (x, y) = (a.point(&mut r), b.point(&mut r));
            let e = exp_sum(&[a.expect(&x), b.expect(&y)]);
            let pt = (x.clone(), y.clone());
            let key = fnv(&[a.key(&x), b.key(&y)]);
            let case = || format!("{} ⊗ {}", a.show(&x), b.show(&y));
            let s = format!("product:{}:{}", A::NAME, B::NAME);
            let nt = matches!(e, Exp::V(_));
            mon.observe(&format!("pair<{nm}>"), &s, key, nt, case, verdict(&e, guard(|| HasLogDensity::<(X, Y), F>::log_density_wrt_root(&p, &pt))));
            let want = a.in_support(x.clone()) && b.in_support(y.clone());
            mon.observe(&format!("support<{nm}>"), "product:support", key, true, case, bool_verdict(guard(|| Measure::<(X, Y)>::in_support(&p, pt.clone())), want, "in_support"));
        }
    }
}

fn c09_nested<F: Fl>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c09n{}", F::NAME));
    let nm = F::NAME;
    let kind = format!("nested<{nm}>");
    for _ in 0..n {
        let a: Normal<F> = draw(&mut r);
        let b: Poisson<F> = draw(&mut r);
        let c: Gamma<F> = draw(&mut r);
        let e: Bernoulli<F> = draw(&mut r);
        let g: Categorical<F> = draw(&mut r);
        let (xa, xb, xc, xe, xg) = (a.point(&mut r), b.point(&mut r), c.point(&mut r), e.point(&mut r), g.point(&mut r));
        let (ea, eb, ec, ee, eg) = (a.expect(&xa), b.expect(&xb), c.expect(&xc), e.expect(&xe), g.expect(&xg));
        let key = fnv(&[a.key(&xa), b.key(&xb), c.key(&xc), e.key(&xe), g.key(&xg)]);
        let case = || [a.show(&xa), b.show(&xb), c.show(&xc), e.show(&xe), g.show(&xg)].join(" ⊗ ");
        let sup = [a.in_support(xa), b.in_support(xb), c.in_support(xc), e.in_support(xe), g.in_support(xg)];
        // left-nested
        let p = ProductMeasure::new(ProductMeasure::new(a.clone(), b.clone()), c.clone());
        let pt = ((xa, xb), xc);
        mon.observe(&kind, "product:nested-left", key, true, case, verdict(&exp_sum(&[ea, eb, ec]), guard(|| HasLogDensity::<((F, u64), F), F>::log_density_wrt_root(&p, &pt))));
        mon.observe(&kind, "product:nested-support", key, true, case, bool_verdict(guard(|| Measure::<((F, u64), F)>::in_support(&p, pt)), sup[0] && sup[1] && sup[2], "in_support"));
        // right-nested by the macro, five factors
        let p = ProductMeasure::new(a.clone(), ProductMeasure::new(b.clone(), ProductMeasure::new(c.clone(), ProductMeasure::new(e.clone(), g.clone()))));
        let pt = (xa, (xb, (xc, (xe, xg))));
        mon.observe(&kind, "product:nested-right", key ^ 1, true, case, verdict(&exp_sum(&[ea, eb, ec, ee, eg]), guard(|| HasLogDensity::<(F, (u64, (F, (u8, usize)))), F>::log_density_wrt_root(&p, &pt))));
        let want = sup.iter().all(|s| *s);
        mon.observe(&kind, "product:nested-support", key ^ 1, true, case, bool_verdict(guard(|| Measure::<(F, (u64, (F, (u8, usize))))>::in_support(&p, pt)), want, "in_support"));
        let p = measures_combinators::product_measure!(e.clone(), g.clone());
        let pt = (xe, xg);
        mon.observe(&kind, "product:macro", key ^ 2, true, case, verdict(&exp_sum(&[ee, eg]), guard(|| HasLogDensity::<(u8, usize), F>::log_density_wrt_root(&p, &pt))));
        // a product of mixtures and a mixture of products
        let w = F::of(r.prob());
        let a2: Normal<F> = draw(&mut r);
        let mix = MixtureMeasure::new(vec![a.clone(), a2.clone()], vec![w, F::one() - w]);
        let em = mixture_ref(&[ea, a2.expect(&xa)], &[w.w(), (F::one() - w).w()]);
        let p = ProductMeasure::new(mix, b.clone());
        let pt = (xa, xb);
        mon.observe(&kind, "product:of-mixture", key ^ 3, true, case, verdict(&exp_sum(&[em, eb]), guard(|| HasLogDensity::<(F, u64), F>::log_density_wrt_root(&p, &pt))));
        let b2: Poisson<F> = draw(&mut r);
        let m = MixtureMeasure::new(vec![ProductMeasure::new(a.clone(), b.clone()), ProductMeasure::new(a2.clone(), b2.clone())], vec![w, F::one() - w]);
        let em = mixture_ref(&[exp_sum(&[ea, eb]), exp_sum(&[a2.expect(&xa), b2.expect(&xb)])], &[w.w(), (F::one() - w).w()]);
        mon.observe(&kind, "product:in-mixture", key ^ 4, true, case, verdict(&em, guard(|| HasLogDensity::<(F, u64), F>::log_density_wrt_root(&m, &pt))));
    }
    mon.require(&kind, n as u64 * 3);
}

/// Products of measures whose log-density values are chosen freely, infinite ones
/// included: zero in one factor is zero overall.
fn c09_values<F: Fl>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c09v{}", F::NAME));
    let kind = format!("values<{}>", F::NAME);
    for _ in 0..n {
        let v: Vec<F> = (0..3)
            .map(|_| {
                F::of(match r.below(6) {
                    0 => f64::NEG_INFINITY,
                    1 => f64::INFINITY,
                    2 => r.normal() * 1e4,
                    3 => 0.0,
                    _ => r.normal() * 10.0,
                })
            })
            .collect();
        let key = crate::rng::hs(&format!("{v:?}"));
        for k in [2, 3] {
            let got = guard(|| {
                if k == 2 {
                    HasLogDensity::<(i32, i32), F>::log_density_wrt_root(&ProductMeasure::new(Val(v[0]), Val(v[1])), &(0, 0))
                } else {
                    let p = ProductMeasure::new(Val(v[0]), ProductMeasure::new(Val(v[1]), Val(v[2])));
                    HasLogDensity::<(i32, (i32, i32)), F>::log_density_wrt_root(&p, &(0, (0, 0)))
                }
            });
            let u = &v[..k];
            let want = if u.iter().any(|x| x.w() == f64::NEG_INFINITY) {
                Some(f64::NEG_INFINITY)
            } else if u.iter().any(|x| x.w() == f64::INFINITY) {
                Some(f64::INFINITY)
            } else {
                None
            };
            let verd = match want {
                Some(w) => match got {
                    Ok(g) if g.w() == w => Verdict::Held,
                    Ok(g) => Verdict::Violated(format!("got {g:?}, expected {w}")),
                    Err(p) => Verdict::Violated(p),
                },
                None => {
                    let es: Vec<Exp> = u.iter().map(|x| Exp::V(Ref { v: d(x.w()), mag: x.w().abs() })).collect();
                    verdict(&exp_sum(&es), got)
                }
            };
            mon.observe(&kind, if want.is_some() { "product:infinite" } else { "product:values" }, key ^ k as u64, true, || format!("factor log-densities {u:?}"), verd);
        }
    }
    mon.require(&kind, n as u64);
}

pub fn c09(mon: &mut Mon) {
    mon.rule = "ordered pair of families (and left-, right- and macro-nested products, products of mixtures, mixtures of products) × parameters × component points inside and outside the supports; non-trivial when the joint density is positive; distinct by measures and point".into();
    let n = mon.n(100, 4000);
    macro_rules! sq {
        ($F:ty; $(($X:ty, $A:ident)),*; $bs:tt) => { $( sq!(@ $F, $X, $A, $bs); )* };
        (@ $F:ty, $X:ty, $A:ident, ($(($Y:ty, $B:ident)),*)) => { $( c09_pair::<$X, $Y, $F, $A<$F>, $B<$F>>(mon, n); )* };
    }
    sq!(f64; (f64, Normal), (f64, Cauchy), (f64, Gamma), (f64, Beta), (f64, StudentT), (u8, Bernoulli), (u64, Poisson), (u64, Binomial), (usize, Categorical);
        ((f64, Normal), (f64, Exponential), (f64, ChiSquared), (u8, Bernoulli), (u64, Geometric), (u64, NegativeBinomial), (usize, Categorical)));
    sq!(f32; (f32, Normal), (u64, Poisson); ((f32, Gamma), (u8, Bernoulli), (u64, Binomial)));
    c09_nested::<f64>(mon, mon.n(1500, 60_000));
    c09_nested::<f32>(mon, mon.n(500, 20_000));
    c09_values::<f64>(mon, mon.n(3000, 100_000));
    c09_values::<f32>(mon, mon.n(1000, 30_000));
    for k in ["pair<f64>", "pair<f32>", "support<f64>", "support<f32>"] {
        mon.require(k, 500);
    }
}

// ---------------------------------------------------------------- C10

/// log Σ wᵢ exp(eᵢ) in double-double.
pub fn mixture_ref(es: &[Exp], ws: &[f64]) -> Exp {
    let mut t: Vec<(D, f64)> = Vec::new();
    for (e, w) in es.iter().zip(ws) {
        if *w == 0.0 {
            continue;
        }
        match e {
            Exp::Skip => return Exp::Skip,
            Exp::NegInf => {}
            Exp::V(r) => t.push((d(*w).ln() + r.v, r.mag + w.ln().abs())),
        }
    }
    let Some(mx) = t.iter().map(|x| x.0).reduce(D::max) else { return Exp::NegInf };
    if !mx.is_finite() {
        return Exp::Skip;
    }
    let mut s = d(0.0);
    let mut mag = 0.0;
    for (v, m) in &t {
        let z = (*v - mx).exp();
        s = s + z;
        // a component's own rounding matters in proportion to its share
        mag += m * z.f();
    }
    Exp::V(Ref { v: mx + s.ln(), mag: mag / s.f() + mx.f().abs() + t.len() as f64 })
}

fn c10_family<X: Clone + Debug, F: Fl, M: Fam<X, F>>(mon: &mut Mon, n: usize)
where
    M::RootMeasure: Clone,
    measures_core::LogDensity<X, MixtureMeasure<M, F>, M::RootMeasure>: measures_core::EvaluateAt<X, F>,
{
    let mut r = mon.rng.derive(&format!("c10{}{}", M::NAME, F::NAME));
    let kind = format!("{}<{}>", M::NAME, F::NAME);
    let sg = format!("mixture:{}", M::NAME);
    for _ in 0..n {
        let k = match r.below(8) {
            0 => 1,
            1 | 2 => 2,
            3 if r.chance(0.03) => r.int(200, 1100) as usize,
            3 => r.int(10, 40) as usize,
            _ => r.int(2, 6) as usize,
        };
        let comps: Vec<M> = (0..k).map(|_| draw(&mut r)).collect();
        // weights that are a probability vector make a mixture
        macro_rules! made {
            ($e:expr) => {
                match guard(|| $e) {
                    Ok(m) => m,
                    Err(p) => {
                        mon.observe("construct", "mixture:construct", k as u64, true, || format!("{} of {k} components of {}", stringify!($e).split('(').next().unwrap_or(""), M::NAME), Verdict::Violated(p));
                        continue;
                    }
                }
            };
        }
        let (mix, ws): (MixtureMeasure<M, F>, Vec<F>) = match r.below(6) {
            0 => {
                let m = made!(MixtureMeasure::<M, F>::uniform(comps.clone()));
                let w = vec![F::of(1.0 / k as f64); k];
                (m, w)
            }
            1 if k == 2 => {
                let (a, b) = (F::of(r.pos()), F::of(r.pos()));
                let m = made!(MixtureExt::<X>::mixture(comps[0].clone(), comps[1].clone(), a, b));
                (m, vec![a / (a + b), b / (a + b)])
            }
            _ => {
                let ws = draw_probs::<F>(&mut r, k, true);
                let m = made!(MixtureMeasure::new(comps.clone(), ws.clone()));
                (m, ws)
            }
        };
        let wf: Vec<f64> = ws.iter().map(|w| w.w()).collect();
        let mut perm: Vec<usize> = (0..k).collect();
        r.shuffle(&mut perm);
        let permuted = guard(|| MixtureMeasure::new(perm.iter().map(|i| comps[*i].clone()).collect(), perm.iter().map(|i| ws[*i]).collect::<Vec<F>>()));
        // the same mixture with a vacuous component added
        let extra: M = draw(&mut r);
        let mut c2 = comps.clone();
        let mut w2 = ws.clone();
        let at = r.below(k + 1);
        c2.insert(at, extra);
        w2.insert(at, F::zero());
        let padded = guard(|| MixtureMeasure::new(c2, w2));
        for _ in 0..4 {
            let x = if r.chance(0.85) { comps[r.below(k)].point(&mut r) } else { draw::<X, F, M>(&mut r).point(&mut r) };
            let es: Vec<Exp> = comps.iter().map(|c| c.expect(&x)).collect();
            let e = mixture_ref(&es, &wf);
            let mut kk = vec![];
            for c in &comps {
                kk.push(c.key(&x));
            }
            kk.extend(wf.iter().map(|w| w.to_bits()));
            let key = fnv(&kk);
            let case = || format!("weights {wf:?} of {:?} at {x:?}", comps.iter().map(|c| c.pv()).collect::<Vec<_>>());
            mon.observe(&kind, &sg, key, matches!(e, Exp::V(_)), case, verdict(&e, guard(|| HasLogDensity::<X, F>::log_density_wrt_root(&mix, &x))));
            mon.observe("builder", &sg, key, true, case, verdict(&e, guard(|| LogDensityBuilder::<X>::log_density(&mix).at::<F>(&x))));
            if let Ok(p) = &permuted {
                mon.observe("order", &sg, key, k > 1, case, verdict(&e, guard(|| HasLogDensity::<X, F>::log_density_wrt_root(p, &x))));
            }
            if let Ok(p) = &padded {
                mon.observe("zero-weight", &sg, key, true, case, verdict(&e, guard(|| HasLogDensity::<X, F>::log_density_wrt_root(p, &x))));
            }
            let want = comps.iter().zip(&wf).any(|(c, w)| *w > 0.0 && c.in_support(x.clone()));
            mon.observe("support", "mixture:support", key, true, case, bool_verdict(guard(|| Measure::<X>::in_support(&mix, x.clone())), want, "in_support"));
        }
        let v = if mix.num_components() == k { Verdict::Held } else { Verdict::Violated(format!("{} components", mix.num_components())) };
        mon.observe("count", "mixture:count", k as u64, true, || format!("{k} components"), v);
    }
    mon.require(&kind, n as u64);
}

/// A measure with a freely chosen log-density value, infinite ones included.
#[derive(Clone, Debug)]
struct Val<F>(F);
impl<F> MeasureMarker for Val<F> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<F: Fl> Measure<i32> for Val<F> {
    type RootMeasure = measures_core::CountingMeasure<i32>;
    fn in_support(&self, _: i32) -> bool {
        self.0.w() > f64::NEG_INFINITY
    }
    fn root_measure(&self) -> Self::RootMeasure {
        measures_core::CountingMeasure::new()
    }
}
impl<F: Fl> HasLogDensity<i32, F> for Val<F> {
    fn log_density_wrt_root(&self, _: &i32) -> F {
        self.0
    }
}

fn c10_values<F: Fl>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c10v{}", F::NAME));
    let kind = format!("values<{}>", F::NAME);
    for _ in 0..n {
        let k = r.int(1, 8) as usize;
        let base = *r.pick(&[0.0, -1000.0, 1000.0, -1e5, -50.0, 300.0]);
        let vals: Vec<F> = (0..k)
            .map(|_| {
                F::of(match r.below(12) {
                    0 => f64::NEG_INFINITY,
                    1 => f64::INFINITY,
                    2 => r.normal() * 1e3,
                    3 => base,
                    _ => base + r.normal() * 10.0,
                })
            })
            .collect();
        let mut vals = vals;
        if r.chance(0.6) {
            for v in &mut vals {
                if v.w() == f64::INFINITY {
                    *v = F::of(base);
                }
            }
        }
        let ws = draw_probs::<F>(&mut r, k, true);
        let wf: Vec<f64> = ws.iter().map(|w| w.w()).collect();
        let Ok(mix) = guard(|| MixtureMeasure::new(vals.iter().map(|v| Val(*v)).collect(), ws.clone())) else { continue };
        let inf = vals.iter().zip(&wf).any(|(v, w)| *w > 0.0 && v.w() == f64::INFINITY);
        let es: Vec<Exp> = vals
            .iter()
            .map(|v| if v.w() == f64::NEG_INFINITY { Exp::NegInf } else { Exp::V(Ref { v: d(v.w()), mag: v.w().abs() }) })
            .collect();
        let got = guard(|| HasLogDensity::<i32, F>::log_density_wrt_root(&mix, &0));
        let v = if inf {
            match got {
                Ok(g) if g.w() == f64::INFINITY => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("got {g:?}, expected inf")),
                Err(p) => Verdict::Violated(p),
            }
        } else {
            verdict(&mixture_ref(&es, &wf), got)
        };
        let key = crate::rng::hs(&format!("{vals:?}{wf:?}"));
        let want = vals.iter().zip(&wf).any(|(v, w)| *w > 0.0 && v.w() > f64::NEG_INFINITY);
        mon.observe("support", "mixture:support", key, true, || format!("component log-densities {vals:?}, weights {wf:?}"), bool_verdict(guard(|| Measure::<i32>::in_support(&mix, 0)), want, "in_support"));
        mon.observe(&kind, if inf { "mixture:infinite" } else { "mixture:values" }, key, true, || format!("component log-densities {vals:?}, weights {wf:?}"), v);
    }
    mon.require(&kind, n as u64 / 2);
}

pub fn c10(mon: &mut Mon) {
    mon.rule = "component family × 1–40 components × weights (uniform, normalised pair, drawn, with zeros) × points in the bulk of a component, far from all, or off support; components with chosen log-density values down to −1e5 and infinite ones; distinct by components, weights and point".into();
    let n = mon.n(180, 7000);
    macro_rules! run {
        ($F:ty; $(($X:ty, $A:ident)),*) => { $( c10_family::<$X, $F, $A<$F>>(mon, n); )* };
    }
    run!(f64; (f64, Normal), (f64, Cauchy), (f64, StudentT), (f64, Exponential), (f64, Gamma), (f64, Beta), (f64, ChiSquared), (u8, Bernoulli), (u64, Binomial), (u64, Poisson), (u64, Geometric), (u64, NegativeBinomial), (usize, Categorical));
    run!(f32; (f32, Normal), (f32, Gamma), (f32, Cauchy), (u64, Poisson), (usize, Categorical));
    c10_values::<f64>(mon, mon.n(6000, 300_000));
    c10_values::<f32>(mon, mon.n(3000, 100_000));
    // mixtures of mixtures, macro forms
    let mut r = mon.rng.derive("nest");
    for _ in 0..mon.n(1500, 50_000) {
        let c: Vec<Normal<f64>> = (0..4).map(|_| draw(&mut r)).collect();
        let (u, v, w) = (r.prob(), r.prob(), r.prob());
        let x = c[r.below(4)].point(&mut r);
        let es: Vec<Exp> = c.iter().map(|m| m.expect(&x)).collect();
        let m1 = MixtureMeasure::new(vec![c[0].clone(), c[1].clone()], vec![u, 1.0 - u]);
        let m2 = measures_combinators::mixture![(v, c[2].clone()), (1.0 - v, c[3].clone())];
        let m = MixtureMeasure::new(vec![m1, m2], vec![w, 1.0 - w]);
        let e = mixture_ref(&es, &[w * u, w * (1.0 - u), (1.0 - w) * v, (1.0 - w) * (1.0 - v)]);
        let key = fnv(&[c[0].key(&x), c[1].key(&x), u.to_bits()]);
        mon.observe("nested", "mixture:nested", key, true, || format!("nested at {x}"), verdict(&e, guard(|| m.log_density().at::<f64>(&x))));
        let m: MixtureMeasure<Normal<f64>, f64> = measures_combinators::mixture![uniform: c[0].clone(), c[1].clone(), c[2].clone()];
        let e = mixture_ref(&es[..3], &[1.0 / 3.0; 3]);
        mon.observe("nested", "mixture:macro-uniform", key, true, || format!("uniform macro at {x}"), verdict(&e, guard(|| m.log_density().at::<f64>(&x))));
        let m = MixtureExt::<f64>::uniform_mixture(c[0].clone(), c[1].clone());
        let e = mixture_ref(&es[..2], &[0.5; 2]);
        mon.observe("nested", "mixture:uniform-pair", key, true, || format!("uniform pair at {x}"), verdict(&e, guard(|| m.log_density().at::<f64>(&x))));
    }
    for k in ["order", "zero-weight", "support", "nested"] {
        mon.require(k, 1000);
    }
}

// ---------------------------------------------------------------- C11

/// One invertible transformation with its independent reference: preimage and log|dx/dy|.
struct Tr {
    name: String,
    fwd: Box<dyn Fn(f64) -> f64>,
    /// (x, log|dx/dy|) as references, None outside the image.
    back: Box<dyn Fn(f64) -> Option<(D, D)>>,
}

fn push_family<M: Fam<f64, f64>>(mon: &mut Mon, n: usize) {
    type F = f64; // the only number type pushed densities come in
    let eps = F::epsilon().w();
    let mut r = mon.rng.derive(&format!("c11{}{}", M::NAME, F::NAME));
    for _ in 0..n {
        let m: M = draw(&mut r);
        // Slopes over the whole range of the type, where their squares would leave it.
        let wide = if F::NAME == "f64" { 290.0 } else { 35.0 };
        let a = match r.below(8) {
            0 => r.logu(-wide, wide),
            1 => 1.0,
            _ => r.pos(),
        };
        let a = F::of(if r.chance(0.5) { -a } else { a });
        let b = if a.abs().w() > 1e5 || a.abs().w() < 1e-5 { F::of(a.w() * r.loc()) } else { F::of(r.loc()) };
        let (aw, bw) = (a.w(), b.w());
        macro_rules! go {
            ($tr:expr, $t:expr) => {{
                let (f, i, j) = $tr;
                let t: Tr = $t;
                let p = PushforwardMeasure::new(m.clone(), f.clone(), i.clone(), j.clone());
                let kind = format!("{}", t.name.split('(').next().unwrap());
                for _ in 0..3 {
                    // mostly the image of points of the base measure, sometimes anything
                    let y = F::of(if r.chance(0.8) { (t.fwd)(m.point(&mut r).w()) } else { r.fin() });
                    if !y.is_finite() {
                        continue;
                    }
                    let case = || format!("{} of {}<{:?}> at y={y}", t.name, M::NAME, m.pv());
                    let key = fnv(&[crate::rng::hs(&t.name), m.key(&y)]);
                    let sg = format!("pushforward:{kind}:{}", M::NAME);
                    // the base density at the preimage the code computes itself (its rounding is
                    // the conditioning of the base density there, judged by the references)
                    let e = match (t.back)(y.w()) {
                        None => Exp::NegInf,
                        Some((x, lj)) => {
                            let xf = x.f();
                            // What the subtraction y − b loses counts as rounding of the preimage.
                            let slip = 2.0 * eps * if t.name.starts_with('a') { xf.abs().max((y.w() / aw).abs()) } else if t.name.starts_with("cube") { xf.abs() * (1.0 + y.w().abs() / (xf * xf * xf).abs()) } else { xf.abs() };
                            let (lo, hi) = (F::of(xf - slip - 1e-300), F::of(xf + slip + 1e-300));
                            let (el, e0, eh) = (m.expect(&lo), m.expect(&F::of(xf)), m.expect(&hi));
                            match (el, e0, eh) {
                                _ if !xf.is_finite() || !F::of(xf).is_finite() => Exp::Skip,
                                (Exp::NegInf, Exp::NegInf, Exp::NegInf) => Exp::NegInf,
                                (Exp::V(p), Exp::V(q), Exp::V(s)) => {
                                    let cond = ((p.v - q.v).f().abs() + (s.v - q.v).f().abs()) * 4.0 / F::TOL;
                                    Exp::V(Ref { v: q.v + lj, mag: q.mag + lj.f().abs() + cond })
                                }
                                _ => Exp::Skip,
                            }
                        }
                    };
                    mon.observe(&kind, &sg, key, matches!(e, Exp::V(_)), case, verdict(&e, guard(|| HasLogDensity::<F, F>::log_density_wrt_root(&p, &y))));
                }
                // forward and inverse invert each other, and the Jacobian is that of the inverse
                for _ in 0..2 {
                    let x = F::of(r.normal() * 3.0);
                    let y = f(&x);
                    if y.is_finite() && (t.back)(y.w()).is_some() {
                        let (back, x, yw) = (i(&y).w(), x.w(), y.w());
                        // conditioning: |x'(y)|·ulp(y) against x
                        let lj = (t.back)(yw).unwrap().1.f();
                        let slack = F::TOL * (x.abs() + 1.0) + lj.exp() * yw.abs() * eps * 50.0;
                        let v = if slack > 1e-3 * (1.0 + x.abs()) { Verdict::Inconclusive } else if (back - x).abs() <= slack { Verdict::Held } else { Verdict::Violated(format!("x={x} → y={y} → {back}")) };
                        mon.observe("inverse", &format!("transform-inverse:{kind}"), fnv(&[x.to_bits(), crate::rng::hs(&t.name)]), true, || t.name.clone(), v);
                        let e = Exp::V(Ref { v: (t.back)(yw).unwrap().1, mag: lj.abs() });
                        mon.observe("jacobian", &format!("transform-jacobian:{kind}"), fnv(&[x.to_bits(), crate::rng::hs(&t.name)]), true, || format!("{} at {y}", t.name), verdict(&e, guard(|| j(&y))));
                    }
                }
            }};
        }
        let one = || d(1.0);
        go!(transforms::log_transform::<F>(), Tr { name: "log".into(), fwd: Box::new(|x| x.ln()), back: Box::new(|y| if y > 700.0 || y < -700.0 { None.or(Some((d(f64::NAN), d(0.0)))) } else { Some((d(y).exp(), d(y))) }) });
        go!(transforms::exp_transform::<F>(), Tr { name: "exp".into(), fwd: Box::new(|x| x.exp()), back: Box::new(|y| if y > 0.0 { Some((d(y).ln(), -d(y).ln())) } else { None }) });
        go!(transforms::linear_transform::<F>(a, b), Tr { name: format!("affine({a},{b})"), fwd: Box::new(move |x| aw * x + bw), back: Box::new(move |y| Some(((d(y) - d(bw)) / d(aw), -d(aw.abs()).ln()))) });
        go!(transforms::logit_transform::<F>(), Tr { name: "logit".into(), fwd: Box::new(|x| (x / (1.0 - x)).ln()), back: Box::new(move |y| {
            let q = d(-y.abs()).exp();
            let s = if y >= 0.0 { one() / (one() + q) } else { q / (one() + q) };
            Some((s, d(-y.abs()) - (one() + q).ln() * d(2.0)))
        }) });
        // a user-supplied pair of maps: y = x³ + c
        let c = F::of(r.normal());
        let cw = c.w();
        let third = F::one() / F::of(3.0);
        let cube = (move |x: &F| *x * *x * *x + c, move |y: &F| F::of((y.w() - cw).cbrt()), move |y: &F| -F::of(3.0).ln() - (third + third) * (*y - c).abs().ln());
        go!(cube, Tr { name: format!("cube({c})"), fwd: Box::new(move |x| x * x * x + cw), back: Box::new(move |y| {
            let z = d(y) - d(cw);
            if z.h == 0.0 { return Some((d(f64::NAN), d(0.0))); }
            let m = (z.abs().ln() / d(3.0)).exp();
            Some((if z.lt0() { -m } else { m }, -d(3.0).ln() - z.abs().ln() * d(2.0) / d(3.0)))
        }) });
    }
}

/// The ready-made transformations in single precision: inverse and Jacobian.
fn single(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive("c11-single");
    for _ in 0..n {
        let a = match r.below(6) {
            0 => r.logu(-35.0, 35.0),
            _ => r.pos(),
        } as f32;
        let a = if r.chance(0.5) { -a } else { a };
        let b = if r.chance(0.3) { 0.0 } else { (f64::from(a) * r.normal()) as f32 };
        let x = (r.normal() * 3.0) as f32;
        let u = (r.prob() as f32).clamp(1e-6, 1.0 - 1e-6);
        let mut one = |name: &str, x: f32, y: f32, back: f32, jac: f32, slope: f64, want: D| {
            let k = fnv(&[crate::rng::hs(name), u64::from(x.to_bits()), u64::from(a.to_bits())]);
            let case = || format!("{name} of {x} is {y}");
            if !y.is_finite() || y == 0.0 && x != 0.0 {
                return;
            }
            let slack = 1e-6 * (f64::from(x).abs() + slope * f64::from(y).abs()) + 1e-37;
            let v = if slack > 1e-2 { Verdict::Inconclusive } else if f64::from(back - x).abs() <= slack { Verdict::Held } else { Verdict::Violated(format!("comes back as {back}")) };
            mon.observe("single precision inverse", &format!("transform-inverse:{name}"), k, true, case, v);
            let e = Exp::V(Ref { v: want, mag: want.f().abs() + 1.0 });
            mon.observe("single precision jacobian", &format!("transform-jacobian:{name}"), k, true, case, verdict(&e, Ok::<f32, String>(jac)));
        };
        let (f, i, j) = transforms::linear_transform::<f32>(a, b);
        let y = f(&x);
        one("affine", x, y, i(&y), j(&y), 1.0 / f64::from(a).abs(), -d(f64::from(a).abs()).ln());
        let (f, i, j) = transforms::exp_transform::<f32>();
        let y = f(&x);
        one("exp", x, y, i(&y), j(&y), 1.0 / f64::from(y), -d(f64::from(y)).ln());
        let (f, i, j) = transforms::log_transform::<f32>();
        let y = f(&x.abs());
        one("log", x.abs(), y, i(&y), j(&y), f64::from(x.abs()), d(f64::from(y)));
        let (f, i, j) = transforms::logit_transform::<f32>();
        let y = f(&u);
        let q = d(-f64::from(y).abs()).exp();
        one("logit", u, y, i(&y), j(&y), f64::from(u), d(-f64::from(y).abs()) - (d(1.0) + q).ln() * d(2.0));
    }
    mon.require("single precision inverse", n as u64 * 2);
    mon.require("single precision jacobian", n as u64 * 2);
}

/// Combinator-crate Lebesgue root around any density, for the measure-level interface.
#[derive(Clone)]
struct OnLine<M>(M);
impl<M> MeasureMarker for OnLine<M> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<M: Fam<f64, f64>> Measure<f64> for OnLine<M> {
    type RootMeasure = measures_combinators::LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool {
        self.0.in_support(x)
    }
    fn root_measure(&self) -> Self::RootMeasure {
        measures_combinators::LebesgueMeasure::new()
    }
}
impl<M: Fam<f64, f64>> HasLogDensity<f64, f64> for OnLine<M> {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        self.0.log_density_wrt_root(x)
    }
}

fn mass(lf: &dyn Fn(f64) -> f64, map: &dyn Fn(f64) -> (f64, f64), lo: f64, hi: f64, n: usize) -> f64 {
    let h = (hi - lo) / n as f64;
    (0..=n)
        .map(|i| {
            let (y, lj) = map(lo + h * i as f64);
            let l = lf(y);
            if l == f64::NEG_INFINITY { 0.0 } else { (l + lj).exp() * h }
        })
        .sum()
}

pub fn c11(mon: &mut Mon) {
    mon.rule = "base family × transformation (log, exp, affine, logit, a user-supplied cube) × point (image of a base point, or arbitrary); preimage and Jacobian from independent double-double references; plus mass by quadrature and measure-level support; distinct by transformation, base and point; non-trivial when the pushed density is positive".into();
    let n = mon.n(350, 15_000);
    push_family::<Normal<f64>>(mon, n);
    push_family::<Cauchy<f64>>(mon, n);
    push_family::<StudentT<f64>>(mon, n);
    push_family::<Exponential<f64>>(mon, n);
    push_family::<Gamma<f64>>(mon, n);
    push_family::<ChiSquared<f64>>(mon, n);
    push_family::<Beta<f64>>(mon, n);
    let n = mon.n(2000, 60_000);
    single(mon, n);
    let mut r = mon.rng.derive("mass");
    for _ in 0..mon.n(60, 2000) {
        let mut close = |mon: &mut Mon, case: String, got: f64| {
            let v = if (got - 1.0).abs() < 1e-5 { Verdict::Held } else { Verdict::Violated(format!("total mass {got}")) };
            mon.observe("mass", "pushforward:mass", crate::rng::hs(&case), true, || case.clone(), v);
        };
        let (mu, s) = (r.normal(), r.logu(-0.7, 0.7));
        let nrm = Normal::new(mu, s);
        let (f, i, j) = transforms::exp_transform::<f64>();
        let p = OnLine(nrm.clone()).pushforward(f, i, j);
        close(mon, format!("exp of N({mu},{s})"), mass(&|y| p.log_density().at::<f64>(&y), &|u| ((mu + s * u).exp(), mu + s * u + s.ln()), -12.0, 12.0, 600));
        let (a, b) = (-r.logu(-1.0, 1.0), r.normal());
        let (f, i, j) = transforms::linear_transform::<f64>(a, b);
        let p = OnLine(nrm.clone()).pushforward(f, i, j);
        close(mon, format!("affine({a},{b}) of N({mu},{s})"), mass(&|y| p.log_density().at::<f64>(&y), &|u| (a * (mu + s * u) + b, (a * s).abs().ln()), -12.0, 12.0, 600));
        let (al, be) = (r.range(0.7, 20.0), r.range(0.7, 20.0));
        let (f, i, j) = transforms::logit_transform::<f64>();
        let p = OnLine(Beta::new(al, be)).pushforward(f, i, j);
        close(mon, format!("logit of Beta({al},{be})"), mass(&|y| p.log_density().at::<f64>(&y), &|u| (u, 0.0), -34.0, 34.0, 3000));
        let rate = r.logu(-1.0, 1.0);
        let (f, i, j) = transforms::log_transform::<f64>();
        let p = OnLine(Gamma::new(al, rate)).pushforward(f, i, j);
        close(mon, format!("log of Gamma({al},{rate})"), mass(&|y| p.log_density().at::<f64>(&y), &|u| (u - rate.ln(), 0.0), -60.0, 8.0, 3000));
        // measure-level support: exactly the points whose preimage is in the base support
        for _ in 0..8 {
            let y = r.fin();
            let (f, i, j) = transforms::exp_transform::<f64>();
            let p = OnLine(Exponential::new(rate)).pushforward(f, i, j);
            let want = y >= 1.0;
            mon.observe("support", "pushforward:support", fnv(&[y.to_bits(), 1]), true, || format!("exp of Exponential at {y}"), bool_verdict(guard(|| p.in_support(y)), want, "in_support"));
            let (f, i, j) = transforms::linear_transform::<f64>(a, b);
            let p = OnLine(Beta::new(al, be)).pushforward(f, i, j);
            let x = (d(y) - d(b)) / d(a);
            if x.f().abs() > 1e-9 && (x.f() - 1.0).abs() > 1e-9 {
                let want = x.f() > 0.0 && x.f() < 1.0;
                mon.observe("support", "pushforward:support", fnv(&[y.to_bits(), a.to_bits()]), true, || format!("affine({a},{b}) of Beta at {y}"), bool_verdict(guard(|| p.in_support(y)), want, "in_support"));
            }
        }
        // points no point of the base measure maps to are outside the support, whatever the base
        for y in [0.0, -0.0, -r.pos(), -f64::MIN_POSITIVE, f64::NEG_INFINITY, f64::INFINITY, f64::NAN] {
            let (f, i, j) = transforms::exp_transform::<f64>();
            let p = OnLine(nrm.clone()).pushforward(f, i, j);
            mon.observe("support", "pushforward:support", fnv(&[y.to_bits(), 2]), true, || format!("exp of N({mu},{s}) at {y}"), bool_verdict(guard(|| p.in_support(y)), false, "in_support"));
            let (f, i, j) = transforms::exp_transform::<f64>();
            let p = OnLine(Cauchy::new(mu, s)).pushforward(f, i, j);
            mon.observe("support", "pushforward:support", fnv(&[y.to_bits(), 3]), true, || format!("exp of Cauchy({mu},{s}) at {y}"), bool_verdict(guard(|| p.in_support(y)), false, "in_support"));
        }
        for y in [r.pos(), f64::MIN_POSITIVE, r.logu(-300.0, 300.0)] {
            let (f, i, j) = transforms::exp_transform::<f64>();
            let p = OnLine(nrm.clone()).pushforward(f, i, j);
            mon.observe("support", "pushforward:support", fnv(&[y.to_bits(), 4]), true, || format!("exp of N({mu},{s}) at {y}"), bool_verdict(guard(|| p.in_support(y)), true, "in_support"));
        }
        // composition of two pushforwards equals the pushforward of the composition
        let (f, i, j) = transforms::exp_transform::<f64>();
        let (f2, i2, j2) = transforms::linear_transform::<f64>(a, b);
        let p = OnLine(nrm.clone()).pushforward(f, i, j).pushforward(f2, i2, j2);
        for _ in 0..4 {
            let y = a * (mu + s * r.normal()).exp() + b;
            let x = (d(y) - d(b)) / d(a);
            if x.f() < 1e-3 {
                continue;
            }
            let z = (x.ln() - d(mu)) / d(s);
            let e = Exp::V(Ref::sum(&[-crate::hp::HALF_LN_2PI, -d(s).ln(), -(z * z) / d(2.0), -x.ln(), -d(a.abs()).ln(), d(1e3)]));
            let e = match e {
                Exp::V(q) => Exp::V(Ref { v: q.v - d(1e3), mag: q.mag * (1.0 + b.abs() / x.f()) }),
                o => o,
            };
            mon.observe("composition", "pushforward:composition", y.to_bits(), true, || format!("affine∘exp of N({mu},{s}) at {y}"), verdict(&e, guard(|| p.log_density().at::<f64>(&y))));
        }
    }
    for k in ["log", "exp", "affine", "logit", "cube", "inverse", "jacobian", "mass", "support", "composition"] {
        mon.require(k, 50);
    }
}

// ---------------------------------------------------------------- C13

fn c13_f<F: Fl>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c13{}", F::NAME));
    let nm = F::NAME;
    let lf = |k: u64| (di(k) + d(1.0)).lgamma();
    for it in 0..n as u64 {
        // every small count in turn, then drawn ones
        let k = if it < 600 { it } else if r.chance(0.2) { r.logu(0.0, 14.0) as u64 } else { r.count(3_000_000) };
        let kind = format!("factorial<{nm}>");
        let e = Exp::V(Ref { v: lf(k), mag: lf(k).f().abs() });
        mon.observe(&kind, "log_factorial", k, k > 1, || format!("log {k}! ({nm})"), verdict(&e, guard(|| log_factorial::<F>(k))));
        let e = Exp::V(Ref { v: -lf(k), mag: lf(k).f().abs() });
        let fm = FactorialMeasure::<F>::new();
        mon.observe(&kind, "factorial-measure", k, k > 1, || format!("factorial measure at {k} ({nm})"), verdict(&e, guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&fm, &k))));
        let kind = format!("binomial<{nm}>");
        let nn = match r.below(3) {
            0 => k + r.count(50),
            1 => r.count(200),
            _ => k + r.count(1_000_000),
        };
        let j = match r.below(4) {
            0 => k,
            1 => nn,
            2 => nn + 1 + r.count(5),
            _ => r.below(nn as usize + 1) as u64,
        };
        let e = if j > nn { Exp::NegInf } else { Exp::V(Ref { v: lchoose(nn, j), mag: lf(nn).f().abs() + lf(j).f().abs() + lf(nn - j).f().abs() }) };
        let key = fnv(&[nn, j]);
        let case = || format!("C({nn},{j}) ({nm})");
        mon.observe(&kind, "log_binomial", key, true, case, verdict(&e, guard(|| log_binomial_coefficient::<F>(nn, j))));
        let bm = BinomialCoefficientMeasure::<F>::new(nn);
        mon.observe(&kind, "binomial-measure", key, true, case, verdict(&e, guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&bm, &j))));
        mon.observe(&kind, "binomial-support", key, true, case, bool_verdict(guard(|| bm.in_support(j)), j <= nn, "in_support"));
        let kind = format!("negative-binomial<{nm}>");
        let rr = 1 + r.count(1_000_000);
        let (a, b, c) = ((di(rr) + di(k)).lgamma(), lf(k), di(rr).lgamma());
        let e = Exp::V(Ref { v: a - b - c, mag: a.f().abs() + b.f().abs() + c.f().abs() });
        let key = fnv(&[rr, k]);
        let case = || format!("C({k}+{rr}-1,{k}) ({nm})");
        mon.observe(&kind, "log_negative_binomial", key, true, case, verdict(&e, guard(|| log_negative_binomial_coefficient::<F>(rr, k))));
        let nbm = NegativeBinomialCoefficientMeasure::<F>::new(rr);
        mon.observe(&kind, "negative-binomial-measure", key, true, case, verdict(&e, guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&nbm, &k))));
        // weights and integrals, nested
        let w1 = F::of(if r.chance(0.05) { f64::NEG_INFINITY } else { r.normal() * 10.0 });
        let w2 = F::of(r.normal() * 3.0);
        let c0 = F::of(r.normal());
        let g = move |x: &u64| F::of((*x % 97) as f64) * c0;
        let add = |e: &Exp, t: &[F]| -> Exp {
            let mut es = vec![*e];
            for t in t {
                es.push(if t.w() == f64::NEG_INFINITY { Exp::NegInf } else { Exp::V(Ref { v: d(t.w()), mag: t.w().abs() }) });
            }
            exp_sum(&es)
        };
        let p: Poisson<F> = draw(&mut r);
        let x = p.point(&mut r);
        let e0 = p.expect(&x);
        let key = fnv(&[p.key(&x), w1.w().to_bits(), w2.w().to_bits()]);
        let case = || format!("{} weighted {w1}, {w2}", p.show(&x));
        let kind = format!("weighted<{nm}>");
        let wm = WeightedMeasure::<_, F, u64>::new(p.clone(), w1);
        mon.observe(&kind, "weighted", key, true, case, verdict(&add(&e0, &[w1]), guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&wm, &x))));
        mon.observe(&kind, "weighted-support", key, true, case, bool_verdict(guard(|| wm.in_support(x)), p.in_support(x), "in_support"));
        let wm2 = WeightedMeasure::<_, F, u64>::new(wm.clone(), w2);
        mon.observe(&kind, "weighted-nested", key ^ 1, true, case, verdict(&add(&e0, &[w1, w2]), guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&wm2, &x))));
        let kind = format!("integral<{nm}>");
        let im = IntegralMeasure::new(p.clone(), g);
        mon.observe(&kind, "integral", key ^ 2, true, case, verdict(&add(&e0, &[g(&x)]), guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&im, &x))));
        let im2 = IntegralMeasure::new(wm2, g);
        mon.observe(&kind, "integral-nested", key ^ 3, true, case, verdict(&add(&e0, &[w1, w2, g(&x)]), guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&im2, &x))));
        mon.observe(&kind, "integral-support", key ^ 3, true, case, bool_verdict(guard(|| Measure::<u64>::in_support(&im2, x)), p.in_support(x), "in_support"));
        // relative to its own base, an integral measure has exactly the given function as log-density
        if let Exp::V(q) = e0 {
            let im = IntegralMeasure::new(p.clone(), g);
            let e = Exp::V(Ref { v: d(g(&x).w()), mag: q.mag * 2.0 + g(&x).w().abs() });
            let got = guard(|| HasLogDensity::<u64, F>::log_density_wrt_root(&im, &x) - HasLogDensity::<u64, F>::log_density_wrt_root(&p, &x));
            mon.observe(&kind, "integral-relative", key ^ 4, true, case, verdict(&e, got));
        }
        let (u, v) = (r.below(5) as i32, r.below(5) as i32);
        mon.observe("dirac", "dirac", fnv(&[u as u64, v as u64]), true, || format!("δ({u}) at {v}"), bool_verdict(guard(|| Dirac::new(u).in_support(v)), u == v, "in_support"));
    }
    for k in ["factorial", "binomial", "negative-binomial", "weighted", "integral"] {
        mon.require(&format!("{k}<{nm}>"), n as u64 / 2);
    }
}

pub fn c13(mon: &mut Mon) {
    mon.rule = "every count 0–599 and drawn counts up to 1e14 for the factorial; (n,k), (r,k) with k inside, at the edges of and outside the range; weights (including −∞) and functions nested up to three deep; distinct by the arguments".into();
    c13_f::<f64>(mon, mon.n(6000, 300_000));
    c13_f::<f32>(mon, mon.n(3000, 100_000));
}
#[allow(dead_code)]
fn _unused(_: &Rng) {}
