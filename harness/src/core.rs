//! C07 decompositions, C08 cached log-densities, C25 numeric support code.

use std::cell::{Cell, RefCell};
use std::rc::Rc;

use measures_core::core::utils::{safe_convert, safe_convert_or, safe_float_convert};
use measures_core::{
    CountingMeasure, DecompositionBuilder, DotProduct, EvaluateAt, False, HasLogDensity,
    HasLogDensityDecomposition, LogDensityBuilder, LogDensityDecomposition, LogDensityTrait,
    Measure, MeasureMarker, float_constant,
};
use measures_core::core::density::LogDensityCaching;
use measures_core::traits::dot_product::array_sub;
use measures_distributions::*;
use measures_exponential_family::exponential_family::array_utils::{add_arrays, default_array, sum_arrays};

use crate::dist::{draw, verdict};
use crate::hp::{Ref, d};
use crate::mon::{Mon, Verdict, guard};
use crate::refs::{Exp, Fam, Fl, exp_sum};
use crate::rng::{Rng, fnv};

// ---------------------------------------------------------------- C07

thread_local! {
    /// Monitor state: how often a term function was entered.
    static TERM_CALLS: Cell<u64> = const { Cell::new(0) };
}
fn hit() {
    TERM_CALLS.with(|c| c.set(c.get() + 1));
}
type Th<F> = (F, F);
fn d0<F: Fl>(x: &F) -> F {
    hit();
    *x
}
fn d1<F: Fl>(x: &F) -> F {
    hit();
    *x * *x
}
fn d2<F: Fl>(x: &F) -> F {
    hit();
    -(F::one() + *x * *x).ln()
}
fn d3<F: Fl>(_: &F) -> F {
    hit();
    F::of(-3.25)
}
fn p0<F: Fl>(t: &Th<F>) -> F {
    hit();
    t.0
}
fn p1<F: Fl>(t: &Th<F>) -> F {
    hit();
    -t.1.ln()
}
fn p2<F: Fl>(t: &Th<F>) -> F {
    hit();
    t.0 * t.1
}
fn p3<F: Fl>(_: &Th<F>) -> F {
    hit();
    F::of(0.625)
}
fn m0<F: Fl>(x: &F, t: &Th<F>) -> F {
    hit();
    *x * t.0
}
fn m1<F: Fl>(x: &F, t: &Th<F>) -> F {
    hit();
    let z = (*x - t.0) / t.1;
    -F::of(0.5) * z * z
}
fn m2<F: Fl>(x: &F, t: &Th<F>) -> F {
    hit();
    t.1 - *x
}
fn m3<F: Fl>(_: &F, _: &Th<F>) -> F {
    hit();
    F::of(7.0)
}

#[derive(Clone, Copy, Debug)]
enum Term {
    D(usize),
    P(usize),
    M(usize),
    C(f64),
}

fn small<F: Fl>(r: &mut Rng) -> F {
    F::of(match r.below(6) {
        0 => 0.0,
        1 => r.int(-8, 8) as f64,
        2 => r.normal() * 1e3,
        _ => r.normal() * 2.0,
    })
}

fn c07_programs<F: Fl>(mon: &mut Mon, n: usize) {
    let ds: [fn(&F) -> F; 4] = [d0, d1, d2, d3];
    let ps: [fn(&Th<F>) -> F; 4] = [p0, p1, p2, p3];
    let ms: [fn(&F, &Th<F>) -> F; 4] = [m0, m1, m2, m3];
    let mut r = mon.rng.derive(&format!("c07{}", F::NAME));
    let nm = F::NAME;
    for _ in 0..n {
        let len = r.len(9, 300);
        let mut last = None; // constants repeat and cancel
        let terms: Vec<Term> = (0..len)
            .map(|_| match r.below(4) {
                0 => Term::D(r.below(4)),
                1 => Term::P(r.below(4)),
                2 => Term::M(r.below(4)),
                _ => Term::C(match r.below(5) {
                    0 => *r.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -0.0]),
                    1 if last.is_some() => last.unwrap(),
                    2 if last.is_some() => -last.unwrap(),
                    _ => {
                        last = Some(F::of(r.normal() * 3.0).w());
                        last.unwrap()
                    }
                }),
            })
            .collect();
        let built = r.chance(0.5);
        let mut dec: LogDensityDecomposition<F, Th<F>, F> = if built {
            let mut b = DecompositionBuilder::new();
            for t in &terms {
                b = match t {
                    Term::D(i) => b.data_term(ds[*i], "d"),
                    Term::P(i) => b.param_term(ps[*i], "p"),
                    Term::M(i) => b.mixed_term(ms[*i], "m"),
                    Term::C(c) => b.constant(F::of(*c)),
                };
            }
            b.build()
        } else {
            let mut dd = LogDensityDecomposition::new();
            for (k, t) in terms.iter().enumerate() {
                let s = if k % 2 == 0 { None } else { Some("t".to_string()) };
                dd = match t {
                    Term::D(i) => dd.add_data_term(ds[*i], s),
                    Term::P(i) => dd.add_param_term(ps[*i], s),
                    Term::M(i) => dd.add_mixed_term(ms[*i], s),
                    Term::C(c) => dd.add_constant(F::of(*c)),
                };
            }
            dd
        };
        if r.chance(0.2) {
            dec = dec.clone();
        }
        let th: Th<F> = (small(&mut r), F::of(r.pos()));
        let most = if len < 20 && r.chance(0.1) { 6000 } else { 120 };
        let m = if len < 12 && r.chance(0.003) { 65_536 + r.below(2000) } else { r.len(12, most) };
        let mut xs: Vec<F> = (0..m).map(|_| small(&mut r)).collect();
        for k in 1..xs.len() {
            if r.chance(0.1) {
                xs[k] = xs[r.below(k)]; // observations repeat
            }
        }
        let group = |x: Option<&F>, sel: &dyn Fn(&Term) -> bool| -> Exp {
            let mut v = d(0.0);
            let mut mag = 0.0;
            for t in terms.iter().filter(|t| sel(t)) {
                let y = match t {
                    Term::D(i) => ds[*i](x.unwrap()),
                    Term::P(i) => ps[*i](&th),
                    Term::M(i) => ms[*i](x.unwrap(), &th),
                    Term::C(c) => F::of(*c),
                };
                v = v + d(y.w());
                mag += y.w().abs();
            }
            Exp::V(Ref { v, mag })
        };
        let key = crate::rng::hs(&format!("{terms:?}{th:?}{xs:?}{nm}"));
        let case = || format!("terms {terms:?} θ={th:?} xs={xs:?} ({nm})");
        let nt = len > 0;
        let x = xs.first().copied().unwrap_or(F::of(0.5));
        let e = group(Some(&x), &|_| true);
        mon.observe(&format!("evaluate<{nm}>"), "decomposition:evaluate", key, nt, case, verdict(&e, guard(|| dec.evaluate(&x, &th))));
        let each: Vec<Exp> = xs.iter().map(|x| group(Some(x), &|_| true)).collect();
        mon.observe(&format!("sample<{nm}>"), "decomposition:sample", key, nt && !xs.is_empty(), case, verdict(&exp_sum(&each), guard(|| dec.evaluate_iid(&xs, &th))));
        let e = group(None, &|t| matches!(t, Term::P(_)));
        mon.observe(&format!("partial<{nm}>"), "decomposition:param", key ^ 1, nt, case, verdict(&e, guard(|| dec.evaluate_param_terms(&th))));
        let e = group(Some(&x), &|t| matches!(t, Term::D(_)));
        mon.observe(&format!("partial<{nm}>"), "decomposition:data", key ^ 2, nt, case, verdict(&e, guard(|| dec.evaluate_data_terms(&x))));
        let e = group(None, &|t| matches!(t, Term::C(_)));
        mon.observe(&format!("partial<{nm}>"), "decomposition:constant", key ^ 3, nt, case, verdict(&e, guard(|| dec.constant_sum())));
        // conservation: partial groups plus the mixed terms make up the whole
        let mixed = group(Some(&x), &|t| matches!(t, Term::M(_)));
        let parts = dec.evaluate_param_terms(&th).w() + dec.evaluate_data_terms(&x).w() + dec.constant_sum().w() + mixed.value();
        let whole = group(Some(&x), &|_| true);
        mon.observe(&format!("conservation<{nm}>"), "decomposition:conservation", key, nt, case, Exp::V(Ref { v: d(parts), mag: whole.mag() * 2.0 }).judge(dec.evaluate(&x, &th)));
    }
    for k in ["evaluate", "sample", "partial", "conservation"] {
        mon.require(&format!("{k}<{nm}>"), n as u64 / 2);
    }
}

fn c07_dist<F: Fl>(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive(&format!("c07d{}", F::NAME));
    macro_rules! one {
        ($D:ident, $params:expr) => {{
            let kind = format!("{}<{}>", stringify!($D), F::NAME);
            for _ in 0..n {
                let a: $D<F> = draw(&mut r);
                let b: $D<F> = if r.chance(0.4) { a.clone() } else { draw(&mut r) };
                let dec = a.log_density_decomposition();
                let x: F = b.point(&mut r);
                let e = b.expect(&x);
                let th = b.params();
                let case = || format!("decomposition of {:?} at parameters of {}", a.pv(), b.show(&x));
                mon.observe(&kind, concat!("decomposition:", stringify!($D)), fnv(&[a.key(&x), b.key(&x)]), true, case, verdict(&e, guard(|| dec.evaluate(&x, &th))));
                let m = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    _ => r.int(2, 40) as usize,
                };
                let xs: Vec<F> = (0..m).map(|_| a.point(&mut r)).collect();
                let e = exp_sum(&xs.iter().map(|x| a.expect(x)).collect::<Vec<_>>());
                let case = || format!("sample {xs:?} of {:?}", a.pv());
                mon.observe(&kind, concat!("decomposition-sample:", stringify!($D)), crate::rng::hs(&format!("{xs:?}{:?}", a.pv())), m > 0, case, verdict(&e, guard(|| a.log_density_iid(&xs))));
            }
            mon.require(&kind, n as u64);
        }};
    }
    one!(Normal, 2);
    one!(Cauchy, 2);
    one!(StudentT, 1);
}

pub fn c07(mon: &mut Mon) {
    mon.rule = "sequence of added terms (0–24, drawn from data/parameter/mixed/constant pools, by builder or by the adders) × parameters × sample (0–120 points); and, per distribution with a decomposition, decomposition × foreign parameters × point or sample; distinct by the printed case; non-trivial when there is at least one term (and one observation)".into();
    let n = mon.n(6000, 300_000);
    c07_programs::<f64>(mon, n);
    c07_programs::<f32>(mon, n / 2);
    let n = mon.n(3000, 150_000);
    c07_dist::<f64>(mon, n);
    c07_dist::<f32>(mon, n / 2);
    mon.extra.push(("term_function_calls".into(), TERM_CALLS.with(Cell::get).to_string()));
}

// ---------------------------------------------------------------- C08

/// A point type whose hash is adversarial: all points collide in a handful of buckets.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sticky(pub i64, pub u8);
impl std::hash::Hash for Sticky {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if self.0.abs() <= 1000 { self.0.rem_euclid(3) } else { self.0 >> 1 }.hash(h);
    }
}

/// A measure that logs every evaluation asked of it (the hooked state of this monitor).
#[derive(Clone)]
pub struct Spy {
    pub log: Rc<RefCell<Vec<Sticky>>>,
    pub a: f64,
}
impl Spy {
    fn value(a: f64, x: &Sticky) -> f64 {
        let t = x.0 as f64 * a + f64::from(x.1) * 1e-3;
        if x.0 % 17 == 5 { f64::NEG_INFINITY } else if x.0 % 19 == 7 { f64::INFINITY } else if x.0 % 23 == 11 { f64::NAN } else { t }
    }
}
impl MeasureMarker for Spy {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<Sticky> for Spy {
    type RootMeasure = CountingMeasure<Sticky>;
    fn in_support(&self, _: Sticky) -> bool {
        true
    }
    fn root_measure(&self) -> Self::RootMeasure {
        CountingMeasure::new()
    }
}
impl HasLogDensity<Sticky, f64> for Spy {
    fn log_density_wrt_root(&self, x: &Sticky) -> f64 {
        self.log.borrow_mut().push(x.clone());
        Spy::value(self.a, x)
    }
}
impl HasLogDensity<Sticky, f32> for Spy {
    fn log_density_wrt_root(&self, x: &Sticky) -> f32 {
        self.log.borrow_mut().push(x.clone());
        Spy::value(self.a, x) as f32
    }
}

fn same64(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn c08_spy(mon: &mut Mon, n: usize) {
    let mut r = mon.rng.derive("spy");
    for _ in 0..n {
        let spy = Spy { log: Rc::default(), a: r.normal() };
        let a = spy.a;
        let log = spy.log.clone();
        let nested = r.chance(0.3);
        let ld = LogDensityBuilder::<Sticky>::log_density(&spy);
        let c1 = ld.clone().cached();
        let c2 = LogDensityBuilder::<Sticky>::log_density(&spy).cached_for::<f64>().cached();
        let c3 = ld.cached_for::<f32>();
        let q = r.int(5, 80) as usize;
        let width = *r.pick(&[3i64, 12, 60, 1000]);
        let mut distinct = std::collections::HashSet::new();
        let mut hist = Vec::new();
        for _ in 0..q {
            let x = Sticky(r.int(-width, width), r.below(2) as u8);
            let want = Spy::value(a, &x);
            let before = log.borrow().len();
            let fresh = distinct.insert(x.clone());
            hist.push(x.clone());
            let got = guard(|| if nested { c2.at(&x) } else { c1.at(&x) });
            let after = log.borrow().len();
            let case = || format!("query {:?} after {} queries of width {width} (nested {nested}, a={a})", x, hist.len() - 1);
            let key = crate::rng::hs(&format!("{hist:?}{a}"));
            let v = match got {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(g) if same64(g, want) => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("cached {g:e}, uncached {want:e}")),
            };
            mon.observe("history", "cached:value", key, hist.len() > 1, case, v);
            let calls = after - before;
            let v = if calls <= usize::from(fresh) {
                Verdict::Held
            } else {
                Verdict::Violated(format!("{calls} evaluations of the density for a {} point", if fresh { "new" } else { "repeated" }))
            };
            mon.observe("memo", "cached:evaluations", key, !fresh, case, v);
            if r.chance(0.2) {
                let got: f32 = c3.at(&x);
                let w = want as f32;
                let v = if got == w || (got.is_nan() && w.is_nan()) { Verdict::Held } else { Verdict::Violated(format!("cached f32 {got:e}, uncached {w:e}")) };
                mon.observe("f32-cache", "cached:f32", key, true, case, v);
            }
        }
        let v = if (c1.measure().a, c2.measure().a) == (a, a) { Verdict::Held } else { Verdict::Violated("wrong measure behind the cache".into()) };
        mon.observe("accessor", "cached:measure", a.to_bits(), true, || "measure()".into(), v);
    }
    // Long histories: many distinct points, then all of them again in another order.
    let mut r = mon.rng.derive("long");
    let sizes: &[usize] = if mon.thorough { &[100, 300, 1100, 2100, 4200, 8300, 17_000, 33_000, 70_000, 140_000] } else { &[100, 300, 1100, 2100, 4200, 8300, 17_000, 70_000] };
    for &size in sizes {
        let spy = Spy { log: Rc::default(), a: r.normal() };
        let (a, log) = (spy.a, spy.log.clone());
        let cache = LogDensityBuilder::<Sticky>::log_density(&spy).cached();
        // the hash of `Sticky` is coarse on purpose; wide points keep the map usable
        let mut points: Vec<Sticky> = (0..size as i64).map(|i| Sticky(i * 7919 - size as i64, (i % 2) as u8)).collect();
        for round in 0..3 {
            if round > 0 {
                r.shuffle(&mut points);
            }
            for (i, x) in points.iter().enumerate() {
                let before = log.borrow().len();
                let got = guard(|| cache.at(x));
                let calls = log.borrow().len() - before;
                let v = match got {
                    Err(p) => Verdict::Violated(format!("panicked: {p}")),
                    Ok(g) if !same64(g, Spy::value(a, x)) => Verdict::Violated(format!("cached {g:e}, uncached {:e}", Spy::value(a, x))),
                    Ok(_) if calls > usize::from(round == 0) => Verdict::Violated(format!("{calls} evaluations of the density for a {} point", if round == 0 { "new" } else { "repeated" })),
                    Ok(_) => Verdict::Held,
                };
                mon.observe("long history", "cached:long", fnv(&[size as u64, round, i as u64]), round > 0, || format!("{x:?}, query {i} of round {round} over {size} distinct points"), v);
            }
        }
    }
    for k in ["history", "memo", "f32-cache", "long history"] {
        mon.require(k, 100);
    }
}

fn c08_dist<X, F: Fl, M: Fam<X, F>>(mon: &mut Mon, n: usize)
where
    X: Clone + std::fmt::Debug + std::hash::Hash + Eq,
    measures_core::LogDensity<X, M, M::RootMeasure>: EvaluateAt<X, F>,
    measures_core::LogDensity<X, M, M>: EvaluateAt<X, F> + LogDensityTrait<X>,
    M::RootMeasure: Clone,
{
    let mut r = mon.rng.derive(&format!("c08{}{}", M::NAME, F::NAME));
    let kind = format!("{}<{}>", M::NAME, F::NAME);
    for _ in 0..n {
        let m: M = draw(&mut r);
        let m2: M = draw(&mut r);
        let rel = r.chance(0.4);
        let plain = m.log_density();
        let plain2 = m.log_density().wrt(m2.clone());
        let c1 = m.log_density().cached_for::<F>();
        let c2 = m.log_density().wrt(m2.clone()).cached_for::<F>();
        let pool: Vec<X> = (0..r.int(1, 12)).map(|_| m.point(&mut r)).collect();
        for k in 0..r.int(2, 30) {
            let x = r.pick(&pool).clone();
            let (got, want) = if rel { (guard(|| c2.at(&x)), plain2.at::<F>(&x)) } else { (guard(|| c1.at(&x)), plain.at::<F>(&x)) };
            let v = match got {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(g) if g == want || (g.is_nan() && want.is_nan()) => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("cached {g:?}, uncached {want:?}")),
            };
            mon.observe(&kind, "cached:value", fnv(&[m.key(&x), k as u64, u64::from(rel)]), true, || m.show(&x), v);
        }
    }
    mon.require(&kind, n as u64);
}

pub fn c08(mon: &mut Mon) {
    mon.rule = "history of queries (5–80, repeated and distinct points, points whose hashes collide) against one cache, value by value, with a log of evaluations of the underlying density; distinct by the whole history up to the query; non-trivial when the cache is not empty".into();
    c08_spy(mon, mon.n(1500, 60_000));
    let n = mon.n(150, 8000);
    macro_rules! run {
        ($($F:ty),*) => {$(
            c08_dist::<u8, $F, Bernoulli<$F>>(mon, n);
            c08_dist::<u64, $F, Binomial<$F>>(mon, n);
            c08_dist::<u64, $F, NegativeBinomial<$F>>(mon, n);
            c08_dist::<u64, $F, Geometric<$F>>(mon, n);
            c08_dist::<u64, $F, Poisson<$F>>(mon, n);
            c08_dist::<usize, $F, Categorical<$F>>(mon, n);
        )*};
    }
    run!(f64, f32);
}

// ---------------------------------------------------------------- C25

fn judge<T: PartialEq + std::fmt::Debug>(mon: &mut Mon, kind: &str, sg: &str, case: String, got: Result<T, String>, want: T) {
    let v = match got {
        Ok(g) if g == want => Verdict::Held,
        Ok(g) => Verdict::Violated(format!("got {g:?}, expected {want:?}")),
        Err(p) => Verdict::Violated(format!("panicked: {p}")),
    };
    mon.observe(kind, sg, crate::rng::hs(&case), true, || case.clone(), v);
}

pub fn c25(mon: &mut Mon) {
    mon.rule = "source type × target type × value (ordinary, extreme, exactly on and next to the target's range, non-finite) against integer/rounding arithmetic of the harness; arrays and vectors of length 0–64 against double-double sums; distinct by the printed case".into();
    let mut r = mon.rng.derive("c25");
    let n = mon.n(20_000, 1_000_000);
    for _ in 0..n {
        // floating values to integers: truncation inside the range, default/fallback outside
        let x = match r.below(4) {
            0 => r.any(),
            1 if r.chance(0.5) => r.edge(63) as f64 + *r.pick(&[0.0, 0.0, 0.5, -0.5]),
            1 => r.int(-70_000, 70_000) as f64,
            2 => *r.pick(&[255.0, 256.0, -1.0, 65535.0, 65536.0, 4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, -2147483648.0, 9007199254740992.0, 127.0, 128.0, -128.0]),
            _ => r.fin(),
        };
        // a value in (min−1, max+1) truncates into the range; NaN and everything else fails
        let t = x.trunc();
        macro_rules! to_int {
            ($T:ty) => {{
                let fits = x.is_finite() && t >= <$T>::MIN as f64 && t <= <$T>::MAX as f64;
                let fb: $T = 42;
                let k = concat!("f64→", stringify!($T));
                judge(mon, k, "convert", format!("{k} {x:?}"), guard(|| safe_convert::<f64, $T>(x)), if fits { t as $T } else { 0 });
                judge(mon, k, "convert-or", format!("{k} or {x:?}"), guard(|| safe_convert_or::<f64, $T>(x, fb)), if fits { t as $T } else { fb });
            }};
        }
        to_int!(u8);
        to_int!(i8);
        to_int!(u16);
        to_int!(i32);
        to_int!(u32);
        // integers that double precision holds exactly
        let i = match r.below(3) {
            0 if r.chance(0.6) => r.edge(52),
            0 => r.int(-300, 300),
            1 => r.int(-(1 << 53), 1 << 53),
            _ => r.int(-(1 << 33), 1 << 33),
        };
        macro_rules! from_int {
            ($T:ty) => {{
                let want = <$T>::try_from(i).ok();
                let k = concat!("i64→", stringify!($T));
                judge(mon, k, "convert", format!("{k} {i}"), guard(|| safe_convert::<i64, $T>(i)), want.unwrap_or(0));
                judge(mon, k, "convert-or", format!("{k} or {i}"), guard(|| safe_convert_or::<i64, $T>(i, 7)), want.unwrap_or(7));
            }};
        }
        from_int!(u8);
        from_int!(i16);
        from_int!(u32);
        from_int!(u64);
        from_int!(i64);
        judge(mon, "i64→f64", "convert", format!("i64→f64 {i}"), guard(|| safe_convert::<i64, f64>(i)), i as f64);
        judge(mon, "i64→f32", "convert", format!("i64→f32 {i}"), guard(|| safe_convert::<i64, f32>(i)), i as f32);
        let u = r.next() >> r.below(64);
        judge(mon, "u64→f64", "convert", format!("u64→f64 {u}"), guard(|| safe_convert::<u64, f64>(u)), u as f64);
        // floats to floats (bits, so that signed zeros and non-finite values count)
        let y = r.any();
        let nb32 = |v: f32| if v.is_nan() { 1 } else { v.to_bits() };
        let nb64 = |v: f64| if v.is_nan() { 1 } else { v.to_bits() };
        judge(mon, "f64→f32", "convert", format!("f64→f32 {y:?}"), guard(|| nb32(safe_convert::<f64, f32>(y))), nb32(y as f32));
        judge(mon, "f64→f64", "convert", format!("f64→f64 {y:?}"), guard(|| nb64(safe_convert::<f64, f64>(y))), nb64(y));
        judge(mon, "float_constant", "constant", format!("constant f32 {y:?}"), guard(|| nb32(float_constant::<f32>(y))), nb32(y as f32));
        judge(mon, "float_constant", "constant", format!("constant f64 {y:?}"), guard(|| nb64(float_constant::<f64>(y))), nb64(y));
        judge(mon, "f64→f32", "float-convert", format!("checked f64→f32 {y:?}"), guard(|| safe_float_convert::<f64, f32>(y).map(nb32)), Ok(nb32(y as f32)));
        judge(mon, "f32→f64", "float-convert", format!("checked f32→f64 {y:?}"), guard(|| safe_float_convert::<f32, f64>(y as f32).map(nb64)), Ok(nb64(f64::from(y as f32))));
        judge(mon, "f32→f64", "convert-or", format!("f32→f64 or {y:?}"), guard(|| nb64(safe_convert_or::<f32, f64>(y as f32, 3.0))), nb64(f64::from(y as f32)));
    }
    // sources and targets that cannot be converted: the default, the fallback, an error
    struct Opaque;
    impl num_traits::ToPrimitive for Opaque {
        fn to_i64(&self) -> Option<i64> {
            None
        }
        fn to_u64(&self) -> Option<u64> {
            None
        }
    }
    #[derive(Debug, Default, PartialEq, Clone, Copy)]
    struct Even(i64);
    impl num_traits::FromPrimitive for Even {
        fn from_i64(n: i64) -> Option<Self> {
            (n % 2 == 0).then_some(Even(n))
        }
        fn from_u64(n: u64) -> Option<Self> {
            i64::try_from(n).ok().and_then(Self::from_i64)
        }
    }
    for _ in 0..mon.n(2000, 50_000) {
        let fb = r.int(-1000, 1000);
        judge(mon, "unconvertible", "convert", "opaque→i64".into(), guard(|| safe_convert::<Opaque, i64>(Opaque)), 0);
        judge(mon, "unconvertible", "convert-or", format!("opaque→i64 or {fb}"), guard(|| safe_convert_or::<Opaque, i64>(Opaque, fb)), fb);
        let i = r.int(-(1 << 40), 1 << 40);
        let even = i % 2 == 0;
        judge(mon, "unconvertible", "convert", format!("i64→even {i}"), guard(|| safe_convert::<i64, Even>(i)), if even { Even(i) } else { Even(0) });
        judge(mon, "unconvertible", "convert-or", format!("i64→even {i} or {fb}"), guard(|| safe_convert_or::<i64, Even>(i, Even(fb))), if even { Even(i) } else { Even(fb) });
    }
    fn arrays<F: Fl, const N: usize>(mon: &mut Mon, r: &mut Rng, n: usize) {
        for _ in 0..n {
            let mut gen_ = || -> [F; N] { std::array::from_fn(|_| F::of(r.normal() * 10f64.powf(r.range(-3.0, 3.0)))) };
            let (a, b) = (gen_(), gen_());
            let rows: Vec<[F; N]> = (0..(a.len() * 7 + 3) % 11).map(|_| gen_()).collect();
            let t: Vec<_> = a.iter().zip(&b).map(|(x, y)| d(x.w()) * d(y.w())).collect();
            let key = crate::rng::hs(&format!("{a:?}{b:?}{}", F::NAME));
            let case = || format!("{a:?} {b:?}");
            mon.observe("dot", "dot:array", key, N > 0, case, verdict(&Exp::V(Ref::sum(&t)), guard(|| a.dot(&b))));
            let (va, vb) = (a.to_vec(), b.to_vec());
            mon.observe("dot", "dot:vec", key ^ 1, N > 0, case, verdict(&Exp::V(Ref::sum(&t)), guard(|| va.dot(&vb))));
            let s = add_arrays(a, b);
            let m = array_sub(a, b);
            let z: [F; N] = default_array();
            let tot = sum_arrays(rows.iter().copied());
            for i in 0..N {
                let e = Exp::V(Ref::sum(&[d(a[i].w()), d(b[i].w())]));
                mon.observe("element-wise", "arrays:add", key ^ 2, true, case, e.judge(s[i]));
                let e = Exp::V(Ref::sum(&[d(a[i].w()), -d(b[i].w())]));
                mon.observe("element-wise", "arrays:sub", key ^ 3, true, case, e.judge(m[i]));
                let e = Exp::V(Ref::sum(&rows.iter().map(|q| d(q[i].w())).collect::<Vec<_>>()));
                mon.observe("element-wise", "arrays:sum", key ^ 4, true, || format!("sum of {rows:?}"), e.judge(tot[i]));
                let v = if z[i].w() == 0.0 { Verdict::Held } else { Verdict::Violated("default array is not zero".into()) };
                mon.observe("element-wise", "arrays:default", key ^ 5, true, case, v);
            }
        }
    }
    let n = mon.n(400, 20_000);
    macro_rules! lens {
        ($($N:literal),*) => {$(
            arrays::<f64, $N>(mon, &mut r, n);
            arrays::<f32, $N>(mon, &mut r, n);
        )*};
    }
    lens!(0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64);
    for k in ["f64→u8", "f64→i32", "i64→u64", "f64→f32", "float_constant", "dot", "element-wise"] {
        mon.require(k, 1000);
    }
}
