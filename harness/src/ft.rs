//! C20 interpretations of generic expressions, C23 polynomial helpers, C27 generic density
//! patterns.

use std::collections::HashMap;

use num_traits::Float;
use symbolic_math::final_tagless::JITRepr;
use symbolic_math::{Expr, JITEval};

use measures_distributions::distributions::final_tagless as dft;
use measures_exponential_family::exponential_family::final_tagless as eft;
use mathjit::final_tagless as mj;
use symbolic_math::final_tagless as sm;

use crate::hp::{D, HALF_LN_2PI, LN2, PI, d};
use crate::isolate::{Limits, Obs, batches};
use crate::jit::class;
use crate::mon::{Mon, Verdict, guard};
use crate::re::{Env, R, eval};
use crate::render::{Notation, judge_text, read};
use crate::rng::{Rng, fnv, hs};
use crate::sym::{bx, env, env_txt, gen_expr, key, shape, template, val};

// ------------------------------------------------ plain floating-point reference

pub trait Num: Float + num_traits::FromPrimitive + Default + Send + Sync + std::fmt::Display + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn w(self) -> f64;
    fn step(self, k: i64) -> Self;
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn w(self) -> f64 {
        self
    }
    fn step(self, k: i64) -> f64 {
        if self.abs() < 1e-300 { self + k as f64 * 5e-324 } else { f64::from_bits((self.to_bits() as i64 + k) as u64) }
    }
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn w(self) -> f64 {
        f64::from(self)
    }
    fn step(self, k: i64) -> f32 {
        if self.abs() < 1e-37 { self + k as f32 * 1e-45 } else { f32::from_bits((i64::from(self.to_bits()) + k) as u32) }
    }
}

fn jig<T: Num>(r: &mut Option<Rng>, v: T) -> T {
    match r {
        Some(r) if v.is_finite() && v != T::zero() => v.step(r.int(-2, 2)),
        _ => v,
    }
}

/// What the floating-point operations named by the expression give, one after the other.
fn plain<T: Num>(e: &Expr, x: &HashMap<String, T>, r: &mut Option<Rng>) -> T {
    let v = match e {
        Expr::Const(c) => return T::of(*c),
        Expr::Var(n) => return x[n],
        Expr::Neg(a) => return -plain(a, x, r),
        Expr::Add(a, b) => plain(a, x, r) + plain(b, x, r),
        Expr::Sub(a, b) => plain(a, x, r) - plain(b, x, r),
        Expr::Mul(a, b) => plain(a, x, r) * plain(b, x, r),
        Expr::Div(a, b) => plain(a, x, r) / plain(b, x, r),
        Expr::Pow(a, b) => plain(a, x, r).powf(plain(b, x, r)),
        Expr::Ln(a) => plain(a, x, r).ln(),
        Expr::Exp(a) => plain(a, x, r).exp(),
        Expr::Sqrt(a) => plain(a, x, r).sqrt(),
        Expr::Sin(a) => plain(a, x, r).sin(),
        Expr::Cos(a) => plain(a, x, r).cos(),
    };
    jig(r, v)
}

fn judge_plain<T: Num>(e: &Expr, x: &HashMap<String, T>, got: &Result<T, String>, seed: u64) -> Verdict {
    let got = match got {
        Ok(g) => *g,
        Err(t) => return Verdict::Violated(format!("panicked: {t}")),
    };
    let base = plain(e, x, &mut None);
    let c = class(base.w());
    let (mut lo, mut hi) = (base, base);
    for k in 0..14 {
        let v = plain(e, x, &mut Some(Rng::new(seed ^ (k * 7919))));
        if class(v.w()) != c {
            return Verdict::Inconclusive;
        }
        lo = lo.min(v);
        hi = hi.max(v);
    }
    if class(got.w()) != c {
        return Verdict::Violated(format!("got {got:?}, expected {base:?}"));
    }
    if c != 0 {
        return Verdict::Held;
    }
    let spread = hi.w() - lo.w();
    let b = base.w().abs();
    if spread > 1e-2 * b {
        return Verdict::Inconclusive;
    }
    let tol = 64.0 * spread + 64.0 * T::epsilon().w() * b + 4.0 * T::min_positive_value().w() * T::epsilon().w();
    if (got.w() - base.w()).abs() <= tol { Verdict::Held } else { Verdict::Violated(format!("got {got:?}, expected {base:?} (±{tol:.1e})")) }
}

// ------------------------------------------------ building generic expressions

/// An interpreter that records the formula it is given.
pub struct Rec;

macro_rules! tagless {
    ($m:ident, $root:ident) => {
        pub mod $m {
            use super::{Expr, Rec, bx};
            use num_traits::Float;
            use super::$root as ft;
            use ft::{MathExpr, NumericType};

            pub fn build<E: MathExpr, T: NumericType + Float>(e: &Expr, v: &dyn Fn(&str) -> E::Repr<T>) -> E::Repr<T> {
                let go = |a: &Expr| build::<E, T>(a, v);
                match e {
                    Expr::Const(c) => E::constant(T::from(*c).expect("constant")),
                    Expr::Var(n) => v(n),
                    Expr::Add(a, b) => E::add::<T, T, T>(go(a), go(b)),
                    Expr::Sub(a, b) => E::sub::<T, T, T>(go(a), go(b)),
                    Expr::Mul(a, b) => E::mul::<T, T, T>(go(a), go(b)),
                    Expr::Div(a, b) => E::div::<T, T, T>(go(a), go(b)),
                    Expr::Pow(a, b) => E::pow::<T>(go(a), go(b)),
                    Expr::Neg(a) => E::neg::<T>(go(a)),
                    Expr::Ln(a) => E::ln::<T>(go(a)),
                    Expr::Exp(a) => E::exp::<T>(go(a)),
                    Expr::Sqrt(a) => E::sqrt::<T>(go(a)),
                    Expr::Sin(a) => E::sin::<T>(go(a)),
                    Expr::Cos(a) => E::cos::<T>(go(a)),
                }
            }

            impl MathExpr for Rec {
                type Repr<T> = Expr;
                fn constant<T: NumericType>(value: T) -> Expr {
                    Expr::Const(format!("{value}").parse().expect("a number"))
                }
                fn var<T: NumericType>(name: &str) -> Expr {
                    Expr::Var(name.to_string())
                }
                fn add<L, R, O>(l: Expr, r: Expr) -> Expr
                where
                    L: NumericType + std::ops::Add<R, Output = O>,
                    R: NumericType,
                    O: NumericType,
                {
                    Expr::Add(bx(l), bx(r))
                }
                fn sub<L, R, O>(l: Expr, r: Expr) -> Expr
                where
                    L: NumericType + std::ops::Sub<R, Output = O>,
                    R: NumericType,
                    O: NumericType,
                {
                    Expr::Sub(bx(l), bx(r))
                }
                fn mul<L, R, O>(l: Expr, r: Expr) -> Expr
                where
                    L: NumericType + std::ops::Mul<R, Output = O>,
                    R: NumericType,
                    O: NumericType,
                {
                    Expr::Mul(bx(l), bx(r))
                }
                fn div<L, R, O>(l: Expr, r: Expr) -> Expr
                where
                    L: NumericType + std::ops::Div<R, Output = O>,
                    R: NumericType,
                    O: NumericType,
                {
                    Expr::Div(bx(l), bx(r))
                }
                fn pow<T: NumericType + Float>(b: Expr, e: Expr) -> Expr {
                    Expr::Pow(bx(b), bx(e))
                }
                fn neg<T: NumericType + std::ops::Neg<Output = T>>(e: Expr) -> Expr {
                    Expr::Neg(bx(e))
                }
                fn ln<T: NumericType + Float>(e: Expr) -> Expr {
                    Expr::Ln(bx(e))
                }
                fn exp<T: NumericType + Float>(e: Expr) -> Expr {
                    Expr::Exp(bx(e))
                }
                fn sqrt<T: NumericType + Float>(e: Expr) -> Expr {
                    Expr::Sqrt(bx(e))
                }
                fn sin<T: NumericType + Float>(e: Expr) -> Expr {
                    Expr::Sin(bx(e))
                }
                fn cos<T: NumericType + Float>(e: Expr) -> Expr {
                    Expr::Cos(bx(e))
                }
            }
            impl ft::StatisticalExpr for Rec {}
        }
    };
}
tagless!(in_mj, mj);
tagless!(in_sm, sm);

fn limits() -> Limits {
    Limits { cpu_s: 60, mem_mb: 0, resource_ok: true, parallel: 8 }
}

fn finite(e: &Expr) -> bool {
    match e {
        Expr::Const(c) => c.is_finite(),
        Expr::Var(_) => true,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => finite(a) && finite(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => finite(a),
    }
}

// ------------------------------------------------ reference values of the helpers

/// A reference value with the magnitude that scales its rounding error.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: D,
    pub mag: f64,
}
fn vx(v: D) -> V {
    V { v, mag: v.h.abs() }
}

fn logistic(x: f64) -> D {
    if x < -740.0 {
        d(0.0)
    } else if x > 740.0 {
        d(1.0)
    } else {
        d(1.0) / (d(1.0) + d(-x).exp())
    }
}
fn softplus(x: f64) -> D {
    let a = x.abs();
    let t = if a > 700.0 {
        d(0.0)
    } else {
        let y = d(-a).exp();
        if y.h < 1e-20 { y } else { (d(1.0) + y).ln() }
    };
    if x > 0.0 { d(x) + t } else { t }
}

/// `got` within a few roundings of the reference.
fn near<T: Num>(want: V, got: &Result<T, String>, ulps: f64) -> Verdict {
    if !want.v.h.is_finite() || !want.mag.is_finite() || want.mag > T::max_value().w() * 1e-3 {
        return Verdict::Inconclusive;
    }
    match got {
        Err(t) => Verdict::Violated(format!("panicked: {t}, expected {:e}", want.v.f())),
        Ok(g) => {
            let err = (d(g.w()) - want.v).f().abs();
            let tol = ulps * T::epsilon().w() * want.mag + 16.0 * T::min_positive_value().w();
            if err <= tol { Verdict::Held } else { Verdict::Violated(format!("got {g:?}, expected {:e} (±{tol:.1e})", want.v.f())) }
        }
    }
}

/// A formula in text form, evaluated at one assignment.
fn text_value(t: &Result<String, String>, x: &Env) -> Option<Result<f64, String>> {
    match t {
        Err(p) => Some(Err(format!("panicked: {p}"))),
        Ok(t) => match read(t, Notation::Plain) {
            Err(er) => Some(Err(format!("{t:?} cannot be read: {er}"))),
            Ok(e) => value(&e, x),
        },
    }
}
fn value(e: &Expr, x: &Env) -> Option<Result<f64, String>> {
    match eval(e, x) {
        R::Val(v, _) => Some(Ok(v.f())),
        R::Err(b) => Some(Err(format!("undefined ({b:?}): {e}"))),
        R::Unknown => None,
    }
}
fn near_opt(want: V, got: Option<Result<f64, String>>, ulps: f64) -> Verdict {
    got.map_or(Verdict::Inconclusive, |g| near::<f64>(want, &g, ulps))
}

fn one(x: f64) -> Env {
    HashMap::from([("x".to_string(), x)])
}

fn wide(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.normal() * r.logu(-10.0, 300.0),
        1 => r.range(-800.0, 800.0),
        2 => r.range(-40.0, 40.0),
        3 => r.fin(),
        4 => *r.pick(&[0.0, -0.0, 709.0, 710.0, 720.0, -745.0, -750.0, 88.0, 89.0, 104.0, -104.0, 1e308, -1e308, 5e-324, 36.7, 37.5, -36.7]),
        _ => r.normal() * 5.0,
    }
}

// ------------------------------------------------ C20

const NAMES: [&str; 5] = ["x", "y", "theta", "z_1", "Q"];

fn vals<T: Num>(x: &Env) -> HashMap<String, T> {
    x.iter().map(|(k, v)| (k.clone(), T::of(*v))).collect()
}

pub fn c20(m: &mut Mon) {
    m.rule = "cases: random expressions built through the generic interface of both crates × interpreters (direct f64 and f32, the two specialised evaluators, printed text read back, compiled code) × assignments with special values; helpers over the whole argument range; distinct: by (interpreter, expression, assignment)".into();
    m.assumptions.push("direct and compiled values are compared with the floating-point operations the expression names, replayed 14 times with jitter; undecided when the replays disagree".into());
    let seed = m.rng.derive("c20");
    let n = m.n(320, 9000);
    batches(m, "process", limits(), n, |i, o| {
        let mut r = seed.derive(&format!("b{i}"));
        for _ in 0..24 {
            let nv = 1 + r.below(3);
            let mut names = NAMES.to_vec();
            r.shuffle(&mut names);
            names.truncate(nv);
            let depth = 1 + r.below(5);
            let e = if r.chance(0.15) { template(&mut r, &names) } else { gen_expr(&mut r, &names, depth) };
            one_expr(&mut r, o, &e, &names);
        }
        helpers(&mut r, o);
    });
    for c in ["mathjit", "symbolic"] {
        for t in ["f64", "f32"] {
            m.require(&format!("direct {c} {t}"), 10_000);
        }
        m.require(&format!("printed {c}"), 2000);
        m.require(&format!("helpers {c}"), 5000);
    }
    for k in ["direct ExpFamEval", "direct DistributionEval", "compiled"] {
        m.require(k, 5000);
    }
    m.require("symbolic builders", 3000);
    m.require("compiled helpers", 2000);
}

fn one_expr(r: &mut Rng, o: &mut Obs, e: &Expr, names: &[&str]) {
    let sh = shape(e);
    for k in 0..6 {
        let x: Env = names.iter().map(|n| ((*n).to_string(), if k % 3 == 2 { r.any() } else { val(r) })).collect();
        let case = || format!("{e:?} at {}", env_txt(&x));
        o.announce(&case());
        let kk = key(e, &x);
        let x64 = vals::<f64>(&x);
        let x32 = vals::<f32>(&x);
        macro_rules! direct {
            ($kind:literal, $b:ident, $E:ty, $T:ty, $vals:expr) => {
                let got = guard(|| $b::build::<$E, $T>(e, &|n| <$E>::var(n, $vals[n])));
                o.observe($kind, &sh, fnv(&[kk, hs($kind)]), true, case, judge_plain::<$T>(e, &$vals, &got, kk));
            };
        }
        direct!("direct mathjit f64", in_mj, mj::DirectEval, f64, x64);
        {
            use mathjit::expr::Expr as Wrapped;
            let got = guard(|| Wrapped::<mj::DirectEval, f64>::new(in_mj::build::<mj::DirectEval, f64>(e, &|n| Wrapped::<mj::DirectEval, f64>::constant(x64[n]).into_repr())).into_repr());
            o.observe("direct mathjit wrapped", &sh, fnv(&[kk, 77]), true, case, judge_plain::<f64>(e, &x64, &got, kk));
        }
        direct!("direct mathjit f32", in_mj, mj::DirectEval, f32, x32);
        direct!("direct symbolic f64", in_sm, sm::DirectEval, f64, x64);
        direct!("direct symbolic f32", in_sm, sm::DirectEval, f32, x32);
        direct!("direct ExpFamEval", in_sm, eft::ExpFamEval, f64, x64);
        direct!("direct DistributionEval", in_sm, dft::DistributionEval, f64, x64);
    }
    if finite(e) {
        let envs: Vec<Env> = (0..6).map(|_| env(r, names)).collect();
        let case = || format!("{e:?}");
        let kk = hs(&case());
        let t = guard(|| in_mj::build::<mj::PrettyPrint, f64>(e, &|n| if n.len() % 2 == 0 { mathjit::expr::Expr::<mj::PrettyPrint, f64>::var(n).as_repr().clone() } else { <mj::PrettyPrint as mj::MathExpr>::var::<f64>(n) }));
        o.observe("printed mathjit", &sh, kk, true, case, judge_text(e, &t, Notation::Plain, &envs));
        let t = guard(|| in_sm::build::<sm::PrettyPrint, f64>(e, &|n| if n.len() % 2 == 0 { sm::PrettyPrint::var(n) } else { <sm::PrettyPrint as sm::MathExpr>::var::<f64>(n) }));
        o.observe("printed symbolic", &sh, kk, true, case, judge_text(e, &t, Notation::Plain, &envs));
    }
    let dv: Vec<String> = names.iter().map(|n| (*n).to_string()).collect();
    let case = || format!("{e:?} compiled for {dv:?}");
    o.announce(&case());
    let f = guard(|| {
        let j: JITRepr = in_sm::build::<JITEval, f64>(e, &|n| if n.len() % 2 == 0 { JITEval::var(n) } else { <JITEval as sm::MathExpr>::var::<f64>(n) });
        JITEval::compile_with_signature(j, &dv, &[])
    });
    // The automatically detected signature takes one argument per variable; with the same
    // value for all of them their order does not matter.
    let mut used = Vec::new();
    crate::sym::vars_of(e, &mut used);
    if !used.is_empty() {
        let auto = guard(|| JITEval::compile(in_sm::build::<JITEval, f64>(e, &|n| JITEval::var(n))));
        for _ in 0..2 {
            let v = val(r);
            let x: Env = names.iter().map(|n| ((*n).to_string(), v)).collect();
            let case = || format!("{e:?} compiled with automatic signature, all variables {v}");
            o.announce(&case());
            let kk = key(e, &x);
            let verdict = match &auto {
                Ok(Ok(f)) => {
                    let got = guard(|| if used.len() == 1 { f.call_single(v) } else { f.call_batch(&vec![v; used.len()], &[]) });
                    judge_plain(e, &x, &got, kk)
                }
                Ok(Err(er)) => Verdict::Violated(format!("{er:?}")),
                Err(t) => Verdict::Violated(t.clone()),
            };
            o.observe("compiled automatically", &sh, kk, true, case, verdict);
        }
    }
    match f {
        Ok(Ok(f)) => {
            for k in 0..6 {
                let x: Env = names.iter().map(|n| ((*n).to_string(), if k % 3 == 2 { r.any() } else { val(r) })).collect();
                let a: Vec<f64> = dv.iter().map(|n| x[n]).collect();
                let case = || format!("{e:?} compiled, at {}", env_txt(&x));
                o.announce(&case());
                let got = guard(|| if a.len() == 1 { f.call_single(a[0]) } else { f.call_batch(&a, &[]) });
                let kk = key(e, &x);
                o.observe("compiled", &sh, kk, true, case, judge_plain(e, &x, &got, kk));
            }
        }
        g => {
            let t = match g {
                Ok(Err(er)) => format!("{er:?}"),
                Err(t) => t,
                Ok(Ok(_)) => String::new(),
            };
            o.observe("compiled", &sh, hs(&case()), true, case, Verdict::Violated(t));
        }
    }
}

fn helpers(r: &mut Rng, o: &mut Obs) {
    use mj::StatisticalExpr as M;
    use sm::StatisticalExpr as S;
    type J = JITEval;
    let compiled = guard(|| -> Result<_, symbolic_math::JITError> {
        let v = || JITEval::var("x");
        Ok([
            J::compile_single_var(<J as S>::logistic::<f64>(v()), "x")?,
            J::compile_single_var(<J as S>::softplus::<f64>(v()), "x")?,
            J::compile_single_var(<J as S>::sigmoid::<f64>(v()), "x")?,
            J::compile_single_var(<J as S>::softplus::<f64>(<J as sm::MathExpr>::neg::<f64>(v())), "x")?,
            J::compile_single_var(<J as eft::ExponentialFamilyExpr>::logistic::<f64>(v()), "x")?,
            J::compile_single_var(<J as eft::ExponentialFamilyExpr>::softplus::<f64>(v()), "x")?,
        ])
    });
    let compiled = match compiled {
        Ok(Ok(c)) => Some(c),
        g => {
            let t = match g {
                Ok(Err(er)) => format!("{er:?}"),
                Err(t) => t,
                Ok(Ok(_)) => String::new(),
            };
            o.observe("compiled helpers", "compile", 1, true, || "logistic, softplus, sigmoid".into(), Verdict::Violated(t));
            None
        }
    };
    for _ in 0..30 {
        let x = wide(r);
        let x32 = x as f32;
        // Relative for the logistic (its tails are small), absolute for the softplus, whose
        // defining formula already loses the left tail.
        // exp(-x) carries the relative rounding error of its argument.
        let lw = |x: f64| {
            let v = logistic(x);
            V { v, mag: v.h * (1.0 + x.abs().min(750.0)) }
        };
        let sw = |x: f64| V { v: softplus(x), mag: 1.0 + x.max(0.0) };
        let (l, s) = (lw(x), sw(x));
        let case = |n: &str| format!("{n}({x:?})");
        macro_rules! chk {
            ($kind:expr, $name:expr, $w:expr, $got:expr) => {
                let got = guard(|| $got);
                o.observe($kind, $name, fnv(&[x.to_bits(), hs($name)]), true, || case($name), near($w, &got, 8.0));
            };
        }
        chk!("helpers mathjit", "logistic", l, <mj::DirectEval as M>::logistic::<f64>(x));
        chk!("helpers mathjit", "sigmoid", l, <mj::DirectEval as M>::sigmoid::<f64>(x));
        chk!("helpers mathjit", "softplus", s, <mj::DirectEval as M>::softplus::<f64>(x));
        chk!("helpers symbolic", "logistic", l, <sm::DirectEval as S>::logistic::<f64>(x));
        chk!("helpers symbolic", "sigmoid", l, <sm::DirectEval as S>::sigmoid::<f64>(x));
        chk!("helpers symbolic", "softplus", s, <sm::DirectEval as S>::softplus::<f64>(x));
        if x32.is_finite() {
            let (l, s) = (lw(f64::from(x32)), sw(f64::from(x32)));
            chk!("helpers mathjit", "logistic f32", l, <mj::DirectEval as M>::logistic::<f32>(x32));
            chk!("helpers mathjit", "sigmoid f32", l, <mj::DirectEval as M>::sigmoid::<f32>(x32));
            chk!("helpers mathjit", "softplus f32", s, <mj::DirectEval as M>::softplus::<f32>(x32));
            chk!("helpers symbolic", "logistic f32", l, <sm::DirectEval as S>::logistic::<f32>(x32));
            chk!("helpers symbolic", "sigmoid f32", l, <sm::DirectEval as S>::sigmoid::<f32>(x32));
            chk!("helpers symbolic", "softplus f32", s, <sm::DirectEval as S>::softplus::<f32>(x32));
        }
        if let Some(c) = &compiled {
            o.announce(&case("compiled helper"));
            chk!("compiled helpers", "logistic", l, c[0].call_single(x));
            chk!("compiled helpers", "softplus", s, c[1].call_single(x));
            chk!("compiled helpers", "sigmoid", l, c[2].call_single(x));
            chk!("compiled helpers", "softplus(-x)", sw(-x), c[3].call_single(x));
            chk!("compiled helpers", "exponential-family logistic", l, c[4].call_single(x));
            chk!("compiled helpers", "exponential-family softplus", s, c[5].call_single(x));
        }
        let ev = one(x);
        let interp = |e: Expr| move || e.evaluate(&one(x)).map_err(|er| format!("{er:?}"));
        for (n, w, e) in [("logistic", l, symbolic_math::builders::logistic(Expr::variable("x"))), ("softplus", s, symbolic_math::builders::softplus(Expr::variable("x")))] {
            let got = guard(interp(e)).and_then(|g| g);
            o.observe("symbolic builders", n, fnv(&[x.to_bits(), hs(n)]), true, || case(n), near(w, &got, 8.0));
        }
        if x.abs() < 30.0 {
            for (c, n, w, t) in [
                ("mathjit", "logistic", l, guard(|| <mj::PrettyPrint as M>::logistic::<f64>("x".into()))),
                ("mathjit", "sigmoid", l, guard(|| <mj::PrettyPrint as M>::sigmoid::<f64>("x".into()))),
                ("mathjit", "softplus", s, guard(|| <mj::PrettyPrint as M>::softplus::<f64>("x".into()))),
                ("symbolic", "logistic", l, guard(|| <sm::PrettyPrint as S>::logistic::<f64>("x".into()))),
                ("symbolic", "sigmoid", l, guard(|| <sm::PrettyPrint as S>::sigmoid::<f64>("x".into()))),
                ("symbolic", "softplus", s, guard(|| <sm::PrettyPrint as S>::softplus::<f64>("x".into()))),
            ] {
                o.observe(&format!("printed helpers {c}"), n, fnv(&[x.to_bits(), hs(n)]), true, || format!("{} printed {t:?}", case(n)), near_opt(w, text_value(&t, &ev), 8.0));
            }
            // A user-made interpreter gets the default definitions.
            for (n, w, e) in [
                ("logistic", l, guard(|| <Rec as M>::logistic::<f64>(Expr::variable("x")))),
                ("softplus", s, guard(|| <Rec as S>::softplus::<f64>(Expr::variable("x")))),
                ("sigmoid", l, guard(|| <Rec as S>::sigmoid::<f64>(Expr::variable("x")))),
            ] {
                let got = match &e {
                    Ok(e) => value(e, &ev),
                    Err(t) => Some(Err(t.clone())),
                };
                o.observe("recorded helpers", n, fnv(&[x.to_bits(), hs(n)]), true, || case(n), near_opt(w, got, 8.0));
            }
        }
        builders(r, o);
    }
}

/// The symbolic builders of densities and kernels.
fn builders(r: &mut Rng, o: &mut Obs) {
    use symbolic_math::{builders as b, expr::builders as eb};
    let (x, mu) = (r.normal() * r.logu(-3.0, 3.0), r.loc());
    let s = r.logu(-3.0, 3.0);
    let z = (d(x) - d(mu)) / d(s);
    let q = z * z / d(2.0);
    let ln_s = d(s).ln();
    let normal = V { v: -HALF_LN_2PI - ln_s - q, mag: 1.0 + ln_s.h.abs() + q.h };
    let kern = if q.h < 640.0 { (-q).exp() } else { d((-q.h).exp()) };
    let vars = r.chance(0.5);
    let (xe, me, se): (Expr, Expr, Expr) = if vars {
        (Expr::variable("x"), Expr::variable("mu"), Expr::variable("s"))
    } else {
        (Expr::variable("x"), Expr::constant(mu), Expr::constant(s))
    };
    let x_: Env = HashMap::from([("x".to_string(), x), ("mu".to_string(), mu), ("s".to_string(), s)]);
    let cs = [
        ("normal_log_pdf", normal, guard(|| b::normal_log_pdf(xe.clone(), me.clone(), se.clone()))),
        ("gaussian_kernel", V { v: kern, mag: kern.h * (1.0 + q.h) }, guard(|| b::gaussian_kernel(xe, me, se))),
        ("quadratic_term", vx(-q), guard(|| eb::quadratic_term("x", mu, s))),
        ("linear_term", vx(d(mu) * d(x)), guard(|| eb::linear_term("x", mu))),
        ("log_normal_constant", V { v: -HALF_LN_2PI - ln_s, mag: 1.0 + ln_s.h.abs() }, guard(|| eb::log_normal_constant(s))),
    ];
    for (n, w, e) in cs {
        let got = e.and_then(|e| guard(|| e.evaluate(&x_).map_err(|er| format!("{er:?}"))).and_then(|g| g));
        o.observe("symbolic builders", n, fnv(&[x.to_bits(), mu.to_bits(), s.to_bits(), hs(n)]), true, || format!("{n} at {}", env_txt(&x_)), near(w, &got, 32.0));
    }
}

// ------------------------------------------------ C23

fn coeffs<T: Num>(r: &mut Rng) -> Vec<T> {
    let most = if r.chance(0.05) { 700 } else { 48 };
    let n = r.len(10, most);
    (0..n)
        .map(|_| {
            T::of(match r.below(5) {
                0 => 0.0,
                1 => r.int(-5, 5) as f64,
                2 => r.normal() * r.logu(-4.0, 4.0),
                _ => r.normal() * 3.0,
            })
        })
        .collect()
}

/// Value of Σ cᵢ xⁱ and of Σ |cᵢ||x|ⁱ.
fn poly(c: &[f64], x: f64) -> V {
    let (mut v, mut m) = (d(0.0), 0.0);
    for k in c.iter().rev() {
        v = v * d(x) + d(*k);
        m = m * x.abs() + k.abs();
    }
    V { v, mag: m * (2.0 * c.len() as f64 + 2.0) }
}
fn deriv(c: &[f64], x: f64) -> V {
    let (mut v, mut m) = (d(0.0), 0.0);
    for (i, k) in c.iter().enumerate().skip(1).rev() {
        let k = d(*k) * d(i as f64);
        v = v * d(x) + k;
        m = m * x.abs() + k.h.abs();
    }
    V { v, mag: m * (2.0 * c.len() as f64 + 4.0) }
}
fn roots(c: &[f64], x: f64) -> V {
    let (mut v, mut m, mut top) = (d(1.0), 1.0, 1.0);
    for k in c {
        let f = d(x) - d(*k);
        v = v * f;
        m *= f.h.abs();
        top *= f.h.abs().max(1.0);
    }
    // Beyond the f32 range a partial product may overflow, whatever the order.
    V { v, mag: if top < 1e34 { m * (2.0 * c.len() as f64 + 2.0) } else { f64::INFINITY } }
}

fn reals<T: Num>(m: &mut Mon, r: &mut Rng) {
    use mj::polynomial as p;
    type E = mj::DirectEval;
    let c: Vec<T> = coeffs(r);
    let w: Vec<f64> = c.iter().map(|v| v.w()).collect();
    let x = T::of(match r.below(6) {
        0 => *r.pick(&[0.0, 1.0, -1.0, 2.0, -0.5]),
        1 if !w.is_empty() => *r.pick(&w),
        _ if w.len() > 48 => (1.0 + r.normal() * 0.01) * if r.chance(0.3) { -1.0 } else { 1.0 },
        _ => r.normal() * r.logu(-1.5, 1.0),
    });
    let t = T::NAME;
    let sig = format!("degree {}", c.len().min(6));
    let kk = fnv(&w.iter().map(|v| v.to_bits()).chain([x.w().to_bits(), hs(t)]).collect::<Vec<_>>());
    let case = || format!("{c:?} at {x:?}");
    let xw = x.w();
    let (pv, dv, rv) = (poly(&w, xw), deriv(&w, xw), roots(&w, xw));
    macro_rules! chk {
        ($k:expr, $want:expr, $got:expr) => {
            let got = guard(|| $got);
            m.observe(&format!("{} {t}", $k), &sig, kk, c.len() > 1, case, near::<T>($want, &got, 1.0));
        };
    }
    chk!("horner", pv, p::horner::<E, T>(&c, E::var("x", x)));
    chk!("horner_expr", pv, p::horner_expr::<E, T>(&c, E::var("x", x)));
    chk!("from_roots", rv, p::from_roots::<E, T>(&c, E::var("x", x)));
    chk!("horner_derivative", dv, p::horner_derivative::<E, T>(&c, E::var("x", x)));
    if t == "f64" {
        // Printed and recorded forms denote the same polynomial.
        let ev = one(xw);
        let printed = [
            ("horner", pv, guard(|| p::horner::<mj::PrettyPrint, f64>(&w, "x".into()))),
            ("horner_expr", pv, guard(|| p::horner_expr::<mj::PrettyPrint, f64>(&w.iter().map(|c| <mj::PrettyPrint as mj::MathExpr>::constant(*c)).collect::<Vec<_>>(), "x".into()))),
            ("from_roots", rv, guard(|| p::from_roots::<mj::PrettyPrint, f64>(&w, "x".into()))),
            ("horner_derivative", dv, guard(|| p::horner_derivative::<mj::PrettyPrint, f64>(&w, "x".into()))),
        ];
        for (n, want, txt) in printed {
            m.observe(&format!("{n} printed"), &sig, kk, c.len() > 1, || format!("{c:?} at {x:?}, printed {txt:?}"), near_opt(want, text_value(&txt, &ev), 1.0));
        }
        let xe = || Expr::variable("x");
        let rec = [
            ("horner", pv, guard(|| p::horner::<Rec, f64>(&w, xe()))),
            ("horner_expr", pv, guard(|| p::horner_expr::<Rec, f64>(&w.iter().map(|c| Expr::constant(*c)).collect::<Vec<_>>(), xe()))),
            ("from_roots", rv, guard(|| p::from_roots::<Rec, f64>(&w, xe()))),
            ("horner_derivative", dv, guard(|| p::horner_derivative::<Rec, f64>(&w, xe()))),
        ];
        for (n, want, e) in rec {
            let got = match &e {
                Ok(e) => value(e, &ev),
                Err(t) => Some(Err(t.clone())),
            };
            m.observe(&format!("{n} recorded"), &sig, kk, c.len() > 1, case, near_opt(want, got, 1.0));
        }
        let got = guard(|| symbolic_math::builders::polynomial(xe(), &w).evaluate(&ev).map_err(|er| format!("{er:?}"))).and_then(|g| g);
        m.observe("builders::polynomial", &sig, kk, c.len() > 1, case, near(V { mag: pv.mag * 4.0, ..pv }, &got, 1.0));
    }
}

/// Exact arithmetic: integers.
fn ints(m: &mut Mon, r: &mut Rng) {
    use mj::polynomial as p;
    type E = mj::DirectEval;
    let most = if r.chance(0.1) { 700 } else { 8 };
    let n = r.len(8, most);
    let c: Vec<i64> = (0..n).map(|_| r.int(-9, 9)).collect();
    let x = if n > 8 { r.int(-1, 1) } else { r.int(-12, 12) };
    let sig = format!("degree {}", n.min(6));
    let kk = fnv(&c.iter().map(|v| *v as u64).chain([x as u64, n as u64]).collect::<Vec<_>>());
    let case = || format!("{c:?} at {x}");
    let pv: i64 = c.iter().rev().fold(0, |a, k| a * x + k);
    let dv: i64 = c.iter().enumerate().skip(1).rev().fold(0, |a, (i, k)| a * x + k * i as i64);
    // The product of long lists of roots does not fit; those are judged in floating point.
    let rv: Option<i64> = c.iter().try_fold(1i64, |a, k| a.checked_mul((x - k).abs().max(1))).map(|_| c.iter().map(|k| x - k).product());
    macro_rules! chk {
        ($k:expr, $want:expr, $got:expr) => {
            let v = match guard(|| $got) {
                Ok(g) if g == $want => Verdict::Held,
                g => Verdict::Violated(format!("got {g:?}, expected {}", $want)),
            };
            m.observe(&format!("{} i64", $k), &sig, kk, n > 1, case, v);
        };
    }
    chk!("horner", pv, p::horner::<E, i64>(&c, x));
    chk!("horner_expr", pv, p::horner_expr::<E, i64>(&c, x));
    if let Some(rv) = rv {
        chk!("from_roots", rv, p::from_roots::<E, i64>(&c, x));
    }
    chk!("horner_derivative", dv, p::horner_derivative::<E, i64>(&c, x));
    // i32 and f64 holding the same integers agree exactly as well.
    let c32: Vec<i32> = c.iter().map(|v| *v as i32).collect();
    if let (Ok(pv), Some(Ok(rv))) = (i32::try_from(pv), rv.map(i32::try_from)) {
        let small = c.iter().fold(0f64, |a, k| a * (x.abs() as f64) + k.abs() as f64) < 2e9;
        if small {
            chk!("horner i32 as", pv, p::horner::<E, i32>(&c32, x as i32));
        }
        if c.iter().map(|k| ((x - k).abs() + 1) as f64).product::<f64>() < 2e9 {
            chk!("from_roots i32 as", rv, p::from_roots::<E, i32>(&c32, x as i32));
        }
    }
}

pub fn c23(m: &mut Mon) {
    m.rule = "cases: coefficient or root lists of length 0..48 × points (also points that are roots) × number type (f64, f32, i64, i32) × interpretation (direct, printed and read back, recorded); distinct: by (list, point, type)".into();
    m.assumptions.push("integers are small enough not to overflow; floating-point tolerance is the running error bound of Horner's rule".into());
    let mut r = m.rng.derive("c23");
    let n = m.n(30_000, 800_000);
    for i in 0..n {
        match i % 3 {
            0 => reals::<f64>(m, &mut r),
            1 => reals::<f32>(m, &mut r),
            _ => ints(m, &mut r),
        }
        if m.spent() {
            break;
        }
    }
    for k in ["horner", "horner_expr", "from_roots", "horner_derivative"] {
        for t in ["f64", "f32", "i64", "recorded"] {
            m.require(&format!("{k} {t}"), 2000);
        }
        m.require(&format!("{k} printed"), 1000);
    }
    m.require("builders::polynomial", 2000);
}

// ------------------------------------------------ C27

/// Reference log-density with the magnitude of the terms of its defining formula.
fn terms(ts: &[D]) -> V {
    let mut v = d(0.0);
    let mut mag = 0.0;
    for t in ts {
        v = v + *t;
        mag += t.h.abs();
    }
    V { v, mag: mag + 1.0 }
}
fn lg(x: D) -> D {
    x.lgamma()
}
/// The magnitude of the terms a log-gamma evaluation goes through.
fn lg_mag(x: f64) -> f64 {
    let z = x + 8.0;
    2.0 * z * (z.ln().abs() + 1.0) + 8.0 * x.ln().abs() + 20.0
}

struct Pat {
    name: &'static str,
    vars: &'static [&'static str],
    args: Vec<f64>,
    want: V,
}

fn draw_pattern(r: &mut Rng, k: usize) -> Pat {
    let pos = |r: &mut Rng| match r.below(10) {
        0 | 1 => *r.pick(&[0.5, 1.0, 2.0, 3.0, 12.0, 12.5, 100.0, 170.0, 171.0, 172.0, 1000.0]),
        2 | 3 => r.logu(-8.0, 8.0),
        _ => r.logu(-2.0, 2.5),
    };
    let wide = |r: &mut Rng| if r.chance(0.2) { r.logu(-40.0, 40.0) } else { r.logu(-2.0, 2.0) };
    let ln = |x: f64| d(x).ln();
    let normal = |x: f64, mu: f64, s: f64| {
        let z = (d(x) - d(mu)) / d(s);
        terms(&[-HALF_LN_2PI, -ln(s), -(z * z / d(2.0)), d(0.0)])
    };
    match k {
        0 | 1 => {
            let (s, mu) = (wide(r), if r.chance(0.5) { 0.0 } else { r.loc() });
            let x = if r.chance(0.5) { mu + s * r.normal() } else { r.normal() * r.logu(-1.0, 2.0) };
            let w = normal(x, mu, s);
            Pat { name: "normal", vars: &["x", "mu", "sigma"], args: vec![x, mu, s], want: w }
        }
        2 => {
            let x = r.normal() * r.logu(-1.0, 2.0);
            Pat { name: "standard_normal", vars: &["x"], args: vec![x], want: normal(x, 0.0, 1.0) }
        }
        3 => {
            let (x, l) = (if r.chance(0.1) { 0.0 } else { pos(r) }, pos(r));
            Pat { name: "exponential", vars: &["x", "lambda"], args: vec![x, l], want: terms(&[ln(l), -(d(l) * d(x))]) }
        }
        4 => {
            let (x, a, b) = (pos(r), pos(r), pos(r));
            let mut w = terms(&[d(a) * ln(b), -lg(d(a)), (d(a) - d(1.0)) * ln(x), -(d(b) * d(x))]);
            w.mag += lg_mag(a);
            Pat { name: "gamma", vars: &["x", "shape", "rate"], args: vec![x, a, b], want: w }
        }
        5 => {
            let (a, b) = (pos(r), pos(r));
            let x = r.prob().clamp(1e-9, 1.0 - 1e-9);
            let l1 = (d(1.0) - d(x)).ln();
            let mut w = terms(&[(d(a) - d(1.0)) * ln(x), (d(b) - d(1.0)) * l1, lg(d(a) + d(b)), -lg(d(a)), -lg(d(b))]);
            // 1 - x is rounded before its logarithm is taken.
            w.mag += lg_mag(a) + lg_mag(b) + lg_mag(a + b) + (b - 1.0).abs() / (1.0 - x);
            Pat { name: "beta", vars: &["x", "alpha", "beta"], args: vec![x, a, b], want: w }
        }
        6 => {
            let (x, l, s) = (r.normal() * r.logu(-2.0, 6.0), r.loc(), wide(r));
            let z = (d(x) - d(l)) / d(s);
            let w = terms(&[-PI.ln(), -ln(s), -(d(1.0) + z * z).ln()]);
            Pat { name: "cauchy", vars: &["x", "loc", "scale"], args: vec![x, l, s], want: w }
        }
        7 => {
            let (x, nu) = (r.normal() * r.logu(-2.0, 4.0), pos(r));
            let h = (d(nu) + d(1.0)) / d(2.0);
            let u = (d(1.0) + d(x) * d(x) / d(nu)).ln();
            let mut w = terms(&[lg(h), -lg(d(nu) / d(2.0)), -((d(nu) * PI).ln() / d(2.0)), -(h * u)]);
            w.mag += lg_mag(h.f()) + lg_mag(nu / 2.0) + h.h;
            Pat { name: "student_t", vars: &["x", "nu"], args: vec![x, nu], want: w }
        }
        _ => {
            let mx = if r.chance(0.5) { 30 } else { 100_000 };
            let x = r.count(mx) as f64;
            let l = if r.chance(0.5) { pos(r) } else { (x + 0.5) * r.range(0.5, 2.0) };
            let mut w = terms(&[d(x) * ln(l), -d(l), -lg(d(x) + d(1.0))]);
            w.mag += lg_mag(x + 1.0);
            Pat { name: "poisson", vars: &["x", "lambda"], args: vec![x, l], want: w }
        }
    }
}

/// Apply the pattern of the given name in interpreter `E`.
fn dist_pattern<E: dft::DistributionExpr>(name: &str, a: &[E::Repr<f64>]) -> Option<E::Repr<f64>>
where
    E::Repr<f64>: Clone,
{
    use dft::patterns as p;
    let g = |i: usize| a[i].clone();
    Some(match name {
        "normal" => p::normal_log_density::<E>(g(0), g(1), g(2)),
        "standard_normal" => p::standard_normal_log_density::<E>(g(0)),
        "exponential" => p::exponential_log_density::<E>(g(0), g(1)),
        "gamma" => p::gamma_log_density::<E>(g(0), g(1), g(2)),
        "beta" => p::beta_log_density::<E>(g(0), g(1), g(2)),
        "cauchy" => p::cauchy_log_density::<E>(g(0), g(1), g(2)),
        "student_t" => p::student_t_log_density::<E>(g(0), g(1)),
        _ => return None,
    })
}
fn expfam_pattern<E: eft::ExponentialFamilyExpr>(name: &str, a: &[E::Repr<f64>]) -> Option<E::Repr<f64>>
where
    E::Repr<f64>: Clone,
{
    use eft::patterns as p;
    let g = |i: usize| a[i].clone();
    Some(match name {
        "normal" => p::normal_log_density::<E>(g(0), g(1), g(2)),
        "standard_normal" => p::standard_normal_log_density::<E>(g(0)),
        "exponential" => p::exponential_log_density::<E>(g(0), g(1)),
        "poisson" => p::poisson_log_density::<E>(g(0), g(1)),
        _ => return None,
    })
}
fn either<E: eft::ExponentialFamilyExpr + dft::DistributionExpr>(fam: bool, name: &str, a: &[E::Repr<f64>]) -> Option<E::Repr<f64>>
where
    E::Repr<f64>: Clone,
{
    if fam { expfam_pattern::<E>(name, a) } else { dist_pattern::<E>(name, a) }
}

const ULPS: f64 = 24.0;

fn pattern(r: &mut Rng, o: &mut Obs, k: usize) {
    let p = draw_pattern(r, k);
    let ev: Env = p.vars.iter().map(|s| (*s).to_string()).zip(p.args.iter().copied()).collect();
    let kk = fnv(&p.args.iter().map(|v| v.to_bits()).chain([hs(p.name)]).collect::<Vec<_>>());
    for fam in [false, true] {
        let from = if fam { "exponential-family" } else { "distribution" };
        if either::<Rec>(fam, p.name, &vec![Expr::constant(1.0); 3]).is_none() {
            continue;
        }
        let case = |i: &str| format!("{from} {} in {i} at {}", p.name, env_txt(&ev));
        let sig = format!("{from} {}", p.name);
        o.announce(&case(""));
        macro_rules! direct {
            ($E:ty, $n:expr) => {
                let got = guard(|| either::<$E>(fam, p.name, &p.args)).map(|v| v.unwrap_or(f64::NAN));
                o.observe(&format!("{sig} direct"), $n, fnv(&[kk, hs($n)]), true, || case($n), near(p.want, &got, ULPS));
            };
        }
        direct!(sm::DirectEval, "DirectEval");
        direct!(eft::ExpFamEval, "ExpFamEval");
        direct!(dft::DistributionEval, "DistributionEval");
        let names: Vec<Expr> = p.vars.iter().map(|v| Expr::variable(*v)).collect();
        let got = match guard(|| either::<Rec>(fam, p.name, &names)) {
            Ok(e) => e.and_then(|e| value(&e, &ev)),
            Err(t) => Some(Err(t)),
        };
        o.observe(&format!("{sig} recorded"), "Rec", kk, true, || case("a recording interpreter"), near_opt(p.want, got, ULPS));
        let names: Vec<String> = p.vars.iter().map(|v| (*v).to_string()).collect();
        let txt = guard(|| either::<sm::PrettyPrint>(fam, p.name, &names).unwrap_or_default());
        o.observe(&format!("{sig} printed"), "PrettyPrint", kk, true, || format!("{} as {txt:?}", case("PrettyPrint")), near_opt(p.want, text_value(&txt, &ev), ULPS));
        // Compiled with the first variable as data; a handful of calls for each compilation.
        let f = guard(|| {
            let vs: Vec<JITRepr> = names.iter().map(|n| JITEval::var(n)).collect();
            JITEval::compile_data_params(either::<JITEval>(fam, p.name, &vs).expect("pattern"), &names[0], &names[1..])
        });
        match f {
            Ok(Ok(f)) => {
                for j in 0..4 {
                    let q = if j == 0 { Pat { args: p.args.clone(), ..p } } else { draw_pattern(r, k) };
                    let ev: Env = q.vars.iter().map(|s| (*s).to_string()).zip(q.args.iter().copied()).collect();
                    let case = || format!("{from} {} compiled at {}", q.name, env_txt(&ev));
                    o.announce(&case());
                    let got = guard(|| crate::jit::call(&f, &q.args[..1], &q.args[1..]));
                    o.observe(&format!("{sig} compiled"), "JITEval", hs(&case()), true, case, near(q.want, &got, ULPS));
                }
            }
            g => {
                let t = match g {
                    Ok(Err(er)) => format!("{er:?}"),
                    Err(t) => t,
                    Ok(Ok(_)) => String::new(),
                };
                o.observe(&format!("{sig} compiled"), "compile", kk, true, || case("JITEval"), Verdict::Violated(t));
            }
        }
    }
    // The evaluator's own functions, also outside the support.
    use dft::DistributionEval as DE;
    let a = &p.args;
    let got = match p.name {
        "normal" => Some(guard(|| DE::normal_log_density(a[0], a[1], a[2]))),
        "exponential" => Some(guard(|| DE::exponential_log_density(a[0], a[1]))),
        "gamma" => Some(guard(|| DE::gamma_log_density(a[0], a[1], a[2]))),
        _ => None,
    };
    if let Some(got) = got {
        o.observe(&format!("DistributionEval::{}", p.name), p.name, kk, true, || format!("{} at {}", p.name, env_txt(&ev)), near(p.want, &got, ULPS));
    }
    let off = -r.logu(-300.0, 3.0);
    for (n, got) in [("exponential", guard(|| DE::exponential_log_density(off, 1.5))), ("gamma", guard(|| DE::gamma_log_density(off, 2.5, 1.5)))] {
        let v = match got {
            Ok(g) if g == f64::NEG_INFINITY => Verdict::Held,
            g => Verdict::Violated(format!("got {g:?}, expected -inf")),
        };
        o.observe("off support", n, fnv(&[off.to_bits(), hs(n)]), true, || format!("{n} at {off:?}"), v);
    }
}

fn vecs(r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| if r.chance(0.15) { 0.0 } else { r.normal() * r.logu(-3.0, 3.0) }).collect()
}
fn dot(a: &[f64], b: &[f64]) -> V {
    let t: Vec<D> = a.iter().zip(b).map(|(a, b)| d(*a) * d(*b)).collect();
    let mut v = terms(&t);
    v.mag = (v.mag - 1.0) * (a.len() as f64 + 1.0);
    v
}

/// Exponential-family assembly in one interpreter.
fn assembly<E: eft::ExponentialFamilyExpr>(p: &[E::Repr<f64>], s: &[E::Repr<f64>], lp: E::Repr<f64>, n: E::Repr<f64>, lb: E::Repr<f64>) -> [E::Repr<f64>; 3]
where
    E::Repr<f64>: Clone,
{
    [E::dot_product::<f64>(p, s), E::exp_fam_log_density::<f64>(p, s, lp.clone(), lb.clone()), E::iid_exp_fam_log_density::<f64>(p, s, lp, n, lb)]
}

fn numeric(r: &mut Rng, o: &mut Obs) {
    use dft::DistributionMathExpr as DM;
    use eft::ExponentialFamilyExpr as EF;
    // Log-gamma, gamma and beta functions.
    for _ in 0..6 {
        let x = match r.below(5) {
            0 => *r.pick(&[0.5, 1.0, 2.0, 3.0, 11.999, 12.0, 12.001, 12.5, 13.0, 100.0, 171.0]),
            1 => r.logu(-8.0, 10.0),
            2 => 1.0 + f64::from(r.count(1000) as u32),
            _ => r.logu(-1.0, 3.0),
        };
        let v = lg(d(x));
        let kk = x.to_bits();
        let case = || format!("at {x:?}");
        // Relative to ln Γ, with the cancellation near its roots at 1 and 2.
        let w = V { v, mag: v.h.abs() + 1.0 + x.ln().abs() };
        let got = guard(|| dft::DistributionEval::log_gamma(x));
        o.observe("DistributionEval::log_gamma", "log_gamma", kk, true, case, near(w, &got, 40.0));
        let w = V { v, mag: lg_mag(x) };
        macro_rules! lgm {
            ($E:ty, $n:expr) => {
                let got = guard(|| <$E as DM>::log_gamma_function::<f64>(x));
                o.observe("log_gamma_function", $n, fnv(&[kk, hs($n)]), true, case, near(w, &got, 8.0));
                if x < 160.0 {
                    let g = v.exp();
                    let got = guard(|| <$E as DM>::gamma_function::<f64>(x));
                    o.observe("gamma_function", $n, fnv(&[kk, hs($n)]), true, case, near(V { v: g, mag: g.h * w.mag }, &got, 8.0));
                }
            };
        }
        lgm!(sm::DirectEval, "DirectEval");
        lgm!(dft::DistributionEval, "DistributionEval");
        let (a, b) = (r.logu(-1.0, 2.0), r.logu(-1.0, 2.0));
        let v = lg(d(a)) + lg(d(b)) - lg(d(a) + d(b));
        let mag = lg_mag(a) + lg_mag(b) + lg_mag(a + b);
        let kk = fnv(&[a.to_bits(), b.to_bits()]);
        let got = guard(|| <sm::DirectEval as DM>::log_beta::<f64>(a, b));
        o.observe("log_beta", "DirectEval", kk, true, || format!("at ({a:?}, {b:?})"), near(V { v, mag }, &got, 8.0));
        let e = v.exp();
        let got = guard(|| <sm::DirectEval as DM>::beta_function::<f64>(a, b));
        o.observe("beta_function", "DirectEval", kk, true, || format!("at ({a:?}, {b:?})"), near(V { v: e, mag: e.h * mag }, &got, 8.0));
    }
    // Log-sum-exp.
    for _ in 0..6 {
        let n = r.below(9);
        let far = r.chance(0.4);
        let base = if far { r.normal() * r.logu(2.0, 5.0) } else { 0.0 };
        let xs: Vec<f64> = (0..n).map(|_| base + r.normal() * r.logu(-1.0, 2.3)).collect();
        let kk = fnv(&xs.iter().map(|v| v.to_bits()).chain([n as u64]).collect::<Vec<_>>());
        let case = || format!("log_sum_exp {xs:?}");
        let mx = xs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let mut s = d(0.0);
        for x in &xs {
            let t = d(*x) - d(mx);
            if t.h > -700.0 {
                s = s + t.exp();
            }
        }
        let w = if n == 0 { V { v: d(f64::NEG_INFINITY), mag: 0.0 } } else { V { v: d(mx) + s.ln(), mag: 2.0 + mx.abs() + n as f64 } };
        let in_range = n <= 1 || mx < 708.0 && mx > -650.0;
        let verdict = |got: &Result<f64, String>| {
            if n == 0 {
                match got {
                    Ok(g) if *g == f64::NEG_INFINITY => Verdict::Held,
                    g => Verdict::Violated(format!("got {g:?}, expected -inf")),
                }
            } else {
                near(w, got, 8.0)
            }
        };
        macro_rules! lse {
            ($E:ty, $n:expr) => {
                let got = guard(|| <$E as EF>::log_sum_exp::<f64>(&xs));
                o.observe("log_sum_exp", $n, fnv(&[kk, hs($n)]), true, case, verdict(&got));
            };
        }
        lse!(sm::DirectEval, "DirectEval");
        lse!(eft::ExpFamEval, "ExpFamEval");
        lse!(dft::DistributionEval, "DistributionEval");
        let xs32: Vec<f32> = xs.iter().map(|x| *x as f32).collect();
        if n > 0 {
            let got = guard(|| <sm::DirectEval as EF>::log_sum_exp::<f32>(&xs32));
            o.observe("log_sum_exp", "DirectEval f32", fnv(&[kk, 32]), true, case, near::<f32>(V { mag: 4.0 * w.mag, ..w }, &got, 8.0));
        }
        // With a component of weight zero.
        if n > 0 {
            let mut ys = xs.clone();
            ys.insert(r.below(n + 1), f64::NEG_INFINITY);
            let got = guard(|| <sm::DirectEval as EF>::log_sum_exp::<f64>(&ys));
            o.observe("log_sum_exp", "with -inf", fnv(&[kk, 7]), true, || format!("log_sum_exp {ys:?}"), verdict(&got));
        }
        let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let f = guard(|| JITEval::compile_with_signature(<JITEval as EF>::log_sum_exp::<f64>(&names.iter().map(|n| JITEval::var(n)).collect::<Vec<_>>()), &names, &[]));
        if let Ok(Ok(f)) = f {
            let got = guard(|| crate::jit::call(&f, &xs, &[]));
            // Exactly what ln(Σ exp) as written gives: the listed finding, and nothing else.
            let as_written = xs.iter().map(|x| x.exp()).sum::<f64>().ln();
            let known = !in_range && got.as_ref().is_ok_and(|g| *g == as_written || (g - as_written).abs() <= 1e-9 * as_written.abs());
            let sig = if known { "log_sum_exp:compiled-out-of-range" } else { "compiled" };
            o.observe("log_sum_exp compiled", sig, kk, true, || format!("compiled {}", case()), verdict(&got));
        } else {
            o.observe("log_sum_exp compiled", "compile", kk, true, case, Verdict::Violated("does not compile".into()));
        }
        if in_range && n > 0 {
            let ev: Env = names.iter().cloned().zip(xs.iter().copied()).collect();
            let t = guard(|| <sm::PrettyPrint as EF>::log_sum_exp::<f64>(&names));
            o.observe("log_sum_exp printed", "PrettyPrint", kk, true, || format!("{} printed {t:?}", case()), near_opt(V { mag: w.mag * 4.0, ..w }, text_value(&t, &ev), 8.0));
        }
    }
    // Logistic and softplus of the exponential-family interface.
    for _ in 0..8 {
        let x = wide(r);
        let l = logistic(x);
        let lw = V { v: l, mag: l.h * (1.0 + x.abs().min(750.0)) };
        let sw = V { v: softplus(x), mag: 1.0 + x.max(0.0) };
        macro_rules! ls {
            ($E:ty, $n:expr) => {
                for (f, w, got) in [("logistic", lw, guard(|| <$E as EF>::logistic::<f64>(x))), ("softplus", sw, guard(|| <$E as EF>::softplus::<f64>(x)))] {
                    o.observe(f, $n, fnv(&[x.to_bits(), hs($n)]), true, || format!("{f}({x:?}) in {}", $n), near(w, &got, 8.0));
                }
            };
        }
        ls!(sm::DirectEval, "DirectEval");
        ls!(eft::ExpFamEval, "ExpFamEval");
        ls!(dft::DistributionEval, "DistributionEval");
        let x32 = x as f32;
        if x32.is_finite() {
            let xw = f64::from(x32);
            let got = guard(|| <sm::DirectEval as EF>::softplus::<f32>(x32));
            o.observe("softplus", "DirectEval f32", u64::from(x32.to_bits()), true, || format!("softplus({x32:?})"), near::<f32>(V { v: softplus(xw), mag: 1.0 + xw.max(0.0) }, &got, 8.0));
        }
        if x.abs() < 30.0 {
            let t = guard(|| <sm::PrettyPrint as EF>::softplus::<f64>("x".into()));
            o.observe("softplus", "printed", x.to_bits(), true, || format!("softplus({x:?}) printed {t:?}"), near_opt(sw, text_value(&t, &one(x)), 8.0));
        }
    }
    // Assembly of exponential-family log-densities.
    for _ in 0..6 {
        let n = r.below(7);
        let (p, s) = (vecs(r, n), vecs(r, n));
        let (lp, lb, cnt) = (r.normal() * 4.0, r.normal() * 4.0, r.below(50) as f64);
        let dv = dot(&p, &s);
        let plus = |extra: &[D]| {
            let t = terms(extra);
            V { v: dv.v + t.v, mag: dv.mag + 4.0 * t.mag }
        };
        let want = [dv, plus(&[-d(lp), d(lb)]), plus(&[-(d(cnt) * d(lp)), d(lb)])];
        let kinds = ["dot_product", "exp_fam_log_density", "iid_exp_fam_log_density"];
        let kk = fnv(&p.iter().chain(&s).chain(&[lp, lb, cnt]).map(|v| v.to_bits()).collect::<Vec<_>>());
        let case = || format!("params {p:?} stats {s:?} log-partition {lp} n {cnt} log-base {lb}");
        macro_rules! asm {
            ($E:ty, $n:expr) => {
                match guard(|| assembly::<$E>(&p, &s, lp, cnt, lb)) {
                    Ok(g) => {
                        for i in 0..3 {
                            o.observe(kinds[i], $n, fnv(&[kk, hs($n)]), n > 0, || format!("{} {}", $n, case()), near(want[i], &Ok(g[i]), 2.0));
                        }
                    }
                    Err(t) => o.observe("dot_product", $n, kk, true, case, Verdict::Violated(format!("panicked: {t}"))),
                }
            };
        }
        asm!(sm::DirectEval, "DirectEval");
        asm!(eft::ExpFamEval, "ExpFamEval");
        asm!(dft::DistributionEval, "DistributionEval");
        let name = |pre: &str| (0..n).map(|i| format!("{pre}{i}")).collect::<Vec<_>>();
        let (pn, sn) = (name("p"), name("s"));
        let mut ev: Env = pn.iter().cloned().zip(p.iter().copied()).chain(sn.iter().cloned().zip(s.iter().copied())).collect();
        for (k, v) in [("lp", lp), ("lb", lb), ("n", cnt)] {
            ev.insert(k.to_string(), v);
        }
        match guard(|| assembly::<sm::PrettyPrint>(&pn, &sn, "lp".into(), "n".into(), "lb".into())) {
            Ok(g) => {
                for i in 0..3 {
                    let t = Ok(g[i].clone());
                    o.observe(kinds[i], "printed", kk, n > 0, || format!("printed {:?}: {}", g[i], case()), near_opt(want[i], text_value(&t, &ev), 4.0));
                }
            }
            Err(t) => o.observe("dot_product", "printed", kk, true, case, Verdict::Violated(format!("panicked: {t}"))),
        }
        let got = guard(|| eft::ExpFamEval::dot_product_array(&p, &s));
        o.observe("dot_product_array", "array", kk, n > 0, case, near(dv, &got, 2.0));
        // Sums of sufficient statistics.
        let rows = r.below(7);
        let list: Vec<Vec<f64>> = (0..rows).map(|_| vecs(r, n)).collect();
        let refs: Vec<&[f64]> = list.iter().map(Vec::as_slice).collect();
        let case = || format!("sum of {list:?}");
        let kk = hs(&case());
        for (k, got) in [
            ("sum_stats_array", guard(|| eft::ExpFamEval::sum_stats_array(&refs))),
            ("sum_sufficient_stats", guard(|| <sm::DirectEval as EF>::sum_sufficient_stats::<f64>(&list))),
        ] {
            let v = match got {
                Err(t) => Verdict::Violated(format!("panicked: {t}")),
                Ok(g) if rows == 0 => if g.is_empty() { Verdict::Held } else { Verdict::Violated(format!("got {g:?} for no rows")) },
                Ok(g) if g.len() != n => Verdict::Violated(format!("got {} entries, expected {n}", g.len())),
                Ok(g) => (0..n)
                    .map(|j| {
                        let t = terms(&list.iter().map(|row| d(row[j])).collect::<Vec<_>>());
                        near(V { v: t.v, mag: t.mag * rows as f64 }, &Ok(g[j]), 1.0)
                    })
                    .find(|v| matches!(v, Verdict::Violated(_)))
                    .unwrap_or(Verdict::Held),
            };
            o.observe(k, "sum", kk, rows > 1, case, v);
        }
    }
}

pub fn c27(m: &mut Mon) {
    m.rule = "cases: generic log-density pattern × interpreter (direct, the two specialised evaluators, recorded, printed and read back, compiled) × parameters and support points; numeric helpers over their whole range; distinct: by (pattern, interpreter, arguments)".into();
    m.assumptions.push("patterns are judged where the squares and products the formula names stay within range".into());
    let _ = LN2;
    let seed = m.rng.derive("c27");
    let n = m.n(220, 8000);
    batches(m, "process", limits(), n, |i, o| {
        let mut r = seed.derive(&format!("b{i}"));
        for k in 0..9 {
            for _ in 0..4 {
                pattern(&mut r, o, k);
            }
        }
        numeric(&mut r, o);
    });
    for p in ["normal", "standard_normal", "exponential"] {
        for f in ["exponential-family", "distribution"] {
            for i in ["direct", "recorded", "printed", "compiled"] {
                m.require(&format!("{f} {p} {i}"), 300);
            }
        }
    }
    for p in ["gamma", "beta", "cauchy", "student_t"] {
        for i in ["direct", "recorded", "printed", "compiled"] {
            m.require(&format!("distribution {p} {i}"), 300);
        }
    }
    for k in ["log_sum_exp", "log_sum_exp compiled", "log_gamma_function", "DistributionEval::log_gamma", "softplus", "logistic", "dot_product", "iid_exp_fam_log_density", "sum_stats_array", "DistributionEval::gamma"] {
        m.require(k, 300);
    }
}
