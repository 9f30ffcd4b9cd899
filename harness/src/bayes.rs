//! C22: Bayesian expression builders and the compiled Bayesian optimizer.

use std::collections::HashMap;

use measures_bayesian::BayesianJITOptimizer;
use measures_bayesian::bayesian::{self, expressions as ex};
use symbolic_math::Expr;

use crate::hp::{D, HALF_LN_2PI, d};
use crate::mon::{Mon, Verdict, guard};
use crate::re::{Env, R, eval};
use crate::rng::{Rng, fnv, hs};
use crate::sym::{env_txt, gen_expr};

/// A reference value and the magnitude that scales its rounding error.
#[derive(Clone, Copy, Debug)]
struct V {
    v: D,
    mag: f64,
}
impl V {
    fn ok(self) -> bool {
        self.v.h.is_finite() && self.mag.is_finite() && self.mag < 1e290
    }
    fn plus(self, o: V) -> V {
        V { v: self.v + o.v, mag: self.mag + o.mag }
    }
}

/// log N(x; mu, s²).
fn normal(x: f64, mu: f64, s: f64) -> V {
    let z = (d(x) - d(mu)) / d(s);
    let q = z * z / d(2.0);
    let l = d(s).ln();
    // The difference x − mu is computed from rounded inputs only: relative error of one ulp.
    V { v: -HALF_LN_2PI - l - q, mag: 1.0 + l.h.abs() + 4.0 * q.h.abs() }
}

fn lse(parts: &[(f64, V)]) -> Option<V> {
    let live: Vec<V> = parts.iter().filter(|(w, _)| *w > 0.0).map(|(w, v)| V { v: d(*w).ln() + v.v, mag: v.mag + w.ln().abs() + 1.0 }).collect();
    let m = live.iter().map(|v| v.v.h).fold(f64::NEG_INFINITY, f64::max);
    if !m.is_finite() {
        return None;
    }
    let mut s = d(0.0);
    let mut mag = 0.0;
    for v in &live {
        let t = v.v - d(m);
        if t.h > -700.0 {
            let e = t.exp();
            s = s + e;
            mag += e.h * v.mag;
        }
    }
    let v = d(m) + s.ln();
    Some(V { v, mag: mag / s.h + v.h.abs() + 1.0 })
}

fn judge(want: Option<V>, got: &Result<Result<f64, String>, String>) -> Verdict {
    let Some(w) = want.filter(|w| w.ok()) else { return Verdict::Inconclusive };
    match got {
        Err(t) => Verdict::Violated(format!("panicked: {t}, expected {:e}", w.v.f())),
        Ok(Err(t)) => Verdict::Violated(format!("{t}, expected {:e}", w.v.f())),
        Ok(Ok(g)) => {
            let err = (d(*g) - w.v).f().abs();
            let tol = 4e-14 * w.mag + 1e-300;
            if err <= tol { Verdict::Held } else { Verdict::Violated(format!("got {g:?}, expected {:e} (±{tol:.1e})", w.v.f())) }
        }
    }
}

fn interpret(e: &Expr, x: &Env) -> Result<Result<f64, String>, String> {
    guard(|| e.evaluate(x).map_err(|er| format!("{er:?}")))
}

const NAMES: [&str; 12] = ["x", "mu", "sigma", "tau", "y", "theta", "s2", "A", "obs_1", "m", "b", "zz"];

fn num(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, -3.0]),
        1 => r.loc(),
        2 => r.normal() * r.logu(-6.0, 6.0),
        _ => r.normal() * 3.0,
    }
}
fn scale(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => *r.pick(&[1.0, 2.0, 0.5, 10.0, 1e-3]),
        1 => r.logu(-8.0, 8.0),
        _ => r.logu(-1.3, 1.3),
    }
}

/// One observed building block: its expression, variables, assignment and expected value.
struct Block {
    kind: &'static str,
    e: Expr,
    env: Env,
    want: Option<V>,
}

/// The textbook value of a block; `None` where it is not representable.
fn block(r: &mut Rng) -> Block {
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let (x, mu, s, tau) = (names[0], names[1], names[2], names[3]);
    let (xv, muv, sv, tv) = (num(r), num(r), scale(r), num(r));
    let mut env: Env = HashMap::new();
    for (n, v) in [(x, xv), (mu, muv), (s, sv)] {
        env.insert(n.to_string(), v);
    }
    let alias = r.chance(0.3);
    match r.below(8) {
        0 => {
            let e = if alias { bayesian::likelihood(x, mu, s) } else { ex::normal_likelihood(x, mu, s) };
            Block { kind: "likelihood", e, env, want: Some(normal(xv, muv, sv)) }
        }
        1 => {
            let (m0, s0) = (num(r), scale(r));
            let e = if alias { bayesian::prior(mu, m0, s0) } else { ex::normal_prior(mu, m0, s0) };
            Block { kind: "prior", e, env, want: Some(normal(muv, m0, s0)) }
        }
        2 | 3 => {
            // A posterior over several observations and parameters.
            let n = r.below(4);
            let mut e = ex::normal_likelihood(x, mu, s);
            let mut want = normal(xv, muv, sv);
            for i in 0..n {
                let (name, v) = (format!("x_{i}"), num(r));
                e = e + ex::normal_likelihood(&name, mu, s);
                want = want.plus(normal(v, muv, sv));
                env.insert(name, v);
            }
            for (p, v) in [(mu, muv), (s, sv)] {
                if r.chance(0.7) {
                    let (m0, s0) = (num(r), scale(r));
                    let pr = ex::normal_prior(p, m0, s0);
                    e = if alias { bayesian::posterior(e, pr) } else { ex::posterior_log_density(e, pr) };
                    want = want.plus(normal(v, m0, s0));
                }
            }
            Block { kind: "posterior", e, env, want: Some(want) }
        }
        4 => {
            let (m0, s0) = (num(r), scale(r));
            env.insert(tau.to_string(), tv);
            let e = ex::hierarchical_normal(x, mu, s, tau, m0, s0);
            Block { kind: "hierarchical", e, env, want: Some(normal(xv, muv, sv).plus(normal(muv, m0, s0)).plus(normal(tv, 0.0, s0))) }
        }
        5 => {
            // Arbitrary log-densities combined.
            let vars = [x, mu, s];
            let depth = 1 + r.below(3);
            let (a, b) = (gen_expr(r, &vars, depth), gen_expr(r, &vars, depth));
            let e = if alias { bayesian::posterior(a.clone(), b.clone()) } else { ex::posterior_log_density(a.clone(), b.clone()) };
            let want = match (eval(&a, &env), eval(&b, &env)) {
                (R::Val(u, eu), R::Val(v, ev)) => Some(V { v: u + v, mag: u.h.abs() + v.h.abs() + (eu + ev) / 4e-15 }),
                _ => None,
            };
            Block { kind: "posterior of arbitrary terms", e, env, want }
        }
        6 => {
            let n = if r.chance(0.01) { 100 + r.below(300) } else { r.len(5, 40).max(1) };
            let w: Vec<f64> = weights(r, n);
            let ms: Vec<f64> = (0..n).map(|_| if r.chance(0.6) { xv + r.normal() * 4.0 } else { num(r) }).collect();
            let ss: Vec<f64> = (0..n).map(|_| scale(r)).collect();
            // Sometimes the component of least weight is the one that matters here.
            let (mut ms, mut ss) = (ms, ss);
            if r.chance(0.3) {
                let rare = (0..n).filter(|i| w[*i] > 0.0).min_by(|a, b| w[*a].total_cmp(&w[*b]));
                for i in 0..n {
                    ss[i] = 1.0;
                    ms[i] = if Some(i) == rare { xv + r.normal() } else { xv + r.range(20.0, 36.0) };
                }
            }
            let parts: Vec<(f64, V)> = (0..n).map(|i| (w[i], normal(xv, ms[i], ss[i]))).collect();
            Block { kind: "mixture", e: ex::mixture_likelihood(x, &w, &ms, &ss), env, want: representable(&parts) }
        }
        _ => {
            let n = 1 + r.below(4);
            let w = weights(r, n);
            let mut parts = Vec::new();
            let mut comps = Vec::new();
            for wi in &w {
                let (e, v) = if r.chance(0.5) {
                    (ex::normal_likelihood(x, mu, s), Some(normal(xv, muv, sv)))
                } else if r.chance(0.7) {
                    let (m0, s0) = (xv + r.normal() * 3.0, scale(r));
                    (ex::normal_prior(x, m0, s0), Some(normal(xv, m0, s0)))
                } else {
                    let e = gen_expr(r, &[x, mu], 2);
                    let v = match eval(&e, &env) {
                        R::Val(v, er) => Some(V { v, mag: v.h.abs() + er / 4e-15 }),
                        _ => None,
                    };
                    (e, v)
                };
                comps.push((*wi, e));
                parts.push((*wi, v));
            }
            let want = if parts.iter().all(|p| p.1.is_some()) { representable(&parts.iter().map(|(w, v)| (*w, v.unwrap())).collect::<Vec<_>>()) } else { None };
            Block { kind: "mixture of expressions", e: ex::mixture_likelihood_old(&comps), env, want }
        }
    }
}

fn weights(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut w: Vec<f64> = (0..n).map(|_| match r.below(16) { 0 | 1 => 0.0, 2 | 3 => r.logu(-200.0, -6.0), 4 => 1.0, _ => r.logu(-6.0, 0.0) }).collect();
    if r.chance(0.7) {
        let s: f64 = w.iter().sum();
        if s > 0.0 {
            w.iter_mut().for_each(|x| *x /= s);
        }
    }
    w
}

fn representable(parts: &[(f64, V)]) -> Option<V> {
    if parts.iter().any(|(_, v)| !v.ok() || v.v.h > 650.0) {
        return None;
    }
    lse(parts).filter(|v| v.v.h.abs() < 650.0)
}

/// Which variables are data, which are parameters, and which are baked in as constants.
fn split(r: &mut Rng, env: &Env, data: bool) -> (Vec<String>, Vec<String>, HashMap<String, f64>) {
    let mut all: Vec<&String> = env.keys().collect();
    all.sort();
    let mut all: Vec<String> = all.into_iter().cloned().collect();
    r.shuffle(&mut all);
    let (mut dv, mut pv, mut k) = (vec![], vec![], HashMap::new());
    let bake = r.chance(0.3);
    for n in all {
        match r.below(3) {
            0 if bake => {
                k.insert(n.clone(), env[&n]);
            }
            1 if data => dv.push(n),
            _ => pv.push(n),
        }
    }
    (dv, pv, k)
}

struct Slot {
    b: Block,
    d: Vec<String>,
    p: Vec<String>,
}
impl Slot {
    fn args(&self) -> (Vec<f64>, Vec<f64>) {
        (self.d.iter().map(|n| self.b.env[n]).collect(), self.p.iter().map(|n| self.b.env[n]).collect())
    }
}

pub fn c22(m: &mut Mon) {
    m.rule = "cases: builder × variable names × data, parameters and weights, against the textbook formula in double-double; compiled evaluation through one optimizer object over histories of compile/evaluate on its three slots; distinct: by (builder, assignment)".into();
    m.assumptions.push("mixtures are judged where the weighted sum of densities is representable in double precision".into());
    m.assumptions.push("hierarchical_normal is judged as the sum of the log-likelihood and the two stated log-priors".into());
    let mut r = m.rng.derive("c22");
    let n = m.n(40_000, 1_200_000);
    for _ in 0..n {
        let b = block(&mut r);
        let case = || format!("{} {:?} at {}", b.kind, b.e, env_txt(&b.env));
        let key = fnv(&[hs(&format!("{}{}", b.kind, b.e)), hs(&env_txt(&b.env))]);
        m.observe(b.kind, b.kind, key, true, case, judge(b.want, &interpret(&b.e, &b.env)));
        if m.spent() {
            break;
        }
    }
    // Empty mixtures denote the zero density.
    for (k, e) in [("mixture", ex::mixture_likelihood("x", &[], &[], &[])), ("mixture of expressions", ex::mixture_likelihood_old(&[]))] {
        let v = match interpret(&e, &HashMap::new()) {
            Ok(Ok(v)) if v == f64::NEG_INFINITY => Verdict::Held,
            g => Verdict::Violated(format!("{g:?}")),
        };
        m.observe("empty mixture", k, hs(k), true, || k.to_string(), v);
    }
    let v = match bayesian::variable("theta_9") {
        Expr::Var(n) if n == "theta_9" => Verdict::Held,
        e => Verdict::Violated(format!("{e:?}")),
    };
    m.observe("variable", "variable", 1, true, || "variable(\"theta_9\")".into(), v);

    // Histories over the three slots of one optimizer.
    let nh = m.n(250, 8000);
    for h in 0..nh {
        let mut opt = if h % 2 == 0 { BayesianJITOptimizer::new() } else { BayesianJITOptimizer::default() };
        let mut slots: [Option<Slot>; 3] = [None, None, None];
        let mut trace = String::new();
        for _ in 0..14 {
            let i = r.below(3);
            let name = ["posterior", "likelihood", "prior"][i];
            if r.chance(0.35) || slots[i].is_none() && r.chance(0.5) {
                let b = block(&mut r);
                let (dv, pv, k) = split(&mut r, &b.env, i < 2);
                trace.push_str(&format!(" compile {name} {}", b.kind));
                let res = guard(|| match i {
                    0 => opt.compile_posterior_jit(&b.e, &dv, &pv, &k),
                    1 => opt.compile_likelihood_jit(&b.e, &dv, &pv, &k),
                    _ => opt.compile_prior_jit(&b.e, &pv, &k),
                });
                let case = || format!("compile {name}: {:?} data {dv:?} params {pv:?} constants {k:?}", b.e);
                let v = match &res {
                    Ok(Ok(())) => Verdict::Held,
                    g => Verdict::Violated(format!("{g:?}")),
                };
                m.observe("compile", name, hs(&case()), true, case, v);
                slots[i] = if matches!(res, Ok(Ok(()))) { Some(Slot { b, d: dv, p: pv }) } else { None };
            } else if let Some(s) = &mut slots[i] {
                if r.chance(0.3) {
                    // Same function, arguments of the same assignment: idempotent.
                    trace.push_str(" again");
                }
                let (dv, pv) = s.args();
                let got = guard(|| match i {
                    0 => opt.evaluate_posterior(&dv, &pv),
                    1 => opt.evaluate_likelihood(&dv, &pv),
                    _ => opt.evaluate_prior(&pv),
                });
                trace.push_str(&format!(" evaluate {name}"));
                let got = got.map(|o| o.ok_or_else(|| "None although compiled".to_string()));
                let case = || format!("{name} slot holding {} {:?}, data {:?}={dv:?} params {:?}={pv:?} after{trace}", s.b.kind, s.b.e, s.d, s.p);
                m.observe(&format!("compiled {name}"), s.b.kind, fnv(&[hs(&format!("{:?}", s.b.e)), hs(&format!("{dv:?}{pv:?}"))]), true, case, judge(s.b.want, &got));
            } else {
                let got = guard(|| match i {
                    0 => opt.evaluate_posterior(&[], &[]),
                    1 => opt.evaluate_likelihood(&[], &[]),
                    _ => opt.evaluate_prior(&[]),
                });
                let v = match got {
                    Ok(None) => Verdict::Held,
                    g => Verdict::Violated(format!("{g:?} from an empty slot")),
                };
                trace.push_str(&format!(" probe {name}"));
                m.observe("empty slot", name, hs(&trace), true, || trace.clone(), v);
            }
        }
        if m.spent() {
            break;
        }
    }
    for k in ["likelihood", "prior", "posterior", "hierarchical", "mixture", "mixture of expressions"] {
        m.require(k, 1000);
    }
    for k in ["compiled posterior", "compiled likelihood", "compiled prior"] {
        m.require(k, 200);
    }
}
