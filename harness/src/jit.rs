//! C18 compiled values, C19 binding, ownership and threads of compiled functions.

use std::collections::HashMap;
use std::sync::{Arc, Barrier};

use symbolic_math::jit::GeneralJITFunction;
use symbolic_math::{CustomSymbolicLogDensity, Expr, GeneralJITCompiler, JITError, JITEval, JITSignature};
use symbolic_math::final_tagless::JITRepr;

use crate::isolate::{Limits, Obs, batches};
use crate::mon::{Mon, Verdict, guard};
use crate::re::{Env, R, agrees, eval};
use crate::rng::{Rng, fnv, hs};
use crate::sym::{bx, env_txt, gen_expr, key, shape, template, unary, val, vars_of};

// ------------------------------------------------ double-precision reference with jitter

/// Why no value is expected.
pub enum Skip {
    /// The interpreter reports an error here.
    Error,
    /// A literal zero factor: the interpreter may skip the other factor.
    ZeroFactor,
}

fn nudge(r: &mut Option<Rng>, v: f64) -> f64 {
    match r {
        None => v,
        Some(r) => {
            if !v.is_finite() || v == 0.0 {
                return v;
            }
            let k = r.int(-2, 2);
            if v.abs() < 1e-300 {
                return v + k as f64 * 5e-324;
            }
            f64::from_bits((v.to_bits() as i64 + k) as u64)
        }
    }
}

/// Plain double-precision evaluation; with a generator every rounded result is moved by up
/// to two units in the last place.
pub fn ieee(e: &Expr, x: &Env, r: &mut Option<Rng>) -> Result<f64, Skip> {
    let v = match e {
        Expr::Const(c) => return Ok(*c),
        Expr::Var(n) => return x.get(n).copied().ok_or(Skip::Error),
        Expr::Add(a, b) => ieee(a, x, r)? + ieee(b, x, r)?,
        Expr::Sub(a, b) => ieee(a, x, r)? - ieee(b, x, r)?,
        Expr::Mul(a, b) => {
            let (u, v) = (ieee(a, x, r), ieee(b, x, r));
            let lit = |e: &Expr| matches!(e, Expr::Const(0.0));
            if lit(a) || lit(b) {
                let other = if lit(a) { &v } else { &u };
                if !matches!(other, Ok(t) if t.is_finite()) {
                    return Err(Skip::ZeroFactor);
                }
            }
            u? * v?
        }
        Expr::Div(a, b) => {
            let (a, b) = (ieee(a, x, r)?, ieee(b, x, r)?);
            if b == 0.0 {
                return Err(Skip::Error);
            }
            a / b
        }
        Expr::Pow(a, b) => ieee(a, x, r)?.powf(ieee(b, x, r)?),
        Expr::Ln(a) => {
            let v = ieee(a, x, r)?;
            if v <= 0.0 {
                return Err(Skip::Error);
            }
            v.ln()
        }
        Expr::Exp(a) => ieee(a, x, r)?.exp(),
        Expr::Sqrt(a) => {
            let v = ieee(a, x, r)?;
            if v < 0.0 {
                return Err(Skip::Error);
            }
            v.sqrt()
        }
        Expr::Sin(a) => ieee(a, x, r)?.sin(),
        Expr::Cos(a) => ieee(a, x, r)?.cos(),
        Expr::Neg(a) => return Ok(-ieee(a, x, r)?),
    };
    Ok(nudge(r, v))
}

/// 0 finite, 1 +inf, 2 -inf, 3 NaN.
pub fn class(v: f64) -> u8 {
    if v.is_nan() {
        3
    } else if v.is_infinite() {
        if v > 0.0 { 1 } else { 2 }
    } else {
        0
    }
}

/// Judge a double-precision result of evaluating `e` in natural order, special values included.
pub fn judge_ieee(e: &Expr, x: &Env, got: f64, seed: u64) -> (Verdict, u8) {
    if x.values().all(|v| v.is_finite()) {
        let r = eval(e, x);
        if let R::Val(..) = r
            && let Some(a) = agrees(r, got)
        {
            return (a.map_or_else(Verdict::Violated, |()| Verdict::Held), 0);
        }
    }
    let Ok(base) = ieee(e, x, &mut None) else { return (Verdict::Inconclusive, 0) };
    let c = class(base);
    let (mut lo, mut hi) = (base, base);
    for k in 0..14 {
        match ieee(e, x, &mut Some(Rng::new(seed ^ (k * 7919)))) {
            Ok(v) if class(v) == c => {
                lo = lo.min(v);
                hi = hi.max(v);
            }
            _ => return (Verdict::Inconclusive, c),
        }
    }
    if class(got) != c {
        return (Verdict::Violated(format!("got {got:?}, expected {base:?}")), c);
    }
    if c != 0 {
        return (Verdict::Held, c);
    }
    let spread = hi - lo;
    let tol = 64.0 * spread + 1e-14 * base.abs() + 1e-320;
    if spread > 1e-3 * base.abs() {
        return (Verdict::Inconclusive, c);
    }
    if (got - base).abs() <= tol {
        (Verdict::Held, c)
    } else {
        (Verdict::Violated(format!("got {got:?}, expected {base:?} (±{tol:.1e})")), c)
    }
}

// ------------------------------------------------ workload helpers

pub const DATA: [&str; 6] = ["x", "y", "a_obs", "z", "w2", "Bdata"];
pub const PAR: [&str; 8] = ["mu", "sigma", "theta_1", "alpha", "n", "zeta", "Kappa", "b"];

pub fn repr(e: &Expr) -> JITRepr {
    let f = |a: &Expr| Box::new(repr(a));
    match e {
        Expr::Const(c) => JITRepr::Constant(*c),
        Expr::Var(n) => JITRepr::Variable(n.clone()),
        Expr::Add(a, b) => JITRepr::Add(f(a), f(b)),
        Expr::Sub(a, b) => JITRepr::Sub(f(a), f(b)),
        Expr::Mul(a, b) => JITRepr::Mul(f(a), f(b)),
        Expr::Div(a, b) => JITRepr::Div(f(a), f(b)),
        Expr::Pow(a, b) => JITRepr::Pow(f(a), f(b)),
        Expr::Neg(a) => JITRepr::Neg(f(a)),
        Expr::Ln(a) => JITRepr::Ln(f(a)),
        Expr::Exp(a) => JITRepr::Exp(f(a)),
        Expr::Sqrt(a) => JITRepr::Sqrt(f(a)),
        Expr::Sin(a) => JITRepr::Sin(f(a)),
        Expr::Cos(a) => JITRepr::Cos(f(a)),
    }
}

fn names(r: &mut Rng, from: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<String> = from.iter().map(|s| (*s).to_string()).collect();
    // Large signatures: further names whose alphabetical order is not their numerical one.
    let tag = from[0];
    while v.len() < n {
        v.push(format!("{tag}{}{}", if v.len() % 3 == 0 { "_" } else { "" }, v.len()));
    }
    r.shuffle(&mut v);
    v.truncate(n);
    v
}

/// How many data variables and parameters.
fn dims(r: &mut Rng) -> (usize, usize) {
    if r.chance(0.015) {
        return match r.below(3) {
            0 => (1, 8 + r.below(60)),
            1 => (5 + r.below(40), r.below(40)),
            _ => (r.below(300), r.below(300)),
        };
    }
    match r.below(8) {
        0..=2 => (1, 0),
        3 => (1, 1),
        4 => (1, 2 + r.below(2)),
        5 => (1, 4 + r.below(4)),
        6 => (2 + r.below(4), r.below(4)),
        _ => (r.below(6), r.below(8)),
    }
}

pub fn call(f: &GeneralJITFunction, d: &[f64], p: &[f64]) -> f64 {
    match (d.len(), p.len()) {
        (1, 0) => f.call_single(d[0]),
        (1, 1) => f.call_data_param(d[0], p[0]),
        (1, _) => f.call_data_params(d[0], p),
        _ => f.call_batch(d, p),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Via {
    Expression,
    Tagless,
}
pub fn compile(via: Via, e: &Expr, d: &[String], p: &[String], k: &HashMap<String, f64>) -> Result<GeneralJITFunction, JITError> {
    match via {
        Via::Expression => GeneralJITCompiler::new()?.compile_expression(e, d, p, k),
        Via::Tagless => match (d.len(), p.len(), k.is_empty()) {
            (1, 0, true) => JITEval::compile_single_var(repr(e), &d[0]),
            (1, 1, true) => JITEval::compile_data_param(repr(e), &d[0], &p[0]),
            (1, _, true) => JITEval::compile_data_params(repr(e), &d[0], p),
            (_, _, true) => JITEval::compile_with_signature(repr(e), d, p),
            _ => JITEval::compile_with_constants(repr(e), d, p, k),
        },
    }
}

fn arg(r: &mut Rng) -> f64 {
    if r.chance(0.45) { r.any() } else { val(r) }
}

fn limits() -> Limits {
    Limits { cpu_s: 60, mem_mb: 0, resource_ok: true, parallel: 8 }
}

// ------------------------------------------------ C18

/// A function applied to one argument over its whole range: where an approximation would show.
fn sweep(i: usize) -> Expr {
    let x = || bx(Expr::Var("x".into()));
    let k = |c: f64| bx(Expr::Const(c));
    match i % 22 {
        0 => Expr::Exp(x()),
        1 => Expr::Ln(x()),
        2 => Expr::Sin(x()),
        3 => Expr::Cos(x()),
        4 => Expr::Sqrt(x()),
        5 => Expr::Pow(x(), k(2.0)),
        6 => Expr::Pow(x(), k(3.0)),
        7 => Expr::Pow(x(), k(4.0)),
        8 => Expr::Pow(x(), k(0.5)),
        9 => Expr::Pow(x(), k(1.0)),
        10 => Expr::Pow(x(), k(0.0)),
        11 => Expr::Pow(x(), k(-1.0)),
        12 => Expr::Pow(x(), k(2.5)),
        13 => Expr::Pow(x(), k(-3.0)),
        14 => Expr::Pow(x(), k(5.0)),
        15 => Expr::Pow(k(2.0), x()),
        16 => Expr::Pow(k(-2.0), x()),
        17 => Expr::Pow(k(1.0), x()),
        18 => Expr::Neg(x()),
        19 => Expr::Div(k(1.0), x()),
        20 => Expr::Sub(x(), x()),
        _ => Expr::Mul(x(), x()),
    }
}

pub fn c18(m: &mut Mon) {
    m.rule = "cases: random expressions (all node kinds, constant exponents with and without special handling) and one-function sweeps over the whole argument range × compile route × signature × argument vectors with NaN, infinities, subnormals, zeros and huge values; compiled and called in children so that a crash is an observation; distinct: by (route, expression, arguments)".into();
    m.assumptions.push("where the interpreter reports an error (division by zero, logarithm or root outside the domain) only the absence of a crash is judged, likewise a literal zero times a non-finite value".into());
    m.assumptions.push("finite values within the double-double bound of re.rs; elsewhere classes and values by double-precision evaluation with 14 jittered replays, undecided when the replays disagree".into());
    let seed = m.rng.derive("c18");
    let n = m.n(800, 12_000);
    let per = 24;
    batches(m, "process", limits(), n, |i, o| {
        let mut r = seed.clone().derive(&format!("b{i}"));
        for j in 0..per {
            let (nd, np) = dims(&mut r);
            let sweep_case = j % 6 == 0;
            let (e, d, p) = if sweep_case {
                (sweep(i * per / 6 + j / 6), vec!["x".to_string()], vec![])
            } else {
                let d = names(&mut r, &DATA, nd);
                let p = names(&mut r, &PAR, np);
                let vars: Vec<&str> = d.iter().chain(p.iter()).map(String::as_str).collect();
                let depth = 1 + r.below(5);
                let e = if vars.is_empty() {
                    let a = crate::sym::konst(&mut r);
                    unary(&mut r, Expr::Const(a))
                } else if r.chance(0.2) {
                    template(&mut r, &vars)
                } else {
                    gen_expr(&mut r, &vars, depth)
                };
                (e, d, p)
            };
            let via = if r.chance(0.5) { Via::Expression } else { Via::Tagless };
            let route = if via == Via::Expression { "expression" } else { "tagless" };
            o.announce(&format!("compiling {e:?} ({route}) for {d:?} {p:?}"));
            let sh = shape(&e);
            let f = match guard(|| compile(via, &e, &d, &p, &HashMap::new())) {
                Ok(Ok(f)) => f,
                Ok(Err(er)) => {
                    o.observe("compile", &sh, hs(&sh), true, || format!("{e:?} ({route}) for {d:?} {p:?}"), Verdict::Violated(format!("{er:?}")));
                    continue;
                }
                Err(t) => {
                    o.observe("compile", &sh, hs(&sh), true, || format!("{e:?} ({route}) for {d:?} {p:?}"), Verdict::Violated(format!("panicked: {t}")));
                    continue;
                }
            };
            for t in 0..if sweep_case { 60 } else { 20 } {
                let args: Vec<f64> = (0..d.len() + p.len()).map(|_| if t % 3 == 0 { val(&mut r) } else { arg(&mut r) }).collect();
                let x: Env = d.iter().chain(p.iter()).cloned().zip(args.iter().copied()).collect();
                let case = || format!("{e:?} ({route}) at {}", env_txt(&x));
                o.announce(&case());
                let k = fnv(&[key(&e, &x), via as u64]);
                let (dv, pv) = args.split_at(d.len());
                match guard(|| call(&f, dv, pv)) {
                    Err(t) => o.observe("call", &sh, k, true, case, Verdict::Violated(format!("panicked: {t}"))),
                    Ok(g) => {
                        let (v, c) = judge_ieee(&e, &x, g, k);
                        let kind = match c {
                            0 => "finite value",
                            3 => "NaN value",
                            _ => "infinite value",
                        };
                        o.observe(&format!("{kind} ({route})"), &sh, k, true, case, v);
                    }
                }
            }
        }
    });
    for k in ["finite value (expression)", "finite value (tagless)"] {
        m.require(k, 3000);
    }
    for k in ["NaN value (expression)", "NaN value (tagless)", "infinite value (expression)", "infinite value (tagless)"] {
        m.require(k, 100);
    }
    m.require("process", n as u64);
}

// ------------------------------------------------ C19

/// Sum of distinct integer weights times the variables: every wrong binding changes the
/// value, and small integers make it exact.
pub fn weighted(r: &mut Rng, vars: &[String]) -> (Expr, Vec<f64>) {
    let mut order: Vec<usize> = (0..vars.len()).collect();
    r.shuffle(&mut order);
    let mut w = vec![0.0; vars.len()];
    let mut e = Expr::Const(r.int(-5, 5) as f64);
    for (k, &i) in order.iter().enumerate() {
        w[i] = f64::from(3u32.pow(k as u32 % 12)) + k as f64;
        let t = Expr::Mul(bx(Expr::Const(w[i])), bx(Expr::Var(vars[i].clone())));
        e = match r.below(3) {
            0 => Expr::Add(bx(t), bx(e)),
            1 => Expr::Add(bx(e), bx(t)),
            _ => Expr::Sub(bx(e), bx(Expr::Neg(bx(t)))),
        };
    }
    (e, w)
}

fn exact(got: &Result<f64, String>, want: f64) -> Verdict {
    match got {
        Err(t) => Verdict::Violated(format!("panicked: {t}")),
        Ok(g) if *g == want => Verdict::Held,
        Ok(g) => Verdict::Violated(format!("got {g:?}, expected {want:?}")),
    }
}

fn ints(r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| r.int(-50, 50) as f64).collect()
}

fn sum(e: &Expr, d: &[String], p: &[String], dv: &[f64], pv: &[f64], k: &HashMap<String, f64>) -> f64 {
    let mut x: Env = k.clone();
    x.extend(d.iter().cloned().zip(dv.iter().copied()));
    x.extend(p.iter().cloned().zip(pv.iter().copied()));
    ieee(e, &x, &mut None).unwrap_or(f64::NAN)
}

struct Live {
    f: GeneralJITFunction,
    e: Expr,
    d: Vec<String>,
    p: Vec<String>,
    first: Vec<(Vec<f64>, Vec<f64>, u64)>,
}

fn make(r: &mut Rng) -> Result<Live, String> {
    let (nd, np) = dims(r);
    let d = names(r, &DATA, nd);
    let p = names(r, &PAR, np);
    let all: Vec<String> = d.iter().chain(&p).cloned().collect();
    let (e, _) = weighted(r, &all);
    let via = if r.chance(0.5) { Via::Expression } else { Via::Tagless };
    let f = guard(|| compile(via, &e, &d, &p, &HashMap::new()))?.map_err(|er| format!("{er:?}"))?;
    Ok(Live { f, e, d, p, first: Vec::new() })
}

/// A history of compilations, calls and drops; returns the number of calls and the first failure.
fn history(r: &mut Rng, steps: usize, with_history: bool) -> (u64, Option<(String, String)>) {
    let mut live: Vec<Live> = Vec::new();
    let mut calls = 0;
    for _ in 0..steps {
        match r.below(8) {
            0 | 1 if live.len() < 12 => match make(r) {
                Ok(l) => live.push(l),
                Err(t) => return (calls, Some(("compile".into(), t))),
            },
            2 if !live.is_empty() => {
                let i = r.below(live.len());
                if r.chance(0.5) {
                    drop(live.swap_remove(i));
                } else {
                    live.remove(i);
                }
            }
            _ if !live.is_empty() => {
                let i = r.below(live.len());
                let l = &mut live[i];
                // A repeated call must give the same bits, a new one the exact sum.
                let (dv, pv, want) = if with_history && !l.first.is_empty() && r.chance(0.4) {
                    r.pick(&l.first).clone()
                } else {
                    let (dv, pv) = (ints(r, l.d.len()), ints(r, l.p.len()));
                    let w = sum(&l.e, &l.d, &l.p, &dv, &pv, &HashMap::new());
                    (dv, pv, w.to_bits())
                };
                calls += 1;
                match guard(|| call(&l.f, &dv, &pv)) {
                    Ok(g) if g == f64::from_bits(want) => {
                        if l.first.len() < 6 {
                            l.first.push((dv, pv, want));
                        }
                    }
                    g => return (calls, Some((format!("{:?} for {:?} {:?} at {dv:?} {pv:?}", l.e, l.d, l.p), format!("got {g:?}, expected {:?}", f64::from_bits(want))))),
                }
            }
            _ => {}
        }
    }
    (calls, None)
}

fn binding(r: &mut Rng, o: &mut Obs) {
    let (nd, np) = dims(r);
    let d = names(r, &DATA, nd);
    let p = names(r, &PAR, np);
    let all: Vec<String> = d.iter().chain(&p).cloned().collect();
    // Declared but unused variables still take their place.
    let used: Vec<String> = all.iter().filter(|_| !r.chance(0.15)).cloned().collect();
    let (e, _) = weighted(r, &used);
    let sig = format!("{nd}x{np}");
    for via in [Via::Expression, Via::Tagless] {
        let route = if via == Via::Expression { "expression" } else { "tagless" };
        let case = || format!("{e:?} ({route}) for {d:?} {p:?}");
        o.announce(&case());
        let kk = fnv(&[hs(&format!("{e:?}{d:?}{p:?}")), via as u64]);
        match guard(|| compile(via, &e, &d, &p, &HashMap::new())) {
            Ok(Ok(f)) => {
                let fits = match f.signature {
                    JITSignature::SingleInput => nd == 1 && np == 0,
                    JITSignature::DataAndParameter => nd == 1 && np == 1,
                    JITSignature::DataAndParameters(n) => nd == 1 && np == n,
                    JITSignature::MultipleDataAndParameters { data_dims, param_dims } => nd == data_dims && np == param_dims,
                    JITSignature::Custom { .. } => false,
                };
                o.observe("signature", &sig, kk, true, case, if fits { Verdict::Held } else { Verdict::Violated(format!("{:?}", f.signature)) });
                for _ in 0..4 {
                    let (dv, pv) = (ints(r, nd), ints(r, np));
                    let want = sum(&e, &d, &p, &dv, &pv, &HashMap::new());
                    let got = guard(|| call(&f, &dv, &pv));
                    o.observe(&format!("binding ({route})"), &sig, fnv(&[kk, hs(&format!("{dv:?}{pv:?}"))]), true, || format!("{} at {dv:?} {pv:?}", case()), exact(&got, want));
                }
                // Argument lists of the wrong length are refused, never padded or cut.
                let wrong = |o: &mut Obs, what: &str, g: Result<f64, String>| {
                    let v = match g {
                        Err(_) => Verdict::Held,
                        Ok(v) => Verdict::Violated(format!("accepted, returned {v:?}")),
                    };
                    o.observe("mismatch refused", what, fnv(&[kk, hs(what)]), true, || format!("{what}: {}", case()), v);
                };
                if (nd, np) != (1, 0) {
                    wrong(o, "call_single", guard(|| f.call_single(1.0)));
                }
                if (nd, np) != (1, 1) {
                    wrong(o, "call_data_param", guard(|| f.call_data_param(1.0, 2.0)));
                }
                let (dv, pv) = (ints(r, nd), ints(r, np));
                let long = [&pv[..], &[1.0]].concat();
                wrong(o, "call_data_params, one too many", guard(|| f.call_data_params(1.0, &long)));
                wrong(o, "call_batch, one parameter too many", guard(|| f.call_batch(&dv, &long)));
                if np > 0 {
                    wrong(o, "call_batch, one parameter too few", guard(|| f.call_batch(&dv, &pv[1..])));
                    wrong(o, "call_data_params, one too few", guard(|| f.call_data_params(1.0, &pv[1..])));
                }
                if nd > 0 {
                    wrong(o, "call_batch, one datum too few", guard(|| f.call_batch(&dv[1..], &pv)));
                }
            }
            g => {
                let t = match g {
                    Ok(Err(er)) => format!("{er:?}"),
                    Err(t) => format!("panicked: {t}"),
                    Ok(Ok(_)) => String::new(),
                };
                o.observe("compile", &sig, kk, true, case, Verdict::Violated(t));
            }
        }
        // A name that is not declared is an error.
        let mut undeclared = e.clone();
        let ghost = *r.pick(&["ghost", "q", "X", "sigma_2", ""]);
        undeclared = Expr::Add(bx(undeclared), bx(Expr::Mul(bx(Expr::Const(2.0)), bx(Expr::Var(ghost.into())))));
        let v = match guard(|| compile(via, &undeclared, &d, &p, &HashMap::new())) {
            Ok(Err(_)) => Verdict::Held,
            Ok(Ok(_)) => Verdict::Violated(format!("compiled although {ghost:?} is not declared")),
            Err(t) => Verdict::Violated(format!("panicked: {t}")),
        };
        o.observe("undeclared", &sig, fnv(&[kk, hs(ghost)]), true, || format!("{undeclared:?} ({route}) for {d:?} {p:?}"), v);
        // Constants bind by name; a declared variable of the same name takes precedence.
        let mut k: HashMap<String, f64> = HashMap::new();
        k.insert("c1".into(), r.int(-9, 9) as f64);
        k.insert("K2".into(), r.int(-9, 9) as f64);
        if let Some(n) = all.first()
            && r.chance(0.5)
        {
            k.insert(n.clone(), 1000.0);
        }
        let mut ce = e.clone();
        for (w, n) in [(11.0, "c1"), (100.0, "K2")] {
            ce = Expr::Add(bx(ce), bx(Expr::Mul(bx(Expr::Const(w)), bx(Expr::Var(n.into())))));
        }
        let case = || format!("{ce:?} ({route}) for {d:?} {p:?} with {}", env_txt(&k));
        let v = match guard(|| compile(via, &ce, &d, &p, &k)) {
            Ok(Ok(f)) => {
                let (dv, pv) = (ints(r, nd), ints(r, np));
                exact(&guard(|| call(&f, &dv, &pv)), sum(&ce, &d, &p, &dv, &pv, &k))
            }
            Ok(Err(er)) => Verdict::Violated(format!("{er:?}")),
            Err(t) => Verdict::Violated(format!("panicked: {t}")),
        };
        o.observe(&format!("constants ({route})"), &sig, kk, true, case, v);
    }
    // Automatic detection: the same order every time, and one argument per variable.
    let mut vs = Vec::new();
    vars_of(&e, &mut vs);
    let n = vs.len();
    let dv = ints(r, n);
    let mut seen: Vec<u64> = Vec::new();
    let mut bad = None;
    for _ in 0..4 {
        match guard(|| JITEval::compile(repr(&e)).map(|f| if n == 1 { f.call_single(dv[0]) } else { f.call_batch(&dv, &[]) })) {
            Ok(Ok(g)) => {
                if !seen.contains(&g.to_bits()) {
                    seen.push(g.to_bits());
                }
            }
            g => bad = Some(format!("{g:?}")),
        }
    }
    let v = match bad {
        Some(t) => Verdict::Violated(t),
        None if seen.len() == 1 => Verdict::Held,
        None => Verdict::Violated(format!("{} different results from the same call", seen.len())),
    };
    o.observe("auto-detected order", &format!("{n}"), hs(&format!("{e:?}{dv:?}")), n > 1, || format!("{e:?} at {dv:?}"), v);
    // The specialised log-density entry: parameters are embedded, the free variable is the input.
    let np = r.below(4);
    let p = names(r, &PAR, np);
    let x = (*r.pick(&["x", "y", "a_obs", "zz", "Bdata"])).to_string();
    let mut all = p.clone();
    all.push(x.clone());
    let (e, _) = weighted(r, &all);
    let k: HashMap<String, f64> = p.iter().map(|n| (n.clone(), r.int(-20, 20) as f64)).collect();
    let case = || format!("{e:?} with {}", env_txt(&k));
    o.announce(&case());
    let kk = hs(&case());
    let sym = CustomSymbolicLogDensity::new(e.clone(), k.clone());
    let xv = r.int(-50, 50) as f64;
    let want = sum(&e, &[x.clone()], &[], &[xv], &[], &k);
    let got = guard(|| GeneralJITCompiler::new()?.compile_custom_expression(&sym).map(|f| f.call_single(xv)));
    let v = match got {
        Ok(Ok(g)) => exact(&Ok(g), want),
        Ok(Err(er)) => Verdict::Violated(format!("{er:?}")),
        Err(t) => Verdict::Violated(format!("panicked: {t}")),
    };
    o.observe("custom binding", "custom", kk, true, || format!("{} at {x}={xv}", case()), v);
    let v = match guard(|| sym.evaluate_single(&x, xv)) {
        Ok(Ok(g)) => exact(&Ok(g), want),
        g => Verdict::Violated(format!("{g:?}")),
    };
    o.observe("custom evaluation", "custom", kk, true, || format!("{} at {x}={xv}", case()), v);
    let two = Expr::Sub(bx(e.clone()), bx(Expr::Var("other".into())));
    let v = match guard(|| GeneralJITCompiler::new()?.compile_custom_expression(&CustomSymbolicLogDensity::new(two.clone(), k.clone())).map(|_| ())) {
        Ok(Err(_)) => Verdict::Held,
        Ok(Ok(())) => Verdict::Violated("compiled although two variables are free".into()),
        Err(t) => Verdict::Violated(format!("panicked: {t}")),
    };
    o.observe("custom undeclared", "custom", kk, true, || format!("{two:?} with {}", env_txt(&k)), v);
}

pub fn c19(m: &mut Mon) {
    m.rule = "cases: (signature 0..5 data × 0..8 parameters, non-alphabetical names, unused and undeclared names, embedded constants) × compile route × calling method; histories of compile/call/drop with up to 12 functions alive; the same histories on 8 threads at once; all in children so that a crash is an observation; distinct: by (expression, signature, arguments) and by history".into();
    m.assumptions.push("a compiled function is neither Send nor Sync, so concurrency means functions compiled, called and dropped on different threads at the same time".into());
    let seed = m.rng.derive("c19");
    let n = m.n(400, 8000);
    batches(m, "process (binding)", limits(), n, |i, o| {
        let mut r = seed.clone().derive(&format!("bind{i}"));
        for _ in 0..12 {
            binding(&mut r, o);
        }
    });
    let nh = m.n(160, 3000);
    batches(m, "process (history)", limits(), nh, |i, o| {
        let mut r = seed.clone().derive(&format!("hist{i}"));
        for h in 0..4 {
            o.announce(&format!("history {i}.{h}"));
            let (calls, bad) = history(&mut r, 150, true);
            let v = match &bad {
                None => Verdict::Held,
                Some((c, t)) => Verdict::Violated(format!("{c}: {t}")),
            };
            o.observe("history", "history", fnv(&[i as u64, h, calls]), calls > 10, || format!("history {i}.{h} of 150 steps, {calls} calls"), v);
        }
    });
    let nt = m.n(60, 1000);
    batches(m, "process (threads)", Limits { parallel: 2, ..limits() }, nt, |i, o| {
        o.announce(&format!("8 threads, round {i}"));
        let bar = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let bar = bar.clone();
                let mut r = seed.clone().derive(&format!("thr{i}.{t}"));
                std::thread::spawn(move || {
                    bar.wait();
                    history(&mut r, 120, true)
                })
            })
            .collect();
        for (t, h) in hs.into_iter().enumerate() {
            let (calls, bad) = h.join().unwrap_or((0, Some(("thread".into(), "panicked".into()))));
            let v = match &bad {
                None => Verdict::Held,
                Some((c, x)) => Verdict::Violated(format!("{c}: {x}")),
            };
            o.observe("concurrent history", "threads", fnv(&[i as u64, t as u64, calls]), calls > 10, || format!("round {i} thread {t}: {calls} calls"), v);
        }
    });
    for k in ["binding (expression)", "binding (tagless)"] {
        m.require(k, 1000);
    }
    for k in ["undeclared", "mismatch refused", "constants (expression)", "constants (tagless)", "custom binding", "custom undeclared", "auto-detected order"] {
        m.require(k, 300);
    }
    m.require("history", 50);
    m.require("concurrent history", 40);
}
