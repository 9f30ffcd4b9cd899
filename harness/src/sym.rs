//! C14 evaluation routes, C15 simplification, C16 equality saturation, C17 caches.

use std::collections::HashMap;
use std::sync::{Arc, Barrier};

use symbolic_math::expr::builders as eb;
use symbolic_math::{
    EgglogOptimize, EvalError, Expr, SymbolicLogDensity, builders, clear_caches, const_expr, expr, get_cache_stats, var,
};
use symbolic_math::optimization::EgglogOptimizer;

use crate::isolate::{Limits, Obs, batches};
use crate::mon::{Mon, Verdict, guard};
use crate::re::{Bad, Env, R, agrees, eval};
use crate::rng::{Rng, fnv, hs};

pub fn bx(e: Expr) -> Box<Expr> {
    Box::new(e)
}

pub const NAMES: [&str; 6] = ["x", "y", "mu", "sigma", "theta_1", "n"];

pub fn konst(r: &mut Rng) -> f64 {
    match r.below(14) {
        12 if r.chance(0.4) => match r.below(5) {
            0 => r.edge(63) as f64,
            1 => r.logu(0.0, 25.0).round() * if r.chance(0.5) { 1.0 } else { -1.0 },
            2 => r.logu(-40.0, 0.0) * if r.chance(0.5) { 1.0 } else { -1.0 },
            3 => r.logu(-300.0, 300.0),
            _ => *r.pick(&[5e-324, f64::MIN_POSITIVE, 1e-310, f64::MAX, -f64::MAX, f64::EPSILON, 1e22, 1e23, 9.5e18, 1.8446744073709552e19]),
        },
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 2.0,
        4 => *r.pick(&[0.5, -0.5, 3.0, -2.0, 4.0, -3.0, 10.0, 1.5]),
        5 => r.int(-9, 9) as f64,
        6 => r.normal() * 10f64.powf(r.range(-6.0, 6.0)),
        7 => *r.pick(&[std::f64::consts::PI, 0.1, 1.0 / 3.0, 0.04, 0.25, 1e-5, 0.049, 1.25e-9, 123456.789, 1e10, 5e22, -0.0]),
        _ => r.normal() * 2.0,
    }
}

pub fn unary(r: &mut Rng, a: Expr) -> Expr {
    match r.below(7) {
        0 | 1 => Expr::Ln(bx(a)),
        2 => Expr::Exp(bx(a)),
        3 => Expr::Sqrt(bx(a)),
        4 => Expr::Sin(bx(a)),
        5 => Expr::Cos(bx(a)),
        _ => Expr::Neg(bx(a)),
    }
}
pub fn binary(r: &mut Rng, a: Expr, b: Expr) -> Expr {
    match r.below(9) {
        0 | 1 => Expr::Add(bx(a), bx(b)),
        2 | 3 => Expr::Sub(bx(a), bx(b)),
        4 | 5 => Expr::Mul(bx(a), bx(b)),
        6 | 7 => Expr::Div(bx(a), bx(b)),
        _ => Expr::Pow(bx(a), bx(b)),
    }
}

/// An exponent: the specially treated ones, halves, quarters, larger and negative whole
/// numbers, and now and then one beyond a narrower integer type.
pub fn exponent(r: &mut Rng) -> f64 {
    match r.below(12) {
        0..=4 => *r.pick(&[0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, 4.0, 5.0]),
        5 | 6 => f64::from(r.int(-12, 12) as i32) / 2.0,
        7 => f64::from(r.int(-24, 24) as i32) / 4.0,
        8 => r.int(-40, 40) as f64,
        9 => *r.pick(&[1.0 / 3.0, -1.0 / 3.0, 1.5, 2.5, -0.5, 1e-9, 63.0, 64.0, 65.0, 127.0, 128.0, 255.0, 256.0]),
        10 if r.chance(0.3) => r.edge(62) as f64,
        _ => 2.0,
    }
}

/// A random expression over the given variables; rewrite-relevant shapes are frequent.
pub fn gen_expr(r: &mut Rng, vars: &[&str], depth: usize) -> Expr {
    if depth == 0 || r.chance(0.12) {
        return if r.chance(0.6) { Expr::Var((*r.pick(vars)).to_string()) } else { Expr::Const(konst(r)) };
    }
    match r.below(14) {
        0..=4 => {
            let a = gen_expr(r, vars, depth - 1);
            let d2 = r.below(depth);
            let b = gen_expr(r, vars, d2);
            if r.chance(0.5) { binary(r, a, b) } else { binary(r, b, a) }
        }
        5..=7 => {
            let a = gen_expr(r, vars, depth - 1);
            unary(r, a)
        }
        8 => {
            // Twice the same subexpression.
            let a = gen_expr(r, vars, depth - 1);
            binary(r, a.clone(), a)
        }
        9 => {
            // A power with a constant exponent, often nested.
            let a = gen_expr(r, vars, depth - 1);
            let k = exponent(r);
            let p = Expr::Pow(bx(a), bx(Expr::Const(k)));
            match r.below(5) {
                0 => Expr::Ln(bx(p)),
                1 => Expr::Sqrt(bx(p)),
                2 => Expr::Pow(bx(p), bx(Expr::Const(*r.pick(&[0.5, 2.0, -1.0, 3.0, 1.5, 0.25])))),
                _ => p,
            }
        }
        10 => {
            // Neutral and absorbing constants in either position.
            let a = gen_expr(r, vars, depth - 1);
            let c = Expr::Const(*r.pick(&[0.0, 1.0, -1.0, 2.0]));
            if r.chance(0.5) { binary(r, a, c) } else { binary(r, c, a) }
        }
        11 => {
            // Inverse pairs, with and without coefficients.
            let a = gen_expr(r, vars, depth - 1);
            let c = gen_expr(r, vars, 0);
            match r.below(7) {
                0 => Expr::Ln(bx(Expr::Exp(bx(a)))),
                1 => Expr::Exp(bx(Expr::Ln(bx(a)))),
                2 => Expr::Exp(bx(Expr::Mul(bx(c), bx(Expr::Ln(bx(a)))))),
                3 => Expr::Exp(bx(Expr::Mul(bx(Expr::Ln(bx(a))), bx(c)))),
                4 => Expr::Neg(bx(Expr::Neg(bx(a)))),
                5 => Expr::Sqrt(bx(Expr::Mul(bx(a.clone()), bx(a)))),
                _ => Expr::Mul(bx(c), bx(Expr::Ln(bx(a)))),
            }
        }
        12 => {
            // Two related terms, the shapes that collection rules look for.
            let a = gen_expr(r, vars, depth - 1);
            let b = gen_expr(r, vars, 0);
            let c = gen_expr(r, vars, 0);
            match r.below(8) {
                0 => Expr::Add(bx(Expr::Mul(bx(b), bx(a.clone()))), bx(Expr::Mul(bx(c), bx(a)))),
                1 => Expr::Add(bx(Expr::Mul(bx(a.clone()), bx(b))), bx(Expr::Mul(bx(a), bx(c)))),
                2 => Expr::Sub(bx(Expr::Ln(bx(a))), bx(Expr::Ln(bx(b)))),
                3 => Expr::Mul(bx(Expr::Exp(bx(a))), bx(Expr::Exp(bx(b)))),
                4 => Expr::Mul(bx(Expr::Pow(bx(a.clone()), bx(b))), bx(Expr::Pow(bx(a), bx(c)))),
                5 => Expr::Div(bx(Expr::Pow(bx(a.clone()), bx(b))), bx(Expr::Pow(bx(a), bx(c)))),
                6 => Expr::Mul(bx(Expr::Add(bx(a.clone()), bx(b.clone()))), bx(Expr::Sub(bx(a), bx(b)))),
                _ => Expr::Add(
                    bx(Expr::Pow(bx(Expr::Sin(bx(a.clone()))), bx(Expr::Const(2.0)))),
                    bx(Expr::Pow(bx(Expr::Cos(bx(a))), bx(Expr::Const(2.0)))),
                ),
            }
        }
        _ => {
            let a = gen_expr(r, vars, depth - 1);
            let b = gen_expr(r, vars, 0);
            if r.chance(0.5) { Expr::Div(bx(Expr::Div(bx(a), bx(b.clone()))), bx(b)) } else { Expr::Sub(bx(a.clone()), bx(Expr::Sub(bx(a), bx(b)))) }
        }
    }
}

/// One instance of a textbook identity's left-hand side over small subterms.
pub fn template(r: &mut Rng, vars: &[&str]) -> Expr {
    use Expr::{Add, Cos, Div, Exp, Ln, Mul, Neg, Pow, Sin, Sqrt, Sub};
    let leaf = |r: &mut Rng| {
        let l = gen_expr(r, vars, 0);
        if r.chance(0.25) { unary(r, l) } else { l }
    };
    let (a, b, c, d) = (leaf(r), leaf(r), leaf(r), leaf(r));
    let v = Expr::Var((*r.pick(vars)).to_string());
    let k = |r: &mut Rng| bx(Expr::Const(konst(r)));
    let n = |r: &mut Rng| bx(Expr::Const(exponent(r)));
    let two = || bx(Expr::Const(2.0));
    match r.below(40) {
        36 => Pow(k(r), bx(v)),
        37 => Sqrt(bx(Pow(bx(leaf(r)), n(r)))),
        38 => Pow(bx(Sqrt(bx(a))), n(r)),
        39 => Pow(bx(Neg(bx(a))), n(r)),
        0 => Sin(bx(Neg(bx(a)))),
        1 => Cos(bx(Neg(bx(a)))),
        2 => Mul(bx(Div(bx(a), bx(b))), bx(Div(bx(c), bx(d)))),
        3 => Div(bx(Div(bx(a), bx(b))), bx(c)),
        4 => Div(bx(a), bx(Div(bx(b), bx(c)))),
        5 => Mul(bx(Add(bx(a.clone()), bx(b.clone()))), bx(Sub(bx(a), bx(b)))),
        6 => Add(bx(v.clone()), bx(Mul(k(r), bx(v)))),
        7 => Add(bx(Mul(k(r), bx(v.clone()))), bx(v)),
        8 => Add(bx(Mul(k(r), bx(v.clone()))), bx(Mul(k(r), bx(v)))),
        9 => Sub(bx(Mul(k(r), bx(v.clone()))), bx(Mul(k(r), bx(v)))),
        10 => Add(bx(Ln(bx(a))), bx(Ln(bx(b)))),
        11 => Sub(bx(Ln(bx(a))), bx(Ln(bx(b)))),
        12 => Mul(bx(Exp(bx(a))), bx(Exp(bx(b)))),
        13 => Div(bx(Exp(bx(a))), bx(Exp(bx(b)))),
        14 => Pow(bx(Exp(bx(a))), n(r)),
        15 => Mul(bx(Pow(bx(v.clone()), n(r))), bx(Pow(bx(v), n(r)))),
        16 => Div(bx(Pow(bx(v.clone()), n(r))), bx(Pow(bx(v), n(r)))),
        17 => Pow(bx(Pow(bx(v), n(r))), n(r)),
        18 if r.chance(0.15) => Ln(bx(Pow(bx(v), bx(Expr::Const(r.edge(62) as f64))))),
        18 => Ln(bx(Pow(bx(v), n(r)))),
        19 => Ln(bx(Sqrt(bx(v)))),
        20 => Sqrt(bx(Pow(bx(v), n(r)))),
        21 => Exp(bx(Mul(n(r), bx(Ln(bx(v)))))),
        22 => Exp(bx(Mul(bx(Ln(bx(v))), n(r)))),
        23 => Exp(bx(Add(bx(a), bx(Ln(bx(v)))))),
        24 => Sub(bx(a.clone()), bx(Add(bx(a), bx(b)))),
        25 => Sub(bx(Expr::Const(0.0)), bx(a)),
        26 => Mul(bx(Expr::Const(-1.0)), bx(Sub(bx(a), bx(b)))),
        27 => Neg(bx(Sub(bx(a), bx(b)))),
        28 => Sub(bx(a), bx(Neg(bx(b)))),
        29 => Add(bx(a), bx(Neg(bx(b)))),
        30 => Mul(bx(Neg(bx(a))), bx(Neg(bx(b)))),
        31 => Div(bx(Mul(bx(a), bx(b.clone()))), bx(b)),
        32 => Add(bx(Pow(bx(Sin(bx(v.clone()))), two())), bx(Pow(bx(Cos(bx(v))), two()))),
        33 => Add(bx(Mul(bx(Sin(bx(v.clone()))), bx(Sin(bx(v.clone()))))), bx(Mul(bx(Cos(bx(v.clone()))), bx(Cos(bx(v)))))),
        34 => Mul(bx(Sqrt(bx(a.clone()))), bx(Sqrt(bx(a)))),
        _ => Pow(bx(Neg(bx(v))), n(r)),
    }
}

/// Values with plenty of zeros, negatives and exact integers.
pub fn val(r: &mut Rng) -> f64 {
    match r.below(11) {
        10 if r.chance(0.4) => (1.0 + r.normal().signum() * r.logu(-12.0, -3.0)) * if r.chance(0.3) { -1.0 } else { 1.0 },
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0]),
        2 => r.int(-9, 9) as f64,
        3 => -r.logu(-3.0, 2.0),
        4 | 5 => r.logu(-3.0, 2.0),
        _ => r.normal() * 2.0,
    }
}
pub fn env(r: &mut Rng, vars: &[&str]) -> Env {
    if r.chance(0.05) {
        // where huge exponents still have a value
        return vars.iter().map(|v| ((*v).to_string(), *r.pick(&[1.0, -1.0, -1.0, 1.0 + 1e-11, -1.0 - 1e-11, -1.0 + 1e-9, 0.0]))).collect();
    }
    vars.iter().map(|v| ((*v).to_string(), val(r))).collect()
}
pub fn env_txt(e: &Env) -> String {
    let mut v: Vec<_> = e.iter().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    format!("{v:?}")
}
/// Structure of an expression without its constants, used as a stable signature.
pub fn shape(e: &Expr) -> String {
    match e {
        Expr::Const(c) if [0.0, 1.0, -1.0, 2.0, 0.5].contains(c) => format!("{c}"),
        Expr::Const(_) => "c".into(),
        Expr::Var(_) => "v".into(),
        Expr::Add(a, b) => format!("({}+{})", shape(a), shape(b)),
        Expr::Sub(a, b) => format!("({}-{})", shape(a), shape(b)),
        Expr::Mul(a, b) => format!("({}*{})", shape(a), shape(b)),
        Expr::Div(a, b) => format!("({}/{})", shape(a), shape(b)),
        Expr::Pow(a, b) => format!("({}^{})", shape(a), shape(b)),
        Expr::Ln(a) => format!("ln{}", shape(a)),
        Expr::Exp(a) => format!("exp{}", shape(a)),
        Expr::Sqrt(a) => format!("sqrt{}", shape(a)),
        Expr::Sin(a) => format!("sin{}", shape(a)),
        Expr::Cos(a) => format!("cos{}", shape(a)),
        Expr::Neg(a) => format!("neg{}", shape(a)),
    }
}
pub fn key(e: &Expr, x: &Env) -> u64 {
    fnv(&[hs(&format!("{e:?}")), hs(&env_txt(x))])
}
pub fn size(e: &Expr) -> usize {
    match e {
        Expr::Const(_) | Expr::Var(_) => 1,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => 1 + size(a) + size(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => 1 + size(a),
    }
}
pub fn vars_of(e: &Expr, out: &mut Vec<String>) {
    match e {
        Expr::Const(_) => {}
        Expr::Var(n) => {
            if !out.contains(n) {
                out.push(n.clone());
            }
        }
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => {
            vars_of(a, out);
            vars_of(b, out);
        }
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => vars_of(a, out),
    }
}
/// Is some factor the literal constant zero (where evaluation may skip the other factor)?
fn has_zero_factor(e: &Expr) -> bool {
    match e {
        Expr::Const(_) | Expr::Var(_) => false,
        Expr::Mul(a, b) => {
            matches!(**a, Expr::Const(0.0)) || matches!(**b, Expr::Const(0.0)) || has_zero_factor(a) || has_zero_factor(b)
        }
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => has_zero_factor(a) || has_zero_factor(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => has_zero_factor(a),
    }
}

/// Judge one evaluation result against the reference.
pub fn judge(e: &Expr, r: R, got: &Result<Result<f64, EvalError>, String>) -> Verdict {
    let got = match got {
        Err(p) => return Verdict::Violated(format!("panicked: {p}")),
        Ok(g) => g,
    };
    match (r, got) {
        (R::Val(..), Ok(g)) => match agrees(r, *g) {
            Some(Ok(())) => Verdict::Held,
            Some(Err(t)) => Verdict::Violated(t),
            None => Verdict::Inconclusive,
        },
        (R::Val(v, _), Err(er)) => Verdict::Violated(format!("error {er:?}, exact value {:?}", v.f())),
        (R::Err(b), Ok(g)) => {
            // A product with a literal zero has a value whatever the other factor does.
            if has_zero_factor(e) { Verdict::Inconclusive } else { Verdict::Violated(format!("got {g:?} where evaluation is undefined ({b:?})")) }
        }
        (R::Err(Bad::Missing), Err(_)) => Verdict::Held,
        (R::Err(_), Err(EvalError::UndefinedVariable(n))) => Verdict::Violated(format!("reported {n} undefined although it is bound")),
        (R::Err(_), Err(_)) => Verdict::Held,
        (R::Unknown, _) => Verdict::Inconclusive,
    }
}

// ---------------------------------------------------------------- C14

pub fn c14(m: &mut Mon) {
    m.rule = "cases: random expressions (13 node kinds, rewrite-relevant shapes) × assignments (zeros, negatives, integers, missing variables) × evaluation route × batch width 0..40 and 1000; non-trivial: the oracle decided a value or a definite error; distinct: by (route, expression, assignment)".into();
    m.assumptions.push("decided only where every subexpression is finite and well conditioned; overflow and 0·undefined are counted inconclusive".into());
    let mut r = m.rng.derive("c14");
    let n = m.n(60_000, 1_500_000);
    for i in 0..n {
        if m.spent() {
            break;
        }
        let nv = r.below(4);
        let vars: Vec<&str> = if nv == 0 { vec!["x"] } else { NAMES[..nv + 1].to_vec() };
        let depth = 1 + r.below(5);
        let e = gen_expr(&mut r, &vars, depth);
        let mut x = env(&mut r, &vars);
        if r.chance(0.1) {
            x.remove(*r.pick(&vars));
        }
        if r.chance(0.2) {
            x.insert("unused".into(), r.fin());
        }
        let k = key(&e, &x);
        let reference = eval(&e, &x);
        let case = || format!("{e:?} at {}", env_txt(&x));
        let got = guard(|| e.evaluate(&x));
        let sh = shape(&e);
        m.observe("evaluate", &sh, k, true, case, judge(&e, reference, &got));

        // Environment tables.
        if i % 4 == 0 {
            let w = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]);
            let w = if i % 2000 == 0 { *r.pick(&[300usize, 1100, 5000]) } else { w };
            let mut sets: Vec<Env> = Vec::with_capacity(w);
            for j in 0..w {
                // Related rows: the same again, the same values under other names, one value changed.
                let mut s = if j > 0 { sets[j - 1].clone() } else { Env::new() };
                match r.below(6) {
                    0 if j > 0 => {}
                    1 if j > 0 => {
                        let mut vals: Vec<f64> = vars.iter().filter_map(|n| s.get(*n).copied()).collect();
                        let turn = usize::from(!vals.is_empty());
                        vals.rotate_left(turn);
                        for (n, v) in vars.iter().zip(vals) {
                            s.insert((*n).to_string(), v);
                        }
                    }
                    2 if j > 0 => {
                        s.insert((*r.pick(&vars)).to_string(), val(&mut r));
                    }
                    _ => s = env(&mut r, &vars),
                }
                if r.chance(0.01) {
                    s.remove(*r.pick(&vars));
                }
                sets.push(s);
            }
            let got = guard(|| e.evaluate_batch_vars(&sets));
            let v = judge_batch(&e, &sets.iter().map(|s| eval(&e, s)).collect::<Vec<_>>(), &got);
            m.observe("evaluate_batch_vars", &sh, fnv(&[k, w as u64]), w > 0, || format!("{e:?} over {w} assignments"), v);
        }
        // One-variable routes: the other variables are unbound.
        let mut vs = Vec::new();
        vars_of(&e, &mut vs);
        let mut sorted = vs.clone();
        sorted.sort();
        m.observe("variables", &sh, k, !vs.is_empty(), case, if e.variables() == sorted { Verdict::Held } else { Verdict::Violated(format!("{:?}", e.variables())) });
        let name = if vs.is_empty() || r.chance(0.1) { "x".to_string() } else { r.pick(&vs).clone() };
        let one = |v: f64| -> Env { [(name.clone(), v)].into_iter().collect() };
        let v0 = val(&mut r);
        let r1 = eval(&e, &one(v0));
        let case1 = || format!("{e:?} with {name} = {v0:?}");
        let k1 = fnv(&[key(&e, &one(v0)), hs(&name)]);
        let got = guard(|| e.evaluate_single_var(&name, v0));
        m.observe("evaluate_single_var", &sh, k1, true, case1, judge(&e, r1, &got));
        let got = guard(|| e.evaluate_smart(&name, v0));
        m.observe("evaluate_smart", &sh, k1, true, case1, judge(&e, r1, &got));
        match guard(|| (e.evaluate_linear(&name, v0), e.extract_linear_coefficients(&name), e.evaluate_polynomial(&name, v0))) {
            Err(p) => m.observe("evaluate_linear", &sh, k1, true, case1, Verdict::Violated(p)),
            Ok((lin, co, poly)) => {
                if let Some(g) = lin {
                    m.observe("evaluate_linear", &sh, k1, true, case1, judge(&e, r1, &Ok(Ok(g))));
                }
                if let Some((a, b)) = co {
                    let g = a * v0 + b;
                    m.observe("extract_linear_coefficients", &sh, k1, true, case1, judge(&e, r1, &Ok(Ok(g))));
                }
                if let Some(g) = poly {
                    m.observe("evaluate_polynomial", &sh, k1, true, case1, judge(&e, r1, &Ok(Ok(g))));
                }
            }
        }
        if i % 3 == 0 {
            let w = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 40]);
            let w = if i % 300 == 0 { *r.pick(&[1000usize, 1024, 1025, 2049]) } else { w };
            let w = if i % 15_000 == 0 { 66_000 } else { w };
            let mut xs: Vec<f64> = (0..w).map(|_| val(&mut r)).collect();
            for j in 1..w {
                if r.chance(0.15) {
                    xs[j] = *r.pick(&[xs[j - 1], -xs[j - 1], xs[0]]); // repeated and mirrored inputs
                }
            }
            let refs: Vec<R> = xs.iter().map(|v| eval(&e, &one(*v))).collect();
            let case = || format!("{e:?} over {name} in {:?}{}", &xs[..w.min(6)], if w > 6 { format!(" … ({w})") } else { String::new() });
            let kb = fnv(&[k1, w as u64]);
            let got = guard(|| e.evaluate_batch(&name, &xs));
            m.observe("evaluate_batch", &sh, kb, w > 0, case, judge_batch(&e, &refs, &got));
            let got = guard(|| e.evaluate_batch_optimized(&name, &xs));
            m.observe("evaluate_batch_optimized", &sh, kb, w > 0, case, judge_batch(&e, &refs, &got));
        }
        if i % 5 == 0 {
            let other = if vs.len() > 1 { vs.iter().find(|v| **v != name).unwrap().clone() } else { "zz".to_string() };
            let (w, h) = if i % 500 == 0 { (r.below(70), r.below(70)) } else { (r.below(5), r.below(5)) };
            let xs: Vec<f64> = (0..w).map(|_| val(&mut r)).collect();
            let ys: Vec<f64> = (0..h).map(|j| if !xs.is_empty() && r.chance(0.2) { xs[j % xs.len()] } else { val(&mut r) }).collect();
            let got = guard(|| e.evaluate_grid(&name, &xs, &other, &ys));
            let mut refs = Vec::new();
            for y in &ys {
                for x in &xs {
                    refs.push(eval(&e, &[(name.clone(), *x), (other.clone(), *y)].into_iter().collect()));
                }
            }
            let shape_ok = match &got {
                Ok(Ok(g)) => g.len() == h && g.iter().all(|row| row.len() == w),
                _ => true,
            };
            let flat = got.map(|g| g.map(|g| g.into_iter().flatten().collect::<Vec<_>>()));
            let v = if shape_ok { judge_batch(&e, &refs, &flat) } else { Verdict::Violated("grid has the wrong shape".into()) };
            m.observe("evaluate_grid", &sh, fnv(&[k1, w as u64, h as u64]), w * h > 0, || format!("{e:?} over {name} {xs:?} × {other} {ys:?}"), v);
        }
        if i % 3 == 1 {
            log_density(m, &mut r, &e, &vars, &sh);
        }
    }
    builder_cases(m, &mut r);
    macro_cases(m, &mut r);
    for (k, q) in [("evaluate", 4000), ("evaluate_single_var", 3000), ("evaluate_smart", 3000), ("evaluate_linear", 80), ("extract_linear_coefficients", 80),
        ("evaluate_polynomial", 80), ("evaluate_batch", 800), ("evaluate_batch_optimized", 800), ("evaluate_batch_vars", 400), ("evaluate_grid", 400),
        ("SymbolicLogDensity", 1500), ("builders", 500), ("operators", 500), ("macros", 100)] {
        m.require(k, q);
    }
}

fn judge_batch(e: &Expr, refs: &[R], got: &Result<Result<Vec<f64>, EvalError>, String>) -> Verdict {
    match got {
        Err(p) => Verdict::Violated(format!("panicked: {p}")),
        Ok(Ok(v)) => {
            if v.len() != refs.len() {
                return Verdict::Violated(format!("{} results for {} inputs", v.len(), refs.len()));
            }
            let mut some = refs.is_empty();
            for (i, (g, r)) in v.iter().zip(refs).enumerate() {
                match judge(e, *r, &Ok(Ok(*g))) {
                    Verdict::Violated(t) => return Verdict::Violated(format!("element {i}: {t}")),
                    Verdict::Held => some = true,
                    Verdict::Inconclusive => {}
                }
            }
            if some { Verdict::Held } else { Verdict::Inconclusive }
        }
        Ok(Err(er)) => {
            if refs.iter().all(|r| matches!(r, R::Val(..))) {
                Verdict::Violated(format!("error {er:?} although every input has a value"))
            } else if refs.iter().any(|r| matches!(r, R::Err(_))) {
                Verdict::Held
            } else {
                Verdict::Inconclusive
            }
        }
    }
}

fn log_density(m: &mut Mon, r: &mut Rng, e: &Expr, vars: &[&str], sh: &str) {
    // Some variables become stored parameters; explicit values take precedence.
    let params: Env = vars.iter().map(|v| (r.chance(0.5), (*v).to_string(), val(r))).filter(|t| t.0).map(|t| (t.1, t.2)).collect();
    let given: Env = vars.iter().map(|v| (r.chance(0.7), (*v).to_string(), val(r))).filter(|t| t.0).map(|t| (t.1, t.2)).collect();
    let mut merged = params.clone();
    merged.extend(given.clone());
    let sld = SymbolicLogDensity::new(e.clone(), params.clone());
    let case = || format!("{e:?} parameters {} at {}", env_txt(&params), env_txt(&given));
    let k = fnv(&[key(e, &params), key(e, &given)]);
    let mut vs = e.variables();
    vs.sort();
    let mut got_vars = sld.variables.clone();
    got_vars.sort();
    m.observe("SymbolicLogDensity", sh, k, true, case, if vs == got_vars { judge(e, eval(e, &merged), &guard(|| sld.evaluate(&given))) } else { Verdict::Violated(format!("variables {got_vars:?}")) });
    let name = (*r.pick(vars)).to_string();
    let v = val(r);
    let mut one = params.clone();
    one.insert(name.clone(), v);
    let case1 = || format!("{e:?} parameters {} with {name} = {v:?}", env_txt(&params));
    m.observe("SymbolicLogDensity", sh, fnv(&[k, 1]), true, case1, judge(e, eval(e, &one), &guard(|| sld.evaluate_single(&name, v))));
    // The same, through the form handed to the compiler.
    let cld = symbolic_math::CustomSymbolicLogDensity::new(e.clone(), params.clone());
    let mut got_vars = cld.variables.clone();
    got_vars.sort();
    m.observe("CustomSymbolicLogDensity", sh, k, true, case, if vs == got_vars { judge(e, eval(e, &merged), &guard(|| cld.evaluate(&given))) } else { Verdict::Violated(format!("variables {got_vars:?}")) });
    m.observe("CustomSymbolicLogDensity", sh, fnv(&[k, 1]), true, case1, judge(e, eval(e, &one), &guard(|| cld.evaluate_single(&name, v))));
    // Substituting the stored parameters leaves the value at (parameters, rest) unchanged.
    let mut rest = given.clone();
    rest.retain(|k, _| !params.contains_key(k));
    let mut full = params.clone();
    full.extend(rest.clone());
    let got = guard(|| {
        let s = sld.clone().substitute_parameters();
        s.expression.evaluate(&rest)
    });
    // A parameter that is zero becomes a literal zero, so undefined cofactors may be skipped.
    let zero = params.values().any(|v| *v == 0.0);
    let reference = match eval(e, &full) {
        R::Err(_) if zero => R::Unknown,
        r => r,
    };
    m.observe("SymbolicLogDensity", sh, fnv(&[k, 2]), true, case, judge(e, reference, &got));
}

fn ve(n: &str) -> Expr {
    Expr::Var(n.into())
}

/// Builders and operators: the tree they make has the value of the formula they stand for.
fn builder_cases(m: &mut Mon, r: &mut Rng) {
    use crate::hp::{D, PI, d};
    let n = m.n(400, 6000);
    for _ in 0..n {
        let (x, mu, s) = (val(r), val(r), r.pos());
        let e: Env = [("x".to_string(), x), ("mu".to_string(), mu), ("sigma".to_string(), s)].into_iter().collect();
        let k = fnv(&[x.to_bits(), mu.to_bits(), s.to_bits()]);
        let (dx, dm, ds) = (d(x), d(mu), d(s));
        let z2 = (dx - dm) * (dx - dm) / (ds * ds);
        let lnorm = -((PI * d(2.0)).ln() / d(2.0)) - ds.ln();
        let coefs: Vec<f64> = (0..r.below(7)).map(|_| val(r)).collect();
        let mut poly = d(0.0);
        for c in coefs.iter().rev() {
            poly = poly * dx + d(*c);
        }
        let one = d(1.0);
        let list: Vec<(&str, Expr, D)> = vec![
            ("normal_log_pdf", builders::normal_log_pdf("x", "mu", "sigma"), lnorm - z2 / d(2.0)),
            ("normal_log_pdf(const)", builders::normal_log_pdf(ve("x"), mu, s), lnorm - z2 / d(2.0)),
            ("gaussian_kernel", builders::gaussian_kernel("x", "mu", "sigma"), (-(z2 / d(2.0))).exp()),
            ("logistic", builders::logistic("x"), one / (one + (-dx).exp())),
            ("softplus", builders::softplus("x"), (one + dx.exp()).ln()),
            ("polynomial", builders::polynomial("x", &coefs), poly),
            ("quadratic_term", eb::quadratic_term("x", mu, s), -(z2 / d(2.0))),
            ("linear_term", eb::linear_term("x", mu), dx * dm),
            ("log_normal_constant", eb::log_normal_constant(s), lnorm),
        ];
        for (name, ex, want) in list {
            // The tree itself must be well conditioned here: take its own bound and exact value.
            let tree = eval(&ex, &e);
            let v = match tree {
                R::Val(tv, err) => {
                    let diff = (tv - want).f().abs();
                    if diff <= 8.0 * err + 1e-15 * want.h.abs() {
                        judge(&ex, tree, &guard(|| ex.evaluate(&e)))
                    } else {
                        Verdict::Violated(format!("denotes {:?}, formula gives {:?}", tv.f(), want.f()))
                    }
                }
                R::Err(b) => Verdict::Violated(format!("undefined ({b:?}), formula gives {:?}", want.f())),
                R::Unknown => Verdict::Inconclusive,
            };
            m.observe("builders", name, fnv(&[k, hs(name)]), true, || format!("{name} x={x:?} mu={mu:?} sigma={s:?} coefficients {coefs:?}"), v);
        }
        // Operators and methods.
        let (a, c) = (val(r), konst(r));
        let e2: Env = [("x".to_string(), x), ("y".to_string(), a)].into_iter().collect();
        let ops: Vec<(&str, Expr, Expr)> = vec![
            ("x+y", ve("x") + ve("y"), Expr::Add(bx(ve("x")), bx(ve("y")))),
            ("x-y", ve("x") - ve("y"), Expr::Sub(bx(ve("x")), bx(ve("y")))),
            ("x*y", ve("x") * ve("y"), Expr::Mul(bx(ve("x")), bx(ve("y")))),
            ("x/y", ve("x") / ve("y"), Expr::Div(bx(ve("x")), bx(ve("y")))),
            ("-x", -ve("x"), Expr::Neg(bx(ve("x")))),
            ("x+c", ve("x") + c, Expr::Add(bx(ve("x")), bx(Expr::Const(c)))),
            ("c+x", c + ve("x"), Expr::Add(bx(Expr::Const(c)), bx(ve("x")))),
            ("x-c", ve("x") - c, Expr::Sub(bx(ve("x")), bx(Expr::Const(c)))),
            ("c-x", c - ve("x"), Expr::Sub(bx(Expr::Const(c)), bx(ve("x")))),
            ("x*c", ve("x") * c, Expr::Mul(bx(ve("x")), bx(Expr::Const(c)))),
            ("c*x", c * ve("x"), Expr::Mul(bx(Expr::Const(c)), bx(ve("x")))),
            ("x/c", ve("x") / c, Expr::Div(bx(ve("x")), bx(Expr::Const(c)))),
            ("c/x", c / ve("x"), Expr::Div(bx(Expr::Const(c)), bx(ve("x")))),
            ("powf", ve("x").powf(3.0), Expr::Pow(bx(ve("x")), bx(Expr::Const(3.0)))),
            ("powf(y)", ve("x").powf(ve("y")), Expr::Pow(bx(ve("x")), bx(ve("y")))),
            ("natural_log", ve("x").natural_log(), Expr::Ln(bx(ve("x")))),
            ("exponential", ve("x").exponential(), Expr::Exp(bx(ve("x")))),
            ("square_root", ve("x").square_root(), Expr::Sqrt(bx(ve("x")))),
            ("sin", ve("x").sin(), Expr::Sin(bx(ve("x")))),
            ("cos", ve("x").cos(), Expr::Cos(bx(ve("x")))),
            ("square", ve("x").square(), Expr::Pow(bx(ve("x")), bx(Expr::Const(2.0)))),
            ("cube", ve("x").cube(), Expr::Pow(bx(ve("x")), bx(Expr::Const(3.0)))),
            ("Expr::sub", Expr::sub(ve("x"), ve("y")), Expr::Sub(bx(ve("x")), bx(ve("y")))),
            ("Expr::div", Expr::div(ve("x"), ve("y")), Expr::Div(bx(ve("x")), bx(ve("y")))),
            ("Expr::pow", Expr::pow(ve("x"), ve("y")), Expr::Pow(bx(ve("x")), bx(ve("y")))),
        ];
        for (name, ex, want) in ops {
            let v = judge(&want, eval(&want, &e2), &guard(|| ex.evaluate(&e2)));
            m.observe("operators", name, fnv(&[k, a.to_bits(), c.to_bits(), hs(name)]), true, || format!("{name} x={x:?} y={a:?} c={c:?}"), v);
        }
        let ab = ve("x").abs();
        let v = judge(&ab, if x == 0.0 { eval(&ab, &e2) } else { R::Val(d(x.abs()), 4e-16 * x.abs()) }, &guard(|| ab.evaluate(&e2)));
        m.observe("operators", "abs", fnv(&[k, 77]), true, || format!("abs x={x:?}"), v);
    }
}

fn macro_cases(m: &mut Mon, r: &mut Rng) {
    for _ in 0..m.n(60, 600) {
        let (x, y) = (val(r), val(r));
        let e: Env = [("x".to_string(), x), ("y".to_string(), y)].into_iter().collect();
        let list: Vec<(&str, Expr, Expr)> = vec![
            ("x", expr!(x), ve("x")),
            ("2.5", expr!(2.5), Expr::Const(2.5)),
            ("x + y", expr!(x + y), ve("x") + ve("y")),
            ("x - y", expr!(x - y), Expr::Sub(bx(ve("x")), bx(ve("y")))),
            ("2.0 * x", expr!(2.0 * x), Expr::Mul(bx(Expr::Const(2.0)), bx(ve("x")))),
            ("x / y", expr!(x / y), Expr::Div(bx(ve("x")), bx(ve("y")))),
            ("x ^ 2.0", expr!(x ^ 2.0), Expr::Pow(bx(ve("x")), bx(Expr::Const(2.0)))),
            ("ln(x)", expr!(ln(x)), Expr::Ln(bx(ve("x")))),
            ("exp(x)", expr!(exp(x)), Expr::Exp(bx(ve("x")))),
            ("sqrt(x)", expr!(sqrt(x)), Expr::Sqrt(bx(ve("x")))),
            ("sin(x)", expr!(sin(x)), Expr::Sin(bx(ve("x")))),
            ("cos(y)", expr!(cos(y)), Expr::Cos(bx(ve("y")))),
            ("var!", var!("y"), ve("y")),
            ("const_expr!", const_expr!(-1.25), Expr::Const(-1.25)),
        ];
        for (name, ex, want) in list {
            let v = judge(&want, eval(&want, &e), &guard(|| ex.evaluate(&e)));
            m.observe("macros", name, fnv(&[x.to_bits(), y.to_bits(), hs(name)]), true, || format!("expr!({name}) x={x:?} y={y:?}"), v);
        }
    }
}

// ---------------------------------------------------------------- C15 / C16

/// Compare the exact values of two expressions and what the library makes of the second.
pub fn same_value(orig: &Expr, new: &Expr, x: &Env) -> Verdict {
    let R::Val(v1, e1) = eval(orig, x) else { return Verdict::Inconclusive };
    let got = guard(|| new.evaluate(x));
    match eval(new, x) {
        R::Val(v2, e2) => {
            let tol = 64.0 * (e1 + e2) + 1e-14 * v1.h.abs() + 1e-280;
            if (v1 - v2).f().abs() > tol {
                return Verdict::Violated(format!("{new:?} has the value {:?}, the original {:?}", v2.f(), v1.f()));
            }
            match got {
                Ok(Ok(g)) if (d_(g) - v1.f()).abs() <= tol + 1e-14 * v1.h.abs() => Verdict::Held,
                g => Verdict::Violated(format!("{new:?} evaluates to {g:?}, the original is {:?}", v1.f())),
            }
        }
        R::Err(b) => Verdict::Violated(format!("{new:?} is undefined ({b:?}), the original is {:?}", v1.f())),
        R::Unknown => {
            // Undecidable in exact terms; a definite failure of the library is still one.
            match got {
                Ok(Ok(g)) if g.is_finite() => Verdict::Inconclusive,
                g => Verdict::Violated(format!("{new:?} evaluates to {g:?}, the original is {:?}", v1.f())),
            }
        }
    }
}
fn d_(x: f64) -> f64 {
    x
}

/// A pair of different expressions with the same or almost the same text; `odd` is the name
/// of the variable that imitates the other operand.
fn lookalikes(r: &mut Rng, vars: &[&str], odd: &mut String) -> (Expr, Expr) {
    let e = match r.below(4) {
        0 => Expr::Const(konst(r)),
        _ => gen_expr(r, vars, 2),
    };
    match r.below(5) {
        0 => {
            *odd = format!("{e}");
            (e, Expr::Var(odd.clone()))
        }
        1 => {
            *odd = format!("{e:?}");
            (e, Expr::Var(odd.clone()))
        }
        2 => {
            let v = *r.pick(vars);
            *odd = if r.chance(0.5) { v.to_uppercase() } else { format!("{v} ") };
            (Expr::Var(v.into()), Expr::Var(odd.clone()))
        }
        3 => {
            let c = konst(r);
            let near = c * (1.0 + *r.pick(&[1e-3, 1e-6, 1e-9, -1e-6])) + *r.pick(&[0.0, 1e-7]);
            let v = Expr::Var((*r.pick(vars)).into());
            (Expr::Mul(bx(Expr::Const(c)), bx(v.clone())), Expr::Mul(bx(Expr::Const(near)), bx(v)))
        }
        _ => {
            // the same operands, another order or association
            let (a, b) = (gen_expr(r, vars, 1), gen_expr(r, vars, 1));
            if r.chance(0.5) { (Expr::Sub(bx(a.clone()), bx(b.clone())), Expr::Sub(bx(b), bx(a))) } else { (Expr::Pow(bx(a.clone()), bx(b.clone())), Expr::Pow(bx(b), bx(a))) }
        }
    }
}

pub fn c15(m: &mut Mon) {
    m.rule = "cases: random expressions biased to rewrite shapes × assignments with zeros and negatives, simplified once and twice and through SymbolicLogDensity; non-trivial: simplification changed the tree and the original has a finite, well-conditioned value; distinct: by (expression, assignment)".into();
    m.assumptions.push("assignments at which some subexpression of the original is undefined or overflows are not judged".into());
    let mut r = m.rng.derive("c15");
    let n = m.n(200_000, 5_000_000);
    for i in 0..n {
        if m.spent() {
            break;
        }
        let nv = 1 + r.below(3);
        let vars = &NAMES[..nv];
        let depth = 1 + r.below(4);
        let mut odd = String::new();
        let e = match r.below(8) {
            0 if r.chance(0.3) => {
                // Two operands that read alike or nearly so, but are different.
                let (a, b) = lookalikes(&mut r, vars, &mut odd);
                let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
                let e = if r.chance(0.3) { Expr::Sub(bx(a), bx(b)) } else { binary(&mut r, a, b) };
                if r.chance(0.3) { unary(&mut r, e) } else { e }
            }
            0 | 1 => template(&mut r, vars),
            2 => {
                let t = template(&mut r, vars);
                if r.chance(0.5) { unary(&mut r, t) } else { let o = gen_expr(&mut r, vars, 1); binary(&mut r, t, o) }
            }
            _ => gen_expr(&mut r, vars, depth),
        };
        let s = match guard(|| e.clone().simplify()) {
            Ok(s) => s,
            Err(p) => {
                m.observe("simplify", "panic", hs(&shape(&e)), true, || format!("{e:?}"), Verdict::Violated(format!("panicked: {p}")));
                continue;
            }
        };
        let changed = s != e;
        let (mut v1, mut v2) = (Vec::new(), Vec::new());
        vars_of(&e, &mut v1);
        vars_of(&s, &mut v2);
        let bad: Vec<_> = v2.iter().filter(|v| !v1.contains(v)).collect();
        m.observe("no new variables", "vars", hs(&format!("{e:?}")), changed, || format!("{e:?} → {s:?}"), if bad.is_empty() { Verdict::Held } else { Verdict::Violated(format!("{bad:?}")) });
        let twice = if i % 4 == 0 { guard(|| s.clone().simplify()).ok() } else { None };
        for _ in 0..4 {
            let mut x = env(&mut r, vars);
            if !odd.is_empty() {
                x.insert(odd.clone(), val(&mut r));
            }
            let k = key(&e, &x);
            let case = || format!("{e:?} at {}", env_txt(&x));
            m.observe("simplify", &shape(&e), k, changed, case, same_value(&e, &s, &x));
            if let Some(t) = &twice {
                m.observe("simplify twice", &shape(&e), k, *t != s, case, same_value(&e, t, &x));
            }
        }
        if i % 8 == 0 {
            let sld = SymbolicLogDensity::new(e.clone(), HashMap::new()).simplify();
            let mut x = env(&mut r, vars);
            if !odd.is_empty() {
                x.insert(odd.clone(), val(&mut r));
            }
            m.observe("SymbolicLogDensity::simplify", &shape(&e), key(&e, &x), changed, || format!("{e:?} at {}", env_txt(&x)), same_value(&e, &sld.expression, &x));
        }
    }
    m.require("simplify", 20_000);
    m.require("simplify twice", 3000);
    m.require("SymbolicLogDensity::simplify", 500);
    m.require("no new variables", 10_000);
}

pub fn c16(m: &mut Mon) {
    m.rule = "cases: random small expressions biased to the shapes the rules match × assignments with zeros and negatives × histories of 1..6 queries to one optimizer, in child processes under CPU and memory limits; non-trivial: optimisation changed the tree; distinct: by (expression, assignment, position in history)".into();
    m.assumptions.push("assignments at which some subexpression of the original is undefined or overflows are not judged; saturation that exceeds 2.5 GB or 6 s of CPU for a batch is counted inconclusive".into());
    let r = m.rng.derive("c16");
    let n = m.n(3000, 60_000);
    let lim = Limits { cpu_s: 6, mem_mb: 2500, resource_ok: true, parallel: 8 };
    batches(m, "optimizer survives", lim, n, |i, o| {
        let mut r = r.derive(&format!("batch{i}"));
        c16_batch(o, &mut r, i);
    });
    m.require("fresh optimizer", 600);
    m.require("used optimizer", 300);
    m.require("full precision", 40);
    m.require("log-likelihood terms", 40);
}

fn c16_batch(o: &mut Obs, r: &mut Rng, i: usize) {
    let nv = 1 + r.below(2);
    let vars = &NAMES[..nv];
    let hist = if i % 2 == 0 { 2 + r.below(5) } else { 1 };
    let Ok(Ok(mut opt)) = guard(EgglogOptimizer::new) else {
        o.observe("fresh optimizer", "new", 0, true, || "EgglogOptimizer::new".into(), Verdict::Violated("failed".into()));
        return;
    };
    for h in 0..hist {
        let (e, kind) = if r.chance(0.15) {
            // A lone constant or one next to a variable: nothing to rewrite, nothing to lose.
            let c = Expr::Const(if r.chance(0.5) { konst(r) } else { r.normal() * 10f64.powf(r.range(-12.0, 12.0)) });
            (if r.chance(0.5) { c } else { Expr::Mul(bx(c), bx(Expr::Var("x".into()))) }, "full precision")
        } else if r.chance(0.15) {
            // The terms of log-likelihoods: large counts times logarithms.
            let k = Expr::Const(*r.pick(&[20.0, 100.0, 500.0, 2500.0, -300.0]));
            let x = || bx(Expr::Var("x".into()));
            let t = match r.below(4) {
                0 => Expr::Mul(bx(k), bx(Expr::Ln(x()))),
                1 => Expr::Sub(bx(Expr::Mul(bx(k), bx(Expr::Ln(x())))), x()),
                2 => Expr::Mul(bx(Expr::Ln(x())), bx(k)),
                _ => Expr::Add(bx(Expr::Mul(bx(k), bx(Expr::Ln(x())))), bx(Expr::Ln(x()))),
            };
            (t, "log-likelihood terms")
        } else {
            let e = loop {
                let depth = 1 + r.below(3);
                let e = if r.chance(0.4) { template(r, vars) } else { gen_expr(r, vars, depth) };
                if size(&e) <= if i % 10 == 0 { 14 } else { 10 } {
                    break e;
                }
            };
            (e, if h == 0 { "fresh optimizer" } else { "used optimizer" })
        };
        o.announce(&format!("query {h}: {e:?}"));
        let res = guard(|| if hist == 1 { e.optimize_with_egglog() } else { opt.optimize(&e) });
        let opted = match res {
            Ok(Ok(o)) => o,
            Ok(Err(er)) => {
                // An error is a refusal; it is a violation where the expression has a value.
                let valued = (0..12).any(|_| matches!(eval(&e, &env(r, vars)), R::Val(..)));
                let v = if valued { Verdict::Violated(format!("error {er:?}")) } else { Verdict::Inconclusive };
                o.observe(kind, "error", hs(&format!("{e:?}")), true, || format!("query {h}: {e:?}"), v);
                continue;
            }
            Err(p) => {
                o.observe(kind, "panic", hs(&format!("{e:?}")), true, || format!("query {h}: {e:?}"), Verdict::Violated(format!("panicked: {p}")));
                break;
            }
        };
        let changed = opted != e;
        for _ in 0..6 {
            let mut x = env(r, vars);
            if kind == "log-likelihood terms" {
                x.insert("x".into(), r.logu(-3.0, 3.0));
            }
            o.observe(kind, &shape(&e), fnv(&[key(&e, &x), h as u64]), changed || kind == "log-likelihood terms" || kind == "full precision", || format!("query {h}: {e:?} at {}", env_txt(&x)), same_value(&e, &opted, &x));
        }
    }
}

// ---------------------------------------------------------------- C17

/// Expressions for the caches: small, with repeats, and with pairs that differ only in
/// structure, sign of zero, constant precision or variable naming.
pub fn cache_pool(r: &mut Rng) -> Vec<Expr> {
    let x = || ve("x");
    let y = || ve("y");
    let mut p = vec![
        Expr::Add(bx(x()), bx(y())),
        Expr::Add(bx(y()), bx(x())),
        Expr::Sub(bx(x()), bx(y())),
        ve("(x + y)"),
        ve("x + y"),
        Expr::Pow(bx(Expr::Const(-2.0)), bx(x())),
        Expr::Neg(bx(Expr::Pow(bx(Expr::Const(2.0)), bx(x())))),
        Expr::Pow(bx(ve("-2")), bx(x())),
        ve("2"),
        Expr::Const(2.0),
        ve("(-x)"),
        Expr::Neg(bx(x())),
        ve("ln(x)"),
        Expr::Ln(bx(x())),
        Expr::Add(bx(Expr::Const(0.1)), bx(Expr::Const(0.2))),
        Expr::Const(0.3),
        Expr::Div(bx(Expr::Const(1.0)), bx(Expr::Const(0.0))),
        Expr::Add(bx(Expr::Const(1e-17)), bx(x())),
        Expr::Add(bx(Expr::Const(0.0)), bx(x())),
        Expr::Sqrt(bx(x())),
        Expr::Ln(bx(Expr::Sub(bx(x()), bx(y())))),
        Expr::Sub(bx(Expr::Sub(bx(x()), bx(y()))), bx(ve("x y"))),
        ve("xy"),
    ];
    for _ in 0..8 {
        let depth = 1 + r.below(3);
        p.push(gen_expr(r, &["x", "y"], depth));
    }
    // One entry per structure: the counters are judged by distinct keys.
    let mut seen = std::collections::HashSet::new();
    p.retain(|e| seen.insert(format!("{e:?}").replace("-0.0", "0.0")));
    p
}
pub fn cache_envs(r: &mut Rng) -> Vec<Env> {
    let names = ["x", "y", "(x + y)", "x + y", "-2", "2", "(-x)", "ln(x)", "x y", "xy"];
    let mut out = Vec::new();
    for i in 0..5 {
        let mut e: Env = names.iter().map(|n| ((*n).to_string(), val(r))).collect();
        match i {
            1 => {
                e.remove("y");
            }
            2 => {
                // The neighbouring double: visible only at full precision.
                let near = f64::from_bits(out.first().map_or(1.0, |o: &Env| o["x"]).to_bits() + 1);
                e = out[0].clone();
                e.insert("x".into(), near);
            }
            3 => {
                let (a, b) = (out[0]["x"], out[0]["y"]);
                e = out[0].clone();
                e.insert("x".into(), b);
                e.insert("y".into(), a);
            }
            4 => e.retain(|k, _| k == "x"),
            _ => {}
        }
        out.push(e);
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|e| seen.insert(env_txt(e).replace("-0.0", "0.0")));
    out
}
fn same_result(a: &Result<f64, EvalError>, b: &Result<f64, EvalError>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    }
}

pub fn c17(m: &mut Mon) {
    m.rule = "cases: single-threaded histories of 60..300 cached calls and clears over pools with look-alike expressions, and the same from 2..8 threads at once (with and without concurrent clears) in child processes under a time limit; non-trivial: a repeated lookup or a lookup racing with others; distinct: by (expression, assignment, history position class) and by observed interleaving".into();
    m.assumptions.push("a hit is demanded only for an immediate repetition; otherwise the counters need only add up to the lookups made".into());
    let r0 = m.rng.derive("c17");
    for b in 0..m.n(300, 6000) {
        if m.spent() {
            break;
        }
        let mut r = r0.derive(&format!("h{b}"));
        c17_history(m, &mut r);
    }
    for b in 0..m.n(10, 300) {
        let mut r = r0.derive(&format!("l{b}"));
        c17_lookalikes(m, &mut r);
    }
    let lim = Limits { cpu_s: 20, mem_mb: 0, resource_ok: false, parallel: 2 };
    let n = m.n(240, 5000);
    batches(m, "threads finish", lim, n, |b, o| {
        let mut r = r0.derive(&format!("t{b}"));
        c17_threads(o, &mut r, b);
    });
    for (k, q) in [("simplify_cached", 5000), ("evaluate_cached", 5000), ("counters", 200), ("immediate repetition", 200), ("concurrent simplify_cached", 5000), ("concurrent evaluate_cached", 5000), ("concurrent counters", 60), ("threads finish", 100)] {
        m.require(k, q);
    }
}

/// Assignments and expressions whose renderings, however they are joined, come close to each
/// other: a variable named like a piece of another assignment, values that differ in the last
/// bit, in the sign of zero or only beyond a few digits.
fn c17_lookalikes(m: &mut Mon, r: &mut Rng) {
    let look = |m: &mut Mon, tag: &str, e: &Expr, es: &[Env]| {
        clear_caches();
        for x in es {
            let want = e.evaluate(x);
            let v = match guard(|| e.evaluate_cached(x)) {
                Ok(g) if same_result(&g, &want) => Verdict::Held,
                Ok(g) => Verdict::Violated(format!("got {g:?}, uncached {want:?}")),
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
            };
            m.observe("look-alike assignments", tag, key(e, x), true, || format!("{e:?} at {} after {}", env_txt(x), env_txt(&es[0])), v);
        }
    };
    let (a, b) = (val(r), val(r));
    let one = |n: String, v: f64| Env::from([(n, v)]);
    for sep in [",", ", ", ";", "; ", "|", "&", " ", "\n", "\t", "", "_", "\0", "/", "\u{1f}", "#", "--"] {
        for eq in ["=", ":", ": ", " = ", "->", " ", "", "=>", "_"] {
            for (qo, qc) in [("", ""), ("\"", "\""), ("(", ")"), ("(\"", "\"")] {
                let _ = qo;
                for (va, style) in [(format!("{a}"), 0), (format!("{a:?}"), 1), (format!("{:x}", a.to_bits()), 2), (format!("{}", a.to_bits()), 3)] {
                    if style > 1 && !r.chance(0.2) || style == 1 && va == format!("{a}") {
                        continue;
                    }
                    // x and y as one assignment, and as the name of a single variable
                    let both = Env::from([("x".to_string(), a), ("y".to_string(), b)]);
                    let swallowed = one(format!("x{qc}{eq}{va}{sep}{qo}y"), b);
                    look(m, "joined", &ve("x"), &[both.clone(), swallowed.clone()]);
                    look(m, "joined", &ve("x"), &[swallowed, both]);
                }
            }
        }
    }
    let close = [a, f64::from_bits(a.to_bits() ^ 1), a + a * 1e-7, a + a * 1e-13, -a, a * (1.0 + 1e-16), a + 1e-20, (a * 1e6).round() / 1e6];
    for e in [ve("x"), Expr::Sub(bx(ve("x")), bx(Expr::Const(a))), Expr::Div(bx(Expr::Const(1.0)), bx(ve("x"))), Expr::Neg(bx(ve("x")))] {
        look(m, "close values", &e, &close.map(|v| one("x".into(), v)));
        look(m, "special values", &e, &[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, 1e308, -1e308, 1e16, 1e16 + 2.0, 0.1 + 0.2, 0.3].map(|v| one("x".into(), v)));
        look(m, "other names", &e, &["x", "X", "x ", " x", "x_", "xx", "\"x\"", "x: 1"].map(|n| one(n.into(), a)));
        // The same variables under more names: only the named one counts.
        look(m, "more variables", &e, &[one("x".into(), a), Env::from([("x".into(), a), ("y".into(), b)]), Env::from([("x".into(), b), ("y".into(), a)]), Env::new(), one("y".into(), a)]);
    }
    // Expressions that print or hash alike.
    let c = |v: f64| Expr::Const(v);
    let p = |a: Expr, b: Expr| Expr::Pow(bx(a), bx(b));
    let near = f64::from_bits(a.to_bits() ^ 1);
    let groups: Vec<Vec<Expr>> = vec![
        vec![c(a), c(near), c(a + a * 1e-7), c(-a), ve(&format!("{a}"))],
        vec![Expr::Div(bx(c(1.0)), bx(ve("x"))), Expr::Div(bx(c(1.0)), bx(c(0.0))), Expr::Div(bx(c(1.0)), bx(c(-0.0)))],
        vec![Expr::Add(bx(ve("x")), bx(c(a))), Expr::Add(bx(ve("x")), bx(c(near))), Expr::Add(bx(c(a)), bx(ve("x")))],
        vec![p(p(ve("x"), c(2.0)), c(3.0)), p(ve("x"), p(c(2.0), c(3.0)))],
        vec![Expr::Sub(bx(ve("x")), bx(Expr::Sub(bx(ve("y")), bx(ve("x"))))), Expr::Sub(bx(Expr::Sub(bx(ve("x")), bx(ve("y")))), bx(ve("x")))],
        vec![Expr::Div(bx(ve("x")), bx(Expr::Div(bx(ve("y")), bx(c(3.0))))), Expr::Div(bx(Expr::Div(bx(ve("x")), bx(ve("y")))), bx(c(3.0)))],
        vec![Expr::Neg(bx(p(ve("x"), c(2.0)))), p(Expr::Neg(bx(ve("x"))), c(2.0)), p(ve("-x"), c(2.0))],
        vec![Expr::Add(bx(ve("x")), bx(Expr::Neg(bx(ve("y"))))), Expr::Sub(bx(ve("x")), bx(ve("y")))],
        vec![Expr::Ln(bx(ve("x"))), ve("ln(x)"), Expr::Ln(bx(ve("x)")))],
    ];
    let x = Env::from([("x".to_string(), a.abs() + 0.5), ("y".to_string(), b), ("-x".to_string(), 7.0), ("ln(x)".to_string(), 11.0), ("x)".to_string(), 3.0), (format!("{a}"), 13.0)]);
    for mut g in groups {
        r.shuffle(&mut g);
        clear_caches();
        for e in g.iter().chain(&g) {
            let want = e.evaluate(&x);
            let ok = guard(|| e.evaluate_cached(&x)).is_ok_and(|got| same_result(&got, &want));
            m.observe("look-alike expressions", &shape(e), key(e, &x), true, || format!("evaluate_cached {e:?} among {g:?} at {}", env_txt(&x)), if ok { Verdict::Held } else { Verdict::Violated(format!("uncached {want:?}")) });
            let want = format!("{:?}", e.clone().simplify());
            let ok = guard(|| format!("{:?}", e.clone().simplify_cached())).is_ok_and(|got| got == want);
            m.observe("look-alike expressions", &shape(e), key(e, &x) ^ 1, true, || format!("simplify_cached {e:?} among {g:?}"), if ok { Verdict::Held } else { Verdict::Violated(format!("uncached {want}")) });
        }
    }
}

fn c17_history(m: &mut Mon, r: &mut Rng) {
    let pool = cache_pool(r);
    let envs = cache_envs(r);
    let plain: Vec<String> = pool.iter().map(|e| format!("{:?}", e.clone().simplify())).collect();
    let n = 60 + r.below(240);
    clear_caches();
    // Model: lookups since the last clear, and the distinct keys among them.
    let (mut ls, mut le) = (0usize, 0usize);
    let (mut ks, mut ke): (std::collections::HashSet<usize>, std::collections::HashSet<(usize, usize)>) = Default::default();
    for step in 0..n {
        let i = r.below(pool.len());
        let j = r.below(envs.len());
        match r.below(20) {
            0 if r.chance(0.3) => {
                clear_caches();
                (ls, le) = (0, 0);
                ks.clear();
                ke.clear();
            }
            0..=8 => {
                let e = &pool[i];
                let fresh = ks.insert(i);
                ls += 1;
                let case = || format!("step {step}: simplify_cached {e:?}");
                let v = match guard(|| e.clone().simplify_cached()) {
                    Ok(g) if format!("{g:?}") == plain[i] => Verdict::Held,
                    Ok(g) => Verdict::Violated(format!("got {g:?}, uncached {}", plain[i])),
                    Err(p) => Verdict::Violated(format!("panicked: {p}")),
                };
                m.observe("simplify_cached", &shape(e), fnv(&[hs(&format!("{e:?}")), u64::from(fresh)]), !fresh, case, v);
            }
            9..=17 => {
                let e = &pool[i];
                let fresh = ke.insert((i, j));
                le += 1;
                let want = e.evaluate(&envs[j]);
                let case = || format!("step {step}: evaluate_cached {e:?} at {}", env_txt(&envs[j]));
                let v = match guard(|| e.evaluate_cached(&envs[j])) {
                    Ok(g) if same_result(&g, &want) => Verdict::Held,
                    Ok(g) => Verdict::Violated(format!("got {g:?}, uncached {want:?}")),
                    Err(p) => Verdict::Violated(format!("panicked: {p}")),
                };
                m.observe("evaluate_cached", &shape(e), fnv(&[key(e, &envs[j]), u64::from(fresh)]), !fresh, case, v);
            }
            18 => {
                // The same lookup twice in a row: the second one is a hit.
                let e = &pool[i];
                ks.insert(i);
                ls += 2;
                let a = e.clone().simplify_cached();
                let before = get_cache_stats();
                let b = e.clone().simplify_cached();
                let after = get_cache_stats();
                let mut bad = String::new();
                if format!("{a:?}") != format!("{b:?}") {
                    bad = format!("{a:?} then {b:?}");
                }
                if after.simplification_hits != before.simplification_hits + 1 || after.simplification_misses != before.simplification_misses {
                    bad = format!("simplification counters {before:?} then {after:?}");
                }
                if e.evaluate(&envs[j]).is_ok() {
                    ke.insert((i, j));
                    le += 2;
                    let _ = e.evaluate_cached(&envs[j]);
                    let before = get_cache_stats();
                    let _ = e.evaluate_cached(&envs[j]);
                    let after = get_cache_stats();
                    if after.evaluation_hits != before.evaluation_hits + 1 || after.evaluation_misses != before.evaluation_misses {
                        bad = format!("evaluation counters {before:?} then {after:?}");
                    }
                }
                m.observe("immediate repetition", &shape(e), key(e, &envs[j]), true, || format!("{e:?} at {}", env_txt(&envs[j])), if bad.is_empty() { Verdict::Held } else { Verdict::Violated(bad) });
            }
            _ => {
                let s = get_cache_stats();
                let ok = s.simplification_hits + s.simplification_misses == ls
                    && s.evaluation_hits + s.evaluation_misses == le
                    && s.simplification_hits <= ls - ks.len()
                    && s.evaluation_hits <= le - ke.len();
                let rate = |h: usize, n: usize| if n == 0 { 0.0 } else { h as f64 / n as f64 };
                let ok2 = (s.simplification_hit_rate() - rate(s.simplification_hits, ls)).abs() < 1e-12 && (s.evaluation_hit_rate() - rate(s.evaluation_hits, le)).abs() < 1e-12;
                m.observe("counters", "counters", fnv(&[ls as u64, le as u64, ks.len() as u64, ke.len() as u64]), ls + le > 0,
                    || format!("after {ls} simplifications of {} expressions and {le} evaluations of {} pairs", ks.len(), ke.len()),
                    if ok && ok2 { Verdict::Held } else { Verdict::Violated(format!("{s:?}, hit rates {} {}", s.simplification_hit_rate(), s.evaluation_hit_rate())) });
            }
        }
    }
}

fn c17_threads(o: &mut Obs, r: &mut Rng, b: usize) {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
    let threads = *r.pick(&[2usize, 3, 4, 8]);
    let clears = b % 2 == 1;
    let pool = Arc::new(cache_pool(r));
    let envs = Arc::new(cache_envs(r));
    let plain: Arc<Vec<String>> = Arc::new(pool.iter().map(|e| format!("{:?}", e.clone().simplify())).collect());
    // Every fourth batch is hot: few keys, many steps, no pauses.
    let hot = b % 4 < 2 && r.chance(0.5);
    let steps = if hot { 1500 } else { 20 + r.below(100) };
    let (width, nenv) = if hot { (*r.pick(&[1, 2, 3]), envs.len().min(2)) } else { (pool.len().min(12), envs.len()) };
    clear_caches();
    o.announce(&format!("batch {b}: {threads} threads × {steps} cached calls, concurrent clears: {clears}"));
    let gate = Arc::new(Barrier::new(threads));
    // Observed order of completions, as (thread) per global tick.
    let tick = Arc::new(AtomicUsize::new(0));
    let order: Arc<Vec<AtomicU64>> = Arc::new((0..threads * steps).map(|_| AtomicU64::new(0)).collect());
    let mut hs_ = Vec::new();
    for t in 0..threads {
        let (pool, envs, plain, gate, tick, order) = (pool.clone(), envs.clone(), plain.clone(), gate.clone(), tick.clone(), order.clone());
        let mut r = r.derive(&format!("t{t}"));
        hs_.push(std::thread::spawn(move || {
            gate.wait();
            let mut log: Vec<(bool, usize, usize, Option<String>)> = Vec::new();
            let mut looked = (0usize, 0usize);
            for _ in 0..steps {
                let (i, j) = (r.below(width), r.below(nenv));
                if clears && r.chance(if hot { 0.005 } else { 0.05 }) {
                    clear_caches();
                } else if r.chance(if hot { 0.2 } else { 0.5 }) {
                    looked.0 += 1;
                    let g = format!("{:?}", pool[i].clone().simplify_cached());
                    log.push((true, i, j, (g != plain[i]).then(|| format!("got {g}, uncached {}", plain[i]))));
                } else {
                    looked.1 += 1;
                    let g = pool[i].evaluate_cached(&envs[j]);
                    let w = pool[i].evaluate(&envs[j]);
                    log.push((false, i, j, (!same_result(&g, &w)).then(|| format!("got {g:?}, uncached {w:?}"))));
                }
                let k = tick.fetch_add(1, Ordering::Relaxed);
                order[k].store(t as u64, Ordering::Relaxed);
                match r.below(6) {
                    _ if hot => {}
                    0 => std::thread::yield_now(),
                    1 => std::hint::spin_loop(),
                    _ => {}
                }
            }
            (log, looked)
        }));
    }
    let mut looked = (0, 0);
    let mut seen: std::collections::HashSet<(bool, usize, usize)> = Default::default();
    for h in hs_ {
        match h.join() {
            Err(_) => o.observe("concurrent simplify_cached", "panic", b as u64, true, || format!("batch {b}"), Verdict::Violated("a thread panicked".into())),
            Ok((log, l)) => {
                looked = (looked.0 + l.0, looked.1 + l.1);
                for (simp, i, j, bad) in log {
                    seen.insert((simp, i, if simp { 0 } else { j }));
                    let e = &pool[i];
                    let kind = if simp { "concurrent simplify_cached" } else { "concurrent evaluate_cached" };
                    o.observe(kind, &shape(e), if simp { hs(&format!("{e:?}")) } else { key(e, &envs[j]) }, true,
                        || format!("batch {b} ({threads} threads): {e:?} at {}", env_txt(&envs[j])),
                        bad.map_or(Verdict::Held, Verdict::Violated));
                }
            }
        }
    }
    let digest = fnv(&order.iter().map(|a| a.load(Ordering::Relaxed)).collect::<Vec<_>>());
    let s = get_cache_stats();
    let v = if clears {
        clear_caches();
        let z = get_cache_stats();
        if z.simplification_hits + z.simplification_misses + z.evaluation_hits + z.evaluation_misses == 0
            && s.simplification_hits + s.simplification_misses <= looked.0
            && s.evaluation_hits + s.evaluation_misses <= looked.1
        {
            Verdict::Held
        } else {
            Verdict::Violated(format!("{s:?} then {z:?} after clearing, {looked:?} lookups"))
        }
    } else {
        let ds = seen.iter().filter(|s| s.0).count();
        let de = seen.iter().filter(|s| !s.0).count();
        if s.simplification_hits + s.simplification_misses == looked.0
            && s.evaluation_hits + s.evaluation_misses == looked.1
            && s.simplification_hits <= looked.0 - ds
            && s.evaluation_hits <= looked.1 - de
        {
            Verdict::Held
        } else {
            Verdict::Violated(format!("{s:?} for {looked:?} lookups of {ds} and {de} distinct keys"))
        }
    };
    o.observe("concurrent counters", if clears { "clears" } else { "no clears" }, digest, true, || format!("batch {b}: {threads} threads, interleaving {digest:016x}"), v);
}
