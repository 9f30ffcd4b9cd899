//! Reference evaluation of symbolic expressions: exact values in double-double together
//! with a bound on what rounding may do to a double-precision evaluation in the natural
//! order. Three outcomes: a value with its bound, a definite error, or undecidable.

use std::collections::HashMap;

use symbolic_math::Expr;

use crate::hp::{D, PI, d};

pub const U: f64 = 2.3e-16;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    Missing,
    DivZero,
    LnDomain,
    SqrtDomain,
}

#[derive(Clone, Copy, Debug)]
pub enum R {
    Val(D, f64),
    Err(Bad),
    Unknown,
}

pub fn sin_cos(x: D) -> (D, D) {
    let half_pi = PI / d(2.0);
    let k = (x.h / std::f64::consts::FRAC_PI_2).round();
    let r = x - half_pi * d(k);
    let r2 = r * r;
    let (mut s, mut t) = (r, r);
    let (mut c, mut u) = (d(1.0), d(1.0));
    for i in 1..16 {
        let k = f64::from(2 * i);
        t = -(t * r2) / d(k * (k + 1.0));
        s = s + t;
        u = -(u * r2) / d((k - 1.0) * k);
        c = c + u;
    }
    match (k as i64).rem_euclid(4) {
        0 => (s, c),
        1 => (c, -s),
        2 => (-s, -c),
        _ => (-c, s),
    }
}

fn ok(v: D, err: f64) -> R {
    let a = v.h.abs();
    if !v.h.is_finite() || !v.l.is_finite() || a > 1e250 || (a != 0.0 && a < 1e-250) || !err.is_finite() || err > 1e-4 * (a + 1.0) {
        return R::Unknown;
    }
    R::Val(v, err)
}
/// The result of a correctly rounded operation: exact when the inputs are and it fits.
fn rnd(v: D, inputs_exact: bool, prop: f64, loose: f64) -> R {
    if inputs_exact && v.l == 0.0 && loose < 0.0 { ok(v, 0.0) } else { ok(v, prop + U * v.h.abs().max(loose)) }
}
pub fn is_int(x: f64) -> bool {
    x == x.trunc() && x.is_finite()
}

pub type Env = HashMap<String, f64>;

/// Strict evaluation: every subexpression must have a finite value. Branches are decided by
/// the natural evaluation order; the bound covers any reasonable reassociation.
pub fn eval(e: &Expr, env: &Env) -> R {
    match ev(e, env, false) {
        R::Val(..) => match ev(e, env, true) {
            R::Val(v, err) => R::Val(v, err),
            _ => R::Unknown,
        },
        r => r,
    }
}

fn ev(e: &Expr, env: &Env, loose: bool) -> R {
    macro_rules! go {
        ($x:expr) => {
            match ev($x, env, loose) {
                R::Val(v, e) => (v, e),
                o => return o,
            }
        };
    }
    // Both operands are examined so that a definite error is not hidden by an undecidable
    // neighbour, and the other way round.
    macro_rules! two {
        ($a:expr, $b:expr) => {
            match (ev($a, env, loose), ev($b, env, loose)) {
                (R::Val(a, ea), R::Val(b, eb)) => (a, ea, b, eb),
                (R::Err(Bad::Missing), _) | (_, R::Err(Bad::Missing)) => return R::Err(Bad::Missing),
                (R::Err(x), _) | (_, R::Err(x)) => return R::Err(x),
                _ => return R::Unknown,
            }
        };
    }
    match e {
        Expr::Const(c) => ok(d(*c), 0.0),
        Expr::Var(n) => match env.get(n) {
            Some(v) => ok(d(*v), 0.0),
            None => R::Err(Bad::Missing),
        },
        Expr::Add(a, b) => {
            let (a, ea, b, eb) = two!(a, b);
            rnd(a + b, ea == 0.0 && eb == 0.0, ea + eb, if loose { a.h.abs() + b.h.abs() } else { -1.0 })
        }
        Expr::Sub(a, b) => {
            let (a, ea, b, eb) = two!(a, b);
            rnd(a - b, ea == 0.0 && eb == 0.0, ea + eb, if loose { a.h.abs() + b.h.abs() } else { -1.0 })
        }
        Expr::Mul(a, b) => {
            let (a, ea, b, eb) = two!(a, b);
            let v = a * b;
            if v.h == 0.0 && a.h != 0.0 && b.h != 0.0 {
                return R::Unknown;
            }
            rnd(v, ea == 0.0 && eb == 0.0, ea * b.h.abs() + eb * a.h.abs() + ea * eb, if loose { 0.0 } else { -1.0 })
        }
        Expr::Div(a, b) => {
            let (a, ea, b, eb) = two!(a, b);
            if b.h == 0.0 && eb == 0.0 {
                return R::Err(Bad::DivZero);
            }
            if b.h.abs() <= 8.0 * eb {
                return R::Unknown;
            }
            let q = a / b;
            let bm = b.h.abs() - eb;
            if q.h == 0.0 && a.h != 0.0 {
                return R::Unknown;
            }
            rnd(q, ea == 0.0 && eb == 0.0, (ea + q.h.abs() * eb) / bm, if loose { 0.0 } else { -1.0 })
        }
        Expr::Pow(a, b) => {
            let (a, ea, b, eb) = two!(a, b);
            pow(a, ea, b, eb)
        }
        Expr::Ln(a) => {
            let (a, ea) = go!(a);
            if a.h <= 0.0 && a.h.abs() >= 8.0 * ea {
                return R::Err(Bad::LnDomain);
            }
            if a.h.abs() <= 8.0 * ea {
                return R::Unknown;
            }
            let v = a.ln();
            ok(v, ea / (a.h - ea) + U * v.h.abs())
        }
        Expr::Exp(a) => {
            let (a, ea) = go!(a);
            if a.h.abs() > 560.0 {
                return R::Unknown;
            }
            let v = a.exp();
            ok(v, v.h * (ea * 1.01 + U))
        }
        Expr::Sqrt(a) => {
            let (a, ea) = go!(a);
            if a.h == 0.0 && ea == 0.0 {
                return ok(d(0.0), 0.0);
            }
            if a.h.abs() <= 8.0 * ea {
                return R::Unknown;
            }
            if a.h < 0.0 {
                return R::Err(Bad::SqrtDomain);
            }
            let v = a.sqrt();
            rnd(v, ea == 0.0, ea / v.h, if loose { 0.0 } else { -1.0 })
        }
        Expr::Sin(a) | Expr::Cos(a) => {
            let (a, ea) = go!(a);
            let is_sin = matches!(e, Expr::Sin(_));
            let v = if a.h.abs() > 1e6 {
                if ea != 0.0 {
                    return R::Unknown;
                }
                d(if is_sin { a.h.sin() } else { a.h.cos() })
            } else {
                let (s, c) = sin_cos(a);
                if is_sin { s } else { c }
            };
            ok(v, ea + U * v.h.abs())
        }
        Expr::Neg(a) => {
            let (a, ea) = go!(a);
            ok(-a, ea)
        }
    }
}

fn pow(a: D, ea: f64, b: D, eb: f64) -> R {
    let bint = eb == 0.0 && b.l == 0.0 && is_int(b.h);
    if eb == 0.0 && b.h == 0.0 {
        return ok(d(1.0), 0.0);
    }
    if a.h == 0.0 && ea == 0.0 {
        return if eb == 0.0 && b.h > 0.0 { ok(d(0.0), 0.0) } else { R::Unknown };
    }
    if ea == 0.0 && a.h == 1.0 && a.l == 0.0 {
        return ok(d(1.0), 0.0);
    }
    if bint && b.h > 0.0 && b.h <= 64.0 {
        // Exact path, also near zero and for negative bases.
        let n = b.h as u32;
        let v = a.powi(n);
        if v.h == 0.0 && a.h != 0.0 {
            return R::Unknown;
        }
        let big = a.h.abs() + ea;
        let prop = if ea == 0.0 { 0.0 } else { f64::from(n) * big.powi(n as i32 - 1) * ea };
        let extra = if a.h == 0.0 { 0.0 } else { v.h.abs() * U * (1.0 + (b.h * a.h.abs().ln()).abs()) };
        return if ea == 0.0 && v.l == 0.0 && v.h.abs() < 9e15 && n <= 3 { ok(v, 0.0) } else { ok(v, prop + extra) };
    }
    if a.h.abs() <= 8.0 * ea {
        return R::Unknown;
    }
    if a.h < 0.0 && !bint {
        return R::Unknown;
    }
    let l = a.abs().ln();
    let t = b * l;
    if t.h.abs() > 560.0 {
        return R::Unknown;
    }
    let mut v = t.exp();
    if a.h < 0.0 && (b.h % 2.0).abs() == 1.0 {
        v = -v;
    }
    let rel = (b.h.abs() + eb) * ea / (a.h.abs() - ea) + eb * (l.h.abs() + U) + U * (1.0 + t.h.abs());
    ok(v, v.h.abs() * rel * 1.01)
}

/// Does a double-precision result agree with the reference? None: undecided.
pub fn agrees(r: R, got: f64) -> Option<Result<(), String>> {
    match r {
        R::Val(v, err) => {
            let tol = 8.0 * err + 4e-16 * v.h.abs() + 1e-290;
            let diff = (v - d(got)).f().abs();
            Some(if diff <= tol { Ok(()) } else { Err(format!("got {got:?}, exact {:?} (±{tol:.1e})", v.f())) })
        }
        _ => None,
    }
}

pub fn selftest() {
    let (s, c) = sin_cos(d(1.0));
    assert!((s.f() - 1f64.sin()).abs() < 2e-16 && (c.f() - 1f64.cos()).abs() < 2e-16);
    for k in -40..40 {
        let x = f64::from(k) * 0.37;
        let (s, c) = sin_cos(d(x));
        assert!((s.f() - x.sin()).abs() < 3e-16 && (c.f() - x.cos()).abs() < 3e-16);
        assert!((s * s + c * c - d(1.0)).f().abs() < 1e-30);
    }
}
