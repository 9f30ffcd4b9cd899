//! Double-double reference arithmetic (about 31 significant digits), written from the
//! textbook definitions and independent of every formula in the monitored code.
#![allow(clippy::should_implement_trait)]

use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct D {
    pub h: f64,
    pub l: f64,
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}

pub const LN2: D = D { h: 6.931471805599452862e-01, l: 2.319046813846299558e-17 };
pub const PI: D = D { h: 3.141592653589793116e+00, l: 1.224646799147353207e-16 };
/// ln(2π)/2
pub const HALF_LN_2PI: D = D { h: 0.9189385332046728, l: -3.8782941580672414e-17 };

pub fn d(x: f64) -> D {
    D { h: x, l: 0.0 }
}
pub fn di(x: u64) -> D {
    let h = x as f64;
    let l = (x as i128 - h as i128) as f64;
    D { h, l }
}

impl D {
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    pub fn abs(self) -> D {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) { -self } else { self }
    }
    pub fn is_finite(self) -> bool {
        self.h.is_finite()
    }
    fn ldexp(self, k: i32) -> D {
        let mut x = self;
        let mut k = k;
        while k > 1000 {
            x = D { h: x.h * 2f64.powi(1000), l: x.l * 2f64.powi(1000) };
            k -= 1000;
        }
        while k < -1000 {
            x = D { h: x.h * 2f64.powi(-1000), l: x.l * 2f64.powi(-1000) };
            k += 1000;
        }
        D { h: x.h * 2f64.powi(k), l: x.l * 2f64.powi(k) }
    }
    pub fn sqrt(self) -> D {
        if self.h <= 0.0 {
            return d(self.h.sqrt());
        }
        let a = self.h.sqrt();
        let (p, e) = two_prod(a, a);
        let r = (self - D { h: p, l: e }).f();
        let (h, l) = quick(a, r / (2.0 * a));
        D { h, l }
    }
    pub fn exp(self) -> D {
        if self.h > 709.7 {
            return d(f64::INFINITY);
        }
        if self.h < -760.0 {
            return d(0.0);
        }
        if self.h.is_nan() {
            return d(f64::NAN);
        }
        let k = (self.h / std::f64::consts::LN_2).round();
        let r = self - LN2 * d(k);
        let r = D { h: r.h / 512.0, l: r.l / 512.0 };
        // expm1(r) by Taylor, then square nine times keeping expm1 form.
        let mut term = r;
        let mut sum = r;
        for i in 2..12 {
            term = term * r / d(f64::from(i));
            sum = sum + term;
        }
        for _ in 0..9 {
            sum = sum * d(2.0) + sum * sum;
        }
        (sum + d(1.0)).ldexp(k as i32)
    }
    pub fn ln(self) -> D {
        if self.h <= 0.0 || !self.h.is_finite() {
            return d(self.h.ln());
        }
        // Scale into [1/2, 2] first so that the Newton step never overflows.
        let k = self.h.log2().round();
        let x = self.ldexp(-(k as i32));
        let mut y = d(x.h.ln());
        for _ in 0..2 {
            y = y + x * (-y).exp() - d(1.0);
        }
        y + LN2 * d(k)
    }
    /// log Γ(x), x > 0.
    pub fn lgamma(self) -> D {
        let mut x = self;
        let mut prod = d(1.0);
        while x.h < 32.0 {
            prod = prod * x;
            x = x + d(1.0);
        }
        // Stirling series with Bernoulli numbers B2..B26.
        const B: [(f64, f64); 13] = [
            (1.0, 6.0),
            (-1.0, 30.0),
            (1.0, 42.0),
            (-1.0, 30.0),
            (5.0, 66.0),
            (-691.0, 2730.0),
            (7.0, 6.0),
            (-3617.0, 510.0),
            (43867.0, 798.0),
            (-174611.0, 330.0),
            (854513.0, 138.0),
            (-236364091.0, 2730.0),
            (8553103.0, 6.0),
        ];
        let x2 = x * x;
        let mut p = x;
        let mut s = d(0.0);
        for (i, (n, den)) in B.iter().enumerate() {
            let k = 2.0 * (i as f64 + 1.0);
            s = s + d(*n) / (d(*den) * d(k * (k - 1.0)) * p);
            p = p * x2;
        }
        let st = (x - d(0.5)) * x.ln() - x + HALF_LN_2PI + s;
        st - prod.ln()
    }
    pub fn powi(self, n: u32) -> D {
        let mut r = d(1.0);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    pub fn lt0(self) -> bool {
        self.h < 0.0 || (self.h == 0.0 && self.l < 0.0)
    }
    pub fn max(self, o: D) -> D {
        match self.h.partial_cmp(&o.h) {
            Some(Ordering::Less) => o,
            Some(Ordering::Equal) if self.l < o.l => o,
            _ => self,
        }
    }
}

impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        let (s, e) = two_sum(self.h, o.h);
        if !s.is_finite() {
            return d(s);
        }
        let (t, f) = two_sum(self.l, o.l);
        let (s, e) = quick(s, e + t);
        let (h, l) = quick(s, e + f);
        D { h, l }
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D { h: -self.h, l: -self.l }
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.h, o.h);
        if !p.is_finite() || !e.is_finite() {
            return d(p);
        }
        let e = e + (self.h * o.l + self.l * o.h);
        let (h, l) = quick(p, e);
        D { h, l }
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        let q1 = self.h / o.h;
        if !q1.is_finite() || o.h.is_infinite() {
            return d(q1);
        }
        let r = self - o * d(q1);
        let q2 = r.h / o.h;
        let r = r - o * d(q2);
        let q3 = r.h / o.h;
        let (h, l) = quick(q1, q2);
        D { h, l } + d(q3)
    }
}

/// A reference value with the magnitude of what was added to form it: the scale against
/// which rounding error of any reasonable evaluation order is judged.
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub v: D,
    pub mag: f64,
}
impl Ref {
    pub fn sum(terms: &[D]) -> Ref {
        let mut v = d(0.0);
        let mut mag = 0.0;
        for t in terms {
            v = v + *t;
            mag += t.h.abs();
        }
        Ref { v, mag }
    }
}

/// n·ln(p) with 0·ln 0 = 0.
pub fn xlogp(n: D, p: D) -> D {
    if n.h == 0.0 { d(0.0) } else { n * p.ln() }
}
/// ln C(n,k).
pub fn lchoose(n: u64, k: u64) -> D {
    let one = d(1.0);
    (di(n) + one).lgamma() - (di(k) + one).lgamma() - (di(n - k) + one).lgamma()
}

pub fn selftest() {
    let close = |a: D, b: f64| ((a.f() - b) / b.abs().max(1.0)).abs() < 1e-15;
    assert!(close(d(1.0).exp(), std::f64::consts::E));
    assert!(close(d(10.0).ln(), std::f64::consts::LN_10));
    assert!((d(3.7).exp().ln() - d(3.7)).f().abs() < 1e-29);
    assert!(((PI * d(2.0)).ln() / d(2.0) - HALF_LN_2PI).f().abs() < 1e-29);
    // Γ(1/2) = √π, Γ(21) = 20!, Γ(101)
    assert!((d(0.5).lgamma() - PI.ln() / d(2.0)).f().abs() < 1e-28);
    assert!((d(21.0).lgamma() - di(2432902008176640000).ln()).f().abs() < 1e-28);
    let mut s = d(0.0);
    for i in 2..=100u64 {
        s = s + di(i).ln();
    }
    assert!((d(101.0).lgamma() - s).f().abs() < 1e-27);
    assert!((d(1e-5).lgamma() + d(1e-5).ln()).f().abs() < 1e-5);
}
