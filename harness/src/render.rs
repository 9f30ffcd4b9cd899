//! C21 rendering: the text is read back with an independent reader of the notation and
//! both formulas are evaluated at the same assignments.

use symbolic_math::Expr;
use symbolic_math::display;

use crate::mon::{Mon, Verdict, guard};
use crate::re::{Env, R, eval};
use crate::rng::{Rng, fnv, hs};
use crate::sym::{bx, env, env_txt, gen_expr, shape, template};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Notation {
    Plain,
    Python,
    Latex,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Num(f64),
    Name(String),
    Cmd(String),
    P(char),
    Pow,
}

fn lex(s: &str, nt: Notation) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = Vec::new();
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch.is_ascii_digit() || (ch == '.' && i + 1 < c.len() && c[i + 1].is_ascii_digit()) {
            let st = i;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            // An exponent only when digits follow.
            if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                let mut j = i + 1;
                if j < c.len() && (c[j] == '-' || c[j] == '+') {
                    j += 1;
                }
                if j < c.len() && c[j].is_ascii_digit() {
                    while j < c.len() && c[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            let t: String = c[st..i].iter().collect();
            o.push(T::Num(t.parse().map_err(|_| format!("bad number {t:?}"))?));
        } else if ch.is_alphabetic() || ch == '_' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (nt == Notation::Python && c[i] == '.')) {
                i += 1;
            }
            let mut t: String = c[st..i].iter().collect();
            if nt == Notation::Latex && t.ends_with('_') && i < c.len() && c[i] == '{' {
                let e = (i..c.len()).find(|&j| c[j] == '}').ok_or("unclosed subscript")?;
                t.extend(&c[i + 1..e]);
                i = e + 1;
            }
            // A table lookup is the variable it looks up.
            if nt == Notation::Python && t == "vars" && i < c.len() && c[i] == '[' {
                let e = (i..c.len()).find(|&j| c[j] == ']').ok_or("unclosed index")?;
                t = c[i + 1..e].iter().filter(|x| **x != '"' && **x != '\'').collect();
                i = e + 1;
            }
            o.push(T::Name(t));
        } else if ch == '\\' {
            let st = i + 1;
            i += 1;
            while i < c.len() && c[i].is_ascii_alphabetic() {
                i += 1;
            }
            if i == st {
                i += 1; // spacing command such as "\,"
                continue;
            }
            let t: String = c[st..i].iter().collect();
            if !["left", "right", "quad", "mathrm", "operatorname", "text", "big", "Big", "displaystyle"].contains(&t.as_str()) {
                o.push(T::Cmd(t));
            }
        } else if ch == '*' && c.get(i + 1) == Some(&'*') {
            o.push(T::Pow);
            i += 2;
        } else if ch == '^' {
            if nt == Notation::Python {
                return Err("'^' is exclusive-or in Python".into());
            }
            o.push(T::Pow);
            i += 1;
        } else if "+-*/(){}".contains(ch) || ch == '\u{b7}' || ch == '\u{d7}' {
            o.push(T::P(if ch == '\u{b7}' || ch == '\u{d7}' { '*' } else { ch }));
            i += 1;
        } else {
            return Err(format!("unexpected {ch:?}"));
        }
    }
    Ok(o)
}

struct Reader {
    t: Vec<T>,
    i: usize,
    nt: Notation,
}

impl Reader {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn eat(&mut self, t: &T) -> bool {
        if self.peek() == Some(t) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, ch: char) -> Result<(), String> {
        if self.eat(&T::P(ch)) { Ok(()) } else { Err(format!("expected {ch:?}, found {:?}", self.peek())) }
    }
    fn sum(&mut self) -> Result<Expr, String> {
        let mut a = self.term()?;
        loop {
            if self.eat(&T::P('+')) {
                a = Expr::Add(bx(a), bx(self.term()?));
            } else if self.eat(&T::P('-')) {
                a = Expr::Sub(bx(a), bx(self.term()?));
            } else {
                return Ok(a);
            }
        }
    }
    fn times(&mut self) -> bool {
        match self.peek() {
            Some(T::P('*')) => true,
            Some(T::Cmd(c)) if self.nt == Notation::Latex => c == "cdot" || c == "times",
            _ => false,
        }
    }
    fn term(&mut self) -> Result<Expr, String> {
        let mut a = self.unary()?;
        loop {
            if self.times() {
                self.i += 1;
                a = Expr::Mul(bx(a), bx(self.unary()?));
            } else if self.eat(&T::P('/')) {
                a = Expr::Div(bx(a), bx(self.unary()?));
            } else if self.nt == Notation::Latex && matches!(self.peek(), Some(T::Num(_) | T::Name(_) | T::Cmd(_) | T::P('('))) {
                if matches!((&self.t[self.i - 1], self.peek()), (T::Num(_), Some(T::Num(_)))) {
                    return Err("two numbers side by side".into());
                }
                a = Expr::Mul(bx(a), bx(self.power()?)); // juxtaposition
            } else {
                return Ok(a);
            }
        }
    }
    fn unary(&mut self) -> Result<Expr, String> {
        if self.eat(&T::P('-')) {
            return Ok(Expr::Neg(bx(self.unary()?)));
        }
        if self.eat(&T::P('+')) {
            return self.unary();
        }
        self.power()
    }
    fn exponent(&mut self) -> Result<Expr, String> {
        if self.nt == Notation::Latex {
            if self.eat(&T::P('{')) {
                let e = self.sum()?;
                self.want('}')?;
                return Ok(e);
            }
            // An unbraced superscript is a single token.
            let tok = self.peek().cloned();
            self.i += 1;
            return match tok {
                Some(T::Num(v)) if v < 10.0 && v == v.trunc() => Ok(Expr::Const(v)),
                Some(T::Name(n)) if n.chars().count() == 1 => Ok(Expr::Var(n)),
                t => Err(format!("superscript {t:?} without braces")),
            };
        }
        self.unary() // binds to the right, sign allowed
    }
    fn power(&mut self) -> Result<Expr, String> {
        let e_base = self.nt == Notation::Latex && self.peek() == Some(&T::Name("e".into())) && self.t.get(self.i + 1) == Some(&T::Pow);
        let a = if e_base {
            self.i += 2;
            Expr::Exp(bx(self.exponent()?))
        } else {
            let a = self.atom()?;
            if !self.eat(&T::Pow) {
                return Ok(a);
            }
            Expr::Pow(bx(a), bx(self.exponent()?))
        };
        if self.nt == Notation::Latex && self.peek() == Some(&T::Pow) {
            return Err("double superscript".into());
        }
        Ok(a)
    }
    fn group(&mut self) -> Result<Expr, String> {
        if self.nt == Notation::Latex && self.eat(&T::P('{')) {
            let e = self.sum()?;
            self.want('}')?;
            return Ok(e);
        }
        self.want('(')?;
        let e = self.sum()?;
        self.want(')')?;
        Ok(e)
    }
    fn call(&mut self, name: &str, power: Option<Expr>) -> Result<Expr, String> {
        let a = bx(self.group()?);
        let f = match name {
            "ln" | "log" => Expr::Ln(a),
            "exp" => Expr::Exp(a),
            "sqrt" => Expr::Sqrt(a),
            "sin" => Expr::Sin(a),
            "cos" => Expr::Cos(a),
            n => return Err(format!("unknown function {n}")),
        };
        Ok(match power {
            Some(p) => Expr::Pow(bx(f), bx(p)),
            None => f,
        })
    }
    fn atom(&mut self) -> Result<Expr, String> {
        let tok = self.peek().cloned();
        match tok {
            Some(T::Num(v)) => {
                self.i += 1;
                Ok(Expr::Const(v))
            }
            Some(T::P('(')) => self.group(),
            Some(T::P('{')) if self.nt == Notation::Latex => self.group(),
            Some(T::Name(n)) => {
                self.i += 1;
                let bare = n.strip_prefix("math.").or_else(|| n.strip_prefix("np.")).or_else(|| n.strip_prefix("numpy."));
                let fun = match self.nt {
                    Notation::Plain => ["ln", "log", "exp", "sqrt", "sin", "cos"].contains(&n.as_str()).then_some(n.as_str()),
                    // Python's log is natural only in these modules; no bare functions exist.
                    Notation::Python => bare,
                    Notation::Latex => None,
                };
                match fun {
                    Some("ln") if self.nt == Notation::Python => Err("no ln in Python's math module".into()),
                    Some(f) => {
                        let f = f.to_string();
                        self.call(&f, None)
                    }
                    None => Ok(Expr::Var(n)),
                }
            }
            Some(T::Cmd(n)) => {
                self.i += 1;
                match n.as_str() {
                    "frac" | "dfrac" | "tfrac" => {
                        self.want('{')?;
                        let a = self.sum()?;
                        self.want('}')?;
                        self.want('{')?;
                        let b = self.sum()?;
                        self.want('}')?;
                        Ok(Expr::Div(bx(a), bx(b)))
                    }
                    "ln" | "log" | "exp" | "sin" | "cos" => {
                        let p = if self.eat(&T::Pow) { Some(self.exponent()?) } else { None };
                        self.call(&n, p)
                    }
                    "sqrt" => self.call("sqrt", None),
                    "mu" | "sigma" | "theta" | "lambda" | "alpha" | "beta" => {
                        // A Greek letter, with its subscript if one follows.
                        let mut name = n;
                        if let Some(T::Name(s)) = self.peek()
                            && s.starts_with('_')
                        {
                            name.push_str(s);
                            self.i += 1;
                        }
                        Ok(Expr::Var(name))
                    }
                    _ => Err(format!("unknown command \\{n}")),
                }
            }
            t => Err(format!("unexpected {t:?}")),
        }
    }
}

pub fn read(s: &str, nt: Notation) -> Result<Expr, String> {
    let mut p = Reader { t: lex(s, nt)?, i: 0, nt };
    let e = p.sum()?;
    if p.i < p.t.len() {
        return Err(format!("trailing {:?}", p.peek()));
    }
    Ok(e)
}

pub const NAMES: [&str; 6] = ["x", "y", "mu", "sigma", "theta_1", "n"];

/// Same value wherever both are decided; None when no assignment decided anything.
pub fn same_formula(a: &Expr, b: &Expr, envs: &[Env]) -> Option<Result<(), String>> {
    let mut decided = false;
    for x in envs {
        match (eval(a, x), eval(b, x)) {
            (R::Val(u, eu), R::Val(v, ev)) => {
                decided = true;
                let tol = 8.0 * (eu + ev) + 1e-15 * u.h.abs();
                let diff = (u - v).f().abs();
                if diff > tol {
                    return Some(Err(format!("at {}: formula {:?}, text {:?}", env_txt(x), u.f(), v.f())));
                }
            }
            (R::Val(u, _), R::Err(b)) => return Some(Err(format!("at {}: formula {:?}, text undefined ({b:?})", env_txt(x), u.f()))),
            (R::Err(b), R::Val(v, _)) => return Some(Err(format!("at {}: formula undefined ({b:?}), text {:?}", env_txt(x), v.f()))),
            _ => {}
        }
    }
    decided.then_some(Ok(()))
}

/// Judge one rendering.
pub fn judge_text(e: &Expr, text: &Result<String, String>, nt: Notation, envs: &[Env]) -> Verdict {
    let t = match text {
        Ok(t) => t,
        Err(p) => return Verdict::Violated(format!("panicked: {p}")),
    };
    match read(t, nt) {
        Err(er) => Verdict::Violated(format!("{t:?} is not {nt:?} notation: {er}")),
        Ok(b) => match same_formula(e, &b, envs) {
            Some(Ok(())) => Verdict::Held,
            Some(Err(d)) => Verdict::Violated(format!("rendered {t:?}; {d}")),
            None => Verdict::Inconclusive,
        },
    }
}

fn finite(e: &Expr) -> bool {
    match e {
        Expr::Const(c) => c.is_finite(),
        Expr::Var(_) => true,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => finite(a) && finite(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => finite(a),
    }
}

fn one(m: &mut Mon, r: &mut Rng, e: &Expr, envs: &[Env], tag: &str) {
    if !finite(e) {
        return;
    }
    let sh = shape(e);
    let key = hs(&format!("{e:?}"));
    let case = || format!("{e:?}");
    for (kind, nt, text) in [
        ("plain", Notation::Plain, guard(|| format!("{e}"))),
        ("python", Notation::Python, guard(|| e.to_python())),
        ("latex", Notation::Latex, guard(|| e.to_latex())),
    ] {
        m.observe(&format!("{kind} {tag}"), &sh, key, true, case, judge_text(e, &text, nt, envs));
    }
    if !r.chance(0.25) {
        return;
    }
    let strip = |t: String| t.trim().trim_start_matches('$').trim_end_matches('$').to_string();
    let t = guard(|| strip(display::latex(e)));
    m.observe("display::latex", &sh, key, true, case, judge_text(e, &t, Notation::Latex, envs));
    let t = guard(|| {
        let t = display::python(e);
        // The text is a Python lambda; what counts is its body.
        match t.strip_prefix("lambda").and_then(|x| x.split_once(':')) {
            Some((_, b)) => b.trim().to_string(),
            None => t,
        }
    });
    m.observe("display::python", &sh, key, true, case, judge_text(e, &t, Notation::Python, envs));
    let t = guard(|| format!("{}", display::PrettyExpr(e)));
    m.observe("PrettyExpr", &sh, key, true, case, judge_text(e, &t, Notation::Plain, envs));
    let lhs = *r.pick(&["f(x)", "y", "log_p"]);
    let t = guard(|| {
        let t = display::equation(lhs, e);
        match t.split_once('=') {
            Some((l, b)) if l.trim() == lhs => b.trim().to_string(),
            _ => format!("?{t}"),
        }
    });
    m.observe("equation", &sh, key, true, case, judge_text(e, &t, Notation::Plain, envs));
}

/// All expressions of depth at most 2 over a small set of leaves.
fn small() -> Vec<Expr> {
    let leaves = || vec![Expr::Var("x".into()), Expr::Var("y".into()), Expr::Const(-2.0), Expr::Const(3.0), Expr::Const(-1.0), Expr::Const(1.0)];
    fn un(a: &Expr) -> Vec<Expr> {
        let a = || bx(a.clone());
        vec![Expr::Ln(a()), Expr::Exp(a()), Expr::Sqrt(a()), Expr::Sin(a()), Expr::Cos(a()), Expr::Neg(a())]
    }
    fn bin(a: &Expr, b: &Expr) -> Vec<Expr> {
        let (a, b) = (|| bx(a.clone()), || bx(b.clone()));
        vec![Expr::Add(a(), b()), Expr::Sub(a(), b()), Expr::Mul(a(), b()), Expr::Div(a(), b()), Expr::Pow(a(), b())]
    }
    let l0 = leaves();
    let mut l1 = l0.clone();
    for a in &l0 {
        l1.extend(un(a));
        for b in &l0 {
            l1.extend(bin(a, b));
        }
    }
    let mut l2 = l1.clone();
    for a in &l1 {
        l2.extend(un(a));
        for b in &l1 {
            // One side of depth 1, the other a leaf or of depth 1 with a different operator head.
            l2.extend(bin(a, b));
        }
    }
    l2
}

pub fn c21(m: &mut Mon) {
    m.rule = "cases: every expression of depth <= 2 over {x, y, -2, 3, -1, 1} (sampled in the quick tier) and random deeper ones with arbitrary finite constants × notation; the text is read by an independent reader and both formulas are evaluated in double-double at several assignments; distinct: by expression".into();
    m.assumptions.push("usual precedence: powers bind tighter than unary minus and to the right; in LaTeX a superscript applies to the preceding atom, group, fraction or function application, juxtaposition multiplies".into());
    m.assumptions.push("variable names that are themselves words of the notation (e, exp, ln, ...) and non-finite constants are not generated".into());
    let mut r = m.rng.derive("c21");
    let all = small();
    let envs: Vec<Env> = [(1.7, 0.6), (-0.8, 2.3), (2.0, -3.0), (-1.4, -0.3), (0.9, 4.0)]
        .iter()
        .map(|(x, y)| Env::from([("x".to_string(), *x), ("y".to_string(), *y)]))
        .collect();
    let step = if m.thorough { 1 } else { 7 };
    let off = r.below(step);
    // Depth 1 and the first part of depth 2 always, the rest in strides.
    for (i, e) in all.iter().enumerate() {
        if i < 4000 || i % step == off {
            one(m, &mut r, e, &envs, "small");
        }
        if i % 1024 == 0 && m.spent() {
            break;
        }
    }
    m.extra.push(("small_expressions".into(), all.len().to_string()));
    let n = m.n(12_000, 400_000);
    for _ in 0..n {
        if m.spent() {
            break;
        }
        let nv = 1 + r.below(NAMES.len());
        let vars = &NAMES[..nv];
        let depth = 1 + r.below(5);
        let e = if r.chance(0.2) { template(&mut r, vars) } else { gen_expr(&mut r, vars, depth) };
        let envs: Vec<Env> = (0..4).map(|_| env(&mut r, vars)).collect();
        one(m, &mut r, &e, &envs, "random");
    }
    // Constants alone: the text must carry the exact value.
    for _ in 0..m.n(4000, 100_000) {
        let c = match r.below(3) {
            0 => r.fin(),
            1 => f64::from_bits(r.next()),
            _ => r.normal() * 10f64.powf(r.range(-250.0, 250.0)),
        };
        if !c.is_finite() || (c != 0.0 && c.abs() < 1e-300) {
            continue;
        }
        let e = Expr::Const(c);
        for (nt, t) in [(Notation::Plain, guard(|| format!("{e}"))), (Notation::Python, guard(|| e.to_python())), (Notation::Latex, guard(|| e.to_latex()))] {
            let v = match &t {
                Err(p) => Verdict::Violated(format!("panicked: {p}")),
                Ok(t) => match read(t, nt) {
                    Ok(b) => match fold(&b) {
                        Some(v) if v == c => Verdict::Held,
                        v => Verdict::Violated(format!("{t:?} is {v:?}")),
                    },
                    Err(er) => Verdict::Violated(format!("{t:?}: {er}")),
                },
            };
            m.observe("constants", &format!("{nt:?}"), fnv(&[c.to_bits(), nt as u64]), true, || format!("{c:?}"), v);
        }
    }
    for k in ["plain small", "latex small", "python small", "plain random", "python random", "latex random"] {
        m.require(k, 2000);
    }
    for k in ["display::latex", "display::python", "equation", "PrettyExpr", "constants"] {
        m.require(k, 500);
    }
}

/// The value of a signed constant, allowing scientific notation by powers of ten.
fn fold(e: &Expr) -> Option<f64> {
    match e {
        Expr::Const(c) => Some(*c),
        Expr::Neg(a) => fold(a).map(|v| -v),
        Expr::Mul(a, b) => {
            let (a, b) = (fold(a)?, b);
            match &**b {
                Expr::Pow(t, k) if fold(t) == Some(10.0) => format!("{a}e{}", fold(k)?).parse().ok(),
                _ => None,
            }
        }
        _ => None,
    }
}

pub fn selftest() {
    let at = |t: &str, nt| {
        let e = read(t, nt).unwrap_or_else(|er| panic!("{t}: {er}"));
        match eval(&e, &Env::from([("x".to_string(), 3.0), ("y".to_string(), 2.0)])) {
            R::Val(v, _) => v.f(),
            _ => f64::NAN,
        }
    };
    for (t, nt, v) in [
        ("-2^2", Notation::Plain, -4.0),
        ("2^3^2", Notation::Plain, 512.0),
        ("2^-1", Notation::Plain, 0.5),
        ("x - y - 1", Notation::Plain, 0.0),
        ("-x ** 2", Notation::Python, -9.0),
        ("x / y / 2", Notation::Python, 0.75),
        ("-(x) ** 2", Notation::Python, -9.0),
        ("math.sqrt(x + 1)", Notation::Python, 2.0),
        ("2x^{2}", Notation::Latex, 18.0),
        ("\\frac{x}{y} \\cdot 4", Notation::Latex, 6.0),
        ("-2^{2}", Notation::Latex, -4.0),
        ("\\left(x + y\\right)^{2}", Notation::Latex, 25.0),
        ("x - y + 1", Notation::Latex, 2.0),
    ] {
        let g = at(t, nt);
        assert!((g - v).abs() < 1e-12, "{t}: {g} != {v}");
    }
    assert!(read("x^{2}^{3}", Notation::Latex).is_err());
    assert!(read("x ^ 2", Notation::Python).is_err());
}
