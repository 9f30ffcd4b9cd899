//! C28 memory safety and data races: workloads for the sanitizers, the undefined-behaviour
//! interpreter and the crash monitor. Here only *that* the execution is clean counts; the
//! values are the business of the other properties.

use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};

use measures_combinators::measures::combinators::pushforward::transforms;
use measures_combinators::{MixtureExt, ProductMeasureExt, PushforwardExt};
use measures_core::core::density::LogDensityCaching;
use measures_core::{EvaluateAt, HasLogDensity, LogDensityBuilder, LogDensityDecomposition, log_density_batch};
use measures_distributions::*;
use measures_exponential_family::{IID, compute_iid_exp_fam_log_density};
use symbolic_math::jit::GeneralJITFunction;
use symbolic_math::{CustomSymbolicLogDensity, Expr, GeneralJITCompiler, JITSignature, clear_caches, get_cache_stats};

use crate::isolate::{Limits, Obs, batches};
use crate::jit::{Via, call, compile, weighted};
use crate::mon::{Mon, Verdict, guard};
use crate::rng::{Rng, fnv, hs};
use crate::sym::{cache_envs, cache_pool, gen_expr, val};

// ------------------------------------------------ slices against inaccessible pages

/// A copy of a slice whose neighbours (both sides in turn) cannot be accessed.
pub struct Fence {
    #[cfg(not(miri))]
    map: (*mut u8, usize),
    ptr: *mut f64,
    len: usize,
}
impl Fence {
    #[cfg(not(miri))]
    pub fn new(v: &[f64], at_end: bool) -> Fence {
        use libc as c;
        const P: usize = 4096;
        let body = std::mem::size_of_val(v).div_ceil(P).max(1) * P;
        unsafe {
            let m = c::mmap(std::ptr::null_mut(), body + 2 * P, c::PROT_NONE, c::MAP_PRIVATE | c::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(m as isize != -1, "mmap");
            assert!(c::mprotect(m.add(P).cast(), body, c::PROT_READ | c::PROT_WRITE) == 0);
            let off = if at_end { body - std::mem::size_of_val(v) } else { 0 };
            let ptr = m.add(P + off).cast::<f64>();
            std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len());
            // The compiled code has no business writing to its arguments.
            assert!(c::mprotect(m.add(P).cast(), body, c::PROT_READ) == 0);
            Fence { map: (m, body + 2 * P), ptr, len: v.len() }
        }
    }
    #[cfg(miri)]
    pub fn new(v: &[f64], _: bool) -> Fence {
        let b: Box<[f64]> = v.into();
        Fence { ptr: Box::into_raw(b).cast(), len: v.len() }
    }
    pub fn get(&self) -> &[f64] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl Drop for Fence {
    fn drop(&mut self) {
        #[cfg(miri)]
        unsafe {
            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.ptr, self.len)));
        }
        #[cfg(not(miri))]
        unsafe {
            libc::munmap(self.map.0.cast(), self.map.1);
        }
    }
}

// ------------------------------------------------ using a value in every way that compiles

/// A value under test; which of the traits below applies depends on what its type allows.
pub struct Probe<T>(pub T);

/// Applies when the type may be shared between threads: then it is shared.
pub trait IfSync<T> {
    fn share(&self, threads: usize, f: &(dyn Fn(&T, usize) + Sync)) -> bool;
}
impl<T: Sync> IfSync<T> for Probe<T> {
    fn share(&self, threads: usize, f: &(dyn Fn(&T, usize) + Sync)) -> bool {
        std::thread::scope(|s| {
            for t in 0..threads {
                s.spawn(move || f(&self.0, t));
            }
        });
        true
    }
}
pub trait NotSync<T> {
    fn share(&self, threads: usize, f: &(dyn Fn(&T, usize) + Sync)) -> bool;
}
impl<T> NotSync<T> for &Probe<T> {
    fn share(&self, _: usize, f: &(dyn Fn(&T, usize) + Sync)) -> bool {
        f(&self.0, 0);
        false
    }
}
/// Applies when the type may move to another thread: then it does, and is dropped there.
pub trait IfSend<T> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool;
}
impl<T: Send> IfSend<T> for Probe<T> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool {
        std::thread::scope(|s| {
            s.spawn(move || {
                f(&self.0);
                drop(self);
            });
        });
        true
    }
}
/// Otherwise it is used and dropped here.
pub trait NotSend<T> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool;
}
impl<T> NotSend<T> for &mut Option<Probe<T>> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool {
        if let Some(p) = self.take() {
            f(&p.0);
        }
        false
    }
}
/// Dispatch for `send`: the option's contents when they may move, the option otherwise.
pub trait IfSendOpt<T> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool;
}
impl<T: Send> IfSendOpt<T> for Option<Probe<T>> {
    fn send(self, f: &(dyn Fn(&T) + Sync)) -> bool {
        self.is_some_and(|p| IfSend::send(p, f))
    }
}

/// Order in which the threads' operations completed. Relaxed on purpose: the log must not
/// order the operations it observes.
pub struct Order {
    next: AtomicUsize,
    slots: Vec<AtomicU8>,
}
impl Order {
    pub fn new(n: usize) -> Self {
        Order { next: AtomicUsize::new(0), slots: (0..n).map(|_| AtomicU8::new(0)).collect() }
    }
    pub fn tick(&self, t: usize) {
        let k = self.next.fetch_add(1, Ordering::Relaxed);
        if let Some(s) = self.slots.get(k) {
            s.store(t as u8 + 1, Ordering::Relaxed);
        }
    }
    pub fn digest(&self) -> u64 {
        fnv(&self.slots.iter().map(|a| u64::from(a.load(Ordering::Relaxed))).collect::<Vec<_>>())
    }
}

fn nothing<T>(_: T) {}
/// Tells the closure what it is given.
fn on<T, F: Fn(&T, usize) + Sync>(_: &Probe<T>, f: F) -> F {
    f
}

// ------------------------------------------------ workloads

const MAX_DIM: usize = 40;

fn vars(prefix: &str, n: usize) -> Vec<String> {
    (0..n).map(|i| format!("{prefix}{i}")).collect()
}

fn arity(r: &mut Rng) -> (usize, usize) {
    match r.below(12) {
        0 => (1, 0),
        1 => (1, 1),
        2 => (1, 2),
        3 => (1, 3),
        4 => (1, 4 + r.below(8)),
        5 => (r.below(3), 0),
        6 => (0, r.below(MAX_DIM)),
        7 => (r.below(MAX_DIM), 0),
        8 => (1, r.below(MAX_DIM)),
        9 => (500 + r.below(200), r.below(700)),
        _ => (r.below(9), r.below(9)),
    }
}

fn wild(r: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| if r.chance(0.4) { r.any() } else { val(r) }).collect()
}

/// Any expression over the given variables.
fn formula(r: &mut Rng, all: &[String]) -> Expr {
    if all.is_empty() {
        return Expr::constant(r.normal());
    }
    if r.chance(0.4) {
        return weighted(r, all).0;
    }
    let few: Vec<&str> = (0..6).map(|_| r.pick(all).as_str()).collect();
    let depth = 2 + r.below(5);
    gen_expr(r, &few, depth)
}

struct Fun {
    f: GeneralJITFunction,
    nd: usize,
    np: usize,
}
fn fun(r: &mut Rng) -> Option<Fun> {
    let (nd, np) = arity(r);
    let (d, p) = (vars("d", nd), vars("p", np));
    let all: Vec<String> = d.iter().chain(&p).cloned().collect();
    let e = formula(r, &all);
    let via = if r.chance(0.5) { Via::Expression } else { Via::Tagless };
    let f = guard(|| compile(via, &e, &d, &p, &HashMap::new())).ok()?.ok()?;
    Some(Fun { f, nd, np })
}
fn use_fun(l: &Fun, r: &mut Rng) {
    let (d, p) = (Fence::new(&wild(r, l.nd), r.chance(0.7)), Fence::new(&wild(r, l.np), r.chance(0.7)));
    nothing(guard(|| std::hint::black_box(call(&l.f, d.get(), p.get()))));
    nothing(guard(|| std::hint::black_box(l.f.call_batch(d.get(), p.get()))));
    if r.chance(0.3) {
        // The wrong entry point or the wrong number of arguments is refused, not run.
        let (n, q) = (r.below(6), r.below(6));
        let (d, p) = (Fence::new(&wild(r, n), true), Fence::new(&wild(r, q), true));
        nothing(guard(|| std::hint::black_box(l.f.call_batch(d.get(), p.get()))));
        nothing(guard(|| std::hint::black_box(l.f.call_data_params(1.5, p.get()))));
        nothing(guard(|| std::hint::black_box(l.f.call_data_param(1.5, 2.5))));
        nothing(guard(|| std::hint::black_box(l.f.call_single(1.5))));
    }
}

/// Compiled functions called with fenced arguments.
fn fenced(r: &mut Rng, o: &mut Obs, b: usize) {
    for i in 0..12 {
        let Some(mut l) = fun(r) else { continue };
        let what = format!("batch {b}.{i}: {} data, {} parameters: {:.300}", l.nd, l.np, l.f.source_expression);
        o.announce(&what);
        for _ in 0..6 {
            use_fun(&l, r);
        }
        if r.chance(0.3) {
            // The description of the inputs is a public field: whatever is written there,
            // the code is not run with arguments it was not compiled for.
            for _ in 0..4 {
                l.f.signature = match r.below(4) {
                    0 => JITSignature::SingleInput,
                    1 => JITSignature::DataAndParameter,
                    2 => JITSignature::DataAndParameters(r.below(8)),
                    _ => JITSignature::MultipleDataAndParameters { data_dims: r.below(4), param_dims: r.below(4) },
                };
                let (nd, np) = match l.f.signature {
                    JITSignature::SingleInput => (1, 0),
                    JITSignature::DataAndParameter => (1, 1),
                    JITSignature::DataAndParameters(n) => (1, n),
                    JITSignature::MultipleDataAndParameters { data_dims, param_dims } => (data_dims, param_dims),
                    JITSignature::Custom { .. } => (0, 0),
                };
                (l.nd, l.np) = (nd, np);
                use_fun(&l, r);
            }
            o.observe("signature field rewritten", "signature", fnv(&[hs(&what)]), true, || what.clone(), Verdict::Held);
        }
        o.observe("compiled call on fenced slices", "call", fnv(&[hs(&what)]), true, || what.clone(), Verdict::Held);
    }
}

/// Every other operation that takes a slice.
fn slices(r: &mut Rng, o: &mut Obs, b: usize) {
    let n = match r.below(6) {
        0 => r.below(3),
        1 => 512 * (1 + r.below(3)),
        _ => r.below(40),
    };
    let v = wild(r, n);
    let f = Fence::new(&v, r.chance(0.7));
    let x = f.get();
    let xv = r.normal();
    macro_rules! op {
        ($n:expr, $e:expr) => {{
            o.announce(&format!("batch {b}: {} on a slice of {n}", $n));
            nothing(guard(|| std::hint::black_box($e)));
            o.observe("slice operation", $n, fnv(&[hs($n), n as u64, b as u64]), n > 0, || format!("{} on {n} values", $n), Verdict::Held);
        }};
    }
    type E = mathjit::final_tagless::DirectEval;
    use mathjit::final_tagless::polynomial as p;
    op!("horner", p::horner::<E, f64>(x, xv));
    op!("horner_expr", p::horner_expr::<E, f64>(x, xv));
    op!("from_roots", p::from_roots::<E, f64>(x, xv));
    op!("horner_derivative", p::horner_derivative::<E, f64>(x, xv));
    op!("builders::polynomial", symbolic_math::builders::polynomial(Expr::variable("x"), &x[..n.min(40)]).complexity());
    let e = gen_expr(r, &["x"], 4);
    op!("evaluate_batch", e.evaluate_batch("x", x).is_ok());
        let nm = Normal::new(0.5, 1.5);
    op!("log_density_batch", log_density_batch(&nm, x).len());
    op!("normal log_density_iid", nm.log_density_iid(x));
    op!("cauchy log_density_iid", Cauchy::new(0.0, 1.0).log_density_iid(x));
    op!("student log_density_iid", StudentT::new(3.0).log_density_iid(x));
    let iid = IID::new(nm.clone());
    op!("iid_log_density", iid.iid_log_density::<f64, f64>(x));
    op!("compute_iid", compute_iid_exp_fam_log_density::<f64, f64, _>(&nm, x));
    op!("stable_ln_sum_exp", symbolic_math::final_tagless::stable_ln_sum_exp(x));
    let probs: Vec<f64> = vec![1.0 / (n.max(1) as f64); n.max(1)];
    let cat = Categorical::new(probs);
    let k = r.below(n.max(1) + 3);
    op!("categorical", cat.log_density().at(&k) + HasLogDensity::<usize, f64>::log_density_wrt_root(&cat, &k));
    let m = 5.min(n);
    let (ws, mu, sd) = (Fence::new(&vec![0.2; m], true), Fence::new(&v[..m], true), Fence::new(&vec![1.0; m], true));
    op!("mixture_likelihood", measures_bayesian::bayesian::expressions::mixture_likelihood("x", ws.get(), mu.get(), sd.get()).complexity());
}

/// Threads that compile, call and drop their functions in any order, with memory churn.
fn lifecycle(r: &mut Rng, o: &mut Obs, b: usize) {
    let threads = 2 + r.below(4);
    let steps = 20 + r.below(30);
    o.announce(&format!("batch {b}: {threads} threads × {steps} compilations, calls and drops"));
    let order = Arc::new(Order::new(threads * steps));
    let seeds: Vec<Rng> = (0..threads).map(|t| r.derive(&format!("l{t}"))).collect();
    let calls: usize = std::thread::scope(|s| {
        let hs_: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(t, mut r)| {
                let order = order.clone();
                s.spawn(move || {
                    let mut live: Vec<Fun> = Vec::new();
                    let mut junk: Vec<Vec<u8>> = Vec::new();
                    let mut calls = 0;
                    for _ in 0..steps {
                        match r.below(8) {
                            0..=2 if live.len() < 8 => live.extend(fun(&mut r)),
                            3 if !live.is_empty() => {
                                let i = r.below(live.len());
                                drop(live.swap_remove(i));
                                // Reuse what was just freed.
                                junk.push(vec![0xCC; 64 + r.below(20_000)]);
                            }
                            4 => {
                                // A compiler that is dropped without compiling, or after failing.
                                if let Ok(c) = GeneralJITCompiler::new() {
                                    if r.chance(0.5) {
                                        nothing(guard(|| c.compile_expression(&Expr::variable("missing"), &[], &[], &HashMap::new()).is_err()));
                                    }
                                }
                                if junk.len() > 4 {
                                    junk.clear();
                                }
                            }
                            _ => {
                                for l in &live {
                                    use_fun(l, &mut r);
                                    calls += 1;
                                }
                            }
                        }
                        order.tick(t);
                    }
                    calls
                })
            })
            .collect();
        hs_.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    });
    o.observe("compile, call and drop on threads", "lifecycle", order.digest(), calls > 0, || format!("batch {b}: {threads} threads, {calls} rounds of calls, interleaving {:016x}", order.digest()), Verdict::Held);
}

/// The global caches from several threads, with clears, statistics and panicking callers.
fn caches(r: &mut Rng, o: &mut Obs, b: usize, threads: usize, steps: usize) {
    let mut pool = cache_pool(r);
    pool.truncate(14);
    let envs = cache_envs(r);
    o.announce(&format!("batch {b}: {threads} threads × {steps} cached operations"));
    let order = Order::new(threads * steps);
    let seeds: Vec<Rng> = (0..threads).map(|t| r.derive(&format!("k{t}"))).collect();
    let ops: u64 = std::thread::scope(|s| {
        let (pool, envs, order) = (&pool, &envs, &order);
        let hs_: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(t, mut r)| {
                s.spawn(move || {
                    let mut mask = 0u64;
                    for _ in 0..steps {
                        let e = r.pick(pool);
                        let k = r.below(10);
                        mask |= 1 << k;
                        match k {
                            0 => clear_caches(),
                            1 => {
                                let s = get_cache_stats();
                                std::hint::black_box(s.simplification_hit_rate() + s.evaluation_hit_rate());
                            }
                            2..=5 => nothing(guard(|| std::hint::black_box(e.clone().simplify_cached().complexity()))),
                            _ => nothing(guard(|| std::hint::black_box(e.evaluate_cached(r.pick(envs)).is_ok()))),
                        }
                        order.tick(t);
                    }
                    mask
                })
            })
            .collect();
        hs_.into_iter().map(|h| h.join().unwrap_or(0)).fold(0, |a, b| a | b)
    });
    o.observe("shared caches on threads", "caches", order.digest(), ops != 0, || format!("batch {b}: {threads} threads × {steps} operations, interleaving {:016x}", order.digest()), Verdict::Held);
}

/// Values used from every thread their type allows, moved where it allows, dropped there.
fn shared(r: &mut Rng, o: &mut Obs, b: usize) {
    let threads = 2 + r.below(3);
    let rounds = if cfg!(miri) { 3 } else { 40 };
    macro_rules! probe {
        ($n:expr, $make:expr, $f:expr) => {{
            o.announce(&format!("batch {b}: {} from {threads} threads", $n));
            let order = Order::new(threads * rounds);
            let p = Probe($make);
            let f = on(&p, $f);
            let both = (&p).share(threads, &|v, t| {
                for k in 0..rounds {
                    nothing(guard(|| f(v, k * 7 + t)));
                    order.tick(t);
                }
            });
            o.observe(if both { "shared by threads" } else { "single-threaded type" }, $n, fnv(&[hs($n), order.digest()]), true, || format!("{}: shared {both}, interleaving {:016x}", $n, order.digest()), Verdict::Held);
            let moved = Some(Probe($make)).send(&|v| {
                for k in 0..5 {
                    nothing(guard(|| f(v, k)));
                }
            });
            o.observe(if moved { "moved to a thread" } else { "kept on its thread" }, $n, fnv(&[hs($n), b as u64]), true, || format!("{}: moved {moved}", $n), Verdict::Held);
        }};
    }
    let (mu, s) = (r.normal(), r.logu(-1.0, 1.0));
    let at = |k: usize| (k % 11) as f64 - 5.0;
    // Caches keyed by integers and by user-defined keys.
    probe!("cached log-density of Poisson", Poisson::<f64>::new(3.5).log_density().cached_for::<f64>(), |v, k| nothing(std::hint::black_box(v.at(&(k as u64 % 9)))));
    probe!("cached log-density of Binomial", Binomial::<f64>::new(9, 0.3).log_density().cached(), |v, k| nothing(std::hint::black_box(v.at(&(k as u64 % 12)))));
    probe!("log-density of Normal", Normal::new(mu, s).log_density(), |v, k| nothing(std::hint::black_box(EvaluateAt::<f64, f64>::at(v, &at(k)))));
    probe!("mixture", Normal::new(mu, s).mixture(Normal::new(0.0, 1.0), 0.5, 0.5), |v, k| nothing(std::hint::black_box(HasLogDensity::<f64, f64>::log_density_wrt_root(v, &at(k)))));
    probe!("product", Normal::new(mu, s).product(Exponential::new(1.0)), |v, k| nothing(std::hint::black_box(HasLogDensity::<(f64, f64), f64>::log_density_wrt_root(v, &(at(k), 1.0)))));
    probe!("pushforward", { let (f, i, j) = transforms::linear_transform::<f64>(2.0, mu); Normal::new(mu, s).pushforward(f, i, j) }, |v, k| nothing(std::hint::black_box(HasLogDensity::<f64, f64>::log_density_wrt_root(v, &at(k)))));
    probe!("categorical", Categorical::new(vec![0.2, 0.3, 0.5]), |v, k| nothing(std::hint::black_box(HasLogDensity::<usize, f64>::log_density_wrt_root(v, &(k % 4)))));
    probe!("decomposition", LogDensityDecomposition::<f64, f64, f64>::new().add_data_term(|x: &f64| x * 2.0, None).add_param_term(|t: &f64| -t, None), |v, k| nothing(std::hint::black_box(v.evaluate(&at(k), &1.5))));
    probe!("expression", gen_expr(&mut Rng::new(b as u64), &["x"], 4), |v: &Expr, k| nothing(std::hint::black_box(v.evaluate_batch("x", &[at(k)]).is_ok())));
    probe!("custom symbolic log-density", CustomSymbolicLogDensity::new(Expr::Ln(Box::new(Expr::variable("x"))), HashMap::new()), |v, k| nothing(std::hint::black_box(v.evaluate_single("x", at(k)).is_ok())));
    #[cfg(not(miri))]
    {
        probe!("compiled function", compile(Via::Expression, &(Expr::variable("x") * 2.0), &["x".to_string()], &[], &HashMap::new()).expect("compiles"), |v: &GeneralJITFunction, k| nothing(std::hint::black_box(v.call_single(at(k)))));
        probe!("Bayesian optimizer", measures_bayesian::BayesianJITOptimizer::new(), |v: &measures_bayesian::BayesianJITOptimizer, _| nothing(std::hint::black_box(v.evaluate_prior(&[1.0]))));
    }
}

thread_local! {
    static FUSE: RefCell<u32> = const { RefCell::new(0) };
}
/// A key whose comparisons and hashes panic when the fuse runs out.
#[derive(Clone, Debug)]
struct Touchy(u64);
fn burn() {
    let blow = FUSE.with(|f| {
        let mut f = f.borrow_mut();
        if *f == 0 {
            return false;
        }
        *f -= 1;
        *f == 0
    });
    assert!(!blow, "fuse");
}
impl PartialEq for Touchy {
    fn eq(&self, o: &Touchy) -> bool {
        burn();
        self.0 == o.0
    }
}
impl Eq for Touchy {}
impl std::hash::Hash for Touchy {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        burn();
        h.write_u64(self.0 % 4);
    }
}
/// A measure over such keys, whose density can panic as well.
#[derive(Clone)]
struct Brittle;
impl measures_core::MeasureMarker for Brittle {
    type IsPrimitive = measures_core::True;
    type IsExponentialFamily = measures_core::False;
}
impl measures_core::Measure<Touchy> for Brittle {
    type RootMeasure = Brittle;
    fn in_support(&self, _: Touchy) -> bool {
        true
    }
    fn root_measure(&self) -> Brittle {
        Brittle
    }
}
struct BrittleLog(Brittle);
impl measures_core::LogDensityTrait<Touchy> for BrittleLog {
    type Measure = Brittle;
    type BaseMeasure = Brittle;
    fn measure(&self) -> &Brittle {
        &self.0
    }
    fn base_measure(&self) -> &Brittle {
        &self.0
    }
}
impl EvaluateAt<Touchy, String> for BrittleLog {
    fn at(&self, x: &Touchy) -> String {
        burn();
        format!("value {}", x.0)
    }
}

/// User code that panics in the middle of a cached query; the cache is used and dropped after.
fn unwinding(r: &mut Rng, o: &mut Obs, b: usize) {
    o.announce(&format!("batch {b}: panics inside cached queries"));
    let c = LogDensityCaching::<Touchy>::cached_for::<String>(BrittleLog(Brittle));
    let mut panics = 0;
    for _ in 0..60 {
        FUSE.with(|f| *f.borrow_mut() = if r.chance(0.5) { 1 + r.below(6) as u32 } else { 0 });
        let k = Touchy(r.below(12) as u64);
        match guard(|| c.at(&k)) {
            Ok(s) => nothing(std::hint::black_box(s.len())),
            Err(_) => panics += 1,
        }
    }
    FUSE.with(|f| *f.borrow_mut() = 0);
    drop(c);
    o.observe("panics inside cached queries", "unwinding", fnv(&[b as u64, panics]), panics > 0, || format!("batch {b}: {panics} panics in 60 queries"), Verdict::Held);
}

/// One phase of the workload, by name.
pub fn phase(m: &mut Mon, name: &str) {
    let r0 = m.rng.derive(name);
    let lim = Limits { cpu_s: 100, mem_mb: 0, resource_ok: true, parallel: 8 };
    let with = |b: usize| r0.derive(&format!("{name}{b}"));
    match name {
        "fenced" => {
            let n = m.n(160, 4000);
            batches(m, "process: fenced", lim, n, |b, o| nothing(guard(|| fenced(&mut with(b), o, b))));
        }
        "slices" => {
            let n = m.n(400, 8000);
            batches(m, "process: slices", lim, n.div_ceil(20), |b, o| {
                for k in 0..20.min(n) {
                    nothing(guard(|| slices(&mut with(b * 20 + k), o, b * 20 + k)));
                }
            });
        }
        "lifecycle" => {
            let n = m.n(60, 1500);
            batches(m, "process: lifecycle", lim, n, |b, o| nothing(guard(|| lifecycle(&mut with(b), o, b))));
        }
        "caches" => {
            let n = m.n(120, 3000);
            batches(m, "process: caches", lim, n.div_ceil(4), |b, o| {
                for k in 0..4.min(n) {
                    let mut r = with(b * 4 + k);
                    let (t, s) = (2 + r.below(6), 30 + r.below(60));
                    nothing(guard(|| caches(&mut r, o, b * 4 + k, t, s)));
                }
            });
        }
        "tiny-caches" => batches(m, "process: caches", lim, 1, |b, o| {
            let mut r = with(b);
            let t = 2 + r.below(2);
            nothing(guard(|| caches(&mut r, o, b, t, 5)));
        }),
        "shared" => {
            let n = m.n(40, 1000);
            batches(m, "process: shared", lim, n.div_ceil(4), |b, o| {
                for k in 0..4.min(n) {
                    nothing(guard(|| shared(&mut with(b * 4 + k), o, b * 4 + k)));
                }
            });
        }
        "unwinding" => {
            let n = m.n(40, 1000);
            batches(m, "process: unwinding", lim, n.div_ceil(20), |b, o| {
                for k in 0..20.min(n) {
                    nothing(guard(|| unwinding(&mut with(b * 20 + k), o, b * 20 + k)));
                }
            });
        }
        "none" => {}
        _ => panic!("unknown phase {name}"),
    }
}

/// One run of the workload under a tool.
struct Job {
    tool: &'static str,
    what: String,
    seed: u64,
    scale: f64,
    /// Scheduler seeds (the interpreter only).
    seeds: u64,
}

fn tool_dir() -> std::path::PathBuf {
    std::env::var_os("CARGO_TARGET_DIR").map_or_else(|| crate::mon::verif_dir().join(".target"), Into::into)
}

/// Output (both streams) and exit status of one run; `None` when it could not be run to its end.
fn run_tool(j: &Job, limit: u64) -> (String, Option<std::process::ExitStatus>) {
    use std::process::{Command, Stdio};
    const TARGET: &str = "x86_64-unknown-linux-gnu";
    let base = tool_dir();
    let mut c = if j.tool == "miri" {
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path"])
            .arg(crate::mon::verif_dir().join("harness/Cargo.toml"))
            .args(["--", &j.what])
            .env("CARGO_TARGET_DIR", base.join("miri"))
            .env("XDG_CACHE_HOME", base.join("cache"));
        let mut f = "-Zmiri-disable-isolation".to_string();
        if j.seeds > 0 {
            let from = j.seed * 1000;
            f += &format!(" -Zmiri-many-seeds={from}..{}", from + j.seeds);
        } else {
            f += &format!(" -Zmiri-seed={}", j.seed);
        }
        c.env("MIRIFLAGS", f);
        c
    } else {
        let mut c = Command::new(base.join(j.tool).join(TARGET).join("debug/vh"));
        c.arg(&j.what);
        c
    };
    c.env("RUSTFLAGS", "-Awarnings")
        .env("VERIF_SEED", j.seed.to_string())
        .env("VH_TOOL", j.scale.to_string())
        .env("VH_BUDGET_S", (limit / 3).to_string())
        .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1")
        .env("TSAN_OPTIONS", "halt_on_error=1:exitcode=77:report_signal_unsafe=0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let Ok(mut ch) = c.spawn() else { return ("cannot be started".into(), None) };
    let read = |s: Option<Box<dyn std::io::Read + Send>>| {
        std::thread::spawn(move || {
            let mut b = Vec::new();
            if let Some(mut s) = s {
                let _ = s.read_to_end(&mut b);
            }
            String::from_utf8_lossy(&b).into_owned()
        })
    };
    let out = read(ch.stdout.take().map(|s| Box::new(s) as _));
    let err = read(ch.stderr.take().map(|s| Box::new(s) as _));
    let start = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if start.elapsed().as_secs() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(50)),
        }
        crate::mon::progress();
    };
    (out.join().unwrap_or_default() + &err.join().unwrap_or_default(), st)
}

/// What the tool says about the execution.
fn tool_verdict(out: &str, st: Option<std::process::ExitStatus>) -> Verdict {
    use std::os::unix::process::ExitStatusExt;
    let from = |mark: &str| out.find(mark).map(|i| out[i..].lines().take(14).collect::<Vec<_>>().join(" | ").chars().take(1500).collect::<String>());
    // Instrumented frames are larger: exhausting the stack is for the crash monitor to judge.
    if out.contains("AddressSanitizer: stack-overflow") || out.contains("AddressSanitizer: out-of-memory") || out.contains("resource exhaustion") {
        return Verdict::Inconclusive;
    }
    for mark in ["ERROR: AddressSanitizer", "AddressSanitizer:DEADLYSIGNAL", "WARNING: ThreadSanitizer", "ThreadSanitizer:DEADLYSIGNAL", "error: Undefined Behavior"] {
        if let Some(t) = from(mark) {
            return Verdict::Violated(t);
        }
    }
    for mark in ["unsafe precondition(s) violated", "non-unwinding panic", "double free", "free(): invalid", "corrupted size", "malloc(): "] {
        if let Some(t) = from(mark) {
            return Verdict::Violated(t);
        }
    }
    match st {
        None => Verdict::Inconclusive,
        Some(s) if s.success() && out.contains("TOOL-DONE") => Verdict::Held,
        Some(s) => match s.signal() {
            Some(n) if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&n) => Verdict::Violated(format!("the process died (signal {n})")),
            _ => Verdict::Inconclusive,
        },
    }
}

pub fn c28(m: &mut Mon) {
    m.rule = "cases: randomly generated programs of API calls (compilations, calls on slices fenced by inaccessible pages, drops, cache operations, sharing and moving of every value whose type allows it, panics inside user code), run natively in child processes (crash monitor), under AddressSanitizer, under ThreadSanitizer with an instrumented standard library, and (everything but machine code) in the undefined-behaviour interpreter over many scheduler seeds; the workloads of the other properties run under AddressSanitizer too; distinct: by program, and by the observed interleaving for threaded programs".into();
    m.assumptions.push("exhausting memory or the stack is not counted as a violation; compiled machine code is not instrumented, so its accesses are watched by page protection".into());
    for p in ["fenced", "slices", "lifecycle", "caches", "shared", "unwinding"] {
        phase(m, p);
    }
    let mut jobs = Vec::new();
    let th = m.thorough;
    let s = m.seed;
    let mut add = |tool, what: &str, seed, scale, seeds| jobs.push(Job { tool, what: what.to_string(), seed, scale, seeds });
    // Longest first.
    for k in 0..if th { 6 } else { 1 } {
        let sd = s + 100 * k;
        add("miri", "phase:shared", sd, 0.002, 0);
        for q in 0..if th { 6 } else { 2 } {
            add("miri", "phase:tiny-caches", sd + q, 0.002, if th { 48 } else { 24 });
        }
        add("miri", "phase:slices", sd, 0.01, 0);
        add("miri", "phase:unwinding", sd, 0.1, 0);
        for p in if th { &["C01", "C03", "C07", "C08", "C13", "C14", "C23", "C25", "C26"][..] } else { &["C08", "C13", "C03", "C07"][..] } {
            add("miri", p, sd, if th { 0.002 } else { 0.0005 }, 0);
        }
        for p in ["fenced", "lifecycle", "slices", "caches", "shared", "unwinding"] {
            let p = format!("phase:{p}");
            let heavy = p.ends_with("fenced") || p.ends_with("lifecycle");
            add("tsan", &p, sd, if heavy { if th { 0.5 } else { 0.2 } } else { 1.0 }, 0);
            add("asan", &p, sd, if heavy && !th { 0.5 } else { 1.0 }, 0);
        }
        add("tsan", "C17", sd, if th { 0.3 } else { 0.05 }, 0);
        add("tsan", "C19", sd, if th { 0.05 } else { 0.02 }, 0);
        for p in ["C21", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C22", "C23", "C24", "C25", "C26", "C27", "C29", "C30"] {
            let f = if p == "C21" { 0.2 } else { 1.0 };
            add("asan", p, sd, f * if th { 0.3 } else { 0.03 }, 0);
        }
    }
    let limit = if th { 600 } else { 240 };
    let jobs = std::sync::Mutex::new(jobs.into_iter().rev().collect::<Vec<_>>());
    let done = std::sync::Mutex::new(Vec::new());
    let over = std::time::Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| {
                loop {
                    let Some(j) = jobs.lock().unwrap().pop() else { break };
                    if over.elapsed().as_secs() > if th { 3000 } else { 420 } {
                        break;
                    }
                    let r = run_tool(&j, limit);
                    done.lock().unwrap().push((j, r));
                }
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by(|a, b| (a.0.tool, &a.0.what, a.0.seed).cmp(&(b.0.tool, &b.0.what, b.0.seed)));
    let mut per: HashMap<&'static str, (u64, u64)> = HashMap::new();
    for (j, (out, st)) in done {
        let runs = out.matches("TOOL-DONE").count() as u64;
        let v = tool_verdict(&out, st);
        let mut events = 0;
        for l in out.lines().filter_map(|l| l.strip_prefix("TOOL\t")) {
            let p: Vec<&str> = l.splitn(4, '\t').collect();
            if p.len() == 4 {
                let (h, i) = (p[1].parse().unwrap_or(0), p[2].parse().unwrap_or(0));
                events += h;
                let name = if j.what.starts_with("phase:") { p[0].to_string() } else { format!("workload of {}", j.what) };
                m.merge_counts(&format!("{}: {name}", j.tool), h, i, p[3].split(',').filter_map(|k| u64::from_str_radix(k, 16).ok()));
            }
        }
        let e = per.entry(j.tool).or_default();
        *e = (e.0 + runs, e.1 + events);
        let case = format!("{} under {} (seed {}, {runs} executions, {events} operations)", j.what, j.tool, j.seed);
        if std::env::var_os("VH_ALL").is_some() && !matches!(v, Verdict::Held) {
            println!("  unfinished: {case}: {st:?} {}", out.chars().rev().take(1200).collect::<Vec<_>>().into_iter().rev().collect::<String>());
        }
        m.observe(&format!("clean executions under {}", j.tool), &j.what, fnv(&[hs(&j.what), j.seed]), true, || case.clone(), v);
    }
    for (t, (runs, events)) in per {
        m.extra.push((format!("{t}_executions"), runs.to_string()));
        m.extra.push((format!("{t}_operations"), events.to_string()));
    }
    m.require("compiled call on fenced slices", 1000);
    m.require("slice operation", 3000);
    m.require("compile, call and drop on threads", 30);
    m.require("shared caches on threads", 60);
    m.require("shared by threads", 100);
    m.require("clean executions under asan", 20);
    m.require("clean executions under tsan", 4);
    m.require("clean executions under miri", 4);
}
