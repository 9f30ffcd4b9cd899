//! The monitor: receives observations, keeps three-valued verdicts, counts what was
//! actually observed, writes evidence and replay files, and decides the exit status.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::time::{Duration, Instant};

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Verdict {
    /// The oracle compared something and it agreed.
    Held,
    /// The oracle refuted the property; the text is the witness.
    Violated(String),
    /// The oracle cannot decide this case (ill-conditioned, out of its range).
    Inconclusive,
}

#[derive(Default)]
pub struct Kind {
    pub held: u64,
    pub violated: u64,
    pub inconclusive: u64,
    pub nontrivial: HashSet<u64>,
    pub sampled: u32,
}

struct Viol {
    kind: String,
    sig: String,
    case: String,
    detail: String,
}

struct Known {
    sig: String,
    what: String,
    hits: u64,
}

pub struct Mon {
    pub pid: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
    kinds: BTreeMap<String, Kind>,
    minimum: Vec<(String, u64)>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    viol_total: u64,
    known: Vec<Known>,
    start: Instant,
    budget: Duration,
    verif: PathBuf,
    /// Crash monitor: where the case about to run is announced (see isolate.rs).
    pub quiet: bool,
    /// Set when this process runs under a sanitizer or interpreter: the tool is the oracle,
    /// the workload is scaled by this factor, and verdicts are not reported.
    pub tool: Option<f64>,
    boost: f64,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Observations made so far, for the stall detector.
static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static LAST_KIND: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Tell the stall detector that something was observed.
pub fn progress() {
    let n = PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if let Some(p) = SHARED.get() {
        unsafe { &*(p.0 as *const std::sync::atomic::AtomicU64) }.store(n + 1, std::sync::atomic::Ordering::Relaxed);
    }
}
/// The page on which a supervised run leaves its progress for the supervisor.
struct SharedPage(*mut u8);
unsafe impl Send for SharedPage {}
unsafe impl Sync for SharedPage {}
static SHARED: std::sync::OnceLock<SharedPage> = std::sync::OnceLock::new();
pub fn shared_progress(page: *mut u8) {
    let _ = SHARED.set(SharedPage(page));
}
fn shared_kind(kind: &str) {
    if let Some(p) = SHARED.get() {
        let n = kind.len().min(255);
        unsafe {
            std::ptr::copy_nonoverlapping(kind.as_ptr(), p.0.add(16), n);
            *p.0.add(8) = n as u8;
        }
    }
}
/// Verdict, evidence and replay file for a run that ended without giving its own.
fn stopped(pid: &str, file: &str, what: &str, now: u64, kind: &str) {
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" };
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{pid}-{file}.txt"));
    let _ = std::fs::write(&p, format!("property: {pid}\n{what} after observation {now} (last new kind: {kind})\nreplay: VERIF_SEED={seed} VERIF_TIER={tier} bash /verif/check.sh {pid}\n"));
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{pid}.json")), format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": 1, \"violations\": 1}}\n",
        jstr(pid), jstr(tier), now.max(1), now.max(1), jstr(&format!("stopped: {what}")), jstr(kind)));
    println!("  witness: after observation {now} (last new kind: {kind}): {what}");
    println!("VIOLATION property={pid} replay={}", p.display());
}
/// What the supervisor says about a check that died: the status to exit with.
pub fn died(pid: &str, signal: i32, v: Result<(), String>, now: u64, kind: &str) -> i32 {
    match v {
        Err(what) => {
            stopped(pid, "crash", &what, now, kind);
            1
        }
        Ok(()) => {
            println!("INCONCLUSIVE: the check was ended by signal {signal} after observation {now}");
            3
        }
    }
}

/// A call into monitored code that has not returned for a very long time (minutes, where
/// every case takes microseconds to milliseconds) is reported as one that does not return.
fn start_stall_detector(pid: String) {
    let limit = std::env::var("VH_STALL_S").ok().and_then(|s| s.parse().ok()).unwrap_or(200u64);
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(limit) {
                let kind = LAST_KIND.lock().map(|k| k.clone()).unwrap_or_default();
                stopped(&pid, "stall", &format!("a call did not return within {limit} s"), now, &kind);
                std::process::exit(1);
            }
        }
    });
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("[panic] {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run monitored code; a panic becomes an observation instead of ending the run.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Mon {
    pub fn new(pid: &str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .unwrap_or(1) as u64;
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let verif = verif_dir();
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            // open: property=<id> sig=<signature> <what fails>
            for l in t.lines() {
                let Some(rest) = l.strip_prefix("open: property=") else { continue };
                let Some((id, rest)) = rest.split_once(" sig=") else { continue };
                if id != pid {
                    continue;
                }
                let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
                known.push(Known { sig: sig.to_string(), what: what.to_string(), hits: 0 });
            }
        }
        let tool: Option<f64> = std::env::var("VH_TOOL").ok().and_then(|s| s.parse().ok());
        if tool.is_none() {
            start_stall_detector(pid.to_string());
        }
        let rng = Rng::new(seed ^ crate::rng::hs(pid));
        let budget = std::env::var("VH_BUDGET_S").ok().and_then(|s| s.parse().ok()).map_or(
            Duration::from_secs(if thorough { 1500 } else { 240 }),
            Duration::from_secs,
        );
        Mon {
            pid: pid.to_string(),
            seed,
            thorough,
            rng,
            rule: String::new(),
            assumptions: Vec::new(),
            extra: Vec::new(),
            kinds: BTreeMap::new(),
            minimum: Vec::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            viol_total: 0,
            known,
            start: Instant::now(),
            budget,
            verif,
            quiet: false,
            tool,
            // Brings every quick check to some ten seconds of workload.
            boost: match pid {
                "C16" | "C28" => 1.0,
                "C15" => 2.0,
                "C21" | "C14" => 4.0,
                "C18" | "C19" | "C20" | "C22" | "C27" => 5.0,
                _ => 10.0,
            },
        }
    }

    /// Workload size for this tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        match self.tool {
            Some(f) => ((quick as f64 * f) as usize).max(1),
            None if self.thorough => thorough * 3,
            None => ((quick as f64 * self.boost) as usize).min(thorough * 3),
        }
    }

    /// The generous wall-clock watchdog: true when the workload should stop early.
    /// It never decides a verdict.
    pub fn spent(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// An observation kind must be decided at least `n` times or the run is not a pass.
    pub fn require(&mut self, kind: &str, n: u64) {
        self.minimum.push((kind.to_string(), n));
    }

    pub fn observe(&mut self, kind: &str, sig: &str, key: u64, nontrivial: bool, case: impl Fn() -> String, v: Verdict) {
        progress();
        if !self.kinds.contains_key(kind) {
            if let Ok(mut k) = LAST_KIND.lock() {
                k.clear();
                k.push_str(kind);
            }
            shared_kind(kind);
            self.kinds.insert(kind.to_string(), Kind::default());
        }
        let k = self.kinds.get_mut(kind).unwrap();
        match v {
            Verdict::Held => {
                k.held += 1;
                if nontrivial {
                    k.nontrivial.insert(key);
                }
                if k.sampled < 2 && nontrivial && self.samples.len() < 60 {
                    k.sampled += 1;
                    self.samples.push(format!("{kind}: {}", case()));
                }
            }
            Verdict::Inconclusive => k.inconclusive += 1,
            Verdict::Violated(detail) => {
                if let Some(kn) = self.known.iter_mut().find(|kn| kn.sig == sig) {
                    kn.hits += 1;
                    k.held += 1;
                    return;
                }
                k.violated += 1;
                self.viol_total += 1;
                let cap = if std::env::var_os("VH_ALL").is_some() { 400 } else { 12 };
                if self.viols.len() < cap
                    && self.viols.iter().filter(|w| w.kind == kind && w.sig == sig).count() < 2
                {
                    let c = case();
                    self.viols.push(Viol { kind: kind.to_string(), sig: sig.to_string(), case: c, detail });
                }
            }
        }
    }

    pub fn violations(&self) -> u64 {
        self.viol_total
    }

    /// Merge counts produced by an isolated worker process.
    pub fn merge_counts(&mut self, kind: &str, held: u64, inconclusive: u64, keys: impl Iterator<Item = u64>) {
        let k = self.kinds.entry(kind.to_string()).or_default();
        k.held += held;
        k.inconclusive += inconclusive;
        k.nontrivial.extend(keys);
    }

    pub fn add_sample(&mut self, s: String) {
        if self.samples.len() < 60 {
            self.samples.push(s);
        }
    }

    /// Write evidence and replay files, print the verdict, return the exit status.
    pub fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let evals: u64 = self.kinds.values().map(|k| k.held + k.violated + k.inconclusive).sum();
        let distinct: u64 = self.kinds.values().map(|k| k.nontrivial.len() as u64).sum();
        if self.tool.is_some() {
            // One line per kind for the process that started the tool.
            for (n, k) in &self.kinds {
                let keys: Vec<String> = k.nontrivial.iter().take(4000).map(|k| format!("{k:x}")).collect();
                println!("TOOL\t{n}\t{}\t{}\t{}", k.held + k.violated, k.inconclusive, keys.join(","));
            }
            println!("TOOL-DONE {evals} {distinct}");
            return 0;
        }
        let ev = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&ev);

        let mut kinds = String::new();
        for (i, (n, k)) in self.kinds.iter().enumerate() {
            let _ = write!(
                kinds,
                "{}{}: {{\"held\": {}, \"violated\": {}, \"inconclusive\": {}, \"distinct_nontrivial\": {}}}",
                if i > 0 { ", " } else { "" },
                jstr(n),
                k.held,
                k.violated,
                k.inconclusive,
                k.nontrivial.len()
            );
        }
        // Spread the samples over the kinds, at most 24.
        let step = self.samples.len().div_ceil(24).max(1);
        let samples: Vec<String> = self.samples.iter().step_by(step).map(|s| jstr(s)).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| jstr(s)).collect();
        let mut extra = String::new();
        for (k, v) in &self.extra {
            let _ = write!(extra, ", {}: {}", jstr(k), v);
        }
        let known_hits: u64 = self.known.iter().map(|k| k.hits).sum();
        let json = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"observations_by_kind\": {{{}}}{}, \"known_finding_hits\": {},\n  \"samples\": [{}]}},\n \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
            jstr(&self.pid),
            jstr(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            evals,
            distinct,
            jstr(&self.rule),
            kinds,
            extra,
            known_hits,
            samples.join(",\n   "),
            assumptions.join(", "),
            wall,
            self.viol_total
        );
        let evp = ev.join(format!("{}.json", self.pid));
        if let Err(e) = std::fs::write(&evp, json) {
            eprintln!("cannot write {}: {e}", evp.display());
            return 2;
        }

        for (n, k) in &self.kinds {
            println!(
                "  {n}: held {} violated {} inconclusive {} distinct {}",
                k.held,
                k.violated,
                k.inconclusive,
                k.nontrivial.len()
            );
        }
        println!("{}: {evals} observations, {distinct} distinct non-trivial, {wall:.1}s", self.pid);

        if self.viol_total > 0 {
            let dir = ev.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in self.viols.iter().enumerate() {
                let p = dir.join(format!("{}-{i}.txt", self.pid));
                let _ = std::fs::write(
                    &p,
                    format!(
                        "property: {}\nkind: {}\nsignature: {}\ncase: {}\nobserved: {}\nreplay: VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {}\n",
                        self.pid,
                        v.kind,
                        v.sig,
                        v.case,
                        v.detail,
                        self.seed,
                        if self.thorough { "thorough" } else { "quick" },
                        self.pid
                    ),
                );
                println!("  witness [{}] sig={} {} => {}", v.kind, v.sig, v.case, v.detail);
            }
            for i in 0..self.viols.len().min(3) {
                println!("VIOLATION property={} replay={}", self.pid, dir.join(format!("{}-{i}.txt", self.pid)).display());
            }
            return 1;
        }

        for k in &self.known {
            if k.hits > 0 {
                println!("KNOWN-FINDING: property={} {} ({})", self.pid, k.what, k.sig);
            }
        }

        // A run that observed too little is not a pass (and not a violation either).
        let mut short = Vec::new();
        let mins = std::mem::take(&mut self.minimum);
        for (kind, n) in mins {
            let got = self.kinds.get(&kind).map_or(0, |k| k.held);
            if got < n {
                short.push(format!("{kind}: {got} < {n}"));
            }
        }
        if evals == 0 || !short.is_empty() {
            println!("INCONCLUSIVE: too few decided observations: {}", short.join("; "));
            return 3;
        }
        0
    }
}
