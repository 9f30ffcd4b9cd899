//! Crash monitor: batches of cases run in a forked child under CPU and memory limits.
//! The child announces each case in a shared page before it enters monitored code and
//! streams its observations back; a child that dies by a signal is an observation too.

use std::collections::VecDeque;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, Ordering};

use crate::mon::{Mon, Verdict, progress};

const PAGE: usize = 1 << 16;

/// What the child sees: an announcement slot and a stream of observations.
pub struct Obs {
    out: Box<dyn Write>,
    page: *mut u8,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

impl Obs {
    /// Say what is about to run; survives the death of this process.
    pub fn announce(&mut self, case: &str) {
        let b = case.as_bytes();
        let n = b.len().min(PAGE - 8);
        unsafe {
            let len = &*(self.page as *const AtomicU32);
            len.store(0, Ordering::SeqCst);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.page.add(8), n);
            len.store(n as u32, Ordering::SeqCst);
        }
    }
    pub fn observe(&mut self, kind: &str, sig: &str, key: u64, nontrivial: bool, case: impl Fn() -> String, v: Verdict) {
        let (t, detail) = match v {
            Verdict::Held => ('h', String::new()),
            Verdict::Inconclusive => ('i', String::new()),
            Verdict::Violated(d) => ('v', d),
        };
        let c = if t == 'i' { String::new() } else { case() };
        let _ = writeln!(self.out, "{}\t{}\t{key}\t{}\t{t}\t{}\t{}", esc(kind), esc(sig), u8::from(nontrivial), esc(&c), esc(&detail));
    }
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub cpu_s: u64,
    pub mem_mb: u64,
    /// Death by a resource limit is undecided (true) or a violation (false).
    pub resource_ok: bool,
    /// Children running at a time.
    pub parallel: usize,
}

struct Child {
    pid: i32,
    page: *mut u8,
    out: File,
    err: File,
}

fn memfd() -> i32 {
    let fd = unsafe { libc::memfd_create(c"vh".as_ptr(), 0) };
    assert!(fd >= 0, "memfd");
    fd
}
/// The end of what a dead child wrote to its standard error.
fn tail(mut err: File) -> String {
    let mut b = Vec::new();
    let n = err.seek(SeekFrom::End(0)).unwrap_or(0);
    let _ = err.seek(SeekFrom::Start(n.saturating_sub(1 << 20)));
    let _ = std::io::Read::read_to_end(&mut err, &mut b);
    String::from_utf8_lossy(&b).into_owned()
}
/// Why a process aborted, by its last words.
pub enum Abort {
    Memory,
    Stack,
    Other(String),
}
pub fn abort_reason(err: &str) -> Abort {
    if err.contains("memory allocation of") || err.contains("capacity overflow") {
        Abort::Memory
    } else if err.contains("has overflowed its stack") {
        Abort::Stack
    } else {
        let l: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("DEBUG")).collect();
        Abort::Other(l[l.len().saturating_sub(4)..].join(" | ").chars().take(600).collect())
    }
}
pub fn signal_name(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGILL => "SIGILL",
        libc::SIGBUS => "SIGBUS",
        libc::SIGFPE => "SIGFPE",
        libc::SIGABRT => "SIGABRT",
        libc::SIGTRAP => "SIGTRAP",
        libc::SIGXCPU => "CPU limit",
        libc::SIGALRM => "time limit",
        _ => "signal",
    }
}

/// Run the whole check in a child, so that its death is an observation as well.
/// Returns in the child; the parent ends with the child's status or reports its death.
pub fn supervise(report: impl FnOnce(i32, Result<(), String>, u64, &str) -> i32) {
    use libc as c;
    unsafe {
        let page = c::mmap(std::ptr::null_mut(), PAGE, c::PROT_READ | c::PROT_WRITE, c::MAP_SHARED | c::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(page as isize != -1, "mmap");
        let err = memfd();
        let pid = c::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            c::prctl(c::PR_SET_PDEATHSIG, c::SIGKILL);
            c::dup2(err, 2);
            crate::mon::shared_progress(page);
            return;
        }
        let mut st = 0;
        while c::waitpid(pid, &mut st, 0) < 0 {}
        let t = tail(File::from_raw_fd(err));
        eprint!("{t}");
        if !c::WIFSIGNALED(st) {
            c::_exit(c::WEXITSTATUS(st));
        }
        let s = c::WTERMSIG(st);
        let v = match s {
            c::SIGABRT => match abort_reason(&t) {
                Abort::Memory => Ok(()),
                Abort::Stack => Err("the process overflowed its stack".into()),
                Abort::Other(w) => Err(format!("the process aborted: {w}")),
            },
            c::SIGSEGV | c::SIGBUS | c::SIGILL | c::SIGFPE | c::SIGTRAP => Err(format!("the process died ({})", signal_name(s))),
            _ => Ok(()),
        };
        let n = (&*(page as *const std::sync::atomic::AtomicU64)).load(Ordering::SeqCst);
        let len = (*page.add(8)) as usize;
        let kind = String::from_utf8_lossy(std::slice::from_raw_parts(page.add(16), len)).into_owned();
        std::process::exit(report(s, v, n, &kind));
    }
}

#[inline(never)]
fn touch_stack() -> u8 {
    let mut a = std::mem::MaybeUninit::<[u8; 6 << 20]>::uninit();
    let p = a.as_mut_ptr().cast::<u8>();
    for i in (0..6 << 20).step_by(4096) {
        unsafe { p.add(i).write_volatile(1) };
    }
    unsafe { p.read_volatile() }
}

fn spawn(lim: Limits, work: impl FnOnce(&mut Obs)) -> Child {
    use libc as c;
    unsafe {
        let page = c::mmap(std::ptr::null_mut(), PAGE, c::PROT_READ | c::PROT_WRITE, c::MAP_SHARED | c::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(page as isize != -1, "mmap");
        let (fd, err) = (memfd(), memfd());
        let pid = c::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let nul = c::open(c"/dev/null".as_ptr(), c::O_WRONLY);
            c::dup2(nul, 1);
            c::dup2(err, 2);
            let set = |what, v: u64| {
                let l = c::rlimit { rlim_cur: v, rlim_max: v };
                c::setrlimit(what, &l);
            };
            set(c::RLIMIT_CORE, 0);
            set(c::RLIMIT_CPU, lim.cpu_s);
            if lim.mem_mb > 0 {
                // the stack must not need to grow once the address space is used up
                std::hint::black_box(touch_stack());
                set(c::RLIMIT_AS, lim.mem_mb << 20);
            }
            c::alarm((lim.cpu_s * 8 + 20) as u32);
            let mut o = Obs { out: Box::new(BufWriter::with_capacity(1 << 16, File::from_raw_fd(fd))), page };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(&mut o)));
            let _ = o.out.flush();
            c::_exit(if r.is_ok() { 0 } else { 99 });
        }
        Child { pid, page, out: File::from_raw_fd(fd), err: File::from_raw_fd(err) }
    }
}

fn absorb(m: &mut Mon, from: impl BufRead, resource_ok: bool) {
    for line in from.lines().map_while(Result::ok) {
        let p: Vec<&str> = line.splitn(7, '\t').collect();
        if p.len() < 7 {
            continue; // cut off by the death of the child
        }
        let v = match p[4] {
            "h" => Verdict::Held,
            "i" => Verdict::Inconclusive,
            _ if resource_ok && p[6].contains("Cannot allocate memory") => Verdict::Inconclusive,
            _ => Verdict::Violated(unesc(p[6])),
        };
        let case = p[5];
        m.observe(&unesc(p[0]), &unesc(p[1]), p[2].parse().unwrap_or(0), p[3] == "1", || unesc(case), v);
    }
}

/// The same work inside this process, for tools that follow one process only.
fn inline(m: &mut Mon, kind: &str, work: impl FnOnce(&mut Obs)) {
    let mut page = vec![0u64; PAGE / 8];
    let (out, log) = Shared::pair();
    let mut o = Obs { out: Box::new(out), page: page.as_mut_ptr().cast() };
    work(&mut o);
    let bytes = std::mem::take(&mut *log.borrow_mut());
    absorb(m, &bytes[..], false);
    m.observe(kind, "survived", bytes.len() as u64, true, || "in process".into(), Verdict::Held);
}
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Shared {
    fn pair() -> (Shared, std::rc::Rc<std::cell::RefCell<Vec<u8>>>) {
        let v = std::rc::Rc::default();
        (Shared(std::rc::Rc::clone(&v)), v)
    }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn collect(m: &mut Mon, kind: &str, lim: Limits, ch: Child) {
    use libc as c;
    let Child { pid, page, mut out, err } = ch;
    let mut st = 0;
    unsafe {
        c::waitpid(pid, &mut st, 0);
    }
    let _ = out.seek(SeekFrom::Start(0));
    absorb(m, BufReader::with_capacity(1 << 16, out), lim.resource_ok);
    let last = unsafe {
        let n = (&*(page as *const AtomicU32)).load(Ordering::SeqCst) as usize;
        let t = String::from_utf8_lossy(std::slice::from_raw_parts(page.add(8), n)).into_owned();
        c::munmap(page.cast(), PAGE);
        t
    };
    progress();
    let key = crate::rng::hs(&last);
    if c::WIFSIGNALED(st) {
        let s = c::WTERMSIG(st);
        let name = signal_name(s);
        let dead = || Verdict::Violated(format!("the process died ({name}, signal {s})"));
        let v = match s {
            // SIGKILL comes from outside (memory pressure): never the code's doing.
            c::SIGKILL => Verdict::Inconclusive,
            c::SIGXCPU | c::SIGALRM if lim.resource_ok => Verdict::Inconclusive,
            c::SIGABRT => match abort_reason(&tail(err)) {
                Abort::Other(w) => Verdict::Violated(format!("the process aborted: {w}")),
                _ if lim.resource_ok => Verdict::Inconclusive,
                _ => dead(),
            },
            _ => dead(),
        };
        m.observe(kind, name, key, true, || last.clone(), v);
    } else if c::WEXITSTATUS(st) == 99 {
        m.observe(kind, "panic", key, true, || last.clone(), Verdict::Violated("panicked outside a guarded call".into()));
    } else {
        m.observe(kind, "survived", key, true, || format!("batch ending with: {last}"), Verdict::Held);
    }
}

/// Run `n` batches in children, several at a time; results are taken in batch order.
/// `kind` names the observation made when a child dies.
pub fn batches(m: &mut Mon, kind: &str, lim: Limits, n: usize, work: impl Fn(usize, &mut Obs)) {
    let mut q = VecDeque::new();
    for i in 0..n {
        if m.spent() {
            break;
        }
        if m.tool.is_some() {
            inline(m, kind, |o| work(i, o));
            continue;
        }
        if q.len() >= lim.parallel {
            let ch = q.pop_front().unwrap();
            collect(m, kind, lim, ch);
        }
        q.push_back(spawn(lim, |o| work(i, o)));
    }
    while let Some(ch) = q.pop_front() {
        collect(m, kind, lim, ch);
    }
}
