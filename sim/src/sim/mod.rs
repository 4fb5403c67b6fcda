//! Core of the simulator: choice tape, trace, faults, virtual clock, violation reporting.
//!
//! Exactly one thread of a simulated run executes at a time (it owns the baton, see `sched`), so the
//! state below is a plain `static mut` reached through `sim()`.
pub mod cpu;
pub mod sched;
pub mod step;
pub mod sys;
pub mod vfs;

use std::cell::Cell;
use std::collections::BTreeMap;

pub use vfs::Vfs;

/// SplitMix64: seed derivation and the run's generator.
#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn derive_seed(base: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(base ^ 0xA37E_0001);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(run.wrapping_add(0x1234_5678)))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Fault {
    Eintr,
    EioRead,
    ShortRead,
    OpenEnoent,
    OpenEacces,
    OpenEmfile,
    OpenEio,
    StatErr,
    SeekErr,
    ShortWrite,
    Enospc,
    EioWrite,
    SpawnFail,
    SpuriousWake,
    ReaddirErr,
}
pub const NFAULT: usize = 15;
impl Fault {
    pub fn name(self) -> &'static str {
        use Fault::*;
        match self {
            Eintr => "eintr",
            EioRead => "eio_read",
            ShortRead => "short_read",
            OpenEnoent => "open_enoent",
            OpenEacces => "open_eacces",
            OpenEmfile => "open_emfile",
            OpenEio => "open_eio",
            StatErr => "stat_error",
            SeekErr => "seek_error",
            ShortWrite => "short_write",
            Enospc => "enospc",
            EioWrite => "eio_write",
            SpawnFail => "thread_spawn_failure",
            SpuriousWake => "spurious_wakeup",
            ReaddirErr => "readdir_error",
        }
    }
}

/// What the environment actor is told about the system call it is about to precede.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Stat,
    Read,
    Write,
    Seek,
    Close,
    Opendir,
    Readdir,
    Sleep,
    Clock,
    Other,
}

pub struct Sim {
    // choice tape
    pub gen: Option<Rng>,
    pub tape: Vec<u64>,
    pub pos: usize,
    // trace
    pub hash: u64,
    pub events: u64,
    pub verbose: bool,
    pub trace: Vec<String>,
    // faults: (numerator, denominator), remaining budget
    pub fault_p: [(u32, u32); NFAULT],
    pub fault_budget: u32,
    /// hard faults meet only this thread
    pub fault_thread: Option<usize>,
    pub fault_fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    // clock
    pub mono: u64,
    pub real: i128,
    pub clock_tick: u64,
    pub started_mono: u64,
    // ops
    pub ops: u64,
    pub op_limit: u64,
    pub sample: Vec<String>,
    pub entropy: Rng,
    pub ncpu: usize,
    pub affinity_fails: bool,
    pub stdout_bytes: u64,
    // environment
    pub vfs: Vfs,
    pub actor: Option<Box<dyn FnMut(&mut Vfs, Op)>>,
    pub in_actor: bool,
    pub result_fd: i32,
    pub escapes: u64,
    /// times of the accesses to one path
    /// accesses by path to these files: (time, which file)
    pub watch: Option<(Vec<String>, Vec<(u64, usize)>)>,
    /// hard faults met by each simulated thread
    pub hard_by_thread: BTreeMap<usize, u64>,
    /// paths opened by the code under test since last cleared
    pub opened: std::collections::BTreeSet<String>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn installed() -> bool {
    unsafe { !SIM.is_null() }
}

thread_local! {
    static SUT: Cell<u32> = const { Cell::new(0) };
    static CORE: Cell<u32> = const { Cell::new(0) };
}
/// True when the calling thread runs code under test and is not already inside the simulator.
#[inline]
pub fn active() -> bool {
    SUT.with(|s| s.get() > 0) && CORE.with(|c| c.get() == 0)
}
pub fn set_sut(n: u32) {
    SUT.with(|s| s.set(n));
}
pub fn get_sut() -> u32 {
    SUT.with(|s| s.get())
}
pub fn in_core() -> bool {
    CORE.with(|c| c.get() > 0)
}
/// Runs `f` as simulator code.
pub fn core<R>(f: impl FnOnce() -> R) -> R {
    CORE.with(|c| c.set(c.get() + 1));
    let r = f();
    CORE.with(|c| c.set(c.get() - 1));
    step::resume_after_core();
    r
}

thread_local! {
    static LAST_PANIC: Cell<Option<Box<String>>> = const { Cell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {loc}");
        if installed() {
            if get_sut() == 0 || in_core() {
                // A panic in harness code is a harness error, never a verdict.
                harness_error(&text);
            }
            core(|| ev(|| format!("panic: {msg}")));
        } else {
            eprintln!("harness panic: {text}");
        }
        LAST_PANIC.with(|p| p.set(Some(Box::new(text))));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.take()).map(|b| *b).unwrap_or_default()
}

/// Runs code under test; `Err` carries the panic message.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = get_sut();
    set_sut(old + 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_sut(old);
    r.map_err(|_| last_panic())
}
/// Runs harness code from inside a callback invoked by code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let old = get_sut();
    set_sut(0);
    let r = f();
    set_sut(old);
    r
}

// ------------------------------------------------------------------ choices
/// The single source of every decision: a value in `0..n`, 0 being the simplest alternative.
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let s = sim();
    let v = match &mut s.gen {
        Some(r) => {
            let v = r.next() % n;
            s.tape.push(v);
            v
        }
        None => {
            let v = s.tape.get(s.pos).copied().unwrap_or(0) % n;
            v
        }
    };
    s.pos += 1;
    v
}
/// True with probability num/den; the zero choice is `false`.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    if num >= den {
        return true;
    }
    choose(den) >= den - num
}
pub fn range(lo: u64, hi_incl: u64) -> u64 {
    lo + choose(hi_incl - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len() as u64) as usize]
}
/// Roughly log-uniform in `0..=max`, 0 the simplest.
pub fn log_choice(max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    let bits = 64 - max.leading_zeros() as u64;
    let b = choose(bits + 1);
    if b == 0 {
        return 0;
    }
    let lo = 1u64 << (b - 1);
    let hi = (lo.wrapping_shl(1)).wrapping_sub(1).min(max);
    lo + choose(hi - lo + 1)
}

// ------------------------------------------------------------------ trace
pub fn ev(f: impl FnOnce() -> String) {
    let s = sim();
    let t = f();
    let mut h = s.hash;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    s.hash = mix(h ^ 0x55);
    s.events += 1;
    if s.verbose && s.trace.len() < 20_000 {
        let th = sched::current();
        s.trace.push(format!("[{:>12}ns t{}] {}", s.mono - s.started_mono, th, t));
    }
}
pub fn probe(name: &str) {
    *sim().probes.entry(name.to_string()).or_insert(0) += 1;
}
pub fn nontrivial() {
    sim().nontrivial = true;
}
/// A human-readable line describing this run's case (shown as a sample in the evidence).
pub fn describe(line: String) {
    ev(|| format!("case: {line}"));
    let s = sim();
    if s.sample.len() < 12 {
        s.sample.push(line);
    }
}
pub fn fired(name: &str) {
    *sim().fault_fired.entry(name.to_string()).or_insert(0) += 1;
    sim().nontrivial = true;
}

// ------------------------------------------------------------------ faults
pub fn enable(f: Fault, num: u32, den: u32) {
    sim().fault_p[f as usize] = (num, den);
}
pub fn faults_off() {
    sim().fault_p = [(0, 1); NFAULT];
    sim().vfs.free = None;
}
pub fn set_fault_budget(n: u32) {
    sim().fault_budget = n;
}
pub fn count_hard() {
    *sim().hard_by_thread.entry(sched::current()).or_insert(0) += 1;
}
/// Hard faults met so far by the calling simulated thread.
pub fn my_hard_faults() -> u64 {
    sim().hard_by_thread.get(&sched::current()).copied().unwrap_or(0)
}
/// Decides whether the fault fires here. Transparent faults (EINTR, short I/O) do not use up the budget.
pub fn fault(f: Fault) -> bool {
    let s = sim();
    let (n, d) = s.fault_p[f as usize];
    if n == 0 {
        return false;
    }
    let hard = !matches!(f, Fault::Eintr | Fault::ShortRead | Fault::ShortWrite | Fault::SpuriousWake);
    if hard && (s.fault_budget == 0 || s.fault_thread.map_or(false, |t| t != sched::current())) {
        return false;
    }
    if chance(n as u64, d as u64) {
        if hard {
            s.fault_budget -= 1;
            count_hard();
        }
        fired(f.name());
        ev(|| format!("fault {}", f.name()));
        true
    } else {
        false
    }
}

// ------------------------------------------------------------------ verdicts
fn report(kind: &str, class: &str, msg: &str) -> ! {
    let s = sim();
    let v = serde_json::json!({
        "kind": kind,
        "class": class,
        "msg": msg,
        "hash": format!("{:016x}", s.hash),
        "events": s.events,
        "choices": s.pos,
        "ops": s.ops,
        "sim_ns": s.mono - s.started_mono,
        "faults": s.fault_fired,
        "probes": s.probes,
        "nontrivial": s.nontrivial,
        "sample": s.sample,
        "switches": sched::switches(),
        "tape": if kind != "ok" && s.gen.is_some() { Some(&s.tape) } else { None },
        "trace": if s.verbose { Some(&s.trace) } else { None },
    });
    let out = v.to_string();
    let b = out.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { sys::raw(libc::SYS_write, s.result_fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { sys::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0) };
    unreachable!()
}
/// The property is broken: ends the run.
pub fn violation(class: &str, msg: &str) -> ! {
    CORE.with(|c| c.set(c.get() + 1));
    ev(|| format!("VIOLATION {class}: {msg}"));
    report("violation", class, msg)
}
pub fn harness_error(msg: &str) -> ! {
    CORE.with(|c| c.set(c.get() + 1));
    report("harness_error", "harness", msg)
}
pub fn finish_ok() -> ! {
    CORE.with(|c| c.set(c.get() + 1));
    report("ok", "", "")
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { $crate::sim::violation($class, &format!($($a)*)); }
    };
}

pub fn install(gen: Option<u64>, tape: Vec<u64>, verbose: bool, result_fd: i32) {
    let s = Box::new(Sim {
        gen: gen.map(Rng),
        tape,
        pos: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        events: 0,
        verbose,
        trace: Vec::new(),
        fault_p: [(0, 1); NFAULT],
        fault_budget: u32::MAX,
        fault_thread: None,
        fault_fired: BTreeMap::new(),
        probes: BTreeMap::new(),
        nontrivial: false,
        mono: 1_000_000_000_000,
        real: 1_760_000_000_000_000_000,
        clock_tick: 700,
        started_mono: 1_000_000_000_000,
        ops: 0,
        op_limit: 2_000_000,
        sample: Vec::new(),
        entropy: Rng(0x5eed),
        ncpu: 4,
        affinity_fails: false,
        stdout_bytes: 0,
        vfs: Vfs::new(),
        actor: None,
        in_actor: false,
        result_fd,
        escapes: 0,
        watch: None,
        hard_by_thread: BTreeMap::new(),
        opened: Default::default(),
    });
    unsafe { SIM = Box::into_raw(s) };
    sched::init();
    let e = choose(1 << 32);
    sim().entropy = Rng(e);
}

// ------------------------------------------------------------------ clock
pub fn advance(ns: u64) {
    let s = sim();
    s.mono += ns;
    s.real += ns as i128;
}
pub fn step_real(delta_ns: i128) {
    sim().real += delta_ns;
    fired("clock_step");
    ev(|| format!("wall clock stepped by {delta_ns} ns"));
}

/// Called in core before every simulated system call: scheduling point, then the environment acts.
pub fn before(op: Op) {
    let s = sim();
    s.ops += 1;
    // every system call takes a little time
    advance(1_000);
    let s = sim();
    if s.ops > s.op_limit {
        violation("no-progress", "the code under test issued an unbounded number of system calls");
    }
    sched::yield_point();
    let s = sim();
    if !s.in_actor {
        if let Some(mut a) = s.actor.take() {
            s.in_actor = true;
            a(&mut sim().vfs, op);
            let s = sim();
            s.in_actor = false;
            if s.actor.is_none() {
                s.actor = Some(a);
            }
        }
    }
}
