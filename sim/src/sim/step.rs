//! Instruction-granular preemption: x86 single-stepping of the code under test.
//! Only instructions inside this executable's own text are counted, so counts do not depend on libc.
use super::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Action {
    None,
    /// call `ISR` (an interrupt handler) in place
    Interrupt,
    /// scheduling point
    Preempt,
}
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}
static mut ACTION: Action = Action::None;
static mut ISR: Option<fn()> = None;
pub static STEPPED: AtomicU64 = AtomicU64::new(0);
/// Instructions the simulated processor lacks (`cpu::needs`).
pub static FORBIDDEN: AtomicU64 = AtomicU64::new(0);
pub static HITS: AtomicU64 = AtomicU64::new(0);
static PREEMPT_MODE: AtomicBool = AtomicBool::new(false);
static PREEMPT_MEAN: AtomicU64 = AtomicU64::new(300);

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

unsafe extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let u = &mut *(c as *mut libc::ucontext_t);
    let efl = libc::REG_EFL as usize;
    if !ON.with(|o| o.get()) {
        u.uc_mcontext.gregs[efl] &= !0x100;
        return;
    }
    if in_core() {
        // simulator code: run it at full speed, resume stepping when it returns
        u.uc_mcontext.gregs[efl] &= !0x100;
        PAUSED.with(|p| p.set(true));
        return;
    }
    STEPPED.fetch_add(1, Ordering::Relaxed);
    let rip = u.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    if rip < LO.load(Ordering::Relaxed) || rip >= HI.load(Ordering::Relaxed) || get_sut() == 0 {
        return;
    }
    let forbidden = FORBIDDEN.load(Ordering::Relaxed) as u32;
    if forbidden != 0 {
        if let Some(what) = cpu::needs(rip as *const u8, forbidden) {
            CORE.with(|c| c.set(c.get() + 1));
            violation("illegal-instruction", &format!("the code under test is about to execute an {what} instruction on a processor without it"));
        }
    }
    let left = LEFT.with(|l| l.get());
    if left > 0 {
        LEFT.with(|l| l.set(left - 1));
        return;
    }
    HITS.fetch_add(1, Ordering::Relaxed);
    let errno = *libc::__errno_location();
    match ACTION {
        Action::Interrupt => {
            ON.with(|o| o.set(false));
            u.uc_mcontext.gregs[efl] &= !0x100;
            if let Some(f) = ISR {
                let sut = get_sut();
                set_sut(0);
                f();
                set_sut(sut);
            }
        }
        Action::Preempt => {
            CORE.with(|c| c.set(c.get() + 1));
            ev(|| "preempted".into());
            fired("instruction_preemption");
            let m = PREEMPT_MEAN.load(Ordering::Relaxed);
            LEFT.with(|l| l.set(0));
            let n = log_choice(m);
            LEFT.with(|l| l.set(n));
            sched::yield_point();
            CORE.with(|c| c.set(c.get() - 1));
        }
        Action::None => {}
    }
    *libc::__errno_location() = errno;
}
pub fn setup() {
    unsafe {
        LO.store(&__executable_start as *const u8 as usize, Ordering::Relaxed);
        HI.store(&etext as *const u8 as usize, Ordering::Relaxed);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}
#[inline(always)]
fn tf_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn tf_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
/// Runs `f` with `isr` called once, after `after` instructions of it (if it is that long). Returns whether it fired.
pub fn with_interrupt<R>(after: u64, isr: fn(), f: impl FnOnce() -> R) -> (R, bool) {
    unsafe {
        ACTION = Action::Interrupt;
        ISR = Some(isr);
    }
    let before = HITS.load(Ordering::Relaxed);
    LEFT.with(|l| l.set(after));
    ON.with(|o| o.set(true));
    let old = get_sut();
    set_sut(1);
    tf_on();
    let r = f();
    tf_off();
    ON.with(|o| o.set(false));
    set_sut(old);
    (r, HITS.load(Ordering::Relaxed) > before)
}
/// Every simulated thread (including the current one) becomes preemptible at instruction granularity.
pub fn preemptive(mean: u64) {
    unsafe { ACTION = Action::Preempt };
    PREEMPT_MEAN.store(mean, Ordering::Relaxed);
    PREEMPT_MODE.store(true, Ordering::Relaxed);
}
pub fn thread_started() {
    if PREEMPT_MODE.load(Ordering::Relaxed) {
        let n = core(|| log_choice(PREEMPT_MEAN.load(Ordering::Relaxed)));
        LEFT.with(|l| l.set(n));
        ON.with(|o| o.set(true));
        tf_on();
    }
}
pub fn disarm() {
    tf_off();
    ON.with(|o| o.set(false));
}
#[inline(always)]
pub fn resume_after_core() {
    if PAUSED.with(|p| p.get()) && !in_core() {
        PAUSED.with(|p| p.set(false));
        if ON.with(|o| o.get()) {
            tf_on();
        }
    }
}
