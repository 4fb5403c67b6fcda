//! Baton scheduler: real threads, one running at a time, the next one chosen from the tape.
use super::sys::{raw, real_pthread_create, StartFn};
use super::*;
use libc::{c_int, c_void};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Futex { addr: usize, deadline: Option<u64> },
    Sleep { until: u64 },
    Join { target: usize },
    Done,
}
struct Th {
    st: St,
    gate: Box<AtomicU32>,
    handle: libc::pthread_t,
    timed_out: bool,
}
struct Sched {
    th: Vec<Th>,
    cur: usize,
    switches: u64,
    /// probability (num/den) of a switch at a scheduling point
    p: (u64, u64),
    frozen: bool,
}
static mut S: *mut Sched = std::ptr::null_mut();
fn s() -> &'static mut Sched {
    unsafe { &mut *S }
}
pub fn init() {
    let b = Box::new(Sched {
        th: vec![Th { st: St::Ready, gate: Box::new(AtomicU32::new(0)), handle: 0, timed_out: false }],
        cur: 0,
        switches: 0,
        p: (1, 4),
        frozen: false,
    });
    unsafe { S = Box::into_raw(b) };
}
pub fn current() -> usize {
    if unsafe { S.is_null() } {
        0
    } else {
        s().cur
    }
}
pub fn switches() -> u64 {
    s().switches
}
pub fn set_switch_probability(n: u64, d: u64) {
    s().p = (n, d);
}
pub fn threads() -> usize {
    s().th.len()
}

fn gate_wait(g: &AtomicU32) {
    loop {
        if g.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        unsafe { raw(libc::SYS_futex, g.as_ptr() as usize, 0 | 128, 0, 0, 0, 0) };
    }
}
fn gate_open(g: &AtomicU32) {
    g.store(1, Ordering::SeqCst);
    unsafe { raw(libc::SYS_futex, g.as_ptr() as usize, 1 | 128, 1, 0, 0, 0) };
}
/// Hands the baton to `to`; the caller waits for its own turn unless it is finished.
fn switch_to(to: usize, park: bool) {
    let me = s().cur;
    if to == me {
        return;
    }
    s().switches += 1;
    super::nontrivial();
    s().cur = to;
    let my_gate: *const AtomicU32 = &*s().th[me].gate;
    gate_open(&s().th[to].gate);
    if park {
        gate_wait(unsafe { &*my_gate });
    }
}
fn ready_others(me: usize) -> Vec<usize> {
    (0..s().th.len()).filter(|i| *i != me && s().th[*i].st == St::Ready).collect()
}
/// A scheduling point of a running thread.
pub fn yield_point() {
    let me = s().cur;
    if s().frozen || s().th.len() == 1 {
        return;
    }
    wake_due();
    let r = ready_others(me);
    if r.is_empty() {
        return;
    }
    let (n, d) = s().p;
    if chance(n, d) {
        let k = choose(r.len() as u64) as usize;
        switch_to(r[k], true);
    }
}
/// The current thread cannot run: picks another, advancing the clock if everyone waits for time.
fn block(park: bool) {
    loop {
        let me = s().cur;
        let r: Vec<usize> = (0..s().th.len()).filter(|i| s().th[*i].st == St::Ready).collect();
        if !r.is_empty() {
            let k = if r.len() == 1 { 0 } else { choose(r.len() as u64) as usize };
            if r[k] == me {
                return;
            }
            switch_to(r[k], park);
            return;
        }
        // nobody is runnable: jump to the earliest deadline
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in s().th.iter().enumerate() {
            let d = match t.st {
                St::Sleep { until } => Some(until),
                St::Futex { deadline, .. } => deadline,
                _ => None,
            };
            if let Some(d) = d {
                if best.map_or(true, |(b, _)| d < b) {
                    best = Some((d, i));
                }
            }
        }
        match best {
            None => {
                if s().th.iter().all(|t| t.st == St::Done) {
                    return;
                }
                let states: Vec<String> = s().th.iter().map(|t| format!("{:?}", std::mem::discriminant(&t.st))).collect();
                let _ = states;
                violation("deadlock", "every thread of the run is blocked forever");
            }
            Some((d, i)) => {
                let now = sim().mono;
                if d > now {
                    advance(d - now);
                }
                if matches!(s().th[i].st, St::Futex { .. }) {
                    s().th[i].timed_out = true;
                }
                s().th[i].st = St::Ready;
            }
        }
    }
}
/// Makes due sleepers runnable (called when time advanced while others run).
fn wake_due() {
    let now = sim().mono;
    for t in s().th.iter_mut() {
        match t.st {
            St::Sleep { until } if until <= now => t.st = St::Ready,
            St::Futex { deadline: Some(d), .. } if d <= now => {
                t.timed_out = true;
                t.st = St::Ready;
            }
            _ => {}
        }
    }
}
pub fn sleep(ns: u64) {
    let until = sim().mono.saturating_add(ns);
    if s().th.len() == 1 {
        advance(ns);
        return;
    }
    let me = s().cur;
    s().th[me].st = St::Sleep { until };
    wake_due();
    block(true);
    wake_due();
}
/// Returns false on timeout.
pub fn futex_wait(addr: usize, deadline: Option<u64>) -> bool {
    let me = s().cur;
    s().th[me].st = St::Futex { addr, deadline };
    s().th[me].timed_out = false;
    block(true);
    !s().th[me].timed_out
}
pub fn futex_wake(addr: usize, n: usize) -> usize {
    let mut k = 0;
    while k < n {
        let w: Vec<usize> = (0..s().th.len()).filter(|i| matches!(s().th[*i].st, St::Futex { addr: a, .. } if a == addr)).collect();
        if w.is_empty() {
            break;
        }
        let i = w[choose(w.len() as u64) as usize];
        s().th[i].st = St::Ready;
        k += 1;
    }
    k
}
struct Start {
    f: StartFn,
    arg: *mut c_void,
    idx: usize,
    sut: u32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let gate: *const AtomicU32 = &*s().th[st.idx].gate;
    gate_wait(unsafe { &*gate });
    set_sut(st.sut);
    step::thread_started();
    let r = (st.f)(st.arg);
    step::disarm();
    set_sut(0);
    core(|| {
        ev(|| "thread exit".into());
        s().th[st.idx].st = St::Done;
        for t in s().th.iter_mut() {
            if t.st == (St::Join { target: st.idx }) {
                t.st = St::Ready;
            }
        }
        block(false);
    });
    r
}
pub unsafe fn spawn(t: *mut libc::pthread_t, attr: *const c_void, f: StartFn, arg: *mut c_void) -> c_int {
    let idx = s().th.len();
    s().th.push(Th { st: St::Ready, gate: Box::new(AtomicU32::new(0)), handle: 0, timed_out: false });
    let b = Box::into_raw(Box::new(Start { f, arg, idx, sut: get_sut() }));
    let r = real_pthread_create(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        harness_error(&format!("real pthread_create failed: {r}"));
    }
    s().th[idx].handle = *t;
    ev(|| format!("spawn thread {idx}"));
    yield_point();
    0
}
pub fn join(t: libc::pthread_t) {
    let Some(i) = s().th.iter().rposition(|x| x.handle == t) else { return };
    before(Op::Other);
    if s().th[i].st != St::Done {
        let me = s().cur;
        s().th[me].st = St::Join { target: i };
        block(true);
    }
    ev(|| format!("joined thread {i}"));
    s().th[i].handle = 0;
}
/// From now on only the calling thread runs (process crash, end of a run): all others stay parked forever.
pub fn freeze_others() {
    s().frozen = true;
}
/// Blocks the calling (harness) thread until all other threads are blocked or done or `ns` have passed.
pub fn idle(ns: u64) {
    core(|| sleep(ns));
}
/// Crash of the simulated process as seen from one of its threads: hands the baton to the harness
/// main thread for good.
pub fn die() -> ! {
    let me = s().cur;
    s().frozen = true;
    s().th[0].st = St::Ready;
    if me == 0 {
        harness_error("die() on the main thread");
    }
    s().th[me].st = St::Done;
    switch_to(0, false);
    loop {
        unsafe { raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0) };
    }
}
