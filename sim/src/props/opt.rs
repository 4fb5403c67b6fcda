//! C09–C13: random streams and stochastic optimisers.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::math::Vector;
use aether_core::real::Real;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel};
use aether_rand::randomizers::XorShift64Star;
use aether_stats::distributions::gaussian::Gaussian;
use std::collections::{BTreeMap, BTreeSet};

const REAL: &[&str] = &["aether_opt::gradient_descent (stochastic, stochastic_parallel)", "aether_rand", "std::thread::scope, available_parallelism"];
const STUB: &[&str] = &["thread scheduling, creation and joining (pthread/futex)", "CPU affinity query", "the user's objective and gradient sampler"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 80_000, thorough: 2_000_000, rule: "", want: &[], real: REAL, stub: STUB, assume: &[] };
    vec![
        Prop { id: "C09", run: schedules, quick: 3_000, thorough: 60_000,
            rule: "One to three parallel optimisations run first alone in a fixed order, then again together under a random schedule with stalls inside samplers and, in part of the runs, preemption at machine-instruction granularity; results and random draws must be identical bit for bit.",
            want: &["compared", "concurrent", "instruction_preemption", "seed_zero", "stalled_worker", "streams_distinct"], ..base },
        Prop { id: "C10", run: batches,
            rule: "Every sample call of every worker is recorded under random schedules; worker panics, thread-creation failures and unavailable CPU counts are injected at random points.",
            want: &["accounted", "worker_panic", "thread_spawn_failure", "auto_threads", "affinity_unknown", "rerun_identical", "step_checked", "large_batch", "momentum_checked"], ..base },
        Prop { id: "C11", run: honest,
            rule: "A scripted sampler returns bursts of NaN, infinities, huge, tiny and zero gradients at random calls; every configuration field is randomised; sequential and parallel optimisers.",
            want: &["nan_sample", "inf_sample", "converged_gradient", "converged_step", "not_converged", "bounded", "parallel", "sequential", "zero_burst", "converged_min_iters"],
            assume: &["lower bounds do not exceed upper bounds", "a point that a NaN gradient turned into NaN is neither inside nor outside the bounds"], ..base },
        Prop { id: "C12", run: sessions,
            rule: "Sessions of several minimisations are stopped and restarted from copies of the optimiser, interleaved with another optimiser alternately or from another thread, with samplers that panic; every draw is compared with the single stream of the seed.",
            want: &["restarted", "interleaved_threads", "alternated", "sampler_panic", "continued_after_panic", "resumed_identical"], ..base },
        Prop { id: "C13", run: streams, quick: 200_000, thorough: 4_000_000,
            rule: "Several generators, some with seeds solved for extreme outputs, are drawn from in random order and from several threads, saved and resumed; each is compared with a reference xorshift64* stream.",
            want: &["extreme_high", "extreme_low", "resumed", "threads", "seed_zero", "normal", "gaussian", "f32", "f16", "f128"],
            real: &["aether_rand", "aether_stats::Gaussian", "aether_core::real"], ..base },
    ]
}

// ------------------------------------------------------------------ reference generator
fn ref_state(seed: u64) -> u64 {
    if seed == 0 {
        0x9E37_79B9_7F4A_7C15
    } else {
        seed
    }
}
const MUL: u64 = 0x2545_F491_4F6C_DD1D;
fn ref_step(s: &mut u64) -> u64 {
    let mut x = *s;
    x ^= x >> 12;
    x ^= x << 25;
    x ^= x >> 27;
    *s = x;
    x.wrapping_mul(MUL)
}
/// The seed whose n-th output is `out`.
fn seed_for(out: u64, n: u32) -> u64 {
    let mut inv = MUL;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(MUL.wrapping_mul(inv)));
    }
    let mut x = out.wrapping_mul(inv);
    for _ in 0..n {
        let y = x;
        let mut z = y;
        for _ in 0..3 {
            z = y ^ (z >> 27);
        }
        let y = z;
        for _ in 0..3 {
            z = y ^ (z << 25);
        }
        let y = z;
        for _ in 0..6 {
            z = y ^ (z >> 12);
        }
        x = z;
    }
    x
}

fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}

// ------------------------------------------------------------------ C13
fn unit_checks<F: Real + Copy>(r: &mut XorShift64Star, name: &str, s: &mut u64) {
    let before = *s;
    let v: F = call("next_real", || r.next_real::<F>());
    let u = ref_step(s);
    check!(v >= F::ZERO && v < F::ONE, "range", "next_real::<{name}> gave {v:?} from output {u:#018x}");
    // it is that draw, to the precision of the type
    let w = (u >> 11) as f64 / (1u64 << 53) as f64;
    let got = v.to_f64();
    let tol = F::EPSILON.to_f64().max(f64::EPSILON);
    check!((got - w).abs() <= tol, "wrong-draw", "next_real::<{name}> gave {got}, the stream says {w} (state {before:#x})");
    if u >> 40 == (1 << 24) - 1 {
        probe("extreme_high");
    }
    if u >> 40 == 0 {
        probe("extreme_low");
    }
}
fn normal_checks<F: Real + Copy>(r: &mut XorShift64Star, name: &str, s: &mut u64) {
    probe("normal");
    let st = *s;
    let v: F = call("normal01_real", || r.normal01_real::<F>());
    let (a, b) = (ref_step(s), ref_step(s));
    let x = v.to_f64();
    check!(x.is_finite(), "normal-not-finite", "normal01_real::<{name}> gave {v:?} from outputs {a:#x}, {b:#x} (state {st:#x})");
    check!(x.abs() < 9.0, "normal-range", "normal01_real::<{name}> gave {x}, beyond what 53-bit uniforms can reach");
}
fn gaussian_checks<F: Real + Copy>(r: &mut XorShift64Star, name: &str, s: &mut u64, tol: f64) {
    probe("gaussian");
    let mu = pick(&[0.0, 1.5, -3.0, 1000.0]);
    let sg = pick(&[1.0, 0.0, 0.25, 40.0]);
    // the normal draw the generator makes at this point
    let z = {
        let mut c = *r;
        call("normal01", || c.normal01_real::<f64>())
    };
    let g = call("new", || Gaussian::<F>::new(F::from_f64(mu), F::from_f64(sg)));
    let v: F = call("sample", || g.sample(r));
    ref_step(s);
    ref_step(s);
    let want = mu + sg * z;
    let got = v.to_f64();
    check!(got.is_finite() && (got - want).abs() <= tol * (mu.abs() + (sg * z).abs() + sg), "gaussian", "Gaussian::<{name}>({mu}, {sg}) gave {got}, mean plus sigma times the normal draw is {want}");
}
fn one_draw(r: &mut XorShift64Star, s: &mut u64) {
    match choose(13) {
        0 | 1 => {
            let a = call("next_u64", || r.next_u64());
            let b = ref_step(s);
            check!(a == b, "wrong-draw", "next_u64 gave {a:#x}, the stream says {b:#x}");
        }
        2 => {
            let v = call("next_f64", || r.next_f64());
            let w = (ref_step(s) >> 11) as f64 / (1u64 << 53) as f64;
            check!(v == w, "wrong-draw", "next_f64 gave {v}, the stream says {w}");
        }
        3 => unit_checks::<f64>(r, "f64", s),
        4 | 5 => {
            probe("f32");
            unit_checks::<f32>(r, "f32", s)
        }
        6 => {
            probe("f16");
            unit_checks::<f16>(r, "f16", s)
        }
        7 => {
            probe("f128");
            unit_checks::<f128>(r, "f128", s)
        }
        8 => normal_checks::<f64>(r, "f64", s),
        9 => normal_checks::<f32>(r, "f32", s),
        10 => {
            let v = call("normal01", || r.normal01());
            let (a, b) = (ref_step(s), ref_step(s));
            check!(v.is_finite(), "normal-not-finite", "normal01 gave {v} from {a:#x}, {b:#x}");
        }
        11 => gaussian_checks::<f64>(r, "f64", s, 1e-9),
        _ => gaussian_checks::<f32>(r, "f32", s, 1e-4),
    }
}
fn a_seed() -> u64 {
    match choose(6) {
        0 => {
            probe("seed_zero");
            0
        }
        1 => 1 + choose(100),
        2 => seed_for(u64::MAX - choose(pick(&[1, 1 << 11, 1 << 28, 1 << 40])), range(1, 4) as u32),
        3 => seed_for(choose(pick(&[1, 2, 1 << 11, 1 << 30])), range(1, 4) as u32),
        _ => choose(u64::MAX),
    }
}
static mut GENS: Vec<(XorShift64Star, u64)> = Vec::new();
#[allow(static_mut_refs)]
fn gens() -> &'static mut Vec<(XorShift64Star, u64)> {
    unsafe { &mut GENS }
}
fn streams() {
    let n = range(1, 4) as usize;
    let mut seeds = vec![];
    for _ in 0..n {
        let seed = a_seed();
        seeds.push(seed);
        gens().push((call("new", || XorShift64Star::new(seed)), ref_state(seed)));
    }
    describe(format!("{n} generators, seeds {seeds:x?}"));
    if chance(1, 6) && n > 1 {
        // one thread per generator, switching between draws
        probe("threads");
        nontrivial();
        sched::set_switch_probability(1, 2);
        let hs = call("spawn", || {
            (0..n)
                .map(|i| {
                    std::thread::spawn(move || {
                        for _ in 0..6 {
                            harness(|| {
                                let (r, s) = &mut gens()[i];
                                one_draw(r, s);
                                core(sched::yield_point);
                            });
                        }
                    })
                })
                .collect::<Vec<_>>()
        });
        for h in hs {
            call("join", || h.join().unwrap());
        }
        return;
    }
    let mut saved: Vec<Option<(XorShift64Star, u64)>> = vec![None; n];
    for _ in 0..if chance(1, 200) { range(300, 3_000) } else { range(1, 40) } {
        let i = choose(n as u64) as usize;
        match choose(10) {
            8 => saved[i] = Some(gens()[i]),
            9 => {
                if let Some(x) = saved[i] {
                    gens()[i] = x;
                    probe("resumed");
                    fired("crash_restart");
                }
            }
            _ => {
                let (r, s) = &mut gens()[i];
                one_draw(r, s);
            }
        }
    }
    ev(|| format!("{:x?}", gens().iter().map(|g| g.1).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------ common to C09–C11
trait Bits: Real + Copy + Send + Sync + 'static {
    fn bits(self) -> u64;
}
impl Bits for f32 {
    fn bits(self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() as u64 | 1 << 40 }
    }
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        if self.is_nan() { 1 } else { self.to_bits() }
    }
}
const N: usize = 5;
#[derive(Clone, PartialEq, Debug)]
struct Sample {
    worker: usize,
    first: u64,
    x: [u64; N],
    xf: [f64; N],
    g: [f64; N],
}
/// What the samplers of one optimisation saw.
#[derive(Default)]
struct Rec {
    samples: Vec<Sample>,
}
#[allow(clippy::declare_interior_mutable_const)]
static mut RECS: Vec<Rec> = Vec::new();
#[allow(static_mut_refs)]
fn recs() -> &'static mut Vec<Rec> {
    unsafe { &mut RECS }
}
fn new_rec() -> usize {
    recs().push(Rec::default());
    recs().len() - 1
}
fn xbits<F: Bits>(x: &Vector<F, N>) -> [u64; N] {
    std::array::from_fn(|d| x[d].bits())
}
fn floats<F: Bits>(x: &Vector<F, N>) -> [f64; N] {
    std::array::from_fn(|d| x[d].to_f64())
}
type Out = ([u64; N], u64, u32, bool, [f64; N], f64);
fn out<F: Bits>(r: (Vector<F, N>, F, u32, bool)) -> Out {
    (xbits(&r.0), r.1.bits(), r.2, r.3, floats(&r.0), r.1.to_f64())
}
fn same(a: &Out, b: &Out) -> bool {
    a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3
}
fn objective<F: Bits>(x: &Vector<F, N>) -> F {
    let mut s = F::ZERO;
    for d in 0..N {
        s = s + x[d] * x[d];
    }
    F::from_f64(0.5) * s
}

#[derive(Clone, Copy, Debug)]
struct Cfg {
    seed: u64,
    batch: u32,
    threads: Option<usize>,
    iters: u32,
    draws: u64,
    lr: f64,
    momentum: f64,
    bounded: bool,
    single: bool,
}
fn build<F: Bits>(c: &Cfg) -> GDStochasticParallel<F, N> {
    let mut o = GDStochasticParallel::<F, N>::new(c.seed);
    o.learning_rate(F::from_f64(c.lr)).momentum(F::from_f64(c.momentum)).batch_size(c.batch).max_iters(c.iters).tolerances(F::ZERO, F::ZERO);
    if let Some(t) = c.threads {
        o.threads(t);
    }
    if c.bounded {
        o.set_bounds([F::from_f64(-1.0); N], [F::from_f64(2.5); N]);
    }
    o
}
fn start() -> [f64; N] {
    [1.25, -0.75, 0.5, -2.0, 3.0]
}
/// A gradient sample whose sum depends on the order of summation.
fn noisy<F: Bits>(x: &Vector<F, N>, rng: &mut XorShift64Star, draws: u64) -> (Vector<F, N>, u64) {
    let mut c = *rng;
    let first = c.next_u64();
    let mut a = 0.0f64;
    for _ in 0..draws {
        a = a * 0.5 + (rng.next_f64() - 0.5);
    }
    let big = (first % 7) as i32 * 3 - 9;
    let (s, u) = (10f64.powi(big), a * 1.7 + 0.1);
    // every axis moves differently
    let step = |d: usize| if d % 2 == 0 { u * s * (1.0 + d as f64) } else { -u * 3.1 / s / d as f64 };
    (Vector::new(std::array::from_fn(|d| x[d] + F::from_f64(step(d)))), first)
}
/// Runs one optimisation with recording; `stall` lets samplers pause and yield.
fn optimise<F: Bits>(c: Cfg, rec: usize, stall: bool) -> Out {
    let o = build::<F>(&c);
    let x0 = Vector::new(start().map(F::from_f64));
    out(o.minimize(x0, objective::<F>, |x, rng| {
        let (g, first) = noisy(x, rng, c.draws);
        core(|| {
            recs()[rec].samples.push(Sample { worker: sched::current(), first, x: xbits(x), xf: floats(x), g: floats(&g) });
            ev(|| format!("sample {rec} by {} at {:x?}", sched::current(), xbits(x)));
            if stall {
                sched::yield_point();
                if chance(1, 12) {
                    probe("stalled_worker");
                    fired("stalled_thread");
                    sched::sleep(1 + choose(5_000_000));
                }
            }
        });
        g
    }))
}
fn optimise_any(c: Cfg, rec: usize, stall: bool) -> Out {
    if c.single {
        optimise::<f32>(c, rec, stall)
    } else {
        optimise::<f64>(c, rec, stall)
    }
}
fn cfg() -> Cfg {
    let seed = match choose(6) {
        0 => {
            probe("seed_zero");
            0
        }
        1 => choose(10),
        2 => (choose(4) + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ choose(4).wrapping_mul(0xBF58_476D_1CE4_E5B9),
        3 => choose(5).wrapping_mul(0xBF58_476D_1CE4_E5B9),
        _ => choose(u64::MAX),
    };
    Cfg {
        seed,
        batch: range(1, 12) as u32,
        threads: Some(range(1, 5) as usize),
        iters: range(1, 4) as u32,
        draws: choose(4),
        lr: pick(&[0.05, 0.3, 0.0, 1e-3]),
        momentum: pick(&[0.0, 0.6]),
        bounded: chance(1, 4),
        single: chance(1, 3),
    }
}
fn batches_of(r: &Rec, batch: u32) -> Vec<Vec<u64>> {
    r.samples
        .chunks(batch as usize)
        .map(|c| {
            let mut v: Vec<u64> = c.iter().map(|s| s.first).collect();
            v.sort();
            v
        })
        .collect()
}

// ------------------------------------------------------------------ C09
static mut RESULTS: [Option<Result<Out, String>>; 4] = [None, None, None, None];
fn schedules() {
    sched::set_switch_probability(0, 1);
    // now and then one long optimisation, or one of many workers
    let (long, wide) = (chance(1, 40), chance(1, 40));
    let k = if !long && !wide && chance(1, 3) { range(2, 3) as usize } else { 1 };
    let mut cfgs: Vec<Cfg> = vec![];
    for i in 0..k {
        // sometimes the very same optimisation several times at once
        let c = if i > 0 && chance(1, 4) { cfgs[0] } else { cfg() };
        cfgs.push(c);
    }
    if long {
        probe("long_run");
        cfgs[0] = Cfg { batch: range(1, 3) as u32, threads: Some(range(1, 3) as usize), iters: range(258, 900) as u32, draws: 1, lr: pick(&[1e-3, 0.3]), ..cfgs[0] };
    } else if wide {
        probe("many_workers");
        cfgs[0] = Cfg { batch: range(20, 90) as u32, threads: Some(range(10, 40) as usize), iters: 2, draws: 1, ..cfgs[0] };
    }
    describe(format!("{cfgs:x?}"));
    let mut alone = vec![];
    for c in &cfgs {
        let r = new_rec();
        alone.push((call("minimize", || optimise_any(*c, r, false)), r));
    }
    // the streams of all workers and iterations are distinct
    for ((_, r), c) in alone.iter().zip(&cfgs) {
        let mut seen = BTreeSet::new();
        if c.draws > 0 {
            for s in &recs()[*r].samples {
                check!(seen.insert(s.first), "shared-stream", "two gradient samples of one optimisation (seed {:#x}, {} samples per iteration, {:?} threads) drew from the same place of the same stream", c.seed, c.batch, c.threads);
            }
            probe("streams_distinct");
        } else {
            // samplers draw nothing: each worker's stream stays at its start, one value per worker and iteration
            let t = (c.threads.unwrap() as u32).min(c.batch) as usize;
            for b in recs()[*r].samples.chunks(c.batch as usize) {
                let starts: BTreeSet<u64> = b.iter().map(|s| s.first).collect();
                check!(starts.len() == t, "shared-stream", "{} distinct streams for {t} workers (seed {:#x})", starts.len(), c.seed);
                for s in starts {
                    check!(seen.insert(s), "shared-stream", "a stream was used in two iterations (seed {:#x})", c.seed);
                }
            }
        }
    }
    // again, under a random schedule, all at once
    let den = pick(&[2, 4, 10]);
    sched::set_switch_probability(1, den);
    if !long && !wide && chance(1, 8) {
        step::preemptive(pick(&[200, 2000, 8000]));
    }
    let mut rr = vec![];
    for _ in 0..k {
        rr.push(new_rec());
    }
    let hs = call("spawn", || {
        (0..k)
            .map(|i| {
                let (c, r) = (cfgs[i], rr[i]);
                std::thread::spawn(move || {
                    let o = sut(|| optimise_any(c, r, true));
                    core(|| unsafe { RESULTS[i] = Some(o) });
                })
            })
            .collect::<Vec<_>>()
    });
    for h in hs {
        call("join", || h.join().unwrap());
    }
    if k > 1 {
        probe("concurrent");
    }
    for i in 0..k {
        let Some(Ok(o)) = (unsafe { RESULTS[i].clone() }) else { violation("panic", &format!("optimisation {i} failed: {:?}", unsafe { RESULTS[i].clone() })) };
        let (a, ra) = &alone[i];
        probe("compared");
        if !same(a, &o) {
            violation("schedule-dependent", &format!("optimisation {i} gave {o:?} under this schedule and {a:?} in order ({:x?})", cfgs[i]));
        }
        let (x, y) = (batches_of(&recs()[*ra], cfgs[i].batch), batches_of(&recs()[rr[i]], cfgs[i].batch));
        check!(x == y, "draws-depend-on-schedule", "optimisation {i} drew different random numbers under this schedule");
    }
}

// ------------------------------------------------------------------ C10
fn batches() {
    let mut c = cfg();
    let large = chance(1, 60);
    c.batch = match choose(4) {
        _ if large => {
            probe("large_batch");
            c.iters = 1;
            c.draws = 1;
            range(60, 700) as u32
        }
        0 => range(1, 4) as u32,
        1 => range(1, 24) as u32,
        _ => range(1, 9) as u32,
    };
    sim().ncpu = if large { range(1, 80) } else { range(1, 9) } as usize;
    if large && chance(1, 2) {
        c.threads = Some(range(1, 70) as usize);
    }
    let auto = chance(1, 3);
    let mut workers = c.threads.unwrap();
    let mut unknown = false;
    if auto {
        probe("auto_threads");
        c.threads = None;
        workers = sim().ncpu;
        if chance(1, 3) {
            sim().affinity_fails = true;
            unknown = true;
            fired("affinity_unknown");
        }
    }
    describe(format!("{c:x?} cpus {} known {}", sim().ncpu, !unknown));
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    let fault_kind = choose(3);
    let total = c.batch as u64 * c.iters as u64;
    let panic_at = if fault_kind == 1 { Some(choose(total)) } else { None };
    if fault_kind == 2 {
        enable(Fault::SpawnFail, 1, range(1, 12) as u32);
        set_fault_budget(1);
    }
    let r = new_rec();
    let x0 = Vector::new(start());
    let o = build::<f64>(&c);
    let go = |rec: usize, panic_at: Option<u64>| {
        sut(|| {
            out(o.minimize(x0, objective::<f64>, |x, rng| {
                let (g, first) = noisy(x, rng, c.draws);
                let boom = core(|| {
                    let v = &mut recs()[rec].samples;
                    let boom = Some(v.len() as u64) == panic_at;
                    v.push(Sample { worker: sched::current(), first, x: xbits(x), xf: floats(x), g: floats(&g) });
                    ev(|| format!("sample by {} at {:x?}", sched::current(), xbits(x)));
                    sched::yield_point();
                    if chance(1, 16) {
                        fired("stalled_thread");
                        sched::sleep(1 + choose(5_000_000));
                    }
                    boom
                });
                if boom {
                    panic!("sampler gives up");
                }
                g
            }))
        })
    };
    let res = go(r, panic_at);
    enable(Fault::SpawnFail, 0, 1);
    let spawn_failed = sim().fault_fired.get("thread_spawn_failure").is_some();
    // an optimisation that converges early never reaches the call that would panic
    let panicked = panic_at.is_some_and(|n| n < recs()[r].samples.len() as u64);
    if panicked || spawn_failed {
        if panicked {
            probe("worker_panic");
            fired("worker_panic");
        }
        check!(res.is_err(), "silent-failure", "{} and minimize still returned {:?}", if spawn_failed { "a thread could not be created" } else { "a worker panicked" }, res.as_ref().unwrap());
    } else {
        let a = match &res {
            Ok(a) => *a,
            Err(m) => violation("panic", &format!("minimize panicked: {m}")),
        };
        account(&recs()[r], &c, workers, unknown, Some(&a));
    }
    // later calls are unaffected
    let r2 = new_rec();
    let again = match go(r2, None) {
        Ok(a) => a,
        Err(m) => violation("later-call", &format!("a call after a failed one panicked: {m}")),
    };
    account(&recs()[r2], &c, workers, unknown, Some(&again));
    let r3 = new_rec();
    let third = match go(r3, None) {
        Ok(a) => a,
        Err(m) => violation("later-call", &format!("a later call panicked: {m}")),
    };
    check!(same(&again, &third), "later-call", "the same call gave {again:?} and {third:?}");
    if let Ok(a) = res {
        check!(same(&a, &again), "later-call", "the same call gave {a:?} and {again:?}");
    }
    probe("rerun_identical");
}
fn account(r: &Rec, c: &Cfg, workers: usize, unknown: bool, res: Option<&Out>) {
    let bs = c.batch as usize;
    check!(r.samples.len() % bs == 0, "batch-size", "{} samples are not whole batches of {bs}", r.samples.len());
    let iters: Vec<&[Sample]> = r.samples.chunks(bs).collect();
    for (k, it) in iters.iter().enumerate() {
        for s in it.iter() {
            check!(s.x == it[0].x, "batch-mixed", "iteration {k} evaluated samples at different points ({:?} and {:?})", it[0].xf, s.xf);
        }
        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
        for s in it.iter() {
            *per.entry(s.worker).or_insert(0) += 1;
        }
        if !unknown {
            check!(per.len() == workers.min(bs), "workers", "iteration {k}: {} workers took part, {} configured, batch {bs}", per.len(), workers);
        }
        let (lo, hi) = (per.values().min().unwrap(), per.values().max().unwrap());
        check!(hi - lo <= 1, "uneven", "iteration {k}: worker shares {:?}", per.values().collect::<Vec<_>>());
        // the step
        let next = if k + 1 < iters.len() { Some(iters[k + 1][0].xf) } else { res.map(|o| o.4) };
        if let Some(nx) = next {
            let alpha = c.lr / (1.0 + 1e-3 * k as f64);
            for d in 0..N {
                let sum: f64 = it.iter().map(|s| s.g[d]).sum();
                let abs: f64 = it.iter().map(|s| s.g[d].abs()).sum();
                let moved = if k > 0 { it[0].xf[d] - iters[k - 1][0].xf[d] } else { 0.0 };
                if moved * c.momentum != 0.0 {
                    probe("momentum_checked");
                }
                let mut want = it[0].xf[d] + alpha * (c.momentum * moved - sum / bs as f64);
                if c.bounded {
                    want = want.clamp(-1.0, 2.5);
                }
                let tol = 1e-9 * (abs / bs as f64 * alpha + moved.abs() + it[0].xf[d].abs() + 1e-300);
                check!((nx[d] - want).abs() <= tol, "wrong-step", "iteration {k}, axis {d}: moved from {} to {}, the mean of the {bs} samples leads to {want}", it[0].xf[d], nx[d]);
            }
            probe("step_checked");
        }
    }
    if let Some(o) = res {
        check!(!o.3 && o.2 == c.iters && iters.len() == c.iters as usize || o.3 && iters.len() as u32 >= o.2, "iterations", "{} batches were evaluated, the result reports {} iterations (limit {})", iters.len(), o.2, c.iters);
    }
    probe("accounted");
}

// ------------------------------------------------------------------ C11
struct Script {
    kind: u64,
    left: u64,
}
static mut SCRIPT: Script = Script { kind: 0, left: 0 };
#[derive(Clone, Copy, Debug)]
struct Opt {
    parallel: bool,
    single: bool,
    batch: u32,
    threads: usize,
    max_iters: u32,
    min_iters: u32,
    lr: f64,
    decay: f64,
    mu: f64,
    beta: f64,
    tol_g: f64,
    tol_s: f64,
    tol_f: f64,
    corrected: bool,
    bounds: Option<([f64; N], [f64; N])>,
    x0: [f64; N],
    f_kind: u64,
    wild: u64,
}
fn f_of(kind: u64, x: &[f64; N]) -> f64 {
    match kind {
        0 => 0.5 * x.iter().map(|a| a * a).sum::<f64>(),
        1 => x.iter().map(|a| a.abs()).sum::<f64>() - 1.0,
        2 => x.iter().fold(1e-3, |m, a| a.max(m)),
        _ => f64::NAN,
    }
}
fn run_opt<F: Bits>(c: &Opt, rec: usize) -> Result<Out, String> {
    let v = |x: f64| F::from_f64(x);
    let f = |x: &Vector<F, N>| v(f_of(c.f_kind, &floats(x)));
    let g = |x: &Vector<F, N>, rng: &mut XorShift64Star| {
        let u = rng.next_f64();
        core(|| {
            let s = unsafe { &mut *std::ptr::addr_of_mut!(SCRIPT) };
            if s.left == 0 {
                s.kind = if choose(c.wild) == 0 { 0 } else { range(1, 9) };
                s.left = range(1, 6);
            }
            s.left -= 1;
            let xs = floats(x);
            let mut gv: [f64; N] = std::array::from_fn(|d| xs[d] + (u - 0.5) * if d % 2 == 0 { 0.2 } else { -0.2 });
            let k = choose(N as u64) as usize;
            match s.kind {
                1 => {
                    gv[k] = f64::NAN;
                    probe("nan_sample");
                    fired("nan_gradient");
                }
                2 => {
                    gv[k] = if chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
                    probe("inf_sample");
                    fired("infinite_gradient");
                }
                3 => gv[k] = pick(&[1e308, -1e308, 1e200, -1e160]),
                4 | 5 => {
                    gv = std::array::from_fn(|d| if d % 2 == 0 { 0.0 } else { -0.0 });
                    probe("zero_burst");
                }
                6 => gv = std::array::from_fn(|d| if d % 2 == 0 { 1e-300 } else { -1e-310 }),
                7 => gv = xs.map(|a| a * 1e-6),
                _ => {}
            }
            let gf = gv.map(v);
            recs()[rec].samples.push(Sample { worker: sched::current(), first: 0, x: xbits(x), xf: xs, g: gf.map(|a| a.to_f64()) });
            ev(|| format!("sample at {xs:?} -> {gv:?}"));
            Vector::new(gf)
        })
    };
    let x0 = Vector::new(c.x0.map(v));
    sut(|| {
        if c.parallel {
            let mut o = GDStochasticParallel::<F, N>::new(7);
            o.learning_rate(v(c.lr)).decay(v(c.decay)).momentum(v(c.mu)).batch_size(c.batch).ema(v(c.beta)).tolerances(v(c.tol_g), v(c.tol_s)).tol_f(v(c.tol_f)).min_iters(c.min_iters).max_iters(c.max_iters).threads(c.threads);
            if let Some((lo, hi)) = c.bounds {
                o.set_bounds(lo.map(v), hi.map(v));
            }
            out(o.minimize(x0, f, g))
        } else {
            unreachable!()
        }
    })
}
fn run_seq(c: &Opt, rec: usize) -> Result<Out, String> {
    // the sequential optimiser works in f64 only
    let f = |x: &Vector<f64, N>| f_of(c.f_kind, &floats(x));
    let g = |x: &Vector<f64, N>, rng: &mut XorShift64Star| {
        let u = rng.next_f64();
        core(|| {
            let s = unsafe { &mut *std::ptr::addr_of_mut!(SCRIPT) };
            if s.left == 0 {
                s.kind = if choose(c.wild) == 0 { 0 } else { range(1, 9) };
                s.left = range(1, 6);
            }
            s.left -= 1;
            let xs = floats(x);
            let mut gv: [f64; N] = std::array::from_fn(|d| xs[d] + (u - 0.5) * if d % 2 == 0 { 0.2 } else { -0.2 });
            let k = choose(N as u64) as usize;
            match s.kind {
                1 => {
                    gv[k] = f64::NAN;
                    probe("nan_sample");
                    fired("nan_gradient");
                }
                2 => {
                    gv[k] = if chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
                    probe("inf_sample");
                    fired("infinite_gradient");
                }
                3 => gv[k] = pick(&[1e308, -1e308, 1e200, -1e160]),
                4 | 5 => {
                    gv = std::array::from_fn(|d| if d % 2 == 0 { 0.0 } else { -0.0 });
                    probe("zero_burst");
                }
                6 => gv = std::array::from_fn(|d| if d % 2 == 0 { 1e-300 } else { -1e-310 }),
                7 => gv = xs.map(|a| a * 1e-6),
                _ => {}
            }
            recs()[rec].samples.push(Sample { worker: 0, first: 0, x: xbits(x), xf: xs, g: gv });
            ev(|| format!("sample at {xs:?} -> {gv:?}"));
            Vector::new(gv)
        })
    };
    sut(|| {
        let mut o = GDStochastic::<N>::new(7);
        o.learning_rate(c.lr).decay(c.decay).momentum(c.mu).batch_size(c.batch).ema(c.beta).tolerances(c.tol_g, c.tol_s).tol_f(c.tol_f).min_iters(c.min_iters).max_iters(c.max_iters).bias_corrected_ema(c.corrected);
        if let Some((lo, hi)) = c.bounds {
            o.set_bounds(lo, hi);
        }
        out(o.minimize(Vector::new(c.x0), f, g))
    })
}
fn honest() {
    let parallel = chance(1, 3);
    let single = parallel && chance(1, 3);
    probe(if parallel { "parallel" } else { "sequential" });
    let bounds = chance(1, 2).then(|| {
        let mut b = ([0.0; N], [0.0; N]);
        for d in 0..N {
            (b.0[d], b.1[d]) = if d % 2 == 0 { (pick(&[-1.0, 0.5, f64::NEG_INFINITY]), pick(&[1.0, 0.5, f64::INFINITY])) } else { (pick(&[-2.0, 0.0]), pick(&[3.0, 0.0])) };
        }
        b
    });
    let c = Opt {
        parallel,
        single,
        batch: range(1, 5) as u32,
        threads: range(1, 3) as usize,
        max_iters: if chance(1, 20) { 0 } else if chance(1, 60) { range(60, 400) as u32 } else { range(1, 14) as u32 },
        min_iters: pick(&[0, 0, 1, 2, 5, 20]),
        lr: pick(&[0.05, 0.5, 0.0, 1.0, 1e-9, 2.5]),
        decay: pick(&[0.0, 1e-3, 1.0]),
        mu: pick(&[0.0, 0.6, 0.9]),
        beta: pick(&[0.0, 0.5, 0.9, 0.95]),
        tol_g: pick(&[0.0, 1e-4, 1e-2, 0.3, 2.0]),
        tol_s: pick(&[0.0, 1e-8, 1e-3, 0.1]),
        tol_f: pick(&[0.0, 1e-6, 0.5, 1e-2]),
        corrected: !parallel && chance(1, 2) || parallel,
        bounds,
        x0: std::array::from_fn(|_| pick(&[2.0, 0.0, -4.0, 1e-3, -1.0, 5.0, 1e-5])),
        f_kind: pick(&[0, 0, 0, 1, 2, 3]),
        wild: pick(&[1, 2, 4]),
    };
    describe(format!("{c:?}"));
    let rec = new_rec();
    if parallel {
        sched::set_switch_probability(1, 4);
    }
    let r = if !parallel {
        run_seq(&c, rec)
    } else if single {
        run_opt::<f32>(&c, rec)
    } else {
        run_opt::<f64>(&c, rec)
    };
    let (xb, fb, iters, conv, x, fx) = match r {
        Ok(o) => o,
        Err(m) => violation("panic", &format!("minimize panicked: {m}")),
    };
    nontrivial();
    ev(|| format!("-> {x:?} {fx} {iters} {conv}"));
    let to = |v: f64| if single { (v as f32).bits() } else { v.bits() };
    check!(to(f_of(c.f_kind, &x)) == fb, "objective", "returned objective {fx} but the objective at the returned point {x:?} is {}", f_of(c.f_kind, &x));
    check!(iters <= c.max_iters, "over-limit", "{iters} iterations reported, the limit is {}", c.max_iters);
    let bs = c.batch as usize;
    let s = &recs()[rec].samples;
    check!(s.len() % bs == 0, "batch-size", "{} samples are not whole batches of {bs}", s.len());
    let bat: Vec<&[Sample]> = s.chunks(bs).collect();
    let nb = bat.len() as u32;
    // a batch was evaluated before every update, and one more if a criterion held before an update
    check!(iters == nb || conv && iters + 1 == nb, "iteration-count", "{iters} iterations reported (converged: {conv}) after {nb} batches");
    check!(conv || iters == c.max_iters, "gave-up", "neither converged nor used its {} iterations ({iters})", c.max_iters);
    if iters + 1 == nb {
        check!(xb == bat[nb as usize - 1][0].x, "stray-update", "reported {iters} updates but moved after the last batch");
    }
    // bounds
    let ftype = |v: f64| if single { v as f32 as f64 } else { v };
    if let Some((lo, hi)) = c.bounds {
        probe("bounded");
        let mut pts: Vec<[f64; N]> = bat.iter().skip(1).map(|b| b[0].xf).collect();
        if iters > 0 {
            pts.push(x);
        }
        for p in pts {
            for d in 0..N {
                check!(p[d].is_nan() || p[d] >= ftype(lo[d]) && p[d] <= ftype(hi[d]), "out-of-bounds", "an update produced {p:?}, bounds {lo:?}..{hi:?}");
            }
        }
    }
    // was a criterion met?
    if !conv {
        probe("not_converged");
        return;
    }
    let k = nb - 1;
    check!(k >= c.min_iters, "too-early", "converged in iteration {k}, the minimum is {}", c.min_iters);
    if c.min_iters > 0 {
        probe("converged_min_iters");
    }
    let eps = if single { 1e-5 } else { 1e-11 };
    let (mut ema, mut err, mut nan, mut inf) = (0.0f64, 0.0f64, false, false);
    for b in &bat {
        if c.beta == 0.0 {
            // no memory: only the last batch counts
            (ema, err, nan, inf) = (0.0, 0.0, false, false);
        }
        let (mut n2, mut e2) = (0.0, 0.0);
        for d in 0..N {
            let sum: f64 = b.iter().map(|s| s.g[d]).sum();
            let abs: f64 = b.iter().map(|s| s.g[d].abs()).sum();
            nan |= b.iter().any(|s| s.g[d].is_nan());
            inf |= b.iter().any(|s| s.g[d].is_infinite());
            n2 += (sum / bs as f64) * (sum / bs as f64);
            e2 += abs / bs as f64 * eps;
        }
        // a norm whose square underflows may come out as zero
        let under = if single { 1e-18 } else { 1e-150 };
        ema = c.beta * ema + (1.0 - c.beta) * n2.sqrt();
        err = c.beta * err + (1.0 - c.beta) * (e2 + eps * n2.sqrt() + under);
    }
    if !nan && !inf && !err.is_finite() {
        return;
    }
    let hat = if c.corrected { 1.0 - c.beta.powi(nb as i32) } else { 1.0 };
    let grad_ok = !nan && !inf && (ema - err) / hat <= c.tol_g * (1.0 + eps);
    let step_ok = iters == nb && {
        let p = bat[nb as usize - 1][0].xf;
        let mut n = 0.0;
        for d in 0..N {
            n += (x[d] - p[d]) * (x[d] - p[d]);
        }
        // a large coordinate hides its own rounding
        let scale = x.iter().map(|a| a.abs()).sum::<f64>() * eps;
        n.sqrt() - scale - if single { 1e-18 } else { 1e-150 } <= c.tol_s * (1.0 + eps)
    };
    let last_f = f_of(c.f_kind, &bat[nb as usize - 1][0].xf);
    let f_ok = iters + 1 == nb && ftype(last_f) <= ftype(c.tol_f) && (!parallel || c.tol_f > 0.0);
    if iters + 1 == nb {
        check!(grad_ok || f_ok, "false-convergence", "reported convergence in iteration {k}; averaged gradient norm {} (tolerance {}), objective {last_f} (tolerance {}), NaN seen: {nan}", ema / hat, c.tol_g, c.tol_f);
        probe("converged_gradient");
    } else {
        check!(step_ok, "false-convergence", "reported convergence after update {iters} from {:?} to {x:?}, step tolerance {}, NaN seen: {nan}", bat[nb as usize - 1][0].xf, c.tol_s);
        probe("converged_step");
    }
}

// ------------------------------------------------------------------ C12
/// A sequential optimiser under test with what its stream must be.
#[derive(Clone)]
struct Session {
    opt: GDStochastic<N>,
    state: u64,
}
static mut DRAW_STATE: [u64; 4] = [0; 4];
static mut PANIC_IN: [Option<u64>; 4] = [None; 4];
/// One minimisation of session `id`; every draw of its sampler is compared with the reference stream.
fn minimise_once(opt: &mut GDStochastic<N>, id: usize, draws: u64, yielding: bool) -> Result<Out, String> {
    sut(|| {
        out(opt.minimize(
            Vector::new([1.5, -2.0, 0.25, 4.0, -1.0]),
            |x| objective(x) + 1.0,
            |x, rng| {
                let mut a = 0.0;
                for d in 0..draws + 1 {
                    let got = rng.next_u64();
                    let boom = core(|| {
                        let want = ref_step(unsafe { &mut DRAW_STATE[id] });
                        check!(got == want, "wrong-stream", "draw {got:#x} of optimiser {id}, its stream continues with {want:#x}");
                        if yielding {
                            sched::yield_point();
                        }
                        let p = unsafe { &mut PANIC_IN[id] };
                        if let Some(n) = p {
                            if *n == 0 {
                                *p = None;
                                return true;
                            }
                            *n -= 1;
                        }
                        false
                    });
                    if boom {
                        panic!("sampler gives up");
                    }
                    a = a * 0.5 + (got >> 11) as f64 / (1u64 << 53) as f64 - 0.5 + d as f64 * 0.01;
                }
                Vector::new(std::array::from_fn(|d| x[d] + a * [1.0, -0.7, 0.3, 2.0, -1.5][d]))
            },
        ))
    })
}
fn make(seed: u64) -> GDStochastic<N> {
    let mut o = call("new", || GDStochastic::<N>::new(seed));
    o.learning_rate(0.1).momentum(pick(&[0.0, 0.5])).batch_size(range(1, 4) as u32).max_iters(range(1, 6) as u32).tolerances(pick(&[0.0, 0.5]), 0.0).tol_f(0.0).ema(0.5);
    o
}
fn sessions() {
    let seed = a_seed();
    let draws = choose(3);
    let mut live = Session { opt: make(seed), state: ref_state(seed) };
    unsafe { DRAW_STATE[0] = live.state };
    if chance(1, 4) {
        // two optimisers from two threads
        probe("interleaved_threads");
        nontrivial();
        let seed2 = if chance(1, 3) { seed } else { a_seed() };
        let o2 = make(seed2);
        let solo: Vec<Out> = [(live.opt, 2, ref_state(seed)), (o2, 3, ref_state(seed2))]
            .into_iter()
            .flat_map(|(mut o, id, st)| {
                unsafe { DRAW_STATE[id] = st };
                (0..2).map(move |_| minimise_once(&mut o, id, draws, false).unwrap()).collect::<Vec<_>>()
            })
            .collect();
        unsafe { DRAW_STATE[1] = ref_state(seed2) };
        sched::set_switch_probability(1, 2);
        let o1 = live.opt;
        describe(format!("two threads, seeds {seed:x} {seed2:x}"));
        let hs = call("spawn", || {
            [(o1, 0usize), (o2, 1)]
                .into_iter()
                .map(|(mut o, id)| {
                    std::thread::spawn(move || {
                        for j in 0..2 {
                            let r = minimise_once(&mut o, id, draws, true);
                            core(|| unsafe { RESULTS[id * 2 + j] = Some(r) });
                        }
                    })
                })
                .collect::<Vec<_>>()
        });
        for h in hs {
            call("join", || h.join().unwrap());
        }
        for i in 0..4 {
            match unsafe { RESULTS[i].clone() } {
                Some(Ok(o)) if same(&o, &solo[i]) => {}
                o => violation("influenced", &format!("optimiser {} gave {o:?} while another ran, {:?} alone", i / 2, solo[i])),
            }
        }
        return;
    }
    let n = if chance(1, 40) {
        probe("long_session");
        range(20, 300)
    } else {
        range(2, 6)
    } as usize;
    describe(format!("session of {n} minimisations, seed {seed:x}"));
    // the uninterrupted session
    let mut truth = vec![];
    let mut panics = vec![];
    for _ in 0..n {
        panics.push(if chance(1, 4) { Some(choose(12)) } else { None });
    }
    let initial = live.clone();
    for p in &panics {
        unsafe { PANIC_IN[0] = *p };
        let r = minimise_once(&mut live.opt, 0, draws, false);
        if p.is_some() && unsafe { PANIC_IN[0] }.is_none() {
            probe("sampler_panic");
            fired("sampler_panic");
            check!(r.is_err(), "swallowed", "the sampler panicked and minimize returned {r:?}");
        } else if let Err(m) = &r {
            violation("panic", &format!("minimize panicked: {m}"));
        }
        if truth.iter().any(|t: &Result<Out, String>| t.is_err()) && r.is_ok() {
            probe("continued_after_panic");
        }
        unsafe { PANIC_IN[0] = None };
        truth.push(r);
    }
    // the same session, stopped and restarted from copies, with another optimiser used in between
    let mut cur = initial.opt;
    let mut st = initial.state;
    let seed2 = a_seed();
    let mut other = make(seed2);
    unsafe { DRAW_STATE[1] = ref_state(seed2) };
    for (i, p) in panics.iter().enumerate() {
        if chance(1, 3) {
            probe("alternated");
            nontrivial();
            if let Err(m) = minimise_once(&mut other, 1, 1, false) {
                violation("panic", &format!("minimize panicked: {m}"));
            }
        }
        if chance(1, 2) {
            // the process stops here; work done after the copy was taken is lost and repeated
            let copy = cur;
            if chance(1, 2) {
                unsafe { DRAW_STATE[0] = st };
                let _ = minimise_once(&mut cur, 0, draws, false);
            }
            drop(std::mem::replace(&mut cur, copy));
            probe("restarted");
            fired("crash_restart");
        }
        unsafe {
            DRAW_STATE[0] = st;
            PANIC_IN[0] = *p;
        }
        let r = minimise_once(&mut cur, 0, draws, false);
        unsafe { PANIC_IN[0] = None };
        st = unsafe { DRAW_STATE[0] };
        let ok = match (&r, &truth[i]) {
            (Ok(a), Ok(b)) => same(a, b),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        check!(ok, "not-resumed", "minimisation {i} of the restarted session gave {r:?}, the uninterrupted one {:?}", truth[i]);
        probe("resumed_identical");
    }
}
