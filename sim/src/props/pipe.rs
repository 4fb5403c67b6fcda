//! C29: loggers and a live plotter tailing their log, end to end.
use super::bench::{a_sample, a_value, Sample};
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_benchmark::performance::sim_api::{PowerCsv, TimingCsv};
use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter, PlotStyle};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        run: pipeline,
        quick: 12_000,
        thorough: 400_000,
        rule: "Threads log generated samples to a timing or power log while a live plotter tails it under random schedules, short and interrupted I/O, failing reads, clock steps, log restarts (new file or truncation) and a crash of the logging process; after every poll the series are compared with the history of logging calls.",
        want: &["threads", "timing", "power", "poll_grew", "poll_during_call", "poll_err", "restart_new_file", "restart_truncate", "restart_mid_poll", "crash", "after_crash", "clock_step", "column_switch", "empty_column", "odd_value", "short_write", "short_read", "eintr", "instruction_preemption", "strict_poll", "all_shown", "equal_samples"],
        real: &["aether_benchmark::performance (TimingCsv, PowerCsv, clock)", "aether_viz::CsvRealtimePlotter", "std Mutex, threads and file I/O above libc"],
        stub: &["libc file calls: in-memory file system and disk", "clock_gettime, nanosleep, futex, pthread_create/join"],
        assume: &["stage and source names hold no comma or line break", "minstant reads the system clock", "an in-place restart of a log is followed by a poll before new samples are logged"],
    }]
}
const T_PATH: &str = "/sim/log/timing.csv";
const P_PATH: &str = "/sim/log/power.csv";
const COLS: [&str; 2] = ["power_W", "energy_J_total"];

struct Entry {
    s: Sample,
    thread: usize,
    session: usize,
    /// position of the call's begin and end in the history (0: not yet)
    begun: u64,
    ended: u64,
    windows: Vec<(i128, i128)>,
}
enum Logs {
    T(TimingCsv),
    P(PowerCsv),
}
#[derive(Default)]
struct World {
    e: Vec<Entry>,
    seq: u64,
    power: bool,
    repeating: bool,
    /// even: the log is in place; odd: it is being replaced
    changes: u64,
    session: usize,
    logs: Vec<Arc<Logs>>,
    steps_left: u64,
    back: u64,
    crash_at: u64,
    seen_ops: u64,
    dead: bool,
    polling: bool,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
fn path() -> &'static str {
    if w().power {
        P_PATH
    } else {
        T_PATH
    }
}
fn begin_restart() {
    if w().changes % 2 == 0 {
        w().changes += 1;
    }
}
/// Starts a log; the caller is code under test.
fn open_log() {
    let power = core(|| {
        begin_restart();
        w().power
    });
    let l = if power { Logs::P(PowerCsv::new(P_PATH)) } else { Logs::T(TimingCsv::new(T_PATH)) };
    let l = Arc::new(l);
    core(|| {
        let ww = w();
        ww.logs.push(l);
        ww.session = ww.logs.len() - 1;
        ww.changes += 1;
        ev(|| format!("log session {}", w().session));
    });
}
fn log_one(i: usize) {
    let (l, s) = core(|| {
        let ww = w();
        ww.seq += 1;
        let (seq, session) = (ww.seq, ww.session);
        let e = &mut ww.e[i];
        e.session = session;
        e.begun = seq;
        e.thread = sched::current();
        e.windows = vec![(sim().real, i128::MAX)];
        (ww.logs[session].clone(), e.s.clone())
    });
    match &*l {
        Logs::P(p) => p.sample(&s.name, s.a, s.b),
        Logs::T(t) => t.timing_ms(&s.name, s.a.unwrap()),
    }
    core(|| {
        let ww = w();
        ww.seq += 1;
        let seq = ww.seq;
        let e = &mut ww.e[i];
        e.ended = seq;
        e.windows.last_mut().unwrap().1 = sim().real;
        // the log itself lives on in `logs`
        drop((l, s));
    });
}
fn actor(_v: &mut Vfs, op: Op) {
    let ww = w();
    if ww.steps_left > 0 && chance(1, 40) {
        ww.steps_left -= 1;
        let size = pick(&[20_000i128, 3_000_000, 900_000_000, 86_400_000_000_000]);
        let back = chance(1, 2);
        let was = sim().real;
        step_real(if back { -size } else { size });
        ww.back += back as u64;
        for e in ww.e.iter_mut().filter(|e| e.begun > 0 && e.ended == 0) {
            e.windows.last_mut().unwrap().1 = was;
            e.windows.push((sim().real, i128::MAX));
        }
        probe("clock_step");
    }
    if ww.crash_at > 0 && !ww.dead && sched::current() != 0 {
        ww.seen_ops += 1;
        if ww.seen_ops + 1 == ww.crash_at && op == Op::Write {
            enable(Fault::ShortWrite, 1, 1);
        }
        if ww.seen_ops >= ww.crash_at {
            ww.dead = true;
            fired("process_crash");
            probe("crash");
            ev(|| "the logging process dies".into());
            sim().in_actor = false;
            sched::die();
        }
    }
}
fn transparent() {
    enable(Fault::ShortWrite, 1, 4);
    enable(Fault::ShortRead, 1, 5);
    enable(Fault::Eintr, 1, 10);
}
fn pause(ns: u64) {
    if ns > 0 {
        std::thread::sleep(std::time::Duration::from_nanos(ns));
    }
}
fn visible(s: &Sample, cols: &[String], power: bool) -> Option<Vec<u64>> {
    let v: Option<Vec<f64>> = if power { cols.iter().map(|c| if c == COLS[0] { s.a } else { s.b }).collect() } else { Some(vec![s.a.unwrap()]) };
    v.filter(|v| v.iter().all(|x| x.is_finite())).map(|v| v.iter().map(|x| x.to_bits()).collect())
}
fn in_window(e: &Entry, x: f64) -> bool {
    let slack = 1_000_000 + 1024;
    let st = x as i128;
    e.windows.iter().any(|(a, b)| st >= a - slack && (*b == i128::MAX || st <= b + slack))
}
struct Reader {
    p: CsvRealtimePlotter,
    cols: Vec<String>,
    last: Vec<usize>,
    last_raw: Vec<Vec<u64>>,
    polls: u64,
}
fn show(v: &[usize]) -> String {
    let names: Vec<String> = v.iter().map(|i| format!("#{i}(session {})", w().e[*i].session)).collect();
    if names.len() > 12 {
        format!("{} … {}", names[..6].join(" "), names[names.len() - 4..].join(" "))
    } else {
        names.join(" ")
    }
}
impl Reader {
    /// One poll; `must`: nothing can disturb it.
    fn poll(&mut self, faults: bool, switch: bool) {
        let (changes, session) = (w().changes, w().session);
        let before: Vec<usize> = (0..w().e.len()).filter(|i| w().e[*i].ended > 0 && w().e[*i].session == session).collect();
        let calls_open = w().e.iter().any(|e| e.begun > 0 && e.ended == 0);
        if faults {
            for f in [Fault::EioRead, Fault::OpenEio, Fault::OpenEmfile, Fault::OpenEnoent, Fault::OpenEacces, Fault::StatErr] {
                enable(f, 1, 10);
            }
            set_fault_budget(range(1, 2) as u32);
        }
        let hard = my_hard_faults();
        w().polling = true;
        let res = if switch {
            let n = range(1, 2) as usize;
            let first = choose(2) as usize;
            self.cols = (0..n).map(|k| COLS[(first + k) % 2].to_string()).collect();
            self.last.clear();
            probe("column_switch");
            let c = self.cols.clone();
            sut(|| self.p.set_y_columns(c).map(|_| true).map_err(|e| e.to_string()))
        } else {
            sut(|| self.p.update_once().map_err(|e| e.to_string()))
        };
        w().polling = false;
        self.polls += 1;
        faults_off();
        transparent();
        let faulted = my_hard_faults() > hard;
        let res = match res {
            Ok(r) => r,
            Err(m) => violation("panic", &format!("the plotter panicked: {m}")),
        };
        let stable = changes == w().changes && changes % 2 == 0;
        if !stable {
            probe("restart_mid_poll");
        }
        if calls_open {
            probe("poll_during_call");
        }
        // --- every point is one logged sample
        let ww = w();
        let mut by_value: BTreeMap<Vec<u64>, Vec<usize>> = BTreeMap::new();
        for (i, e) in ww.e.iter().enumerate() {
            if let Some(v) = visible(&e.s, &self.cols, ww.power) {
                by_value.entry(v).or_default().push(i);
            }
        }
        let (x, ys) = (self.p.x_values(), self.p.y_values());
        check!(ys.len() == self.cols.len() && ys.iter().all(|y| y.len() == x.len()), "misaligned", "{} x values, columns of {:?}", x.len(), ys.iter().map(|y| y.len()).collect::<Vec<_>>());
        let mut shown: Vec<usize> = vec![];
        // equal samples are only logged by one thread: its calls follow one another, so the points are the first samples of a log
        let raw: Vec<Vec<u64>> = (0..x.len()).map(|k| std::iter::once(&x[k]).chain(ys.iter().map(|y| &y[k])).map(|v| v.to_bits()).collect()).collect();
        let mapped: Option<Vec<usize>> = if ww.repeating {
            let strict = stable && !faulted && res.is_ok();
            let before = self.last.first().map(|i| ww.e[*i].session).filter(|_| !strict);
            before.into_iter().chain((0..ww.logs.len()).rev()).find_map(|s| {
                let of_log: Vec<usize> = (0..ww.e.len()).filter(|i| ww.e[*i].begun > 0 && ww.e[*i].session == s && visible(&ww.e[*i].s, &self.cols, ww.power).is_some()).take(raw.len()).collect();
                let fits = of_log.len() == raw.len() && of_log.iter().zip(&raw).zip(&x[..]).all(|((i, r), x)| visible(&ww.e[*i].s, &self.cols, ww.power).unwrap() == r[1..] && in_window(&ww.e[*i], *x));
                fits.then_some(of_log)
            })
        } else {
            None
        };
        if mapped.as_ref().is_some_and(|m| m.windows(2).any(|p| ww.e[p[0]].s.a == ww.e[p[1]].s.a && ww.e[p[0]].s.b == ww.e[p[1]].s.b)) {
            probe("equal_samples");
        }
        for k in 0..x.len() {
            let v: Vec<u64> = ys.iter().map(|y| y[k].to_bits()).collect();
            check!(!ww.repeating || mapped.is_some() || !by_value.contains_key(&v) || k + 1 < x.len(), "points-wrong", "after {res:?} the points are not the first samples of any log, in their order: {} points of {} samples", x.len(), ww.e.len());
            let Some(i) = mapped.as_ref().map(|m| m[k]).or_else(|| by_value.get(&v).map(|c| c[0])) else {
                violation("foreign-point", &format!("after {res:?} point {k} is ({}, {:?}), which no call logged", x[k], ys.iter().map(|y| y[k]).collect::<Vec<_>>()))
            };
            let e = &ww.e[i];
            check!(e.begun > 0, "point-invented", "point {k} belongs to sample #{i}, which has not been logged yet");
            check!(ww.repeating && mapped.is_none() || !shown.contains(&i), "point-repeated", "sample #{i} is shown twice: {}", show(&shown));
            check!(in_window(e, x[k]), "stamp-wrong", "sample #{i} was logged within {:?} but is shown at {}", e.windows, x[k]);
            shown.push(i);
        }
        if let Some(f) = shown.first() {
            let s = ww.e[*f].session;
            check!(shown.iter().all(|i| ww.e[*i].session == s), "blend", "samples of several logs are shown together: {}", show(&shown));
            if stable && !faulted && res.is_ok() {
                check!(s == session, "old-log", "the log was restarted before this poll, but the series are of the one before: {}", show(&shown));
            }
            // --- in the order the calls were made
            for (a, i) in shown.iter().enumerate() {
                for j in &shown[a + 1..] {
                    check!(ww.e[*j].ended == 0 || ww.e[*j].ended > ww.e[*i].begun, "order", "#{j} was logged before #{i} but is shown after it");
                }
            }
            if ww.back == 0 {
                check!(x.windows(2).all(|p| p[0] <= p[1]), "stamps-decrease", "the time axis runs backwards: {x:?}");
            }
            // --- without gaps
            for (i, e) in ww.e.iter().enumerate() {
                if e.begun > 0 && e.ended > 0 && e.session == s && !shown.contains(&i) && visible(&e.s, &self.cols, ww.power).is_some() {
                    if let Some(j) = shown.iter().find(|j| ww.e[**j].begun > e.ended) {
                        violation("gap", &format!("after {res:?} sample #{j} is shown but not #{i} {:?}, which was logged before it", e.s));
                    }
                }
            }
        }
        match &res {
            Ok(ch) => {
                check!(*ch || switch || if ww.repeating { raw == self.last_raw } else { shown == self.last }, "unreported-change", "the series changed although the poll said they did not");
                if stable && !faulted {
                    probe("strict_poll");
                    for i in &before {
                        check!(shown.contains(i) || visible(&ww.e[*i].s, &self.cols, ww.power).is_none(), "sample-missing", "sample #{i} {:?} was logged before the poll began but is not shown: {}", ww.e[*i].s, show(&shown));
                    }
                }
            }
            Err(e) => {
                probe("poll_err");
                check!(faulted, "spurious-error", "the poll failed without a fault: {e}");
            }
        }
        let same = !shown.is_empty() && !self.last.is_empty() && ww.e[shown[0]].session == ww.e[self.last[0]].session;
        if same {
            let n = shown.len().min(self.last.len());
            check!(shown[..n] == self.last[..n], "reordered", "shown before: {}; now: {}", show(&self.last), show(&shown));
        }
        if shown.len() > self.last.len() {
            probe("poll_grew");
        }
        ev(|| format!("poll -> {res:?}: {}", show(&shown)));
        self.last = shown;
        self.last_raw = raw;
    }
}
fn pipeline() {
    let threads = range(1, 3) as usize;
    let power = chance(1, 2);
    let repeating = threads == 1 && chance(2, 3);
    unsafe { W = Some(World { power, repeating, ..Default::default() }) };
    probe(if power { "power" } else { "timing" });
    let phases = range(1, 3);
    let preempt = chance(1, 16);
    let crash = chance(1, 4);
    let read_faults = chance(1, 2);
    let switching = power && chance(1, 4);
    let mut used = std::collections::BTreeSet::new();
    let mut unique = |v: f64| -> f64 {
        let mut v = v;
        while v.is_finite() && !used.insert(v.to_bits()) {
            v = 1000.0 + used.len() as f64;
        }
        v
    };
    let mut new_entry = |th: usize, k: usize| -> usize {
        let mut s = a_sample(th, k);
        s.power = power;
        if !power {
            s.a = Some(s.a.unwrap_or_else(a_value));
            s.b = None;
        }
        if repeating {
            // a few values, over and over
            let pool = [1.5, 1.5, 0.0, -0.0, 250.0, 1e-300, f64::NAN];
            s.a = s.a.map(|_| pool[choose(pool.len() as u64) as usize]);
            s.b = s.b.map(|_| pool[choose(4) as usize]);
        } else {
            s.a = s.a.map(&mut unique);
            s.b = s.b.map(&mut unique);
        }
        w().e.push(Entry { s, thread: 0, session: 0, begun: 0, ended: 0, windows: vec![] });
        w().e.len() - 1
    };
    sim().vfs.mkdirs("/sim/log");
    sim().fault_thread = Some(0);
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    transparent();
    let warm = chance(7, 8);
    if let Err(m) = sut(aether_benchmark::performance::unix_nanos_now) {
        violation("panic", &m);
    }
    let cols: Vec<String> = if power { vec![COLS[choose(2) as usize].to_string()] } else { vec!["elapsed_ms".into()] };
    let cfg = CsvRealtimeConfig {
        csv_path: path().into(),
        output_path: "/sim/log/out.svg".into(),
        title: "t".into(),
        x_column: "unix_ns".into(),
        y_columns: cols.clone(),
        x_label: None,
        y_label: None,
        style: PlotStyle::Line,
        has_header: true,
        poll_hz: 5.0,
        max_points: None,
    };
    let mut r = Reader { p: CsvRealtimePlotter::new(cfg), cols, last: vec![], last_raw: vec![], polls: 0 };
    if threads > 1 {
        probe("threads");
    }
    describe(format!("{threads} threads, {phases} phases, power {power}, crash {crash}, read faults {read_faults}, switching {switching}, preemption {preempt}"));
    if chance(1, 8) {
        r.poll(false, false); // before there is a log
    }
    if warm && chance(1, 3) {
        w().steps_left = range(1, 3);
    }
    sim().actor = Some(Box::new(actor));
    if preempt {
        step::preemptive(pick(&[60, 200, 500]));
    }
    for phase in 0..phases {
        // --- a new log
        if phase > 0 {
            let truncate = chance(1, 2);
            if truncate {
                probe("restart_truncate");
            } else {
                probe("restart_new_file");
                begin_restart();
                sim().vfs.remove(path());
                if chance(1, 4) {
                    r.poll(read_faults, false);
                }
            }
            w().session = usize::MAX - 1;
            if let Err(m) = sut(open_log) {
                violation("panic", &format!("opening the log panicked: {m}"));
            }
            if truncate {
                r.poll(false, false);
            }
        } else if let Err(m) = sut(open_log) {
            violation("panic", &format!("opening the log panicked: {m}"));
        }
        // --- loggers run, the plotter polls
        let last_phase = phase + 1 == phases;
        let mut plans: Vec<Vec<(usize, bool)>> = vec![];
        for th in 0..threads {
            let n = range(1, if preempt { 4 } else { 8 }) as usize;
            plans.push((0..n).map(|k| (new_entry(th, phase as usize * 100 + k), th == 0 && chance(1, 12))).collect());
        }
        if crash && last_phase {
            let n: usize = plans.iter().map(|p| p.len()).sum();
            w().crash_at = range(1, 4 + 6 * n as u64);
            w().seen_ops = 0;
        }
        let hs: Vec<std::thread::JoinHandle<()>> = match sut(|| {
            plans
                .into_iter()
                .map(|p| {
                    std::thread::spawn(move || {
                        for (i, restart) in p {
                            let ns = core(|| w().e[i].s.pause);
                            pause(ns);
                            if restart {
                                core(|| {
                                    probe("restart_new_file");
                                    begin_restart();
                                    sim().vfs.remove(path());
                                    ev(|| "log removed".into());
                                });
                                open_log();
                            }
                            log_one(i);
                        }
                    })
                })
                .collect()
        }) {
            Ok(h) => h,
            Err(m) => harness_error(&m),
        };
        let mut rounds = 0;
        while !w().dead && hs.iter().any(|h| !h.is_finished()) {
            rounds += 1;
            check!(rounds < 5_000, "blocked", "the logging threads did not finish");
            if chance(2, 3) {
                r.poll(read_faults && chance(1, 2), switching && chance(1, 6));
            }
            sched::idle(log_choice(60_000_000).max(1_000));
        }
        if w().dead {
            // only the plotter is left
            sched::freeze_others();
            transparent();
            break;
        }
        for h in hs {
            if let Ok(Err(_)) = sut(|| h.join()) {
                violation("panic", "a logging call panicked");
            }
        }
        if !last_phase && chance(1, 2) {
            r.poll(read_faults, switching && chance(1, 6));
        }
    }
    w().crash_at = 0;
    // --- the writers are done
    for _ in 0..2 {
        r.poll(false, false);
    }
    if w().dead {
        probe("after_crash");
        if chance(1, 2) {
            // the logging program is started again
            begin_restart();
            if chance(1, 2) {
                sim().vfs.remove(path());
            }
            w().session = usize::MAX - 1;
            if let Err(m) = sut(open_log) {
                violation("panic", &format!("opening the log panicked: {m}"));
            }
            r.poll(false, false);
            for k in 0..range(1, 3) {
                let i = new_entry(7, 1000 + k as usize);
                if let Err(m) = sut(|| log_one(i)) {
                    violation("panic", &format!("logging panicked: {m}"));
                }
                if chance(1, 2) {
                    r.poll(read_faults, false);
                }
            }
        }
    }
    sim().actor = None;
    r.poll(false, false);
    r.poll(false, false);
    let s = w().session;
    if w().changes % 2 == 0 {
        let want: Vec<usize> = (0..w().e.len()).filter(|i| w().e[*i].session == s && w().e[*i].ended > 0 && visible(&w().e[*i].s, &r.cols, power).is_some()).collect();
        for i in &want {
            check!(r.last.contains(i), "sample-missing", "in the end sample #{i} is not shown: {}", show(&r.last));
        }
        if want.len() > 1 {
            probe("all_shown");
        }
    }
}
