//! C16-C19: timing and power logs, spans and energy sensors.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_benchmark::performance::sim_api::{CPUEnergy, PowerCsv, TimeSpan, TimingCsv};
use std::sync::Arc;

const REAL: &[&str] = &["aether_benchmark::performance (TimingCsv, PowerCsv, TimeSpan, CPUEnergy, clock)", "minstant in its system-clock mode, once_cell", "std Mutex, threads and file I/O above libc"];
const STUB: &[&str] = &["libc file calls: in-memory file system and disk", "clock_gettime, nanosleep, futex, pthread_create/join", "the sensor files under /sys"];
const ASSUME: &[&str] = &["stage and source names hold no comma or line break: the log format has no quoting", "minstant reads the system clock (its mode where no stable TSC is offered)"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 100_000, thorough: 2_000_000, rule: "", want: &[], real: REAL, stub: STUB, assume: ASSUME };
    vec![
        Prop { id: "C16", run: rows_whole, quick: 12_000, thorough: 400_000,
            rule: "Several threads log generated samples to shared timing and power logs under random schedules (some preempted at any instruction) with short and interrupted writes; the files are then compared row by row with what each thread logged and when.",
            want: &["threads", "timing", "power", "empty_column", "odd_value", "short_write", "eintr", "stamp_checked", "instruction_preemption", "same_file_order", "clock_step", "back_step", "fall_after_back_step", "pipe", "repeated_sample"], ..base },
        Prop { id: "C17", run: disk,
            rule: "Threads log while writes fail, fill the disk or are cut short, or the process dies before or inside any system call; rows lost must be exactly those whose own write failed or was in progress.",
            want: &["fault_mode", "crash_mode", "crash_mid_write", "row_lost", "row_after_fault", "header_fault", "threads", "enospc", "eio_write", "short_write", "spans_under_fault", "long_outage", "old_log"], ..base },
        Prop { id: "C18", run: spans,
            rule: "Generated trees of spans on several threads end normally, early, by panic, by explicit drop or on another thread, with sleeps, clock steps and slow writes; each must give one row with the time that passed.",
            want: &["nested", "early", "panic", "explicit", "moved", "threads", "clock_step", "back_step", "zero_length", "long", "duration_checked", "spans_under_fault", "same_name"], ..base },
        Prop { id: "C19", run: sensors,
            rule: "Sensor trees with links, cycles, decoys and damage are scanned and read while entries appear and vanish and any call fails or is interrupted.",
            want: &["powercap", "linked_zone", "hwmon", "none", "cycle", "decoy_hwmon", "hotplug", "read_value", "read_none", "read_garbage", "faulted_scan", "faulted_read", "big_tree", "preferred", "short_read", "eintr", "readdir_error"], ..base },
    ]
}

// ------------------------------------------------------------------ logs
const T_PATH: &str = "/sim/log/timing.csv";
const P_PATH: &str = "/sim/log/power.csv";
const T_HEAD: &str = "unix_ns,stage,elapsed_ms";
const P_HEAD: &str = "unix_ns,source,power_W,energy_J_total";

struct Logs {
    t: TimingCsv,
    p: PowerCsv,
}
#[derive(Clone, Debug)]
pub(super) struct Sample {
    /// false: timing log, true: power log
    pub(super) power: bool,
    pub(super) name: String,
    pub(super) a: Option<f64>,
    pub(super) b: Option<f64>,
    /// simulated time to pass before logging
    pub(super) pause: u64,
}
#[derive(Clone, Debug)]
struct Logged {
    s: Sample,
    thread: usize,
    /// wall clock before and after the call
    from: i128,
    to: i128,
    /// stretches of wall-clock time the call lived through before the clock was stepped under it
    before_steps: Vec<(i128, i128)>,
    started: bool,
    returned: bool,
    /// hard disk faults met by the call itself
    hard: u64,
}
static mut LOG: Vec<Logged> = Vec::new();
#[allow(static_mut_refs)]
fn log() -> &'static mut Vec<Logged> {
    unsafe { &mut LOG }
}
pub(super) fn a_value() -> f64 {
    match choose(12) {
        0 => 0.0,
        1 => choose(1_000_000) as f64 / 1000.0,
        2 => -(choose(1_000_000) as f64) / 7.0,
        3 => choose(1 << 53) as f64 * 2f64.powi(-60),
        4 => 1e300 * (1.0 + choose(1000) as f64),
        5 => f64::MIN_POSITIVE / 4.0,
        6 => -0.0,
        7 => {
            probe("odd_value");
            pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])
        }
        8 => f64::from_bits(choose(0x7fe0_0000_0000_0000)),
        _ => choose(1 << 40) as f64 * 1e-6 / 3.0,
    }
}
pub(super) fn a_sample(th: usize, k: usize) -> Sample {
    let base = pick(&["fft", " fft ", "\tpropagate\t", "propagate state", "phase-µ", "a.b:c", "powercap:/sys/class/powercap/intel-rapl:0/energy_uj", "x", "日本語のステージ名", "none"]);
    let long = if chance(1, 12) { "long-".repeat(if chance(1, 6) { range(1_000, 4_000) } else { range(10, 60) } as usize) } else { String::new() };
    let power = chance(1, 3);
    probe(if power { "power" } else { "timing" });
    let mut o = || {
        if chance(1, 4) {
            probe("empty_column");
            None
        } else {
            Some(a_value())
        }
    };
    let (a, b) = if power { (o(), o()) } else { (Some(a_value()), None) };
    Sample { power, name: format!("{base} {long}{th}#{k}{}", if chance(1, 12) { " " } else { "" }), a, b, pause: if chance(1, 3) { log_choice(50_000_000) } else { 0 } }
}
/// Logs of an earlier run lie where the new ones will be written.
fn old_logs() {
    sim().vfs.mkdirs("/sim/log");
    if chance(1, 4) {
        probe("old_log");
        for (p, h) in [(T_PATH, T_HEAD), (P_PATH, P_HEAD)] {
            let n = choose(40);
            let mut t = if chance(1, 2) { format!("{h}\n") } else { String::new() };
            for k in 0..n {
                t.push_str(&format!("{},an old stage,{}\n", 1_600_000_000_000_000_000u64 + k, k as f64 * 0.5));
            }
            if chance(1, 2) {
                t.push_str("16000000000,torn");
            }
            sim().vfs.put(p, t.as_bytes());
        }
    }
}
fn make_logs() -> Result<Logs, String> {
    old_logs();
    sut(|| Logs { t: TimingCsv::new(T_PATH), p: PowerCsv::new(P_PATH) })
}
fn real_now() -> i128 {
    core(|| sim().real)
}
/// Body of one logging call, recorded. Runs as code under test (it may be preempted anywhere).
fn log_one(l: &Logs, i: usize) {
    let (s, hard) = core(|| {
        let e = &mut log()[i];
        e.started = true;
        e.thread = sched::current();
        e.from = sim().real;
        (e.s.clone(), my_hard_faults())
    });
    if s.power {
        l.p.sample(&s.name, s.a, s.b);
    } else {
        l.t.timing_ms(&s.name, s.a.unwrap());
    }
    core(|| {
        let e = &mut log()[i];
        e.to = sim().real;
        e.hard = my_hard_faults() - hard;
        e.returned = true;
        drop(s);
    });
}
struct Row<'a> {
    text: &'a str,
    stamp: Option<u64>,
    used: bool,
}
fn split(bytes: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut lines: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    let tail = lines.pop().unwrap_or(&[]);
    (lines, tail)
}
fn f_eq(text: &str, v: Option<f64>) -> bool {
    match v {
        None => text.is_empty(),
        Some(v) => text.parse::<f64>().map_or(false, |x| x.to_bits() == v.to_bits() || (x.is_nan() && v.is_nan())),
    }
}
/// The time stamp if the row is this sample's.
fn matches(text: &str, s: &Sample) -> Option<u64> {
    let mut f = text.split(',');
    let stamp = f.next()?.parse::<u64>().ok()?;
    if f.next()? != s.name || !f_eq(f.next()?, s.a) {
        return None;
    }
    if s.power && !f_eq(f.next()?, s.b) {
        return None;
    }
    f.next().is_none().then_some(stamp)
}
/// Whether `text` could be the beginning of the sample's row.
fn fragment(text: &[u8], s: &Sample) -> bool {
    let text = String::from_utf8_lossy(text);
    let text = text.trim_end_matches('\u{fffd}');
    let d = text.find(|c: char| !c.is_ascii_digit()).unwrap_or(text.len());
    let rest = &text[d..];
    let f: Vec<String> = if s.power { [s.a, s.b].iter().map(|v| v.map_or(String::new(), |v| v.to_string())).collect() } else { vec![s.a.unwrap().to_string()] };
    format!(",{},{}", s.name, f.join(",")).starts_with(rest)
}
struct Rules {
    /// rows whose own write met a hard fault may be missing
    faults: bool,
    /// the process died: a torn row at the end, rows of unfinished calls may be there
    crashed: bool,
    header_hard: [u64; 2],
    stamps: bool,
    order: bool,
    /// how often the wall clock was set back
    back_steps: usize,
}
fn verify(power: bool, r: &Rules) {
    let path = if power { P_PATH } else { T_PATH };
    let head = if power { P_HEAD } else { T_HEAD };
    let bytes = sim().vfs.data(path).cloned().unwrap_or_default();
    let (lines, tail) = split(&bytes);
    let entries: Vec<usize> = (0..log().len()).filter(|i| log()[*i].s.power == power).collect();
    let header_may_fail = r.header_hard[power as usize] > 0;
    let mut start = 0;
    if lines.first().map_or(false, |l| *l == head.as_bytes()) {
        start = 1;
    } else if header_may_fail {
        if lines.first().map_or(false, |l| head.as_bytes().starts_with(l)) {
            start = 1; // a torn header on a line of its own
        }
    } else {
        violation("header", &format!("{path} does not start with its header: {:?}", lines.first().map(|l| String::from_utf8_lossy(l).into_owned())));
    }
    let mut found = vec![0u32; entries.len()];
    let mut order: Vec<(usize, u64)> = vec![]; // entry, stamp
    let mut torn: Vec<Vec<u8>> = vec![];
    for l in &lines[start..] {
        let m = std::str::from_utf8(l).ok().and_then(|t| {
            // among equal samples the next one expected
            let mut all = entries.iter().enumerate().filter_map(|(k, i)| matches(t, &log()[*i].s).map(|s| (k, s)));
            let first = all.next();
            first.filter(|f| found[f.0] == 0).or_else(|| all.find(|f| found[f.0] == 0)).or(first)
        });
        match m {
            Some((k, stamp)) => {
                found[k] += 1;
                order.push((entries[k], stamp));
            }
            None => torn.push(l.to_vec()),
        }
    }
    if !tail.is_empty() {
        check!(r.crashed || r.faults, "torn-row", "{path} ends in an unfinished row {:?}", String::from_utf8_lossy(tail));
        torn.push(tail.to_vec());
    }
    let mut excused: Vec<usize> = vec![];
    for (k, i) in entries.iter().enumerate() {
        let e = &log()[*i];
        check!(found[k] <= 1, "row-duplicated", "sample {:?} appears {} times in {path}", e.s, found[k]);
        if found[k] == 1 {
            check!(e.started, "row-invented", "{path} holds a row of a call that was never made: {:?}", e.s);
            continue;
        }
        if !e.started {
            continue;
        }
        let may = (r.faults && e.hard > 0) || (r.crashed && !e.returned);
        check!(may, if r.crashed { "row-lost-in-crash" } else { "row-lost" }, "sample {:?} of thread {} is missing from {path} or damaged (call returned: {}, disk faults in it: {}); rows not recognised: {:?}", e.s, e.thread, e.returned, e.hard, torn.iter().map(|t| String::from_utf8_lossy(t).into_owned()).collect::<Vec<_>>());
        if e.hard > 0 {
            probe("row_lost");
        }
        excused.push(*i);
    }
    for t in &torn {
        match excused.iter().position(|i| fragment(t, &log()[*i].s)) {
            Some(p) => {
                excused.remove(p);
            }
            None => violation("foreign-row", &format!("{path} holds {:?}, which is neither a logged sample nor the beginning of one that could not be written", String::from_utf8_lossy(t))),
        }
    }
    // order of each thread's rows; time stamps
    if r.order {
        let mut last: std::collections::BTreeMap<usize, usize> = Default::default();
        for (i, _) in &order {
            let th = log()[*i].thread;
            if let Some(p) = last.insert(th, *i) {
                check!(p < *i, "thread-order", "{path}: thread {th} logged {:?} before {:?}, the file has them the other way round", log()[*i].s.name, log()[p].s.name);
                probe("same_file_order");
            }
        }
    }
    if r.stamps {
        let falls: Vec<_> = order.windows(2).filter(|w| w[0].1 > w[1].1).collect();
        if let Some(w) = falls.get(r.back_steps) {
            violation("stamps-decrease", &format!("{path}: {} is followed by {} ({:?}, {:?}); the clock was set back {} times", w[0].1, w[1].1, log()[w[0].0].s.name, log()[w[1].0].s.name, r.back_steps));
        }
        if !falls.is_empty() {
            probe("fall_after_back_step");
        }
        for (i, stamp) in &order {
            let e = &log()[*i];
            let st = *stamp as i128;
            // 1 ms of slack: the clock anchor is read in two steps
            let ok = e.before_steps.iter().chain([&(e.from, e.to)]).any(|(a, b)| st >= a - 1_000_000 && st <= b + 1_000_000);
            check!(!e.returned || ok, "stamp-wrong", "{path}: {:?} was logged between {} and {} (before clock steps in it: {:?}) but stamped {stamp}", e.s.name, e.from, e.to, e.before_steps);
            probe("stamp_checked");
        }
    }
}
/// `equal`: some samples are logged twice in a row
fn plan(threads: usize, max: u64, equal: bool) -> Vec<Vec<usize>> {
    let mut p = vec![];
    for th in 0..threads {
        let mut v = vec![];
        for k in 0..range(1, max) {
            v.push(log().len());
            let s = match v.iter().rev().nth(1) {
                Some(i) if equal && chance(1, 4) => {
                    probe("repeated_sample");
                    log()[*i as usize].s.clone()
                }
                _ => a_sample(th, k as usize),
            };
            log().push(Logged { s, thread: th, from: 0, to: 0, before_steps: vec![], started: false, returned: false, hard: 0 });
        }
        p.push(v);
    }
    p
}
fn pause(ns: u64) {
    if ns > 0 {
        std::thread::sleep(std::time::Duration::from_nanos(ns));
    }
}
fn spawn_loggers(l: &Arc<Logs>, p: &[Vec<usize>]) -> Vec<std::thread::JoinHandle<()>> {
    match sut(|| {
        p.iter()
            .map(|v| {
                let (l, v) = (l.clone(), v.clone());
                std::thread::spawn(move || {
                    for i in v {
                        let ns = core(|| log()[i].s.pause);
                        pause(ns);
                        log_one(&l, i);
                    }
                })
            })
            .collect()
    }) {
        Ok(h) => h,
        Err(m) => harness_error(&m),
    }
}
fn warm_clock() {
    let _ = sut(aether_benchmark::performance::unix_nanos_now);
}
/// The wall clock is set while calls are in progress.
fn step_under_calls(_v: &mut Vfs, _op: Op) {
    if unsafe { CLOCK_LEFT } == 0 || !chance(1, 30) {
        return;
    }
    unsafe { CLOCK_LEFT -= 1 };
    let size = pick(&[20_000i128, 3_000_000, 900_000_000, 5_000_000_000, 86_400_000_000_000]);
    let back = chance(1, 2) && sim().real > size + 86_400_000_000_000;
    let was = sim().real;
    step_real(if back { -size } else { size });
    if back {
        unsafe { BACK += 1 };
        probe("back_step");
    }
    for e in log().iter_mut().filter(|e| e.started && !e.returned) {
        e.before_steps.push((e.from, was));
        e.from = sim().real;
    }
    probe("clock_step");
}
static mut BACK: usize = 0;
fn rows_whole() {
    let threads = range(1, 4) as usize;
    let preempt = chance(1, 16);
    let p = plan(threads, if preempt { 4 } else { 12 }, chance(1, 2));
    enable(Fault::ShortWrite, 1, pick(&[2, 3, 8]));
    enable(Fault::Eintr, 1, pick(&[4, 12]));
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    describe(format!("{threads} threads, {} samples, preemption {preempt}, first {:?}", log().len(), log()[0].s));
    let warm = chance(3, 4);
    if warm {
        warm_clock();
    }
    let l = match make_logs() {
        Ok(l) => Arc::new(l),
        Err(m) => violation("panic", &format!("opening the logs panicked: {m}")),
    };
    if threads > 1 {
        probe("threads");
    }
    if chance(1, 6) {
        // the log is a pipe or a terminal
        sim().vfs.unseekable = true;
        probe("pipe");
    }
    let steps = warm && chance(1, 3);
    if steps {
        unsafe { CLOCK_LEFT = range(1, 4) };
        sim().actor = Some(Box::new(step_under_calls));
    }
    if preempt {
        step::preemptive(pick(&[30, 150, 400]));
    }
    for h in spawn_loggers(&l, &p) {
        if let Ok(Err(_)) = sut(|| h.join()) {
            violation("panic", "a logging call panicked");
        }
    }
    sim().actor = None;
    let r = Rules { faults: false, crashed: false, header_hard: [0, 0], stamps: warm, order: true, back_steps: unsafe { BACK } };
    verify(false, &r);
    verify(true, &r);
}

// ------------------------------------------------------------------ C17
struct Crash {
    at: u64,
    seen: u64,
    partial: bool,
    armed: bool,
    next: bool,
    dead: bool,
}
static mut CR: Crash = Crash { at: 0, seen: 0, partial: false, armed: false, next: false, dead: false };
#[allow(static_mut_refs)]
fn cr() -> &'static mut Crash {
    unsafe { &mut CR }
}
fn crash_actor(_v: &mut Vfs, op: Op) {
    let c = cr();
    if !c.armed || c.dead || sched::current() == 0 {
        return;
    }
    if c.next {
        c.dead = true;
    } else {
        c.seen += 1;
        if c.seen < c.at {
            return;
        }
        if c.partial && op != Op::Write {
            return;
        }
        if c.partial {
            // this write puts out part of its data, then the process dies
            enable(Fault::ShortWrite, 1, 1);
            c.next = true;
            probe("crash_mid_write");
            return;
        }
        c.dead = true;
    }
    fired("process_crash");
    ev(|| "process dies".into());
    sim().in_actor = false;
    sched::die();
}
fn disk() {
    sim().op_limit = 300_000;
    let threads = range(1, 3) as usize;
    let crash = chance(1, 2);
    let mut p = plan(threads, 10, false);
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    enable(Fault::ShortWrite, 1, pick(&[2, 4, 12]));
    enable(Fault::Eintr, 1, pick(&[6, 30]));
    if chance(1, 2) {
        warm_clock();
    }
    if threads > 1 {
        probe("threads");
    }
    let mut header_hard = [0u64; 2];
    let header_faults = !crash && chance(1, 6);
    if header_faults {
        enable(Fault::EioWrite, 1, 2);
        enable(Fault::Enospc, 1, 2);
        set_fault_budget(2);
    }
    old_logs();
    let h0 = my_hard_faults();
    let t = sut(|| TimingCsv::new(T_PATH));
    header_hard[0] = my_hard_faults() - h0;
    let pw = sut(|| PowerCsv::new(P_PATH));
    header_hard[1] = my_hard_faults() - h0 - header_hard[0];
    if header_hard != [0, 0] {
        probe("header_fault");
    }
    let (t, pw) = match (t, pw) {
        (Ok(t), Ok(p)) => (t, p),
        (Err(m), _) | (_, Err(m)) => violation("logging-failed", &format!("creating a log panicked when its header could not be written: {m}")),
    };
    let l = Arc::new(Logs { t, p: pw });
    describe(format!("{} threads, {} samples, {}", threads, log().len(), if crash { "crash" } else { "disk faults" }));
    if crash {
        probe("crash_mode");
        let c = cr();
        c.at = range(1, 8 + 14 * log().len() as u64);
        c.partial = chance(1, 3);
        c.armed = true;
        sim().actor = Some(Box::new(crash_actor));
        let hs = spawn_loggers(&l, &p);
        let n = hs.len();
        let mut waited = 0;
        while !cr().dead && hs.iter().any(|h| !h.is_finished()) {
            sched::idle(5_000_000);
            waited += 1;
            check!(waited < 100_000, "blocked", "the logging threads did not finish ({n} threads)");
        }
        // the file is what the kernel has; nothing of the process runs any more
        sched::freeze_others();
        sim().actor = None;
        faults_off();
        let r = Rules { faults: false, crashed: cr().dead, header_hard, stamps: false, order: true, back_steps: 0 };
        if !cr().dead {
            for e in log().iter() {
                check!(e.returned, "logging-failed", "a logging call never returned: {:?}", e.s);
            }
        }
        verify(false, &r);
        verify(true, &r);
        return;
    }
    probe("fault_mode");
    let d = pick(&[1, 2, 4, 10, 25]);
    enable(Fault::EioWrite, 1, d);
    enable(Fault::Enospc, 1, pick(&[2, 6, 20]));
    // a few failing writes, or a disk that stays full for a long time
    let outage = chance(1, 4);
    if outage {
        probe("long_outage");
    }
    set_fault_budget(if outage { range(7, 120) as u32 } else { range(1, 6) as u32 });
    let with_spans = chance(1, 4);
    for h in spawn_loggers(&l, &p) {
        if let Ok(Err(_)) = sut(|| h.join()) {
            violation("logging-failed", "a logging call panicked when the disk failed");
        }
    }
    if with_spans {
        probe("spans_under_fault");
        set_fault_budget(3);
        if let Err(m) = sut(|| {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _s = TimeSpan::new("unwound span", &l.t);
                panic!("user panic");
            }));
        }) {
            violation("logging-failed", &format!("a span that could not be logged panicked: {m}"));
        }
    }
    // the disk works again: later rows must be intact
    faults_off();
    sim().vfs.free = None;
    let from = log().len();
    for k in 0..range(0, 3) {
        let s = a_sample(9, k as usize);
        log().push(Logged { s, thread: 9, from: 0, to: 0, before_steps: vec![], started: false, returned: false, hard: 0 });
    }
    let later: Vec<usize> = (from..log().len()).collect();
    p.push(later.clone());
    for i in later {
        if let Err(m) = sut(|| log_one(&l, i)) {
            violation("logging-failed", &format!("logging after a disk fault panicked: {m}"));
        }
        probe("row_after_fault");
    }
    if with_spans {
        // the span's own row: checked by hand, its value is not known in advance
        let bytes = sim().vfs.data(T_PATH).cloned().unwrap_or_default();
        let mut kept = vec![];
        for line in bytes.split_inclusive(|b| *b == b'\n') {
            let t = String::from_utf8_lossy(line);
            let f: Vec<&str> = t.trim_end_matches('\n').split(',').collect();
            let whole = t.ends_with('\n') && f.len() == 3 && f[0].parse::<u64>().is_ok() && f[1] == "unwound span" && f[2].parse::<f64>().is_ok();
            if !whole {
                kept.extend_from_slice(line);
            }
        }
        let ino = sim().vfs.lookup(T_PATH).unwrap();
        *sim().vfs.data_mut(ino) = kept;
    }
    let r = Rules { faults: true, crashed: false, header_hard, stamps: false, order: true, back_steps: 0 };
    verify(false, &r);
    verify(true, &r);
}

// ------------------------------------------------------------------ C18
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exit {
    Normal,
    Early,
    Panic,
    Explicit,
    Moved,
}
#[derive(Clone, Debug)]
struct Node {
    id: usize,
    name: &'static str,
    pre: u64,
    post: u64,
    exit: Exit,
    children: Vec<Node>,
    /// this node catches panics from its children
    catch: bool,
}
#[derive(Clone, Copy, Debug, Default)]
struct Times {
    a: u64,
    b: u64,
    c: u64,
    d: u64,
    steps_a: u64,
    steps_d: u64,
    thread: usize,
    hard: u64,
    done: bool,
    ended: u64,
}
static mut TIMES: Vec<Times> = Vec::new();
static mut STEPS: u64 = 0;
static mut SHARE: bool = false;
static mut ENDED: u64 = 0;
#[allow(static_mut_refs)]
fn times() -> &'static mut Vec<Times> {
    unsafe { &mut TIMES }
}
fn steps() -> u64 {
    unsafe { STEPS }
}
fn node(depth: u64, budget: &mut u64) -> Node {
    let id = times().len();
    times().push(Times::default());
    let exit = pick(&[Exit::Normal, Exit::Normal, Exit::Early, Exit::Panic, Exit::Explicit, Exit::Moved]);
    probe(match exit {
        Exit::Normal => "normal",
        Exit::Early => "early",
        Exit::Panic => "panic",
        Exit::Explicit => "explicit",
        Exit::Moved => "moved",
    });
    let mut children = vec![];
    while depth < 4 && *budget > 0 && chance(2, 5) {
        *budget -= 1;
        children.push(node(depth + 1, budget));
        probe("nested");
    }
    let mut dur = || match choose(6) {
        0 | 1 => 0,
        2 => log_choice(1_000_000),
        3 => log_choice(3_000_000_000),
        4 => {
            probe("long");
            log_choice(40 * 86_400_000_000_000)
        }
        _ => range(1, 5_000),
    };
    let (pre, post) = (dur(), dur());
    if pre == 0 && post == 0 {
        probe("zero_length");
    }
    let base = pick(&["stage", "propagate", "µ-phase", "a:b", " stage ", "\"stage\""]);
    // usually a span is one of many of its name
    let name: &'static str = if unsafe { SHARE } && chance(2, 3) { base } else { Box::leak(format!("{base} {id}").into_boxed_str()) };
    Node { id, name, pre, post, exit, children, catch: chance(1, 2) }
}
struct Mark(usize, bool, u64);
impl Drop for Mark {
    fn drop(&mut self) {
        core(|| {
            let t = &mut times()[self.0];
            if self.1 {
                t.c = sim().mono;
            } else {
                t.d = sim().mono;
                t.steps_d = steps();
                t.hard = my_hard_faults() - self.2;
                t.done = true;
                unsafe {
                    ENDED += 1;
                    t.ended = ENDED;
                }
                t.thread = sched::current();
            }
        });
    }
}
fn begin(n: &Node) -> Mark {
    core(|| {
        let t = &mut times()[n.id];
        t.a = sim().mono;
        t.steps_a = steps();
        Mark(n.id, false, my_hard_faults())
    })
}
fn begun(n: &Node) -> Mark {
    core(|| {
        times()[n.id].b = sim().mono;
        Mark(n.id, true, 0)
    })
}
/// `Err` stands for an early return with `?`.
fn run_span(n: &Node, sink: &TimingCsv) -> Result<(), ()> {
    let _after = begin(n);
    let span = TimeSpan::new(n.name, sink);
    let before = begun(n);
    pause(n.pre);
    for c in &n.children {
        if n.catch {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_span(c, sink)));
        } else if n.exit == Exit::Early {
            run_span(c, sink)?;
        } else {
            let _ = run_span(c, sink);
        }
    }
    pause(n.post);
    match n.exit {
        Exit::Normal => Ok(()),
        Exit::Early => Err(()),
        Exit::Panic => panic!("user panic in a span"),
        Exit::Explicit => {
            drop(before);
            drop(span);
            Ok(())
        }
        Exit::Moved => {
            // ends on another thread (as an async task's span would)
            let w = std::thread::scope(|s| {
                s.spawn(move || {
                    drop(before);
                    drop(span);
                })
                .join()
            });
            if w.is_err() {
                core(|| violation("panic", "ending a span on another thread panicked"));
            }
            Ok(())
        }
    }
}
fn step_clock(_v: &mut Vfs, _op: Op) {
    if unsafe { CLOCK_LEFT } == 0 || !chance(1, 40) {
        return;
    }
    unsafe {
        CLOCK_LEFT -= 1;
        STEPS += 1;
    }
    let size = pick(&[1_000i128, 1_000_000, 5_000_000_000, 86_400_000_000_000, 20 * 365 * 86_400_000_000_000]);
    // the clock stays after 1970
    let back = chance(1, 2) && sim().real > size + 86_400_000_000_000;
    if back {
        probe("back_step");
    }
    step_real(if back { -size } else { size });
    probe("clock_step");
}
static mut CLOCK_LEFT: u64 = 0;
fn all_nodes<'a>(n: &'a Node, v: &mut Vec<&'a Node>) {
    v.push(n);
    for c in &n.children {
        all_nodes(c, v);
    }
}
fn spans() {
    let threads = range(1, 3) as usize;
    let mut plans: Vec<Vec<Node>> = vec![];
    let mut budget = 14;
    unsafe { SHARE = chance(1, 3) };
    for _ in 0..threads {
        plans.push((0..range(1, 3)).map(|_| node(0, &mut budget)).collect());
    }
    let total = times().len();
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    enable(Fault::ShortWrite, 1, pick(&[2, 8]));
    enable(Fault::Eintr, 1, pick(&[4, 20]));
    if chance(2, 3) {
        warm_clock();
    }
    let l = Arc::new(match sut(|| {
        sim().vfs.mkdirs("/sim/log");
        TimingCsv::new(T_PATH)
    }) {
        Ok(l) => l,
        Err(m) => violation("panic", &m),
    });
    let disk = chance(1, 6);
    if disk {
        probe("spans_under_fault");
        enable(Fault::EioWrite, 1, 6);
        enable(Fault::Enospc, 1, 6);
        set_fault_budget(range(1, 4) as u32);
    }
    if chance(1, 2) {
        unsafe { CLOCK_LEFT = range(1, 4) };
    }
    sim().actor = Some(Box::new(step_clock));
    describe(format!("{threads} threads, {total} spans, first {:?} {} ns", plans[0][0].exit, plans[0][0].pre));
    if threads > 1 {
        probe("threads");
    }
    nontrivial();
    let shared: &'static Vec<Vec<Node>> = Box::leak(Box::new(plans));
    let hs: Vec<_> = match sut(|| {
        shared
            .iter()
            .map(|v| {
                let l = l.clone();
                std::thread::spawn(move || {
                    for n in v {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_span(n, &l)));
                    }
                })
            })
            .collect()
    }) {
        Ok(h) => h,
        Err(m) => harness_error(&m),
    };
    for h in hs {
        if let Ok(Err(_)) = sut(|| h.join()) {
            violation("panic", "a thread ending spans panicked outside user code");
        }
    }
    sim().actor = None;
    faults_off();
    // every span that began has ended; those skipped by an early exit or a panic never began
    let bytes = sim().vfs.data(T_PATH).cloned().unwrap_or_default();
    let (lines, tail) = split(&bytes);
    check!(tail.is_empty(), "torn-row", "the log ends in {:?}", String::from_utf8_lossy(tail));
    check!(lines.first().map_or(false, |l| *l == T_HEAD.as_bytes()), "header", "no header");
    let mut nodes = vec![];
    for v in shared {
        for n in v {
            all_nodes(n, &mut nodes);
        }
    }
    let mut rows: Vec<(String, f64)> = vec![];
    for l in &lines[1..] {
        let t = String::from_utf8_lossy(l).into_owned();
        let f: Vec<&str> = t.split(',').collect();
        let ok = f.len() == 3 && f[0].parse::<u64>().is_ok() && f[2].parse::<f64>().is_ok();
        check!(ok, "foreign-row", "the log holds {t:?}");
        rows.push((f[1].to_string(), f[2].parse().unwrap()));
    }
    let mut pos: Vec<(usize, usize)> = vec![];
    let mut shared_names = std::collections::BTreeSet::new();
    for n in &nodes {
        let t = times()[n.id];
        let mine: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].0 == n.name).collect();
        if !t.done {
            check!(mine.is_empty() || nodes.iter().any(|m| m.name == n.name && times()[m.id].done), "row-invented", "span {:?} never ran but was logged", n.name);
            check!(t.b == 0, "span-never-ended", "span {:?} began and its scope was left without it ending", n.name);
            continue;
        }
        if disk && mine.is_empty() && my_faults_of_moved(n, &t) {
            probe("row_lost");
            continue;
        }
        if nodes.iter().filter(|m| m.name == n.name).count() > 1 {
            shared_names.insert(n.name);
            continue;
        }
        check!(mine.len() == 1, if mine.is_empty() { "row-missing" } else { "row-duplicated" }, "span {:?} ({:?}) has {} rows", n.name, n.exit, mine.len());
        let ms = rows[mine[0]].1;
        check!(ms >= 0.0 && ms.is_finite(), "negative-duration", "span {:?} logged {ms} ms", n.name);
        if t.steps_a == t.steps_d {
            let lo = (t.c - t.b) as f64 * 1e-6;
            let hi = (t.d - t.a) as f64 * 1e-6;
            let tol = 1e-9 * hi + 2e-6;
            check!(ms >= lo - tol && ms <= hi + tol, "wrong-duration", "span {:?} ({:?}) took between {lo} and {hi} ms of simulated time but logged {ms} ms", n.name, n.exit);
            probe("duration_checked");
        }
        pos.push((mine[0], n.id));
    }
    // spans of one name: as many rows as spans, each with the duration of one of them
    for name in shared_names {
        probe("same_name");
        let all: Vec<&&Node> = nodes.iter().filter(|m| m.name == name && times()[m.id].done).collect();
        let optional = all.iter().filter(|m| disk && my_faults_of_moved(m, &times()[m.id])).count();
        let mine: Vec<f64> = rows.iter().filter(|r| r.0 == name).map(|r| r.1).collect();
        check!(mine.len() <= all.len(), "row-duplicated", "{} spans named {name:?} have {} rows", all.len(), mine.len());
        check!(mine.len() + optional >= all.len(), "row-missing", "{} spans named {name:?} have {} rows", all.len(), mine.len());
        let fits = |ms: f64, m: &Node| {
            let t = times()[m.id];
            let (lo, hi) = ((t.c - t.b) as f64 * 1e-6, (t.d - t.a) as f64 * 1e-6);
            let tol = 1e-9 * hi + 2e-6;
            t.steps_a != t.steps_d || ms >= lo - tol && ms <= hi + tol
        };
        // one row to one span (augmenting paths)
        let mut owner: Vec<Option<usize>> = vec![None; all.len()];
        fn assign(r: usize, mine: &[f64], all: &[&&Node], fits: &dyn Fn(f64, &Node) -> bool, owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
            for k in 0..all.len() {
                if !seen[k] && fits(mine[r], all[k]) {
                    seen[k] = true;
                    if owner[k].is_none() || assign(owner[k].unwrap(), mine, all, fits, owner, seen) {
                        owner[k] = Some(r);
                        return true;
                    }
                }
            }
            false
        }
        for r in 0..mine.len() {
            check!(mine[r] >= 0.0 && mine[r].is_finite(), "negative-duration", "span {name:?} logged {} ms", mine[r]);
            check!(assign(r, &mine, &all, &fits, &mut owner, &mut vec![false; all.len()]), "wrong-duration", "the rows named {name:?} hold {mine:?} ms, the spans took {:?}", all.iter().map(|m| { let t = times()[m.id]; ((t.c - t.b) as f64 * 1e-6, (t.d - t.a) as f64 * 1e-6) }).collect::<Vec<_>>());
        }
    }
    for (name, _) in &rows {
        check!(nodes.iter().any(|n| n.name == name), "foreign-row", "a row for {name:?}, which is not a span");
    }
    // rows of spans ended by one thread are in the order in which they ended
    pos.sort();
    for w in pos.windows(2) {
        let (x, y) = (times()[w[0].1], times()[w[1].1]);
        let (nx, ny) = (nodes.iter().find(|n| n.id == w[0].1).unwrap(), nodes.iter().find(|n| n.id == w[1].1).unwrap());
        if x.thread == y.thread && nx.exit != Exit::Explicit && ny.exit != Exit::Explicit && nx.exit != Exit::Moved && ny.exit != Exit::Moved {
            check!(x.ended < y.ended, "span-order", "{:?} ended before {:?} on one thread, the log has the opposite order", ny.name, nx.name);
        }
    }
}
fn my_faults_of_moved(n: &Node, t: &Times) -> bool {
    // a span dropped on a helper thread meets its faults there
    t.hard > 0 || n.exit == Exit::Moved
}

// ------------------------------------------------------------------ C19
const CAP: &str = "/sys/class/powercap";
const HW: &str = "/sys/class/hwmon";
/// Every path that was, at some time, a directory entry.
static mut ENERGY: Vec<u64> = Vec::new();
struct Tree {
    /// number of directories reachable without links
    dirs: u64,
    cyclic: bool,
    /// paths of energy counters
    counters: Vec<String>,
    /// power inputs of CPU sensors
    powers: Vec<String>,
    sensors: Vec<String>,
}
fn content(power: bool) -> (Vec<u8>, Option<f64>) {
    let nl = pick(&["\n", "", " \n", "\r\n"]);
    match choose(8) {
        0 | 1 | 2 | 3 => {
            let v = log_choice(if power { 1 << 52 } else { u64::MAX });
            probe("number");
            (format!("{v}{nl}").into_bytes(), Some(v as f64 / 1_000_000.0))
        }
        4 => (format!("0{nl}").into_bytes(), Some(0.0)),
        5 if power && chance(1, 2) => {
            probe("odd_number");
            let (t, v) = pick(&[("-2500000\n", -2.5), ("1500000.5\n", 1.5000005)]);
            (t.as_bytes().to_vec(), Some(v))
        }
        5 => (format!(" {}{nl}", 1_234_567).into_bytes(), Some(1.234567)),
        6 if !power && chance(1, 2) => {
            // numbers, but no count of microjoules
            probe("odd_number");
            (pick(&["1e6\n", "12.5\n", "nan\n", "inf\n", "-7\n", "18446744073709551616\n", "0.0\n", "99999999999999999999999\n"]).as_bytes().to_vec(), None)
        }
        6 => (pick(&["", "\n", "N/A\n", "unknown\n", "-", "0x10\n", "12 34\n", "1,5\n", "12uW\n"]).as_bytes().to_vec(), None),
        _ => (vec![0xff, 0xfe, b'1'], None),
    }
}
fn build_tree() -> Tree {
    let v = &mut sim().vfs;
    let mut t = Tree { dirs: 0, cyclic: false, counters: vec![], powers: vec![], sensors: vec![] };
    let cap = choose(5);
    if cap > 0 {
        v.mkdirs(CAP);
        let mut dirs: Vec<String> = vec![CAP.into()];
        if cap == 1 && chance(1, 2) || cap > 2 && chance(1, 12) {
            // large or deep trees
            probe("big_tree");
            if chance(1, 2) {
                let mut p = CAP.to_string();
                for i in 0..range(20, 60) {
                    p = format!("{p}/d{i}");
                }
                v.mkdirs(&p);
                dirs.push(p);
            } else {
                for i in 0..if chance(1, 30) { range(1_000, 3_500) } else { range(100, 300) } {
                    let p = format!("{CAP}/zone{i}");
                    v.mkdirs(&p);
                    dirs.push(p);
                }
            }
        }
        for i in 0..range(0, 6) {
            let parent = dirs[choose(dirs.len() as u64) as usize].clone();
            let p = format!("{parent}/{}", pick(&["intel-rapl", "intel-rapl:0", "power", "dtpm"]).to_string() + &if chance(1, 2) { format!(":{i}") } else { String::new() });
            v.mkdirs(&p);
            if !dirs.contains(&p) {
                dirs.push(p);
            }
        }
        for d in dirs.clone() {
            for f in ["name", "max_energy_range_uj", "enabled", "energy_uj.bak", "Energy_uj"] {
                if chance(1, 12) {
                    v.put(&format!("{d}/{f}"), b"17\n");
                }
            }
        }
        if cap >= 2 {
            for _ in 0..range(if chance(1, 2) { 0 } else { 1 }, 3) {
                let d = dirs[choose(dirs.len() as u64) as usize].clone();
                let p = format!("{d}/energy_uj");
                let (c, _) = content(false);
                v.put(&p, &c);
                if !t.counters.contains(&p) {
                    t.counters.push(p);
                }
            }
        }
        if chance(1, 2) {
            // as sysfs has them: the entries of the class are links to the devices
            for i in 0..range(1, 3) {
                let real = format!("/sys/devices/virtual/powercap/rapl/zone:{i}");
                let inner = if chance(1, 2) { format!("{real}/sub:{i}") } else { real.clone() };
                v.mkdirs(&inner);
                let d = if chance(2, 3) { CAP.to_string() } else { dirs[choose(dirs.len() as u64) as usize].clone() };
                let at = format!("{d}/intel-link:{i}");
                v.symlink(&at, &real);
                if cap >= 2 && chance(2, 3) {
                    let (c, _) = content(false);
                    v.put(&format!("{inner}/energy_uj"), &c);
                    t.counters.push(format!("{at}{}/energy_uj", &inner[real.len()..]));
                    probe("linked_zone");
                }
            }
        }
        if chance(1, 3) {
            // as sysfs has them: links back to the class or to a parent
            for i in 0..range(1, 2) {
                let d = dirs[choose(dirs.len() as u64) as usize].clone();
                let to = if chance(1, 2) { CAP.to_string() } else { dirs[choose(dirs.len() as u64) as usize].clone() };
                v.symlink(&format!("{d}/{}{i}", pick(&["subsystem", "device"])), &to);
            }
            t.cyclic = true;
            probe("cycle");
        }
        if chance(1, 6) {
            let d = dirs[choose(dirs.len() as u64) as usize].clone();
            v.symlink(&format!("{d}/broken"), "/sys/nowhere");
        }
        t.dirs = dirs.len() as u64;
    }
    if chance(4, 5) {
        v.mkdirs(HW);
        for i in 0..range(0, 4) {
            let base = if chance(1, 3) {
                let real = format!("/sys/devices/pci/hwmon{i}");
                v.mkdirs(&real);
                v.symlink(&format!("{HW}/hwmon{i}"), &real);
                real
            } else {
                let p = format!("{HW}/hwmon{i}");
                v.mkdirs(&p);
                p
            };
            let name = pick(&["k10temp\n", "zenpower\n", "amdgpu\n", "nvme\n", "coretemp\n", "", "\u{0}missing", "zenpower3"]);
            if name != "\u{0}missing" {
                v.put(&format!("{base}/name"), name.as_bytes());
            }
            let cpu = name.contains("k10temp") || name.contains("zenpower");
            if !cpu {
                probe("decoy_hwmon");
            }
            for _ in 0..range(0, 3) {
                let f = format!("power{}_{}", range(1, 9), pick(&["average", "input", "label", "max"]));
                let (c, _) = content(true);
                v.put(&format!("{base}/{f}"), &c);
                let n: u32 = f[5..6].parse().unwrap();
                if cpu && n <= 8 && (f.ends_with("_average") || f.ends_with("_input")) {
                    t.powers.push(format!("{HW}/hwmon{i}/{f}"));
                }
            }
            t.sensors.push(base);
        }
    }
    t
}
/// Paths removed or added while the code runs.
struct Plug {
    left: u64,
    /// every node that was ever present by that path, by inode
    ever: std::collections::BTreeSet<String>,
    removed: Vec<(String, u64)>,
}
static mut PLUG: Option<Plug> = None;
#[allow(static_mut_refs)]
fn plug() -> &'static mut Plug {
    unsafe { PLUG.as_mut().unwrap() }
}
fn hotplug(v: &mut Vfs, _op: Op) {
    let p = plug();
    if p.left == 0 || !chance(1, 10) {
        return;
    }
    p.left -= 1;
    probe("hotplug");
    fired("hot_plug");
    let paths: Vec<String> = p.ever.iter().cloned().collect();
    if choose(3) == 2 {
        let f = if chance(1, 2) { format!("{CAP}/late:{}/energy_uj", choose(3)) } else { format!("{HW}/hwmon9/power1_input") };
        ev(|| format!("{f} appears"));
        if f.starts_with(HW) {
            v.put(&format!("{HW}/hwmon9/name"), b"k10temp\n");
            p.ever.insert(format!("{HW}/hwmon9/name"));
        }
        v.put(&f, b"5000000\n");
        p.ever.insert(f);
    } else if !paths.is_empty() {
        let mut f = paths[choose(paths.len() as u64) as usize].clone();
        if chance(1, 2) {
            // the whole directory goes
            if let Some((d, _)) = f.rsplit_once('/') {
                f = d.to_string();
            }
        }
        ev(|| format!("{f} vanishes"));
        v.remove(&f);
    }
}
fn sensors() {
    sim().op_limit = 5_000_000;
    let t = build_tree();
    transparent();
    let hard = chance(1, 3);
    let plugged = chance(1, 3);
    let mut ever: std::collections::BTreeSet<String> = Default::default();
    for p in t.counters.iter().chain(&t.powers) {
        ever.insert(p.clone());
    }
    for s in &t.sensors {
        ever.insert(format!("{s}/name"));
    }
    unsafe { PLUG = Some(Plug { left: if plugged { range(1, 4) } else { 0 }, ever, removed: vec![] }) };
    sim().actor = Some(Box::new(hotplug));
    if hard {
        for f in [Fault::StatErr, Fault::OpenEacces, Fault::OpenEio, Fault::OpenEmfile, Fault::ReaddirErr, Fault::EioRead] {
            enable(f, 1, pick(&[3, 10, 40]));
        }
        set_fault_budget(range(1, 5) as u32);
    }
    describe(format!("{} counters, {} cpu power inputs, {} dirs, cyclic {}, hot-plug {plugged}, faults {hard}", t.counters.len(), t.powers.len(), t.dirs, t.cyclic));
    nontrivial();
    let before = my_hard_faults();
    let e = match sut(CPUEnergy::autodetect) {
        Ok(e) => e,
        Err(m) => violation("panic", &format!("sensor detection panicked: {m}")),
    };
    let quiet = my_hard_faults() == before && plug().left == if plugged { plug().left } else { 0 } && sim().fault_fired.get("hot_plug").is_none();
    if my_hard_faults() > before {
        probe("faulted_scan");
    }
    let counter_possible = !t.counters.is_empty() || plug().ever.iter().any(|p| p.starts_with(CAP));
    match &e {
        CPUEnergy::Powercap { energy_uj } => {
            probe("powercap");
            let p = energy_uj.to_string_lossy().into_owned();
            check!(p.starts_with(CAP) && p.ends_with("/energy_uj"), "invented-sensor", "detection returned {p}, which is not an energy counter");
            check!(counter_possible, "invented-sensor", "detection returned {p} although there was never an energy counter");
            if quiet {
                check!(matches!(sim().vfs.lookup(&p).map(|i| &sim().vfs.inodes[&i].node), Some(vfs::Node::File(_))), "invented-sensor", "detection returned {p}, which does not exist");
                if !t.powers.is_empty() {
                    probe("preferred");
                }
            }
        }
        CPUEnergy::Hwmon { power_uw } => {
            probe("hwmon");
            let p = power_uw.to_string_lossy().into_owned();
            check!(t.powers.contains(&p) || plug().ever.contains(&p), "invented-sensor", "detection returned {p}, which never was a CPU power sensor");
            check!(!quiet || t.counters.is_empty(), "wrong-preference", "detection chose {p} although the energy counters {:?} were readable", t.counters);
        }
        CPUEnergy::None => {
            probe("none");
            check!(!quiet || t.powers.is_empty(), "sensor-missed", "detection found nothing although {:?} exist", t.powers);
            check!(!quiet || t.counters.is_empty(), "sensor-missed", "detection found nothing although {:?} exist", t.counters);
        }
    }
    if quiet && !t.counters.is_empty() {
        check!(matches!(e, CPUEnergy::Powercap { .. }), "wrong-preference", "an energy counter exists ({:?}) but detection chose {e:?}", t.counters);
    }
    read_sensor(&e, hard);
    // reading directly constructed sensors covers contents whatever detection found
    sim().actor = None;
    let kind = choose(2) == 1;
    let path = if kind { "/sys/x/power1_input" } else { "/sys/x/energy_uj" };
    let s = if kind { CPUEnergy::Hwmon { power_uw: path.into() } } else { CPUEnergy::Powercap { energy_uj: path.into() } };
    for _ in 0..range(1, 4) {
        match choose(4) {
            3 => {
                sim().vfs.remove(path);
            }
            _ => {
                let (mut c, _) = content(kind);
                if chance(1, 4) {
                    // padded: read in several pieces
                    c.splice(0..0, std::iter::repeat(b' ').take(choose(200) as usize));
                }
                sim().vfs.put(path, &c);
            }
        }
        read_sensor(&s, hard);
    }
    faults_off();
    read_sensor(&e, false);
    let _ = sut(|| e.debug_source_path());
}
fn transparent() {
    enable(Fault::ShortRead, 1, pick(&[2, 4, 8]));
    enable(Fault::Eintr, 1, pick(&[4, 10, 30]));
}
/// What a reader of plain decimal numbers makes of the file.
fn expected(bytes: &[u8], power: bool) -> Option<f64> {
    let t = std::str::from_utf8(bytes).ok()?.trim();
    if power && t.bytes().all(|b| b.is_ascii_digit() || b == b'-' || b == b'.') {
        // microwatts may be negative or fractional
        return Some(t.parse::<f64>().ok()? / 1_000_000.0);
    }
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(t.parse::<u64>().ok()? as f64 / 1_000_000.0)
}
fn read_sensor(e: &CPUEnergy, hard: bool) {
    let before = my_hard_faults();
    let j = sut(|| e.read_total_j());
    let hit_j = my_hard_faults() > before;
    let mid = my_hard_faults();
    let w = sut(|| e.read_watts());
    let hit_w = my_hard_faults() > mid;
    let (j, w) = match (j, w) {
        (Ok(j), Ok(w)) => (j, w),
        (Err(m), _) | (_, Err(m)) => violation("panic", &format!("reading a sensor panicked: {m}")),
    };
    let (path, got, other, hit, power) = match e {
        CPUEnergy::Powercap { energy_uj } => (energy_uj.to_string_lossy().into_owned(), j, w, hit_j, false),
        CPUEnergy::Hwmon { power_uw } => (power_uw.to_string_lossy().into_owned(), w, j, hit_w, true),
        CPUEnergy::None => {
            check!(j.is_none() && w.is_none(), "wrong-value", "no sensor, yet read {j:?} J and {w:?} W");
            return;
        }
    };
    check!(other.is_none(), "wrong-value", "{path} gave {other:?} in the unit it does not measure");
    // while entries come and go the file read may differ from the file there now
    if sim().actor.is_some() && sim().fault_fired.get("hot_plug").is_some() {
        return;
    }
    let want = sim().vfs.data(&path).and_then(|b| expected(b, power));
    if hit && hard {
        probe("faulted_read");
        check!(got.is_none() || got == want, "wrong-value", "{path} holds {want:?} but gave {got:?} while its read failed");
        return;
    }
    if sim().vfs.data(&path).is_some() && want.is_none() {
        probe("read_garbage");
    }
    probe(if got.is_some() { "read_value" } else { "read_none" });
    check!(got == want, "wrong-value", "{path} holds {:?}: expected {want:?}, read {got:?}", sim().vfs.data(&path).map(|b| String::from_utf8_lossy(b).into_owned()));
}
