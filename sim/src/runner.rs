//! Forks simulated runs, aggregates them, minimises and replays violations, writes evidence.
use crate::props;
use crate::sim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

#[derive(Clone)]
enum Source {
    Seed(u64),
    Tape(Vec<u64>),
}

fn errln(s: &str) {
    let _ = writeln!(std::io::stderr(), "{s}");
}

const CPU_LIMIT_S: u64 = 20;
const WALL_LIMIT_S: u64 = 180;

/// Executes one simulated run in a fresh child process.
fn run_one(p: &props::Prop, src: &Source, verbose: bool, cpu_limit: u64) -> Value {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return json!({"kind": "harness_error", "msg": "pipe failed"});
        }
        let pid = libc::fork();
        if pid < 0 {
            return json!({"kind": "harness_error", "msg": "fork failed"});
        }
        if pid == 0 {
            libc::close(fds[0]);
            let cpu = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::alarm(WALL_LIMIT_S as u32 + 30);
            let (gen, tape) = match src {
                Source::Seed(s) => (Some(*s), vec![]),
                Source::Tape(t) => (None, t.clone()),
            };
            sim::install(gen, tape, verbose, fds[1]);
            (p.run)();
            sim::finish_ok();
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let deadline = Instant::now() + Duration::from_secs(WALL_LIMIT_S);
        let mut timed_out = false;
        loop {
            let left = deadline.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pfd, 1, left.max(0));
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            let mut buf = [0u8; 65536];
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if timed_out {
            return json!({"kind": "harness_error", "class": "wall", "msg": "run exceeded its wall-clock limit"});
        }
        match serde_json::from_slice::<Value>(&out) {
            Ok(v) => v,
            Err(_) => {
                let (class, msg) = if libc::WIFSIGNALED(status) {
                    let sig = libc::WTERMSIG(status);
                    if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                        ("hang".to_string(), format!("the code under test did not finish: {cpu_limit} s of CPU time used without a result"))
                    } else {
                        (format!("crash-signal-{sig}"), format!("the process died of signal {sig}"))
                    }
                } else {
                    ("crash-exit".to_string(), format!("the process exited with status {status:#x}"))
                };
                // No report: the tape is regenerated by the runner when it needs it.
                json!({"kind": "violation", "class": class, "msg": msg, "hash": "0", "noreport": true})
            }
        }
    }
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines "finding: property=<id> class=<class> <text>"; "fixed:" lines suppress nothing
    let p = verif_dir().join("known-findings.txt");
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(3, ' ');
                let id = it.next().unwrap_or("");
                let class = it.next().unwrap_or("").strip_prefix("class=").unwrap_or("").to_string();
                let text = it.next().unwrap_or("").to_string();
                if id == prop && !class.is_empty() {
                    v.push((class, text));
                }
            }
        }
    }
    v
}
fn verif_dir() -> std::path::PathBuf {
    std::env::var("AETHER_VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<String>,
    sim_ns: u128,
    events: u64,
    ops: u64,
    switches: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    order_hash: BTreeMap<u64, String>,
}
impl Agg {
    fn add(&mut self, run: u64, seed: u64, v: &Value, keep_order: bool) {
        self.runs += 1;
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        self.sim_ns += u("sim_ns") as u128;
        self.events += u("events");
        self.ops += u("ops");
        self.switches += u("switches");
        for (key, m) in [("faults", &mut self.faults), ("probes", &mut self.probes)] {
            if let Some(o) = v[key].as_object() {
                for (k, c) in o {
                    *m.entry(k.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
                }
            }
        }
        let h = v["hash"].as_str().unwrap_or("").to_string();
        if v["nontrivial"].as_bool() == Some(true) {
            self.nontrivial += 1;
            if self.samples.len() < 6 && run % 7 == 0 {
                self.samples.push(json!({"run": run, "seed": format!("{seed:016x}"), "case": v["sample"], "events": v["events"],
                    "faults": v["faults"], "thread_switches": v["switches"], "trace_hash": h}));
            }
            self.hashes.insert(h.clone());
        }
        if keep_order {
            self.order_hash.insert(run, h);
        }
    }
}

struct Outcome {
    agg: Agg,
    violation: Option<(u64, Value)>,
    error: Option<String>,
    wall: f64,
}

fn explore(p: &props::Prop, base: u64, runs: u64, secs: f64, workers: u64, keep_order: bool) -> Outcome {
    let start = Instant::now();
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                for f in &pipes {
                    libc::close(*f);
                }
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut i = w;
                while i < runs && start.elapsed().as_secs_f64() < secs {
                    let v = run_one(p, &Source::Seed(sim::derive_seed(base, p.id, i)), false, CPU_LIMIT_S);
                    let mut line = json!({"run": i, "v": v}).to_string();
                    line.push('\n');
                    let b = line.as_bytes();
                    let mut off = 0;
                    while off < b.len() {
                        let n = libc::write(fds[1], b[off..].as_ptr() as *const _, b.len() - off);
                        if n <= 0 {
                            libc::_exit(1);
                        }
                        off += n as usize;
                    }
                    i += workers;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push(fds[0]);
            pids.push(pid);
        }
    }
    let mut agg = Agg::default();
    let known = known_findings(p.id);
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; pipes.len()];
    let mut open: Vec<bool> = vec![true; pipes.len()];
    let mut violation = None;
    let mut error = None;
    'outer: while open.iter().any(|o| *o) {
        let mut pfds: Vec<libc::pollfd> = pipes.iter().zip(&open).map(|(f, o)| libc::pollfd { fd: if *o { *f } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 1000) };
        for k in 0..pipes.len() {
            if !open[k] || pfds[k].revents == 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            let n = unsafe { libc::read(pipes[k], b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 {
                open[k] = false;
                continue;
            }
            bufs[k].extend_from_slice(&b[..n as usize]);
            while let Some(nl) = bufs[k].iter().position(|c| *c == b'\n') {
                let line: Vec<u8> = bufs[k].drain(..=nl).collect();
                let m: Value = serde_json::from_slice(&line).unwrap_or(Value::Null);
                let run = m["run"].as_u64().unwrap_or(0);
                let v = m["v"].clone();
                match v["kind"].as_str() {
                    Some("ok") => agg.add(run, sim::derive_seed(base, p.id, run), &v, keep_order),
                    Some("violation") => {
                        let c = v["class"].as_str().unwrap_or("").to_string();
                        if known.iter().any(|(k, _)| *k == c) {
                            *agg.known.entry(c).or_insert(0) += 1;
                            agg.add(run, sim::derive_seed(base, p.id, run), &v, keep_order);
                        } else {
                            violation = Some((run, v));
                            break 'outer;
                        }
                    }
                    _ => {
                        error = Some(format!("run {run}: {}", v["msg"].as_str().unwrap_or("bad result")));
                        break 'outer;
                    }
                }
            }
        }
    }
    for pid in pids {
        unsafe {
            if violation.is_some() || error.is_some() {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
    }
    for f in pipes {
        unsafe { libc::close(f) };
    }
    Outcome { agg, violation, error, wall: start.elapsed().as_secs_f64() }
}

/// Delta-debugging of the choice tape: delete chunks, zero values, lower values, while the class persists.
fn minimise(p: &props::Prop, tape: Vec<u64>, class: &str, budget: Duration) -> (Vec<u64>, u64) {
    let end = Instant::now() + budget;
    let mut best = tape;
    let mut tried = 0u64;
    let same = |t: &Vec<u64>, tried: &mut u64| -> bool {
        *tried += 1;
        let v = run_one(p, &Source::Tape(t.clone()), false, CPU_LIMIT_S);
        v["kind"] == "violation" && v["class"] == class
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    // shortest failing prefix first: choices beyond it are zero
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi && Instant::now() < end {
        let mid = (lo + hi) / 2;
        let t = best[..mid].to_vec();
        if same(&t, &mut tried) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() {
        let t = best[..hi].to_vec();
        if same(&t, &mut tried) {
            best = t;
        }
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && Instant::now() < end {
                let e = (i + size).min(best.len());
                let mut t = best.clone();
                t.drain(i..e);
                if same(&t, &mut tried) {
                    best = t;
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    if same(&t, &mut tried) {
                        best = t;
                    }
                }
                i = e;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && Instant::now() < end {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if same(&t, &mut tried) {
                    best = t;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            let mut t = best.clone();
            t.pop();
            best = t;
        }
        if best == before || Instant::now() >= end {
            break;
        }
    }
    (best, tried)
}

fn regenerate_tape(p: &props::Prop, seed: u64) -> Vec<u64> {
    // A child that died without a report: its choices are a prefix of the generator's raw stream, but each was reduced
    // modulo its bound; replaying raw values gives the same results because choose() reduces tape values too.
    let _ = p;
    let mut r = sim::Rng(seed);
    (0..20_000).map(|_| r.next()).collect()
}

fn check(p: &props::Prop, a: &Args) -> i32 {
    let tier = a.tier.clone();
    let (runs, secs) = if tier == "thorough" { (p.thorough, a.secs.unwrap_or(600.0)) } else { (p.quick, a.secs.unwrap_or(40.0)) };
    let runs = a.runs.unwrap_or(runs);
    let start = Instant::now();
    let o = explore(p, a.seed, runs, secs, a.workers, false);
    if let Some(e) = &o.error {
        errln(&format!("HARNESS-ERROR property={} {e}", p.id));
        return 2;
    }
    let mut violations = 0;
    let mut vinfo = Value::Null;
    let mut code = 0;
    if let Some((run, v)) = &o.violation {
        let seed = sim::derive_seed(a.seed, p.id, *run);
        let class = v["class"].as_str().unwrap_or("").to_string();
        let tape: Vec<u64> = match v["tape"].as_array() {
            Some(t) => t.iter().map(|x| x.as_u64().unwrap_or(0)).collect(),
            None => regenerate_tape(p, seed),
        };
        let hang = class == "hang";
        let confirm = run_one(p, &Source::Tape(tape.clone()), false, CPU_LIMIT_S);
        if confirm["kind"] != "violation" || confirm["class"] != class.as_str() {
            errln(&format!("HARNESS-ERROR property={} run {run} reported {class} ({}) but its replay gave {}", p.id, v["msg"], confirm));
            return 2;
        }
        let (min, tried) = if hang { (tape.clone(), 0) } else { minimise(p, tape.clone(), &class, Duration::from_secs_f64(if tier == "thorough" { 90.0 } else { 25.0 })) };
        let fin = run_one(p, &Source::Tape(min.clone()), true, CPU_LIMIT_S);
        let fin2 = run_one(p, &Source::Tape(min.clone()), true, CPU_LIMIT_S);
        if fin["hash"] != fin2["hash"] || fin["class"] != fin2["class"] {
            errln(&format!("HARNESS-ERROR property={} minimised run is not repeatable", p.id));
            return 2;
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:016x}.json", p.id, class, seed));
        let doc = json!({
            "property": p.id, "class": class, "msg": fin["msg"], "base_seed": a.seed, "run": run, "run_seed": format!("{seed:016x}"),
            "tape": min, "tape_len_original": tape.len(), "minimisation_runs": tried, "trace_hash": fin["hash"],
            "faults": fin["faults"], "case": fin["sample"], "trace": fin["trace"],
            "replay_cmd": format!("/verif/bin/check replay {}", path.display()),
        });
        if std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).is_err() {
            errln("cannot write the replay file");
            return 2;
        }
        println!("{}", fin["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violations = 1;
        vinfo = json!({"class": class, "run": run, "seed": format!("{seed:016x}"), "replay": path.display().to_string(), "choices": min.len(), "choices_before_minimisation": tape.len()});
        code = 1;
    }
    for (class, text) in known_findings(p.id) {
        println!("KNOWN-FINDING: property={} class={class} {text}", p.id);
    }
    let ag = &o.agg;
    let wall = start.elapsed().as_secs_f64();
    let missing: Vec<&str> = p.want.iter().filter(|w| !ag.probes.contains_key(**w) && !ag.faults.contains_key(**w)).copied().collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": ag.runs,
            "distinct_nontrivial": ag.hashes.len(),
            "rule": format!("One case is one simulated run of the real code, generated from seed derive(VERIF_SEED, property, run index). {} Non-trivial: at least one fault fired, one thread switch happened or one scenario-specific interesting event occurred. Distinct: different hash of the full event trace (every system call with its result, every fault, every switch, every observation).", p.rule),
            "samples": ag.samples,
            "nontrivial_runs": ag.nontrivial,
            "runs_planned": runs,
            "runs_per_hour": if o.wall > 0.0 { (ag.runs as f64 / o.wall * 3600.0) as u64 } else { 0 },
            "explore_wall_s": o.wall,
            "simulated_seconds": ag.sim_ns as f64 / 1e9,
            "simulated_system_calls": ag.ops,
            "trace_events": ag.events,
            "thread_switches": ag.switches,
            "faults_injected": ag.faults,
            "probes": ag.probes,
            "expected_probes_not_reached": missing,
            "known_findings_hit": ag.known,
            "real_code": p.real,
            "stubbed": p.stub,
            "violation": vinfo,
        },
        "assumptions": p.assume,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        errln("cannot write the evidence file");
        return 2;
    }
    println!("{} {}: {} runs ({} distinct non-trivial), {:.1} simulated s, {:.1} s wall, violations {}", p.id, tier, ag.runs, ag.hashes.len(), ag.sim_ns as f64 / 1e9, o.wall, violations);
    if !missing.is_empty() {
        println!("note: not reached: {missing:?}");
    }
    code
}

struct Args {
    prop: String,
    runs: Option<u64>,
    secs: Option<f64>,
    seed: u64,
    tier: String,
    workers: u64,
    run: u64,
}

pub fn cli(args: &[String]) -> i32 {
    let mut a = Args {
        prop: String::new(),
        runs: None,
        secs: None,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        workers: 8,
        run: 0,
    };
    let cmd = args.first().cloned().unwrap_or_default();
    let mut i = 1;
    let mut files = vec![];
    while i < args.len() {
        let val = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--prop" => a.prop = val,
            "--runs" => a.runs = val.parse().ok(),
            "--secs" => a.secs = val.parse().ok(),
            "--seed" => a.seed = val.parse().unwrap_or(1),
            "--tier" => a.tier = val,
            "--workers" => a.workers = val.parse().unwrap_or(8),
            "--run" => a.run = val.parse().unwrap_or(0),
            f => {
                files.push(f.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let list = props::all();
    let find = |id: &str| list.iter().find(|p| p.id == id);
    match cmd.as_str() {
        "run" => match find(&a.prop) {
            Some(p) => check(p, &a),
            None => {
                errln(&format!("unknown property {}", a.prop));
                2
            }
        },
        "list" => {
            for p in &list {
                println!("{}", p.id);
            }
            0
        }
        // one run, with its trace
        "one" => {
            let Some(p) = find(&a.prop) else { return 2 };
            let v = run_one(p, &Source::Seed(sim::derive_seed(a.seed, p.id, a.run)), true, CPU_LIMIT_S);
            print_run(&v);
            0
        }
        // same seeds twice, with different worker counts: identical traces
        "selftest" => {
            let mut bad = 0;
            for p in list.iter().filter(|p| a.prop.is_empty() || p.id == a.prop) {
                let n = a.runs.unwrap_or(200);
                let x = explore(p, a.seed, n, 300.0, 8, true);
                let y = explore(p, a.seed, n, 300.0, 3, true);
                let same = x.agg.order_hash == y.agg.order_hash && x.error.is_none() && y.error.is_none();
                println!("{} {} runs {} {:?} {:?}", p.id, x.agg.runs, if same { "deterministic" } else { "NOT DETERMINISTIC" }, x.error, x.violation.map(|v| v.1["msg"].clone()));
                if !same {
                    for (k, h) in &x.agg.order_hash {
                        if y.agg.order_hash.get(k) != Some(h) {
                            println!("  first difference at run {k}");
                            break;
                        }
                    }
                    bad += 1;
                }
            }
            (bad > 0) as i32
        }
        "replay" => {
            let Some(f) = files.first() else { return 2 };
            let Ok(t) = std::fs::read_to_string(f) else {
                errln("cannot read the replay file");
                return 2;
            };
            let doc: Value = match serde_json::from_str(&t) {
                Ok(d) => d,
                Err(_) => return 2,
            };
            let Some(p) = find(doc["property"].as_str().unwrap_or("")) else { return 2 };
            let tape: Vec<u64> = doc["tape"].as_array().map(|t| t.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
            let v = run_one(p, &Source::Tape(tape), true, CPU_LIMIT_S);
            print_run(&v);
            if v["kind"] == "violation" {
                if v["hash"] == doc["trace_hash"] {
                    println!("replayed exactly (trace hash {})", v["hash"].as_str().unwrap_or(""));
                } else {
                    println!("violates, with a different trace than recorded (the code changed)");
                }
                println!("VIOLATION property={} replay={f}", p.id);
                1
            } else {
                println!("no violation on the current tree");
                if v["kind"] == "ok" {
                    0
                } else {
                    2
                }
            }
        }
        _ => {
            errln("usage: aether-sim run|one|selftest|list|replay …");
            2
        }
    }
}

fn print_run(v: &Value) {
    if let Some(t) = v["trace"].as_array() {
        for l in t {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    let mut w = v.clone();
    if let Some(o) = w.as_object_mut() {
        o.remove("trace");
        o.remove("tape");
    }
    println!("{}", serde_json::to_string_pretty(&w).unwrap());
}

