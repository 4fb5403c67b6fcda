//! C20–C25: clocks, alarms, schedules, timers and time scales.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_time::time::*;

const REAL: &[&str] = &["aether_time (all of it)"];
const STUB: &[&str] = &["the flight computer's clock, tick counter, time steps, interrupts and restarts"];
const G: i128 = 1_000_000_000;

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 250_000, thorough: 6_000_000, rule: "", want: &[], real: REAL, stub: STUB, assume: &[] };
    vec![
        Prop { id: "C20", run: one_shot,
            rule: "A polling loop checks several one-shot alarms and once-only schedules against a simulated clock that stalls, jumps forwards and backwards, and lands on and next to the targets; the program crashes and restarts from saved copies.",
            want: &["fired", "checked_after_firing", "step_back_before_target", "exact_hit", "one_ns_early", "restored_before_firing", "restored_after_firing"], ..base },
        Prop { id: "C21", run: recurring,
            rule: "A polling loop checks one recurring schedule against a simulated clock with jitter, steps back and jumps from one nanosecond to centuries, starting before or after 1970; the program restarts from saved copies. The reference is an independent calendar.",
            want: &["interval", "hourly", "daily", "yearly", "fired", "missed_many", "exact_hit", "one_ns_early", "clock_step_back", "before_1970", "restored"],
            assume: &["interval periods are positive", "calendar fields name an instant that exists (seconds 0-59, no 31 April)"], ..base },
        Prop { id: "C22", run: timers,
            rule: "A simulated loop feeds random divisions of time, from nanoseconds to decades, to a timer set, to lone timers with the same periods and to a reference counter in 128-bit nanoseconds; timers are retuned and the loop restarts from saved copies.",
            want: &["fired", "exact_multiple", "one_ns_short", "huge_step", "retuned", "restored"],
            assume: &["periods are positive and time steps are not negative"], ..base },
        Prop { id: "C23", run: mission_clock,
            rule: "A free-running 64-bit tick counter of any rate, starting anywhere including just below wrap-around, is polled with random gaps, stalls and restarts.",
            want: &["wrapped", "one_tick", "dt_sum_checked", "now_utc_checked", "restored"],
            assume: &["tick rates of at least 2 Hz: at 1 Hz the counter spans more seconds than a signed 64-bit number"], ..base },
        Prop { id: "C24", run: leap, quick: 100_000, thorough: 1_000_000,
            rule: "Every conversion is single-stepped and interrupted after a chosen machine instruction by a handler that changes the leap-second setting; results must be those of one setting in force during the conversion.",
            want: &["interrupted", "changed_result", "unaffected_conversion", "update_interrupted"], ..base },
        Prop { id: "C25", run: gps_week,
            rule: "A simulated receiver gets week numbers modulo 1024 over decades with outages of up to 511 weeks, crashes, and restarts from the last or a stale saved week number.",
            want: &["rollover", "restart", "stale_hint", "outage", "hint_below_512"],
            assume: &["times are not before the GPS epoch"], ..base },
        Prop { id: "C31", run: nodes,
            rule: "Two or three simulated nodes with skewed clocks exchange time stamps through a network that delays, reorders, duplicates and loses them; clocks are stepped both ways, nodes crash and restart from saved copies, and every node keeps its books (instants, delays, totals, smallest delay, sorted stamps) with the library's time arithmetic. A second set of books in 128-bit nanoseconds must agree at every step.",
            want: &["delivered", "duplicated", "lost", "reordered", "negative_delay", "clock_step_back", "restored", "compared", "equal_spans", "sorted", "by_reference", "total_checked"],
            stub: &["the nodes' clocks, the network and the nodes' programs"],
            assume: &["instants and spans stay within three thousand years"], ..base },
    ]
}

fn t<S>(ns: i128) -> Time<S> {
    Time::new(ns.div_euclid(G) as i64, ns.rem_euclid(G) as i32)
}
fn ns<S>(x: Time<S>) -> i128 {
    x.sec as i128 * G + x.nano_sec as i128
}
fn norm<S>(x: Time<S>) -> bool {
    (0..1_000_000_000).contains(&x.nano_sec)
}
/// Runs code under test that must not panic.
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}
fn signed(v: u64) -> i128 {
    if chance(1, 3) {
        -(v as i128)
    } else {
        v as i128
    }
}
/// The simulated clock follows these readings.
fn set_clock(now: i128) {
    let s = sim();
    s.mono += 1_000_000;
    s.real = now;
}
/// Somewhere in time, from before the epoch to the far future.
fn origin() -> i128 {
    match choose(6) {
        0 => 1_760_000_000 * G + choose(G as u64) as i128,
        1 => choose(4_000_000_000) as i128 * G + choose(G as u64) as i128,
        2 => -(choose(10_000_000_000) as i128) * G + choose(G as u64) as i128,
        3 => choose(3) as i128 * G - G + choose(G as u64) as i128,
        4 => (choose(400_000_000_000) as i128 - 60_000_000_000) * G,
        _ => choose(86400 * 3) as i128 * G - 86400 * G,
    }
}

// ------------------------------------------------------------------ C20
enum Shot {
    Alarm(UtcAlarm),
    Once(UtcSchedule),
}
impl Shot {
    fn copy(&self) -> Shot {
        match self {
            Shot::Alarm(a) => Shot::Alarm(*a),
            Shot::Once(a) => Shot::Once(*a),
        }
    }
}
fn one_shot() {
    let n = range(1, 4) as usize;
    let base = match choose(8) {
        0 => i64::MAX as i128 * G + G - 1,
        1 => i64::MIN as i128 * G,
        _ => origin(),
    };
    let (lo, hi) = (i64::MIN as i128 * G, i64::MAX as i128 * G + G - 1);
    let clamp = |x: i128| x.clamp(lo, hi);
    let mut targets = vec![];
    let mut shots: Vec<(Shot, bool)> = vec![];
    for k in 0..n {
        let target = clamp(base + if k == 0 { 0 } else { signed(log_choice(1 << 40)) });
        targets.push(target);
        let once = chance(1, 2);
        shots.push((call("new", || if once { Shot::Once(UtcSchedule::new(t(target), Recurrence::Once)) } else { Shot::Alarm(UtcAlarm::new(t(target))) }), false));
    }
    describe(format!("{n} one-shots, first target {base} ns"));
    let mut saved: Vec<Option<(Shot, bool)>> = (0..n).map(|_| None).collect();
    let steps = range(2, 30);
    for _ in 0..steps {
        let k = choose(n as u64) as usize;
        match choose(12) {
            10 => {
                saved[k] = Some((shots[k].0.copy(), shots[k].1));
                ev(|| "saved a copy".into());
                continue;
            }
            11 => {
                if let Some((s, f)) = &saved[k] {
                    fired("crash_restart");
                    probe(if *f { "restored_after_firing" } else { "restored_before_firing" });
                    shots[k] = (s.copy(), *f);
                }
                continue;
            }
            _ => {}
        }
        let tg = targets[k];
        let now = clamp(match choose(8) {
            0 => tg,
            1 => {
                probe("one_ns_early");
                tg - 1
            }
            2 => tg + 1,
            3 => tg - log_choice(u64::MAX >> 1) as i128,
            4 => tg + log_choice(u64::MAX >> 1) as i128,
            5 => tg - choose(2 * G as u64) as i128,
            6 => tg + choose(2 * G as u64) as i128,
            _ => tg + signed(log_choice(u64::MAX)) * G,
        });
        if now == tg {
            probe("exact_hit");
        }
        set_clock(now);
        // all of them are polled with the same reading
        for i in 0..n {
            if i != k && chance(1, 2) {
                continue;
            }
            let want = !shots[i].1 && now >= targets[i];
            let got = call("check", || match &mut shots[i].0 {
                Shot::Alarm(a) => a.check(t(now)),
                Shot::Once(a) => a.check(t(now)),
            });
            ev(|| format!("check {i} at target{:+} -> {got}", now - targets[i]));
            if got && shots[i].1 {
                violation("fired-twice", &format!("fired again at target{:+} ns", now - targets[i]));
            }
            check!(!got || now >= targets[i], "fired-early", "fired at target{:+} ns", now - targets[i]);
            check!(got == want, "not-fired", "did not fire at target{:+} ns", now - targets[i]);
            if shots[i].1 {
                probe("checked_after_firing");
                if now < targets[i] {
                    probe("step_back_before_target");
                }
            }
            if got {
                probe("fired");
                nontrivial();
                shots[i].1 = true;
            }
        }
        for (i, (s, f)) in shots.iter().enumerate() {
            match s {
                Shot::Alarm(a) => {
                    let d = call("is_done", || a.is_done());
                    check!(d == *f, "is-done", "is_done() is {d} while the alarm has {}fired", if *f { "" } else { "not " });
                }
                Shot::Once(a) if !*f => {
                    let x = ns(call("next_fire", || a.next_fire()));
                    check!(x == targets[i], "announced", "a pending once-only schedule announces {x} instead of {}", targets[i]);
                }
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------ C21
// Independent calendar: plain year and month counting from 1970.
fn leap_year(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
fn days_before_year(y: i64) -> i64 {
    // days from 1 January 1970 to 1 January y
    let f = |y: i64| {
        let p = y - 1;
        365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
    };
    f(y) - f(1970)
}
const MD: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn day_number(y: i64, m: u8, d: u8) -> Option<i64> {
    let mut n = days_before_year(y);
    for k in 0..(m as usize - 1) {
        n += MD[k] + (k == 1 && leap_year(y)) as i64;
    }
    let len = MD[m as usize - 1] + (m == 2 && leap_year(y)) as i64;
    ((d as i64) <= len).then_some(n + d as i64 - 1)
}
fn year_of(sec: i64) -> i64 {
    let day = sec.div_euclid(86400);
    let mut y = 1970 + day.div_euclid(366);
    while days_before_year(y + 1) <= day {
        y += 1;
    }
    while days_before_year(y) > day {
        y -= 1;
    }
    y
}
fn calendar_next(p: &Recurrence, after: i128) -> i128 {
    let sec = after.div_euclid(G) as i64;
    let on_grid = |unit: i64, off: i64| {
        let mut c = sec.div_euclid(unit) * unit + off;
        while c as i128 * G <= after {
            c += unit;
        }
        c as i128 * G
    };
    match *p {
        Recurrence::Hourly { minute, second } => on_grid(3600, minute as i64 * 60 + second as i64),
        Recurrence::Daily { hour, minute, second } => on_grid(86400, hour as i64 * 3600 + minute as i64 * 60 + second as i64),
        Recurrence::Yearly { month, day, hour, minute, second } => {
            let mut y = year_of(sec);
            loop {
                if let Some(d) = day_number(y, month, day) {
                    let c = (d * 86400 + hour as i64 * 3600 + minute as i64 * 60 + second as i64) as i128 * G;
                    if c > after {
                        return c;
                    }
                }
                y += 1;
            }
        }
        _ => unreachable!(),
    }
}
fn recurring() {
    let start = origin();
    let (h, m, s) = (pick(&[0, 23, choose(24) as u8]), pick(&[0, 59, choose(60) as u8]), pick(&[0, 59, choose(60) as u8]));
    let mut period: i128 = 0;
    let pat = match choose(4) {
        0 => {
            probe("interval");
            period = match choose(6) {
                5 => range(9_000_000_000, 400_000_000_000) as i128 * G,
                0 => 1,
                1 => 1 + choose(G as u64) as i128,
                2 => range(1, 100_000) as i128 * G,
                3 => 1 + log_choice(1 << 62) as i128,
                _ => pick(&[G, 100_000_000, 3600 * G, 1_500_000_000, 999_999_999, 86400 * G]),
            };
            let d = if period % G == 0 && (period > i64::MAX as i128 || chance(1, 2)) {
                call("from_secs", || Duration::from_secs((period / G) as i64))
            } else if period % 1_000_000 == 0 && chance(1, 2) {
                call("from_millis", || Duration::from_millis((period / 1_000_000) as i64))
            } else if period % 1_000 == 0 && chance(1, 2) {
                call("from_micros", || Duration::from_micros((period / 1_000) as i64))
            } else {
                call("from_nanos", || Duration::from_nanos(period as i64))
            };
            check!(d.sec as i128 * G + d.nano_sec as i128 == period && (0..1_000_000_000).contains(&d.nano_sec), "duration", "{period} ns became {d:?}");
            Recurrence::Interval(d)
        }
        1 => {
            probe("hourly");
            Recurrence::Hourly { minute: m, second: s }
        }
        2 => {
            probe("daily");
            Recurrence::Daily { hour: h, minute: m, second: s }
        }
        _ => {
            probe("yearly");
            let month = range(1, 12) as u8;
            let len = MD[month as usize - 1] + (month == 2) as i64;
            let day = pick(&[1, len as u8, range(1, len as u64) as u8]);
            if (month, day) == (2, 29) {
                probe("feb_29");
            }
            Recurrence::Yearly { month, day, hour: h, minute: m, second: s }
        }
    };
    if start < 0 {
        probe("before_1970");
    }
    describe(format!("{pat:?} from {start} ns"));
    let following = |after: i128, next: i128| -> i128 {
        if period > 0 {
            next + ((after - next).div_euclid(period) + 1) * period
        } else {
            calendar_next(&pat, after)
        }
    };
    let mut sch = call("new", || UtcSchedule::new(t(start), pat));
    let mut next = if period > 0 { start + period } else { calendar_next(&pat, start) };
    let unit: i128 = match pat {
        Recurrence::Hourly { .. } => 3600 * G,
        Recurrence::Daily { .. } => 86400 * G,
        Recurrence::Yearly { .. } => 365 * 86400 * G,
        _ => period,
    };
    let announced = |s: &UtcSchedule, next: i128, what: &str| {
        let f = call("next_fire", || s.next_fire());
        check!(ns(f) == next && norm(f), "wrong-next", "{what}: the schedule announces {}.{:09} s, the next instant is {}.{:09} s", f.sec, f.nano_sec, next.div_euclid(G), next.rem_euclid(G));
    };
    announced(&sch, next, "after creation");
    let mut saved: Option<(UtcSchedule, i128)> = None;
    let mut now = start;
    let (lo, hi) = (-200_000_000_000i128 * G, 900_000_000_000i128 * G);
    for _ in 0..range(2, 40) {
        match choose(14) {
            12 => {
                saved = Some((sch, next));
                continue;
            }
            13 => {
                if let Some((s, n)) = saved {
                    sch = s;
                    next = n;
                    fired("crash_restart");
                    probe("restored");
                    announced(&sch, next, "after a restart");
                }
                continue;
            }
            _ => {}
        }
        let prev = now;
        now = match choose(12) {
            0 => next,
            1 => {
                probe("one_ns_early");
                next - 1
            }
            2 => next + 1,
            3 => now + choose(2 * G as u64) as i128,
            4 => now - choose(2 * G as u64) as i128,
            5 => now - log_choice(1 << 60) as i128,
            6 => next + unit * choose(50) as i128,
            7 => next + unit * choose(50) as i128 - 1,
            8 => now + log_choice(1 << 62) as i128,
            9 => now + (log_choice(40_000_000_000) as i128) * G,
            10 => next + choose((2 * unit) as u64 | 1) as i128,
            _ => now,
        }
        .clamp(lo, hi);
        set_clock(now);
        if now < prev {
            probe("clock_step_back");
            fired("clock_step");
        }
        if now == next {
            probe("exact_hit");
        }
        let want = now >= next;
        let got = call("check", || sch.check(t(now)));
        ev(|| format!("check at {now} (next {next}) -> {got}"));
        check!(!got || want, "fired-early", "fired at {now} ns, {} ns before the next instant {next}", next - now);
        check!(got == want, "not-fired", "did not fire at {now} ns although the instant {next} has been reached");
        if got {
            probe("fired");
            nontrivial();
            if now - next > 3 * unit {
                probe("missed_many");
            }
            next = following(now, next);
            check!(ns(sch.next_fire()) > now, "stale-next", "the announced next instant {} is not after the check that fired at {now}", ns(sch.next_fire()));
        }
        announced(&sch, next, "after a check");
    }
}

// ------------------------------------------------------------------ C22
const NT: usize = 4;
fn timers() {
    let mk = || -> (i128, Duration) {
        let p: i128 = match choose(6) {
            0 => 1,
            1 => 1 + log_choice(1 << 62) as i128,
            2 => pick(&[10_000_000, G, 100_000_000, 999_999_999, 1_000_000_001, 2_500_000_000]),
            3 => 1 + choose(2_000_000_000) as i128,
            4 => range(1, 1000) as i128 * G,
            _ => range(1, 1000) as i128 * 1_000_000,
        };
        (p, call("from_nanos", || Duration::from_nanos(p as i64)))
    };
    let mut per: Vec<(i128, Duration)> = (0..NT).map(|_| mk()).collect();
    describe(format!("periods {:?} ns", per.iter().map(|p| p.0).collect::<Vec<_>>()));
    let arr = [per[0].1, per[1].1, per[2].1, per[3].1];
    let mut set = call("new", || TimerSet::<NT>::new(arr));
    let mut alone: Vec<TimerEvent> = per.iter().map(|p| TimerEvent::new(p.1)).collect();
    let mut total: Vec<i128> = vec![0; NT];
    let mut snap: Option<(Vec<TimerEvent>, Vec<(i128, Duration)>, Vec<i128>)> = None;
    let mut set_total = total.clone();
    let mut steps = 0;
    while steps < range(3, 60) {
        steps += 1;
        match choose(24) {
            21 => {
                // retune one timer in place
                let k = choose(NT as u64) as usize;
                let new = mk();
                call("event_mut", || *set.event_mut(k).unwrap() = TimerEvent::new(new.1));
                alone[k] = TimerEvent::new(new.1);
                per[k] = new;
                total[k] = 0;
                set_total[k] = 0;
                probe("retuned");
                snap = None;
                continue;
            }
            22 => {
                snap = Some((alone.clone(), per.clone(), total.clone()));
                continue;
            }
            23 => {
                // the lone timers are restored from saved copies; the set keeps running
                if let Some((a, p, tt)) = &snap {
                    if p.iter().zip(&per).all(|(x, y)| x.0 == y.0) {
                        alone = a.clone();
                        total = tt.clone();
                        probe("restored");
                        fired("crash_restart");
                    }
                }
                continue;
            }
            _ => {}
        }
        let k = choose(NT as u64) as usize;
        let p = per[k].0;
        let rem = p - set_total[k].rem_euclid(p);
        let dt: i128 = match choose(10) {
            0 => rem,
            1 => {
                probe("one_ns_short");
                rem - 1
            }
            2 => rem + 1,
            3 => 0,
            4 => choose(30_000_000) as i128,
            5 => {
                probe("huge_step");
                log_choice(1_000_000_000) as i128 * G + choose(G as u64) as i128
            }
            6 => p * choose(20) as i128,
            7 => rem + p * choose(1000) as i128,
            8 => log_choice(1 << 62) as i128,
            _ => choose(3 * G as u64) as i128,
        };
        let d = Duration { sec: (dt / G) as i64, nano_sec: (dt % G) as i32 };
        sim().mono += (dt as u64).min(1 << 40);
        let got = call("step", || set.step(d));
        nontrivial();
        ev(|| format!("step {dt} -> {got:?}"));
        for i in 0..NT {
            let p = per[i].0;
            let one = call("step", || alone[i].step(d));
            let want_alone = (total[i] + dt) / p > total[i] / p;
            let want = (set_total[i] + dt) / p > set_total[i] / p;
            total[i] += dt;
            set_total[i] += dt;
            if want {
                probe("fired");
                if set_total[i] % p == 0 {
                    probe("exact_multiple");
                }
            }
            check!(one == want_alone, "wrong-firing", "a timer of {p} ns {} in the step of {dt} ns that took its total to {} ns", if one { "fired" } else { "did not fire" }, total[i]);
            check!(got[i] == want, "set-differs", "timer {i} ({p} ns) of a set {} in the step of {dt} ns that took its total to {} ns", if got[i] { "fired" } else { "did not fire" }, set_total[i]);
        }
    }
}

// ------------------------------------------------------------------ C23
fn mission_clock() {
    let tps: u64 = match choose(6) {
        0 => pick(&[1000, 1_000_000, 1_000_000_000, 32_768, 24_000_000, 3_000_000_000]),
        1 => 2 + log_choice(u64::MAX - 2),
        2 => range(2, 100),
        3 => 1_000_000_000 + choose(3),
        4 => u64::MAX - choose(3),
        _ => range(2, 10_000_000_000),
    };
    let start = origin();
    let ticks0: u64 = match choose(4) {
        0 => 0,
        1 => u64::MAX - log_choice(u64::MAX >> 1),
        2 => log_choice(u64::MAX),
        _ => u64::MAX,
    };
    describe(format!("{tps} ticks/s from tick {ticks0}, epoch {start} ns"));
    let leaps = pick(&[27i32, 0, choose(60) as i32]);
    let by_utc = chance(1, 2);
    let off = 10 + leaps as i128;
    let ep = call("MissionEpoch", || {
        set_leap_seconds(leaps);
        if by_utc {
            MissionEpoch::new_utc(t(start - off * G))
        } else {
            MissionEpoch::new_tai(t(start))
        }
    });
    check!(ns(ep.start()) == start, "epoch", "the mission epoch is {} instead of {start}", ns(ep.start()));
    let mut u = TimeKeeper::<UTC>::new(ep, ticks0, tps);
    let mut g = TimeKeeper::<GPS>::new(ep, ticks0, tps);
    let saved = (u, g);
    let mut elapsed: u64 = 0;
    let mut last_ticks = ticks0;
    let (mut sum, mut polls): (i128, i128) = (0, 0);
    let mut sum_from = 0u64;
    let mut last: Option<(i128, i128)> = None;
    for _ in 0..range(1, 40) {
        if chance(1, 12) {
            (u, g) = saved;
            probe("restored");
            fired("crash_restart");
        }
        let room = u64::MAX - elapsed;
        let step = match choose(7) {
            0 => 1,
            1 => tps.min(room),
            2 => log_choice(room),
            3 => choose(tps.min(1 << 62).max(1)).min(room),
            4 => 0,
            5 => (tps * range(1, 3).min(u64::MAX / tps)).min(room),
            _ => tps.saturating_sub(1).min(room),
        }
        .min(room);
        if step == 1 {
            probe("one_tick");
        }
        elapsed += step;
        let now = ticks0.wrapping_add(elapsed);
        if now < ticks0 {
            probe("wrapped");
            nontrivial();
        }
        sim().mono += 1000;
        let exact = (elapsed as i128) / tps as i128 * G + (elapsed as i128 % tps as i128) * G / tps as i128;
        let tp = call("t_plus", || u.t_plus(now));
        ev(|| format!("+{step} -> {exact} ns"));
        check!(norm(tp), "not-normalised", "T+ is {}s {}ns", tp.sec, tp.nano_sec);
        check!(ns(tp) == exact, "t-plus", "T+ is {} ns, {elapsed} ticks at {tps} Hz are {exact} ns", ns(tp));
        let tpg = call("t_plus", || g.t_plus(now));
        check!(ns(tpg) == exact, "t-plus", "T+ (GPS) is {} ns, expected {exact}", ns(tpg));
        let tai = call("now_tai", || u.now_tai(now));
        check!(norm(tai) && ns(tai) == start + exact, "now-tai", "TAI is {} ns, expected {}", ns(tai), start + exact);
        let utc = call("now_utc", || u.now_utc(now));
        check!(norm(utc) && ns(utc) == start + exact - off * G, "now-utc", "UTC is {} ns, expected {}", ns(utc), start + exact - off * G);
        let gps = call("now_gps", || g.now_gps(now));
        let want = start + exact - (315_964_800 + 19) * G;
        check!(norm(gps) && ns(gps) == want, "now-gps", "GPS time is {} ns, expected {want}", ns(gps));
        probe("now_utc_checked");
        if let Some((a, b)) = last {
            check!(ns(tp) >= a && ns(tai) >= b, "backwards", "the clock ran backwards");
        }
        last = Some((ns(tp), ns(tai)));
        if chance(1, 10) {
            // a new loop starts counting here
            last_ticks = now;
            sum = 0;
            polls = 0;
            sum_from = elapsed;
            continue;
        }
        let before = last_ticks;
        let d = call("dt_from_ticks", || u.dt_from_ticks(&mut last_ticks, now));
        check!(last_ticks == now, "last-ticks", "the stored tick count is {last_ticks} after polling at {now}");
        let diff = now.wrapping_sub(before) as i128;
        let want = diff / tps as i128 * G + (diff % tps as i128) * G / tps as i128;
        check!((0..1_000_000_000).contains(&d.nano_sec) && d.sec as i128 * G + d.nano_sec as i128 == want, "dt", "a gap of {diff} ticks at {tps} Hz gave {d:?}, expected {want} ns");
        sum += want;
        polls += 1;
        let el = (elapsed - sum_from) as i128;
        let total = el / tps as i128 * G + (el % tps as i128) * G / tps as i128;
        check!(sum <= total && total - sum <= polls, "dt-sum", "per-loop differences sum to {sum} ns over {polls} polls, {total} ns elapsed");
        probe("dt_sum_checked");
    }
}

// ------------------------------------------------------------------ C24
static mut NEW_LEAP: i32 = 0;
fn isr() {
    set_leap_seconds(unsafe { NEW_LEAP });
}
static mut READ: i128 = 0;
static mut READ_AT: i128 = 0;
static mut READ_OP: u64 = 0;
/// a conversion made by an interrupt handler
fn reader() {
    unsafe {
        let x = READ_AT;
        READ = match READ_OP {
            0 => ns(t::<UTC>(x).to_tai()),
            1 => ns(t::<TAI>(x).to_utc()),
            2 => ns(t::<UTC>(x).to_gps()),
            3 => ns(t::<GPS>(x).to_utc()),
            4 => ns(t::<GPS>(x).to_tai()),
            _ => x + tai_minus_utc() as i128 * G,
        }
    }
}
fn leap() {
    let mut cur = pick(&[27i32, 0, 18, choose(100) as i32, -(choose(20) as i32)]);
    set_leap_seconds(cur);
    let n = range(1, 8);
    let mut what = vec![];
    for _ in 0..n {
        let new = if chance(1, 4) { cur } else { pick(&[cur + 1, cur - 1, choose(100) as i32, 1000 + cur]) };
        let x = origin();
        let after = choose(90);
        let op = choose(14);
        unsafe { NEW_LEAP = new };
        let e = 315_964_800i128 * G;
        let utc_tai = |l: i32| (10 + l) as i128 * G;
        let utc_gps = |l: i32| -e + (10 + l - 19) as i128 * G;
        let ep = MissionEpoch::new_tai(t(x));
        let tps = 1_000_000u64;
        let ku = TimeKeeper::<UTC>::new(ep, 5, tps);
        let kg = TimeKeeper::<GPS>::new(ep, 5, tps);
        let run = |f: &dyn Fn() -> i128| step::with_interrupt(after, isr, f);
        let ((got, hit), a, b, name) = match op {
            0 => (run(&|| ns(t::<UTC>(x).to_tai())), x + utc_tai(cur), x + utc_tai(new), "UTC->TAI"),
            1 => (run(&|| ns(t::<TAI>(x).to_utc())), x - utc_tai(cur), x - utc_tai(new), "TAI->UTC"),
            2 => (run(&|| ns(t::<UTC>(x).to_gps())), x + utc_gps(cur), x + utc_gps(new), "UTC->GPS"),
            3 => (run(&|| ns(t::<GPS>(x).to_utc())), x - utc_gps(cur), x - utc_gps(new), "GPS->UTC"),
            4 => (run(&|| ns(t::<UTC>(x).to_unix())), x, x, "UTC->Unix"),
            5 => (run(&|| ns(t::<Unix>(x).to_utc())), x, x, "Unix->UTC"),
            6 => (run(&|| ns(t::<GPS>(x).to_tai())), x + e + 19 * G, x + e + 19 * G, "GPS->TAI"),
            7 => (run(&|| ns(t::<TAI>(x).to_gps())), x - e - 19 * G, x - e - 19 * G, "TAI->GPS"),
            8 => (run(&|| ns(ku.now_utc(5 + 3_500_000))), x + 3_500_000_000 - utc_tai(cur), x + 3_500_000_000 - utc_tai(new), "mission UTC"),
            9 => (run(&|| ns(kg.now_gps(5 + 3_500_000))), x + 3_500_000_000 - e - 19 * G, x + 3_500_000_000 - e - 19 * G, "mission GPS"),
            10 => (run(&|| ns(MissionEpoch::new_utc(t(x)).start())), x + utc_tai(cur), x + utc_tai(new), "mission epoch"),
            11 => (run(&|| ns(t::<Unix>(x).to_utc().to_tai())), x + utc_tai(cur), x + utc_tai(new), "Unix->UTC->TAI"),
            12 => (run(&|| tai_minus_utc() as i128), (10 + cur) as i128, (10 + new) as i128, "TAI-UTC"),
            _ => (run(&|| ns(ku.now_tai(5 + 3_500_000))), x + 3_500_000_000, x + 3_500_000_000, "mission TAI"),
        };
        what.push(format!("{name}@{after}"));
        ev(|| format!("{name} interrupted={hit} after {after}: {cur}->{new}: {got}"));
        if hit {
            probe("interrupted");
            fired("interrupt");
            if a != b && got == b {
                probe("changed_result");
            }
            if a == b && cur != new {
                probe("unaffected_conversion");
            }
            check!(got == a || got == b, "torn", "{name} of {x} gave {got}; with {cur} leap seconds it is {a}, with {new} it is {b}");
            cur = new;
        } else {
            check!(got == a, "wrong", "{name} of {x} with {cur} leap seconds gave {got} instead of {a}");
        }
        if chance(1, 2) {
            // the update itself is interrupted, and the handler converts
            let new = pick(&[cur, cur + 1, cur - 1, choose(100) as i32]);
            let x = origin();
            let op = choose(6);
            let after = choose(24);
            let at = |l: i32| match op {
                0 | 5 => x + utc_tai(l),
                1 => x - utc_tai(l),
                2 => x + utc_gps(l),
                3 => x - utc_gps(l),
                _ => x + e + 19 * G,
            };
            unsafe {
                READ_AT = x;
                READ_OP = op;
            }
            let (_, hit) = step::with_interrupt(after, reader, || set_leap_seconds(new));
            let got = unsafe { READ };
            what.push(format!("update@{after}"));
            ev(|| format!("update {cur}->{new} interrupted={hit} after {after}: {op} of {x} gave {got}"));
            if hit {
                probe("update_interrupted");
                fired("interrupt");
                check!(got == at(cur) || got == at(new), "torn", "conversion {op} of {x} during the update gave {got}; with {cur} leap seconds it is {}, with {new} it is {}", at(cur), at(new));
            }
            cur = new;
        }
        // with the setting at rest: exact values and round trips
        let y = origin();
        let rt = call("round trip", || {
            let u = t::<UTC>(y);
            [
                ns(u.to_tai().to_utc()),
                ns(u.to_gps().to_utc()),
                ns(u.to_unix().to_utc()),
                ns(t::<TAI>(y).to_utc().to_tai()),
                ns(t::<TAI>(y).to_gps().to_tai()),
                ns(t::<GPS>(y).to_tai().to_gps()),
                ns(t::<GPS>(y).to_utc().to_gps()),
                ns(t::<Unix>(y).to_utc().to_unix()),
            ]
        });
        check!(rt.iter().all(|r| *r == y), "round-trip", "{y} came back as {rt:?} with {cur} leap seconds");
        let z = call("to_tai", || ns(t::<UTC>(y).to_tai()) - y);
        check!(z == utc_tai(cur), "stale", "TAI-UTC is {z} ns with {cur} leap seconds in force");
        let z = call("to_gps", || ns(t::<UTC>(y).to_gps()) - y);
        check!(z == utc_gps(cur), "stale", "GPS-UTC is {z} ns with {cur} leap seconds in force");
    }
    describe(what.join(" "));
}

// ------------------------------------------------------------------ C25
fn gps_week() {
    const WEEK: i64 = 604_800;
    let resolve = |sec: i64, nano: i32, hint: u32| -> GpsWeekTime {
        let r = call("to_gps_week", || Time::<GPS>::new(sec, nano).to_gps_week(hint));
        let week = sec / WEEK;
        check!((r.raw_week as i64) == week % 1024 && (0..WEEK).contains(&r.sow), "fields", "{sec} s gave raw week {} and {} s of week", r.raw_week, r.sow);
        check!((r.raw_week as i64 * WEEK + r.sow - sec).rem_euclid(1024 * WEEK) == 0, "recombine", "raw week {} and {} s of week do not recombine to {sec} s", r.raw_week, r.sow);
        // nearest non-negative congruent week
        let raw = week % 1024;
        let h = hint as i64;
        let k = (h - raw).div_euclid(1024);
        let best = (k - 1..=k + 2).map(|i| raw + i * 1024).filter(|w| *w >= 0).map(|w| (w - h).abs()).min().unwrap();
        let got = r.full_week as i64;
        check!(got % 1024 == raw, "not-congruent", "full week {got} for raw week {raw}");
        check!((got - h).abs() == best, "not-nearest", "week {got} resolved from raw {raw} and remembered {h}: {} weeks off, {best} possible", (got - h).abs());
        r
    };
    // a mission: true week advances, the receiver remembers
    let mut week: i64 = match choose(4) {
        0 => choose(600) as i64,
        1 => range(0, 5000) as i64,
        2 => 1024 * choose(5) as i64 + pick(&[0, 1, 511, 512, 513, 1023]),
        _ => choose(2_000_000) as i64,
    };
    let mut hint = week as u32;
    let mut saved = hint;
    describe(format!("receiver first switched on in week {week}"));
    for _ in 0..range(1, 40) {
        let prev = week;
        week += match choose(5) {
            0 => 0,
            1 => 1,
            2 => choose(512) as i64,
            3 => 511,
            _ => choose(60) as i64,
        };
        if week - prev > 100 {
            probe("outage");
            fired("outage");
        }
        if week / 1024 != prev / 1024 {
            probe("rollover");
        }
        if chance(1, 4) {
            // crash: only the persisted week survives, possibly a stale one
            fired("crash_restart");
            probe("restart");
            nontrivial();
            if saved != hint {
                probe("stale_hint");
            }
            hint = saved;
        }
        sim().mono += (week - prev) as u64 * WEEK as u64 * 1_000_000_000 / 1000;
        if hint < 512 {
            probe("hint_below_512");
        }
        let sow = pick(&[0, WEEK - 1, choose(WEEK as u64) as i64]);
        let r = resolve(week * WEEK + sow, choose(G as u64) as i32, hint);
        ev(|| format!("week {week} hint {hint} -> {}", r.full_week));
        check!(r.sow == sow, "sow", "seconds of week {} instead of {sow}", r.sow);
        if (week - hint as i64).abs() <= 511 {
            check!(r.full_week as i64 == week, "wrong-week", "true week {week}, remembered {hint}: resolved {}", r.full_week);
            hint = r.full_week;
        } else {
            hint = week as u32;
        }
        if chance(1, 2) {
            saved = hint;
        }
        // the resolver on any remembered number
        let h = pick(&[choose(1100) as u32, log_choice(1 << 31) as u32, hint, (week + 512) as u32, (week as u32).saturating_sub(512)]);
        resolve(choose(1024 * 4) as i64 * WEEK + choose(WEEK as u64) as i64, 0, h);
        resolve(log_choice(1 << 50) as i64, 0, h);
    }
}

// ------------------------------------------------------------------ C31
#[derive(Clone)]
struct Node {
    now: (Time<TAI>, i128),
    start: (Time<TAI>, i128),
    total: (Duration, i128),
    best: Option<(Duration, i128)>,
    stamps: Vec<(Time<TAI>, i128)>,
}
fn dn(d: Duration) -> i128 {
    d.sec as i128 * G + d.nano_sec as i128
}
/// A span of `v` nanoseconds, however the program comes by it.
fn span(v: i128) -> (Duration, i128) {
    let d = match choose(7) {
        0 => call("from_nanos", || Duration::from_nanos(v as i64)),
        1 => call("from_nanos_i64", || Duration::from_nanos_i64(v as i64)),
        2 if v % 1000 == 0 => call("from_micros", || Duration::from_micros((v / 1000) as i64)),
        3 if v % 1_000_000 == 0 => call("from_millis", || Duration::from_millis((v / 1_000_000) as i64)),
        4 if v % G == 0 => call("from_secs", || Duration::from_secs((v / G) as i64)),
        5 => {
            let k = signed(choose(3 * G as u64));
            call("sub", || Duration::from_nanos((v + k) as i64) - Duration::from_nanos(k as i64))
        }
        6 => {
            // fields filled in by hand
            let sec = (v - choose(1 << 32) as i32 as i128).div_euclid(G) as i64;
            match i32::try_from(v - sec as i128 * G) {
                Ok(nano_sec) => call("normalize", || Duration { sec, nano_sec }.normalize()),
                Err(_) => call("from_nanos", || Duration::from_nanos(v as i64)),
            }
        }
        _ => call("sub", || t::<TAI>(v) - t::<TAI>(0)),
    };
    check!(dn(d) == v, "wrong-span", "a span of {v} ns became {} s {} ns", d.sec, d.nano_sec);
    (d, v)
}
fn length() -> i128 {
    let v = match choose(8) {
        0 => 0,
        1 => 1,
        2 => choose(2 * G as u64) as i128,
        3 => choose(3000) as i128 * 1_000_000,
        4 => choose(5) as i128 * G,
        5 => pick(&[G - 1, G + 1, 500_000_000, 999_000_000]),
        6 => choose(2_000_000) as i128 * 1000,
        _ => log_choice(1 << 56) as i128,
    };
    if v > 0 && chance(1, 3) {
        -v
    } else {
        v
    }
}
fn advance(x: &mut (Time<TAI>, i128), by: (Duration, i128)) {
    let at = x.0;
    x.0 = if chance(1, 2) {
        probe("by_reference");
        call("add", || &at + by.0)
    } else {
        call("add", || at + by.0)
    };
    x.1 += by.1;
    check!(ns(x.0) == x.1 && norm(x.0), "wrong-instant", "{} ns plus {} s {} ns gave {} s {} ns", x.1 - by.1, by.0.sec, by.0.nano_sec, x.0.sec, x.0.nano_sec);
}
fn between(a: &(Time<TAI>, i128), b: &(Time<TAI>, i128)) -> (Duration, i128) {
    let d = if chance(1, 2) {
        probe("by_reference");
        call("sub", || &a.0 - &b.0)
    } else {
        call("sub", || a.0 - b.0)
    };
    check!(dn(d) == a.1 - b.1, "wrong-difference", "from {} ns to {} ns: {} s {} ns", b.1, a.1, d.sec, d.nano_sec);
    check!(a.0.cmp(&b.0) == a.1.cmp(&b.1) && (a.0 == b.0) == (a.1 == b.1) && a.0.partial_cmp(&b.0) == Some(a.1.cmp(&b.1)), "wrong-order", "instants {} and {} ns compare wrongly", a.1, b.1);
    (d, a.1 - b.1)
}
fn compare(a: &(Duration, i128), b: &(Duration, i128)) -> std::cmp::Ordering {
    probe("compared");
    let want = a.1.cmp(&b.1);
    if want.is_eq() {
        probe("equal_spans");
    }
    let (c, p, e) = call("cmp", || (a.0.cmp(&b.0), a.0.partial_cmp(&b.0), a.0 == b.0));
    check!(c == want && p == Some(want) && e == want.is_eq(), "wrong-order", "spans of {} ns ({} s {} ns) and {} ns ({} s {} ns) compare {c:?}, equal: {e}", a.1, a.0.sec, a.0.nano_sec, b.1, b.0.sec, b.0.nano_sec);
    c
}
fn nodes() {
    let n = range(2, 3) as usize;
    let base = origin().clamp(-(1 << 70), 1 << 70) / 2;
    let mut node: Vec<Node> = (0..n)
        .map(|_| {
            let at = base + length();
            let now = (t(at), at);
            Node { now, start: now, total: (Duration::zero(), 0), best: None, stamps: vec![] }
        })
        .collect();
    describe(format!("{n} nodes, starting around {base} ns"));
    let mut saved: Vec<Option<Node>> = vec![None; n];
    // to, stamp
    let mut net: Vec<(usize, (Time<TAI>, i128))> = vec![];
    let limit = span(length());
    for _ in 0..range(4, 60) {
        let k = choose(n as u64) as usize;
        match choose(12) {
            0 | 1 | 2 => {
                // time passes
                let dt = length().abs();
                sim().mono += (dt as u64).min(1 << 40);
                for nd in node.iter_mut() {
                    let by = span(dt);
                    advance(&mut nd.now, by);
                }
            }
            3 => {
                let by = span(length());
                fired("clock_step");
                if by.1 < 0 {
                    probe("clock_step_back");
                }
                advance(&mut node[k].now, by);
            }
            4 | 5 | 6 => {
                let to = (k + 1 + choose(n as u64 - 1) as usize) % n;
                net.push((to, node[k].now));
                if chance(1, 6) {
                    net.push((to, node[k].now));
                    fired("message_duplicated");
                    probe("duplicated");
                }
            }
            7 | 8 | 9 => {
                if net.is_empty() {
                    continue;
                }
                let i = choose(net.len() as u64) as usize;
                if i > 0 {
                    fired("message_reordered");
                    probe("reordered");
                }
                let (to, stamp) = net.remove(i);
                if chance(1, 8) {
                    fired("message_lost");
                    probe("lost");
                    continue;
                }
                probe("delivered");
                let nd = &mut node[to];
                let d = between(&nd.now, &stamp);
                if d.1 < 0 {
                    probe("negative_delay");
                }
                compare(&d, &limit);
                compare(&d, &span(d.1));
                let old = nd.total;
                nd.total = (call("add", || old.0 + d.0), old.1 + d.1);
                check!(dn(nd.total.0) == nd.total.1, "wrong-total", "{} ns plus {} ns gave {} s {} ns", old.1, d.1, nd.total.0.sec, nd.total.0.nano_sec);
                probe("total_checked");
                let smaller = nd.best.map_or(true, |b| compare(&d, &b).is_lt());
                if smaller {
                    nd.best = Some(d);
                }
                if let Some(b) = nd.best {
                    // how much worse than the best this one was
                    let x = call("sub", || d.0 - b.0);
                    check!(dn(x) == d.1 - b.1, "wrong-difference", "{} ns minus {} ns gave {} s {} ns", d.1, b.1, x.sec, x.nano_sec);
                    compare(&(x, d.1 - b.1), &(Duration::zero(), 0));
                    let s = call("max", || (d.0.max(b.0), d.0.min(b.0)));
                    check!(dn(s.0) == d.1.max(b.1) && dn(s.1) == d.1.min(b.1), "wrong-order", "the larger and smaller of {} and {} ns are wrong", d.1, b.1);
                }
                nd.stamps.push(stamp);
                let mut order = nd.stamps.clone();
                call("sort", || order.sort_by(|a, b| a.0.cmp(&b.0)));
                check!(order.windows(2).all(|w| w[0].1 <= w[1].1), "wrong-order", "time stamps were sorted wrongly");
                if order.len() > 1 {
                    probe("sorted");
                }
            }
            10 => {
                saved[k] = Some(node[k].clone());
            }
            _ => {
                if let Some(s) = &saved[k] {
                    fired("crash_restart");
                    probe("restored");
                    // the restarted node takes the time from its clock, the rest from its copy
                    let now = node[k].now;
                    node[k] = Node { now, ..s.clone() };
                }
            }
        }
        let nd = &node[k];
        let up = between(&nd.now, &nd.start);
        // the way back
        let mut again = nd.start;
        advance(&mut again, up);
        check!(again.0 == nd.now.0, "not-reversible", "start plus uptime is not now");
        nontrivial();
    }
}
