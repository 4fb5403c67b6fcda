//! C01–C06: the live CSV tailer.
use super::csv::*;
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter, PlotStyle};

const PATH: &str = "/sim/run/data.csv";
const REAL: &[&str] = &["aether_viz::realtime (CsvRealtimePlotter)", "std file I/O above libc"];
const STUB: &[&str] = &["libc file calls: in-memory file system", "the CSV writer: environment actor"];
const ASSUME: &[&str] = &[
    "a replaced file is observable: it differs in device, inode or birth time, or is shorter than what was read",
    "files are valid UTF-8 once the writer finishes a character",
];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 25_000, thorough: 600_000, rule: "", want: &[], real: REAL, stub: STUB, assume: ASSUME };
    vec![
        Prop { id: "C01", run: || history(Mode { rotate: false, faults: false, switch: false, cap: false, missing: false }),
            rule: "A writer appends a generated CSV (numbers in many formats, CRLF, multi-byte text, malformed rows) split at random bytes, its appends placed between any two system calls of the reader; reads are short or interrupted at random.",
            want: &["append_mid_poll", "short_read", "poll_changed", "held_back_tail", "repeated_row", "header_again", "huge_file", "long_line"], ..base },
        Prop { id: "C02", run: || history(Mode { rotate: true, faults: false, switch: false, cap: false, missing: false }),
            rule: "As C01 with the file replaced, truncated, deleted and recreated between any two system calls of the reader.",
            want: &["rotate_mid_poll", "rotate_rename", "rotate_truncate", "rotate_reuse_inode", "rotate_delete"], ..base },
        Prop { id: "C03", run: || history(Mode { rotate: true, faults: true, switch: true, cap: false, missing: false }),
            rule: "As C02 with open, stat, seek and read failures at any call of any poll, and column switches.",
            want: &["eio_read", "open_eio", "stat_error", "seek_error", "poll_err", "rotate_mid_poll", "switch_err"], ..base },
        Prop { id: "C04", run: || history(Mode { rotate: true, faults: chance(1, 2), switch: true, cap: true, missing: true }),
            rule: "As C03 with a point cap, files of different column order and files lacking a selected column.",
            want: &["missing_column_error", "cap_reached", "switch_ok", "rotate_mid_poll"], ..base },
        Prop { id: "C05", run: || history(Mode { rotate: chance(1, 3), faults: chance(1, 3), switch: true, cap: false, missing: false }),
            rule: "Sequences of column switches interleaved with appends, rotations and faults; each is compared with a fresh plotter.",
            want: &["switch_ok", "switch_err", "switch_with_partial_line", "compared_with_fresh"], ..base },
        Prop { id: "C06", run: plot_loop, quick: 6000, thorough: 60_000,
            rule: "run_forever in its own thread under a simulated clock, data appended, replaced, deleted and recreated at random times and inside polls; short, interrupted and failing image writes.",
            want: &["image_checked", "curve_checked", "rate_checked", "short_write", "loop_ended_on_disk_fault", "rotate_mid_poll"],
            real: &["aether_viz::realtime::run_forever", "aether_viz::plot_series", "plotters (SVG)"],
            stub: &["clock, sleep and threads", "libc file calls: in-memory file system", "the CSV writer"], ..base },
        Prop { id: "C28", run: saved_plots, quick: 3000, thorough: 100_000,
            rule: "One to three threads save and overwrite plots of generated data (with NaN and infinite points) while opens fail, writes are short, interrupted, fail or fill the disk, and plotted functions panic. Each image must be the one of its data, or the call must report the failure.",
            want: &["plot_saved", "plot_failed", "threads", "no_finite_points", "overwritten", "error_plot", "not_saved", "callback_panic", "enospc", "eio_write", "short_write", "eintr", "open_eacces", "line_checked", "points_checked"],
            real: &["aether_viz::plot_series, plot, plot_error_on_grid", "plotters (SVG)"],
            stub: &["threads and their scheduling", "libc file calls: in-memory file system"],
            assume: &["system fonts are read from the host", "the spread of the plotted values does not overflow"], ..base },
    ]
}

#[derive(Clone, Copy)]
struct Mode {
    rotate: bool,
    faults: bool,
    switch: bool,
    cap: bool,
    missing: bool,
}

struct World {
    gens: Vec<Gen>,
    cur: Option<usize>,
    written: usize,
    /// number of non-append changes so far
    changes: u64,
    /// bytes of the current file the reader has certainly consumed (a later truncation must go below it)
    consumed: usize,
    /// while set, the file may not grow to this length (truncation not yet observed)
    hold_below: Option<usize>,
    in_poll: bool,
    mode: Mode,
    header: bool,
    utf8: bool,
    frozen: bool,
    rotations_left: u64,
    big: bool,
    /// many kilobytes in one file
    huge: bool,
    values: Values,
    time: &'static str,
}
static mut W: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

fn new_gen(n: usize) -> Gen {
    let ww = w();
    let rows = if ww.huge {
        probe("huge_file");
        if ww.values == Values::Repeating {
            range(20_000, 60_000)
        } else {
            range(2_000, 9_000)
        }
    } else if ww.big {
        range(200, 500)
    } else {
        range(1, 14)
    };
    make_gen(
        n as u64,
        &GenOpts {
            header: ww.header,
            rows,
            malformed: chance(1, 2),
            crlf: chance(1, 3),
            utf8: ww.utf8,
            drop_col: if ww.mode.missing && ww.header && chance(1, 4) { Some(1 + choose(5) as usize) } else { None },
            shuffle: ww.header && chance(1, 2),
            values: ww.values,
            time: ww.time,
            long_lines: !ww.big && chance(1, 40),
        },
    )
}

impl World {
    fn bytes(&self) -> &[u8] {
        match self.cur {
            Some(g) => &self.gens[g].plan[..self.written],
            None => &[],
        }
    }
    fn append(&mut self, v: &mut Vfs, max: usize) {
        let Some(g) = self.cur else { return };
        let left = self.gens[g].plan.len() - self.written;
        let mut n = (1 + log_choice((max as u64).max(1)) as usize).min(left);
        if let Some(h) = self.hold_below {
            n = n.min(h.saturating_sub(1).saturating_sub(self.written));
        }
        if n == 0 {
            return;
        }
        let part = self.gens[g].plan[self.written..self.written + n].to_vec();
        v.append(PATH, &part);
        self.written += n;
        ev(|| format!("writer appends {n} bytes -> {}", self.written));
        if self.in_poll {
            probe("append_mid_poll");
            nontrivial();
        }
    }
    fn rotate(&mut self, v: &mut Vfs) {
        if self.rotations_left == 0 {
            return;
        }
        self.rotations_left -= 1;
        let kind = choose(5);
        let old_len = self.written;
        let g = self.gens.len();
        self.gens.push(new_gen(g));
        let plan = &self.gens[g].plan;
        let first = choose(plan.len() as u64 + 1) as usize;
        match kind {
            0 => {
                v.put(PATH, &plan[..first]);
                self.cur = Some(g);
                self.written = first;
                probe("rotate_rename");
                ev(|| format!("file replaced by generation {g} with {first} bytes"));
            }
            1 => {
                // in-place truncation, provably below what has been read
                let limit = self.consumed;
                if self.cur.is_none() || limit == 0 || self.hold_below.is_some() {
                    self.gens.pop();
                    return;
                }
                let keep = first.min(limit - 1);
                let i = v.lookup(PATH).unwrap();
                *v.data_mut(i) = plan[..keep].to_vec();
                self.cur = Some(g);
                self.written = keep;
                self.hold_below = Some(limit);
                probe("rotate_truncate");
                ev(|| format!("file truncated in place to {keep} bytes of generation {g} (reader is past {limit})"));
            }
            2 => {
                if !v.has_btime {
                    v.put(PATH, &plan[..first]);
                } else {
                    v.put_reusing_ino(PATH, &plan[..first]);
                    probe("rotate_reuse_inode");
                }
                self.cur = Some(g);
                self.written = first;
                ev(|| format!("file replaced (same inode number) by generation {g} with {first} bytes"));
            }
            3 => {
                self.gens.pop();
                if self.cur.is_none() {
                    return;
                }
                v.remove(PATH);
                self.cur = None;
                self.written = 0;
                probe("rotate_delete");
                ev(|| "file deleted".into());
            }
            _ => {
                let same_size = old_len.min(plan.len());
                v.put(PATH, &plan[..same_size]);
                self.cur = Some(g);
                self.written = same_size;
                ev(|| format!("file replaced by generation {g} of the same length {same_size}"));
            }
        }
        self.changes += 1;
        self.consumed = 0;
        if kind != 1 {
            self.hold_below = None;
        }
        nontrivial();
        fired("file_rotation");
        if self.in_poll {
            probe("rotate_mid_poll");
        }
    }
    fn ensure_file(&mut self, v: &mut Vfs) {
        if self.cur.is_none() {
            let g = self.gens.len();
            self.gens.push(new_gen(g));
            let first = choose(self.gens[g].plan.len() as u64 + 1) as usize;
            v.put(PATH, &self.gens[g].plan[..first]);
            self.cur = Some(g);
            self.written = first;
            self.changes += 1;
            self.consumed = 0;
            self.hold_below = None;
            ev(|| format!("file created: generation {g} with {first} bytes"));
        }
    }
}

fn actor(v: &mut Vfs, _op: Op) {
    let ww = w();
    if ww.frozen || !ww.in_poll {
        return;
    }
    match choose(8) {
        6 => ww.append(v, if ww.big { 4000 } else { 60 }),
        7 if ww.mode.rotate && chance(1, 3) => {
            if ww.cur.is_none() {
                ww.ensure_file(v)
            } else {
                ww.rotate(v)
            }
        }
        _ => {}
    }
}

struct Shown {
    x: Vec<f64>,
    ys: Vec<Vec<f64>>,
}
fn shown(p: &CsvRealtimePlotter) -> Shown {
    Shown { x: p.x_values().to_vec(), ys: p.y_values().to_vec() }
}
fn rows_of(s: &Shown) -> Vec<Vec<f64>> {
    (0..s.x.len()).map(|i| std::iter::once(s.x[i]).chain(s.ys.iter().map(|y| y[i])).collect()).collect()
}
fn brief(r: &[Vec<f64>]) -> String {
    let f = |r: &Vec<f64>| format!("{:?}", r);
    if r.len() <= 6 {
        format!("{:?}", r)
    } else {
        format!("{} rows {} … {}", r.len(), f(&r[0]), f(&r[r.len() - 1]))
    }
}

fn history(mode: Mode) {
    let header = mode.missing || !chance(1, 4);
    let huge = chance(1, 120);
    unsafe {
        W = Some(World {
            gens: vec![],
            cur: None,
            written: 0,
            changes: 0,
            consumed: 0,
            hold_below: None,
            in_poll: false,
            mode,
            header,
            utf8: header && chance(1, 2),
            frozen: false,
            rotations_left: if mode.rotate { range(1, 6) } else { 0 },
            big: huge || chance(1, 25),
            huge,
            values: if chance(1, 3) { pick(&[Values::Repeating, Values::Wild]) } else { Values::Unique },
            time: if chance(1, 3) { pick(&TIMES) } else { "time" },
        })
    };
    let s = sim();
    s.vfs.mkdirs("/sim/run");
    s.vfs.has_btime = chance(3, 4);
    if chance(3, 4) {
        w().ensure_file(&mut s.vfs);
    }
    s.actor = Some(Box::new(actor));
    let all: Vec<String> = if header { COLS.iter().map(|c| c.to_string()).collect() } else { (1..6).map(|i| i.to_string()).collect() };
    let xcol = if header { w().time.to_string() } else { "0".to_string() };
    let pick_cols = || -> Vec<String> {
        let n = range(1, 3);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let c = all[choose(all.len() as u64) as usize].clone();
            if !v.contains(&c) {
                v.push(c);
            }
        }
        if chance(1, 12) {
            v.clear();
        }
        v
    };
    let mut cols = pick_cols();
    if !mode.switch && cols.is_empty() {
        cols = vec![all[0].clone()];
    }
    let cap = if mode.cap && chance(2, 3) { Some(choose(9) as usize) } else { None };
    let cfg = |cols: &Vec<String>| CsvRealtimeConfig {
        csv_path: PATH.into(),
        output_path: "/sim/run/out.svg".into(),
        title: "t".into(),
        x_column: xcol.clone(),
        y_columns: cols.clone(),
        x_label: None,
        y_label: None,
        style: PlotStyle::Line,
        has_header: header,
        poll_hz: 5.0,
        max_points: cap,
    };
    enable(Fault::ShortRead, 1, 6);
    enable(Fault::Eintr, 1, 12);
    if mode.faults {
        for f in [Fault::EioRead, Fault::OpenEio, Fault::OpenEmfile, Fault::OpenEnoent, Fault::OpenEacces, Fault::StatErr, Fault::SeekErr] {
            enable(f, 1, 24);
        }
        set_fault_budget(range(1, 6) as u32);
    } else {
        set_fault_budget(0);
    }
    describe(format!("mode rotate={} faults={} switch={} cap={cap:?} missing={} header={header} cols={cols:?}", mode.rotate, mode.faults, mode.switch, mode.missing));

    let mut p = CsvRealtimePlotter::new(cfg(&cols));
    let polls = range(3, 14);
    let mut inited = false;
    let mut last_rows: Vec<Vec<f64>> = vec![];
    // a poll since this file and selection came together has already failed
    let mut reported = false;
    let mut seen_changes = 0;
    for k in 0..polls + 2 {
        let last = k >= polls; // the last two polls run with the writer paused and no faults
        if k == polls {
            // writer finishes; faults stop
            faults_off();
            enable(Fault::ShortRead, 1, 6);
            let ww = w();
            if ww.cur.is_none() {
                ww.ensure_file(&mut sim().vfs);
            }
            if ww.hold_below.is_some() {
                // an unobserved truncation limits how far this file may grow: finish with a fresh one
                let g = ww.gens.len();
                ww.gens.push(new_gen(g));
                sim().vfs.put(PATH, b"");
                ww.cur = Some(g);
                ww.written = 0;
                ww.changes += 1;
                ww.consumed = 0;
                ww.hold_below = None;
                ev(|| format!("file replaced by empty generation {g}"));
            }
            while {
                let before = ww.written;
                ww.append(&mut sim().vfs, 1 << 20);
                ww.written > before
            } {}
            ww.frozen = true;
            ev(|| "writer paused, faults stopped".into());
        } else if k > 0 && !last {
            for _ in 0..choose(3) {
                let ww = w();
                if ww.mode.rotate && chance(1, 5) {
                    if ww.cur.is_none() {
                        ww.ensure_file(&mut sim().vfs)
                    } else {
                        ww.rotate(&mut sim().vfs)
                    }
                } else if ww.cur.is_none() {
                    if chance(1, 2) {
                        ww.ensure_file(&mut sim().vfs)
                    }
                } else {
                    ww.append(&mut sim().vfs, if ww.huge { 400_000 } else if ww.big { 20_000 } else { 80 });
                }
            }
        }
        let start_changes = w().changes;
        let start_len = w().written;
        let start_present = w().cur.is_some();
        let hard_before = hard_faults();
        let enoent_before = sim().fault_fired.get("open_enoent").copied().unwrap_or(0);
        let hold_at_start = w().hold_below;
        w().in_poll = true;
        let action = if !last && (if inited { chance(1, 12) } else { chance(3, 4) }) {
            0
        } else if mode.switch && !last && chance(1, 4) {
            2
        } else {
            1
        };
        if action != 1 || seen_changes != start_changes {
            reported = false;
        }
        if action != 1 {
            // reads from the start: an in-place rewrite under it cannot be told from the file's own content
            w().consumed = 0;
        }
        let (res, what): (Result<bool, String>, &str) = match action {
            0 => (sut(|| p.initialize().map(|_| true).map_err(|e| e.to_string())).unwrap_or_else(|m| violation("panic", &format!("initialize panicked: {m}"))), "initialize"),
            2 => {
                let new = pick_cols();
                cols = new.clone();
                let r = sut(|| p.set_y_columns(new).map(|_| true).map_err(|e| e.to_string())).unwrap_or_else(|m| violation("panic", &format!("set_y_columns panicked: {m}")));
                probe(if r.is_ok() { "switch_ok" } else { "switch_err" });
                (r, "set_y_columns")
            }
            _ => (sut(|| p.update_once().map_err(|e| e.to_string())).unwrap_or_else(|m| violation("panic", &format!("update_once panicked: {m}"))), "update_once"),
        };
        inited = true;
        w().in_poll = false;
        let faulted = hard_faults() > hard_before;
        // an injected ENOENT means the file was absent for that instant: nothing (new) to show
        let absent = sim().fault_fired.get("open_enoent").copied().unwrap_or(0) > enoent_before;
        let sh = shown(&p);
        ev(|| format!("{what} -> {res:?}; {} points", sh.x.len()));
        if res.is_err() {
            probe("poll_err");
            reported = true;
        } else if w().changes != start_changes {
            reported = false;
        }
        seen_changes = w().changes;
        let ww = w();

        // --- invariants that hold at every instant
        check!(sh.ys.len() == cols.len(), "column-count", "{} columns shown for the {} selected", sh.ys.len(), cols.len());
        for (i, y) in sh.ys.iter().enumerate() {
            check!(y.len() == sh.x.len(), "misaligned", "after {what} -> {res:?}: column {} has {} points, x has {}", cols[i], y.len(), sh.x.len());
        }
        if let Some(c) = cap {
            check!(sh.x.len() <= c, "cap", "{} points kept with a cap of {c}", sh.x.len());
            if sh.x.len() == c {
                probe("cap_reached");
            }
        }
        check!(p.selected_y_columns() == &cols[..], "selection", "selected columns {:?}, expected {:?}", p.selected_y_columns(), cols);
        let rows = rows_of(&sh);
        let changed_mid = ww.changes != start_changes;

        // --- the series must be a window of some generation's rows
        let window = |g: usize, lo: usize, hi: usize| -> Option<usize> {
            let full = reference(&ww.gens[g].plan, header, &xcol, &cols).rows;
            let hi = hi.min(full.len());
            (lo..=hi).find(|m| {
                let from = cap.map_or(0, |c| m.saturating_sub(c));
                full[from..*m] == rows[..]
            })
        };
        let count = |g: usize, n: usize| reference(&ww.gens[g].plan[..n], header, &xcol, &cols).rows.len();

        // which file the poll was about, if that is certain
        if !changed_mid && start_present {
            let g = ww.cur.unwrap();
            let rd_lo = reference(&ww.gens[g].plan[..start_len], header, &xcol, &cols);
            let (lo, hi) = (count(g, start_len), count(g, ww.written));
            let rd_hi = reference(&ww.gens[g].plan[..ww.written], header, &xcol, &cols);
            match &res {
                Ok(ch) => {
                    let m = window(g, lo, hi);
                    if m.is_none() {
                        let excused = absent && (rows.is_empty() || rows == last_rows && what == "update_once") || !*ch && faulted && rows == last_rows && what == "update_once";
                        if !excused {
                            let class = if rows.len() > hi && cap.is_none() {
                                "extra-rows"
                            } else if window(g, 0, hi).is_some() {
                                "rows-missing"
                            } else {
                                "wrong-rows"
                            };
                            violation(
                                class,
                                &format!(
                                    "{what} returned Ok({ch}) but the series are {} instead of the {}..={} complete rows of the current file {}",
                                    brief(&rows),
                                    lo,
                                    hi,
                                    brief(&reference(&ww.gens[g].plan[..ww.written], header, &xcol, &cols).rows)
                                ),
                            );
                        }
                    } else {
                        if rows != last_rows {
                            check!(*ch, "unreported-change", "the series changed but {what} returned Ok(false)");
                            probe("poll_changed");
                        }
                        // the poll completed on this file: everything up to start_len is consumed
                        if !faulted {
                            // a half-written character at the end may have been left for later
                            ww.consumed = match std::str::from_utf8(&ww.gens[g].plan[..start_len]) {
                                Ok(_) => start_len,
                                Err(e) => e.valid_up_to(),
                            };
                        }
                        if let (Some(h), Some(h2)) = (hold_at_start, ww.hold_below) {
                            if h == h2 && !faulted {
                                ww.hold_below = None;
                            }
                        }
                        if !ww.gens[g].plan[..ww.written].ends_with(b"\n") {
                            probe("held_back_tail");
                            if what == "set_y_columns" {
                                probe("switch_with_partial_line");
                            }
                        }
                        if header && !faulted && rd_lo.header.is_some() && !rd_lo.missing {
                            check!(p.available_columns() == &rd_hi.header.clone().unwrap()[..], "header", "columns offered {:?}, file has {:?}", p.available_columns(), rd_hi.header);
                        }
                        if rd_lo.missing {
                            // reading the header of a file lacking a selected column must not be reported as success
                            // by the poll that consumes it; later polls without new lines may return Ok(false)
                            check!(rows.is_empty(), "missing-column-points", "points shown for a file lacking a selected column");
                            check!(reported || faulted, "missing-column-silent", "no poll has reported that the file lacks a selected column");
                            check!(absent || what == "update_once", "missing-column-ok", "{what} succeeded on a file lacking a selected column");
                        }
                    }
                }
                Err(e) => {
                    if rd_lo.missing && !faulted {
                        check!(rows.is_empty(), "missing-column-points", "points shown for a file lacking a selected column");
                        probe("missing_column_error");
                    } else if !faulted && !rd_hi.missing {
                        let utf8_split = std::str::from_utf8(ww.bytes()).is_err() || ww.utf8;
                        check!(utf8_split, "spurious-error", "{what} failed without any fault: {e}");
                        probe("utf8_split_poll");
                    }
                }
            }
        }
        // whatever happened, rows shown are whole rows of one file, consecutive and in order
        if !rows.is_empty() {
            let mut ok = false;
            for g in 0..ww.gens.len() {
                if window(g, 0, usize::MAX).is_some() {
                    ok = true;
                    break;
                }
            }
            if !ok {
                violation("blend", &format!("after {what} -> {res:?} the series {} are not consecutive rows of any one file", brief(&rows)));
            }
        }
        if last && k == polls {
            match &res {
                Ok(_) => {}
                Err(e) => {
                    let g = ww.cur.unwrap();
                    let rd = reference(&ww.gens[g].plan, header, &xcol, &cols);
                    check!(rd.missing, "no-recovery", "faults have stopped and the writer is idle, yet the poll fails: {e}");
                }
            }
        }
        if last && !reference(ww.bytes(), header, &xcol, &cols).missing {
            // compare with a fresh plotter on the frozen file
            let g = ww.cur.unwrap();
            let m = window(g, count(g, ww.written), count(g, ww.written));
            check!(m.is_some(), "not-converged", "after a clean poll the series are {}, the file holds {}", brief(&rows), brief(&reference(ww.bytes(), header, &xcol, &cols).rows));
            let fresh = sut(|| {
                let mut f = CsvRealtimePlotter::new(cfg(&cols));
                f.initialize().map_err(|e| e.to_string())?;
                Ok::<_, String>(shown(&f))
            });
            match fresh {
                Ok(Ok(f)) => {
                    probe("compared_with_fresh");
                    check!(rows_of(&f) == rows, "differs-from-fresh", "a fresh plotter shows {}, this one {}", brief(&rows_of(&f)), brief(&rows));
                }
                other => {
                    let m = match other {
                        Ok(Err(m)) | Err(m) => m,
                        _ => unreachable!(),
                    };
                    violation("fresh-failed", &format!("a fresh plotter on the same file failed: {m}"))
                }
            }
        }
        last_rows = rows;
    }
}
fn hard_faults() -> u64 {
    let s = sim();
    s.fault_fired.iter().filter(|(k, _)| !matches!(k.as_str(), "eintr" | "short_read" | "file_rotation")).map(|(_, v)| *v).sum()
}

// ------------------------------------------------------------------ C06
static mut ENDED: Option<Result<(), String>> = None;
const OUT: &str = "/sim/run/out.svg";

fn read_sim(path: &str) -> Option<Vec<u8>> {
    sim().vfs.data(path).cloned()
}
/// Points of every polyline of the picture that has `n` of them.
fn polylines(svg: &str, n: usize) -> Vec<Vec<(f64, f64)>> {
    let mut out = vec![];
    for part in svg.split("<polyline").skip(1) {
        let Some(i) = part.find("points=\"") else { continue };
        let rest = &part[i + 8..];
        let Some(j) = rest.find('"') else { continue };
        let pts: Option<Vec<(f64, f64)>> = rest[..j]
            .split_whitespace()
            .map(|p| p.split_once(',').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))))
            .collect();
        if let Some(p) = pts {
            if p.len() == n {
                out.push(p);
            }
        }
    }
    out
}

fn plot_loop() {
    let header = !chance(1, 4);
    let mode = Mode { rotate: true, faults: false, switch: false, cap: false, missing: false };
    unsafe {
        W = Some(World {
            gens: vec![],
            cur: None,
            written: 0,
            changes: 0,
            consumed: 0,
            hold_below: None,
            in_poll: true,
            mode,
            header,
            utf8: header && chance(1, 2),
            frozen: false,
            rotations_left: range(0, 4),
            big: false,
            huge: false,
            values: if chance(1, 4) { Values::Repeating } else { Values::Unique },
            time: if chance(1, 3) { pick(&TIMES) } else { "time" },
        })
    };
    let s = sim();
    s.vfs.mkdirs("/sim/run");
    if chance(2, 3) {
        w().ensure_file(&mut s.vfs);
    }
    s.actor = Some(Box::new(actor));
    let all: Vec<String> = if header { COLS.iter().map(|c| c.to_string()).collect() } else { (1..6).map(|i| i.to_string()).collect() };
    let xcol = if header { w().time.to_string() } else { "0".to_string() };
    let ncol = range(1, 3) as usize;
    let first = choose(3) as usize;
    let cols: Vec<String> = all[first..(first + ncol)].to_vec();
    let hz = pick(&[5.0, 1.0, 0.5, 50.0, 1000.0, 0.01, 0.0, -3.0, f64::NAN]);
    let eff = if hz > 0.0 { hz } else { 5.0 };
    let dt = (1e9 / eff) as u64;
    let cap = if chance(1, 3) { Some(range(3, 8) as usize) } else { None };
    let style = pick(&[PlotStyle::Line, PlotStyle::Points]);
    let cfg = CsvRealtimeConfig {
        csv_path: PATH.into(),
        output_path: OUT.into(),
        title: "title".into(),
        x_column: xcol.clone(),
        y_columns: cols.clone(),
        x_label: if chance(1, 2) { Some("xx".into()) } else { None },
        y_label: if chance(1, 2) { Some("yy".into()) } else { None },
        style,
        has_header: header,
        poll_hz: hz,
        max_points: cap,
    };
    enable(Fault::ShortRead, 1, 8);
    enable(Fault::ShortWrite, 1, 4);
    enable(Fault::Eintr, 1, 12);
    set_fault_budget(0);
    let disk_fault = chance(1, 4);
    describe(format!("run_forever hz={hz} cols={cols:?} header={header} cap={cap:?} style={style:?} disk_fault={disk_fault}"));
    // time stamps of every access to the csv
    s.watch = Some((vec![PATH.to_string(), OUT.to_string()], vec![]));
    let c2 = cfg.clone();
    let h = sut(|| {
        std::thread::spawn(move || {
            let mut p = CsvRealtimePlotter::new(c2);
            let r = p.run_forever().map_err(|e| e.to_string());
            harness(|| core(|| unsafe { ENDED = Some(r) }));
        })
    })
    .unwrap();
    std::mem::forget(h);
    let mut broken = false;
    for round in 0..range(1, 4) {
        w().frozen = false;
        // activity
        for _ in 0..range(1, 5) {
            sched::idle(choose(3 * dt + 1));
            let ww = w();
            if ww.cur.is_none() {
                if chance(1, 2) {
                    ww.ensure_file(&mut sim().vfs);
                }
            } else if chance(1, 6) {
                ww.rotate(&mut sim().vfs);
            } else {
                ww.append(&mut sim().vfs, 120);
            }
            if disk_fault && chance(1, 3) {
                enable(pick(&[Fault::Enospc, Fault::EioWrite]), 1, 3);
                set_fault_budget(1);
                ev(|| "disk faults armed".into());
            }
        }
        set_fault_budget(0);
        enable(Fault::Enospc, 0, 1);
        enable(Fault::EioWrite, 0, 1);
        let ww = w();
        if ww.cur.is_none() {
            ww.ensure_file(&mut sim().vfs);
        }
        if chance(1, 2) || round > 0 {
            ww.append(&mut sim().vfs, 1 << 20);
        }
        ww.frozen = true;
        ev(|| "writer idle".into());
        let hard = hard_write_faults() > 0;
        // one period plus one poll (system calls take simulated microseconds)
        sched::idle(dt + 2_000_000);
        if let Some(r) = unsafe { ENDED.clone() } {
            if r.is_err() && hard {
                probe("loop_ended_on_disk_fault");
                return;
            }
            violation("loop-ended", &format!("run_forever returned {r:?} without a disk fault"));
        }
        broken |= hard;
        let rd = reference(ww.bytes(), header, &xcol, &cols);
        let rows = &rd.rows[rd.rows.len().saturating_sub(cap.unwrap_or(usize::MAX))..];
        let img = read_sim(OUT);
        if rows.is_empty() {
            continue;
        }
        probe("image_checked");
        nontrivial();
        let Some(img) = img else { violation("no-image", &format!("{} rows are in the file, a poll period has passed and there is no image", rows.len())) };
        let xs: Vec<f64> = rows.iter().map(|r| r[0]).collect();
        let ys: Vec<Vec<f64>> = (0..cols.len()).map(|c| rows.iter().map(|r| r[c + 1]).collect()).collect();
        let want = "/sim/run/want.svg";
        let saved = sim().fault_p;
        faults_off();
        let r = sut(|| {
            let series: Vec<_> = ys.iter().zip(&cols).map(|(y, l)| aether_viz::XYSeries::new(&xs, y).with_label(l).with_style(style)).collect();
            aether_viz::plot_series(&series, "title", cfg.x_label.as_deref(), cfg.y_label.as_deref(), Some(want)).map_err(|e| e.to_string())
        });
        sim().fault_p = saved;
        check!(matches!(r, Ok(Ok(()))), "reference-render", "rendering the reference picture failed: {r:?}");
        let want = read_sim(want).unwrap();
        check!(want == img, "stale-image", "the image ({} bytes) is not the one of the file's {} complete rows ({} bytes) one period after the last change (disk fault earlier: {broken})", img.len(), rows.len(), want.len());
        // the picture itself: every column is an affine image of the data
        let text = String::from_utf8_lossy(&img);
        check!(text.trim_end().ends_with("</svg>"), "torn-image", "the image is not a complete SVG document");
        for l in &cols {
            check!(text.contains(l.as_str()), "no-label", "column {l} is not named in the picture");
        }
        if style == PlotStyle::Line && rows.len() >= 3 {
            let pl = polylines(&text, rows.len());
            for (ci, y) in ys.iter().enumerate() {
                let fits = |p: &Vec<(f64, f64)>| {
                    let fit = |data: &Vec<f64>, pix: Vec<f64>| {
                        let (lo, hi) = data.iter().fold((f64::MAX, f64::MIN), |(a, b), v| (a.min(*v), b.max(*v)));
                        if hi == lo {
                            return true;
                        }
                        let at = |v: f64| pix[data.iter().position(|d| *d == v).unwrap()];
                        let (a, b) = (at(lo), at(hi));
                        data.iter().zip(&pix).all(|(d, q)| (a + (b - a) * (d - lo) / (hi - lo) - q).abs() <= 2.0)
                    };
                    fit(&xs, p.iter().map(|q| q.0).collect()) && fit(y, p.iter().map(|q| q.1).collect())
                };
                check!(pl.iter().any(fits), "wrong-curve", "no curve of the picture shows column {} ({} points)", cols[ci], rows.len());
            }
            probe("curve_checked");
        }
    }
    // the rate: accesses to the csv come in polls at least one period apart
    let t = sim().watch.take().unwrap().1;
    let mut starts: Vec<u64> = vec![];
    let mut prev = 0u64;
    let mut drawn = false;
    let mut accesses = 0;
    for (x, file) in t {
        if file == 1 {
            drawn = true;
            continue;
        }
        // a poll reads first and draws last
        if starts.is_empty() || x - prev > (dt / 2).clamp(1, 50_000) || drawn {
            starts.push(x);
            accesses = 0;
        }
        accesses += 1;
        check!(accesses <= 400, "too-fast", "{accesses} accesses to the file without a pause (period {dt} ns)");
        drawn = false;
        prev = x;
    }
    for p in starts.windows(2).skip(1) {
        check!(p[1] - p[0] >= dt - dt / 1000, "too-fast", "two polls {} ns apart with a period of {dt} ns", p[1] - p[0]);
    }
    if starts.len() > 2 {
        probe("rate_checked");
    }
}
fn hard_write_faults() -> u64 {
    let f = &sim().fault_fired;
    f.get("enospc").copied().unwrap_or(0) + f.get("eio_write").copied().unwrap_or(0)
}

// ------------------------------------------------------------------ C28
#[derive(Clone, Debug)]
struct Curve {
    xs: Vec<f64>,
    ys: Vec<f64>,
    label: Option<String>,
    style: PlotStyle,
}
#[derive(Clone, Debug)]
enum Job {
    Series(Vec<Curve>),
    One(Curve),
    /// errors at the grid points, from, to, call at which the function panics
    Error(Vec<f64>, f64, f64, Option<usize>),
}
struct Done {
    thread: usize,
    job: Job,
    path: Option<String>,
    result: Result<Result<(), String>, ()>,
    hard: u64,
    /// the image right after the call and right before it
    image: Option<Vec<u8>>,
    before: Option<Vec<u8>>,
    writes: bool,
}
static mut DONE: Vec<Done> = Vec::new();
#[allow(static_mut_refs)]
fn done() -> &'static mut Vec<Done> {
    unsafe { &mut DONE }
}
fn a_coord() -> f64 {
    match choose(12) {
        0 => f64::NAN,
        1 => pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        2 => 0.0,
        _ => choose(2_000_001) as f64 / 1000.0 - 1000.0,
    }
}
fn a_curve(k: usize) -> Curve {
    let n = if chance(1, 10) { 0 } else { range(1, 9) as usize };
    let all_bad = chance(1, 8);
    let flat = chance(1, 10);
    Curve {
        xs: (0..n).map(|i| if chance(1, 2) { i as f64 } else { a_coord() }).collect(),
        ys: (0..n).map(|_| if all_bad { f64::NAN } else if flat { 2.5 } else { a_coord() }).collect(),
        label: if chance(1, 2) { Some(format!("curve{k}")) } else { None },
        style: pick(&[PlotStyle::Line, PlotStyle::Points]),
    }
}
fn a_job() -> Job {
    match choose(4) {
        0 => Job::One(Curve { label: None, ..a_curve(0) }),
        1 => {
            probe("error_plot");
            let n = range(1, 12) as usize + 1;
            let a = choose(1000) as f64 / 10.0 - 50.0;
            let panic = if chance(1, 6) { Some(choose(n as u64) as usize) } else { None };
            let bad = if chance(1, 8) { 1 } else { 12 };
            Job::Error((0..n).map(|_| if choose(bad) == 0 { pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { choose(2001) as f64 / 100.0 - 10.0 }).collect(), a, a + 0.5 + choose(100) as f64, panic)
        }
        _ => Job::Series((0..if chance(1, 5) { range(4, 12) } else { range(1, 3) } as usize).map(a_curve).collect()),
    }
}
impl Curve {
    fn finite(&self) -> Vec<(f64, f64)> {
        self.xs.iter().zip(&self.ys).filter(|(x, y)| x.is_finite() && y.is_finite()).map(|(x, y)| (*x, *y)).collect()
    }
}
impl Job {
    fn curves(&self) -> Vec<Curve> {
        match self {
            Job::Series(c) => c.clone(),
            Job::One(c) => vec![c.clone()],
            Job::Error(e, a, b, _) => {
                let n = e.len() - 1;
                vec![Curve { xs: (0..=n).map(|i| a + (b - a) * (i as f64 / n as f64)).collect(), ys: e.clone(), label: None, style: PlotStyle::Line }]
            }
        }
    }
    /// The call itself: code under test.
    fn run(&self, path: Option<&str>) -> Result<(), String> {
        match self {
            Job::Series(c) => {
                let s: Vec<_> = c
                    .iter()
                    .map(|c| {
                        let s = aether_viz::XYSeries::new(&c.xs, &c.ys).with_style(c.style);
                        match &c.label {
                            Some(l) => s.with_label(l),
                            None => s,
                        }
                    })
                    .collect();
                aether_viz::plot_series(&s, "a title", Some("abscissa"), None, path)
            }
            Job::One(c) => aether_viz::plot(&c.xs, &c.ys, "a title", None, Some("ordinate"), path, c.style),
            Job::Error(e, a, b, panic) => {
                let k = std::cell::Cell::new(0usize);
                let f = |_x: f64| {
                    let i = k.get();
                    if *panic == Some(i) {
                        panic!("the plotted function fails");
                    }
                    k.set(i + 1);
                    e.get(i).copied().unwrap_or(1e9) + 3.0
                };
                aether_viz::plot_error_on_grid(f, |_| 3.0, *a, *b, e.len() - 1, path)
            }
        }
        .map_err(|e| e.to_string())
    }
}
fn circles(svg: &str) -> Vec<(f64, f64)> {
    let attr = |t: &str, a: &str| -> Option<f64> {
        let i = t.find(&format!(" {a}=\""))?;
        let r = &t[i + a.len() + 3..];
        r[..r.find('"')?].parse().ok()
    };
    svg.split("<circle").skip(1).filter(|t| attr(t, "r") == Some(3.0)).filter_map(|t| Some((attr(t, "cx")?, attr(t, "cy")?))).collect()
}
/// Whether the pixels are an increasing (decreasing for the ordinate) affine image of the data.
fn affine(data: &[f64], pix: &[f64], up: bool) -> bool {
    let (lo, hi) = data.iter().fold((f64::MAX, f64::MIN), |(a, b), v| (a.min(*v), b.max(*v)));
    let at = |v: f64| pix[data.iter().position(|d| *d == v).unwrap()];
    let (a, b) = (at(lo), at(hi));
    if hi == lo {
        return pix.iter().all(|p| (p - a).abs() <= 1.0);
    }
    (if up { b >= a } else { a >= b }) && data.iter().zip(pix).all(|(d, q)| (a + (b - a) * (d - lo) / (hi - lo) - q).abs() <= 2.0)
}
/// The picture shows these curves.
fn depicts(img: &[u8], job: &Job) {
    let text = String::from_utf8_lossy(img);
    check!(text.trim_end().ends_with("</svg>") && text.starts_with("<svg"), "torn-image", "the call succeeded but the image ({} bytes) is not a complete SVG document", img.len());
    let mut dots = 0;
    let cs = circles(&text);
    for c in job.curves() {
        let p = c.finite();
        let (x, y): (Vec<f64>, Vec<f64>) = p.iter().cloned().unzip();
        if let Some(l) = &c.label {
            check!(p.is_empty() || text.contains(l.as_str()), "no-label", "curve {l} is not named in the picture");
        }
        match c.style {
            PlotStyle::Line => {
                if p.len() >= 2 {
                    let pl = polylines(&text, p.len());
                    check!(pl.iter().any(|q| affine(&x, &q.iter().map(|q| q.0).collect::<Vec<_>>(), true) && affine(&y, &q.iter().map(|q| q.1).collect::<Vec<_>>(), false)), "wrong-curve", "no line of the picture shows the {} points {p:?}", p.len());
                    probe("line_checked");
                }
            }
            PlotStyle::Points => {
                let q = &cs[dots.min(cs.len())..(dots + p.len()).min(cs.len())];
                dots += p.len();
                if !p.is_empty() {
                    check!(q.len() == p.len() && affine(&x, &q.iter().map(|q| q.0).collect::<Vec<_>>(), true) && affine(&y, &q.iter().map(|q| q.1).collect::<Vec<_>>(), false), "wrong-curve", "the dots of the picture {cs:?} do not show the {} points {p:?}", p.len());
                    probe("points_checked");
                }
            }
        }
    }
    check!(cs.len() == dots, "wrong-curve", "{} dots drawn for {dots} points", cs.len());
}
fn saved_plots() {
    let threads = range(1, 3) as usize;
    let s = sim();
    s.vfs.mkdirs("/sim/plots");
    let mut plans: Vec<Vec<(Job, Option<String>)>> = vec![];
    for t in 0..threads {
        plans.push(
            (0..range(1, 3))
                .map(|_| {
                    let path = match choose(8) {
                        0 => None,
                        1 => Some("/sim/nowhere/p.svg".to_string()),
                        // plots of one thread overwrite each other
                        _ => Some(format!("/sim/plots/{t}-{}.svg", choose(2))),
                    };
                    (a_job(), path)
                })
                .collect(),
        );
    }
    if threads > 1 {
        probe("threads");
    }
    enable(Fault::ShortWrite, 1, pick(&[2, 4, 8]));
    enable(Fault::Eintr, 1, pick(&[4, 12]));
    if chance(1, 2) {
        for f in [Fault::Enospc, Fault::EioWrite, Fault::OpenEacces, Fault::OpenEio, Fault::OpenEmfile] {
            enable(f, 1, pick(&[2, 4, 10]));
        }
        set_fault_budget(range(1, 3) as u32);
    }
    sched::set_switch_probability(1, pick(&[2, 4, 10]));
    describe(format!("{threads} threads, first {:?} to {:?}", plans[0][0].0, plans[0][0].1));
    nontrivial();
    let shared: &'static Vec<_> = Box::leak(Box::new(plans));
    let hs: Vec<_> = match sut(|| {
        shared
            .iter()
            .enumerate()
            .map(|(t, v)| {
                std::thread::spawn(move || {
                    for (job, path) in v {
                        let (before, h, n) = core(|| (path.as_deref().and_then(read_sim), my_hard_faults(), sim().vfs.writes));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job.run(path.as_deref())));
                        core(|| {
                            done().push(Done { thread: t, job: job.clone(), path: path.clone(), result: r.map_err(|_| ()), hard: my_hard_faults() - h, image: path.as_deref().and_then(read_sim), before, writes: shared.len() == 1 && sim().vfs.writes != n })
                        });
                    }
                })
            })
            .collect()
    }) {
        Ok(h) => h,
        Err(m) => violation("panic", &m),
    };
    for h in hs {
        if !matches!(sut(|| h.join()), Ok(Ok(()))) {
            violation("panic", "a plotting thread died");
        }
    }
    faults_off();
    for d in done().drain(..) {
        let finite = d.job.curves().iter().any(|c| !c.finite().is_empty());
        let doomed = d.path.as_deref() == Some("/sim/nowhere/p.svg");
        let what = format!("thread {}: {:?} to {:?}", d.thread, d.job, d.path);
        if matches!(d.job, Job::Error(_, _, _, Some(_))) {
            probe("callback_panic");
            check!(d.result.is_err(), "lost-failure", "{what}: the plotted function panicked and the call returned {:?}", d.result);
            check!(d.image == d.before, "touched", "{what}: the plotted function panicked, yet the image changed");
            continue;
        }
        let Ok(r) = d.result else { violation("panic", &format!("{what} panicked")) };
        if d.path.is_none() {
            check!(!d.writes, "touched", "{what}: a plot that is not saved wrote to the disk");
            probe("not_saved");
        }
        match r {
            Ok(()) => {
                check!(finite && !doomed, "lost-failure", "{what} claims success");
                if d.path.is_some() {
                    let Some(img) = d.image else { violation("torn-image", &format!("{what} claims success and there is no image")) };
                    depicts(&img, &d.job);
                    // the same call without faults gives the same picture
                    let want = "/sim/plots/want.svg";
                    let r = sut(|| d.job.run(Some(want)));
                    check!(matches!(r, Ok(Ok(()))), "reference-render", "{what} succeeded once and then gave {r:?}");
                    check!(read_sim(want).as_ref() == Some(&img), "torn-image", "{what}: the image differs from that of the same call without faults ({} bytes)", img.len());
                    probe("plot_saved");
                    if d.before.is_some() {
                        probe("overwritten");
                    }
                }
            }
            Err(e) => {
                if !finite {
                    probe("no_finite_points");
                    check!(d.image == d.before, "touched", "{what}: nothing to plot, yet the image changed");
                } else {
                    probe("plot_failed");
                    check!(d.hard > 0 || doomed, "needless-failure", "{what} failed without reason: {e}");
                }
            }
        }
    }
}
