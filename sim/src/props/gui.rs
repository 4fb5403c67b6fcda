//! C07, C08: the live viewer, frame by frame, with a simulated user, clock and disk.
use super::csv::*;
use super::Prop;
use crate::check;
use crate::sim::*;
use eframe::egui;
use std::collections::{BTreeMap, BTreeSet};

include!(concat!(env!("OUT_DIR"), "/viewer.rs"));

const REAL: &[&str] = &["csv_tail_egui (main, polling, refresh, selection, drawing code)", "aether_viz::CsvRealtimePlotter", "egui 0.28 layout, input and widgets (headless)", "glob crate", "std file I/O above libc"];
const STUB: &[&str] = &["eframe's window and event loop: frames driven by the simulator", "egui_plot: records the curves instead of painting them", "libc file calls, clock: simulated", "the user: synthetic pointer clicks", "the programs writing the files: environment actor"];
const ASSUME: &[&str] = &["the files matched at start-up load without error (otherwise the viewer refuses to start)", "replaced files get a new inode", "column values stay far from the limits of f64"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 2_200, thorough: 60_000, rule: "", want: &[], real: REAL, stub: STUB, assume: ASSUME };
    vec![
        Prop { id: "C07", run: labels,
            rule: "The real viewer runs frame by frame while a user clicks column check boxes and files grow, rotate, change schema, lose columns, vanish and fail; every curve drawn in every frame is compared with the column its name promises.",
            want: &["click", "rotated", "missing_column", "dual_axis", "scaled_checked", "several_sources", "total_checked", "hard_fault_frame", "deselected", "new_file", "default_selection", "initial_columns", "empty_selection", "final_checked", "many_rows"], ..base },
        Prop { id: "C08", run: discovery,
            rule: "The real viewer runs frame by frame at varying frame rates while matching files appear, vanish, rotate, become unreadable or lack columns, and any system call fails; growth of every healthy source and every new file must reach the screen in time and failures must be shown.",
            want: &["new_file", "new_file_shown", "fresh_checked", "unreadable", "error_shown", "bad_new_file", "bad_file_reported", "rate_checked", "slow_frames", "hard_fault_frame", "final_checked", "late_loadable", "no_pattern", "same_run", "many_sources"], ..base },
    ]
}

const NAMES: [&str; 5] = ["alt", "vel_x[m/s]", "vel_y[m/s]", "temp[K]", "vel_z[km/s]"];

struct Src {
    path: String,
    label: String,
    /// generations this path ever held
    gens: BTreeSet<usize>,
    cur: Option<usize>,
    written: usize,
    readable: bool,
    /// bytes there when it became unreadable
    readable_upto: usize,
    /// frames recorded when it last became readable or unreadable
    turned: usize,
    /// could be opened at some moment
    ever_readable: bool,
    /// frames recorded and bytes there when it was first created
    born: (usize, usize),
    /// matches the viewer's pattern
    matching: bool,
    initial: bool,
    /// changes whenever something other than growth happens to the file
    epoch: u64,
}
#[derive(Clone)]
struct Snap {
    epoch: u64,
    cur: Option<usize>,
    written: usize,
    readable: bool,
    readable_upto: usize,
}
struct FrameRec {
    start: u64,
    end: u64,
    snaps: Vec<Snap>,
    sel: BTreeSet<String>,
    error: bool,
}
struct World {
    srcs: Vec<Src>,
    gens: Vec<Gen>,
    frames: Vec<FrameRec>,
    hz: f64,
    pattern: bool,
    glob: usize,
    dropping: bool,
    many_rows: bool,
    crowd: bool,
    events_left: u64,
    new_left: u64,
    c07: bool,
    // the user's view of the selection
    x_map: BTreeMap<String, bool>,
    y_map: BTreeMap<String, bool>,
    sel: BTreeSet<String>,
    chosen: bool,
    lists: (Vec<String>, Vec<String>),
    drawn_of: BTreeMap<usize, usize>,
    seen: BTreeSet<usize>,
    prev_start: u64,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
fn new_gen(full: bool) -> usize {
    let id = w().gens.len();
    let drop_col = if !full && w().dropping && chance(1, 3) { Some(1 + choose(5) as usize) } else { None };
    let mut g = make_gen(
        id as u64,
        &GenOpts { header: true, rows: if w().many_rows { probe("many_rows"); range(2_000, 6_000) } else { range(1, 14) }, time: "time", long_lines: false, malformed: chance(1, 3), crlf: chance(1, 4), utf8: chance(1, 6), drop_col, shuffle: chance(1, 3), values: if chance(1, 3) { pick(&[Values::Loose, Values::Tight]) } else { Values::Unique } },
    );
    let mut s = String::from_utf8(g.plan).unwrap();
    for (a, b) in [("air temp", "temp[K]"), ("#pressure (hPa)", "vel_z[km/s]")] {
        s = s.replace(a, b);
        for c in &mut g.cols {
            if c == a {
                *c = b.to_string();
            }
        }
    }
    g.plan = s.into_bytes();
    w().gens.push(g);
    id
}
fn label_of(path: &str) -> String {
    for part in path.split('/').rev() {
        if part.starts_with("run_") {
            return part.to_string();
        }
    }
    let f = path.rsplit('/').next().unwrap();
    f.rsplit_once('.').map_or(f, |(a, _)| a).to_string()
}
fn place(v: &mut Vfs, i: usize, g: usize, bytes: usize) {
    let n = bytes.min(w().gens[g].plan.len());
    let data = w().gens[g].plan[..n].to_vec();
    let s = &mut w().srcs[i];
    v.put(&s.path, &data);
    s.gens.insert(g);
    s.cur = Some(g);
    s.written = n;
    s.readable = true;
    s.ever_readable = true;
    if s.gens.len() == 1 {
        s.born = (w().frames.len(), n);
    }
    s.epoch += 1;
    ev(|| format!("{} is now generation {g} with {n} bytes", w().srcs[i].path));
}
fn grow(v: &mut Vfs, i: usize) {
    let ww_frames = w().frames.len();
    let s = &mut w().srcs[i];
    let Some(g) = s.cur else { return };
    let plan = &w().gens[g].plan;
    let n = (1 + log_choice(120) as usize).min(plan.len() - s.written);
    if n > 0 {
        let part = plan[s.written..s.written + n].to_vec();
        v.append(&s.path, &part);
        s.written += n;
        if !s.readable && s.turned == ww_frames {
            // a poll under way may have had it open already
            s.readable_upto = s.written;
        }
        ev(|| format!("{} grows by {n} bytes to {}", w().srcs[i].path, w().srcs[i].written));
    }
}
const GLOBS: [&str; 3] = ["/sim/data/run_*/states.csv", "/sim/data/*/st*.csv", "/sim/data/run_*/*.csv"];
fn matches(path: &str) -> bool {
    if !w().pattern {
        return false;
    }
    let Some((dir, file)) = path.strip_prefix("/sim/data/").and_then(|r| r.split_once('/')) else { return false };
    let csv = file.ends_with(".csv");
    match w().glob {
        0 => dir.starts_with("run_") && file == "states.csv",
        1 => csv && file.starts_with("st"),
        _ => csv && dir.starts_with("run_"),
    }
}
const FRESH: [&str; 4] = ["run_7", "run_b", "run_new", "run_8"];
fn event(v: &mut Vfs) {
    let ww = w();
    if ww.srcs.is_empty() {
        return;
    }
    let i = choose(ww.srcs.len() as u64) as usize;
    let k = choose(16);
    if k < 8 {
        return grow(v, i);
    }
    if ww.events_left == 0 {
        return grow(v, i);
    }
    ww.events_left -= 1;
    match k {
        8 | 9 => {
            let g = new_gen(false);
            probe("rotated");
            if w().gens[g].cols.len() < 6 {
                probe("missing_column");
            }
            let n = choose(w().gens[g].plan.len() as u64 + 1) as usize;
            place(v, i, g, n);
        }
        10 => {
            ev(|| format!("{} deleted", w().srcs[i].path));
            v.remove(&w().srcs[i].path);
            let s = &mut w().srcs[i];
            s.cur = None;
            s.epoch += 1;
        }
        11 | 12 => {
            let s = &mut ww.srcs[i];
            if s.cur.is_none() {
                return;
            }
            s.readable = !s.readable;
            s.ever_readable = true;
            s.readable_upto = s.written;
            s.turned = w().frames.len();
            s.epoch += 1;
            if let Some(ino) = v.lookup(&s.path) {
                v.inodes.get_mut(&ino).unwrap().readable = s.readable;
            }
            probe("unreadable");
            ev(|| format!("{} readable: {}", w().srcs[i].path, w().srcs[i].readable));
        }
        _ => {
            if ww.new_left == 0 {
                return grow(v, i);
            }
            ww.new_left -= 1;
            let d = if ww.crowd { format!("run_n{}", ww.new_left) } else { FRESH[ww.new_left as usize % 4].to_string() };
            let path = match choose(12) {
                0 => format!("/sim/data/{d}/other.txt"),
                1 => {
                    // a directory that matches
                    v.mkdirs(&format!("/sim/data/{d}x/states.csv"));
                    return;
                }
                2 | 3 => {
                    // another file of a run that already has one
                    let dir = ww.srcs[i].path.rsplit_once('/').unwrap().0;
                    format!("{dir}/{}.csv", pick(&["st2", "moon"]))
                }
                4 => pick(&["/sim/data/plain/stuff.csv", "/sim/data/plain/run_x.csv", "/sim/data/run_z/run_st.csv"]).to_string(),
                _ => format!("/sim/data/{d}/states.csv"),
            };
            let matching = matches(&path);
            if matching && ww.srcs.iter().any(|s| s.label == label_of(&path)) {
                probe("same_run");
            }
            if ww.srcs.iter().any(|s| s.path == path) {
                return;
            }
            probe("new_file");
            let bad = !ww.c07 && chance(1, 3);
            let g = new_gen(!bad);
            let n = if chance(1, 3) { choose(w().gens[g].plan.len() as u64 + 1) as usize } else { usize::MAX };
            w().srcs.push(Src { label: label_of(&path), path, gens: BTreeSet::new(), cur: None, written: 0, readable: true, readable_upto: 0, turned: 0, ever_readable: false, born: (0, 0), matching, initial: false, epoch: 0 });
            let i = w().srcs.len() - 1;
            place(v, i, g, n);
            if bad && chance(1, 2) {
                let s = &mut w().srcs[i];
                s.readable = false;
                s.ever_readable = false;
                s.readable_upto = 0;
                let ino = v.lookup(&s.path).unwrap();
                v.inodes.get_mut(&ino).unwrap().readable = false;
                probe("bad_new_file");
            }
        }
    }
}
fn actor(v: &mut Vfs, _op: Op) {
    if chance(1, 50) {
        event(v);
    }
}

// ------------------------------------------------------------------ screen
#[derive(Default)]
struct Screen {
    texts: Vec<(String, egui::Rect, egui::Rect)>, // text, its rectangle, clip
    repaint: f64,
    lines: Vec<egui_plot::Drawn>,
}
fn collect(s: &egui::Shape, clip: egui::Rect, out: &mut Vec<(String, egui::Rect, egui::Rect)>) {
    match s {
        egui::Shape::Text(t) => out.push((t.galley.text().to_string(), t.visual_bounding_rect(), clip)),
        egui::Shape::Vec(v) => v.iter().for_each(|s| collect(s, clip, out)),
        _ => {}
    }
}
impl Screen {
    fn lists(&self) -> ((Vec<(String, egui::Pos2, bool)>, Vec<(String, egui::Pos2, bool)>), bool) {
        let head = |t: &str| self.texts.iter().find(|x| x.0 == t).map(|x| x.1);
        let (Some(_), Some(hy)) = (head("X components"), head("Y / scalar columns")) else { return ((vec![], vec![]), false) };
        let top = hy.bottom() - 2.0;
        let mut x = vec![];
        let mut y = vec![];
        for (t, r, clip) in &self.texts {
            // check box labels: below the headings
            if r.top() < top || r.top() > top + 400.0 || t.starts_with("Dual-axis") || t.starts_with("X range") || t.starts_with("No data") {
                continue;
            }
            // the scroll bars lie over the last row
            let item = (t.clone(), r.center(), clip.contains(r.center()) && r.bottom() < clip.bottom() - 12.0);
            if r.left() < hy.left() {
                x.push(item);
            } else {
                y.push(item);
            }
        }
        ((x, y), true)
    }
    fn number(&self, prefix: &str) -> Option<u64> {
        self.texts.iter().find_map(|t| t.0.strip_prefix(prefix)?.trim().parse().ok())
    }
    fn error(&self) -> Option<&str> {
        self.texts.iter().find(|t| t.0.starts_with("Error:")).map(|t| t.0.as_str())
    }
}
fn frame(app: &mut dyn eframe::App, ctx: &egui::Context, fr: &mut eframe::Frame, events: Vec<egui::Event>) -> Screen {
    let input = egui::RawInput {
        screen_rect: Some(egui::Rect::from_min_size(egui::pos2(0.0, 0.0), egui::vec2(1280.0, 720.0))),
        time: Some((sim().mono - sim().started_mono) as f64 * 1e-9),
        events,
        focused: true,
        ..Default::default()
    };
    egui_plot::take_drawn();
    let out = ctx.run(input, |ctx| {
        if let Err(m) = sut(|| app.update(ctx, fr)) {
            violation("panic", &format!("the viewer panicked: {m}"));
        }
    });
    let mut s = Screen { lines: egui_plot::take_drawn(), ..Default::default() };
    for c in &out.shapes {
        collect(&c.shape, c.clip_rect, &mut s.texts);
    }
    s.repaint = out.viewport_output.get(&egui::ViewportId::ROOT).map_or(f64::INFINITY, |v| v.repaint_delay.as_secs_f64());
    s
}

// ------------------------------------------------------------------ the run
fn start(c07: bool) {
    sim().op_limit = 3_000_000;
    let asked: f64 = if chance(1, 12) { pick(&[0.0, -3.0, 0.05]) } else { pick(&[5.0, 1.0, 20.0, 2.0, 0.5, 1.5]) };
    // the viewer goes no slower than one poll in ten seconds
    let hz = asked.max(0.1);
    let pattern = chance(7, 8);
    let many_rows = chance(1, 80);
    let crowd = pattern && !many_rows && chance(1, 50);
    unsafe {
        W = Some(World {
            srcs: vec![],
            gens: vec![],
            frames: vec![],
            hz,
            pattern,
            glob: choose(3) as usize,
            dropping: chance(2, 3),
            many_rows,
            crowd,
            events_left: if many_rows { choose(3) } else { range(0, 8) },
            new_left: if crowd { range(4, 20) } else if pattern { choose(4) } else { 0 },
            c07,
            x_map: Default::default(),
            y_map: Default::default(),
            sel: Default::default(),
            chosen: false,
            lists: Default::default(),
            drawn_of: Default::default(),
            seen: Default::default(),
            prev_start: 0,
        });
    }
    if !pattern {
        probe("no_pattern");
    }
    let n = if crowd {
        probe("many_sources");
        range(10, 40)
    } else if pattern {
        range(1, 3)
    } else {
        1
    };
    for i in 0..n {
        let path = if i > 0 && w().glob > 0 && chance(1, 6) {
            format!("/sim/data/run_{}/st2.csv", i - 1)
        } else if chance(1, 6) { format!("/sim/data/run_{}/states.csv", i / 2 * 2) } else { format!("/sim/data/run_{i}/states.csv") };
        if w().srcs.iter().any(|s| s.path == path) {
            continue;
        }
        w().srcs.push(Src { label: label_of(&path), path, gens: BTreeSet::new(), cur: None, written: 0, readable: true, readable_upto: 0, turned: 0, ever_readable: false, born: (0, 0), matching: true, initial: true, epoch: 0 });
        let g = new_gen(true);
        let k = w().srcs.len() - 1;
        let bytes = if chance(1, 5) { choose(w().gens[g].plan.len() as u64) as usize } else { usize::MAX };
        // room to grow
        let bytes = if chance(1, 2) { bytes.min(w().gens[g].plan.len() / 2) } else { bytes };
        place(&mut sim().vfs, k, g, bytes);
    }
    if n > 1 {
        probe("several_sources");
    }
    let file = if pattern { GLOBS[w().glob].to_string() } else { w().srcs[0].path.clone() };
    let mut args = vec!["csv_tail_egui".to_string(), file, "time".to_string()];
    if chance(1, 2) {
        probe("initial_columns");
        let mut cols: Vec<&str> = NAMES.to_vec();
        for _ in 0..range(1, 4) {
            let k = choose(cols.len() as u64) as usize;
            cols.remove(k);
        }
        for c in &cols {
            w().sel.insert(c.to_string());
            let l = c.to_ascii_lowercase();
            if l.contains("_x[") {
                w().x_map.insert(c.to_string(), true);
            }
            if l.contains("_y[") {
                w().y_map.insert(c.to_string(), true);
            }
        }
        w().chosen = true;
        args.push(cols.join(pick(&[",", ", "])));
    } else {
        probe("default_selection");
    }
    args.push(format!("{asked}"));
    describe(format!("{args:?}, {} files", w().srcs.len()));
    crate::set_args(&args);
    eframe::set_driver(driver);
    match sut(viewer::sim_main) {
        Ok(r) => check!(!r.contains("Err("), "viewer-failed", "the viewer ended with {r}"),
        Err(m) => violation("panic", &format!("the viewer panicked: {m}")),
    }
    check!(!w().frames.is_empty(), "viewer-failed", "the viewer ended without showing its window");
}
fn labels() {
    start(true)
}
fn discovery() {
    start(false)
}
fn driver(app: &mut dyn eframe::App, ctx: &egui::Context, fr: &mut eframe::Frame) {
    harness(|| drive(app, ctx, fr))
}
fn faults_on() {
    enable(Fault::ShortRead, 1, 4);
    enable(Fault::Eintr, 1, 8);
}
fn snapshot() -> Vec<Snap> {
    w().srcs.iter().map(|s| Snap { epoch: s.epoch, cur: s.cur, written: s.written, readable: s.readable, readable_upto: s.readable_upto }).collect()
}
fn drive(app: &mut dyn eframe::App, ctx: &egui::Context, fr: &mut eframe::Frame) {
    nontrivial();
    let interval = (1e9 / w().hz) as u64;
    let refresh = interval.max(1_000_000_000);
    let c07 = w().c07;
    let hard = chance(1, 2);
    w().frames.push(FrameRec { start: 0, end: sim().mono, snaps: snapshot(), sel: w().sel.clone(), error: false });
    let pace = choose(4);
    let mut last: Screen = Screen::default();
    let active = range(20, 70);
    let mut t = 0u64;
    let quiet_for = 2 * refresh + 4 * interval;
    let mut quiet_from = 0;
    loop {
        let quiet = t >= active;
        if quiet && quiet_from == 0 {
            // the last frame of the active part decided nothing about the quiet part
            quiet_from = sim().mono;
            sim().actor = None;
            faults_off();
            for i in 0..w().srcs.len() {
                // in the end everything that exists is readable and complete
                if !w().srcs[i].readable && w().srcs[i].cur.is_some() {
                    let s = &mut w().srcs[i];
                    s.readable = true;
                    s.ever_readable = true;
                    s.epoch += 1;
                    let ino = sim().vfs.lookup(&s.path).unwrap();
                    sim().vfs.inodes.get_mut(&ino).unwrap().readable = true;
                    probe("late_loadable");
                }
            }
        }
        // time to the next frame: what the viewer asked for, or a slow or hidden window
        let asked = if last.texts.is_empty() { 0 } else { (last.repaint.min(1e6) * 1e9) as u64 };
        check!(t == 0 || asked <= interval.max(100_000_000), "no-repaint", "the viewer asked for its next frame only in {asked} ns; polls are due every {interval} ns");
        let slow = match pace {
            0 => 0,
            1 => {
                if chance(1, 6) {
                    probe("slow_frames");
                    range(100_000_000, 3_000_000_000)
                } else {
                    log_choice(60_000_000)
                }
            }
            2 => log_choice(400_000_000),
            _ => interval / range(1, 5),
        };
        // a viewer polling this slowly is in the background
        let slow = if interval > 2_000_000_000 || w().many_rows || w().crowd { slow.max(interval.max(600_000_000) / 30) } else { slow };
        advance(asked.max(1_000_000) + slow);
        // things happen between frames
        if !quiet {
            for _ in 0..choose(4) {
                event(&mut sim().vfs);
            }
        }
        // the user
        let mut events = vec![];
        let mut click: Option<(bool, usize)> = None;
        let (lists, _) = last.lists();
        if !quiet && chance(if c07 { 1 } else { 0 } + 1, 6) {
            let xs = chance(1, 3);
            let l = if xs { &lists.0 } else { &lists.1 };
            let vis: Vec<usize> = (0..l.len()).filter(|i| l[*i].2).collect();
            if !vis.is_empty() {
                let i = vis[choose(vis.len() as u64) as usize];
                let pos = l[i].1;
                probe("click");
                ev(|| format!("click on {:?} in the {} list", l[i].0, if xs { "X" } else { "Y" }));
                click = Some((xs, i));
                events.push(egui::Event::PointerMoved(pos));
                for pressed in [true, false] {
                    events.push(egui::Event::PointerButton { pos, button: egui::PointerButton::Primary, pressed, modifiers: Default::default() });
                }
            }
        } else if chance(1, 8) {
            events.push(egui::Event::PointerMoved(egui::pos2(choose(1280) as f32, choose(720) as f32)));
        }
        if !quiet {
            sim().actor = Some(Box::new(actor));
            faults_on();
            if hard && chance(1, 6) {
                for f in [Fault::EioRead, Fault::OpenEio, Fault::OpenEmfile, Fault::StatErr, Fault::SeekErr, Fault::ReaddirErr] {
                    enable(f, 1, pick(&[3, 8, 20]));
                }
                set_fault_budget(range(1, 3) as u32);
            }
        }
        let hard_before = my_hard_faults();
        let start = sim().mono;
        let old_sel = w().sel.clone();
        sim().opened.clear();
        let sources_before = w().srcs.len();
        let screen = frame(app, ctx, fr, events);
        faults_off();
        sim().actor = None;
        if my_hard_faults() > hard_before {
            probe("hard_fault_frame");
            for s in &mut w().srcs {
                s.epoch += 1;
            }
        }
        update_model(&screen, &last, click);
        let first_choice = old_sel != w().sel || click.is_some();
        let rec = FrameRec { start, end: sim().mono, snaps: snapshot(), sel: w().sel.clone(), error: screen.error().is_some() };
        curves(&screen, first_choice, c07);
        if !c07 {
            timing(&rec, &screen, interval, refresh);
            rate(start, interval, click.is_some() || first_choice, sources_before);
        }
        w().frames.push(rec);
        last = screen;
        t += 1;
        if quiet && sim().mono - quiet_from > quiet_for && t > active + 6 {
            break;
        }
    }
    finish(&last);
}
/// Mirrors what a user believes is selected.
fn update_model(s: &Screen, last: &Screen, click: Option<(bool, usize)>) {
    let ((xs, ys), shown) = s.lists();
    let _ = last;
    let ww = w();
    if !shown {
        return;
    }
    if !ww.chosen {
        if let Some(c) = xs.first() {
            ww.x_map.insert(c.0.clone(), true);
        }
        if let Some(c) = ys.first() {
            ww.y_map.insert(c.0.clone(), true);
        }
        ww.chosen = true;
        union();
    }
    if let Some((x, i)) = click {
        let l = if x { &xs } else { &ys };
        if let Some(c) = l.get(i) {
            let m = if x { &mut ww.x_map } else { &mut ww.y_map };
            let e = m.entry(c.0.clone()).or_insert(false);
            *e = !*e;
            if !*e {
                probe("deselected");
            }
            union();
        }
    }
}
fn union() {
    let ww = w();
    ww.sel = ww.x_map.iter().chain(&ww.y_map).filter(|e| *e.1).map(|e| e.0.clone()).collect();
    if ww.sel.is_empty() {
        probe("empty_selection");
    }
}
fn unit(cols: &[&String]) -> Option<String> {
    let us: BTreeSet<String> = cols.iter().map(|c| c.find('[').map_or(String::new(), |i| c[i + 1..c.len() - 1].to_string())).collect();
    if us.len() != 1 {
        return None;
    }
    us.into_iter().next().filter(|u| !u.is_empty())
}
fn decode(v: f64) -> Option<(usize, u64, usize)> {
    if v < 0.0 || v.fract() != 0.0 || v > 1e15 {
        return None;
    }
    let v = v as u64;
    Some(((v / 8 / 10_000) as usize, v / 8 % 10_000, (v % 8) as usize))
}
/// Every curve on the screen against the file it claims to come from.
fn curves(s: &Screen, changed: bool, c07: bool) {
    let ww = w();
    let sel = ww.sel.clone();
    let cols: Vec<String> = sel.iter().cloned().collect();
    // which curves belong to which source
    let mut of: BTreeMap<usize, BTreeMap<String, &egui_plot::Drawn>> = BTreeMap::new();
    let mut gen_of: BTreeMap<usize, usize> = BTreeMap::new();
    for l in &s.lines {
        if l.points.is_empty() {
            continue;
        }
        let Some((label, col)) = l.name.rsplit_once("::") else { violation("unnamed-curve", &format!("a curve is named {:?}", l.name)) };
        let owners: Vec<usize> = (0..ww.srcs.len()).filter(|i| ww.srcs[*i].label == label).collect();
        check!(!owners.is_empty(), "unknown-source", "a curve is named {:?}; no file has that run name", l.name);
        let g = decode(l.points[0][0]).filter(|d| d.2 == 0).map(|d| d.0);
        let Some(g) = g else { violation("wrong-points", &format!("curve {:?} has the x value {}, which is not a time of any file", l.name, l.points[0][0])) };
        let Some(o) = owners.iter().copied().find(|o| ww.srcs[*o].gens.contains(&g)) else {
            violation("wrong-points", &format!("curve {:?} shows rows of another file (x = {})", l.name, l.points[0][0]))
        };
        check!(ww.srcs[o].matching, "unknown-source", "{} is shown but does not match the pattern", ww.srcs[o].path);
        let dup = of.entry(o).or_default().insert(col.to_string(), l);
        check!(dup.is_none(), "duplicate-curve", "two curves are named {:?}", l.name);
        if let Some(other) = gen_of.insert(o, g) {
            check!(other == g, "mixed-files", "the curves of {label} come from different files");
        }
    }
    ww.drawn_of.clear();
    for (o, m) in &of {
        ww.seen.insert(*o);
        let g = gen_of[o];
        let n = m.values().map(|l| l.points.len()).max().unwrap();
        ww.drawn_of.insert(*o, n);
        if c07 {
            let names: BTreeSet<String> = m.keys().cloned().collect();
            check!(names == sel, "wrong-columns", "selected are {sel:?} but the curves of {} are named {names:?}", ww.srcs[*o].label);
            let plan = &ww.gens[g].plan;
            let upto = if ww.srcs[*o].cur == Some(g) { ww.srcs[*o].written } else { plan.len() };
            let want = &read_ref(g, upto, &cols).rows;
            for (k, c) in cols.iter().enumerate() {
                let l = m[c];
                check!(l.points.len() == n && n <= want.len(), "wrong-points", "curve {:?} has {} points, others of its source {n}, its file {} rows", l.name, l.points.len(), want.len());
                for (i, p) in l.points.iter().enumerate() {
                    check!(p[0] == want[i][0], "wrong-points", "curve {:?}: point {i} is at x = {}, row {i} of the file at {}", l.name, p[0], want[i][0]);
                    let _ = k;
                }
            }
        }
    }
    if !c07 {
        return;
    }
    // true values by row
    let rows: BTreeMap<usize, std::rc::Rc<Read>> = of.keys().map(|o| (*o, read_ref(gen_of[o], ww.gens[gen_of[o]].plan.len(), &cols))).collect();
    let truth = |o: usize, c: &String| -> Vec<f64> {
        let k = cols.iter().position(|x| x == c).unwrap();
        let n = of[&o][c].points.len();
        rows[&o].rows[..n].iter().map(|r| r[1 + k]).collect()
    };
    let on = |m: &BTreeMap<String, bool>, c: &String| m.get(c).copied().unwrap_or(false);
    let xg: Vec<&String> = cols.iter().filter(|c| on(&ww.x_map, c)).collect();
    let yg: Vec<&String> = cols.iter().filter(|c| on(&ww.y_map, c)).collect();
    let dual = !xg.is_empty() && !yg.is_empty() && unit(&xg) != unit(&yg);
    let extent = |g: &[&String]| -> (f64, f64) {
        let mut r = (f64::INFINITY, f64::NEG_INFINITY);
        for o in of.keys() {
            for c in g {
                for v in truth(*o, c) {
                    r = (r.0.min(v), r.1.max(v));
                }
            }
        }
        if r.0 > r.1 {
            (0.0, 1.0)
        } else if r.0 == r.1 {
            (r.0, r.0 + 1.0)
        } else {
            r
        }
    };
    if dual {
        probe("dual_axis");
    }
    let (xr, yr) = if dual { (extent(&xg), extent(&yg)) } else { ((0.0, 1.0), (0.0, 1.0)) };
    for (o, m) in &of {
        for (c, l) in m {
            let scaled = dual && on(&ww.y_map, c);
            for (p, t) in l.points.iter().zip(truth(*o, c)) {
                let want = if scaled { xr.0 + (t - yr.0) / (yr.1 - yr.0) * (xr.1 - xr.0) } else { t };
                let tol = if scaled { 1e-9 * (want.abs() + (xr.1 - xr.0).abs()) } else { 0.0 };
                check!((p[1] - want).abs() <= tol, if scaled { "wrong-scaling" } else { "wrong-points" }, "curve {:?} at x = {}: drawn at {} but the column holds {t} (scaled: {scaled}, expected {want})", l.name, p[0], p[1]);
            }
            if scaled {
                probe("scaled_checked");
            }
        }
    }
    if !changed && !sel.is_empty() {
        let total: usize = of.values().map(|m| m.values().next().unwrap().points.len()).sum();
        match s.number("Points(total):") {
            Some(n) => {
                check!(n == total as u64, "wrong-total", "the toolbar shows {n} points, the curves have {total}");
                probe("total_checked");
            }
            None => violation("wrong-total", "the toolbar shows no point total"),
        }
    }
    sources_count(s, of.len());
}
fn sources_count(s: &Screen, shown: usize) {
    let ww = w();
    let Some(n) = s.number("Sources:") else { violation("wrong-sources", "the toolbar shows no source count") };
    let most = ww.srcs.iter().filter(|x| x.matching).count();
    let least = ww.srcs.iter().enumerate().filter(|(i, x)| x.initial || ww.seen.contains(i)).count();
    check!(n as usize >= shown.max(least) && n as usize <= most, "wrong-sources", "the toolbar shows {n} sources; {least} have been loaded and {most} exist");
}
type Key = (usize, usize, Vec<String>);
static mut CACHE: Vec<(Key, std::rc::Rc<Read>)> = vec![];
/// The reference reader on the first bytes of a generation.
#[allow(static_mut_refs)]
fn read_ref(g: usize, upto: usize, cols: &[String]) -> std::rc::Rc<Read> {
    let cache = unsafe { &mut CACHE };
    if let Some(e) = cache.iter().rev().find(|e| e.0 .0 == g && e.0 .1 == upto && e.0 .2 == cols) {
        return e.1.clone();
    }
    let r = std::rc::Rc::new(reference(&w().gens[g].plan[..upto], true, "time", cols));
    if cache.len() > 60 {
        cache.remove(0);
    }
    cache.push(((g, upto, cols.to_vec()), r.clone()));
    r
}
fn rows_of(sn: &Snap, sel: &BTreeSet<String>) -> Option<usize> {
    let g = sn.cur?;
    let cols: Vec<String> = sel.iter().cloned().collect();
    let r = read_ref(g, sn.written, &cols);
    if r.missing || r.header.is_none() {
        return None;
    }
    Some(r.rows.len())
}
/// Growth and new files reach the screen in time, failures are shown.
fn timing(rec: &FrameRec, s: &Screen, interval: u64, refresh: u64) {
    let ww = w();
    if rec.sel.is_empty() {
        return;
    }
    // the latest frame after which a poll must have happened
    let polled = ww.frames.iter().rposition(|g| g.end + interval <= rec.start);
    // the latest frame after which new files must have been looked for
    let looked = polled.and_then(|h| ww.frames[..=h].iter().rposition(|g| g.end + refresh <= ww.frames[h].start));
    for (i, now) in rec.snaps.iter().enumerate() {
        let src = &ww.srcs[i];
        if !src.matching {
            continue;
        }
        let since = |g: usize| ww.frames[g].snaps.get(i).filter(|a| a.epoch == now.epoch);
        let same_sel = |g: usize| ww.frames[g..].iter().all(|f| f.sel == rec.sel);
        let is_source = src.initial || ww.seen.contains(&i);
        let due = if is_source { polled } else { looked };
        let Some(g) = due else { continue };
        let Some(old) = since(g) else { continue };
        if old.cur.is_some() && old.readable {
            if let Some(n) = rows_of(old, &rec.sel) {
                // a file that lacked a column under an earlier selection may have been refused meanwhile
                if !is_source && !same_sel(g) {
                    continue;
                }
                let have = ww.drawn_of.get(&i).copied().unwrap_or(0);
                check!(have >= n, if is_source { "stale-source" } else { "new-file-not-shown" }, "{} has had {n} rows since {} ns before this frame (poll interval {interval} ns, refresh interval {refresh} ns), {have} are drawn", src.path, rec.start - ww.frames[g].end);
                probe(if is_source { "fresh_checked" } else { "new_file_shown" });
            } else if !is_source && never_loadable(src, &rec.sel) {
                probe("bad_new_file");
                reported(g, rec, s, &src.path, "lacks a selected column");
            }
        }
        if old.cur.is_some() && !old.readable {
            if is_source && src.initial && old.written > old.readable_upto {
                check!(s.error().is_some(), "failure-not-shown", "{} cannot be read, yet no error is shown", src.path);
                probe("error_shown");
            } else if !is_source && !src.ever_readable && g > 0 {
                reported(g, rec, s, &src.path, "cannot be opened");
            }
        }
    }
}
/// The file lacked a selected column at every moment of its life.
fn never_loadable(src: &Src, sel: &BTreeSet<String>) -> bool {
    let ww = w();
    let (frame, bytes) = src.born;
    let Some(g) = src.cur else { return false };
    let cols: Vec<String> = sel.iter().cloned().collect();
    src.gens.len() == 1 && read_ref(g, bytes, &cols).missing && ww.frames[frame.saturating_sub(1)..].iter().all(|f| f.sel == *sel)
}
fn reported(g: usize, rec: &FrameRec, s: &Screen, path: &str, why: &str) {
    let shown = s.error().is_some() || rec.error || w().frames[g + 1..].iter().any(|f| f.error);
    check!(shown, "failure-not-shown", "the new file {path} {why}; the failure was not shown in any of {} frames", w().frames.len() - g);
    probe("bad_file_reported");
}
/// Files that were sources are read at most once per poll interval.
fn rate(start: u64, interval: u64, excused: bool, sources: usize) {
    let ww = w();
    let opened = (0..sources).any(|i| ww.seen.contains(&i) && sim().opened.contains(&ww.srcs[i].path));
    if excused || !opened {
        return;
    }
    if ww.prev_start > 0 {
        let gap = start - ww.prev_start;
        check!(gap + 1_000 >= interval, "polls-too-often", "two polls {gap} ns apart, the interval is {interval} ns");
        probe("rate_checked");
    }
    ww.prev_start = start;
}
/// After a quiet time the screen shows exactly what the files hold.
fn finish(s: &Screen) {
    let ww = w();
    probe("final_checked");
    let cols: Vec<String> = ww.sel.iter().cloned().collect();
    let mut healthy = 0;
    for (i, src) in ww.srcs.iter().enumerate() {
        if !src.matching {
            continue;
        }
        let Some(g) = src.cur else {
            continue;
        };
        let r = read_ref(g, src.written, &cols);
        let want = if r.missing || cols.is_empty() { 0 } else { r.rows.len() };
        if !r.missing {
            healthy += 1;
        }
        let have = ww.drawn_of.get(&i).copied().unwrap_or(0);
        check!(have == want, if ww.c07 { "wrong-columns" } else { "stale-source" }, "at the end {} holds {want} rows with the selected columns {cols:?}, {have} are drawn", src.path);
    }
    let n = s.number("Sources:").unwrap_or(0);
    check!(n >= healthy, "new-file-not-shown", "{healthy} files can be loaded, the toolbar shows {n} sources");
    if ww.srcs.iter().all(|x| !x.matching || x.cur.map_or(true, |g| !read_ref(g, x.written, &cols).missing)) {
        if let Some(e) = s.error() {
            violation("stale-error", &format!("everything is readable again but the viewer still shows {e:?}"));
        }
    }
}
