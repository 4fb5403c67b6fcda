//! Generated CSV histories and the reference reader (independent of aether_viz).
use crate::sim::*;

/// What the reference reader makes of the complete lines of a byte prefix.
#[derive(Clone, Debug, Default)]
pub struct Read {
    pub rows: Vec<Vec<f64>>, // x, y0, y1 …
    pub header: Option<Vec<String>>,
    pub missing: bool,
}
/// Reference: header is the first non-blank complete line (if any is expected); a row counts when x and every
/// requested y field parse as finite numbers.
pub fn reference(bytes: &[u8], has_header: bool, x: &str, ys: &[String]) -> Read {
    let mut out = Read::default();
    let mut idx: Option<Vec<usize>> = None;
    if !has_header {
        idx = Some(std::iter::once(x.to_string()).chain(ys.iter().cloned()).map(|c| c.parse::<usize>().unwrap()).collect());
    }
    let Some(end) = bytes.iter().rposition(|b| *b == b'\n') else { return out };
    for raw in bytes[..end].split(|b| *b == b'\n') {
        let Ok(line) = std::str::from_utf8(raw) else { continue };
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        let f: Vec<&str> = line.split(',').map(|s| s.trim()).collect();
        if has_header && out.header.is_none() {
            out.header = Some(f.iter().map(|s| s.to_string()).collect());
            let pos: Vec<Option<usize>> = std::iter::once(x).chain(ys.iter().map(|s| s.as_str())).map(|c| f.iter().position(|h| *h == c)).collect();
            if pos.iter().any(|p| p.is_none()) {
                out.missing = true;
            } else {
                idx = Some(pos.into_iter().map(|p| p.unwrap()).collect());
            }
            continue;
        }
        let Some(ix) = &idx else { continue };
        let row: Option<Vec<f64>> = ix.iter().map(|i| f.get(*i).and_then(|s| s.parse::<f64>().ok()).filter(|v| v.is_finite())).collect();
        if let Some(r) = row {
            out.rows.push(r);
        }
    }
    out
}

/// One generation of the file: everything its writer will ever put in it.
#[derive(Clone, Debug)]
pub struct Gen {
    pub id: u64,
    pub cols: Vec<String>,
    pub plan: Vec<u8>,
}
pub const COLS: [&str; 5] = ["alt", "vel_x[m/s]", "vel_y[m/s]", "air temp", "#pressure (hPa)"];
pub const TIMES: [&str; 4] = ["time", "#time", "t [s]", "Time"];

pub struct GenOpts {
    pub header: bool,
    pub rows: u64,
    pub malformed: bool,
    pub crlf: bool,
    pub utf8: bool,
    pub drop_col: Option<usize>,
    pub shuffle: bool,
    pub values: Values,
    pub time: &'static str,
    /// some lines are several kilobytes long
    pub long_lines: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Values {
    /// every value names its place: see `value`
    Unique,
    /// few distinct values: rows repeat, nothing is sorted
    Repeating,
    /// the first column still names its generation, but is not sorted; the others are any small numbers
    Loose,
    /// as Loose, but the values of a column lie very close together
    Tight,
    /// any finite number in any notation
    Wild,
}
fn wild_num() -> String {
    let m = choose(1_000_000);
    match choose(9) {
        0 => format!("-{m}"),
        1 => format!("{}", m as f64 / 1000.0 - 500.0),
        2 => pick(&["0", "-0", "0.0", "-0.0", "00", ".5", "5.", "-.25", "1e-320", "4.9e-324", "1.7976931348623157e308", "-1e308", "1E3", "1e+2", "12e-1", "0.1", "0.30000000000000004", "9007199254740993", "123456789012345678901234567890"]).to_string(),
        3 => format!("{:?}", f64::from_bits(choose(u64::MAX) & 0x7fdf_ffff_ffff_ffff)),
        4 => format!("{:e}", m as f64 / 7.0),
        5 => format!("{}", m as f64 / 3.0),
        6 => format!("{:?}", m as f32 / 3.0),
        _ => fmt_num(m),
    }
}
fn fmt_num(v: u64) -> String {
    match choose(6) {
        0 | 1 => format!("{v}"),
        2 => format!("{v}.0"),
        3 => format!("{}e1", v as f64 / 10.0),
        4 => format!(" {v} "),
        _ => format!("+{v}"),
    }
}
/// Values are unique and decode to (generation, row, column): v = ((gen*1000 + row)*8 + col).
pub fn value(gen: u64, row: u64, col: usize) -> u64 {
    (gen * 10_000 + row) * 8 + col as u64
}
pub fn make_gen(id: u64, o: &GenOpts) -> Gen {
    let mut cols: Vec<String> = std::iter::once(o.time).chain(COLS).map(|s| s.to_string()).collect();
    // column number in `value` is the index in COLS plus one; the file's order may differ between generations
    let mut order: Vec<usize> = (0..cols.len()).collect();
    if o.shuffle {
        for i in (1..order.len()).rev() {
            let j = choose(i as u64 + 1) as usize;
            order.swap(i, i - j);
        }
    }
    if let Some(d) = o.drop_col {
        order.retain(|c| *c != d);
    }
    let mut plan = String::new();
    let nl = |s: &mut String| s.push_str(if o.crlf && choose(4) != 3 { "\r\n" } else { "\n" });
    let long = |s: &mut String| {
        if o.long_lines && chance(1, 6) {
            probe("long_line");
            let n = pick(&[300usize, 2_000, 9_000, 70_000]);
            s.push(',');
            s.push_str(&if chance(1, 2) { "x".repeat(n) } else { "1,".repeat(n / 2) });
        }
    };
    let note = |s: &mut String| {
        if o.utf8 {
            s.push_str(pick(&[",é", ",漢字", ",🚀 ok", ",ascii"]))
        }
    };
    if o.header {
        if chance(1, 8) {
            nl(&mut plan);
        }
        plan.push_str(&order.iter().map(|c| cols[*c].clone()).collect::<Vec<_>>().join(if chance(1, 4) { ", " } else { "," }));
        if o.utf8 {
            plan.push_str(",note·");
        }
        if o.long_lines && chance(1, 3) {
            for k in 0..pick(&[40u32, 2_000]) {
                plan.push_str(&format!(",c{k}"));
            }
        }
        nl(&mut plan);
    }
    let mut last: Vec<String> = vec![];
    for r in 0..o.rows {
        let mut f: Vec<String> = match o.values {
            Values::Unique => order.iter().map(|c| fmt_num(value(id, r, *c))).collect(),
            Values::Repeating => {
                if r > 0 && chance(1, 3) {
                    probe("repeated_row");
                    last.clone()
                } else {
                    order.iter().map(|_| pick(&["0", "1", "2", "-1", "2.5", "-3e0"]).to_string()).collect()
                }
            }
            Values::Loose | Values::Tight => {
                if r > 0 && chance(1, 4) {
                    probe("repeated_row");
                    last.clone()
                } else {
                    order.iter().map(|c| if *c == 0 { fmt_num(value(id, choose(20), 0)) } else { if o.values == Values::Tight { format!("{:.6}", 0.001 + choose(30) as f64 * 1e-5) } else { format!("{}", choose(40) as f64 * 0.75 - 12.0) } }).collect()
                }
            }
            Values::Wild => order.iter().map(|_| wild_num()).collect(),
        };
        last = f.clone();
        if o.malformed && matches!(o.values, Values::Repeating | Values::Wild) && chance(1, 20) {
            // a line that is not data at all
            plan.push_str(pick(&["time", "# a remark", "   ", "\t", ",,,,,", "\"1\",\"2\",\"3\"", "0x10,1,2,3,4,5", "1_000,1,2,3,4,5", "1;2;3;4;5;6", "-", "1 2,3,4,5,6,7"]));
            nl(&mut plan);
        }
        if o.malformed && o.header && chance(1, 30) {
            // the writer starts over in the same file
            probe("header_again");
            plan.push_str(&order.iter().map(|c| cols[*c].clone()).collect::<Vec<_>>().join(","));
            nl(&mut plan);
        }
        if o.malformed && chance(1, 5) {
            let k = choose(f.len() as u64) as usize;
            match choose(7) {
                0 => f[k] = "NaN".into(),
                1 => f[k] = "inf".into(),
                2 => f[k] = "x1y".into(),
                3 => f[k] = String::new(),
                4 => f.truncate(k),
                5 => f = vec![String::new()],
                _ => f.push("7".into()),
            }
        }
        plan.push_str(&f.join(","));
        long(&mut plan);
        note(&mut plan);
        nl(&mut plan);
    }
    cols = order.iter().map(|c| cols[*c].clone()).collect();
    Gen { id, cols, plan: plan.into_bytes() }
}
