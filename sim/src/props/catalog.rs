//! C14, C15: the star catalogue loader against a changing file and failing reads.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_catalogs::star_catalogs::{GncCatalogReader, GncRecord};
use sha2::{Digest, Sha256};

const PATH: &str = "/sim/cat/gnc.csv";
const REAL: &[&str] = &["aether_catalogs::star_catalogs::GncCatalogReader", "csv, serde, sha2 crates", "std file I/O above libc"];
const STUB: &[&str] = &["libc file calls: in-memory file system", "the process changing the file: environment actor"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 100_000, thorough: 2_000_000, rule: "", want: &[], real: REAL, stub: STUB, assume: &[] };
    vec![
        Prop { id: "C14", run: verified,
            rule: "A generated catalogue is loaded under a checksum while another process replaces, rewrites, truncates, extends or restores the file between any two system calls of the loader, with short and interrupted reads; or it is loaded after one corruption. Whatever loads must be the catalogue the checksum belongs to.",
            want: &["changed_mid_load", "accepted", "rejected", "corrupt_byte", "corrupt_tail", "extended", "truncated", "over_64k", "over_1m", "repeated_row", "checksum_near_miss", "default_catalogue", "short_read", "eintr", "restored_mid_load"], ..base },
        Prop { id: "C15", run: faulty,
            rule: "A generated catalogue with malformed rows is loaded and checksummed while opens and reads fail, are cut short or interrupted at any call. The outcome must be every well-formed row or an error.",
            want: &["malformed_row", "mostly_malformed", "hard_fault", "transparent_only", "complete", "failed", "checksum_ok", "over_64k", "over_1m", "repeated_row", "missing_file", "invalid_utf8_row", "short_read", "eintr", "eio_read"], ..base },
    ]
}

const HEADER: &str = "gnc_id,hip_id,gaiadr3_id,ra_2016,de_2016,e_ra_2016,e_de_2016,pmra,pmde,e_pmra,e_pmde,plx,e_plx,cat_2016,gmag,e_gmag,bpmag,e_bpmag,rpmag,e_rpmag,jmag,e_jmag,hmag,e_hmag,kmag,e_kmag,flag_var,flag_mult,neighbor_id,neighbor_distance_arcsec,shift_arsec,flag_shift,flag_pos,flag_pm,flag_neighbor";

struct Cat {
    bytes: Vec<u8>,
    /// Debug form of every well-formed record
    rows: Vec<String>,
}
struct RowGen {
    long: bool,
    f: Vec<Vec<u8>>,
}
impl RowGen {
    fn text(&mut self, s: &str) {
        self.f.push(s.as_bytes().to_vec());
    }
    fn u64(&mut self, v: u64) -> u64 {
        self.text(&v.to_string());
        v
    }
    fn ou64(&mut self) -> Option<u64> {
        if chance(1, 3) {
            self.text("");
            None
        } else {
            let v = log_choice(u64::MAX - 1);
            Some(self.u64(v))
        }
    }
    fn f32(&mut self) -> f32 {
        let v = pick(&[0.25f32, -3.5, 0.0, 12.125, 1.0e-3, 4.75e5]) * (1.0 + choose(64) as f32 / 64.0);
        self.text(&format!("{v}"));
        v
    }
    fn of32(&mut self) -> Option<f32> {
        if choose(3) == 2 {
            self.text("");
            None
        } else {
            Some(self.f32())
        }
    }
    fn f64(&mut self) -> f64 {
        let v = (choose(3_600_000) as f64 - 1_800_000.0) / 1e4 + choose(1000) as f64 * 1e-9;
        self.text(&format!("{v}"));
        v
    }
    fn ostr(&mut self, xs: &[&str]) -> Option<String> {
        let s = xs[choose(xs.len() as u64) as usize];
        if self.long && s.starts_with('A') && chance(1, 30) {
            probe("long_field");
            let s = "A, \"long\" remark\n".repeat(pick(&[20, 300, 5_000]));
            self.text(&format!("\"{}\"", s.replace('"', "\"\"")));
            return Some(s);
        }
        if s.is_empty() {
            self.text("");
            return None;
        }
        if s.contains([',', '"', '\n']) || chance(1, 8) {
            self.text(&format!("\"{}\"", s.replace('"', "\"\"")));
        } else {
            self.text(s);
        }
        Some(s.to_string())
    }
}
fn record(id: u64, long: bool) -> (GncRecord, Vec<Vec<u8>>) {
    let mut g = RowGen { f: vec![], long };
    let flags = ["", "A", "0101", "x,y", "say \"no\"", "two\nlines", "é°"];
    let r = GncRecord {
        gnc_id: g.u64(id),
        hip_id: g.ou64(),
        gaiadr3_id: g.ou64(),
        ra_2016: g.f64(),
        de_2016: g.f64(),
        e_ra_2016: g.f32(),
        e_de_2016: g.f32(),
        pmra: g.of32(),
        pmde: g.of32(),
        e_pmra: g.of32(),
        e_pmde: g.of32(),
        plx: g.of32(),
        e_plx: g.of32(),
        cat_2016: g.ostr(&["GAIADR3", "", "HIP2"]),
        gmag: g.of32(),
        e_gmag: g.of32(),
        bpmag: g.of32(),
        e_bpmag: g.of32(),
        rpmag: g.of32(),
        e_rpmag: g.of32(),
        jmag: g.of32(),
        e_jmag: g.of32(),
        hmag: g.of32(),
        e_hmag: g.of32(),
        kmag: g.of32(),
        e_kmag: g.of32(),
        flag_var: g.ostr(&flags),
        flag_mult: g.ostr(&["", "M"]),
        neighbor_id: g.u64(1000 + id),
        neighbor_distance_arcsec: g.f32(),
        shift_arsec: g.of32(),
        flag_shift: g.ostr(&["", "S"]),
        flag_pos: g.ostr(&flags),
        flag_pm: g.ostr(&["", "P"]),
        flag_neighbor: g.ostr(&["", "N", "n n"]),
    };
    (r, g.f)
}
/// Fields that must hold a number.
const REQUIRED: [usize; 7] = [0, 3, 4, 5, 6, 28, 29];
/// Fields that must be empty or a number.
const OPTIONAL: [usize; 8] = [1, 2, 7, 8, 11, 14, 25, 30];
fn make(first_id: u64, rows: u64, malformed: bool) -> Cat {
    let mut c = Cat { bytes: HEADER.as_bytes().to_vec(), rows: vec![] };
    let nl: &[u8] = if chance(1, 4) { b"\r\n" } else { b"\n" };
    c.bytes.extend_from_slice(nl);
    // a big catalogue repeats one generated row under different numbers
    let big = rows > 40;
    let proto = record(0, false);
    // a few bad rows, hardly a good one, or a stretch of bad ones
    let (num, den) = if chance(1, 6) {
        probe("mostly_malformed");
        (19, 20)
    } else {
        (1, if big { 60 } else { 5 })
    };
    let stretch = if chance(1, 6) { choose(rows + 1) } else { rows };
    let stretch = choose(stretch + 1)..stretch;
    let mut last: Option<(GncRecord, Vec<Vec<u8>>)> = None;
    for i in 0..rows {
        // numbers need be neither distinct nor sorted
        let id = if chance(1, 12) { pick(&[0, first_id, first_id + rows - i, u64::MAX - 2000]) } else { first_id + i };
        let (mut r, mut f);
        if last.is_some() && chance(1, 25) {
            probe("repeated_row");
            let (lr, lf): &(GncRecord, Vec<Vec<u8>>) = last.as_ref().unwrap();
            (r, f) = (clone(lr), lf.clone());
        } else if big && !chance(1, 40) {
            r = clone(&proto.0);
            f = proto.1.clone();
            r.gnc_id = id;
            f[0] = id.to_string().into_bytes();
        } else {
            (r, f) = record(id, !big);
        }
        last = Some((clone(&r), f.clone()));
        let mut good = true;
        if malformed && (stretch.contains(&i) && stretch.end < rows || chance(num, den)) {
            good = false;
            probe("malformed_row");
            match choose(6) {
                0 => f[pick(&REQUIRED)] = b"n/a".to_vec(),
                1 => f[pick(&REQUIRED)] = vec![],
                2 => f[pick(&OPTIONAL)] = b"?".to_vec(),
                3 => {
                    f[13] = b"GAIA\xff\xfe".to_vec();
                    probe("invalid_utf8_row");
                }
                4 => f.truncate(1 + choose(28) as usize),
                _ => f[pick(&[0, 28])] = b"-5".to_vec(),
            }
        } else if chance(1, 30) {
            // surplus fields at the end of a row do not make it malformed
            f.push(b"extra".to_vec());
        }
        if good {
            c.rows.push(format!("{r:?}"));
        }
        c.bytes.extend_from_slice(&f.join(&b","[..]));
        if i + 1 < rows || !chance(1, 4) {
            c.bytes.extend_from_slice(nl);
        }
        if chance(1, 20) {
            c.bytes.extend_from_slice(nl);
        }
    }
    if c.bytes.len() > 1024 * 1024 {
        probe("over_1m");
    }
    if c.bytes.len() > 64 * 1024 {
        probe("over_64k");
    }
    c
}
fn clone(r: &GncRecord) -> GncRecord {
    GncRecord { cat_2016: r.cat_2016.clone(), flag_var: r.flag_var.clone(), flag_mult: r.flag_mult.clone(), flag_shift: r.flag_shift.clone(), flag_pos: r.flag_pos.clone(), flag_pm: r.flag_pm.clone(), flag_neighbor: r.flag_neighbor.clone(), ..*r }
}
fn sha(b: &[u8]) -> String {
    let mut s: String = Sha256::digest(b).iter().map(|b| format!("{b:02x}")).collect();
    match choose(4) {
        2 => s = s.to_uppercase(),
        3 => s = s.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => {}
    }
    s
}
fn rows_of(r: &GncCatalogReader) -> Vec<String> {
    r.records.iter().map(|r| format!("{r:?}")).collect()
}
fn differ(got: &[String], want: &[String]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} records, expected {}; first difference at record {i}: got {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i))
}
fn rows() -> u64 {
    if chance(1, 6_000) {
        probe("over_64k_rows");
        range(65_600, 70_000)
    } else if chance(1, 300) {
        range(5_000, 9_000)
    } else if chance(1, 25) {
        range(500, 900)
    } else {
        range(0, 12)
    }
}
fn load<R>(what: &str, f: impl FnOnce() -> Result<R, Box<dyn std::error::Error>>) -> Result<R, String> {
    match sut(|| f().map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}
fn transparent() {
    enable(Fault::ShortRead, 1, pick(&[2, 4, 8]));
    enable(Fault::Eintr, 1, pick(&[4, 10, 30]));
}

// ------------------------------------------------------------------ C14
struct Change {
    good: Vec<u8>,
    bad: Vec<u8>,
    left: u64,
    den: u64,
    made: u64,
    calls: u64,
}
static mut CH: Option<Change> = None;
fn ch() -> &'static mut Change {
    unsafe { CH.as_mut().unwrap() }
}
/// Same length, a few digits replaced: the forgery an attacker or a concurrent update would make.
fn tamper(good: &[u8]) -> Vec<u8> {
    let mut b = good.to_vec();
    let digits: Vec<usize> = (HEADER.len()..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
    if digits.is_empty() {
        b.push(b'\n');
        return b;
    }
    for _ in 0..range(1, 4) {
        let i = digits[choose(digits.len() as u64) as usize];
        b[i] = b'0' + ((b[i] - b'0') as u64 + 1 + choose(9)) as u8 % 10;
    }
    if b == good {
        b.push(b'\n');
    }
    b
}
fn change_file(v: &mut Vfs, op: Op) {
    let c = ch();
    if op != Op::Other {
        c.calls += 1;
    }
    if c.left == 0 || !chance(1, c.den) {
        return;
    }
    c.left -= 1;
    c.made += 1;
    probe("changed_mid_load");
    fired("file_changed");
    let ino = v.lookup(PATH);
    match choose(7) {
        0 => {
            ev(|| "file replaced by another catalogue".into());
            v.put(PATH, &c.bad);
        }
        1 => {
            ev(|| "file rewritten in place".into());
            if let Some(i) = ino {
                *v.data_mut(i) = c.bad.clone();
            }
        }
        2 => {
            if let Some(i) = ino {
                let d = v.data_mut(i);
                let k = choose(d.len() as u64 + 1) as usize;
                d.truncate(k);
                ev(|| format!("file truncated to {k} bytes"));
            }
        }
        3 => {
            // one more row, already well-formed
            if let Some(i) = ino {
                let n = c.bad.iter().rposition(|b| *b == b'\n').map_or(0, |p| c.bad[..p].iter().rposition(|b| *b == b'\n').map_or(0, |q| q + 1));
                let tail = c.bad[n..].to_vec();
                v.data_mut(i).extend_from_slice(&tail);
                ev(|| format!("{} bytes appended", tail.len()));
            }
        }
        4 => {
            ev(|| "file restored".into());
            probe("restored_mid_load");
            v.put(PATH, &c.good);
        }
        5 => {
            ev(|| "file restored in place".into());
            probe("restored_mid_load");
            if let Some(i) = ino {
                *v.data_mut(i) = c.good.clone();
            }
        }
        _ => {
            ev(|| "file deleted".into());
            v.remove(PATH);
        }
    }
}
fn verified() {
    let good = make(1, rows(), chance(1, 3));
    let forged = chance(1, 3);
    let mut bad = if forged { tamper(&good.bytes) } else { make(5_000_000, rows(), false).bytes };
    if bad == good.bytes {
        // two catalogues without rows
        bad.push(b'\n');
    }
    let digest = sha(&good.bytes);
    transparent();
    if chance(1, 20) {
        // the default catalogue: nothing generated here can have its checksum
        probe("default_catalogue");
        let p = GncCatalogReader::default_catalog_path();
        if !chance(1, 4) {
            sim().vfs.put(p.to_str().unwrap(), &good.bytes);
        }
        let r = if chance(1, 2) { load("from_default_catalog", GncCatalogReader::from_default_catalog) } else { load("from_csv_verified_v1_1", || GncCatalogReader::from_csv_verified_v1_1(&p)) };
        check!(r.is_err(), "wrong-content-accepted", "the official catalogue's loader accepted {} bytes that are not it", good.bytes.len());
        return;
    }
    describe(format!("catalogue of {} bytes, {} rows; other file {} bytes, forged: {forged}", good.bytes.len(), good.rows.len(), bad.len()));
    if chance(1, 3) {
        // one static corruption, or a checksum that is almost right
        let mut b = good.bytes.clone();
        let mut d = digest.clone();
        let mut corrupt = true;
        match choose(9) {
            0 => {
                let i = choose(b.len() as u64) as usize;
                b[i] ^= 1 << choose(8);
                probe("corrupt_byte");
            }
            1 => {
                let n = b.len();
                let i = n - 1 - choose(n.min(4) as u64) as usize;
                b[i] ^= 1 << choose(8);
                probe("corrupt_tail");
            }
            2 => {
                let k = choose(b.len() as u64) as usize;
                b.truncate(k);
                probe("truncated");
            }
            3 => {
                let k = b.len() - 1;
                b.truncate(k);
                probe("truncated");
            }
            4 => {
                b.push(pick(&[b'\n', b' ', 0, b'7']));
                probe("extended");
            }
            5 => {
                b.splice(0..0, pick(&[&b"\xef\xbb\xbf"[..], b"\n", b" "]).iter().copied());
                probe("extended");
            }
            6 => {
                probe("checksum_near_miss");
                let i = choose(64) as usize;
                let c = d.as_bytes()[i];
                let r = if c.eq_ignore_ascii_case(&b'0') { "1" } else { "0" };
                d.replace_range(i..i + 1, r);
            }
            7 => {
                probe("checksum_near_miss");
                match choose(4) {
                    0 => d.truncate(choose(64) as usize),
                    1 => d.push('0'),
                    2 => d = format!("0x{d}"),
                    _ => d.insert(choose(64) as usize, '0'),
                }
            }
            _ => corrupt = false,
        }
        sim().vfs.put(PATH, &b);
        nontrivial();
        let r = load("from_csv_with_expected_sha256", || GncCatalogReader::from_csv_with_expected_sha256(PATH, &d));
        let v = load("verify_catalog_checksum", || GncCatalogReader::verify_catalog_checksum(PATH, &d));
        if corrupt {
            check!(r.is_err(), "wrong-content-accepted", "a file that differs from the expected content was accepted ({} instead of {} bytes, checksum {d})", b.len(), good.bytes.len());
            check!(v.is_err(), "wrong-content-verified", "the checksum of a differing file verified ({} instead of {} bytes, checksum {d})", b.len(), good.bytes.len());
            probe("rejected");
        } else {
            accepted(r, &good);
            check!(v.is_ok(), "good-content-rejected", "the right checksum was refused: {:?}", v.err());
        }
        return;
    }
    // the file changes while it is being loaded
    let start_bad = chance(1, 3);
    sim().vfs.put(PATH, if start_bad { &bad } else { &good.bytes });
    let active = chance(7, 8);
    unsafe {
        CH = Some(Change { good: good.bytes.clone(), bad, left: if active { range(1, 3) } else { 0 }, den: pick(&[2, 4, 8, 16]), made: 0, calls: 0 });
    }
    sim().actor = Some(Box::new(change_file));
    let r = load("from_csv_with_expected_sha256", || GncCatalogReader::from_csv_with_expected_sha256(PATH, &digest));
    sim().actor = None;
    if ch().made == 0 && !start_bad {
        accepted(r, &good);
        return;
    }
    match r {
        Ok(c) => {
            let got = rows_of(&c);
            check!(got == good.rows, "unverified-data", "a verified load returned data its checksum does not cover: {}", differ(&got, &good.rows));
            check!(ch().made > 0, "wrong-content-accepted", "a file that differs from the expected content was accepted");
            probe("accepted");
        }
        Err(_) => probe("rejected"),
    }
}
fn accepted(r: Result<GncCatalogReader, String>, good: &Cat) {
    match r {
        Ok(c) => {
            let got = rows_of(&c);
            check!(got == good.rows, "wrong-records", "{}", differ(&got, &good.rows));
            probe("accepted");
        }
        Err(e) => violation("good-content-rejected", &format!("a catalogue with the expected checksum was refused: {e}")),
    }
}

// ------------------------------------------------------------------ C15
fn faulty() {
    let cat = make(1, rows(), true);
    transparent();
    describe(format!("catalogue of {} bytes, {} well-formed rows", cat.bytes.len(), cat.rows.len()));
    let digest = sha(&cat.bytes);
    match choose(14) {
        0 => {
            probe("missing_file");
            if chance(1, 2) {
                sim().vfs.mkdirs(PATH);
            }
            let r = load("from_csv", || GncCatalogReader::from_csv(PATH));
            check!(r.is_err(), "missing-file-loaded", "loading a file that does not exist gave {} records", r.unwrap().records.len());
            let v = load("verify_catalog_checksum", || GncCatalogReader::verify_catalog_checksum(PATH, &sha(b"")));
            check!(v.is_err(), "missing-file-verified", "a file that does not exist verified");
            return;
        }
        _ => {
            sim().vfs.put(PATH, &cat.bytes);
        }
    }
    let hard = chance(2, 3);
    if hard {
        let d = if cat.bytes.len() > 64 * 1024 { pick(&[4, 20, 60]) } else { pick(&[2, 4, 8]) };
        enable(Fault::EioRead, 1, d);
        enable(Fault::OpenEio, 1, 12);
        enable(Fault::OpenEmfile, 1, 12);
        enable(Fault::OpenEacces, 1, 12);
        enable(Fault::StatErr, 1, 8);
        enable(Fault::SeekErr, 1, 8);
        set_fault_budget(range(1, 3) as u32);
    }
    for step in 0..range(1, 3) {
        let before = damage();
        match choose(3) {
            0 | 1 => {
                let verified = chance(1, 3);
                let r = if verified {
                    load("from_csv_with_expected_sha256", || GncCatalogReader::from_csv_with_expected_sha256(PATH, &digest))
                } else {
                    load("from_csv", || GncCatalogReader::from_csv(PATH))
                };
                let hit = damage() > before;
                probe(if hit { "hard_fault" } else { "transparent_only" });
                match r {
                    Ok(c) => {
                        let got = rows_of(&c);
                        check!(got == cat.rows, if hit { "partial-load" } else { "wrong-records" }, "step {step}: load succeeded with {}", differ(&got, &cat.rows));
                        probe("complete");
                    }
                    Err(e) => {
                        check!(hit, "load-failed", "step {step}: only short or interrupted reads happened, yet loading failed: {e}");
                        probe("failed");
                    }
                }
            }
            _ => {
                let wrong = chance(1, 3);
                let d = if wrong { sha(&cat.bytes[1..]) } else { digest.clone() };
                let r = load("verify_catalog_checksum", || GncCatalogReader::verify_catalog_checksum(PATH, &d));
                let hit = damage() > before;
                match r {
                    Ok(()) => {
                        check!(!wrong, "wrong-content-verified", "a wrong checksum verified");
                        probe("checksum_ok");
                    }
                    Err(e) => check!(hit || wrong, "checksum-failed", "step {step}: only short or interrupted reads happened, yet verification failed: {e}"),
                }
            }
        }
    }
}
/// Hard faults so far, except those a loader may legitimately not notice.
fn damage() -> u64 {
    ["eio_read", "open_eio", "open_emfile", "open_eacces", "stat_error", "seek_error"].iter().map(|k| sim().fault_fired.get(*k).copied().unwrap_or(0)).sum()
}
