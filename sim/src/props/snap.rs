//! C26, C27: state snapshots on a simulated disk and stream.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, Body, ICRF};
use bincode::config;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufReader, Write};

const PATH: &str = "/sim/snap/state.bin";
const REAL: &[&str] = &["aether_core Encode/Decode/BorrowDecode and Serialize/Deserialize impls", "bincode, serde_json, serde-json-core", "std file I/O above libc"];
const STUB: &[&str] = &["libc file calls: in-memory file system with torn, failing and full writes"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 200_000, thorough: 4_000_000, rule: "", want: &[], real: REAL, stub: STUB, assume: &[] };
    vec![
        Prop { id: "C26", run: snapshot,
            rule: "A random value, or a sequence of values of all types, is written to a simulated file or buffer as bincode (three configurations) or JSON (two libraries), the write being cut by a full disk, an I/O error or a crash at any byte; then it is read back through short, interrupted, failing or torn reads, or after its JSON shape was changed.",
            want: &["bincode", "json", "json_core", "torn", "read_complete", "read_rejected", "write_error", "full_buffer", "short_read", "short_write", "eintr", "eio_read", "enospc", "shape_rejected", "borrowed", "sequence", "nan_bits"],
            assume: &["JSON snapshots hold finite numbers (JSON has no others)", "a torn file is a prefix of what was written"], ..base },
        Prop { id: "C27", run: ownership,
            rule: "Matrices and vectors of counted elements are read from streams that end, fail, contain a bad element or have the wrong shape at every position, through every decoder; live elements are counted by identity.",
            want: &["bincode", "borrowed", "json", "json_core", "value_tree", "cut", "io_error", "bad_element", "too_few", "too_many", "complete", "nested", "collected", "collect_stopped"], ..base },
    ]
}
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}

// ------------------------------------------------------------------ values
static mut FINITE: bool = true;
fn a64() -> f64 {
    let v = match choose(8) {
        0 => choose(100) as f64,
        1 => -(choose(1000) as f64) / 7.0,
        2 => pick(&[0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e300, 0.1]),
        3 => pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        _ => f64::from_bits(choose(u64::MAX)),
    };
    if unsafe { FINITE } && !v.is_finite() {
        1.5
    } else {
        v
    }
}
fn a32() -> f32 {
    let v = match choose(6) {
        0 => choose(100) as f32,
        1 => pick(&[0.0, -0.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.1]),
        2 => pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
        _ => f32::from_bits(choose(1 << 32) as u32),
    };
    if unsafe { FINITE } && !v.is_finite() {
        1.5
    } else {
        v
    }
}
trait Snap: Sized {
    const NAME: &'static str;
    fn make() -> Self;
    fn words(&self, out: &mut Vec<u64>);
}
impl<const N: usize> Snap for Vector<f64, N> {
    const NAME: &'static str = "Vector<f64>";
    fn make() -> Self {
        Vector { data: std::array::from_fn(|_| a64()) }
    }
    fn words(&self, out: &mut Vec<u64>) {
        out.extend(self.data.iter().map(|v| v.to_bits()));
    }
}
impl<const N: usize> Snap for Vector<f32, N> {
    const NAME: &'static str = "Vector<f32>";
    fn make() -> Self {
        Vector { data: std::array::from_fn(|_| a32()) }
    }
    fn words(&self, out: &mut Vec<u64>) {
        out.extend(self.data.iter().map(|v| v.to_bits() as u64));
    }
}
impl<const M: usize, const N: usize> Snap for Matrix<f64, M, N> {
    const NAME: &'static str = "Matrix<f64>";
    fn make() -> Self {
        Matrix { data: std::array::from_fn(|_| std::array::from_fn(|_| a64())) }
    }
    fn words(&self, out: &mut Vec<u64>) {
        out.extend(self.data.iter().flatten().map(|v| v.to_bits()));
    }
}
impl<const M: usize, const N: usize> Snap for Matrix<f32, M, N> {
    const NAME: &'static str = "Matrix<f32>";
    fn make() -> Self {
        Matrix { data: std::array::from_fn(|_| std::array::from_fn(|_| a32())) }
    }
    fn words(&self, out: &mut Vec<u64>) {
        out.extend(self.data.iter().flatten().map(|v| v.to_bits() as u64));
    }
}
impl<const M: usize, const N: usize> Snap for Matrix<u64, M, N> {
    const NAME: &'static str = "Matrix<u64>";
    fn make() -> Self {
        Matrix { data: std::array::from_fn(|_| std::array::from_fn(|_| log_choice(u64::MAX - 1))) }
    }
    fn words(&self, out: &mut Vec<u64>) {
        out.extend(self.data.iter().flatten());
    }
}
type Frame = ICRF<f64>;
impl Snap for Quaternion<f64, Frame, Body<f64>> {
    const NAME: &'static str = "Quaternion<f64>";
    fn make() -> Self {
        Quaternion::new(a64(), a64(), a64(), a64())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.data.words(out);
    }
}
impl Snap for Euler<f32, Frame, Frame> {
    const NAME: &'static str = "Euler<f32>";
    fn make() -> Self {
        Euler::new(a32(), a32(), a32())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.data.words(out);
    }
}
impl Snap for Euler<f64, Frame, Frame> {
    const NAME: &'static str = "Euler<f64>";
    fn make() -> Self {
        Euler::new(a64(), a64(), a64())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.data.words(out);
    }
}
impl Snap for DirectionCosineMatrix<f64, Frame, Frame> {
    const NAME: &'static str = "DirectionCosineMatrix<f64>";
    fn make() -> Self {
        DirectionCosineMatrix::from_matrix(Matrix::make())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.as_matrix().words(out);
    }
}
impl<F: aether_core::reference_frame::ReferenceFrame> Snap for Cartesian<f64, F> {
    const NAME: &'static str = "Cartesian<f64>";
    fn make() -> Self {
        Cartesian::new(a64(), a64(), a64())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.data.words(out);
    }
}
impl Snap for Body<f64> {
    const NAME: &'static str = "Body<f64>";
    fn make() -> Self {
        Body::new(Snap::make(), Snap::make())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.mass_center.words(out);
        self.lever_arm.words(out);
    }
}
impl Snap for Assembly<f64> {
    const NAME: &'static str = "Assembly<f64>";
    fn make() -> Self {
        Assembly::new(Snap::make(), Snap::make())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.mass_center.words(out);
        self.lever_arm.words(out);
    }
}
type State = (Vector<f64, 6>, Matrix<f64, 2, 3>, Quaternion<f64, Frame, Body<f64>>, Euler<f32, Frame, Frame>, DirectionCosineMatrix<f64, Frame, Frame>, Cartesian<f64, Frame>, Body<f64>, Vector<f32, 1>);
impl Snap for State {
    const NAME: &'static str = "whole state";
    fn make() -> Self {
        (Snap::make(), Snap::make(), Snap::make(), Snap::make(), Snap::make(), Snap::make(), Snap::make(), Snap::make())
    }
    fn words(&self, out: &mut Vec<u64>) {
        self.0.words(out);
        self.1.words(out);
        self.2.words(out);
        self.3.words(out);
        self.4.words(out);
        self.5.words(out);
        self.6.words(out);
        self.7.words(out);
    }
}
fn words<T: Snap>(v: &T) -> Vec<u64> {
    let mut w = vec![];
    v.words(&mut w);
    w
}

// ------------------------------------------------------------------ C26
fn snapshot() {
    let json = chance(1, 2);
    unsafe { FINITE = json };
    macro_rules! go {
        ($($t:ty),*) => {{
            let n = [$(stringify!($t)),*].len() as u64;
            let k = choose(n);
            let mut i = 0;
            $( if i == k { if json { json_run::<$t>() } else { bin_run::<$t>() } } i += 1; )*
            let _ = i;
        }};
    }
    if json && chance(1, 12) {
        return json_run::<Assembly<f64>>();
    }
    if !json && chance(1, 12) {
        return bin_run::<Matrix<u64, 3, 2>>();
    }
    go!(
        Vector<f64, 3>,
        Vector<f64, 1>,
        Vector<f32, 7>,
        Matrix<f64, 3, 3>,
        Matrix<f64, 1, 4>,
        Matrix<f64, 4, 1>,
        Matrix<f32, 2, 5>,
        Matrix<f64, 6, 6>,
        Quaternion<f64, Frame, Body<f64>>,
        Euler<f64, Frame, Frame>,
        DirectionCosineMatrix<f64, Frame, Frame>,
        Cartesian<f64, Frame>,
        Body<f64>,
        State
    )
}
#[derive(Clone, Copy, Debug)]
enum Cfg {
    Standard,
    Legacy,
    Big,
}
fn transparent() {
    enable(Fault::ShortRead, 1, pick(&[1, 2, 4]));
    enable(Fault::ShortWrite, 1, pick(&[1, 2, 4]));
    enable(Fault::Eintr, 1, pick(&[3, 6, 20]));
}
fn hard_fired() -> u64 {
    ["eio_read", "eio_write", "enospc", "disk_full"].iter().map(|k| sim().fault_fired.get(*k).copied().unwrap_or(0)).sum()
}
/// Writes through `f` into the simulated file, with the disk filling up or failing at some byte in part of the runs.
fn write_file(what: &str, len: usize, f: impl FnOnce(&mut File) -> Result<usize, String>) -> bool {
    let fail = chance(1, 4);
    let before = hard_fired();
    if fail {
        if chance(1, 2) {
            sim().vfs.free = Some(choose(len as u64 + 1));
        } else {
            enable(Fault::EioWrite, 1, 4);
            enable(Fault::Enospc, 1, 4);
            set_fault_budget(1);
        }
    }
    let r = call(what, || {
        let mut file = File::create(PATH).map_err(|e| e.to_string())?;
        let n = f(&mut file)?;
        file.flush().map_err(|e| e.to_string())?;
        Ok::<usize, String>(n)
    });
    enable(Fault::EioWrite, 0, 1);
    enable(Fault::Enospc, 0, 1);
    sim().vfs.free = None;
    let written = sim().vfs.data(PATH).map_or(0, |d| d.len());
    match r {
        Ok(_) => {
            check!(written == len, "short-snapshot", "{what} reported success with {written} of {len} bytes in the file");
            true
        }
        Err(e) => {
            check!(hard_fired() > before || written < len, "write-failed", "{what} failed without a disk fault: {e}");
            probe("write_error");
            false
        }
    }
}
/// What happens to the file between writing and reading: nothing, or it is torn.
fn tear(len: usize) -> bool {
    if !chance(1, 3) {
        return false;
    }
    let k = choose(len as u64) as usize;
    let i = sim().vfs.lookup(PATH).unwrap();
    let d = sim().vfs.data_mut(i);
    if d.len() <= k {
        return d.len() < len;
    }
    d.truncate(k);
    ev(|| format!("file torn at {k} of {len}"));
    probe("torn");
    fired("torn_write");
    true
}
/// Reads the file back under faults and judges the outcome.
fn read_file<T: Snap>(what: &str, want: &[u64], complete: bool, f: impl FnOnce(File) -> Result<T, String>) {
    if chance(1, 3) {
        enable(Fault::EioRead, 1, pick(&[2, 6]));
        set_fault_budget(1);
    }
    let before = hard_fired();
    let r = call(what, || f(File::open(PATH).map_err(|e| e.to_string())?));
    enable(Fault::EioRead, 0, 1);
    let failed = hard_fired() > before;
    judge(what, want, complete, failed, r);
}
fn judge<T: Snap>(what: &str, want: &[u64], complete: bool, failed: bool, r: Result<T, String>) {
    match r {
        Ok(v) => {
            let w = words(&v);
            check!(complete, "partial-read", "{what}: {} was read from a torn snapshot as {w:x?} (written: {want:x?})", T::NAME);
            check!(w == want, "wrong-value", "{what}: {} read back as {w:x?}, written as {want:x?}", T::NAME);
            probe("read_complete");
        }
        Err(e) => {
            check!(failed || !complete, "good-rejected", "{what}: a complete {} was rejected: {e}", T::NAME);
            probe("read_rejected");
        }
    }
}
fn bin_run<T: Snap + bincode::Encode + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()>>() {
    probe("bincode");
    let cfg = pick(&[Cfg::Standard, Cfg::Legacy, Cfg::Big]);
    match cfg {
        Cfg::Standard => bin_cfg::<T, _>(config::standard(), cfg),
        Cfg::Legacy => bin_cfg::<T, _>(config::legacy(), cfg),
        Cfg::Big => bin_cfg::<T, _>(config::standard().with_big_endian(), cfg),
    }
}
fn bin_cfg<T, C>(c: C, cfg: Cfg)
where
    T: Snap + bincode::Encode + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()>,
    C: config::Config,
{
    let v = T::make();
    let want = words(&v);
    describe(format!("bincode {cfg:?} {} {} words", T::NAME, want.len()));
    if want.iter().any(|w| f64::from_bits(*w).is_nan()) {
        probe("nan_bits");
    }
    sim().vfs.mkdirs("/sim/snap");
    let bytes = call("encode_to_vec", || bincode::encode_to_vec(&v, c)).unwrap_or_else(|e| violation("encode", &e.to_string()));
    let len = bytes.len();
    // a buffer too small by any amount is an error
    if chance(1, 4) && len > 0 {
        let k = choose(len as u64) as usize;
        let mut buf = vec![0u8; k];
        let r = call("encode_into_slice", || bincode::encode_into_slice(&v, &mut buf, c).map_err(|e| e.to_string()));
        probe("full_buffer");
        check!(r.is_err(), "short-snapshot", "{} of {len} bytes was encoded into {k} bytes: {r:?}", T::NAME);
    }
    if chance(1, 4) {
        // from memory, possibly cut, with bytes of the next record behind it
        let cut = chance(1, 2) && len > 0;
        let mut b = bytes.clone();
        if cut {
            b.truncate(choose(len as u64) as usize);
            fired("torn_write");
            probe("torn");
        } else {
            for _ in 0..choose(5) {
                b.push(choose(256) as u8);
            }
        }
        nontrivial();
        let borrowed = chance(1, 2);
        let r = if borrowed {
            probe("borrowed");
            call("borrow_decode_from_slice", || bincode::borrow_decode_from_slice::<T, C>(&b, c).map_err(|e| e.to_string()))
        } else {
            call("decode_from_slice", || bincode::decode_from_slice::<T, C>(&b, c).map_err(|e| e.to_string()))
        };
        if let Ok((_, n)) = &r {
            check!(cut || *n == len, "wrong-length", "decoding {} consumed {n} of {len} bytes", T::NAME);
        }
        return judge("decode from memory", &want, !cut, false, r.map(|x| x.0));
    }
    transparent();
    // one record, or several one after another in the same file
    let n = if chance(1, 3) { range(2, 4) as usize } else { 1 };
    let wrote = write_file("encode_into_std_write", len * n, |f| {
        for _ in 0..n {
            bincode::encode_into_std_write(&v, f, c).map_err(|e| e.to_string())?;
        }
        Ok(len * n)
    });
    let torn = tear(len * n);
    let have = sim().vfs.data(PATH).map_or(0, |d| d.len());
    if n == 1 {
        read_file::<T>("decode_from_std_read", &want, wrote && !torn, |mut f| bincode::decode_from_std_read(&mut f, c).map_err(|e| e.to_string()));
        return;
    }
    probe("sequence");
    let mut pos = 0;
    let results = call("decode_from_std_read", || {
        let Ok(f) = File::open(PATH) else { return vec![] };
        let mut rd = BufReader::with_capacity(16, f);
        (0..n + 1).map(|_| bincode::decode_from_std_read::<T, _, _>(&mut rd, c).map_err(|e| e.to_string())).collect::<Vec<_>>()
    });
    for r in results {
        pos += len;
        judge("decode of a sequence", &want, pos <= have, false, r);
    }
}
fn json_run<T: Snap + Serialize + DeserializeOwned>() {
    let v = T::make();
    let want = words(&v);
    describe(format!("json {} {} words", T::NAME, want.len()));
    sim().vfs.mkdirs("/sim/snap");
    let core_json = chance(1, 2);
    let text = if core_json {
        probe("json_core");
        let mut buf = vec![0u8; 8192];
        let n = call("to_slice", || serde_json_core::to_slice(&v, &mut buf)).unwrap_or_else(|e| violation("encode", &format!("{e:?}")));
        buf.truncate(n);
        buf
    } else {
        probe("json");
        call("to_vec", || serde_json::to_vec(&v)).unwrap_or_else(|e| violation("encode", &e.to_string()))
    };
    let len = text.len();
    if core_json && chance(1, 4) {
        let k = choose(len as u64) as usize;
        let mut buf = vec![0u8; k];
        let r = call("to_slice", || serde_json_core::to_slice(&v, &mut buf));
        probe("full_buffer");
        check!(r.is_err(), "short-snapshot", "{} of {len} bytes was written into {k} bytes: {r:?}", T::NAME);
    }
    let core_read = |b: &[u8]| call("from_slice", || serde_json_core::from_slice::<T>(b).map(|x| x.0).map_err(|e| format!("{e:?}")));
    let std_read = |b: &[u8]| call("from_slice", || serde_json::from_slice::<T>(b).map_err(|e| e.to_string()));
    match choose(4) {
        0 => {
            // the wrong shape
            let Some(bad) = reshape(&text) else { return };
            nontrivial();
            fired("wrong_shape");
            let s = String::from_utf8_lossy(&bad).into_owned();
            for (who, r) in [("serde_json_core", core_read(&bad)), ("serde_json", std_read(&bad))] {
                check!(r.is_err(), "wrong-shape-accepted", "{who}: {} was read from {s} as {:x?}", T::NAME, r.map(|v| words(&v)));
            }
            let tree: serde_json::Value = serde_json::from_slice(&bad).unwrap();
            let r = call("from_value", || serde_json::from_value::<T>(tree).map_err(|e| e.to_string()));
            check!(r.is_err(), "wrong-shape-accepted", "value tree: {} was read from {s} as {:x?}", T::NAME, r.map(|v| words(&v)));
            probe("shape_rejected");
        }
        1 => {
            let cut = chance(2, 3);
            let mut b = text.clone();
            if cut {
                b.truncate(choose(len as u64) as usize);
                fired("torn_write");
                probe("torn");
            }
            nontrivial();
            judge("serde_json_core from memory", &want, !cut, false, core_read(&b));
            judge("serde_json from memory", &want, !cut, false, std_read(&b));
        }
        _ => {
            transparent();
            let wrote = if core_json {
                write_file("write_all", len, |f| f.write_all(&text).map(|_| len).map_err(|e| e.to_string()))
            } else {
                write_file("to_writer", len, |f| serde_json::to_writer(f, &v).map(|_| len).map_err(|e| e.to_string()))
            };
            let torn = tear(len);
            if core_json {
                read_file::<T>("serde_json_core from a file", &want, wrote && !torn, |mut f| {
                    let mut b = vec![];
                    std::io::Read::read_to_end(&mut f, &mut b).map_err(|e| e.to_string())?;
                    serde_json_core::from_slice::<T>(&b).map(|x| x.0).map_err(|e| format!("{e:?}"))
                });
            } else {
                let cap = pick(&[1, 7, 64]);
                read_file::<T>("serde_json from a file", &want, wrote && !torn, |f| serde_json::from_reader(BufReader::with_capacity(cap, f)).map_err(|e| e.to_string()));
            }
        }
    }
}
/// One list of numbers (or of rows) gets an element more or less, or an element of the wrong type.
fn reshape(text: &[u8]) -> Option<Vec<u8>> {
    let mut tree: serde_json::Value = serde_json::from_slice(text).ok()?;
    fn lists(v: &mut serde_json::Value, out: &mut Vec<*mut Vec<serde_json::Value>>) {
        match v {
            serde_json::Value::Array(a) => {
                out.push(a);
                for x in a.iter_mut() {
                    lists(x, out);
                }
            }
            serde_json::Value::Object(m) => {
                for x in m.values_mut() {
                    lists(x, out);
                }
            }
            _ => {}
        }
    }
    let mut l = vec![];
    lists(&mut tree, &mut l);
    if l.is_empty() {
        return None;
    }
    let which = choose(l.len() as u64) as usize;
    let a = unsafe { &mut *l[which] };
    let k = choose(a.len() as u64 + 1) as usize;
    match choose(5) {
        0 | 1 => {
            let n = range(1, 2);
            for _ in 0..n {
                let e = a.first().cloned().unwrap_or(serde_json::json!(1.0));
                a.insert(k, e);
            }
        }
        2 | 3 => {
            for _ in 0..range(1, 2) {
                if !a.is_empty() {
                    let k = k.min(a.len() - 1);
                    a.remove(k);
                }
            }
        }
        _ => {
            if a.is_empty() {
                return None;
            }
            let k = k.min(a.len() - 1);
            a[k] = match choose(4) {
                0 => serde_json::json!("1.0"),
                1 => serde_json::json!(true),
                2 => serde_json::json!([]),
                _ => serde_json::json!({}),
            };
        }
    }
    Some(tree.to_string().into_bytes())
}

// ------------------------------------------------------------------ C27
const MAGIC: u64 = 0x7ac4_ed5e_1f00_d001;
/// Every element ever built by a decoder: true while alive.
static mut LIVE: BTreeMap<u64, bool> = BTreeMap::new();
static mut BUILT: u64 = 0;
struct Item {
    magic: u64,
    id: u64,
    payload: u64,
}
const BAD: u64 = 0xbad;
fn build(payload: u64) -> Item {
    core(|| unsafe {
        BUILT += 1;
        let id = BUILT;
        LIVE.insert(id, true);
        ev(|| format!("element {id} built ({payload})"));
        Item { magic: MAGIC, id, payload }
    })
}
impl Drop for Item {
    fn drop(&mut self) {
        core(|| unsafe {
            let (m, id) = (std::ptr::read_volatile(&self.magic), std::ptr::read_volatile(&self.id));
            check!(m == MAGIC, "released-garbage", "something that was never built was released as an element");
            match LIVE.get_mut(&id) {
                Some(a) if *a => *a = false,
                Some(_) => violation("released-twice", &format!("element {id} was released twice")),
                None => violation("released-garbage", &format!("element {id} was never built")),
            }
            ev(|| format!("element {id} released"));
        })
    }
}
impl bincode::Encode for Item {
    fn encode<E: bincode::enc::Encoder>(&self, e: &mut E) -> Result<(), bincode::error::EncodeError> {
        self.payload.encode(e)
    }
}
impl<C> bincode::Decode<C> for Item {
    fn decode<D: bincode::de::Decoder<Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        let p = <u64 as bincode::Decode<C>>::decode(d)?;
        if p == BAD {
            return Err(bincode::error::DecodeError::Other("bad element"));
        }
        Ok(build(p))
    }
}
impl<'de, C> bincode::BorrowDecode<'de, C> for Item {
    fn borrow_decode<D: bincode::de::BorrowDecoder<'de, Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        let p = <u64 as bincode::Decode<C>>::decode(d)?;
        if p == BAD {
            return Err(bincode::error::DecodeError::Other("bad element"));
        }
        Ok(build(p))
    }
}
impl<'de> Deserialize<'de> for Item {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let p = u64::deserialize(d)?;
        if p == BAD {
            return Err(serde::de::Error::custom("bad element"));
        }
        Ok(build(p))
    }
}
trait Held {
    /// rows and columns as written in JSON, outermost first
    const SHAPE: &'static [usize];
    fn payloads(&self) -> Vec<(u64, u64)>;
}
impl<const M: usize, const N: usize> Held for Matrix<Item, M, N> {
    const SHAPE: &'static [usize] = &[M, N];
    fn payloads(&self) -> Vec<(u64, u64)> {
        self.data.iter().flatten().map(|i| (i.id, i.payload)).collect()
    }
}
impl<const M: usize, const N: usize, const P: usize, const Q: usize> Held for Matrix<Matrix<Item, P, Q>, M, N> {
    const SHAPE: &'static [usize] = &[M, N, P, Q];
    fn payloads(&self) -> Vec<(u64, u64)> {
        self.data.iter().flatten().flat_map(|i| i.payloads()).collect()
    }
}
impl<const N: usize> Held for Vector<Item, N> {
    const SHAPE: &'static [usize] = &[N];
    fn payloads(&self) -> Vec<(u64, u64)> {
        self.data.iter().map(|i| (i.id, i.payload)).collect()
    }
}
fn ownership() {
    macro_rules! go {
        ($($t:ty),*) => {{
            let n = [$(stringify!($t)),*].len() as u64;
            let k = choose(n);
            let mut i = 0;
            $( if i == k { if chance(1, 2) { own_bin::<$t>() } else { own_json::<$t>() } } i += 1; )*
            let _ = i;
        }};
    }
    match choose(10) {
        1 => return own_bin::<Vector<Item, 5>>(),
        2 => return if chance(1, 4) { own_iter::<1>() } else { own_iter::<4>() },
        _ => {}
    }
    go!(Matrix<Item, 2, 2>, Matrix<Item, 3, 4>, Matrix<Item, 1, 5>, Matrix<Item, 5, 1>, Matrix<Item, 1, 1>, Matrix<Item, 6, 2>, Matrix<Matrix<Item, 2, 1>, 2, 2>, Matrix<Matrix<Item, 1, 2>, 1, 3>)
}
/// A vector collected from an iterator that may end early, go on too long or panic; then taken apart again.
fn own_iter<const N: usize>() {
    nontrivial();
    probe("collected");
    let given = match choose(3) {
        0 => N,
        1 => choose(N as u64) as usize,
        _ => N + range(1, 3) as usize,
    };
    let panic_at = if chance(1, 3) { choose(N as u64 + 1) as usize } else { usize::MAX };
    describe(format!("{given} elements collected into a vector of {N}, panic at {panic_at}"));
    let r = sut(|| {
        let mut items: Vec<Item> = (0..given).map(|i| build(10 + i as u64)).collect();
        items.reverse();
        let mut n = 0;
        Vector::<Item, N>::from_iter(std::iter::from_fn(move || {
            if n == panic_at {
                panic!("the iterator fails");
            }
            n += 1;
            items.pop()
        }))
    });
    let ok = given == N && panic_at > N;
    if !ok {
        probe("collect_stopped");
        fired("iterator_failure");
    }
    let v = match r {
        Ok(v) => v,
        Err(e) => return own_result::<Vector<Item, N>>("collected vector", Err(e), Some(ok), N),
    };
    let alive = || unsafe { LIVE.values().filter(|a| **a).count() };
    if !ok || chance(1, 2) {
        return own_result("collected vector", Ok(v), Some(ok), N);
    }
    // mapped by a closure that may fail, or taken apart one by one
    let stop = choose(N as u64 + 1) as usize;
    let mut seen: Vec<u64> = vec![];
    if chance(1, 2) {
        let r = sut(|| {
            v.map(|i| {
                if seen.len() == stop {
                    panic!("the closure fails");
                }
                seen.push(i.payload);
                build(i.payload)
            })
        });
        check!(seen.iter().enumerate().all(|(k, p)| *p == 10 + k as u64), "misplaced", "mapping went over {seen:?}");
        return own_result("mapped vector", r, Some(stop == N), N);
    }
    let _ = sut(|| {
        for i in v.into_iter().take(stop) {
            seen.push(i.payload);
        }
    });
    check!(seen.len() == stop && seen.iter().enumerate().all(|(k, p)| *p == 10 + k as u64), "misplaced", "taking apart gave {seen:?}");
    check!(alive() == 0, "leak", "{} elements of a vector taken apart were never released", alive());
    unsafe { LIVE.clear() };
}
fn own_result<T: Held>(what: &str, r: Result<T, String>, expect_ok: Option<bool>, total: usize) {
    let alive = || unsafe { LIVE.values().filter(|a| **a).count() };
    match r {
        Ok(v) => {
            check!(expect_ok != Some(false), "bad-input-accepted", "{what}: reading was expected to fail and returned {:?}", v.payloads());
            let p = v.payloads();
            check!(p.len() == total && p.iter().enumerate().all(|(i, (_, x))| *x == 10 + i as u64), "misplaced", "{what}: elements read are {p:?}");
            let ids: std::collections::BTreeSet<u64> = p.iter().map(|x| x.0).collect();
            check!(ids.len() == total && ids.iter().all(|i| unsafe { LIVE.get(i) == Some(&true) }), "released-early", "{what}: the result holds released or repeated elements {p:?}");
            check!(alive() == total, "leak", "{what}: {} elements are alive besides the {total} of the result", alive() - total);
            call("drop", || drop(v));
            check!(alive() == 0, "leak", "{what}: {} elements outlive the result", alive());
            probe("complete");
        }
        Err(e) => {
            check!(expect_ok != Some(true), "good-rejected", "{what}: complete input was rejected: {e}");
            check!(alive() == 0, "leak", "{what}: {} of {} elements built were never released after the read failed ({e})", alive(), unsafe { BUILT });
        }
    }
    unsafe {
        LIVE.clear();
    }
}
fn own_bin<T: Held + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()>>() {
    let total: usize = T::SHAPE.iter().product();
    if T::SHAPE.len() > 2 {
        probe("nested");
    }
    let cfg = config::legacy();
    let mut b = vec![];
    for i in 0..total {
        b.extend_from_slice(&(10 + i as u64).to_le_bytes());
    }
    nontrivial();
    let mut ok = true;
    match choose(4) {
        0 => {}
        1 => {
            let k = choose(b.len() as u64) as usize;
            b.truncate(k);
            ok = false;
            fired("torn_write");
            probe("cut");
        }
        2 => {
            let k = choose(total as u64) as usize;
            b[k * 8..k * 8 + 8].copy_from_slice(&BAD.to_le_bytes());
            ok = false;
            fired("bad_element");
            probe("bad_element");
        }
        _ => {
            // read error at some call of the stream
            probe("bincode");
            sim().vfs.put(PATH, &b);
            transparent();
            enable(Fault::EioRead, 1, range(2, 12) as u32);
            set_fault_budget(1);
            describe(format!("bincode stream of {total} elements, shape {:?}, I/O errors", T::SHAPE));
            let r = call("decode_from_std_read", || {
                let mut f = File::open(PATH).map_err(|e| e.to_string())?;
                bincode::decode_from_std_read::<T, _, _>(&mut f, cfg).map_err(|e| e.to_string())
            });
            let failed = hard_fired() > 0;
            if failed {
                probe("io_error");
            }
            return own_result("bincode stream", r, if failed { None } else { Some(true) }, total);
        }
    }
    describe(format!("bincode of {total} elements, shape {:?}, {} bytes", T::SHAPE, b.len()));
    if chance(1, 2) {
        probe("borrowed");
        let r = call("borrow_decode_from_slice", || bincode::borrow_decode_from_slice::<T, _>(&b, cfg).map(|x| x.0).map_err(|e| e.to_string()));
        own_result("bincode borrowed", r, Some(ok), total)
    } else {
        probe("bincode");
        let r = call("decode_from_slice", || bincode::decode_from_slice::<T, _>(&b, cfg).map(|x| x.0).map_err(|e| e.to_string()));
        own_result("bincode", r, Some(ok), total)
    }
}
fn nest(shape: &[usize], next: &mut u64) -> serde_json::Value {
    if shape.is_empty() {
        *next += 1;
        return serde_json::json!(*next - 1);
    }
    serde_json::Value::Array((0..shape[0]).map(|_| nest(&shape[1..], next)).collect())
}
fn own_json<T: Held + DeserializeOwned>() {
    let total: usize = T::SHAPE.iter().product();
    if T::SHAPE.len() > 2 {
        probe("nested");
    }
    let mut tree = nest(T::SHAPE, &mut 10);
    nontrivial();
    let mut ok = Some(true);
    // descend to a list
    let mut a = &mut tree;
    for _ in 0..choose(T::SHAPE.len() as u64) {
        let n = a.as_array().unwrap().len() as u64;
        a = &mut a.as_array_mut().unwrap()[choose(n) as usize];
    }
    let a = a.as_array_mut().unwrap();
    let k = choose(a.len() as u64) as usize;
    let mut cut = false;
    match choose(6) {
        0 => {}
        1 => {
            a.truncate(k);
            ok = Some(false);
            fired("wrong_shape");
            probe("too_few");
        }
        2 => {
            for _ in 0..range(1, 3) {
                let e = a[0].clone();
                a.push(e);
            }
            ok = Some(false);
            fired("wrong_shape");
            probe("too_many");
        }
        3 | 4 => {
            a[k] = match choose(5) {
                0 | 1 => serde_json::json!(BAD),
                2 => serde_json::json!("x"),
                3 => serde_json::json!(null),
                _ => serde_json::json!(-1.5),
            };
            ok = Some(false);
            fired("bad_element");
            probe("bad_element");
        }
        _ => {
            cut = true;
            ok = Some(false);
            fired("torn_write");
            probe("cut");
        }
    }
    let mut text = tree.to_string().into_bytes();
    if cut {
        text.truncate(choose(text.len() as u64) as usize);
    }
    describe(format!("json for shape {:?}: {}", T::SHAPE, String::from_utf8_lossy(&text)));
    match choose(4) {
        0 => {
            probe("json");
            let r = call("from_slice", || serde_json::from_slice::<T>(&text).map_err(|e| e.to_string()));
            own_result("serde_json", r, ok, total);
        }
        1 => {
            probe("json_core");
            let r = call("from_slice", || serde_json_core::from_slice::<T>(&text).map(|x| x.0).map_err(|e| format!("{e:?}")));
            own_result("serde_json_core", r, ok, total);
        }
        2 if !cut => {
            probe("value_tree");
            let tree: serde_json::Value = serde_json::from_slice(&text).unwrap();
            let r = call("from_value", || serde_json::from_value::<T>(tree).map_err(|e| e.to_string()));
            own_result("value tree", r, ok, total);
        }
        _ => {
            probe("json");
            sim().vfs.put(PATH, &text);
            transparent();
            if chance(1, 2) {
                enable(Fault::EioRead, 1, range(2, 12) as u32);
                set_fault_budget(1);
            }
            let cap = pick(&[1, 5, 64]);
            let r = call("from_reader", || {
                let f = File::open(PATH).map_err(|e| e.to_string())?;
                serde_json::from_reader::<_, T>(BufReader::with_capacity(cap, f)).map_err(|e| e.to_string())
            });
            if hard_fired() > 0 {
                probe("io_error");
                ok = if ok == Some(false) { ok } else { None };
            }
            own_result("serde_json stream", r, ok, total);
        }
    }
}
