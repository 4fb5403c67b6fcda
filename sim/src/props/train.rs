//! C33, C34: model training as a long-lived, interruptible, concurrent activity.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::GradientDescentGeneric;

const REAL: &[&str] = &["aether_ml (regression, classification)", "aether_opt::gradient_descent::basic", "aether_core::math"];
const STUB: &[&str] = &["thread scheduling and creation (pthread/futex)", "delivery of training batches", "the trainer's process (crash and restart from its checkpoint)", "a signal handler that trains another model"];

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 60_000, thorough: 1_500_000, rule: "", want: &[], real: REAL, stub: STUB, assume: &["every example has a label; labels are 0/1 or -1/+1 as documented", "examples and settings are finite"] };
    vec![
        Prop { id: "C33", run: sessions,
            rule: "Training sessions of the five gradient-trained models over arriving batches are checkpointed, crashed and restored, moved between threads, interleaved and run concurrently under random schedules and instruction-granular preemption, interrupted by a signal handler that trains another model, and optimiser fits are cut into resumed pieces; the model must be the uninterrupted one bit for bit, and every update the documented one to rounding.",
            want: &["linear", "ridge", "logistic", "perceptron", "svm", "update_checked", "fit_step_checked", "crashed", "migrated", "concurrent", "interrupted", "fit_resumed", "empty_batch", "single", "double", "diverged", "instruction_preemption"], ..base },
        Prop { id: "C34", run: progress, quick: 40_000, thorough: 1_000_000,
            rule: "Examples of linearly separable problems are delivered lost, duplicated and out of order to a perceptron, whose corrections are counted against the bound its margin gives; optimiser fits from generated starts must not end worse than they began and must reach the optimum of strongly convex problems; batch classifiers are fitted to the same examples delivered in different orders and compared with their definitions.",
            want: &["mistake_bound", "separated", "lost_examples", "duplicated_examples", "descent_linear", "descent_ridge", "descent_logistic", "descent_perceptron", "descent_svm", "stationary", "boxed", "bayes", "lda", "qda", "predicted", "missing_class", "far_from_origin"], ..base },
    ]
}

trait Num: Real + Copy + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    const MAX: f64;
    const TINY: f64;
    const BITS: i32;
    const NAME: &'static str;
}
impl Num for f64 {
    const EPS: f64 = 2.3e-16;
    const MAX: f64 = 1e300;
    const TINY: f64 = 5e-324;
    const BITS: i32 = 52;
    const NAME: &'static str = "double";
}
impl Num for f32 {
    const EPS: f64 = 1.2e-7;
    const MAX: f64 = 1e36;
    const TINY: f64 = 2e-45;
    const BITS: i32 = 23;
    const NAME: &'static str = "single";
}
fn t<F: Num>(v: f64) -> F {
    F::from_f64(v)
}
/// The value as the type holds it.
fn r<F: Num>(v: f64) -> f64 {
    F::from_f64(v).to_f64()
}
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Linear,
    Ridge,
    Logistic,
    Perceptron,
    Svm,
}
use Kind::*;
const KINDS: [Kind; 5] = [Linear, Ridge, Logistic, Perceptron, Svm];
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Linear => "linear",
            Ridge => "ridge",
            Logistic => "logistic",
            Perceptron => "perceptron",
            Svm => "svm",
        }
    }
}
/// A model's fields: what a checkpoint holds.
#[derive(Clone, Copy, Debug)]
struct State<const N: usize> {
    w: [f64; N],
    b: f64,
    lr: f64,
    /// ridge alpha, SVM c
    extra: f64,
}
fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
impl<const N: usize> State<N> {
    fn same(&self, o: &Self) -> bool {
        (0..N).all(|i| same_bits(self.w[i], o.w[i])) && same_bits(self.b, o.b) && same_bits(self.lr, o.lr) && same_bits(self.extra, o.extra)
    }
    fn finite(&self, max: f64) -> bool {
        self.w.iter().all(|v| v.abs() <= max) && self.b.abs() <= max
    }
}
#[derive(Clone, Copy)]
enum Model<F: Num, const N: usize> {
    Lin(LinearRegression<F, N>),
    Rid(RidgeRegression<F, N>),
    Log(LogisticRegression<F, N>),
    Per(Perceptron<F, N>),
    Sv(LinearSvm<F, N>),
}
/// Labels are real numbers here; each model gets them as its documentation says.
#[derive(Clone, Debug)]
struct Batch<F: Num, const N: usize> {
    x: Vec<Vector<F, N>>,
    y: Vec<F>,
    u: Vec<u8>,
    s: Vec<i8>,
}
impl<F: Num, const N: usize> Batch<F, N> {
    fn new(examples: &[([f64; N], f64)]) -> Self {
        Batch {
            x: examples.iter().map(|(x, _)| Vector::new(x.map(|v| t::<F>(v)))).collect(),
            y: examples.iter().map(|(_, y)| t::<F>(*y)).collect(),
            u: examples.iter().map(|(_, y)| (*y > 0.0) as u8).collect(),
            s: examples.iter().map(|(_, y)| if *y > 0.0 { 1 } else { -1 }).collect(),
        }
    }
    fn xs(&self, i: usize) -> [f64; N] {
        std::array::from_fn(|k| self.x[i][k].to_f64())
    }
}
impl<F: Num, const N: usize> Model<F, N> {
    fn restore(k: Kind, s: &State<N>) -> Self {
        let weights = Vector::new(s.w.map(|v| t::<F>(v)));
        let (bias, lr, e) = (t::<F>(s.b), t::<F>(s.lr), t::<F>(s.extra));
        match k {
            Linear => Model::Lin(LinearRegression { weights, bias, lr }),
            Ridge => Model::Rid(RidgeRegression { weights, bias, lr, alpha: e }),
            Logistic => Model::Log(LogisticRegression { weights, bias, lr }),
            Perceptron => Model::Per(self::Perceptron { weights, bias, lr }),
            Svm => Model::Sv(LinearSvm { weights, bias, lr, c: e }),
        }
    }
    fn state(&self, extra: f64) -> State<N> {
        let (w, b, lr, e) = match self {
            Model::Lin(m) => (&m.weights, m.bias, m.lr, extra),
            Model::Rid(m) => (&m.weights, m.bias, m.lr, m.alpha.to_f64()),
            Model::Log(m) => (&m.weights, m.bias, m.lr, extra),
            Model::Per(m) => (&m.weights, m.bias, m.lr, extra),
            Model::Sv(m) => (&m.weights, m.bias, m.lr, m.c.to_f64()),
        };
        State { w: std::array::from_fn(|i| w[i].to_f64()), b: b.to_f64(), lr: lr.to_f64(), extra: e }
    }
    fn epoch(&mut self, d: &Batch<F, N>) {
        match self {
            Model::Lin(m) => m.train_epoch(&d.x, &d.y),
            Model::Rid(m) => m.train_epoch(&d.x, &d.y),
            Model::Log(m) => m.train_epoch(&d.x, &d.u),
            Model::Per(m) => m.train_epoch(&d.x, &d.s),
            Model::Sv(m) => m.train_epoch(&d.x, &d.s),
        }
    }
    fn fit<const M: usize>(&mut self, d: &Batch<F, N>, o: GradientDescentGeneric<F, M>) {
        match self {
            Model::Lin(m) => m.fit_with_optimizer(&d.x, &d.y, o),
            Model::Rid(m) => m.fit_with_optimizer(&d.x, &d.y, o),
            Model::Log(m) => m.fit_with_optimizer(&d.x, &d.u, o),
            Model::Per(m) => m.fit_with_optimizer(&d.x, &d.s, o),
            Model::Sv(m) => m.fit_with_optimizer(&d.x, &d.s, o),
        }
    }
    /// The model's own score of an example, and its class for classifiers.
    fn score(&self, x: &Vector<F, N>) -> (f64, Option<bool>) {
        match self {
            Model::Lin(m) => (m.predict(x).to_f64(), None),
            Model::Rid(m) => (m.predict(x).to_f64(), None),
            Model::Log(m) => (m.predict_probability(x).to_f64(), Some(m.predict(x) == 1)),
            Model::Per(m) => (m.predict_raw(x).to_f64(), Some(m.predict(x) == 1)),
            Model::Sv(m) => (m.decision(x).to_f64(), None),
        }
    }
}

// ------------------------------------------------------------------ the documented updates
fn sigmoid(s: f64) -> f64 {
    1.0 / (1.0 + (-s).exp())
}
/// w·x + b, how far a computed one may be from it, and whether any computation of it is exact.
fn affine<F: Num, const N: usize>(w: &[f64; N], b: f64, x: &[f64; N], slack: f64) -> (f64, f64) {
    let mut s = b;
    let mut a = b.abs();
    let q = (2f64).powi(-12);
    let mut exact = (b / q).fract() == 0.0;
    for i in 0..N {
        s += w[i] * x[i];
        a += (w[i] * x[i]).abs();
        exact &= (w[i] * x[i] / q).fract() == 0.0;
    }
    if exact && slack == 0.0 && a / q < (2f64).powi(F::BITS) {
        (s, 0.0)
    } else {
        (s, a * F::EPS * (N as f64 + 4.0) + slack)
    }
}
struct Next<const N: usize> {
    w: [f64; N],
    b: f64,
    /// how far a computed update may be from the documented one
    tw: [f64; N],
    tb: f64,
}
/// One documented epoch (or, with `fit`, one fixed gradient step of the documented loss). `None`: too close to call
/// or out of the type's range.
fn documented<F: Num, const N: usize>(k: Kind, s: &State<N>, d: &Batch<F, N>, fit: bool, lr: f64) -> Option<Next<N>> {
    let n = d.x.len();
    if !s.finite(F::MAX) {
        return None;
    }
    if n == 0 {
        return Some(Next { w: s.w, b: s.b, tw: [0.0; N], tb: 0.0 });
    }
    let m = n as f64;
    let u = F::EPS * (n as f64 + N as f64 + 8.0);
    let (mut w, mut b) = (s.w, s.b);
    let (mut gw, mut gb) = ([0.0; N], 0.0);
    let (mut aw, mut ab) = ([0.0; N], 0.0);
    // how wrong the sequential perceptron's weights may already be
    let (mut ew, mut eb) = ([0.0f64; N], 0.0f64);
    for i in 0..n {
        let x = d.xs(i);
        let slack: f64 = eb + (0..N).map(|j| ew[j] * x[j].abs()).sum::<f64>();
        let (p, tol) = affine::<F, N>(&w, b, &x, slack);
        let mut big = b.abs();
        for j in 0..N {
            big += (w[j] * x[j]).abs();
        }
        let sg = d.s[i] as f64;
        let (e, ae) = match k {
            Linear | Ridge => {
                let y = d.y[i].to_f64();
                (2.0 * (p - y), 2.0 * (big + y.abs()))
            }
            Logistic => (sigmoid(p) - d.u[i] as f64, 2.0 + big),
            Perceptron => {
                let v = sg * p;
                if v.abs() <= tol && tol != 0.0 {
                    return None;
                }
                let wrong = if fit { v < 0.0 } else { v <= 0.0 };
                if wrong && !fit {
                    for j in 0..N {
                        let nw = w[j] + lr * sg * x[j];
                        ew[j] = grow::<F>(w[j], lr * x[j].abs(), nw, ew[j]);
                        w[j] = nw;
                    }
                    let nb = b + lr * sg;
                    eb = grow::<F>(b, lr, nb, eb);
                    b = nb;
                }
                if wrong && fit {
                    (-sg, 1.0)
                } else {
                    (0.0, 0.0)
                }
            }
            Svm => {
                let v = sg * p - 1.0;
                let tol = if tol != 0.0 { tol + F::EPS } else { 0.0 };
                if v.abs() <= tol && tol != 0.0 {
                    return None;
                }
                if v < 0.0 {
                    (-sg, 1.0)
                } else {
                    (0.0, 0.0)
                }
            }
        };
        for j in 0..N {
            gw[j] += e * x[j];
            aw[j] += ae * x[j].abs();
        }
        gb += e;
        ab += ae;
    }
    if k == Perceptron && !fit {
        let bad = w.iter().any(|v| v.abs() > F::MAX) || b.abs() > F::MAX;
        return (!bad).then_some(Next { w, b, tw: ew, tb: eb });
    }
    let reg = match (k, fit) {
        (Ridge, _) => 2.0 * s.extra,
        (Svm, true) => 1.0 / s.extra,
        (Svm, false) => 2.0 / (s.extra * m),
        _ => 0.0,
    };
    let mut o = Next { w, b, tw: [0.0; N], tb: 0.0 };
    let floor = F::TINY * (n as f64 + 8.0) * (1.0 + lr) * 4.0;
    for j in 0..N {
        o.w[j] = s.w[j] - lr * (gw[j] / m + reg * s.w[j]);
        let a = s.w[j].abs() + lr * (aw[j] / m + reg * s.w[j].abs());
        if !(a * (1.0 + m) <= F::MAX) || !(aw[j] <= F::MAX) {
            return None;
        }
        o.tw[j] = u * a + floor;
    }
    o.b = s.b - lr * gb / m;
    let a = s.b.abs() + lr * ab / m;
    if !(a * (1.0 + m) <= F::MAX) || !(ab <= F::MAX) {
        return None;
    }
    o.tb = u * a + floor;
    Some(o)
}
/// Error of `a + step` on top of what `a` already had.
fn grow<F: Num>(a: f64, step: f64, sum: f64, e: f64) -> f64 {
    let q = (2f64).powi(-12);
    let exact = e == 0.0 && (a / q).fract() == 0.0 && (step / q).fract() == 0.0 && sum.abs().max(a.abs()).max(step) / q < (2f64).powi(F::BITS);
    if exact {
        0.0
    } else {
        e + F::EPS * 2.0 * (a.abs() + step)
    }
}
fn judge<F: Num, const N: usize>(k: Kind, before: &State<N>, after: &State<N>, want: &Option<Next<N>>, what: &str, d: &Batch<F, N>) {
    check!(same_bits(before.lr, after.lr) && same_bits(before.extra, after.extra), "settings-changed", "{what} of {} changed the model's settings from {before:?} to {after:?}", k.name());
    let Some(o) = want else { return };
    for j in 0..N {
        check!((after.w[j] - o.w[j]).abs() <= o.tw[j], "wrong-update", "{what} of {} {} took weight {j} from {} to {}, documented {} ± {:e} (model {before:?}, data {:?} {:?})", F::NAME, k.name(), before.w[j], after.w[j], o.w[j], o.tw[j], d.x, d.y);
    }
    check!((after.b - o.b).abs() <= o.tb, "wrong-update", "{what} of {} {} took the bias from {} to {}, documented {} ± {:e} (model {before:?}, data {:?} {:?})", F::NAME, k.name(), before.b, after.b, o.b, o.tb, d.x, d.y);
}
fn score_checked<F: Num, const N: usize>(k: Kind, m: &Model<F, N>, s: &State<N>, x: &[f64; N]) {
    let v = Vector::new(x.map(|v| t::<F>(v)));
    let x: [f64; N] = std::array::from_fn(|i| v[i].to_f64());
    let (got, class) = call("predict", || m.score(&v));
    if !s.finite(F::MAX) {
        return;
    }
    let (p, tol) = affine::<F, N>(&s.w, s.b, &x, 0.0);
    if !(p.abs() < F::MAX / 1e6) || (0..N).any(|i| (s.w[i] * x[i]).abs() > F::MAX / 1e6) {
        return;
    }
    let tol2 = tol + F::TINY * 8.0;
    match k {
        Logistic => {
            check!((got - sigmoid(p)).abs() <= tol + 8.0 * F::EPS, "wrong-prediction", "{} logistic {s:?} gives {x:?} probability {got}, definition {}", F::NAME, sigmoid(p));
            check!(class == Some(got > 0.5), "wrong-class", "{} logistic {s:?} gives {x:?} probability {got} and class {class:?}", F::NAME);
        }
        _ => {
            check!((got - p).abs() <= tol2, "wrong-prediction", "{} {} {s:?} gives {x:?} score {got}, definition {p} ± {tol2:e}", F::NAME, k.name());
            if let Some(c) = class {
                check!(c == (got >= 0.0), "wrong-class", "{} {} {s:?} gives {x:?} score {got} and class {c}", F::NAME, k.name());
            }
        }
    }
}

// ------------------------------------------------------------------ generators
#[derive(Clone, Copy, PartialEq)]
enum Data {
    Dyadic,
    Decimal,
    Wild,
}
fn value(d: Data) -> f64 {
    match d {
        Data::Dyadic => choose(17) as f64 / 4.0 - 2.0,
        Data::Decimal => choose(20_001) as f64 / 1000.0 - 10.0,
        Data::Wild => {
            let m = choose(2001) as f64 / 1000.0 - 1.0;
            m * pick(&[1e-12, 1e-3, 1.0, 1.0, 100.0, 1e6, 0.0])
        }
    }
}
fn data_kind() -> Data {
    pick(&[Data::Dyadic, Data::Dyadic, Data::Decimal, Data::Decimal, Data::Wild])
}
fn batch<F: Num, const N: usize>(d: Data) -> Batch<F, N> {
    let n = match choose(12) {
        0 => 0,
        1 => 1,
        2 => {
            if chance(1, 4) {
                range(30, 200)
            } else {
                range(8, 30)
            }
        }
        _ => range(1, 8),
    };
    if n == 0 {
        probe("empty_batch");
    }
    let mut ex: Vec<([f64; N], f64)> = vec![];
    for _ in 0..n {
        if !ex.is_empty() && chance(1, 8) {
            let i = choose(ex.len() as u64) as usize;
            let mut e = ex[i];
            if chance(1, 2) {
                e.1 = -e.1;
            }
            ex.push(e);
            continue;
        }
        let x = if chance(1, 16) { [0.0; N] } else { std::array::from_fn(|_| r::<F>(value(d))) };
        ex.push((x, r::<F>(value(d))));
    }
    Batch::new(&ex)
}
fn start<F: Num, const N: usize>(k: Kind, d: Data) -> State<N> {
    let mut s = State { w: [0.0; N], b: 0.0, lr: pick(&[0.5, 0.25, 0.125, 0.1, 1.0, 1e-3, 0.03, 0.0, 2.0]), extra: 0.0 };
    if chance(3, 4) {
        s.w = std::array::from_fn(|_| r::<F>(value(d)));
        s.b = r::<F>(value(d));
    }
    s.lr = r::<F>(s.lr);
    s.extra = r::<F>(match k {
        Ridge => pick(&[0.0, 0.25, 0.1, 1.0, 3.0]),
        Svm => pick(&[1.0, 0.5, 4.0, 0.1, 30.0]),
        _ => 0.0,
    });
    s
}

// ------------------------------------------------------------------ C33
fn sessions() {
    macro_rules! go {
        ($f:ty) => {
            match choose(5) {
                0 => session::<$f, 1, 2>(),
                1 => session::<$f, 2, 3>(),
                2 => session::<$f, 3, 4>(),
                3 => session::<$f, 4, 5>(),
                _ => session::<$f, 7, 8>(),
            }
        };
    }
    if chance(1, 2) {
        probe("single");
        go!(f32)
    } else {
        probe("double");
        go!(f64)
    }
}
struct Plan<F: Num, const N: usize> {
    kind: Kind,
    start: State<N>,
    feed: Vec<Batch<F, N>>,
}
fn plan<F: Num, const N: usize>(max: u64) -> Plan<F, N> {
    let kind = pick(&KINDS);
    probe(kind.name());
    let d = data_kind();
    let start = start::<F, N>(kind, d);
    let n = if max > 4 && chance(1, 20) { range(max, 6 * max) } else { range(1, max) };
    let mut feed: Vec<Batch<F, N>> = vec![];
    for _ in 0..n {
        if !feed.is_empty() && chance(1, 2) {
            // the same batch again: the next epoch
            feed.push(feed[choose(feed.len() as u64) as usize].clone());
        } else {
            feed.push(batch(d));
        }
    }
    Plan { kind, start, feed }
}
/// The uninterrupted session, every update of it judged: the states after each batch.
fn uninterrupted<F: Num, const N: usize>(p: &Plan<F, N>) -> Vec<State<N>> {
    let mut m = Model::<F, N>::restore(p.kind, &p.start);
    let mut s = m.state(p.start.extra);
    let mut all = vec![];
    for d in &p.feed {
        let want = documented(p.kind, &s, d, false, s.lr);
        call("train_epoch", || m.epoch(d));
        let next = m.state(p.start.extra);
        judge(p.kind, &s, &next, &want, "an epoch", d);
        if want.is_some() {
            probe("update_checked");
        }
        s = next;
        all.push(s);
        if !s.finite(F::MAX) {
            probe("diverged");
        }
    }
    if let Some(d) = p.feed.last() {
        if !d.x.is_empty() {
            score_checked(p.kind, &m, &s, &d.xs(0));
        }
        let x: [f64; N] = std::array::from_fn(|_| value(data_kind()));
        score_checked(p.kind, &m, &s, &x);
    }
    all
}
static mut OTHER: Option<Box<dyn FnMut()>> = None;
#[allow(static_mut_refs)]
fn train_other() {
    unsafe {
        if let Some(f) = OTHER.as_mut() {
            f()
        }
    }
}
#[allow(static_mut_refs)]
fn session<F: Num, const N: usize, const M: usize>() {
    match choose(16) {
        0..=5 => {
            // crash, restore, migrate
            let p = plan::<F, N>(9);
            describe(format!("{} {} session of {} batches from {:?}", F::NAME, p.kind.name(), p.feed.len(), p.start));
            let truth = uninterrupted(&p);
            let mut disk = (0usize, p.start);
            let mut m = Model::<F, N>::restore(p.kind, &p.start);
            let mut i = 0;
            let mut crashes = 0;
            let mut bystander = Model::<F, N>::restore(pick(&KINDS), &start::<F, N>(Svm, Data::Decimal));
            while i < p.feed.len() {
                if crashes < 6 && chance(1, 4) {
                    // whatever was learnt since the checkpoint is lost
                    crashes += 1;
                    if chance(1, 2) {
                        // it died somewhere in this epoch
                        call("train_epoch", || m.epoch(&p.feed[i]));
                    }
                    m = Model::restore(p.kind, &disk.1);
                    i = disk.0;
                    probe("crashed");
                    fired("crash_restart");
                    nontrivial();
                    continue;
                }
                if chance(1, 4) {
                    call("train_epoch", || bystander.epoch(&p.feed[choose(p.feed.len() as u64) as usize]));
                }
                if chance(1, 4) {
                    probe("migrated");
                    let (mut mm, d) = (m, p.feed[i].clone());
                    m = call("thread", || {
                        std::thread::spawn(move || {
                            sut(|| mm.epoch(&d)).unwrap();
                            mm
                        })
                        .join()
                        .unwrap()
                    });
                } else {
                    call("train_epoch", || m.epoch(&p.feed[i]));
                }
                i += 1;
                let s = m.state(p.start.extra);
                check!(s.same(&truth[i - 1]), "not-resumed", "{} {}: after batch {i} the restarted session has {s:?}, the uninterrupted one {:?}", F::NAME, p.kind.name(), truth[i - 1]);
                if chance(1, 3) {
                    disk = (i, s);
                }
            }
        }
        6 => {
            // several sessions at once
            let k = range(2, 3) as usize;
            let plans: Vec<_> = (0..k).map(|_| plan::<F, N>(4)).collect();
            describe(format!("{} concurrent {} sessions: {:?}", k, F::NAME, plans.iter().map(|p| (p.kind, p.feed.len(), p.start)).collect::<Vec<_>>()));
            let truth: Vec<_> = plans.iter().map(uninterrupted).collect();
            sched::set_switch_probability(1, 2);
            if chance(1, 2) {
                step::preemptive(pick(&[30, 200, 2000]));
            }
            nontrivial();
            probe("concurrent");
            let hs = call("spawn", || {
                plans
                    .iter()
                    .map(|p| {
                        let (kind, s0, feed) = (p.kind, p.start, p.feed.clone());
                        std::thread::spawn(move || {
                            let mut m = Model::<F, N>::restore(kind, &s0);
                            let mut out = vec![];
                            for d in &feed {
                                sut(|| m.epoch(d)).unwrap();
                                core(|| {
                                    out.push(m.state(s0.extra));
                                    sched::yield_point();
                                });
                            }
                            out
                        })
                    })
                    .collect::<Vec<_>>()
            });
            for (i, h) in hs.into_iter().enumerate() {
                let got = call("join", || h.join().unwrap());
                for (j, s) in got.iter().enumerate() {
                    check!(s.same(&truth[i][j]), "influenced", "{} {}: session {i} has {s:?} after batch {j} while others ran, alone {:?}", F::NAME, plans[i].kind.name(), truth[i][j]);
                }
                check!(got.len() == truth[i].len(), "influenced", "session {i} ended early");
            }
        }
        7 | 8 => {
            // a signal handler trains another model in the middle of an epoch
            let p = plan::<F, N>(2);
            let q = plan::<F, N>(3);
            describe(format!("{} {} interrupted by {}", F::NAME, p.kind.name(), q.kind.name()));
            let (tp, tq) = (uninterrupted(&p), uninterrupted(&q));
            let mut m = Model::<F, N>::restore(p.kind, &p.start);
            for (i, d) in p.feed.iter().enumerate() {
                let (kind, s0, feed) = (q.kind, q.start, q.feed.clone());
                static mut GOT: Vec<[u64; 10]> = Vec::new();
                unsafe {
                    GOT.clear();
                    OTHER = Some(Box::new(move || {
                        let mut o = Model::<F, N>::restore(kind, &s0);
                        for d in &feed {
                            o.epoch(d);
                        }
                        let s = o.state(s0.extra);
                        let mut bits = [0u64; 10];
                        for j in 0..N {
                            bits[j] = s.w[j].to_bits();
                        }
                        bits[8] = s.b.to_bits();
                        GOT.push(bits);
                    }));
                }
                let after = log_choice(4000);
                let (_, hit) = step::with_interrupt(after, train_other, || m.epoch(d));
                let s = m.state(p.start.extra);
                check!(s.same(&tp[i]), "interrupted", "{} {}: interrupted after {after} instructions of epoch {i} by the training of another model it has {s:?}, alone {:?}", F::NAME, p.kind.name(), tp[i]);
                if hit {
                    probe("interrupted");
                    fired("signal_interrupt");
                    nontrivial();
                    let want = tq.last().unwrap();
                    for g in unsafe { GOT.clone() } {
                        let ok = (0..N).all(|j| same_bits(f64::from_bits(g[j]), want.w[j])) && same_bits(f64::from_bits(g[8]), want.b);
                        check!(ok, "interrupted", "{} {} trained inside a signal handler differs from training outside", F::NAME, q.kind.name());
                    }
                }
            }
            unsafe { OTHER = None };
        }
        9..=12 => {
            // a fit in pieces is the whole fit
            let p = plan::<F, N>(1);
            let d = &p.feed[0];
            let total = range(1, 40) as u32;
            let mut o = optimiser::<F, M>();
            // a piece that stops for a short step (or one whose square underflows) would be continued by the next
            o.tolerances(t(pick(&[0.0, 1e-9, 1e-4])), F::ZERO);
            o.tol_step = -F::ONE;
            let mut whole = Model::<F, N>::restore(p.kind, &p.start);
            let mut oo = o;
            oo.max_iters(total);
            describe(format!("{} {} fit of {total} iterations on {} examples, {o:?}", F::NAME, p.kind.name(), d.x.len()));
            call("fit_with_optimizer", || whole.fit(d, oo));
            let want = whole.state(p.start.extra);
            let mut m = Model::<F, N>::restore(p.kind, &p.start);
            let mut left = total;
            while left > 0 {
                let n = range(1, left as u64) as u32;
                left -= n;
                let mut oo = o;
                oo.max_iters(n);
                let s = m.state(p.start.extra);
                if chance(1, 3) {
                    // this piece is lost and done again
                    let mut lost = m;
                    call("fit_with_optimizer", || lost.fit(d, oo));
                    fired("crash_restart");
                }
                m = Model::restore(p.kind, &s);
                if chance(1, 4) {
                    let (mut mm, dd) = (m, d.clone());
                    m = call("thread", || {
                        std::thread::spawn(move || {
                            sut(|| mm.fit(&dd, oo)).unwrap();
                            mm
                        })
                        .join()
                        .unwrap()
                    });
                } else {
                    call("fit_with_optimizer", || m.fit(d, oo));
                }
            }
            let got = m.state(p.start.extra);
            check!(got.same(&want), "fit-not-resumed", "{} {}: {total} iterations in pieces give {got:?}, at once {want:?}", F::NAME, p.kind.name());
            probe("fit_resumed");
        }
        _ => {
            // fixed steps follow the documented loss
            let p = plan::<F, N>(1);
            let d = &p.feed[0];
            let mut o = optimiser::<F, M>();
            o.backtracking(false).tolerances(F::ZERO, F::ZERO).max_iters(1);
            let lr = r::<F>(pick(&[0.5, 0.1, 1.0, 1e-3, 0.0]));
            o.learning_rate(t(lr));
            let mut m = Model::<F, N>::restore(p.kind, &p.start);
            describe(format!("{} {} fit step lr {lr} on {} examples from {:?}", F::NAME, p.kind.name(), d.x.len(), p.start));
            let mut s = m.state(p.start.extra);
            for _ in 0..range(1, 6) {
                let want = documented(p.kind, &s, d, true, lr);
                call("fit_with_optimizer", || m.fit(d, o));
                let next = m.state(p.start.extra);
                judge(p.kind, &s, &next, &want, "a fixed optimiser step", d);
                if want.is_some() {
                    probe("fit_step_checked");
                }
                s = next;
            }
        }
    }
}
fn optimiser<F: Num, const M: usize>() -> GradientDescentGeneric<F, M> {
    let mut o = GradientDescentGeneric::<F, M>::new();
    o.backtracking(chance(2, 3)).learning_rate(t(pick(&[1.0, 0.5, 0.1, 0.01, 10.0]))).armijo(t(pick(&[1e-4, 0.1, 0.3])), t(pick(&[0.5, 0.7, 0.1])));
    o
}

// ------------------------------------------------------------------ C34
fn progress() {
    match choose(4) {
        0 => match choose(3) {
            0 => novikoff::<f64, 1>(),
            1 => novikoff::<f64, 3>(),
            _ => novikoff::<f32, 2>(),
        },
        1 | 2 => match choose(4) {
            0 => descent::<f64, 1, 2>(),
            1 => descent::<f64, 2, 3>(),
            2 => descent::<f64, 4, 5>(),
            _ => descent::<f32, 2, 3>(),
        },
        _ => match choose(3) {
            0 => classifiers::<1>(),
            1 => classifiers::<2>(),
            _ => classifiers::<4>(),
        },
    }
}
/// A perceptron on separable examples makes a bounded number of corrections, whatever the delivery.
fn novikoff<F: Num, const N: usize>() {
    // small integers: everything is exact
    let u: [f64; N] = loop {
        let u: [f64; N] = std::array::from_fn(|_| choose(7) as f64 - 3.0);
        if u.iter().any(|v| *v != 0.0) {
            break u;
        }
    };
    let c = choose(5) as f64 - 2.0;
    let scale = pick(&[1.0, 1.0, 2.0, 0.5, 8.0]);
    let n = range(2, 24);
    let mut ex: Vec<([f64; N], f64)> = vec![];
    for _ in 0..n {
        let x: [f64; N] = std::array::from_fn(|_| choose(13) as f64 - 6.0);
        let v: f64 = c + (0..N).map(|i| u[i] * x[i]).sum::<f64>();
        if v != 0.0 {
            ex.push((x.map(|v| v * scale), v.signum()));
        }
    }
    if ex.is_empty() {
        return;
    }
    // margin of the separator (u, c*scale) over the augmented examples (x, 1)
    let norm2: f64 = u.iter().map(|v| v * v).sum::<f64>() + (c * scale) * (c * scale);
    let gamma = ex.iter().map(|(x, y)| y * (c * scale + (0..N).map(|i| u[i] * x[i]).sum::<f64>())).fold(f64::INFINITY, f64::min);
    let radius2 = ex.iter().map(|(x, _)| 1.0 + x.iter().map(|v| v * v).sum::<f64>()).fold(0.0, f64::max);
    let bound = (radius2 * norm2 / (gamma * gamma)).floor() as u64;
    if bound > 20_000 {
        return;
    }
    let lr = pick(&[1.0, 0.5, 0.25, 2.0]);
    describe(format!("perceptron on {} separable examples, margin bound {bound}, lr {lr}", ex.len()));
    let mut m = Model::<F, N>::restore(Perceptron, &State { w: [0.0; N], b: 0.0, lr, extra: 0.0 });
    let mut corrections = 0u64;
    let mut train = |m: &mut Model<F, N>, part: &[([f64; N], f64)]| {
        for e in part {
            let d = Batch::new(std::slice::from_ref(e));
            let before = m.state(0.0);
            call("train_epoch", || m.epoch(&d));
            if !m.state(0.0).same(&before) {
                corrections += 1;
            }
        }
        check!(corrections <= bound, "mistake-bound", "{} perceptron made {corrections} corrections on examples {ex:?} separable with a margin that allows {bound} (lr {lr})", F::NAME);
    };
    // faulty delivery
    for _ in 0..range(0, 30) {
        let i = choose(ex.len() as u64) as usize;
        match choose(4) {
            0 => {
                fired("message_loss");
                probe("lost_examples");
            }
            1 => {
                fired("message_duplication");
                probe("duplicated_examples");
                train(&mut m, &[ex[i], ex[i]]);
            }
            _ => train(&mut m, &[ex[i]]),
        }
    }
    // faults stop: whole epochs over everything until one passes without correction
    let all = Batch::new(&ex);
    let mut epochs = 0u64;
    loop {
        let before = m.state(0.0);
        call("train_epoch", || m.epoch(&all));
        if m.state(0.0).same(&before) {
            break;
        }
        epochs += 1;
        check!(epochs <= bound, "no-progress", "{} perceptron still corrects itself after {epochs} epochs over examples {ex:?} whose margin allows {bound} corrections", F::NAME);
    }
    probe("mistake_bound");
    nontrivial();
    for (x, y) in &ex {
        let v = Vector::new(x.map(|v| t::<F>(v)));
        let (s, c) = call("predict", || m.score(&v));
        check!(c == Some(*y > 0.0) && s * y > 0.0, "not-separated", "{} perceptron settled at {:?} and scores {x:?} {s}, label {y}", F::NAME, m.state(0.0));
    }
    probe("separated");
}
/// The documented loss of a fit.
fn loss<F: Num, const N: usize>(k: Kind, s: &State<N>, d: &Batch<F, N>) -> f64 {
    let mut l = 0.0;
    for i in 0..d.x.len() {
        let x = d.xs(i);
        let p: f64 = s.b + (0..N).map(|j| s.w[j] * x[j]).sum::<f64>();
        let sg = d.s[i] as f64;
        l += match k {
            Linear | Ridge => (p - d.y[i].to_f64()).powi(2),
            // -ln sigmoid(±p)
            Logistic => {
                let z = -sg * p;
                if z > 30.0 {
                    z
                } else {
                    z.exp().ln_1p()
                }
            }
            Perceptron => (-sg * p).max(0.0),
            Svm => (1.0 - sg * p).max(0.0),
        };
    }
    let w2: f64 = s.w.iter().map(|v| v * v).sum();
    l / d.x.len() as f64
        + match k {
            Ridge => s.extra * w2,
            Svm => w2 / (2.0 * s.extra),
            _ => 0.0,
        }
}
/// The loss the documented gradient descent with backtracking reaches.
fn reference_fit<F: Num, const N: usize>(k: Kind, s: &State<N>, d: &Batch<F, N>, lr: f64, iters: u32) -> f64 {
    let mut s = *s;
    let mut f = loss(k, &s, d);
    for _ in 0..iters {
        let Some(o) = documented(k, &s, d, true, 1.0) else { return f };
        let g: [f64; N] = std::array::from_fn(|j| s.w[j] - o.w[j]);
        let gb = s.b - o.b;
        let g2: f64 = g.iter().map(|v| v * v).sum::<f64>() + gb * gb;
        if g2.sqrt() <= 1e-7 {
            return f;
        }
        let mut a = lr;
        loop {
            let mut n = s;
            for j in 0..N {
                n.w[j] -= a * g[j];
            }
            n.b -= a * gb;
            let fnew = loss(k, &n, d);
            if fnew <= f - 1e-4 * a * g2 {
                s = n;
                f = fnew;
                break;
            }
            a *= 0.5;
            if a < 1e-15 {
                return f;
            }
        }
    }
    f
}
fn descent<F: Num, const N: usize, const M: usize>() {
    let kind = pick(&KINDS);
    let n = range(1, 14);
    let mut ex: Vec<([f64; N], f64)> = vec![];
    for _ in 0..n {
        let x = std::array::from_fn(|_| r::<F>(choose(4001) as f64 / 1000.0 - 2.0));
        let y = r::<F>(choose(4001) as f64 / 1000.0 - 2.0);
        ex.push((x, y));
    }
    // smooth convex problems with a minimum: every logistic example also seen with the other label
    let convex = chance(1, 2) && matches!(kind, Linear | Ridge | Logistic);
    if convex && kind == Logistic {
        for i in 0..ex.len() {
            ex.push((ex[i].0, -ex[i].1 - 1e-3));
            if chance(1, 2) {
                ex.push(ex[i]);
            }
        }
    }
    let d = Batch::<F, N>::new(&ex);
    let mut s0 = start::<F, N>(kind, pick(&[Data::Dyadic, Data::Dyadic, Data::Decimal]));
    let mut o = optimiser::<F, M>();
    o.backtracking(true).learning_rate(t(pick(&[1.0, 0.5, 4.0]))).armijo(t(1e-4), t(0.5)).tolerances(t(1e-7), F::ZERO);
    o.max_iters(if convex { pick(&[100, 300, 1500]) } else { range(1, 60) as u32 });
    let boxed = !convex && chance(1, 3);
    let bound = pick(&[0.5, 2.0, 8.0]);
    if boxed {
        probe("boxed");
        o.set_bounds([t(-bound); M], [t(bound); M]);
        s0.w = s0.w.map(|v| v.clamp(-bound, bound));
        s0.b = s0.b.clamp(-bound, bound);
    }
    describe(format!("{} {} fit on {} examples, convex {convex}, {s0:?}", F::NAME, kind.name(), ex.len()));
    let mut m = Model::<F, N>::restore(kind, &s0);
    call("fit_with_optimizer", || m.fit(&d, o));
    let s = m.state(s0.extra);
    check!(s.finite(1e30), "not-finite", "{} {} fit from {s0:?} ended at {s:?}", F::NAME, kind.name());
    let (a, b) = (loss(kind, &s0, &d), loss(kind, &s, &d));
    let slack = (1.0 + a.abs()) * F::EPS * 1e3;
    check!(b <= a + slack, "worse-than-start", "{} {} fit with backtracking took the loss from {a} to {b} ({s0:?} to {s:?}, data {:?} {:?})", F::NAME, kind.name(), d.x, d.y);
    probe(match kind {
        Linear => "descent_linear",
        Ridge => "descent_ridge",
        Logistic => "descent_logistic",
        Perceptron => "descent_perceptron",
        Svm => "descent_svm",
    });
    if boxed {
        check!(s.w.iter().chain([&s.b]).all(|v| v.abs() <= bound), "left-the-box", "{} {} fit in the box ±{bound} ended at {s:?}", F::NAME, kind.name());
    }
    if convex {
        // the least the documented descent reaches with as many iterations
        let least = reference_fit(kind, &s0, &d, o.lr.to_f64(), o.max_iters);
        let share = if F::EPS < 1e-10 { 0.02 } else { 0.1 };
        check!(b <= least + share * (a - least) + slack, "no-progress", "{} {} fit of a smooth convex problem stopped at {s:?} with loss {b}, having started with {a}; plain descent reaches {least} in {} steps; data {:?} {:?}", F::NAME, kind.name(), o.max_iters, d.x, d.y);
        probe("stationary");
        nontrivial();
    }
}
fn shuffled<T: Clone>(v: &[T]) -> Vec<T> {
    let mut o = v.to_vec();
    for i in (1..o.len()).rev() {
        o.swap(i, choose(i as u64 + 1) as usize);
    }
    o
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-11 * scale || a.is_nan() && b.is_nan()
}
fn classifiers<const N: usize>() {
    let k = range(1, 4) as usize;
    let mut ex: Vec<(Vector<f64, N>, usize)> = vec![];
    // measurements far from the origin: definitions that subtract large squares lose everything here
    let offset = if chance(1, 4) {
        probe("far_from_origin");
        pick(&[1e5, -1e6, 1e7])
    } else {
        0.0
    };
    let size = (100.0f64).max(offset.abs() * 200.0);
    let missing = if chance(1, 4) { Some(choose(k as u64) as usize) } else { None };
    for c in 0..k {
        if missing == Some(c) && k > 1 {
            probe("missing_class");
            continue;
        }
        let n = if chance(1, 6) { range(1, 2) } else { range(N as u64 + 2, N as u64 + 14) };
        let centre: [f64; N] = std::array::from_fn(|_| choose(2001) as f64 / 100.0 - 10.0);
        let spread = pick(&[1.0, 1.0, 3.0, 0.2]);
        for _ in 0..n {
            ex.push((Vector::new(std::array::from_fn(|i| offset + centre[i] + spread * (choose(2001) as f64 / 1000.0 - 1.0))), c));
        }
    }
    if ex.is_empty() {
        return;
    }
    let a = shuffled(&ex);
    let b = shuffled(&ex);
    fired("message_reordering");
    nontrivial();
    let split = |v: &[(Vector<f64, N>, usize)]| -> (Vec<Vector<f64, N>>, Vec<usize>) { v.iter().cloned().unzip() };
    let ((xa, ya), (xb, yb)) = (split(&a), split(&b));
    // definitions
    let total = ex.len() as f64;
    let mut count = vec![0.0; k];
    let mut mean = vec![[0.0; N]; k];
    for (x, c) in &ex {
        count[*c] += 1.0;
        for i in 0..N {
            mean[*c][i] += x[i];
        }
    }
    for c in 0..k {
        for i in 0..N {
            if count[c] > 0.0 {
                mean[c][i] /= count[c];
            }
        }
    }
    let mut scatter = vec![[[0.0; N]; N]; k];
    for (x, c) in &ex {
        for i in 0..N {
            for j in 0..N {
                scatter[*c][i][j] += (x[i] - mean[*c][i]) * (x[j] - mean[*c][j]);
            }
        }
    }
    let query: Vec<Vector<f64, N>> = (0..4).map(|_| if chance(1, 2) { ex[choose(ex.len() as u64) as usize].0 } else { Vector::new(std::array::from_fn(|_| offset + choose(2401) as f64 / 100.0 - 12.0)) }).collect();
    // the class with the best score, unless two are close
    let best = |scores: &[Option<f64>]| -> Option<usize> {
        let mut v: Vec<(f64, usize)> = scores.iter().enumerate().filter_map(|(i, s)| s.map(|s| (s, i))).collect();
        if v.iter().any(|s| s.0.is_nan()) {
            return None;
        }
        v.sort_by(|a, b| b.0.total_cmp(&a.0));
        match v.len() {
            0 => None,
            1 => Some(v[0].1),
            _ if v[0].0 - v[1].0 > 1e-6 * (1.0 + v[0].0.abs().max(v[1].0.abs().min(1e12))) => Some(v[0].1),
            _ => None,
        }
    };
    match choose(3) {
        0 => {
            probe("bayes");
            describe(format!("naive Bayes, {N} features, counts {count:?}"));
            let m = call("fit", || GaussianNB::<N>::fit(&xa, &ya, k));
            let o = call("fit", || GaussianNB::<N>::fit(&xb, &yb, k));
            check!(m.class_count.len() == k && m.class_prior.len() == k && m.class_mean.len() == k && m.class_var.len() == k, "wrong-fit", "naive Bayes has not one entry for each of {k} classes");
            for c in 0..k {
                check!(m.class_count[c] as f64 == count[c] && near(m.class_prior[c], count[c] / total, 1.0), "wrong-fit", "naive Bayes counted {} (prior {}) examples of class {c}, there are {} of {total}", m.class_count[c], m.class_prior[c], count[c]);
                for i in 0..N {
                    let var = if count[c] > 0.0 { scatter[c][i][i] / count[c] } else { 0.0 };
                    check!(near(m.class_mean[c][i], mean[c][i], size) && near(m.class_var[c][i], var, size), "wrong-fit", "naive Bayes class {c} feature {i}: mean {} variance {}, by definition {} {var}", m.class_mean[c][i], m.class_var[c][i], mean[c][i]);
                    check!(near(m.class_mean[c][i], o.class_mean[c][i], size) && near(m.class_var[c][i], o.class_var[c][i], size), "order-dependent", "naive Bayes class {c} depends on the order the examples arrived in");
                }
            }
            for q in &query {
                let scores: Vec<Option<f64>> = (0..k)
                    .map(|c| {
                        (count[c] > 0.0).then(|| {
                            let mut s = (count[c] / total).ln();
                            for i in 0..N {
                                let v = m.class_var[c][i].max(1e-12);
                                s -= 0.5 * ((2.0 * std::f64::consts::PI * v).ln() + (q[i] - m.class_mean[c][i]).powi(2) / v);
                            }
                            s
                        })
                    })
                    .collect();
                let got = call("predict", || m.predict(q));
                let got2 = call("predict", || m.predict(q));
                check!(got == got2, "unstable", "naive Bayes classified {q:?} as {got} and then {got2}");
                if let Some(w) = best(&scores) {
                    probe("predicted");
                    check!(got == w, "wrong-class", "naive Bayes classified {q:?} as {got}; the likelihoods {scores:?} say {w}");
                }
            }
        }
        1 => {
            probe("lda");
            describe(format!("LDA, {N} features, counts {count:?}"));
            let m = call("fit", || Lda::<N>::fit(&xa, &ya, k));
            let o = call("fit", || Lda::<N>::fit(&xb, &yb, k));
            check!(m.means.len() == k && m.priors.len() == k, "wrong-fit", "LDA has not one entry for each of {k} classes");
            for c in 0..k {
                check!(near(m.priors[c], count[c] / total, 1.0), "wrong-fit", "LDA gives class {c} prior {}, {} of {total} examples are of it", m.priors[c], count[c]);
                for i in 0..N {
                    check!(near(m.means[c][i], mean[c][i], size), "wrong-fit", "LDA class {c} mean {i} is {}, by definition {}", m.means[c][i], mean[c][i]);
                }
            }
            for i in 0..N {
                for j in 0..N {
                    check!(near(m.pooled_cov[(i, j)], o.pooled_cov[(i, j)], size), "order-dependent", "LDA's covariance depends on the order the examples arrived in");
                    check!(near(m.pooled_cov[(i, j)], m.pooled_cov[(j, i)], size), "wrong-fit", "LDA's covariance is not symmetric");
                    // within the class covariances that were pooled
                    let all: Vec<f64> = (0..k).filter(|c| count[*c] > 0.0).map(|c| scatter[c][i][j] / (count[c] - 1.0).max(1.0)).collect();
                    let (lo, hi) = (all.iter().cloned().fold(f64::INFINITY, f64::min), all.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                    let v = m.pooled_cov[(i, j)];
                    check!(v >= lo - 1e-11 * size && v <= hi + 1e-11 * size, "wrong-fit", "LDA's shared covariance ({i},{j}) is {v}, the classes' are {all:?}");
                }
            }
            let Some(inv) = inverse(&m.pooled_cov) else { return };
            if offset != 0.0 {
                // the discriminant itself cancels here
                return;
            }
            for q in &query {
                let scores: Vec<Option<f64>> = (0..k)
                    .map(|c| {
                        (count[c] > 0.0).then(|| {
                            let mut s = (count[c] / total).ln();
                            for i in 0..N {
                                for j in 0..N {
                                    s += (q[i] - 0.5 * m.means[c][i]) * inv[i][j] * m.means[c][j];
                                }
                            }
                            s
                        })
                    })
                    .collect();
                let got = call("predict", || m.predict(q));
                if let Some(w) = best(&scores) {
                    probe("predicted");
                    check!(got == w, "wrong-class", "LDA classified {q:?} as {got}; the discriminants {scores:?} say {w}");
                }
            }
        }
        _ => {
            probe("qda");
            describe(format!("QDA, {N} features, counts {count:?}"));
            let m = call("fit", || Qda::<N>::fit(&xa, &ya, k));
            let o = call("fit", || Qda::<N>::fit(&xb, &yb, k));
            check!(m.means.len() == k && m.priors.len() == k && m.covs.len() == k, "wrong-fit", "QDA has not one entry for each of {k} classes");
            let mut invs = vec![];
            for c in 0..k {
                check!(near(m.priors[c], count[c] / total, 1.0), "wrong-fit", "QDA gives class {c} prior {}, {} of {total} examples are of it", m.priors[c], count[c]);
                for i in 0..N {
                    check!(near(m.means[c][i], mean[c][i], size), "wrong-fit", "QDA class {c} mean {i} is {}, by definition {}", m.means[c][i], mean[c][i]);
                    for j in 0..N {
                        let want = scatter[c][i][j] / (count[c] - 1.0f64).max(1.0);
                        check!(near(m.covs[c][(i, j)], want, size), "wrong-fit", "QDA class {c} covariance ({i},{j}) is {}, by definition {want}", m.covs[c][(i, j)]);
                        check!(near(m.covs[c][(i, j)], o.covs[c][(i, j)], size), "order-dependent", "QDA's covariance depends on the order the examples arrived in");
                    }
                }
                invs.push(inverse(&m.covs[c]));
            }
            // a class without a usable covariance has no discriminant
            if (0..k).any(|c| invs[c].is_none() && m.covs[c].inverse_gauss_jordan().is_some()) {
                return;
            }
            for q in &query {
                let scores: Vec<Option<f64>> = (0..k)
                    .map(|c| {
                        let inv = invs[c].as_ref()?;
                        let det = determinant(&m.covs[c]);
                        let mut s = (count[c] / total).ln() - 0.5 * det.ln();
                        for i in 0..N {
                            for j in 0..N {
                                s -= 0.5 * (q[i] - m.means[c][i]) * inv[i][j] * (q[j] - m.means[c][j]);
                            }
                        }
                        Some(s)
                    })
                    .collect();
                let got = call("predict", || m.predict(q));
                if let Some(w) = best(&scores) {
                    probe("predicted");
                    check!(got == w, "wrong-class", "QDA classified {q:?} as {got}; the discriminants {scores:?} say {w}");
                }
            }
        }
    }
}
/// Inverse by elimination with full pivoting; `None` for matrices near singular.
fn inverse<const N: usize>(m: &Matrix<f64, N, N>) -> Option<[[f64; N]; N]> {
    let mut a: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| m[(i, j)]));
    let mut inv: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64));
    let scale = a.iter().flatten().fold(0.0f64, |s, v| s.max(v.abs()));
    for k in 0..N {
        let p = (k..N).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs())).unwrap();
        if a[p][k].abs() <= 1e-7 * scale || a[p][k].abs() < 1e-9 {
            return None;
        }
        a.swap(p, k);
        inv.swap(p, k);
        let d = a[k][k];
        for j in 0..N {
            a[k][j] /= d;
            inv[k][j] /= d;
        }
        for i in 0..N {
            if i != k {
                let f = a[i][k];
                for j in 0..N {
                    a[i][j] -= f * a[k][j];
                    inv[i][j] -= f * inv[k][j];
                }
            }
        }
    }
    Some(inv)
}
fn determinant<const N: usize>(m: &Matrix<f64, N, N>) -> f64 {
    let mut a: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| m[(i, j)]));
    let mut det = 1.0;
    for k in 0..N {
        let p = (k..N).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs())).unwrap();
        if p != k {
            a.swap(p, k);
            det = -det;
        }
        det *= a[k][k];
        if a[k][k] == 0.0 {
            return 0.0;
        }
        for i in k + 1..N {
            let f = a[i][k] / a[k][k];
            for j in k..N {
                a[i][j] -= f * a[k][j];
            }
        }
    }
    det
}
