//! C30: solvers, integrators and error bounds fed by misbehaving callbacks.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::rk4::Rk4Integrate;
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::real::Real;
use aether_core::reference_frame::Unknown;
use aether_opt::gradient_descent::GradientDescentGeneric;
use aether_test::assert::function::assert_max_abs_error_on_grid;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        run: callbacks,
        quick: 250_000,
        thorough: 4_000_000,
        rule: "Gradient descent, Newton's method, Runge-Kutta steps and the error-bound assertion run in three precisions with generated settings on callbacks that return NaN, infinities, huge, zero or inconsistent values at generated calls, or panic there; every call is recorded and the recorded history checked against the documented iteration.",
        want: &["gradient_descent", "newton", "runge_kutta", "cartesian", "euler_angles", "bound", "nan_value", "infinite_value", "panic", "panic_then_reused", "converged_grad", "converged_step", "limit", "backtracking", "exhausted_line_search", "fallback_direction", "bounds", "momentum", "step_checked", "armijo_checked", "newton_ok", "newton_zero_slope", "newton_limit", "stage_checked", "bound_passes", "bound_fails", "bound_nan", "half", "single", "double"],
        real: &["aether_opt::gradient_descent::basic", "aether_core::numerical_methods (NewtonRaphson, Rk4Integrate)", "aether_test::assert::function"],
        stub: &["the user's callbacks"],
        assume: &["solver settings are finite and bounds ordered"],
    }]
}
const N: usize = 2;

trait Num: Real + Copy + std::fmt::Debug {
    const EPS: f64;
    const MAX: f64;
    const TINY: f64;
    const NAME: &'static str;
}
impl Num for f64 {
    const EPS: f64 = 2.3e-16;
    const MAX: f64 = 1e300;
    const TINY: f64 = 1e-300;
    const NAME: &'static str = "double";
}
impl Num for f32 {
    const EPS: f64 = 1.2e-7;
    const MAX: f64 = 1e37;
    const TINY: f64 = 1e-36;
    const NAME: &'static str = "single";
}
impl Num for f16 {
    const EPS: f64 = 1e-3;
    const MAX: f64 = 3e4;
    const TINY: f64 = 1e-3;
    const NAME: &'static str = "half";
}
fn back<T: Num>(v: f64) -> T {
    T::from_f64(v)
}
/// The value as the type holds it.
fn round<T: Num>(v: f64) -> f64 {
    T::from_f64(v).to_f64()
}
fn eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
type P = [f64; N];
fn eqv(a: &P, b: &P) -> bool {
    eq(a[0], b[0]) && eq(a[1], b[1])
}
fn pt<T: Num>(x: &Vector<T, N>) -> P {
    [x[0].to_f64(), x[1].to_f64()]
}

/// Which calls of a callback misbehave, and how. Decided before the run, so that it can be repeated.
#[derive(Clone, Debug)]
struct Script {
    seed: u64,
    /// one call in this many is odd (0: none)
    odd: u64,
    panic_at: Option<u64>,
}
impl Script {
    fn new() -> Self {
        Script { seed: choose(1 << 32), odd: pick(&[0, 0, 2, 4, 12, 40]), panic_at: None }
    }
    /// `None`: the call behaves
    fn odd(&self, call: u64) -> Option<f64> {
        let h = mix(self.seed ^ mix(call + 1));
        if self.odd == 0 || h % self.odd != 0 {
            return None;
        }
        let v = match (h >> 20) % 12 {
            0 | 1 | 2 => f64::NAN,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            5 => 0.0,
            6 => 1e300,
            7 => -1e300,
            8 => 1e-300,
            9 => -3e4,
            _ => ((h >> 30) % 2000) as f64 / 100.0 - 10.0,
        };
        if v.is_nan() {
            probe("nan_value");
            fired("callback_nan");
        } else if v.is_infinite() {
            probe("infinite_value");
            fired("callback_infinite");
        } else {
            fired("callback_odd_value");
        }
        Some(v)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    F(P, f64),
    G(P, P),
}
static mut CALLS: Vec<Call> = Vec::new();
#[allow(static_mut_refs)]
fn calls() -> &'static mut Vec<Call> {
    unsafe { &mut CALLS }
}
fn callbacks() {
    match choose(3) {
        0 => {
            probe("double");
            one::<f64>()
        }
        1 => {
            probe("single");
            one::<f32>()
        }
        _ => {
            probe("half");
            one::<f16>()
        }
    }
}
fn one<T: Num>() {
    match choose(6) {
        0 | 1 | 2 => descent::<T>(),
        3 => newton::<T>(),
        4 => runge_kutta::<T>(),
        _ => bound(),
    }
}

// ------------------------------------------------------------------ gradient descent
#[derive(Clone, Debug)]
struct Gd {
    lr: f64,
    back: bool,
    c1: f64,
    tau: f64,
    mu: f64,
    tol_g: f64,
    tol_s: f64,
    iters: u32,
    bounds: Option<(P, P)>,
    x0: P,
    kind: u64,
    /// the gradient has the wrong sign or is unrelated
    lying: u64,
}
fn objective(kind: u64, x: P) -> (f64, P) {
    let [a, b] = x;
    match kind {
        0 => (0.5 * (a * a + 3.0 * b * b), [a, 3.0 * b]),
        1 => (a.abs() + 2.0 * b.abs(), [a.signum(), 2.0 * b.signum()]),
        2 => {
            let (u, w) = (1.0 - a, b - a * a);
            (u * u + 10.0 * w * w, [-2.0 * u - 40.0 * a * w, 20.0 * w])
        }
        3 => (a * 0.25 - b, [0.25, -1.0]),
        _ => (1.0, [0.0, 0.0]),
    }
}
#[derive(Clone, Debug)]
struct Ret {
    x: P,
    f: f64,
    k: u32,
    conv: bool,
}
fn run_gd<T: Num>(c: &Gd, s: &Script) -> (Result<Ret, String>, Vec<Call>) {
    calls().clear();
    let v = |p: &P| [back::<T>(p[0]), back::<T>(p[1])];
    let step = |what: Call| {
        let n = calls().len() as u64;
        calls().push(what);
        sim().ops += 1;
        check!(n < 200_000, "endless", "the optimiser has made {n} calls (limit of {} iterations): {c:?}", c.iters);
        if s.panic_at == Some(n) {
            fired("callback_panic");
            true
        } else {
            false
        }
    };
    let f = |x: &Vector<T, N>| {
        let (r, boom) = core(|| {
            let xs = pt(x);
            let n = calls().len() as u64;
            let r = round::<T>(s.odd(n).unwrap_or_else(|| objective(c.kind, xs).0));
            (r, step(Call::F(xs, r)))
        });
        if boom {
            panic!("objective gives up");
        }
        back::<T>(r)
    };
    let g = |x: &Vector<T, N>| {
        let (r, boom) = core(|| {
            let xs = pt(x);
            let n = calls().len() as u64;
            let mut r = objective(c.kind, xs).1;
            match c.lying {
                1 => r = [-r[0], -r[1]],
                2 => r = [((mix(n ^ s.seed) % 400) as f64 - 200.0) / 50.0, 1.0],
                _ => {}
            }
            if let Some(o) = s.odd(n) {
                r[(n % 2) as usize] = o;
            }
            let r = [round::<T>(r[0]), round::<T>(r[1])];
            (r, step(Call::G(xs, r)))
        });
        if boom {
            panic!("gradient gives up");
        }
        Vector::new(v(&r))
    };
    let mut o = GradientDescentGeneric::<T, N>::new();
    o.learning_rate(back(c.lr)).backtracking(c.back).armijo(back(c.c1), back(c.tau)).momentum(back(c.mu)).tolerances(back(c.tol_g), back(c.tol_s)).max_iters(c.iters);
    if let Some((lo, hi)) = &c.bounds {
        o.set_bounds(v(lo), v(hi));
    }
    let r = sut(|| {
        let (x, fx, k, conv) = o.minimize(Vector::new(v(&c.x0)), f, g);
        Ret { x: pt(&x), f: fx.to_f64(), k, conv }
    });
    (r, calls().clone())
}
fn descent<T: Num>() {
    probe("gradient_descent");
    let r = |v: f64| round::<T>(v);
    let bounds = if chance(1, 3) {
        let lo = [r(pick(&[-1.0, 0.0, -8.0])), r(pick(&[-1.0, 0.5, -8.0]))];
        probe("bounds");
        Some((lo, [lo[0] + pick(&[0.0, 1.0, 16.0]), lo[1] + pick(&[0.0, 1.0, 16.0])]))
    } else {
        None
    };
    let c = Gd {
        lr: r(pick(&[0.25, 0.0, 1.0, 1e-3, 8.0, 100.0])),
        back: chance(2, 3),
        c1: r(pick(&[1e-4, 0.3, 0.0, 0.9])),
        tau: r(pick(&[0.5, 0.9, 0.1, 0.75])),
        mu: r(pick(&[0.0, 0.0, 0.5, 0.9])),
        tol_g: r(pick(&[1e-3, 0.0, 0.5, 10.0])),
        tol_s: r(pick(&[1e-3, 0.0, 0.05])),
        iters: choose(24) as u32,
        bounds,
        x0: [r(choose(2000) as f64 / 100.0 - 10.0), r(choose(2000) as f64 / 100.0 - 10.0)],
        kind: choose(5),
        lying: pick(&[0, 0, 0, 1, 2]),
    };
    if c.mu > 0.0 {
        probe("momentum");
    }
    if c.back {
        probe("backtracking");
    }
    let s = Script::new();
    describe(format!("{} {c:?} {s:?}", T::NAME));
    let (res, hist) = run_gd::<T>(&c, &s);
    let ret = match res {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("minimize panicked: {m}")),
    };
    ev(|| format!("{ret:?} after {} calls", hist.len()));
    judge::<T>(&c, &ret, &hist);
    // --- a callback that panics
    if !hist.is_empty() && chance(1, 3) {
        let s2 = Script { panic_at: Some(choose(hist.len() as u64)), ..s.clone() };
        let (r2, h2) = run_gd::<T>(&c, &s2);
        probe("panic");
        if let Ok(r2) = r2 {
            violation("panic-swallowed", &format!("a callback panicked and minimize returned {r2:?}"));
        }
        check!(same(&h2, &hist[..h2.len()]), "not-repeatable", "the same run made different calls");
        let (r3, h3) = run_gd::<T>(&c, &s);
        probe("panic_then_reused");
        match r3 {
            Ok(r3) => check!(eqv(&r3.x, &ret.x) && eq(r3.f, ret.f) && r3.k == ret.k && r3.conv == ret.conv && h3.len() == hist.len(), "not-repeatable", "the same call gave {ret:?} and {r3:?}"),
            Err(m) => violation("not-repeatable", &format!("a call after a failed one panicked: {m}")),
        }
    }
}
fn same(a: &[Call], b: &[Call]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|p| match p {
            (Call::F(x, v), Call::F(y, w)) => eqv(x, y) && eq(*v, *w),
            (Call::G(x, v), Call::G(y, w)) => eqv(x, y) && eqv(v, w),
            _ => false,
        })
}
fn norm(v: &P) -> f64 {
    (v[0] * v[0] + v[1] * v[1]).sqrt()
}
/// Norms near the ends of the type's range may overflow or vanish.
fn safe<T: Num>(v: &P) -> bool {
    v.iter().all(|x| x.is_finite() && (*x == 0.0 || x.abs() > T::TINY.sqrt() && x.abs() < T::MAX.sqrt() / 4.0))
}
fn judge<T: Num>(c: &Gd, ret: &Ret, hist: &[Call]) {
    let grads: Vec<(usize, P, P)> = hist.iter().enumerate().filter_map(|(i, h)| if let Call::G(x, g) = h { Some((i, *x, *g)) } else { None }).collect();
    let n = grads.len();
    check!(ret.k <= c.iters, "limit", "{} iterations reported, the limit is {}", ret.k, c.iters);
    check!(n as u32 <= c.iters, "limit", "the gradient was taken {n} times, the limit is {} iterations", c.iters);
    if n > 0 {
        check!(eqv(&grads[0].1, &c.x0), "start", "the first gradient was taken at {:?}, the start is {:?}", grads[0].1, c.x0);
    }
    // --- the value returned is the objective's at the point returned
    let known: Vec<f64> = hist.iter().filter_map(|h| if let Call::F(x, v) = h { eqv(x, &ret.x).then_some(*v) } else { None }).collect();
    check!(known.iter().any(|v| eq(*v, ret.f)), "wrong-value", "returned {} at {:?}, where the objective gave {known:?}", ret.f, ret.x);
    // --- iterates: x_0 … x_n, the last being the point returned unless the run ended on its gradient
    let slack = 1.0 + 8.0 * T::EPS;
    let by_grad = ret.conv && ret.k + 1 == n as u32 && eqv(&ret.x, &grads[n - 1].1) && norm(&grads[n - 1].2) <= c.tol_g * slack + T::TINY;
    let mut xs: Vec<P> = grads.iter().map(|g| g.1).collect();
    if !by_grad {
        xs.push(ret.x);
        check!(ret.k == n as u32, "iterations", "{} iterations reported, {n} gradients taken (converged: {})", ret.k, ret.conv);
    }
    let stepn = |k: usize| {
        let d = [xs[k + 1][0] - xs[k][0], xs[k + 1][1] - xs[k][1]];
        (norm(&d), safe::<T>(&d))
    };
    if ret.conv {
        if by_grad {
            probe("converged_grad");
        } else {
            check!(n > 0 && stepn(n - 1).0 <= c.tol_s * slack + T::TINY, "false-convergence", "convergence reported after {n} steps; last gradient {:?} (tolerance {}), last step {:?} (tolerance {})", grads.last().map(|g| g.2), c.tol_g, if n > 0 { stepn(n - 1).0 } else { f64::NAN }, c.tol_s);
            probe("converged_step");
        }
    } else {
        check!(ret.k == c.iters, "gave-up", "not converged after {} of {} iterations", ret.k, c.iters);
        probe("limit");
    }
    for (k, g) in grads.iter().enumerate() {
        if safe::<T>(&g.2) && !(by_grad && k + 1 == n) {
            check!(norm(&g.2) * (1.0 + 8.0 * T::EPS) >= c.tol_g || c.tol_g == 0.0, "late", "the gradient {:?} of iteration {k} meets the tolerance {}, yet the run went on", g.2, c.tol_g);
        }
        if k + 1 < xs.len() && !(ret.conv && !by_grad && k + 1 == n) {
            let (d, ok) = stepn(k);
            check!(!ok || d * (1.0 + 8.0 * T::EPS) >= c.tol_s || c.tol_s == 0.0, "late", "step {k} of length {d} meets the tolerance {}, yet the run went on", c.tol_s);
        }
    }
    // --- bounds
    if let Some((lo, hi)) = &c.bounds {
        for (k, x) in xs.iter().enumerate().skip(1) {
            for d in 0..N {
                check!(!(x[d] < lo[d] || x[d] > hi[d]), "bounds", "iterate {k} {x:?} lies outside {lo:?}…{hi:?}");
            }
        }
    }
    // --- every step
    let project = |x: P| -> P {
        match &c.bounds {
            Some((lo, hi)) => [x[0].clamp(lo[0], hi[0]), x[1].clamp(lo[1], hi[1])],
            None => x,
        }
    };
    for k in 0..n.min(xs.len().saturating_sub(1)) {
        let (x, g) = (xs[k], grads[k].2);
        let v = if k > 0 { [x[0] - xs[k - 1][0], x[1] - xs[k - 1][1]] } else { [0.0, 0.0] };
        if !safe::<T>(&g) || !x.iter().chain(&v).all(|a| a.is_finite() && a.abs() < T::MAX.sqrt() / 4.0) {
            continue;
        }
        let d = [-g[0] + c.mu * v[0], -g[1] + c.mu * v[1]];
        let tol = |a: f64, j: usize| 16.0 * T::EPS * (x[j].abs() + a * (g[j].abs() + c.mu * v[j].abs())) + T::TINY;
        let at = |p: &P, a: f64, d: &P| {
            let w = project([x[0] + a * d[0], x[1] + a * d[1]]);
            (0..N).all(|j| (p[j] - w[j]).abs() <= tol(a, j))
        };
        if !c.back {
            check!(at(&xs[k + 1], c.lr, &d), "wrong-step", "iteration {k} went from {x:?} to {:?}; gradient {g:?}, previous step {v:?}, rate {}, momentum {}", xs[k + 1], c.lr, c.mu);
            probe("step_checked");
            continue;
        }
        // trials of the line search: objective calls between this gradient and the next
        let from = grads[k].0 + 1;
        let to = grads.get(k + 1).map_or(hist.len(), |g| g.0);
        let trials: Vec<(P, f64)> = hist[from..to].iter().filter_map(|h| if let Call::F(x, v) = h { Some((*x, *v)) } else { None }).collect();
        check!(!trials.is_empty(), "no-trial", "iteration {k} moved without evaluating the objective");
        let gd = g[0] * d[0] + g[1] * d[1];
        let gabs = g[0].abs() * (g[0].abs() + c.mu * v[0].abs()) + g[1].abs() * (g[1].abs() + c.mu * v[1].abs());
        let near = gd.abs() <= 32.0 * T::EPS * gabs;
        let neg = [-g[0], -g[1]];
        let n2 = -(g[0] * g[0] + g[1] * g[1]);
        let options: Vec<(P, f64)> = if near { vec![(d, gd), (neg, n2)] } else if gd >= 0.0 { vec![(neg, n2)] } else { vec![(d, gd)] };
        if !near && gd >= 0.0 {
            probe("fallback_direction");
        }
        // the value the iteration started from
        let fx = hist[..grads[k].0].iter().rev().find_map(|h| if let Call::F(p, v) = h { eqv(p, &x).then_some(*v) } else { None });
        let ok = options.iter().any(|(d, _)| {
            let mut a = c.lr;
            trials.iter().all(|(p, _)| {
                let r = at(p, a, d);
                a *= c.tau;
                r
            })
        });
        check!(ok, "wrong-trial", "iteration {k} at {x:?} (gradient {g:?}, previous step {v:?}, rate {}, shrink {}, momentum {}) tried {trials:?}", c.lr, c.tau, c.mu);
        check!(eqv(&trials.last().unwrap().0, &xs[k + 1]), "wrong-step", "iteration {k} accepted {:?} but moved to {:?}", trials.last().unwrap().0, xs[k + 1]);
        probe("step_checked");
        let Some(fx) = fx else { continue };
        if options.len() > 1 {
            continue;
        }
        let mut a = c.lr;
        for (j, (_, ft)) in trials.iter().enumerate() {
            let rhs = fx + c.c1 * a * options[0].1;
            let t = 16.0 * T::EPS * (fx.abs() + c.c1 * a * gabs) + T::TINY;
            let range = fx.abs() < T::MAX / 4.0 && rhs.abs() < T::MAX / 4.0;
            if j + 1 < trials.len() {
                check!(!range || !(*ft <= rhs - t), "missed-decrease", "iteration {k}: trial {j} gave {ft}, a sufficient decrease from {fx} (limit {rhs}), yet the step was shrunk");
            } else {
                let exhausted = a * c.tau <= 1.01e-20 || T::EPS > 1e-4 && a <= 2e-6;
                if exhausted {
                    probe("exhausted_line_search");
                }
                // NaN and infinite starting values decide every comparison themselves
                check!(exhausted || !range || *ft <= rhs + t, "no-decrease", "iteration {k}: accepted {ft} from {fx} with step {a}, the limit for a sufficient decrease is {rhs}");
            }
            a *= c.tau;
        }
        probe("armijo_checked");
    }
}

// ------------------------------------------------------------------ Newton
fn newton<T: Num>() {
    probe("newton");
    let tol = round::<T>(pick(&[1e-3, 0.1, 0.0, 1e-6]));
    let limit = choose(30) as usize;
    let x0 = round::<T>(choose(4000) as f64 / 200.0 - 10.0);
    let kind = choose(4);
    let s = Script::new();
    describe(format!("{} newton tol {tol} limit {limit} x0 {x0} kind {kind} {s:?}", T::NAME));
    let go = |panic_at: Option<u64>| {
        calls().clear();
        let cb = |x: T, slope: bool| -> T {
            let (r, boom) = core(|| {
                let xs = x.to_f64();
                let n = calls().len() as u64;
                check!(n < 200_000, "endless", "Newton's method made {n} calls with a limit of {limit} iterations");
                let (f, d) = match kind {
                    0 => (xs * xs - 2.0, 2.0 * xs),
                    1 => (xs.sin(), xs.cos()),
                    2 => (xs * xs * xs + 1.0, 3.0 * xs * xs),
                    _ => (xs * xs + 1.0, 2.0 * xs),
                };
                let r = round::<T>(s.odd(n).unwrap_or(if slope { d } else { f }));
                calls().push(if slope { Call::G([xs, 0.0], [r, 0.0]) } else { Call::F([xs, 0.0], r) });
                (r, panic_at == Some(n))
            });
            if boom {
                fired("callback_panic");
                panic!("callback gives up");
            }
            back::<T>(r)
        };
        let solver = NewtonRaphson::<T>::new(back(tol), limit);
        let r = sut(|| solver.solve(back(x0), |x| cb(x, false), |x| cb(x, true)).map(|v| v.to_f64()));
        (r, calls().clone())
    };
    let (res, hist) = go(None);
    let res = match res {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("solve panicked: {m}")),
    };
    let f: Vec<(f64, f64)> = hist.iter().filter_map(|h| if let Call::F(x, v) = h { Some((x[0], *v)) } else { None }).collect();
    let d: Vec<(f64, f64)> = hist.iter().filter_map(|h| if let Call::G(x, v) = h { Some((x[0], v[0])) } else { None }).collect();
    ev(|| format!("{res:?} after {} and {} calls", f.len(), d.len()));
    check!(f.len() <= limit && d.len() <= limit, "limit", "{} function and {} slope calls with a limit of {limit} iterations", f.len(), d.len());
    let n = d.len();
    check!(f.len() == n || f.len() + 1 == n, "calls", "{} function and {n} slope calls", f.len());
    let slack = 8.0 * T::EPS;
    for k in 0..n.min(f.len()) {
        check!(eq(f[k].0, d[k].0), "calls", "iteration {k}: function at {}, slope at {}", f[k].0, d[k].0);
        if k == 0 {
            check!(eq(f[0].0, x0), "start", "started at {} instead of {x0}", f[0].0);
        }
        let next = if k + 1 < n { Some(d[k + 1].0) } else { res.ok() };
        let Some(next) = next else { continue };
        check!(d[k].1 != 0.0, "zero-slope", "iteration {k} went on from {} with a slope of zero to {next}", d[k].0);
        let q = f[k].1 / d[k].1;
        let want = d[k].0 - q;
        let t = slack * (d[k].0.abs() + q.abs()) + T::TINY;
        if want.is_nan() {
            // an overflow in the type can turn what is finite here into NaN, not the other way round
            check!(!next.is_finite(), "wrong-step", "from {} ({} / {}) the iteration went to {next}", d[k].0, f[k].1, d[k].1);
        } else if q.abs() < T::MAX && want.abs() < T::MAX {
            check!((next - want).abs() <= t, "wrong-step", "from {} ({} / {}) the iteration went to {next}, not {want}", d[k].0, f[k].1, d[k].1);
        }
        if k + 1 < n && (next - d[k].0).is_finite() {
            check!((next - d[k].0).abs() * (1.0 + slack) + T::TINY >= tol, "late", "the step from {} to {next} meets the tolerance {tol}, yet the iteration went on", d[k].0);
        }
    }
    match res {
        Ok(x) => {
            check!(n > 0 && x.is_finite(), "false-convergence", "{x} was returned as a solution after {n} iterations");
            check!((x - d[n - 1].0).abs() <= tol * (1.0 + slack) && tol > 0.0, "false-convergence", "{x} was returned as a solution, the last step from {} is not within {tol}", d[n - 1].0);
            probe("newton_ok");
        }
        Err(_) => {
            let zero = n > 0 && d[n - 1].1 == 0.0;
            check!(zero || n == limit, "gave-up", "failed after {n} of {limit} iterations");
            probe(if zero { "newton_zero_slope" } else { "newton_limit" });
        }
    }
    if !hist.is_empty() && chance(1, 3) {
        let (r2, _) = go(Some(choose(hist.len() as u64)));
        probe("panic");
        if let Ok(r2) = r2 {
            violation("panic-swallowed", &format!("a callback panicked and solve returned {r2:?}"));
        }
        let (r3, h3) = go(None);
        probe("panic_then_reused");
        let agree = match (&r3, &res) {
            (Ok(Ok(a)), Ok(b)) => eq(*a, *b),
            (Ok(Err(_)), Err(_)) => true,
            _ => false,
        };
        check!(agree && same(&h3, &hist), "not-repeatable", "the same call gave {res:?} and {r3:?}");
    }
}

// ------------------------------------------------------------------ Runge-Kutta
type S3 = [f64; 3];
static mut STAGES: Vec<(S3, S3)> = Vec::new();
#[allow(static_mut_refs)]
fn stages() -> &'static mut Vec<(S3, S3)> {
    unsafe { &mut STAGES }
}
trait State<T: Num>: Rk4Integrate<T> {
    fn of(v: S3) -> Self;
    fn get(&self) -> S3;
}
fn t3<T: Num>(v: S3) -> [T; 3] {
    [back(v[0]), back(v[1]), back(v[2])]
}
fn f3<T: Num>(v: &Vector<T, 3>) -> S3 {
    [v[0].to_f64(), v[1].to_f64(), v[2].to_f64()]
}
impl<T: Num> State<T> for Vector<T, 3> {
    fn of(v: S3) -> Self {
        Vector::new(t3(v))
    }
    fn get(&self) -> S3 {
        f3(self)
    }
}
impl<T: Num> State<T> for Cartesian<T, Unknown> {
    fn of(v: S3) -> Self {
        let v = t3(v);
        Cartesian::new(v[0], v[1], v[2])
    }
    fn get(&self) -> S3 {
        f3(&self.data)
    }
}
impl<T: Num> State<T> for Euler<T, Unknown, Unknown> {
    fn of(v: S3) -> Self {
        let v = t3(v);
        Euler::new(v[0], v[1], v[2])
    }
    fn get(&self) -> S3 {
        f3(&self.data)
    }
}
fn runge_kutta<T: Num>() {
    probe("runge_kutta");
    match choose(3) {
        0 => rk4::<T, Vector<T, 3>>("vector"),
        1 => {
            probe("cartesian");
            rk4::<T, Cartesian<T, Unknown>>("cartesian")
        }
        _ => {
            probe("euler_angles");
            rk4::<T, Euler<T, Unknown, Unknown>>("euler angles")
        }
    }
}
fn rk4<T: Num, X: State<T>>(what: &str) {
    let mut x0: S3 = [0.0; 3];
    for (j, x) in x0.iter_mut().enumerate() {
        *x = round::<T>(choose(2000) as f64 / 100.0 - 10.0 * (j % 2) as f64);
    }
    let dt = round::<T>(pick(&[0.25, 0.01, 1.0, -0.5, 0.0]));
    let s = Script::new();
    let panic_at = if chance(1, 6) { Some(choose(4)) } else { None };
    describe(format!("{} Runge-Kutta ({what}) x0 {x0:?} dt {dt} {s:?} panic {panic_at:?}", T::NAME));
    let step = |panic_at: Option<u64>| {
        stages().clear();
        let f = |x: &X| {
            let (r, boom) = core(|| {
                let n = stages().len() as u64;
                check!(n < 1000, "endless", "{n} evaluations in a step");
                let h = mix(s.seed ^ n);
                // unrelated to the state: each stage must be used where it belongs
                let mut r = [0, 20, 40].map(|k| ((h >> k) % 2000) as f64 / 200.0 - 5.0);
                if let Some(o) = s.odd(n) {
                    r[(h >> 50) as usize % 3] = o;
                }
                let r = r.map(round::<T>);
                stages().push((x.get(), r));
                (r, panic_at == Some(n))
            });
            if boom {
                fired("callback_panic");
                panic!("dynamics give up");
            }
            X::of(r)
        };
        let r = sut(|| X::of(x0).integrate_rk4(f, back::<T>(dt)).get());
        (r, stages().clone())
    };
    if panic_at.is_some() {
        probe("panic");
        let (res, _) = step(panic_at);
        check!(res.is_err(), "panic-swallowed", "the dynamics panicked and the step returned {res:?}");
    }
    let (res, st) = step(None);
    let res = match res {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("integrate_rk4 panicked: {m}")),
    };
    check!(st.len() == 4, "stages", "{} evaluations in a step", st.len());
    for j in 0..3 {
        let k: Vec<f64> = st.iter().map(|s| s.1[j]).collect();
        let ats = [(0.0, 0), (dt / 2.0, 0), (dt / 2.0, 1), (dt, 2)];
        for (i, (h, from)) in ats.iter().enumerate() {
            let add = if i == 0 { 0.0 } else { h * k[*from] };
            let want = x0[j] + add;
            let got = st[i].0[j];
            if want.is_finite() && want.abs() < T::MAX && add.abs() < T::MAX / 8.0 {
                check!((got - want).abs() <= 8.0 * T::EPS * (x0[j].abs() + add.abs()) + T::TINY, "stage", "stage {i} evaluated at {got}, not {want}");
                probe("stage_checked");
            } else if want.is_nan() {
                check!(got.is_nan(), "stage", "stage {i} evaluated at {got} although the stage it rests on is {}", k[*from]);
            }
        }
        let sum = k[0] + 2.0 * k[1] + 2.0 * k[2] + k[3];
        let big = k.iter().any(|v| v.abs() > T::MAX / 16.0 || !v.is_finite());
        let want = x0[j] + sum * dt / 6.0;
        if !big {
            let mag: f64 = k.iter().map(|v| v.abs()).sum::<f64>() * 2.0 * dt.abs() / 6.0;
            check!((res[j] - want).abs() <= 16.0 * T::EPS * (x0[j].abs() + mag) + T::TINY, "combination", "the step gave {}, the stages {k:?} lead to {want}", res[j]);
        } else if k.iter().any(|v| v.is_nan()) {
            check!(res[j].is_nan(), "nan-lost", "stage values {k:?} gave {}", res[j]);
        }
    }
}

// ------------------------------------------------------------------ error bound
fn bound() {
    probe("bound");
    let samples = range(1, 40) as usize;
    let (a, b) = (choose(100) as f64 / 10.0 - 5.0, choose(100) as f64 / 10.0);
    let tol = pick(&[0.5, 0.0, 1e-9, 3.0]);
    let s = Script::new();
    let spread = pick(&[0.0, 1e-10, 0.4, 2.0]);
    describe(format!("bound {samples} samples on {a}..{b} tolerance {tol} spread {spread} {s:?}"));
    calls().clear();
    let cb = |x: f64, second: bool| {
        core(|| {
            let n = calls().len() as u64;
            let h = mix(s.seed ^ x.to_bits());
            let v = x.sin() + if second { ((h % 2001) as f64 / 1000.0 - 1.0) * spread } else { 0.0 };
            let r = s.odd(n).unwrap_or(v);
            calls().push(if second { Call::G([x, 0.0], [r, 0.0]) } else { Call::F([x, 0.0], r) });
            r
        })
    };
    let res = sut(|| assert_max_abs_error_on_grid(|x| cb(x, false), |x| cb(x, true), a, b, samples, tol));
    let f: Vec<(f64, f64)> = calls().iter().filter_map(|h| if let Call::F(x, v) = h { Some((x[0], *v)) } else { None }).collect();
    let g: Vec<(f64, f64)> = calls().iter().filter_map(|h| if let Call::G(x, v) = h { Some((x[0], v[0])) } else { None }).collect();
    let pairs: Vec<(f64, f64)> = f.iter().zip(&g).map(|(f, g)| (f.0, (g.1 - f.1).abs())).collect();
    let all_within = pairs.iter().all(|p| p.1 <= tol);
    let nan = pairs.iter().any(|p| p.1.is_nan());
    if nan {
        probe("bound_nan");
    }
    match res {
        Ok((x, e)) => {
            check!(pairs.len() == samples + 1 && f.len() == g.len(), "grid", "{} and {} evaluations for {samples} samples", f.len(), g.len());
            for (k, p) in pairs.iter().enumerate() {
                let want = a + (b - a) * k as f64 / samples as f64;
                check!((p.0 - want).abs() <= 1e-12 * (a.abs() + b.abs() + 1.0), "grid", "sample {k} taken at {} instead of {want}", p.0);
            }
            let numbers_within = pairs.iter().all(|p| p.1 <= tol || p.1.is_nan());
            check!(numbers_within, "bound-unsound", "the bound {tol} was confirmed although the errors are {:?}", pairs.iter().map(|p| p.1).collect::<Vec<_>>());
            let worst = pairs.iter().map(|p| p.1).fold(0.0, f64::max);
            check!(e == worst, "wrong-worst", "the worst error is {worst}, {e} was returned");
            check!(worst == 0.0 || pairs.iter().any(|p| p.0 == x && p.1 == worst), "wrong-worst", "the worst error {worst} is not at {x}");
            check!(all_within, "nan-error-confirmed", "the bound {tol} was confirmed although an error is not a number: {:?}", pairs.iter().map(|p| p.1).collect::<Vec<_>>());
            probe("bound_passes");
        }
        Err(m) => {
            check!(!(all_within && pairs.len() == samples + 1), "bound-alarm", "all errors are within {tol}, yet: {m}");
            probe("bound_fails");
        }
    }
}
