//! C38–C40: books kept from messages — mass properties of vehicles, estimates from measurements, curves through telemetry.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{Pose, ReferenceFrame};
use aether_fluids::{aggregate_tank_inertia_principal_cm_kg_m2, aggregate_tank_mass_kg, PropellantTankSpec, TankMassState, TankShape};
use aether_interp::{inverse_lerp, lerp, remap, CubicSpline, PolynomialInterpolator};
use aether_shapes::attributes::{MassModel, MassProps, Solid, SolidOps};
use aether_shapes::cylinder::Cylinder;
use aether_shapes::prism::RectangularPrism;
use aether_shapes::sphere::Sphere;
use aether_stats::covariance as cov;
use aether_stats::distributions::multivariate::MultivariateNormal;
use std::f64::consts::PI;

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 250_000, thorough: 6_000_000, rule: "", want: &[], real: &[], stub: &[], assume: &[] };
    vec![
        Prop { id: "C38", run: masses,
            rule: "A vehicle's parts of generated shape, density, place and direction dock in either order, are cut out of each other, and are moved and turned together; its tanks drain by reports that are lost, doubled and reordered, noisy readings below zero included. After every step mass, volume, density, centre, inertia and tank totals are compared with sums over the parts kept in the books.",
            want: &["docked", "cut", "moved", "by_model", "by_matrix", "none", "sphere", "cylinder", "prism", "tank_report", "message_lost", "message_duplicated", "message_reordered", "negative_mass", "alike", "limits", "limits_clamped", "restored", "single", "double"],
            real: &["aether_shapes", "aether_fluids"],
            stub: &["the vehicle, its valves and gauges, and the network"],
            assume: &["sizes between a centimetre and a hundred metres", "a cut leaves more than rounding of the mass"], ..base },
        Prop { id: "C39", run: estimates,
            rule: "Sensor nodes measure a hidden state and send their rows and batches to an estimator through a network that loses, duplicates and reorders; estimators add up information, merge, restart from saved copies, solve by every solver, and keep sample statistics. The information must be exactly the sum of what arrived, in any order; each answer must solve its equations to rounding; no solver may claim an answer for what has none, nor refuse a well-posed system.",
            want: &["message_lost", "message_duplicated", "message_reordered", "restored", "merged", "solved", "unobservable", "lu", "cholesky", "inverse", "inverse3", "many", "indefinite", "determinant", "zero_determinant", "statistics", "too_few", "constant_axis", "density", "far_from_zero", "pivoted", "single", "double"],
            real: &["aether_core::math (Matrix, Vector)", "aether_core::numerical_methods::solvers (LU, Cholesky)", "aether_stats (covariance, multivariate normal)"],
            stub: &["the sensors, the state they measure, and the network"],
            assume: &["refusals are judged for systems of condition below a thousand (single) or a million (double)"], ..base },
        Prop { id: "C40", run: curves,
            rule: "Samples of a signal are sent through a network that loses, duplicates and reorders them; receivers put what they got in order and fill the gaps with the library's curves, at the samples, between them, next to them and outside. Every value is compared with an independent natural spline or Lagrange polynomial through the same samples, and receivers holding the same samples must agree; unusable sets of samples must be refused.",
            want: &["message_lost", "message_duplicated", "message_reordered", "spline", "polynomial", "knot", "between", "outside", "near_knot", "refused", "lerp", "recovered"],
            real: &["aether_interp"],
            stub: &["the signal and the network"],
            assume: &["samples are at least a thousandth apart, gaps differ by less than a factor of ten thousand"], ..base },
    ]
}
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}
trait Num: Real + Copy + Default + PartialEq + PartialOrd + std::fmt::Debug + std::ops::AddAssign {
    const E: f64;
    const NAME: &'static str;
    const KAPPA: f64;
    fn of(v: f64) -> Self;
    fn val(self) -> f64;
}
impl Num for f64 {
    const E: f64 = f64::EPSILON;
    const NAME: &'static str = "double";
    const KAPPA: f64 = 1e6;
    fn of(v: f64) -> f64 {
        v
    }
    fn val(self) -> f64 {
        self
    }
}
impl Num for f32 {
    const E: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "single";
    const KAPPA: f64 = 1e3;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
}
fn unit() -> f64 {
    choose(1 << 30) as f64 / (1u64 << 30) as f64
}
fn sign() -> f64 {
    if chance(1, 2) {
        -1.0
    } else {
        1.0
    }
}
fn hit(name: &str) {
    fired(name);
    probe(name);
}
/// What a lossy network makes of a list of messages.
fn deliver<M: Clone>(sent: &[M]) -> Vec<M> {
    let mut out = vec![];
    for m in sent {
        if chance(1, 8) {
            hit("message_lost");
            continue;
        }
        out.push(m.clone());
        if chance(1, 8) {
            hit("message_duplicated");
            out.push(m.clone());
        }
    }
    for _ in 0..choose(6) {
        if out.len() > 1 {
            let (i, j) = (choose(out.len() as u64) as usize, choose(out.len() as u64) as usize);
            if i != j {
                hit("message_reordered");
                let m = out.remove(i);
                out.insert(j.min(out.len()), m);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C38
type M = [[f64; 3]; 3];
type V = [f64; 3];
#[derive(Clone, Copy, PartialEq, Debug)]
struct Local;
impl ReferenceFrame for Local {}
#[derive(Clone, Copy, Debug)]
enum Body<T: Real> {
    S(Sphere<T>),
    C(Cylinder<T>),
    P(RectangularPrism<T>),
}
impl<T: Real> Solid<T> for Body<T> {
    type Local = Local;
    fn volume(&self) -> T {
        match self {
            Body::S(s) => s.volume(),
            Body::C(s) => s.volume(),
            Body::P(s) => s.volume(),
        }
    }
    fn inertia_principal_cm(&self, m: T) -> Vector<T, 3> {
        match self {
            Body::S(s) => s.inertia_principal_cm(m),
            Body::C(s) => s.inertia_principal_cm(m),
            Body::P(s) => s.inertia_principal_cm(m),
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Part {
    kind: u64,
    size: V,
    rho: f64,
    turn: M,
    at: V,
}
fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn app(a: &M, v: &V) -> V {
    std::array::from_fn(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: &V) -> f64 {
    dot(a, a).sqrt()
}
fn rotation() -> M {
    let mut m = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for axis in 0..choose(4) as usize {
        let a: f64 = if chance(1, 3) { sign() * PI / 2.0 } else { 2.0 * PI * unit() };
        let (s, c) = a.sin_cos();
        let (j, k) = ((axis + 1) % 3, (axis + 2) % 3);
        let mut t = [[0.0; 3]; 3];
        t[axis][axis] = 1.0;
        t[j][j] = c;
        t[k][k] = c;
        t[j][k] = -s;
        t[k][j] = s;
        m = mul(&t, &m);
    }
    m
}
fn rounded<T: Num>(p: Part) -> Part {
    let r = |v: f64| T::of(v).val();
    Part { size: p.size.map(r), rho: r(p.rho), turn: p.turn.map(|x| x.map(r)), at: p.at.map(r), ..p }
}
fn size() -> f64 {
    if chance(1, 4) {
        1.0
    } else {
        10f64.powf(4.0 * unit() - 2.0)
    }
}
fn place() -> V {
    match choose(4) {
        0 => [0.0; 3],
        1 => {
            let mut v = [0.0; 3];
            v[choose(3) as usize] = sign() * 10.0 * unit();
            v
        }
        _ => std::array::from_fn(|_| sign() * 10f64.powf(3.0 * unit() - 1.0)),
    }
}
impl Part {
    fn new<T: Num>() -> Part {
        let (a, b, c) = (size(), size(), size());
        // bars, plates, cubes and bodies of any proportion
        let size = match choose(6) {
            0 => [a, a, a],
            1 => [a, a, b],
            2 => [a, b, b],
            3 => [a, b, a],
            _ => [a, b, c],
        };
        rounded::<T>(Part { kind: choose(3), size, rho: if chance(1, 4) { 1000.0 } else { 10f64.powf(4.0 * unit()) }, turn: rotation(), at: place() })
    }
    fn body<T: Num>(&self) -> Body<T> {
        let [a, b, c] = self.size.map(T::of);
        match self.kind {
            0 => {
                probe("sphere");
                Body::S(Sphere { r: a })
            }
            1 => {
                probe("cylinder");
                Body::C(Cylinder { r: a, h: b })
            }
            _ => {
                probe("prism");
                Body::P(RectangularPrism { a, b, c })
            }
        }
    }
    fn volume(&self) -> f64 {
        let [a, b, c] = self.size;
        match self.kind {
            0 => 4.0 / 3.0 * PI * a * a * a,
            1 => PI * a * a * b,
            _ => a * b * c,
        }
    }
    fn mass(&self) -> f64 {
        self.rho * self.volume()
    }
    fn principal(&self) -> V {
        let [a, b, c] = self.size;
        let m = self.mass();
        match self.kind {
            0 => [0.4 * m * a * a; 3],
            1 => [m * (3.0 * a * a + b * b) / 12.0, m * (3.0 * a * a + b * b) / 12.0, m * a * a / 2.0],
            _ => [m * (b * b + c * c) / 12.0, m * (a * a + c * c) / 12.0, m * (a * a + b * b) / 12.0],
        }
    }
    /// About the origin of the assembly.
    fn inertia(&self) -> M {
        let p = self.principal();
        let d = [[p[0], 0.0, 0.0], [0.0, p[1], 0.0], [0.0, 0.0, p[2]]];
        let t = &self.turn;
        let tt = std::array::from_fn(|i| std::array::from_fn(|j| t[j][i]));
        let mut i = mul(&mul(t, &d), &tt);
        shift(&mut i, self.mass(), &self.at);
        i
    }
    fn reach2(&self) -> f64 {
        dot(&self.size, &self.size) + dot(&self.at, &self.at)
    }
    fn model<T: Num>(&self) -> MassModel<T, Body<T>> {
        let m = Matrix::new(self.turn.map(|r| r.map(T::of)));
        let [x, y, z] = self.at.map(T::of);
        MassModel::new(self.body::<T>(), T::of(self.rho), Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(m), r_cm_in_assembly: Cartesian::new(x, y, z) })
    }
}
fn shift(i: &mut M, m: f64, r: &V) {
    let r2 = dot(r, r);
    for a in 0..3 {
        for b in 0..3 {
            i[a][b] += m * (if a == b { r2 } else { 0.0 } - r[a] * r[b]);
        }
    }
}
fn joined<T: Num>(a: &Part, b: &Part, cut: bool) -> Option<MassProps<T>> {
    let what = if cut { "cutting" } else { "docking" };
    if chance(1, 2) {
        probe("by_model");
        call(what, || if cut { a.model::<T>() - b.model::<T>() } else { a.model::<T>() + b.model::<T>() })
    } else {
        probe("by_matrix");
        let (x, y) = (a.model::<T>(), b.model::<T>());
        let (ra, rb) = (*x.pose.R_local_to_assembly.as_matrix(), *y.pose.R_local_to_assembly.as_matrix());
        let (pa, pb) = (x.pose.r_cm_in_assembly.data, y.pose.r_cm_in_assembly.data);
        call(what, || if cut { x.solid.subtract_with(&y.solid, x.density, y.density, ra, pa, rb, pb) } else { x.solid.add_with(&y.solid, x.density, y.density, ra, pa, rb, pb) })
    }
}
/// What two parts come to, compared with the sums over them.
fn assembly<T: Num>(a: &Part, b: &Part, cut: bool) {
    let s = if cut { -1.0 } else { 1.0 };
    let got = joined::<T>(a, b, cut);
    let (ma, mb, va, vb) = (a.mass(), b.mass(), a.volume(), b.volume());
    let (m, v) = (ma + s * mb, va + s * vb);
    let (dm, dv) = (64.0 * T::E * (ma + mb), 64.0 * T::E * (va + vb));
    let Some(g) = got else {
        probe("none");
        check!(va <= 0.0 || vb <= 0.0 || m <= dm || v <= dv, "refused", "no mass properties for {a:?} {} {b:?}", if cut { "without" } else { "with" });
        return;
    };
    probe(if cut { "cut" } else { "docked" });
    ev(|| format!("{} {:.5e} kg at {:.3e} {:.3e} {:.3e}, inertia {:.4e}", if cut { "cut" } else { "docked" }, g.mass.val(), g.com[0].val(), g.com[1].val(), g.com[2].val(), g.inertia_cm[(0, 0)].val()));
    check!(va > 0.0 && vb > 0.0 && m > -dm && v > -dv, "nothing-left", "mass properties for {a:?} without {b:?}: {g:?}");
    if m <= 16.0 * dm || v <= 16.0 * dv {
        return;
    }
    check!((g.mass.val() - m).abs() <= dm, "wrong-mass", "mass {:?} of {a:?} and {b:?} (cut {cut}), expected {m}", g.mass);
    check!((g.volume.val() - v).abs() <= dv, "wrong-volume", "volume {:?} of {a:?} and {b:?} (cut {cut}), expected {v}", g.volume);
    check!((g.density.val() * v - m).abs() <= dm + m / v * dv + 64.0 * T::E * m, "wrong-density", "density {:?} of {a:?} and {b:?} (cut {cut}), expected {}", g.density, m / v);
    let c: V = std::array::from_fn(|i| (a.at[i] * ma + s * b.at[i] * mb) / m);
    let dc = (64.0 * T::E * (len(&a.at) * ma + len(&b.at) * mb) + dm * len(&c)) / m;
    for i in 0..3 {
        check!((g.com[i].val() - c[i]).abs() <= dc, "wrong-centre", "centre {:?} of {a:?} and {b:?} (cut {cut}), expected {c:?} within {dc:e}", g.com);
    }
    let (ia, ib) = (a.inertia(), b.inertia());
    let mut want: M = std::array::from_fn(|i| std::array::from_fn(|j| ia[i][j] + s * ib[i][j]));
    shift(&mut want, -m, &c);
    let tol = 128.0 * T::E * (ma * a.reach2() + mb * b.reach2()) + 4.0 * (dm * dot(&c, &c) + m * len(&c) * dc + m * dc * dc);
    for i in 0..3 {
        for j in 0..3 {
            let x = g.inertia_cm[(i, j)].val();
            check!((x - want[i][j]).abs() <= tol, "wrong-inertia", "inertia {:?} of {a:?} and {b:?} (cut {cut}), expected {want:?} within {tol:e}", g.inertia_cm);
        }
    }
}
fn moved<T: Num>(p: &Part, turn: &M, by: &V) -> Part {
    let at = app(turn, &p.at);
    rounded::<T>(Part { turn: mul(turn, &p.turn), at: std::array::from_fn(|i| at[i] + by[i]), ..*p })
}
fn tank_shape() -> (TankShape, Part) {
    let (r, h) = (size(), size());
    if chance(1, 2) {
        (TankShape::Cylinder { radius_m: r, length_m: h }, Part { kind: 1, size: [r, h, 0.0], rho: 1.0, turn: [[0.0; 3]; 3], at: [0.0; 3] })
    } else {
        (TankShape::Sphere { radius_m: r }, Part { kind: 0, size: [r, 0.0, 0.0], rho: 1.0, turn: [[0.0; 3]; 3], at: [0.0; 3] })
    }
}
fn tank_books(tanks: &[TankMassState], parts: &[Part]) {
    let got = call("aggregate mass", || aggregate_tank_mass_kg(tanks));
    let want: f64 = tanks.iter().map(|t| t.mass_kg.max(0.0)).sum();
    check!((got - want).abs() <= 16.0 * f64::EPSILON * want, "wrong-tank-mass", "tanks {tanks:?} weigh {got}, expected {want}");
    ev(|| format!("tanks {got:.5e} kg"));
    let got = call("aggregate inertia", || aggregate_tank_inertia_principal_cm_kg_m2(tanks));
    let mut want = [0.0; 3];
    for (t, p) in tanks.iter().zip(parts) {
        let i = Part { rho: t.mass_kg.max(0.0) / p.volume(), ..*p }.principal();
        let one = call("inertia", || t.shape.inertia_principal_cm_kg_m2(t.mass_kg));
        for k in 0..3 {
            check!((one[k] - i[k]).abs() <= 32.0 * f64::EPSILON * (i[0] + i[1] + i[2]), "wrong-tank-inertia", "{t:?}: {one:?}, expected {i:?}");
            want[k] += i[k];
        }
    }
    for k in 0..3 {
        check!((got[k] - want[k]).abs() <= 64.0 * f64::EPSILON * (want[0] + want[1] + want[2]), "wrong-tank-inertia", "{tanks:?}: {got:?}, expected {want:?}");
    }
}
fn tank_limits() {
    probe("limits");
    let (shape, part) = tank_shape();
    let fill = if chance(1, 3) {
        probe("limits_clamped");
        pick(&[-0.5, 0.0, 1.0, 1.5, 1e9])
    } else {
        unit()
    };
    let rho = if chance(1, 6) { -800.0 } else { 2000.0 * unit() };
    let spec = PropellantTankSpec { shape, propellant_density_kg_m3: rho, fill_fraction: fill };
    let l = call("limits", || spec.limits());
    let v = part.volume();
    let f = fill.clamp(0.0, 1.0);
    let near = |a: f64, b: f64| (a - b).abs() <= 32.0 * f64::EPSILON * b.abs();
    check!(near(l.geometric_volume_m3, v) && near(l.usable_volume_m3, v * f) && near(l.max_propellant_mass_kg, v * f * rho.max(0.0)), "wrong-limits", "{spec:?}: {l:?}");
    check!(l.usable_volume_m3 >= 0.0 && l.usable_volume_m3 <= l.geometric_volume_m3 && l.max_propellant_mass_kg >= 0.0, "wrong-limits", "{spec:?}: {l:?}");
}
fn vehicle<T: Num>() {
    probe(T::NAME);
    let n = range(2, 4) as usize;
    let mut parts: Vec<Part> = (0..n).map(|_| Part::new::<T>()).collect();
    let k = range(1, 4) as usize;
    let (mut tanks, mut shapes) = (vec![], vec![]);
    for _ in 0..k {
        let (shape, p) = tank_shape();
        tanks.push(TankMassState { shape, mass_kg: 1000.0 * unit() });
        shapes.push(p);
    }
    describe(format!("{n} parts in {} precision, {k} tanks", T::NAME));
    let mut saved = tanks.clone();
    let mut gauges: Vec<(usize, f64)> = vec![];
    for _ in 0..range(3, 24) {
        sim().mono += 1_000_000_000;
        match choose(8) {
            0 | 1 => {
                if chance(1, 6) {
                    // docked where another is, or a second of the same make
                    let (i, j) = (choose(n as u64) as usize, choose(n as u64) as usize);
                    probe("alike");
                    match choose(3) {
                        0 => parts[i].at = parts[j].at,
                        1 => parts[i].turn = parts[j].turn,
                        _ => parts[i] = Part { at: parts[i].at, ..parts[j] },
                    }
                }
                let i = choose(n as u64) as usize;
                let j = (i + 1 + choose(n as u64 - 1) as usize) % n;
                assembly::<T>(&parts[i], &parts[j], false);
                assembly::<T>(&parts[j], &parts[i], false);
            }
            2 => {
                // a cavity in a hull
                let i = choose(n as u64) as usize;
                let hull = parts[i];
                let mut hole = rounded::<T>(Part { kind: choose(3), size: hull.size.map(|s| s * (0.05 + 0.5 * unit())), turn: if chance(1, 4) { hull.turn } else { rotation() }, at: std::array::from_fn(|k| hull.at[k] + (unit() - 0.5) * 0.1 * hull.size[0]), rho: if chance(1, 2) { hull.rho } else { hull.rho * 2.0 * unit() } });
                match choose(6) {
                    0 => hole.at = hull.at,
                    1 => hole.at = [0.0; 3],
                    2 => hole.at[choose(3) as usize] = 0.0,
                    _ => {}
                }
                if chance(1, 6) {
                    hole.size = hole.size.map(|s| if chance(1, 2) { 0.0 } else { s * 4.0 });
                    hole = rounded::<T>(hole);
                }
                assembly::<T>(&hull, &hole, true);
            }
            3 => {
                probe("moved");
                let (t, by) = (rotation(), place());
                parts = parts.iter().map(|p| moved::<T>(p, &t, &by)).collect();
            }
            4 | 5 => {
                // the gauges report what is left; the newest report to arrive counts
                for _ in 0..range(1, 4) {
                    let t = choose(k as u64) as usize;
                    let m = if chance(1, 6) {
                        probe("negative_mass");
                        -unit()
                    } else {
                        tanks[t].mass_kg.abs() * unit()
                    };
                    gauges.push((t, m));
                }
                for (t, m) in deliver(&std::mem::take(&mut gauges)) {
                    probe("tank_report");
                    tanks[t].mass_kg = m;
                    tank_books(&tanks, &shapes);
                }
            }
            6 => tank_limits(),
            _ => {
                if chance(1, 2) {
                    saved = tanks.clone();
                } else {
                    hit("restored");
                    tanks = saved.clone();
                }
                tank_books(&tanks, &shapes);
            }
        }
        nontrivial();
    }
}
fn masses() {
    if chance(1, 2) {
        vehicle::<f64>()
    } else {
        vehicle::<f32>()
    }
}

// ------------------------------------------------------------------ C39
type Sq<const N: usize> = [[f64; N]; N];
fn grid<T: Num, const R: usize, const C: usize>(m: &Matrix<T, R, C>) -> [[f64; C]; R] {
    m.data.map(|r| r.map(T::val))
}
fn norm<const R: usize, const C: usize>(m: &[[f64; C]; R]) -> f64 {
    m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn big<const N: usize>(v: &[f64; N]) -> f64 {
    v.iter().fold(0.0, |a, x| a.max(x.abs()))
}
/// The exact determinant of a matrix of small integers.
fn exact_det<const N: usize>(a: &Sq<N>) -> i128 {
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let (mut prev, mut s) = (1i128, 1i128);
    for k in 0..N {
        if m[k][k] == 0 {
            match (k + 1..N).find(|&r| m[r][k] != 0) {
                Some(r) => {
                    m.swap(k, r);
                    s = -s;
                }
                None => return 0,
            }
        }
        for i in k + 1..N {
            for j in k + 1..N {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    s * prev
}
/// Inverse of a matrix of small integers by its cofactors (exact up to the last division).
fn exact_inverse<const N: usize>(a: &Sq<N>, det: i128) -> Sq<N> {
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            // cofactor of (j, i): replace row j by the unit row i
            let mut m = *a;
            m[j] = [0.0; N];
            m[j][i] = 1.0;
            exact_det(&m) as f64 / det as f64
        })
    })
}
fn solves<T: Num, const N: usize>(what: &str, a: &Sq<N>, b: &[f64; N], x: &Vector<T, N>) {
    let x = x.data.map(T::val);
    check!(x.iter().all(|v| v.is_finite()), "not-finite", "{what}: {a:?} · {x:?} = {b:?}");
    let grow = (1u64 << (N - 1)) as f64;
    let tol = 32.0 * (N * N) as f64 * grow * T::E * (norm(a) * big(&x) + big(b));
    for i in 0..N {
        let r: f64 = (0..N).map(|k| a[i][k] * x[k]).sum::<f64>() - b[i];
        check!(r.abs() <= tol, "not-a-solution", "{what}: {a:?} times {x:?} is {r:e} (allowed {tol:e}) off {b:?} in row {i}");
    }
}
/// Every way of solving one system of small integers.
fn solve_all<T: Num, const N: usize>(a: &Sq<N>, b: &[f64; N]) {
    let m = Matrix::<T, N, N>::new(a.map(|r| r.map(T::of)));
    let v = Vector::<T, N>::new(b.map(T::of));
    let det = exact_det(a);
    let grow = (1u64 << (N - 1)) as f64;
    let slack = 32.0 * (N * N) as f64 * grow * T::E;
    let inv = (det != 0).then(|| exact_inverse(a, det));
    let kappa = inv.as_ref().map_or(f64::INFINITY, |i| norm(a) * norm(i));
    let easy = kappa <= T::KAPPA;
    ev(|| format!("{N} unknowns, determinant {det}, right {b:?}"));
    if det == 0 {
        probe("unobservable");
    }
    // determinant
    let g = call("determinant", || m.determinant()).val();
    probe(if det == 0 { "zero_determinant" } else { "determinant" });
    let hadamard: f64 = a.iter().map(|r| r.iter().map(|x| x * x).sum::<f64>().sqrt().max(1.0)).product();
    let tol = slack * hadamard;
    check!((g - det as f64).abs() <= tol, "wrong-determinant", "determinant {g} of {a:?}, expected {det}");
    // LU
    let lu = call("lu_decompose", || m.lu_decompose());
    match &lu {
        None => check!(!easy, "refused", "lu_decompose refuses {a:?} (condition {kappa:e})"),
        Some(d) => {
            probe("lu");
            let mut seen = [false; N];
            d.piv.iter().for_each(|&p| {
                if p < N {
                    seen[p] = true
                }
            });
            check!(seen.iter().all(|&s| s), "not-a-permutation", "lu_decompose of {a:?}: pivots {:?}", d.piv);
            let mut parity = 1i8;
            for i in 0..N {
                for j in i + 1..N {
                    if d.piv[i] > d.piv[j] {
                        parity = -parity;
                        probe("pivoted");
                    }
                }
            }
            check!(parity == d.sign, "wrong-sign", "lu_decompose of {a:?}: pivots {:?} with sign {}", d.piv, d.sign);
            let l = grid(&d.lu);
            let tol = slack * norm(a);
            for i in 0..N {
                for j in 0..N {
                    let p: f64 = (0..=i.min(j)).map(|k| if k == i { l[k][j] } else { l[i][k] * l[k][j] }).sum();
                    check!((p - a[d.piv[i]][j]).abs() <= tol, "not-a-factorisation", "lu_decompose of {a:?}: {d:?} (row {i}, column {j})");
                }
            }
            let x = call("LuDecomp::solve", || d.solve(&v));
            solves("LuDecomp::solve", a, b, &x);
        }
    }
    match call("solve", || m.solve(&v)) {
        None => check!(!easy && lu.is_none(), "refused", "solve refuses {a:?} (condition {kappa:e})"),
        Some(x) => {
            solves("solve", a, b, &x);
            if easy && kappa * slack < 1e-2 {
                let inv = inv.as_ref().unwrap();
                for i in 0..N {
                    let w: f64 = (0..N).map(|k| inv[i][k] * b[k]).sum();
                    let tol = 4.0 * slack * kappa * (norm(inv) * big(b));
                    check!((x[i].val() - w).abs() <= tol, "wrong-solution", "solve {a:?} · x = {b:?}: {x:?}, expected {w} at {i}");
                }
                probe("solved");
            }
        }
    }
    // many right-hand sides
    let rhs: [[f64; 3]; N] = std::array::from_fn(|i| [b[i], choose(9) as f64 - 4.0, if i == 0 { 1.0 } else { 0.0 }]);
    match call("solve_multi", || m.solve_multi(&Matrix::<T, N, 3>::new(rhs.map(|r| r.map(T::of))))) {
        None => check!(!easy, "refused", "solve_multi refuses {a:?} (condition {kappa:e})"),
        Some(x) => {
            probe("many");
            for c in 0..3 {
                solves("solve_multi", a, &std::array::from_fn(|i| rhs[i][c]), &Vector::<T, N>::new(std::array::from_fn(|i| x[(i, c)])));
            }
        }
    }
    // inverse
    match call("inverse_gauss_jordan", || m.inverse_gauss_jordan()) {
        None => check!(!easy, "refused", "inverse_gauss_jordan refuses {a:?} (condition {kappa:e})"),
        Some(x) => inverts("inverse_gauss_jordan", a, &grid(&x), inv.as_ref(), kappa * slack),
    }
    // Cholesky
    let symmetric = (0..N).all(|i| (0..N).all(|j| a[i][j] == a[j][i]));
    if symmetric {
        match call("cholesky_lower", || m.cholesky_lower()) {
            None => {
                let positive = (1..=N).all(|k| {
                    let mut p = [[0.0; N]; N];
                    for i in 0..N {
                        for j in 0..N {
                            p[i][j] = if i < k && j < k { a[i][j] } else if i == j { 1.0 } else { 0.0 };
                        }
                    }
                    exact_det(&p) > 0
                });
                check!(!(positive && easy), "refused", "cholesky_lower refuses {a:?} (condition {kappa:e})");
            }
            Some(d) => {
                probe("cholesky");
                check!((0..N).all(|i| a[i][i] > 0.0), "not-positive", "cholesky_lower accepts {a:?}");
                let l = grid(&d.l);
                let tol = slack * norm(a);
                for i in 0..N {
                    check!(l[i][i] > 0.0 && (i + 1..N).all(|j| l[i][j] == 0.0), "not-triangular", "cholesky_lower of {a:?}: {l:?}");
                    for j in 0..N {
                        let p: f64 = (0..N).map(|k| l[i][k] * l[j][k]).sum();
                        check!((p - a[i][j]).abs() <= tol, "not-a-factorisation", "cholesky_lower of {a:?}: {l:?}");
                    }
                }
                solves("CholLower::solve", a, b, &call("CholLower::solve", || d.solve(&v)));
                if let Some(x) = call("cholesky_solve", || m.cholesky_solve(&v)) {
                    solves("cholesky_solve", a, b, &x);
                } else {
                    violation("refused", &format!("cholesky_solve refuses {a:?}"));
                }
            }
        }
    }
}
fn inverts<const N: usize>(what: &str, a: &Sq<N>, x: &Sq<N>, inv: Option<&Sq<N>>, err: f64) {
    let Some(w) = inv else { return };
    if err >= 1e-2 {
        return;
    }
    probe("inverse");
    let tol = 4.0 * err * norm(w);
    for i in 0..N {
        for j in 0..N {
            check!((x[i][j] - w[i][j]).abs() <= tol, "wrong-inverse", "{what} of {a:?}: {x:?}, expected {w:?}");
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Row<const N: usize> {
    id: usize,
    h: [f64; N],
    z: f64,
    w: f64,
}
#[derive(Clone, Debug)]
struct Estimator<T: Num, const N: usize> {
    info: Matrix<T, N, N>,
    vec: Vector<T, N>,
    seen: Vec<usize>,
}
fn small() -> f64 {
    choose(9) as f64 - 4.0
}
fn estimator<T: Num, const N: usize>() {
    probe(T::NAME);
    describe(format!("{N} unknowns in {} precision", T::NAME));
    let truth: [f64; N] = std::array::from_fn(|_| small());
    let rows: Vec<Row<N>> = (0..range(1, 14) as usize)
        .map(|id| {
            let mut h: [f64; N] = std::array::from_fn(|_| if chance(1, 3) { 0.0 } else { small() });
            if chance(1, 4) {
                h = [0.0; N];
                h[choose(N as u64) as usize] = 1.0;
            }
            Row { id, h, z: (0..N).map(|k| h[k] * truth[k]).sum(), w: range(1, 3) as f64 }
        })
        .collect();
    let mut est: Vec<Estimator<T, N>> = vec![Estimator { info: call("zeros", Matrix::zeros), vec: Vector::new([T::ZERO; N]), seen: vec![] }; 2];
    let mut saved: Vec<Option<Estimator<T, N>>> = vec![None; 2];
    for _ in 0..range(2, 8) {
        let k = choose(2) as usize;
        sim().mono += 100_000_000;
        match choose(5) {
            0 | 1 => {
                let from = choose(rows.len() as u64) as usize;
                for r in deliver(&rows[from..]) {
                    // a duplicate, told by its number, is not news
                    if est[k].seen.contains(&r.id) {
                        continue;
                    }
                    let h = Vector::<T, N>::new(r.h.map(T::of));
                    let e = &mut est[k];
                    call("adding a row", || {
                        e.info = e.info + Matrix::outer(&h, &h) * T::of(r.w);
                        e.vec = e.vec + h * T::of(r.z * r.w);
                    });
                    e.seen.push(r.id);
                }
            }
            2 => {
                // the other one's sum, if nothing in it is known here yet
                let o = est[1 - k].clone();
                if o.seen.iter().all(|i| !est[k].seen.contains(i)) {
                    probe("merged");
                    let e = &mut est[k];
                    call("merging", || {
                        e.info = e.info + o.info;
                        e.vec = e.vec + o.vec;
                    });
                    e.seen.extend(o.seen);
                }
            }
            3 => saved[k] = Some(est[k].clone()),
            _ => {
                if let Some(s) = &saved[k] {
                    hit("restored");
                    est[k] = s.clone();
                }
            }
        }
        // whole numbers: the sums are exact, in any order
        let (mut a, mut b) = ([[0.0; N]; N], [0.0; N]);
        for &id in &est[k].seen {
            let r = &rows[id];
            for i in 0..N {
                b[i] += r.w * r.h[i] * r.z;
                for j in 0..N {
                    a[i][j] += r.w * r.h[i] * r.h[j];
                }
            }
        }
        check!(grid(&est[k].info) == a && est[k].vec.data.map(T::val) == b, "wrong-sum", "information {:?} and {:?} from {:?}, expected {a:?} and {b:?}", est[k].info, est[k].vec, est[k].seen);
        let m = est[k].info;
        ev(|| format!("estimator {k}: reports {:?}", est[k].seen));
        check!(call("transpose", || m.transpose()) == m, "wrong-transpose", "{m:?} is symmetric, its transpose {:?}", m.transpose());
        let t = call("trace", || m.trace()).val();
        check!(t == (0..N).map(|i| a[i][i]).sum::<f64>(), "wrong-trace", "trace {t} of {a:?}");
        let t = call("max_abs", || m.max_abs()).val();
        check!(t == a.iter().map(|r| big(r)).fold(0.0, f64::max), "wrong-max", "max_abs {t} of {a:?}");
        solve_all::<T, N>(&a, &b);
        nontrivial();
    }
    general::<T, N>();
    statistics::<T, N>();
}
/// A system as it comes: unsymmetric, permuted, dependent or indefinite.
fn general<T: Num, const N: usize>() {
    let mut a: Sq<N> = std::array::from_fn(|_| std::array::from_fn(|_| if chance(1, 3) { 0.0 } else { small() }));
    match choose(6) {
        0 => {
            // rows in another order than the unknowns
            a = [[0.0; N]; N];
            let mut p: Vec<usize> = (0..N).collect();
            for i in 0..N {
                let j = choose(p.len() as u64) as usize;
                a[i][p.remove(j)] = 1.0 + choose(3) as f64;
            }
        }
        1 if N > 1 => {
            let (i, j) = (choose(N as u64) as usize, choose(N as u64) as usize);
            a[i] = if i == j { [0.0; N] } else { a[j].map(|x| 2.0 * x) };
        }
        2 => {
            probe("indefinite");
            for i in 0..N {
                for j in 0..i {
                    a[i][j] = a[j][i];
                }
            }
            let i = choose(N as u64) as usize;
            a[i][i] = -1.0 - choose(3) as f64;
        }
        3 => (0..N).for_each(|i| a[i][i] = 0.0),
        _ => {}
    }
    let b = std::array::from_fn(|_| small());
    solve_all::<T, N>(&a, &b);
    let m = Matrix::<T, N, N>::new(a.map(|r| r.map(T::of)));
    let t = grid(&call("transpose", || m.transpose()));
    check!((0..N).all(|i| (0..N).all(|j| t[i][j] == a[j][i])), "wrong-transpose", "{a:?}: {t:?}");
    let n = grid(&call("negation", || -m));
    check!(n == a.map(|r| r.map(|x| -x)), "wrong-sum", "-{a:?}: {n:?}");
    let n = grid(&call("difference", || m - m.transpose()));
    check!((0..N).all(|i| (0..N).all(|j| n[i][j] == a[i][j] - a[j][i])), "wrong-sum", "{a:?} less its transpose: {n:?}");
    let n = grid(&call("identity", || m * Matrix::identity() / T::of(2.0)));
    check!(n == a.map(|r| r.map(|x| x / 2.0)), "wrong-sum", "half of {a:?}: {n:?}");
    let d = grid(&call("diag", || if chance(1, 2) { Matrix::<T, N, N>::diag(&b.map(T::of)) } else { Matrix::<T, N, N>::diag_from_vector(&Vector::new(b.map(T::of))) }));
    check!((0..N).all(|i| (0..N).all(|j| d[i][j] == if i == j { b[i] } else { 0.0 })), "wrong-diagonal", "{b:?}: {d:?}");
}
fn inverse3<T: Num>() {
    let a: Sq<3> = std::array::from_fn(|_| std::array::from_fn(|_| small()));
    let m = Matrix::<T, 3, 3>::new(a.map(|r| r.map(T::of)));
    let det = exact_det(&a);
    let slack = 1024.0 * T::E;
    let inv = (det != 0).then(|| exact_inverse(&a, det));
    let kappa = inv.as_ref().map_or(f64::INFINITY, |i| norm(&a) * norm(i));
    match call("inverse", || m.inverse()) {
        None => check!(kappa > T::KAPPA, "refused", "inverse refuses {a:?} (condition {kappa:e})"),
        Some(x) => {
            probe("inverse3");
            inverts("inverse", &a, &grid(&x), inv.as_ref(), kappa * slack)
        }
    }
}
fn statistics<T: Num, const N: usize>() {
    probe("statistics");
    let scale = pick(&[1.0, 0.25, 1024.0]);
    let constant = chance(1, 6);
    // readings far from zero: their spread must not drown in their size
    let far = if chance(1, 3) {
        probe("far_from_zero");
        sign() * pick(&[64.0, 4096.0])
    } else {
        0.0
    };
    let sent: Vec<[f64; N]> = (0..choose(12)).map(|_| std::array::from_fn(|k| (far + if constant && k == 0 { 3.0 } else { small() }) * scale)).collect();
    let got = deliver(&sent);
    let n = got.len();
    let samples: Vec<Vector<T, N>> = got.iter().map(|s| Vector::new(s.map(T::of))).collect();
    // means and covariances do not depend on the order of arrival
    let mean: [f64; N] = std::array::from_fn(|k| got.iter().map(|s| s[k]).sum::<f64>() / n as f64);
    let want: Sq<N> = std::array::from_fn(|i| std::array::from_fn(|j| got.iter().map(|s| (s[i] - mean[i]) * (s[j] - mean[j])).sum::<f64>() / (n as f64 - 1.0)));
    let tol = n as f64 * T::E * scale * (64.0 + 4.0 * far.abs());
    ev(|| format!("{n} samples, mean {mean:?}"));
    match call("mean", || cov::mean(&samples)) {
        Err(e) => check!(n == 0 && e == cov::CovarianceError::EmptySamples, "refused", "mean of {n} samples: {e:?}"),
        Ok(m) => {
            check!(n > 0, "no-error", "mean of nothing: {m:?}");
            check!((0..N).all(|k| (m[k].val() - mean[k]).abs() <= tol), "wrong-mean", "mean {m:?} of {got:?}, expected {mean:?}");
        }
    }
    let few = |e: cov::CovarianceError| {
        probe("too_few");
        check!(n < 2 && e == if n == 0 { cov::CovarianceError::EmptySamples } else { cov::CovarianceError::InsufficientSamples }, "refused", "covariance of {n} samples: {e:?}");
    };
    let c = match call("sample_covariance", || cov::sample_covariance(&samples)) {
        Err(e) => return few(e),
        Ok(c) => c,
    };
    check!(n >= 2, "no-error", "covariance of {n} samples: {c:?}");
    let tol2 = 16.0 * tol * scale;
    let g = grid(&c);
    check!((0..N).all(|i| (0..N).all(|j| (g[i][j] - want[i][j]).abs() <= tol2)), "wrong-covariance", "covariance {g:?} of {got:?}, expected {want:?}");
    let ys: Vec<Vector<T, 2>> = got.iter().map(|s| Vector::new([T::of(s[0]), T::of(s[N - 1])])).collect();
    match call("sample_cross_covariance", || cov::sample_cross_covariance(&samples, &ys)) {
        Err(e) => violation("refused", &format!("cross covariance of {n} samples: {e:?}")),
        Ok(x) => {
            let x = grid(&x);
            check!((0..N).all(|i| (x[i][0] - want[i][0]).abs() <= tol2 && (x[i][1] - want[i][N - 1]).abs() <= tol2), "wrong-covariance", "cross covariance {x:?} of {got:?}, expected columns of {want:?}");
        }
    }
    check!(call("sample_cross_covariance", || cov::sample_cross_covariance(&samples, &ys[1..])) == Err(cov::CovarianceError::SampleCountMismatch), "no-error", "cross covariance of {n} and {} samples", n - 1);
    match call("standard deviations", || cov::standard_deviations_from_covariance(&c)) {
        Err(e) => {
            probe("constant_axis");
            check!(e == cov::CovarianceError::ZeroVarianceAxis && (0..N).any(|i| g[i][i] <= T::E), "refused", "{g:?}: {e:?}");
            check!(call("correlation", || cov::correlation_from_covariance(&c)).is_err(), "no-error", "correlation of {g:?}");
        }
        Ok(s) => {
            check!((0..N).all(|i| g[i][i] > 0.0 && (s[i].val() - g[i][i].sqrt()).abs() <= 4.0 * T::E * s[i].val()), "wrong-deviation", "{g:?}: {s:?}");
            let r = match call("correlation", || cov::correlation_from_covariance(&c)) {
                Ok(r) => r,
                Err(e) => violation("refused", &format!("correlation of {g:?}: {e:?}")),
            };
            let q = grid(&r);
            let back = grid(&call("covariance_from_correlation", || cov::covariance_from_correlation(&r, &s)));
            for i in 0..N {
                for j in 0..N {
                    let d = (g[i][i] * g[j][j]).sqrt();
                    check!((q[i][j] * d - g[i][j]).abs() <= 32.0 * T::E * d && q[i][j].abs() <= 1.0 + tol2 / d + 32.0 * T::E, "wrong-correlation", "{g:?}: {q:?}");
                    check!((back[i][j] - g[i][j]).abs() <= 32.0 * T::E * d, "wrong-correlation", "{g:?} by way of {q:?}: {back:?}");
                }
            }
        }
    }
}
fn density<T: Num, const N: usize>() {
    // a covariance of whole numbers: L·Lᵀ with a unit diagonal has determinant one times the squares
    let l: Sq<N> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 + choose(3) as f64 } else if j < i { choose(3) as f64 - 1.0 } else { 0.0 }));
    let c: Sq<N> = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| l[i][k] * l[j][k]).sum()));
    let det: f64 = (0..N).map(|i| l[i][i] * l[i][i]).product();
    let inv = exact_inverse(&c, exact_det(&c));
    let (mu, x): ([f64; N], [f64; N]) = (std::array::from_fn(|_| small()), std::array::from_fn(|_| small()));
    let d: [f64; N] = std::array::from_fn(|i| x[i] - mu[i]);
    let q: f64 = (0..N).map(|i| (0..N).map(|j| d[i] * inv[i][j] * d[j]).sum::<f64>()).sum();
    let kappa = norm(&c) * norm(&inv);
    let err = 256.0 * (N * N) as f64 * T::E * kappa * (1.0 + norm(&inv) * big(&d) * big(&d) * N as f64);
    if q > 40.0 || err > 1e-2 {
        return;
    }
    probe("density");
    let dist = MultivariateNormal::<T, N>::new(Vector::new(mu.map(T::of)), Matrix::new(c.map(|r| r.map(T::of))));
    let g = call("pdf", || dist.pdf(&Vector::new(x.map(T::of)))).val();
    let want = (-q / 2.0).exp() / ((2.0 * PI).powi(N as i32) * det).sqrt();
    check!((g - want).abs() <= err * want, "wrong-density", "pdf {g} at {x:?} of mean {mu:?}, covariance {c:?}, expected {want}");
}
fn vectors<T: Num>() {
    let (a, b): (V, V) = (std::array::from_fn(|_| small()), std::array::from_fn(|_| small()));
    let (x, y) = (Vector::<T, 3>::new(a.map(T::of)), Vector::<T, 3>::new(b.map(T::of)));
    let c = call("cross", || x.cross(&y)).data.map(T::val);
    check!(c == [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], "wrong-product", "{a:?} x {b:?}: {c:?}");
    check!(call("dot", || x.dot(&y)).val() == dot(&a, &b), "wrong-product", "{a:?} . {b:?}");
    let (n, want) = (call("norm", || if chance(1, 2) { x.norm() } else { x.magnitude() }).val(), len(&a));
    check!((n - want).abs() <= 4.0 * T::E * want, "wrong-norm", "{a:?}: {n}");
    let (u, m) = call("try_normalize", || x.try_normalize());
    let u = u.data.map(T::val);
    check!((m.val() - want).abs() <= 4.0 * T::E * want && (0..3).all(|i| (u[i] * if want == 0.0 { 1.0 } else { want } - a[i]).abs() <= 16.0 * T::E * want), "wrong-norm", "try_normalize {a:?}: {u:?}, {m:?}");
    if want > 0.0 {
        let u = call("normalize", || x.normalize()).data.map(T::val);
        check!((0..3).all(|i| (u[i] * want - a[i]).abs() <= 16.0 * T::E * want), "wrong-norm", "normalize {a:?}: {u:?}");
    }
    let g = call("angle", || x.angle(&y)).val();
    let want = if want == 0.0 || len(&b) == 0.0 { 0.0 } else { len(&c).atan2(dot(&a, &b)) };
    // the arc cosine loses half the digits where the vectors are nearly in line
    let tol = 64.0 * T::E / want.sin().abs().max(T::E.sqrt());
    check!((g - want).abs() <= tol, "wrong-angle", "angle {g} between {a:?} and {b:?}, expected {want}");
}
fn estimates() {
    macro_rules! with {
        ($t:ty) => {{
            match choose(5) {
                0 => estimator::<$t, 1>(),
                1 => estimator::<$t, 2>(),
                2 => estimator::<$t, 3>(),
                3 => estimator::<$t, 4>(),
                _ => estimator::<$t, 6>(),
            }
            inverse3::<$t>();
            vectors::<$t>();
            match choose(3) {
                0 => density::<$t, 1>(),
                1 => density::<$t, 2>(),
                _ => density::<$t, 3>(),
            }
        }};
    }
    if chance(1, 2) {
        with!(f64)
    } else {
        with!(f32)
    }
}

// ------------------------------------------------------------------ C40
/// Second derivatives of the natural spline, by elimination over the whole system.
fn natural(xs: &[f64], ys: &[f64]) -> Vec<f64> {
    let n = xs.len();
    let mut a = vec![vec![0.0; n + 1]; n];
    a[0][0] = 1.0;
    a[n - 1][n - 1] = 1.0;
    for i in 1..n - 1 {
        let (h0, h1) = (xs[i] - xs[i - 1], xs[i + 1] - xs[i]);
        a[i][i - 1] = h0 / 6.0;
        a[i][i] = (h0 + h1) / 3.0;
        a[i][i + 1] = h1 / 6.0;
        a[i][n] = (ys[i + 1] - ys[i]) / h1 - (ys[i] - ys[i - 1]) / h0;
    }
    for k in 0..n {
        for r in k + 1..n {
            let f = a[r][k] / a[k][k];
            if f != 0.0 {
                for c in k..=n {
                    let d = f * a[k][c];
                    a[r][c] -= d;
                }
            }
        }
    }
    let mut m = vec![0.0; n];
    for k in (0..n).rev() {
        let s: f64 = (k + 1..n).map(|c| a[k][c] * m[c]).sum();
        m[k] = (a[k][n] - s) / a[k][k];
    }
    m
}
fn queries(xs: &[f64]) -> Vec<f64> {
    let (lo, hi) = (xs.iter().fold(f64::MAX, |a, &b| a.min(b)), xs.iter().fold(f64::MIN, |a, &b| a.max(b)));
    let w = (hi - lo).max(1.0);
    (0..range(2, 8))
        .map(|_| {
            let x = xs[choose(xs.len() as u64) as usize];
            match choose(5) {
                0 => {
                    probe("knot");
                    x
                }
                1 => {
                    probe("near_knot");
                    x + sign() * w * 10f64.powf(-10.0 * unit() - 2.0)
                }
                2 => {
                    probe("outside");
                    if chance(1, 2) {
                        lo - w * unit()
                    } else {
                        hi + w * unit()
                    }
                }
                _ => {
                    probe("between");
                    lo + (hi - lo) * unit()
                }
            }
        })
        .collect()
}
fn spline<const N: usize>(pts: &[(f64, f64)]) {
    let xs: [f64; N] = std::array::from_fn(|i| pts[i].0);
    let ys: [f64; N] = std::array::from_fn(|i| pts[i].1);
    let ordered = xs.windows(2).all(|w| w[0] < w[1]);
    let s = match call("CubicSpline::new", || CubicSpline::new(Vector::new(xs), Vector::new(ys))) {
        Err(e) => {
            probe("refused");
            check!(N < 2 || !ordered, "refused", "{xs:?}: {e}");
            return;
        }
        Ok(s) => s,
    };
    check!(N >= 2 && ordered, "no-error", "a spline through {xs:?}");
    probe("spline");
    check!(call("sample_count", || s.sample_count()) == N, "wrong-count", "{} samples of {N}", s.sample_count());
    let m = natural(&xs, &ys);
    for x in queries(&xs) {
        let i = (0..N - 1).rev().find(|&i| xs[i] <= x).unwrap_or(0);
        let h = xs[i + 1] - xs[i];
        let (a, b) = ((xs[i + 1] - x) / h, (x - xs[i]) / h);
        let want = a * ys[i] + b * ys[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6.0;
        let g = call("evaluate", || s.evaluate(x));
        ev(|| format!("spline of {N}: {x:.6} {g:.5e}"));
        // the curvature is only as good as the differences it is made of
        let (c, d) = (a.abs() + b.abs(), (a.abs().powi(3) + b.abs().powi(3) + 1.0) * h * h);
        let dx = xs.iter().fold(0.0f64, |p, q| p.max(q.abs())) * f64::EPSILON;
        let hmin = xs.windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        let mm = m.iter().fold(0.0f64, |p, q| p.max(q.abs()));
        let ym = big(&ys);
        let tol = 256.0 * f64::EPSILON * (ym * c + d * (mm + ym / (hmin * hmin))) + 64.0 * dx / hmin * (ym * c + d * mm);
        check!((g - want).abs() <= tol, "wrong-value", "spline through {xs:?}, {ys:?} at {x}: {g}, expected {want} (within {tol:e})");
    }
}
fn polynomial<const N: usize>(pts: &[(f64, f64)], law: &[f64]) {
    let xs: [f64; N] = std::array::from_fn(|i| pts[i].0);
    let ys: [f64; N] = std::array::from_fn(|i| pts[i].1);
    let distinct = (0..N).all(|i| (0..i).all(|j| xs[i] != xs[j]));
    let p = match call("PolynomialInterpolator::new", || PolynomialInterpolator::new(Vector::new(xs), Vector::new(ys))) {
        Err(e) => {
            probe("refused");
            check!(N == 0 || !distinct, "refused", "{xs:?}: {e}");
            return;
        }
        Ok(p) => p,
    };
    check!(N > 0 && distinct, "no-error", "a polynomial through {xs:?}");
    probe("polynomial");
    check!(call("degree", || p.degree()) == N - 1, "wrong-count", "degree {} of {N}", p.degree());
    for x in queries(&xs) {
        let g = call("evaluate", || p.evaluate(x));
        ev(|| format!("polynomial of {N}: {x:.6} {g:.5e}"));
        if let Some(i) = xs.iter().position(|&k| k == x) {
            check!((g - ys[i]).abs() <= 8.0 * f64::EPSILON * ys[i].abs(), "missed-sample", "polynomial through {xs:?}, {ys:?} at {x}: {g}");
            continue;
        }
        let (mut want, mut sum, mut leb) = (0.0, 0.0, 0.0);
        for i in 0..N {
            let l: f64 = (0..N).filter(|&j| j != i).map(|j| (x - xs[j]) / (xs[i] - xs[j])).product();
            want += l * ys[i];
            sum += (l * ys[i]).abs();
            leb += l.abs();
        }
        let near = xs.iter().map(|k| (x - k).abs()).fold(f64::MAX, f64::min);
        let gap = (0..N).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (xs[i] - xs[j]).abs()).fold(f64::MAX, f64::min);
        // within one rounding of a sample the value is the sample's
        let snap = if near <= f64::EPSILON { 8.0 * near / gap * leb * big(&ys) } else { 0.0 };
        let tol = 64.0 * (N as f64 + 1.0) * f64::EPSILON * (sum + want.abs() * leb) + snap;
        check!((g - want).abs() <= tol, "wrong-value", "polynomial through {xs:?}, {ys:?} at {x}: {g}, expected {want} (within {tol:e})");
        if law.len() <= N {
            probe("recovered");
            let w = law.iter().rev().fold(0.0, |a, c| a * x + c);
            let mag = law.iter().rev().fold(0.0, |a, c| a * x.abs().max(big(&xs)) + c.abs());
            let tol = tol + 64.0 * N as f64 * f64::EPSILON * mag * leb;
            check!((g - w).abs() <= tol, "not-recovered", "polynomial through samples of {law:?} at {xs:?}, at {x}: {g}, expected {w} (within {tol:e})");
        }
    }
}
fn curves() {
    // a signal, sampled at uneven times
    let law: Vec<f64> = (0..range(1, 5)).map(|_| small()).collect();
    let mut t = small();
    let noise = chance(1, 2);
    let sent: Vec<(f64, f64)> = (0..range(2, 14))
        .map(|_| {
            t += match choose(3) {
                0 => 1.0,
                1 => 0.01 + unit(),
                _ => 10f64.powf(3.0 * unit() - 2.5),
            };
            let y = law.iter().rev().fold(0.0, |a, c| a * t + c);
            (t, if noise { sign() * 100.0 * unit() } else { y })
        })
        .collect();
    let law = if noise { vec![0.0; 99] } else { law };
    describe(format!("{} samples, {}", sent.len(), if noise { "noise".to_string() } else { format!("polynomial {law:?}") }));
    for _ in 0..range(1, 4) {
        sim().mono += 1_000_000_000;
        let mut got = deliver(&sent);
        let raw = chance(1, 8);
        if !raw {
            // the receiver drops duplicates; a polynomial takes the samples in any order
            let mut seen: Vec<(f64, f64)> = vec![];
            got.retain(|p| {
                let new = !seen.contains(p);
                seen.push(*p);
                new
            });
        }
        let mut sorted = got.clone();
        if !raw {
            sorted.sort_by(|a, b| a.0.total_cmp(&b.0));
        }
        macro_rules! sized {
            ($($n:literal)*) => {
                match got.len() {
                    $($n => {
                        spline::<$n>(&sorted);
                        polynomial::<$n>(&got, &law);
                    })*
                    _ => {
                        spline::<9>(&sorted);
                        polynomial::<8>(&got, &law);
                    }
                }
            };
        }
        sized!(0 1 2 3 4 5 6 7 8);
        let [a, b, v] = [100.0 * (unit() - 0.5), 100.0 * (unit() - 0.5), 100.0 * (unit() - 0.5)];
        let [c, d, s] = [100.0 * (unit() - 0.5), 100.0 * (unit() - 0.5), 2.0 * unit() - 0.5];
        probe("lerp");
        let e = 16.0 * f64::EPSILON;
        let g = call("lerp", || lerp(a, b, s));
        check!((g - (a * (1.0 - s) + b * s)).abs() <= e * (a.abs() + b.abs()) * (1.0 + s.abs()), "wrong-value", "lerp({a}, {b}, {s}) = {g}");
        let w = call("lerp", || lerp(Vector::new([a, c]), Vector::new([b, d]), s));
        let want = [a + (b - a) * s, c + (d - c) * s];
        check!((0..2).all(|i| (w[i] - want[i]).abs() <= e * 100.0 * (1.0 + s.abs())), "wrong-value", "lerp of vectors: {w:?}, expected {want:?}");
        let g = call("inverse_lerp", || inverse_lerp(a, b, v));
        let width = (b - a).abs();
        if width > 1e-6 {
            check!((g * (b - a) - (v - a)).abs() <= e * (v.abs() + a.abs() + b.abs()) * (1.0 + g.abs()), "wrong-value", "inverse_lerp({a}, {b}, {v}) = {g}");
            let r = call("remap", || remap(v, a, b, c, d));
            let q = (v - a) / (b - a);
            check!((r - (c + (d - c) * q)).abs() <= e * (c.abs() + d.abs()) * (1.0 + q.abs()) * (1.0 + (a.abs() + b.abs() + v.abs()) / width), "wrong-value", "remap({v}, {a}, {b}, {c}, {d}) = {r}");
        }
        check!(call("inverse_lerp", || inverse_lerp(a, a, v)) == 0.0, "wrong-value", "inverse_lerp over an empty range");
        nontrivial();
    }
}
