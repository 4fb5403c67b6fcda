//! C35–C37: attitudes, positions and cameras that travel between nodes and change notation and frame on the way.
use super::Prop;
use crate::check;
use crate::sim::*;
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion, Rotation};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{transforms, Body, ReferenceFrame, RotatingFrame, ICRF, ITRF, NED};
use aether_core::utils::angle_conversion::{ToDegrees, ToRadians};
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::{look_at, translate};
use aether_models::lunar::moon::Moon;
use aether_models::lunar::transforms as luna;
use aether_models::lunar::{LIRF, LTRF};
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::transforms as wgs84;
use std::f64::consts::PI;

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", run: || {}, quick: 250_000, thorough: 6_000_000, rule: "", want: &[], real: &[], stub: &[], assume: &[] };
    vec![
        Prop { id: "C35", run: attitudes,
            rule: "Two to four simulated vehicles keep their attitude in different notations and precisions, turn at generated rates under jittery, late and repeated ticks, send attitudes through a network that loses, duplicates and reorders, compose them with mountings and with each other's, invert them, convert them to other notations at every hop (gimbal lock and half turns included), and crash and restart from saved copies. Every step is compared with independent rotation matrices, and every vehicle with the exact rotation its whole history amounts to.",
            want: &["delivered", "message_lost", "message_duplicated", "message_reordered", "restored", "composed_q", "composed_d", "composed_r", "inverted", "q_to_d", "q_to_e", "d_to_q", "d_to_e", "e_to_q", "e_to_d", "rotation", "degrees", "gimbal", "half_turn", "small_trace", "scaled", "negated", "vector", "turned", "turned_taylor", "accelerating", "late_tick", "single", "double"],
            real: &["aether_core::attitude (quaternion, dcm, euler, rotation)", "aether_core::coordinate::Cartesian"],
            stub: &["the vehicles, their gyros and clocks, and the network"],
            assume: &["direction cosine matrices are rotations up to rounding", "one Taylor step turns less than half a radian"], ..base },
        Prop { id: "C36", run: positions,
            rule: "Vehicles and stations on the Earth, on the Moon and in space exchange stamped position reports through a network that delays, loses, duplicates and reorders; every hop decodes a report (Cartesian, spherical, cylindrical or geodetic), carries it to another frame at the stamped time and encodes it again. Every hop is compared with independent formulas and the far end with the true position; local frames, forces and flow angles are checked along the way.",
            want: &["message_lost", "message_duplicated", "message_reordered", "delayed", "end_to_end", "icrf_itrf", "itrf_icrf", "icrf_lirf", "lirf_icrf", "lirf_ltrf", "ltrf_lirf", "icrf_ltrf", "ltrf_icrf", "epoch", "spherical", "cylindrical", "geodetic", "ferrari", "pole", "axis", "ned", "orientation", "force", "flow", "single", "double"],
            real: &["aether_core::coordinate", "aether_core::reference_frame", "aether_models (earth, moon, wgs84 transforms)"],
            stub: &["the vehicles and stations, their clocks, and the network"],
            assume: &["geodetic heights between 100 km below the ellipsoid and 100,000 km above it"], ..base },
        Prop { id: "C37", run: cameras,
            rule: "A camera receives a generated history of drags, turns, resets, zooms and pans through an input queue that loses, duplicates, reorders and coalesces events; drags of zero, tiny and thousands of pixels, over the poles, in two precisions, with crashes and restarts from saved copies. After every event the view direction must be the one the event leads to, the axes a right-angled unit set, the eye on its sphere and the view matrix a rigid motion.",
            want: &["set", "orbit", "orbit_pixels", "world", "world_pixels", "near_pole", "over_the_pole", "huge_drag", "event_lost", "event_duplicated", "event_reordered", "coalesced", "restored", "view", "single", "double"],
            real: &["aether_graphics (orbit_camera, look_at, translate)", "aether_core::attitude::Quaternion"],
            stub: &["the user's mouse and the window system's event queue"],
            assume: &["the camera is farther from its target than a thousandth of their distances from the origin"], ..base },
    ]
}

// ------------------------------------------------------------------ arithmetic of the reference
type M = [[f64; 3]; 3];
type V = [f64; 3];
const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn tr(a: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn app(a: &M, v: &V) -> V {
    std::array::from_fn(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn dist(a: &M, b: &M) -> f64 {
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            s += (a[i][j] - b[i][j]).powi(2);
        }
    }
    s.sqrt()
}
fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: &V) -> f64 {
    dot(a, a).sqrt()
}
fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn times(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
/// The coordinates of fixed things after the axes have turned by `angle` about x, y or z.
fn turn(axis: usize, angle: f64) -> M {
    let (s, c) = angle.sin_cos();
    let (j, k) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut m = ID;
    m[j][j] = c;
    m[k][k] = c;
    m[j][k] = s;
    m[k][j] = -s;
    m
}
/// The same for any axis, given times the angle.
fn turn_by(w: &V) -> M {
    let t = len(w);
    if t == 0.0 {
        return ID;
    }
    let a = times(w, 1.0 / t);
    let (s, c) = t.sin_cos();
    let mut m = ID;
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (1.0 - c) * a[i] * a[j] + if i == j { c } else { 0.0 };
        }
    }
    m[0][1] += s * a[2];
    m[1][0] -= s * a[2];
    m[1][2] += s * a[0];
    m[2][1] -= s * a[0];
    m[2][0] += s * a[1];
    m[0][2] -= s * a[1];
    m
}
fn unit() -> f64 {
    choose(1 << 30) as f64 / (1u64 << 30) as f64
}
fn sign() -> f64 {
    if chance(1, 2) {
        -1.0
    } else {
        1.0
    }
}
fn angle() -> f64 {
    match choose(8) {
        0 => 0.0,
        1 => sign() * PI / 2.0,
        2 => sign() * PI,
        3 => sign() * (PI / 2.0 + sign() * 10f64.powf(-16.0 * unit())),
        4 => sign() * (PI + sign() * 10f64.powf(-16.0 * unit())),
        5 => sign() * 10f64.powf(-16.0 * unit()),
        6 => sign() * PI * 4.0 * unit(),
        _ => sign() * PI * unit(),
    }
}
fn direction() -> V {
    if chance(1, 4) {
        let mut v = [0.0; 3];
        v[choose(3) as usize] = sign();
        return v;
    }
    loop {
        let v = [2.0 * unit() - 1.0, 2.0 * unit() - 1.0, if chance(1, 4) { 0.0 } else { 2.0 * unit() - 1.0 }];
        let n = len(&v);
        if n > 1e-3 && n <= 1.0 {
            return times(&v, 1.0 / n);
        }
    }
}
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(m) => violation("panic", &format!("{what} panicked: {m}")),
    }
}

trait Num: Real + Copy + Default + PartialEq + std::fmt::Debug + ToRadians<Output = Self> + ToDegrees<Output = Self> {
    const E: f64;
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn val(self) -> f64;
}
impl Num for f64 {
    const E: f64 = f64::EPSILON;
    const NAME: &'static str = "double";
    fn of(v: f64) -> f64 {
        v
    }
    fn val(self) -> f64 {
        self
    }
}
impl Num for f32 {
    const E: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "single";
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
}
fn round<T: Num>(v: f64) -> f64 {
    T::of(v).val()
}
fn rv<T: Num>(v: &V) -> (Vector<T, 3>, V) {
    let t = v.map(T::of);
    (Vector::new(t), t.map(T::val))
}
fn vv<T: Num>(v: &Vector<T, 3>) -> V {
    v.data.map(T::val)
}
fn mm<T: Num>(m: &Matrix<T, 3, 3>) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| m.data[i][j].val()))
}

// ------------------------------------------------------------------ C35
#[derive(Debug, Clone, Copy, PartialEq)]
struct F;
impl ReferenceFrame for F {}

#[derive(Clone, Copy, Debug)]
enum Att<T: Num> {
    Q(Quaternion<T, F, F>),
    D(DirectionCosineMatrix<T, F, F>),
    E(Euler<T, F, F>),
    R(Rotation<T, F, F>),
}
fn qm<T: Num>(q: &Quaternion<T, F, F>) -> M {
    let d = q.data.data.map(T::val);
    let n = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3]).sqrt();
    let [s, i, j, k] = d.map(|v| v / n);
    [
        [s * s + i * i - j * j - k * k, 2.0 * (i * j + s * k), 2.0 * (i * k - s * j)],
        [2.0 * (i * j - s * k), s * s - i * i + j * j - k * k, 2.0 * (j * k + s * i)],
        [2.0 * (i * k + s * j), 2.0 * (j * k - s * i), s * s - i * i - j * j + k * k],
    ]
}
impl<T: Num> Att<T> {
    fn mat(&self) -> M {
        match self {
            Att::Q(q) => qm(q),
            Att::R(r) => qm(r.quaternion()),
            Att::D(d) => mm(d.as_matrix()),
            Att::E(e) => {
                let [r, p, y] = e.data.data.map(T::val);
                mul(&mul(&turn(0, r), &turn(1, p)), &turn(2, y))
            }
        }
    }
    /// How far from a rotation it is.
    fn slack(&self) -> f64 {
        match self {
            Att::D(d) => {
                let m = mm(d.as_matrix());
                dist(&mul(&m, &tr(&m)), &ID)
            }
            Att::Q(q) => skew(q),
            Att::R(r) => skew(r.quaternion()),
            Att::E(_) => 0.0,
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Att::Q(_) => "quaternion",
            Att::D(_) => "matrix",
            Att::E(_) => "Euler angles",
            Att::R(_) => "rotation",
        }
    }
}
fn skew<T: Num>(q: &Quaternion<T, F, F>) -> f64 {
    let d = q.data.data.map(T::val);
    // what the matrix made from it without care for its length would have
    let n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3];
    3f64.sqrt() * (n2 * n2 - 1.0).abs()
}
/// Compares a step's result with the matrix it should have.
fn judge<T: Num>(what: &str, got: &Att<T>, want: &M, tol: f64) {
    let g = got.mat();
    ev(|| format!("{what} {:.5} {:.5} {:.5}", g[0][0], g[1][1], g[0][2]));
    let d = dist(&g, want);
    check!(d <= tol, "wrong-attitude", "{what} gave {got:?}, which is {d:e} (allowed {tol:e}) from the right rotation {want:?}");
    let s = got.slack();
    check!(s <= tol, "not-a-rotation", "{what} gave {got:?}, which is {s:e} (allowed {tol:e}) from a rotation");
}
fn fresh<T: Num>() -> (Att<T>, f64) {
    let tol = 32.0 * T::E;
    let a = match choose(4) {
        0 | 1 => {
            let (axis, ax) = rv::<T>(&times(&direction(), 10f64.powf(6.0 * unit() - 3.0)));
            let th = round::<T>(angle());
            if (th.abs() - PI).abs() < 1e-3 {
                probe("half_turn");
            }
            let a = Att::Q(call("from_axis_angle", || Quaternion::from_axis_angle(axis, T::of(th))));
            judge("from_axis_angle", &a, &turn_by(&times(&ax, th / len(&ax))), tol + 4.0 * T::E * th.abs());
            a
        }
        2 => {
            let [r, p, y] = [angle(), angle(), angle()].map(T::of);
            Att::E(call("Euler::new", || Euler::new(r, p, y)))
        }
        _ => {
            let th = round::<T>(angle());
            let k = choose(3) as usize;
            let a = Att::D(call("rotate", || match k {
                0 => DirectionCosineMatrix::rotate_x(T::of(th)),
                1 => DirectionCosineMatrix::rotate_y(T::of(th)),
                _ => DirectionCosineMatrix::rotate_z(T::of(th)),
            }));
            judge("rotate_x/y/z", &a, &turn(k, th), tol);
            a
        }
    };
    (a, tol)
}
/// The same attitude in another notation.
fn convert<T: Num>(a: &Att<T>, to: u64) -> (Att<T>, f64) {
    let want = a.mat();
    let cosp = (want[0][0].powi(2) + want[0][1].powi(2)).sqrt();
    let mut tol = 64.0 * T::E + if matches!(a, Att::D(_)) { 32.0 } else { 8.0 } * a.slack();
    if to == 2 {
        if cosp < 1e-3 {
            probe("gimbal");
        }
        tol += 64.0 * T::E / cosp.max(T::E.sqrt());
    }
    if want[0][0] + want[1][1] + want[2][2] < -0.7 {
        probe("small_trace");
    }
    let from = a.kind();
    let way = choose(3);
    let out = match (a, to) {
        (Att::Q(q), 0) => {
            if chance(1, 2) {
                probe("negated");
                Att::Q(call("neg", || -*q))
            } else {
                Att::Q(call("normalized", || q.normalized()))
            }
        }
        (Att::Q(q), 1) => {
            probe("q_to_d");
            Att::D(call("quaternion to matrix", || match way {
                0 => DirectionCosineMatrix::from(q),
                1 => DirectionCosineMatrix::from(*q),
                _ => q.to_dcm(),
            }))
        }
        (Att::Q(q), 2) => {
            probe("q_to_e");
            Att::E(call("quaternion to Euler", || Euler::from(q)))
        }
        (Att::Q(q), _) => {
            probe("rotation");
            Att::R(call("quaternion to rotation", || if way == 0 { Rotation::from_quaternion(*q) } else { Rotation::from(q) }))
        }
        (Att::D(d), 0) => {
            probe("d_to_q");
            match call("matrix to quaternion", || Quaternion::try_from(d)) {
                Ok(q) => Att::Q(q),
                Err(()) => violation("conversion-refused", &format!("no quaternion for {d:?}")),
            }
        }
        (Att::D(d), 1) => Att::D(call("matrix", || match way {
            0 => DirectionCosineMatrix::from_matrix(*d.as_matrix()),
            1 => DirectionCosineMatrix::from(d.as_matrix()),
            _ => DirectionCosineMatrix::new(d.m11(), d.m12(), d.m13(), d.m21(), d.m22(), d.m23(), d.m31(), d.m32(), d.m33()),
        })),
        (Att::D(d), 2) => {
            probe("d_to_e");
            Att::E(call("matrix to Euler", || Euler::from(d)))
        }
        (Att::D(d), _) => {
            probe("rotation");
            match call("matrix to rotation", || Rotation::try_from(d)) {
                Ok(r) => Att::R(r),
                Err(()) => violation("conversion-refused", &format!("no rotation for {d:?}")),
            }
        }
        (Att::E(e), 0) => {
            probe("e_to_q");
            Att::Q(call("Euler to quaternion", || Quaternion::from(e)))
        }
        (Att::E(e), 1) => {
            probe("e_to_d");
            Att::D(call("Euler to matrix", || DirectionCosineMatrix::from(*e)))
        }
        (Att::E(e), 2) => {
            // sent in degrees
            probe("degrees");
            tol += 16.0 * T::E * e.data.data.map(|v| v.val().abs()).iter().sum::<f64>();
            Att::E(call("degrees", || Euler::from_degrees_vec(e.to_degrees_vec())))
        }
        (Att::E(e), _) => {
            probe("e_to_q");
            Att::R(call("Euler to rotation", || Rotation::from_quaternion(Quaternion::from(e))))
        }
        (Att::R(r), 1) => Att::D(call("rotation to matrix", || DirectionCosineMatrix::from(r.quaternion()))),
        (Att::R(r), 2) => Att::E(call("rotation to Euler", || Euler::from(r.quaternion()))),
        (Att::R(r), _) => Att::Q(*r.quaternion()),
    };
    judge(&format!("{from} to {}", out.kind()), &out, &want, tol);
    (out, tol)
}
/// First `a`, then `b`.
fn compose<T: Num>(b: &Att<T>, a: &Att<T>) -> (Att<T>, f64) {
    let kind = match choose(3) {
        0 => 0,
        1 => 1,
        _ => 3,
    };
    let (a, t1) = as_kind(a, kind);
    let (b, t2) = as_kind(b, kind);
    let want = mul(&b.mat(), &a.mat());
    let tol = 64.0 * T::E + 4.0 * (a.slack() + b.slack());
    let out = match (&a, &b) {
        (Att::Q(a), Att::Q(b)) => {
            probe("composed_q");
            Att::Q(call("compose", || if chance(1, 2) { b * a } else { *b * *a }))
        }
        (Att::D(a), Att::D(b)) => {
            probe("composed_d");
            Att::D(call("compose", || *b * *a))
        }
        (Att::R(a), Att::R(b)) => {
            probe("composed_r");
            Att::R(call("compose", || a.compose(b)))
        }
        _ => unreachable!(),
    };
    judge(&format!("composing two {}s", out.kind()), &out, &want, tol);
    (out, tol + t1 + t2)
}
fn as_kind<T: Num>(a: &Att<T>, kind: u64) -> (Att<T>, f64) {
    match (a, kind) {
        (Att::Q(_), 0) | (Att::D(_), 1) | (Att::E(_), 2) | (Att::R(_), 3) => (*a, 0.0),
        _ => {
            let (x, t) = convert(a, kind);
            match (&x, kind) {
                (Att::Q(q), 3) => (Att::R(Rotation::from(q)), t),
                _ => (x, t),
            }
        }
    }
}
fn invert<T: Num>(a: &Att<T>) -> (Att<T>, f64) {
    probe("inverted");
    let kind = choose(2);
    let (a, t) = as_kind(a, kind);
    let want = tr(&a.mat());
    let tol = 64.0 * T::E + 4.0 * a.slack();
    let out = match &a {
        Att::Q(q) => Att::Q(call("inverse", || if chance(2, 3) { q.inverse() } else { q.conjugate() })),
        Att::D(d) => Att::D(call("transpose", || d.transpose())),
        _ => unreachable!(),
    };
    judge("inverting", &out, &want, tol);
    (out, tol + t)
}
fn look<T: Num>(a: &Att<T>) {
    probe("vector");
    let (v, x) = rv::<T>(&times(&direction(), 10f64.powf(8.0 * unit() - 4.0)));
    let c = Cartesian::<T, F>::new(v[0], v[1], v[2]);
    let (a, _) = if matches!(a, Att::E(_)) { convert(a, choose(2)) } else { (*a, 0.0) };
    let want = app(&a.mat(), &x);
    let way = choose(8);
    let q = match &a {
        Att::R(r) => Some(*r.quaternion()),
        Att::Q(q) => Some(*q),
        _ => None,
    };
    let got = call("turning a vector", || match (q, &a) {
        (Some(q), _) => match way {
            0 => q.rotate_vector(v),
            1 => q.rotate_vec(&v),
            2 => q.rotate_cartesian(c).data,
            3 => (&q * &c).data,
            4 => (q * c).data,
            5 => (&q * c).data,
            6 => (q * &c).data,
            _ => c.transform(&q).data,
        },
        (_, Att::D(d)) => match way % 4 {
            0 => (*d * c).data,
            1 => (d * c).data,
            2 => (*d * &c).data,
            _ => (d * &c).data,
        },
        _ => unreachable!(),
    });
    let e = len(&sub(&vv(&got), &want));
    let tol = (64.0 * T::E + 4.0 * a.slack()) * len(&x);
    check!(e <= tol, "wrong-vector", "way {way}: {a:?} took {x:?} to {:?}, expected {want:?} (error {e:e}, allowed {tol:e})", vv(&got));
}
/// A quaternion that is not of unit length still names its rotation where lengths are taken care of.
fn scaled<T: Num>(a: &Att<T>) -> (Att<T>, f64) {
    probe("scaled");
    let (a, t) = as_kind(a, 0);
    let Att::Q(q) = a else { unreachable!() };
    let want = a.mat();
    // by any factor, or drifted only a little
    let s = T::of(if chance(1, 2) { 10f64.powf(4.0 * unit() - 2.0) * sign() } else { 1.0 + sign() * 10f64.powf(-7.0 * unit() - 0.5) });
    let big = call("scale", || if chance(1, 2) { q * s } else { q / s });
    let tol = 64.0 * T::E;
    let out = match choose(5) {
        4 => {
            let e = call("to Euler", || Euler::from(&big));
            judge("a scaled quaternion in Euler angles", &Att::E(e), &want, tol + 4.0 * a.slack() + 16.0 * T::E);
            Att::E(e)
        }
        0 => Att::Q(call("normalized", || big.normalized())),
        1 => Att::R(call("rotation", || Rotation::from(&big))),
        2 => Att::D(call("to_dcm", || big.to_dcm())),
        _ => {
            let (v, x) = rv::<T>(&direction());
            let g = vv(&call("rotate_vector", || big.rotate_vector(v)));
            let w = app(&want, &x);
            check!(len(&sub(&g, &w)) <= tol, "wrong-vector", "{big:?} took {x:?} to {g:?}, expected {w:?}");
            // q⁻¹ after q is no rotation at all
            let one = call("inverse", || &big.inverse() * &big);
            judge("q⁻¹ after q", &Att::Q(one), &ID, tol);
            (a, 0.0).0
        }
    };
    let tol = tol + 4.0 * a.slack();
    judge("a scaled quaternion", &out, &want, tol);
    (out, tol + t)
}
/// Half a step of the quaternion's equation of motion.
fn slope(q: &[f64; 4], w: &V) -> [f64; 4] {
    let [s, i, j, k] = *q;
    [
        -0.5 * (i * w[0] + j * w[1] + k * w[2]),
        0.5 * (s * w[0] + j * w[2] - k * w[1]),
        0.5 * (s * w[1] + k * w[0] - i * w[2]),
        0.5 * (s * w[2] + i * w[1] - j * w[0]),
    ]
}
fn moved(w: &V, acc: &V, dt: f64) -> M {
    let n = 32;
    let h = dt / n as f64;
    let mut q = [1.0, 0.0, 0.0, 0.0];
    let rate = |t: f64| -> V { std::array::from_fn(|i| w[i] + acc[i] * t) };
    let ax = |q: &[f64; 4], k: &[f64; 4], s: f64| -> [f64; 4] { std::array::from_fn(|i| q[i] + k[i] * s) };
    for i in 0..n {
        let t = i as f64 * h;
        let k1 = slope(&q, &rate(t));
        let k2 = slope(&ax(&q, &k1, h / 2.0), &rate(t + h / 2.0));
        let k3 = slope(&ax(&q, &k2, h / 2.0), &rate(t + h / 2.0));
        let k4 = slope(&ax(&q, &k3, h), &rate(t + h));
        for c in 0..4 {
            q[c] += h / 6.0 * (k1[c] + 2.0 * k2[c] + 2.0 * k3[c] + k4[c]);
        }
    }
    qm(&Quaternion::<f64, F, F>::new(q[0], q[1], q[2], q[3]))
}
fn tick<T: Num>(a: &Att<T>, truth: &mut M) -> (Att<T>, f64) {
    if chance(1, 2) {
        probe("turned");
        let (a, t) = as_kind(a, 3);
        let Att::R(r) = a else { unreachable!() };
        let (w, wx) = rv::<T>(&times(&direction(), if chance(1, 12) { 0.0 } else { 10f64.powf(5.0 * unit() - 4.0) }));
        let dt = round::<T>(match choose(6) {
            0 => 0.0,
            1 => {
                fired("late_tick");
                probe("late_tick");
                10.0 * unit()
            }
            2 => -0.1 * unit(),
            _ => 0.01 + 0.001 * unit(),
        });
        let th = len(&wx) * dt;
        let step = turn_by(&times(&wx, dt));
        let want = mul(&step, &a.mat());
        let tol = 64.0 * T::E + 8.0 * T::E * th.abs() + 4.0 * a.slack();
        let out = Att::R(call("Rotation::integrate", || r.integrate(w, T::of(dt))));
        judge("Rotation::integrate", &out, &want, tol);
        *truth = mul(&step, truth);
        (out, tol + t)
    } else {
        probe("turned_taylor");
        let (a, t) = as_kind(a, 0);
        let Att::Q(q) = a else { unreachable!() };
        // how far one step goes
        let s = 10f64.powf(-3.7 * unit()) * 0.5;
        let dt = round::<T>(10f64.powf(4.0 * unit() - 4.0));
        let acc = chance(1, 2);
        if acc {
            probe("accelerating");
        }
        let (f, g) = if acc { (unit() * 0.7, unit() * 0.3) } else { (1.0, 0.0) };
        let (w, wx) = rv::<T>(&times(&direction(), f * s / dt));
        let (al, ax) = rv::<T>(&times(&direction(), (g * s / dt).powi(2)));
        let step = moved(&wx, &ax, dt);
        let want = mul(&step, &a.mat());
        let tol = 64.0 * T::E + 0.3 * s.powi(4) + 4.0 * a.slack();
        let c = |v: Vector<T, 3>| Cartesian::<T, F>::new(v[0], v[1], v[2]);
        let out = Att::Q(call("Quaternion::integrate", || q.integrate(c(w), c(al), T::of(dt))));
        judge("Quaternion::integrate", &out, &want, tol);
        *truth = mul(&step, truth);
        (out, tol + t)
    }
}
#[derive(Clone, Copy)]
struct Craft<T: Num> {
    att: Att<T>,
    truth: M,
    /// how far rounding may have led it away
    slack: f64,
}
fn fleet<T: Num>() {
    probe(T::NAME);
    let n = range(2, 4) as usize;
    describe(format!("{n} vehicles in {} precision", T::NAME));
    let new = || {
        let (att, slack) = fresh::<T>();
        Craft { att, truth: att.mat(), slack }
    };
    let mut craft: Vec<Craft<T>> = (0..n).map(|_| new()).collect();
    let mounts: Vec<Craft<T>> = (0..n).map(|_| new()).collect();
    let mut saved: Vec<Option<Craft<T>>> = vec![None; n];
    let mut net: Vec<(usize, Craft<T>)> = vec![];
    for _ in 0..range(3, 40) {
        let k = choose(n as u64) as usize;
        sim().mono += 10_000_000;
        let c = craft[k];
        match choose(14) {
            0 | 1 | 2 => {
                let mut truth = c.truth;
                let (att, t) = tick(&c.att, &mut truth);
                craft[k] = Craft { att, truth, slack: c.slack + t };
            }
            3 | 4 => {
                // sent in whatever notation the link wants
                let (att, t) = convert(&c.att, choose(4));
                let to = (k + 1 + choose(n as u64 - 1) as usize) % n;
                net.push((to, Craft { att, truth: c.truth, slack: c.slack + t }));
                if chance(1, 6) {
                    net.push((to, Craft { att, truth: c.truth, slack: c.slack + t }));
                    fired("message_duplicated");
                    probe("message_duplicated");
                }
            }
            5 | 6 | 7 => {
                if net.is_empty() {
                    continue;
                }
                let i = choose(net.len() as u64) as usize;
                if i > 0 {
                    fired("message_reordered");
                    probe("message_reordered");
                }
                let (to, m) = net.remove(i);
                if chance(1, 8) {
                    fired("message_lost");
                    probe("message_lost");
                    continue;
                }
                probe("delivered");
                let me = craft[to];
                // the way from mine to theirs, and back to theirs
                let (back, t1) = invert(&me.att);
                let (rel, t2) = compose(&m.att, &back);
                let (again, t3) = compose(&rel, &me.att);
                let tol = 8.0 * (t1 + t2 + t3) + 8.0 * me.att.slack() + 64.0 * T::E;
                judge("their attitude by way of mine", &again, &m.att.mat(), tol + 8.0 * m.att.slack());
                craft[to] = match choose(3) {
                    0 => Craft { att: again, truth: m.truth, slack: m.slack + tol },
                    1 => Craft { att: rel, truth: mul(&m.truth, &tr(&me.truth)), slack: m.slack + me.slack + t1 + t2 },
                    _ => me,
                };
            }
            8 => {
                let (att, t) = compose(&mounts[k].att, &c.att);
                craft[k] = Craft { att, truth: mul(&mounts[k].truth, &c.truth), slack: c.slack + mounts[k].slack + t };
            }
            9 => {
                let (att, t) = convert(&c.att, choose(4));
                craft[k] = Craft { att, slack: c.slack + t, ..c };
            }
            10 => look(&c.att),
            11 => {
                let (att, t) = scaled(&c.att);
                craft[k] = Craft { att, slack: c.slack + t, ..c };
            }
            12 => saved[k] = Some(c),
            _ => {
                if let Some(s) = saved[k] {
                    fired("crash_restart");
                    probe("restored");
                    craft[k] = s;
                }
            }
        }
        for c in &craft {
            let d = dist(&c.att.mat(), &c.truth);
            let tol = 8.0 * c.slack + 64.0 * T::E;
            check!(d <= tol, "drifted", "after its history a vehicle holds {:?}, {d:e} (allowed {tol:e}) from the truth", c.att);
        }
        nontrivial();
    }
}
fn attitudes() {
    if chance(1, 2) {
        fleet::<f64>()
    } else {
        fleet::<f32>()
    }
}

// ------------------------------------------------------------------ C36
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Icrf,
    Itrf,
    Lirf,
    Ltrf,
}
const WE: f64 = 7.292115146706979e-5;
const WM: f64 = 2.0 * PI / (27.321_661 * 86_400.0);
const A: f64 = 6378137.0;
const E2: f64 = 6.694379990141e-3;

struct World {
    earth: Earth,
    we: f64,
    moon: Moon,
    epoch: f64,
    central: M,
}
fn dcm<A1: ReferenceFrame, B1: ReferenceFrame>(m: &M) -> DirectionCosineMatrix<f64, A1, B1> {
    DirectionCosineMatrix::from_matrix(Matrix::new(*m))
}
fn cart<T: Num, R: ReferenceFrame>(v: &V) -> Cartesian<T, R> {
    Cartesian::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}
fn cv<T: Num, R: ReferenceFrame>(c: &Cartesian<T, R>) -> V {
    vv(&c.data)
}
fn near(class: &str, what: &str, got: &V, want: &V, tol: f64) {
    ev(|| format!("{what} {:.4e} {:.4e} {:.4e}", got[0], got[1], got[2]));
    let e = len(&sub(got, want));
    check!(e <= tol, class, "{what} gave {got:?}, expected {want:?} (error {e:e}, allowed {tol:e})");
}
/// A matrix applied in one of the ways the library has.
fn through<X: ReferenceFrame, Y: ReferenceFrame>(d: DirectionCosineMatrix<f64, X, Y>, v: &V) -> V {
    let c = cart::<f64, X>(v);
    cv(&call("applying a frame change", || match choose(4) {
        0 => d * c,
        1 => &d * &c,
        2 => match Quaternion::try_from(&d) {
            Ok(q) => c.transform(&q),
            Err(()) => violation("conversion-refused", "a frame change has no quaternion"),
        },
        _ => d.transpose().transpose() * c,
    }))
}
/// The matrix of one hop, from the reference.
fn hop_matrix(w: &World, from: At, to: At, t: f64) -> M {
    let icrf = |f: At| match f {
        At::Icrf => ID,
        At::Itrf => turn(2, w.we * t),
        At::Lirf => w.central,
        At::Ltrf => mul(&turn(2, WM * (t - w.epoch)), &w.central),
    };
    mul(&icrf(to), &tr(&icrf(from)))
}
fn hop(w: &World, from: At, to: At, t: f64, v: &V) -> (V, f64) {
    let want = app(&hop_matrix(w, from, to, t), v);
    let tol = len(v) * f64::EPSILON * (64.0 + 4.0 * (w.we * t).abs() + 8.0 * WM * (t.abs() + w.epoch.abs()));
    let (e, m) = (&w.earth, &w.moon);
    let inv = chance(1, 4);
    let way = choose(4);
    let (what, got) = match (from, to) {
        (At::Icrf, At::Itrf) => {
            probe("icrf_itrf");
            let d = call("icrf_to_itrf", || match way {
                _ if inv => e.itrf_to_icrf(t).transpose(),
                0 => transforms::icrf_to_itrf(t, e.rotational_velocity),
                1 => wgs84::icrf_to_itrf(t, e.rotational_velocity),
                _ => e.icrf_to_itrf(t),
            });
            ("icrf_to_itrf", through(d, v))
        }
        (At::Itrf, At::Icrf) => {
            probe("itrf_icrf");
            let d = call("itrf_to_icrf", || match way {
                _ if inv => e.icrf_to_itrf(t).transpose(),
                0 => transforms::itrf_to_icrf(t, e.rotational_velocity),
                1 => wgs84::itrf_to_icrf(t, e.rotational_velocity),
                _ => e.itrf_to_icrf(t),
            });
            ("itrf_to_icrf", through(d, v))
        }
        (At::Icrf, At::Lirf) => {
            probe("icrf_lirf");
            ("icrf_to_lirf", through(call("icrf_to_lirf", || if inv { m.lirf_to_icrf().transpose() } else { m.icrf_to_lirf() }), v))
        }
        (At::Lirf, At::Icrf) => {
            probe("lirf_icrf");
            ("lirf_to_icrf", through(call("lirf_to_icrf", || if inv { m.icrf_to_lirf().transpose() } else { m.lirf_to_icrf() }), v))
        }
        (At::Lirf, At::Ltrf) => {
            probe("lirf_ltrf");
            let d = call("lirf_to_ltrf", || match way {
                _ if inv => m.ltrf_to_lirf(t).transpose(),
                0 => luna::lirf_to_ltrf(t - w.epoch),
                _ => m.lirf_to_ltrf(t),
            });
            ("lirf_to_ltrf", through(d, v))
        }
        (At::Ltrf, At::Lirf) => {
            probe("ltrf_lirf");
            let d = call("ltrf_to_lirf", || match way {
                _ if inv => m.lirf_to_ltrf(t).transpose(),
                0 => luna::ltrf_to_lirf(t - w.epoch),
                _ => m.ltrf_to_lirf(t),
            });
            ("ltrf_to_lirf", through(d, v))
        }
        (At::Icrf, At::Ltrf) => {
            probe("icrf_ltrf");
            let d = call("icrf_to_ltrf", || match way {
                _ if inv => m.ltrf_to_icrf(t).transpose(),
                0 => luna::icrf_to_ltrf_at_epoch(t - w.epoch, dcm(&w.central)),
                1 if w.central == ID => luna::icrf_to_ltrf(t - w.epoch),
                _ => m.icrf_to_ltrf(t),
            });
            ("icrf_to_ltrf", through(d, v))
        }
        (At::Ltrf, At::Icrf) => {
            probe("ltrf_icrf");
            let d = call("ltrf_to_icrf", || match way {
                _ if inv => m.icrf_to_ltrf(t).transpose(),
                0 => luna::ltrf_to_icrf_at_epoch(t - w.epoch, dcm(&w.central)),
                1 if w.central == ID => luna::ltrf_to_icrf(t - w.epoch),
                _ => m.ltrf_to_icrf(t),
            });
            ("ltrf_to_icrf", through(d, v))
        }
        _ => return (*v, 0.0),
    };
    near("wrong-position", &format!("{what} at {t} s"), &got, &want, tol);
    (got, tol)
}
fn lla_to_xyz(lat: f64, lon: f64, h: f64) -> V {
    let n = A / (1.0 - E2 * lat.sin().powi(2)).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - E2) + h) * lat.sin()]
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Cartesian,
    Spherical,
    Cylindrical,
    Geodetic,
}
/// There and back through another notation.
fn recode<T: Num>(v: &V, form: Form, earth: &Earth) -> (V, f64) {
    let v = v.map(round::<T>);
    let r = len(&v);
    let rho = v[0].hypot(v[1]);
    if rho < 1e-6 * r {
        probe("axis");
    }
    let c = cart::<T, F>(&v);
    match form {
        Form::Cartesian => (v, 0.0),
        Form::Spherical | Form::Cylindrical => {
            let sph = form == Form::Spherical;
            probe(if sph { "spherical" } else { "cylindrical" });
            // straight, or by way of the other one
            let (s, y, back) = call("coordinates", || {
                let (s, y);
                if sph {
                    s = if chance(1, 3) { Spherical::from(&Cylindrical::from(&c)) } else { Spherical::from(&c) };
                    y = Cylindrical::from(&s);
                } else {
                    y = if chance(1, 3) { Cylindrical::from(&Spherical::from(&c)) } else { Cylindrical::from(&c) };
                    s = Spherical::from(&y);
                }
                let back: Cartesian<T, F> = if sph { Cartesian::from(&s) } else { Cartesian::from(&y) };
                (s, y, back)
            });
            let tol = 32.0 * T::E * r * (1.0 + 1.0 / (rho / r.max(1e-300)).max(T::E.sqrt()));
            let n = |x: T| x.val();
            let [sr, sp, st] = [n(s.r()), n(s.phi()), n(s.theta())];
            let [yr, yt, yz] = [n(y.r()), n(y.theta()), n(y.z())];
            near("wrong-coordinates", "the spherical coordinates", &[sr * st.sin() * sp.cos(), sr * st.sin() * sp.sin(), sr * st.cos()], &v, tol);
            near("wrong-coordinates", "the cylindrical coordinates", &[yr * yt.cos(), yr * yt.sin(), yz], &v, tol);
            check!((sr - r).abs() <= tol && (0.0..=PI + 1e-6).contains(&st) && yr >= -tol && sp.abs() <= PI + 1e-6, "wrong-coordinates", "{v:?} became r {sr}, azimuth {sp}, inclination {st}; cylinder radius {yr}");
            let b = cv(&back);
            near("wrong-coordinates", "Cartesian coordinates from the others", &b, &v, tol);
            (b, tol)
        }
        Form::Geodetic => {
            let h = r - A;
            if !(-9e4..1e8).contains(&h) {
                return (v, 0.0);
            }
            probe("geodetic");
            if rho < 1e-3 * r {
                probe("pole");
            }
            let mut tol = 64.0 * T::E * (r + A);
            let way = choose(3);
            let [x, y, z] = v.map(T::of);
            let g = if way == 0 && T::E < 1e-10 {
                probe("ferrari");
                // its ellipsoid's minor axis is rounded to a tenth of a millimetre
                tol += 1e-3 * (1.0 + r / A);
                vv(&call("ecef_to_geocentric_ferrari", || if chance(1, 2) { wgs84::ecef_to_geocentric_ferrari(x, y, z) } else { earth_vec(earth.ecef_to_geocentric_ferrari(x.val(), y.val(), z.val())) }))
            } else if way == 1 && T::E < 1e-10 {
                vv(&call("ecef_to_geocentric", || earth.ecef_to_geocentric(x.val(), y.val(), z.val())))
            } else {
                vv(&call("ecef_to_geocentric", || wgs84::ecef_to_geocentric(x, y, z)))
            };
            near("wrong-geodetic", &format!("latitude, longitude and height {g:?}"), &lla_to_xyz(g[0], g[1], g[2]), &v, tol);
            check!(g[0].abs() <= PI / 2.0 + 1e-6 && g[1].abs() <= PI + 1e-6, "wrong-geodetic", "{v:?} became latitude {} longitude {}", g[0], g[1]);
            let t = g.map(round::<T>);
            let b = cv(&call("geocentric_to_ecef", || wgs84::geocentric_to_ecef(T::of(t[0]), T::of(t[1]), T::of(t[2]))));
            near("wrong-geodetic", &format!("the position of {t:?}"), &b, &lla_to_xyz(t[0], t[1], t[2]), 64.0 * T::E * (r + A));
            if T::E < 1e-10 {
                let c = cv(&call("geocentric_to_ecef", || earth.geocentric_to_ecef(t[0], t[1], t[2])));
                near("wrong-geodetic", "the Earth's position of the same place", &c, &b, 1e-6 * (1.0 + r / A));
            }
            (b, tol + 64.0 * T::E * (r + A))
        }
    }
}
fn earth_vec<T: Num>(v: Vector<f64, 3>) -> Vector<T, 3> {
    Vector::new(v.data.map(T::of))
}
fn place() -> V {
    let r = match choose(5) {
        0 => A + 2e4 * unit() - 8e3,
        1 => A + 10f64.powf(8.0 * unit()),
        2 => A - 9e4 * unit(),
        3 => 10f64.powf(8.5 * unit()),
        _ => 6.4e6 + 4e8 * unit(),
    };
    let d = match choose(6) {
        0 => [0.0, 0.0, sign()],
        1 => {
            let e = 10f64.powf(-16.0 * unit());
            [e, e * (2.0 * unit() - 1.0), sign()]
        }
        _ => direction(),
    };
    times(&d, r / len(&d))
}
fn proper(what: &str, m: &M, tol: f64) {
    let d = dist(&mul(m, &tr(m)), &ID);
    let det = dot(&m[0], &cross(&m[1], &m[2]));
    check!(d <= tol && (det - 1.0).abs() <= tol, "not-a-rotation", "{what}: {m:?} is {d:e} from orthogonal, determinant {det}");
}
fn local(w: &World, lat: f64, lon: f64, v: &V) {
    probe("ned");
    let (sl, cl, so, co) = (lat.sin(), lat.cos(), lon.sin(), lon.cos());
    let (north, east, up) = ([-sl * co, -sl * so, cl], [-so, co, 0.0], [cl * co, cl * so, sl]);
    let d: DirectionCosineMatrix<f64, ITRF<f64>, NED<f64>> = call("itrf_to_ned", || transforms::itrf_to_ned(lat, lon));
    let tol = 64.0 * f64::EPSILON;
    proper("itrf_to_ned", &mm(d.as_matrix()), tol);
    let want = [dot(&north, v), dot(&east, v), -dot(&up, v)];
    let got = through(d, v);
    near("wrong-local", &format!("north, east, down at {lat}, {lon}"), &got, &want, tol * len(v));
    near("wrong-local", "the way back from north, east, down", &through(d.transpose(), &got), v, 2.0 * tol * len(v));
    // climbing is up
    let (h, dh) = (1e5 * unit(), 1e3);
    let (a, b) = call("geocentric_to_ecef", || (w.earth.geocentric_to_ecef(lat, lon, h), w.earth.geocentric_to_ecef(lat, lon, h + dh)));
    let climb = through(d, &sub(&cv(&b), &cv(&a)));
    near("wrong-local", "a climb of a kilometre", &climb, &[0.0, 0.0, -dh], 1e-6);
}
/// The vehicle's own axes against north, east, down.
fn body_axes() {
    let [r, p, y] = [angle(), angle(), angle()];
    let tol = 64.0 * f64::EPSILON;
    let bn = mm(call("body_to_ned", || transforms::body_to_ned(r, p, y)).as_matrix());
    proper("body_to_ned", &bn, tol);
    let nb = mm(call("Euler to matrix", || DirectionCosineMatrix::<f64, NED<f64>, Body<f64>>::from(Euler::new(r, p, y))).as_matrix());
    let (same, flipped) = (dist(&bn, &nb), dist(&bn, &tr(&nb)));
    check!(same <= tol || flipped <= tol, "wrong-local", "body_to_ned({r}, {p}, {y}) is neither the attitude's matrix nor its transpose: {bn:?}");
    check!(flipped <= tol, "body-ned-transposed", "body_to_ned({r}, {p}, {y}) takes north, east, down to body axes, not back: {bn:?}");
    nontrivial();
}
fn forces(w: &World, v: &V) {
    probe("force");
    let r = len(v);
    let mass = 10f64.powf(4.0 * unit() - 1.0);
    let vel = times(&direction(), 1e4 * unit());
    let om = [0.0, 0.0, w.we];
    let tol = 64.0 * f64::EPSILON;
    let f = cv(&call("Coriolis", || w.earth.solve_coriolis_force(cart(&vel), mass)));
    near("wrong-force", "the Coriolis force", &f, &times(&cross(&om, &vel), -2.0 * mass), tol * mass * w.we.abs() * len(&vel));
    let f = cv(&call("centrifugal", || w.earth.solve_centrifugal_force(cart(v), mass)));
    near("wrong-force", "the centrifugal force", &f, &[mass * w.we * w.we * v[0], mass * w.we * w.we * v[1], 0.0], tol * mass * w.we * w.we * r);
    // the Moon pulls the same way whatever the frame
    let t = 1e6 * unit();
    let gm = 4.902_800_118e12;
    let here = cv(&call("lunar gravity", || w.moon.solve_gravitational_force(cart::<f64, ICRF<f64>>(v), mass)));
    near("wrong-force", "the Moon's pull", &here, &times(v, -gm * mass / r.powi(3)), tol * gm * mass / (r * r));
    let d = call("icrf_to_ltrf", || w.moon.icrf_to_ltrf(t));
    let there = cv(&call("lunar gravity", || w.moon.solve_gravitational_force(d * cart::<f64, ICRF<f64>>(v), mass)));
    near("wrong-force", "the Moon's pull in its own frame", &there, &app(&mm(d.as_matrix()), &here), 64.0 * tol * gm * mass / (r * r));
    let inertia: M = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 + 10.0 * unit() } else { 0.0 }));
    let iv = app(&inertia, v);
    let tq = cross(v, &iv);
    let got = cv(&call("lunar torque", || w.moon.solve_gravitational_torque(cart::<f64, LTRF>(v), Matrix::new(inertia))));
    near("wrong-force", "the Moon's torque", &got, &times(&tq, 3.0 * gm / r.powi(5)), 64.0 * tol * gm / r.powi(3) * 12.0);
    let ge = 3.986004418e14;
    let got = cv(&call("torque", || w.earth.solve_gravitational_torque(cart(v), Matrix::new(inertia))));
    near("wrong-force", "the Earth's torque", &got, &times(&tq, 3.0 * ge / r.powi(5)), 64.0 * tol * ge / r.powi(3) * 12.0);
}
fn flow() {
    probe("flow");
    let [a, b] = [angle(), angle()];
    let tol = 32.0 * f64::EPSILON;
    let g = |m: Matrix<f64, 3, 3>| -> M { m.data };
    let m = g(call("aircraft_wind_to_body", || transforms::aircraft_wind_to_body(a, b)));
    proper("aircraft_wind_to_body", &m, tol);
    near("wrong-flow", "the flow direction of an aircraft", &m[0], &[a.cos() * b.cos(), b.sin(), a.sin() * b.cos()], tol);
    near("wrong-flow", "the lift direction of an aircraft", &m[2], &[-a.sin(), 0.0, a.cos()], tol);
    let m = g(call("aeroballistic_wind_to_body", || transforms::aeroballistic_wind_to_body(a, b)));
    proper("aeroballistic_wind_to_body", &m, tol);
    near("wrong-flow", "the flow direction of a missile", &m[0], &[a.cos(), a.sin() * b.sin(), a.sin() * b.cos()], tol);
    near("wrong-flow", "the normal direction of a missile", &m[1], &[0.0, b.cos(), -b.sin()], tol);
    let m = g(call("flight_path_to_geographic", || transforms::flight_path_to_geographic(a, b)));
    proper("flight_path_to_geographic", &m, tol);
    near("wrong-flow", "the direction of flight", &m[0], &[b.cos() * a.cos(), b.cos() * a.sin(), -b.sin()], tol);
    near("wrong-flow", "the direction across the flight", &m[1], &[-a.sin(), a.cos(), 0.0], tol);
    let (w, v) = (times(&direction(), 10.0 * unit()), times(&direction(), 100.0 * unit()));
    let m = g(call("angular_rate_dcm", || transforms::angular_rate_dcm(w[0], w[1], w[2])));
    near("wrong-flow", "turning rate times arm", &app(&m, &v), &cross(&w, &v), tol * 1000.0);
}
fn stamp() -> f64 {
    match choose(5) {
        0 => 0.0,
        1 => 86164.0 * unit(),
        2 => -1e6 * unit(),
        3 => 1e9 * unit(),
        _ => 1e7 * unit(),
    }
}
#[derive(Clone, Copy)]
struct Report {
    stamp: f64,
    at: At,
    form: Form,
    v: V,
    /// the truth, in the celestial frame
    truth: V,
    slack: f64,
}
fn positions() {
    if chance(1, 200) {
        return body_axes();
    }
    let epoch = if chance(1, 3) {
        0.0
    } else {
        probe("epoch");
        stamp()
    };
    let central = if chance(1, 3) { ID } else { turn_by(&times(&direction(), angle())) };
    let mut earth = Earth::new();
    let we = match choose(4) {
        0 => sign() * 10f64.powf(-3.0 - 3.0 * unit()),
        _ => WE,
    };
    if we != WE {
        earth.rotational_velocity = Cartesian::new(0.0, 0.0, we);
    }
    let moon = call("Moon", || if epoch == 0.0 && central == ID { Moon::new() } else { Moon::with_epoch_orientation(epoch, dcm::<ICRF<f64>, LIRF>(&central)) });
    let w = World { earth, we, moon, epoch, central };
    describe(format!("lunar epoch {epoch} s, Earth's rate {we} rad/s"));
    let frames = [At::Icrf, At::Itrf, At::Lirf, At::Ltrf];
    let mut net: Vec<Report> = vec![];
    let mut now = stamp();
    for _ in 0..range(3, 30) {
        match choose(10) {
            0 | 1 => {
                now += 1000.0 * unit();
                sim().mono += 1_000_000_000;
                let v = place();
                let at = pick(&frames);
                let truth = app(&tr(&hop_matrix(&w, At::Icrf, at, now)), &v);
                net.push(Report { stamp: now, at, form: Form::Cartesian, v, truth, slack: 0.0 });
            }
            2 | 3 | 4 | 5 | 6 => {
                if net.is_empty() {
                    continue;
                }
                let i = choose(net.len() as u64) as usize;
                if i > 0 {
                    fired("message_reordered");
                    probe("message_reordered");
                }
                let mut m = net[i];
                match choose(8) {
                    0 => {
                        fired("message_lost");
                        probe("message_lost");
                        net.remove(i);
                        continue;
                    }
                    1 => {
                        fired("message_duplicated");
                        probe("message_duplicated");
                    }
                    _ => {
                        net.remove(i);
                    }
                }
                if m.stamp < now {
                    probe("delayed");
                }
                // carried on in another frame and another notation
                let to = pick(&frames);
                let (mut v, t1) = match (m.at, to) {
                    (At::Itrf, At::Lirf | At::Ltrf) | (At::Lirf | At::Ltrf, At::Itrf) => {
                        let (x, a) = hop(&w, m.at, At::Icrf, m.stamp, &m.v);
                        let (x, b) = hop(&w, At::Icrf, to, m.stamp, &x);
                        (x, a + b)
                    }
                    _ => hop(&w, m.at, to, m.stamp, &m.v),
                };
                let form = pick(&[Form::Cartesian, Form::Spherical, Form::Cylindrical, Form::Geodetic]);
                if form == Form::Geodetic && to != At::Itrf {
                    continue;
                }
                let t2;
                if chance(4, 5) {
                    probe("double");
                    (v, t2) = recode::<f64>(&v, form, &w.earth);
                } else {
                    probe("single");
                    let r = len(&v);
                    let x = recode::<f32>(&v, form, &w.earth);
                    v = x.0;
                    t2 = x.1 + r * f32::EPSILON as f64;
                }
                m = Report { at: to, form, v, slack: m.slack + t1 + t2, ..m };
                // where it is, whatever came between
                let (x, t3) = match m.at {
                    At::Icrf => (m.v, 0.0),
                    f => hop(&w, f, At::Icrf, m.stamp, &m.v),
                };
                probe("end_to_end");
                near("wrong-position", &format!("a report of {} s, last in {:?} {:?},", m.stamp, m.at, m.form), &x, &m.truth, 2.0 * (m.slack + t3) + 1e-12 * len(&m.truth).max(1e-9) * (1.0 + (w.we * m.stamp).abs()));
                net.push(m);
                nontrivial();
            }
            7 => {
                let v = place();
                let lat = match choose(4) {
                    0 => sign() * PI / 2.0,
                    1 => 0.0,
                    _ => PI * (unit() - 0.5),
                };
                local(&w, lat, angle().clamp(-PI, PI), &v);
                nontrivial();
            }
            8 => {
                let v = place();
                let frame = ITRF { epoch: w.epoch };
                probe("orientation");
                let q = call("orientation_at", || frame.orientation_at(now));
                let c = cart::<f64, ITRF<f64>>(&v);
                let rate = call("angular_velocity", || frame.angular_velocity());
                check!(frame.epoch() == w.epoch, "wrong-epoch", "epoch {} became {}", w.epoch, frame.epoch());
                let om = cv(&rate);
                let want = app(&turn(2, 7.2921150e-5 * (now - w.epoch)), &v);
                let tol = len(&v) * f64::EPSILON * (64.0 + 8.0 * 7.3e-5 * (now.abs() + w.epoch.abs()));
                near("wrong-orientation", &format!("the Earth's orientation {} s after its epoch", now - w.epoch), &cv(&call("transform", || c.transform(&q))), &want, tol);
                let other = call("icrf_to_itrf", || transforms::icrf_to_itrf(now - w.epoch, rate));
                near("wrong-orientation", "the same by the frame change", &through(other, &v), &want, tol);
                check!(om[0] == 0.0 && om[1] == 0.0 && (om[2] - WE).abs() < 1e-10, "wrong-orientation", "the Earth turns at {om:?}");
                nontrivial();
            }
            _ => {
                if chance(1, 2) {
                    forces(&w, &place());
                } else {
                    flow();
                }
                nontrivial();
            }
        }
    }
}

// ------------------------------------------------------------------ C37
#[derive(Clone, Copy, Debug)]
enum Drag {
    Set(f64, f64),
    Orbit(f64, f64),
    OrbitPx(f64, f64),
    World(f64, f64),
    WorldPx(f64, f64),
}
fn reach() -> f64 {
    match choose(6) {
        0 => 0.0,
        1 => sign() * 1e-6 * unit(),
        2 => {
            probe("huge_drag");
            sign() * 100.0 * unit()
        }
        _ => sign() * unit(),
    }
}
fn camera<T: Num>() {
    probe(T::NAME);
    let mut cam: OrbitCamera<T> = OrbitCamera::default();
    cam.distance = T::of(10f64.powf(6.0 * unit() - 2.0));
    cam.target = rv::<T>(&times(&direction(), cam.distance.val() * 100.0 * unit())).0;
    if chance(1, 3) {
        cam.orbit_sens = T::of(10f64.powf(-4.0 * unit()));
    }
    describe(format!("camera in {} precision, distance {:?}", T::NAME, cam.distance));
    let mut queue: Vec<Drag> = vec![];
    let mut saved: Option<OrbitCamera<T>> = None;
    let eps = T::E;
    let at = |cam: &OrbitCamera<T>| vv(&call("forward", || cam.forward()));
    for _ in 0..range(3, 40) {
        sim().mono += 16_000_000;
        match choose(12) {
            0 | 1 | 2 | 3 => {
                let d = match choose(8) {
                    0 => Drag::Set(angle(), if chance(1, 3) { angle() } else { (PI * unit() - PI / 2.0) * 0.999 }),
                    1 | 2 => Drag::Orbit(reach(), reach()),
                    3 | 4 => Drag::OrbitPx(100.0 * reach(), 100.0 * reach()),
                    5 => Drag::World(reach(), reach()),
                    6 => Drag::WorldPx(100.0 * reach(), 100.0 * reach()),
                    // up to the pole and close to it
                    _ => {
                        let f = at(&cam);
                        Drag::Orbit(0.0, sign() * PI / 2.0 - f[2].clamp(-1.0, 1.0).asin() + sign() * 10f64.powf(-9.0 * unit()))
                    }
                };
                queue.push(d);
                if chance(1, 10) {
                    fired("event_duplicated");
                    probe("event_duplicated");
                    queue.push(d);
                }
                continue;
            }
            4 => {
                cam.distance = T::of(cam.distance.val() * (0.5 + unit()));
                if chance(1, 2) {
                    cam.target = rv::<T>(&times(&direction(), cam.distance.val() * 100.0 * unit())).0;
                }
            }
            5 => {
                saved = Some(cam.clone());
                continue;
            }
            6 => {
                if let Some(s) = &saved {
                    fired("crash_restart");
                    probe("restored");
                    cam = s.clone();
                }
            }
            _ => {
                if queue.is_empty() {
                    continue;
                }
                let i = if chance(1, 6) { choose(queue.len() as u64) as usize } else { 0 };
                if i > 0 {
                    fired("event_reordered");
                    probe("event_reordered");
                }
                let mut d = queue.remove(i);
                if chance(1, 12) {
                    fired("event_lost");
                    probe("event_lost");
                    continue;
                }
                // the window system merges movements it has not delivered yet
                if let (Drag::OrbitPx(x, y), Some(Drag::OrbitPx(a, b))) = (d, queue.get(i).copied()) {
                    if chance(1, 2) {
                        fired("event_coalesced");
                        probe("coalesced");
                        queue.remove(i);
                        d = Drag::OrbitPx(x + a, y + b);
                    }
                }
                one_drag(&mut cam, d);
            }
        }
        // still a camera
        let f = at(&cam);
        let (r, u, p) = call("axes", || (cam.right(), cam.cam_up(), cam.position()));
        let (r, u, p) = (vv(&r), vv(&u), vv(&p));
        let tol = 32.0 * eps;
        let cosel = f[0].hypot(f[1]);
        for (n, v) in [("forward", &f), ("right", &r), ("up", &u)] {
            check!((len(v) - 1.0).abs() <= tol, "bad-axes", "{n} is {v:?}");
        }
        check!(dot(&f, &r).abs() <= tol && dot(&f, &u).abs() <= tol && dot(&r, &u).abs() <= tol, "bad-axes", "axes {f:?} {r:?} {u:?} are not at right angles");
        check!(u[2] >= -tol, "bad-axes", "up is {u:?}");
        if cosel > 1e-7 {
            check!(r[2].abs() <= tol, "bad-axes", "right is {r:?} with the view {f:?}");
            near("bad-axes", "the right axis", &r, &[-f[1] / cosel, f[0] / cosel, 0.0], tol);
        }
        let (tg, ds) = (vv(&cam.target), cam.distance.val());
        near("bad-position", "the position", &p, &sub(&tg, &times(&f, ds)), tol * (len(&tg) + ds));
        if chance(1, 4) {
            view::<T>(&cam, &p, &tg, &u);
        }
        nontrivial();
    }
}
fn one_drag<T: Num>(cam: &mut OrbitCamera<T>, d: Drag) {
    let eps = T::E;
    let before = vv(&call("forward", || cam.forward()));
    let el = before[2].clamp(-1.0, 1.0).asin();
    let flat = before[0].hypot(before[1]);
    let sens = cam.orbit_sens.val();
    let n = T::of;
    let (want, tol, angle_only): (V, f64, Option<f64>);
    let loose;
    match d {
        Drag::Set(y, p) => {
            probe("set");
            call("set_angles", || cam.set_angles(n(y), n(p)));
            let (y, p) = (round::<T>(y), round::<T>(p));
            want = [p.cos() * y.cos(), p.cos() * y.sin(), p.sin()];
            loose = 0.0;
            (tol, angle_only) = (32.0 * eps + loose, None);
            check!(cam.yaw.val() == y && cam.pitch.val() == p, "wrong-readout", "set to {y}, {p}; reads {:?}, {:?}", cam.yaw, cam.pitch);
        }
        Drag::Orbit(..) | Drag::OrbitPx(..) => {
            let (dy, dp);
            if let Drag::OrbitPx(x, y) = d {
                probe("orbit_pixels");
                call("apply_orbit_pixels", || cam.apply_orbit_pixels(n(x), n(y)));
                (dy, dp) = (-round::<T>(x) * sens, -round::<T>(y) * sens);
                loose = 2.0 * eps * (dy.abs() + dp.abs());
            } else {
                let Drag::Orbit(y, p) = d else { unreachable!() };
                probe("orbit");
                call("apply_orbit_angles", || cam.apply_orbit_angles(n(y), n(p)));
                (dy, dp) = (round::<T>(y), round::<T>(p));
                loose = 0.0;
            }
            let (sy, cy) = dy.sin_cos();
            let (x, y) = if flat > 0.0 { (before[0] / flat, before[1] / flat) } else { (1.0, 0.0) };
            // along the meridian, from where the turn left it
            let (s, c) = dp.sin_cos();
            let h = flat * c - before[2] * s;
            want = [h * (x * cy - y * sy), h * (x * sy + y * cy), before[2] * c + flat * s];
            if (el + dp).abs() > PI / 2.0 {
                probe("over_the_pole");
            }
            tol = 64.0 * eps + loose + 64.0 * eps / flat.max(1e-300) * s.abs();
            angle_only = if flat < 1e4 * eps || flat < 2e-8 {
                probe("near_pole");
                Some(c)
            } else {
                None
            };
        }
        Drag::World(..) | Drag::WorldPx(..) => {
            let (a, b);
            if let Drag::WorldPx(x, y) = d {
                probe("world_pixels");
                call("apply_orbit_world_pixels", || cam.apply_orbit_world_pixels(n(x), n(y)));
                (a, b) = (-round::<T>(y) * sens, -round::<T>(x) * sens);
                loose = 2.0 * eps * (a.abs() + b.abs());
            } else {
                let Drag::World(x, y) = d else { unreachable!() };
                probe("world");
                call("apply_orbit_world_angles", || cam.apply_orbit_world_angles(n(x), n(y)));
                (a, b) = (round::<T>(x), round::<T>(y));
                loose = 0.0;
            }
            // things turn with the axes here
            want = app(&turn(0, -a), &app(&turn(1, -b), &before));
            (tol, angle_only) = (64.0 * eps + loose, None);
        }
    }
    let f = vv(&call("forward", || cam.forward()));
    match angle_only {
        None => near("wrong-view", &format!("{d:?} from the view {before:?}"), &f, &want, tol),
        Some(c) => {
            // at the pole only the size of the turn is settled
            let got = dot(&f, &before);
            let slack = 256.0 * eps + 4.0 * flat + loose;
            check!((got - c).abs() <= slack, "wrong-view", "{d:?} from the view {before:?} led to {f:?}, a turn with cosine {got} instead of {c}");
        }
    }
    if !matches!(d, Drag::Set(..)) {
        check!((cam.pitch.val().sin() - f[2]).abs() <= 8.0 * eps, "wrong-readout", "pitch reads {:?} with the view {f:?}", cam.pitch);
        let h = f[0].hypot(f[1]);
        if h > 1e-3 {
            let y = cam.yaw.val();
            check!((y.cos() * h - f[0]).abs() <= 32.0 * eps && (y.sin() * h - f[1]).abs() <= 32.0 * eps, "wrong-readout", "yaw reads {y} with the view {f:?}");
        }
    }
}
fn view<T: Num>(cam: &OrbitCamera<T>, eye: &V, target: &V, up: &V) {
    probe("view");
    let d = cam.distance.val();
    let far = len(eye) + len(target) + d;
    let eps = T::E * far / d;
    let m = call("look_at", || look_at::<T, F>(&cart(eye), &cart(target), &cart(up)));
    let m: [[f64; 4]; 4] = m.data.map(|r| r.map(T::val));
    let go = |m: &[[f64; 4]; 4], p: &V| -> V { std::array::from_fn(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3]) };
    let tol = 64.0 * eps;
    let rot: M = std::array::from_fn(|i| [m[i][0], m[i][1], m[i][2]]);
    let o = dist(&mul(&rot, &tr(&rot)), &ID);
    check!(o <= tol && m[3] == [0.0, 0.0, 0.0, 1.0], "bad-view", "the view matrix {m:?} is {o:e} from a rigid motion");
    near("bad-view", "the eye's place in the view", &go(&m, eye), &[0.0; 3], tol * far);
    near("bad-view", "the target's place in the view", &go(&m, target), &[0.0, 0.0, -d], tol * far);
    check!(dot(&rot[1], up) > 0.0, "bad-view", "the view is upside down: {m:?} for up {up:?}");
    let (t, tx) = rv::<T>(&times(&direction(), d * unit()));
    let mt = call("translate", || translate(&look_at::<T, F>(&cart(eye), &cart(target), &cart(up)), &t));
    let mt: [[f64; 4]; 4] = mt.data.map(|r| r.map(T::val));
    let q = times(&direction(), d);
    let moved: V = std::array::from_fn(|i| q[i] + tx[i]);
    near("bad-view", "a point moved before the view", &go(&mt, &q), &go(&m, &moved), tol * (far + d));
}
fn cameras() {
    if chance(1, 2) {
        camera::<f64>()
    } else {
        camera::<f32>()
    }
}
