//! C32: kernels chosen at run time, on simulated processors, by threads that race to be the first.
use super::Prop;
use crate::check;
use crate::sim::cpu::Model;
use crate::sim::*;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;

pub fn props() -> Vec<Prop> {
    cpu::locate();
    vec![Prop {
        id: "C32",
        run: kernels,
        quick: 60_000,
        thorough: 1_500_000,
        rule: "One to three threads race through the first and later calls of dot products and matrix products of generated shapes and values on a processor whose reported features are set before the run; operands end or begin at an inaccessible page; in part of the runs every instruction is decoded before it executes and one the processor lacks is a violation. Results are compared with exact sums in 128-bit floats and must be the same bits in every thread and call.",
        want: &["baseline", "avx", "avx_fma", "fma_only", "native", "native_cold", "racing", "instruction_preemption", "decoded", "dot4", "vec4", "vec6", "product_simd", "product_plain", "vector_plain", "dot_plain", "guarded_end", "guarded_start", "single", "double", "nan", "infinite", "cancelling", "denormal", "repeated", "square"],
        real: &["aether_core::math (vector, matrix, arch::x86)", "std's CPU feature detection and OnceLock"],
        stub: &["reported CPU features (std's detection cache)", "thread scheduling and creation (pthread/futex)"],
        assume: &["x86-64 with at least the features of the model", "sums whose magnitude nears the type's limit are not judged"],
    }]
}
trait Num: Real + Copy + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    const TINY: f64;
    const MAX: f64;
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn f64(self) -> f64;
}
impl Num for f64 {
    const EPS: f64 = 1.2e-16;
    const TINY: f64 = 5e-324;
    const MAX: f64 = f64::MAX / 4.0;
    const NAME: &'static str = "f64";
    fn of(v: f64) -> f64 {
        v
    }
    fn f64(self) -> f64 {
        self
    }
}
impl Num for f32 {
    const EPS: f64 = 6e-8;
    const TINY: f64 = 1.5e-45;
    const MAX: f64 = f32::MAX as f64 / 4.0;
    const NAME: &'static str = "f32";
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f64(self) -> f64 {
        self as f64
    }
}
#[derive(Clone, Copy, Debug)]
enum Want {
    Near(f64, f64),
    Is(f64),
    Nan,
    Free,
}
/// The sum of products, in any order and with any rounding of its steps.
fn sum<F: Num>(terms: &[(F, F)]) -> Want {
    let n = terms.len() as f64;
    let (mut s, mut a) = (0f128, 0f128);
    let (mut nan, mut pos, mut neg) = (false, false, false);
    let mut subtle = false;
    for (x, y) in terms {
        let (x, y) = (x.f64(), y.f64());
        let p = x * y;
        if x.is_nan() || y.is_nan() || (x.is_infinite() || y.is_infinite()) && p.is_nan() {
            nan = true;
        } else if x.is_infinite() || y.is_infinite() {
            if p > 0.0 {
                pos = true
            } else {
                neg = true
            }
        } else {
            s += x as f128 * y as f128;
            a += (x as f128 * y as f128).abs();
            subtle |= p != 0.0 && (p as f64).abs() < F::TINY * 1e3;
        }
    }
    if nan {
        probe("nan");
        return Want::Nan;
    }
    if !(a < F::MAX as f128) {
        return Want::Free;
    }
    if pos || neg {
        probe("infinite");
        return match (pos, neg) {
            (true, true) => Want::Nan,
            (true, false) => Want::Is(f64::INFINITY),
            _ => Want::Is(f64::NEG_INFINITY),
        };
    }
    if subtle {
        probe("denormal");
    }
    if s.abs() * 1e6 < a {
        probe("cancelling");
    }
    let tol = (n + 1.0) * F::EPS * a as f64 + (n + 1.0) * F::TINY;
    Want::Near(s as f64, tol * 1.01 + (s as f64).abs() * 1.2e-16)
}
fn ok(w: &Want, v: f64) -> bool {
    match *w {
        Want::Near(x, t) => (v - x).abs() <= t,
        Want::Is(x) => v == x,
        Want::Nan => v.is_nan(),
        Want::Free => true,
    }
}
#[derive(Clone, Copy)]
enum Values {
    Ints,
    Plain,
    Wide,
    Tiny,
    Huge,
    Cancel,
    Odd,
}
fn value<F: Num>(v: Values, i: usize) -> F {
    let u = choose(200_001) as f64 / 100_000.0 - 1.0;
    F::of(match v {
        Values::Ints => choose(19) as f64 - 9.0,
        Values::Plain => u * 10.0,
        Values::Wide => u * (10f64).powi(choose(25) as i32 - 12),
        Values::Tiny => u * F::TINY.sqrt() * (choose(64) as f64),
        Values::Huge => u * F::MAX.sqrt() * 0.1,
        Values::Cancel => {
            if i % 2 == 0 {
                1.0 + choose(3) as f64 * 2.0 * F::EPS
            } else {
                -1.0
            }
        }
        Values::Odd => match choose(40) {
            0 => f64::NAN,
            1 | 2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 | 5 => 0.0,
            6 => -0.0,
            _ => u * 4.0,
        },
    })
}
/// A copy of `v` that ends (or begins) at an inaccessible page.
fn guarded<T: Copy + 'static>(v: T) -> &'static T {
    unsafe {
        let size = std::mem::size_of::<T>();
        let pages = size.div_ceil(4096) + 1;
        let p = libc::mmap(std::ptr::null_mut(), (pages + 1) * 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        if p as usize == usize::MAX {
            harness_error("mmap");
        }
        let at = if chance(2, 3) {
            probe("guarded_end");
            libc::mprotect(p.add(pages * 4096) as *mut _, 4096, libc::PROT_NONE);
            p.add(pages * 4096 - size)
        } else {
            probe("guarded_start");
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            p.add(4096)
        };
        let at = at as *mut T;
        std::ptr::write(at, v);
        &*at
    }
}
struct Job {
    name: String,
    run: Box<dyn Fn() -> Vec<f64> + Send + Sync>,
    want: Vec<Want>,
}
fn kinds() -> (Values, Values) {
    let one = || pick(&[Values::Ints, Values::Plain, Values::Plain, Values::Wide, Values::Odd, Values::Odd]);
    match choose(8) {
        0 => (Values::Tiny, Values::Tiny),
        1 => (Values::Huge, Values::Huge),
        2 => (Values::Cancel, pick(&[Values::Plain, Values::Ints])),
        3 => (Values::Plain, Values::Tiny),
        _ => (one(), one()),
    }
}
fn matrix<F: Num, const M: usize, const N: usize>(v: Values) -> &'static Matrix<F, M, N> {
    guarded(Matrix { data: std::array::from_fn(|_| std::array::from_fn(|j| value::<F>(v, j))) })
}
fn vector<F: Num, const N: usize>(v: Values) -> &'static Vector<F, N> {
    guarded(Vector { data: std::array::from_fn(|j| value::<F>(v, j)) })
}
fn flat<F: Num, const M: usize, const N: usize>(m: &Matrix<F, M, N>) -> Vec<f64> {
    m.data.iter().flatten().map(|v| v.f64()).collect()
}
fn job(name: String, want: Vec<Want>, run: impl Fn() -> Vec<f64> + Send + Sync + 'static) -> Job {
    Job { name, want, run: Box::new(run) }
}
fn times<F: Num, const M: usize, const N: usize>(a: &Matrix<F, M, N>, b: &Vector<F, N>) -> Vec<Want> {
    (0..M).map(|i| sum(&(0..N).map(|k| (a.data[i][k], b.data[k])).collect::<Vec<_>>())).collect()
}
fn squares<F: Num, const N: usize>(a: &Matrix<F, N, N>, b: &Matrix<F, N, N>) -> Vec<Want> {
    probe("square");
    let mut want = vec![];
    for i in 0..N {
        for j in 0..N {
            want.push(sum(&(0..N).map(|k| (a.data[i][k], b.data[k][j])).collect::<Vec<_>>()));
        }
    }
    want
}
macro_rules! float_jobs {
    ($name:ident, $f:ty) => {
        mod $name {
            use super::*;
            type F = $f;
            fn product<const M: usize, const N: usize, const P: usize>() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, M, N>(x), matrix::<F, N, P>(y));
                let mut want = vec![];
                for i in 0..M {
                    for j in 0..P {
                        want.push(sum(&(0..N).map(|k| (a.data[i][k], b.data[k][j])).collect::<Vec<_>>()));
                    }
                }
                if chance(2, 3) {
                    probe("product_simd");
                    job(format!("{} mul_matrix_simd {M}x{N}x{P}: {a:?} {b:?}", F::NAME), want, move || flat(&a.mul_matrix_simd(b)))
                } else {
                    probe("product_plain");
                    let how = choose(4);
                    job(format!("{} matrix product {M}x{N}x{P}: {a:?} {b:?}", F::NAME), want, move || {
                        flat(&match how {
                            0 => *a * *b,
                            1 => *a * b,
                            2 => a * *b,
                            _ => a * b,
                        })
                    })
                }
            }
            fn square3() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, 3, 3>(x), matrix::<F, 3, 3>(y));
                job(format!("{} mul_mat3_simd: {a:?} {b:?}", F::NAME), squares(a, b), move || flat(&a.mul_mat3_simd(b)))
            }
            fn square4() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, 4, 4>(x), matrix::<F, 4, 4>(y));
                job(format!("{} mul_mat4_simd: {a:?} {b:?}", F::NAME), squares(a, b), move || flat(&a.mul_mat4_simd(b)))
            }
            fn square6() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, 6, 6>(x), matrix::<F, 6, 6>(y));
                job(format!("{} mul_mat6_simd: {a:?} {b:?}", F::NAME), squares(a, b), move || flat(&a.mul_mat6_simd(b)))
            }
            fn by_vector<const M: usize, const N: usize>() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, M, N>(x), vector::<F, N>(y));
                probe("vector_plain");
                let how = choose(4);
                job(format!("{} matrix times vector {M}x{N}: {a:?} {b:?}", F::NAME), times(a, b), move || {
                    let r = match how {
                        0 => *a * *b,
                        1 => *a * b,
                        2 => a * *b,
                        _ => a * b,
                    };
                    r.data.iter().map(|v| v.f64()).collect()
                })
            }
            fn vec4<const M: usize>() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, M, 4>(x), vector::<F, 4>(y));
                probe("vec4");
                job(format!("{} mul_vec4_simd {M}: {a:?} {b:?}", F::NAME), times(a, b), move || a.mul_vec4_simd(b).data.iter().map(|v| v.f64()).collect())
            }
            fn vec6<const M: usize>() -> Job {
                let (x, y) = kinds();
                let (a, b) = (matrix::<F, M, 6>(x), vector::<F, 6>(y));
                probe("vec6");
                job(format!("{} mul_vec6_simd {M}: {a:?} {b:?}", F::NAME), times(a, b), move || a.mul_vec6_simd(b).data.iter().map(|v| v.f64()).collect())
            }
            fn terms<const N: usize>(a: &Vector<F, N>, b: &Vector<F, N>) -> Vec<Want> {
                vec![sum(&(0..N).map(|k| (a.data[k], b.data[k])).collect::<Vec<_>>())]
            }
            fn dot4() -> Job {
                let (x, y) = kinds();
                let (a, b) = (vector::<F, 4>(x), vector::<F, 4>(y));
                probe("dot4");
                job(format!("{} dot4_simd: {a:?} {b:?}", F::NAME), terms(a, b), move || vec![a.dot4_simd(b).f64()])
            }
            fn dot<const N: usize>() -> Job {
                let (x, y) = kinds();
                let (a, b) = (vector::<F, N>(x), vector::<F, N>(y));
                probe("dot_plain");
                job(format!("{} dot {N}: {a:?} {b:?}", F::NAME), terms(a, b), move || vec![a.dot(b).f64()])
            }
            pub fn any(small: bool) -> Job {
                match choose(8) {
                    0 => dot4(),
                    1 => match choose(7) {
                        0 => vec4::<1>(),
                        1 => vec4::<2>(),
                        2 => vec4::<3>(),
                        3 => vec4::<4>(),
                        4 => vec4::<6>(),
                        5 => vec4::<7>(),
                        _ => vec4::<9>(),
                    },
                    2 => match choose(7) {
                        0 => vec6::<1>(),
                        1 => vec6::<2>(),
                        2 => vec6::<3>(),
                        3 => vec6::<4>(),
                        4 => vec6::<6>(),
                        5 => vec6::<7>(),
                        _ => vec6::<9>(),
                    },
                    3 => match choose(8) {
                        7 => dot::<35>(),
                        0 => dot::<1>(),
                        1 => dot::<2>(),
                        2 => dot::<3>(),
                        3 => dot::<4>(),
                        4 => dot::<7>(),
                        5 => dot::<8>(),
                        _ => dot::<13>(),
                    },
                    4 => match choose(9) {
                        8 => by_vector::<2, 35>(),
                        0 => by_vector::<1, 1>(),
                        1 => by_vector::<3, 3>(),
                        2 => by_vector::<2, 5>(),
                        3 => by_vector::<4, 4>(),
                        4 => by_vector::<6, 6>(),
                        5 => by_vector::<7, 2>(),
                        6 => by_vector::<5, 9>(),
                        _ => by_vector::<9, 17>(),
                    },
                    _ => match choose(if small { 14 } else { 20 }) {
                        0 => product::<1, 1, 1>(),
                        1 => product::<2, 3, 5>(),
                        2 => product::<3, 3, 3>(),
                        3 => product::<4, 4, 4>(),
                        4 => product::<7, 5, 6>(),
                        5 => product::<6, 6, 6>(),
                        6 => product::<4, 2, 8>(),
                        7 => product::<3, 8, 9>(),
                        8 => product::<1, 4, 12>(),
                        9 => product::<5, 3, 7>(),
                        10 => product::<9, 1, 11>(),
                        11 => square3(),
                        12 => square4(),
                        13 => square6(),
                        14 => product::<16, 16, 16>(),
                        15 => product::<2, 9, 17>(),
                        16 => product::<3, 12, 15>(),
                        17 => product::<3, 18, 5>(),
                        18 => product::<17, 2, 33>(),
                        _ => product::<1, 33, 20>(),
                    },
                }
            }
        }
    };
}
float_jobs!(double, f64);
float_jobs!(single, f32);

static mut JOBS: Vec<Job> = Vec::new();
fn kernels() {
    let model = pick(&[Model::Baseline, Model::Avx, Model::AvxFma, Model::FmaOnly, Model::Native, Model::NativeCold]);
    let stepped = chance(1, 12);
    let n = if stepped { range(1, 2) } else { range(1, 5) } as usize;
    for _ in 0..n {
        let j = if chance(1, 2) {
            probe("single");
            single::any(stepped)
        } else {
            probe("double");
            double::any(stepped)
        };
        unsafe { JOBS.push(j) };
    }
    let forbidden = cpu::assume(model);
    if forbidden.is_some() {
        probe(match model {
            Model::Baseline => "baseline",
            Model::Avx => "avx",
            Model::AvxFma => "avx_fma",
            Model::FmaOnly => "fma_only",
            Model::Native => "native",
            Model::NativeCold => "native_cold",
        });
        fired("cpu_model");
    }
    let threads = range(1, 3) as usize;
    describe(format!("{model:?}, {threads} threads, {:?}", unsafe { JOBS.iter().map(|j| j.name.split(':').next().unwrap().to_string()).collect::<Vec<_>>() }));
    sched::set_switch_probability(1, 2);
    if stepped {
        step::preemptive(pick(&[20, 100, 1000]));
        if let Some(f) = forbidden {
            probe("decoded");
            step::FORBIDDEN.store(f as u64, std::sync::atomic::Ordering::Relaxed);
        }
    }
    if threads > 1 {
        probe("racing");
        nontrivial();
    }
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..n).collect();
            for _ in 0..choose(3) {
                o.push(choose(n as u64) as usize);
                probe("repeated");
            }
            o.rotate_left(choose(n as u64) as usize);
            o
        })
        .collect();
    let hs = match sut(|| {
        orders
            .iter()
            .cloned()
            .map(|order| {
                std::thread::spawn(move || {
                    let mut out = vec![];
                    for j in order {
                        let r = sut(|| unsafe { (JOBS[j].run)() });
                        core(|| {
                            out.push((j, r));
                            sched::yield_point();
                        });
                    }
                    out
                })
            })
            .collect::<Vec<_>>()
    }) {
        Ok(h) => h,
        Err(m) => violation("panic", &m),
    };
    let mut first: Vec<Option<Vec<f64>>> = vec![None; n];
    for (t, h) in hs.into_iter().enumerate() {
        let got = match sut(|| h.join().unwrap()) {
            Ok(g) => g,
            Err(m) => violation("panic", &m),
        };
        for (j, r) in got {
            let job = unsafe { &JOBS[j] };
            let r = match r {
                Ok(r) => r,
                Err(m) => violation("panic", &format!("{} panicked: {m}", job.name)),
            };
            check!(r.len() == job.want.len(), "wrong-result", "{} has {} elements", job.name, r.len());
            for (i, v) in r.iter().enumerate() {
                check!(ok(&job.want[i], *v), "wrong-result", "on {model:?}, element {i} is {v}, the exact value {:?}: {}", job.want[i], job.name);
            }
            match &first[j] {
                None => first[j] = Some(r),
                Some(f) => {
                    let same = f.iter().zip(&r).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
                    check!(same, "not-repeatable", "on {model:?}, thread {t} got {r:?} where another call got {f:?}: {}", job.name);
                }
            }
        }
    }
}
