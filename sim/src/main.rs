//! Deterministic simulator for the aether crates. See /verif/DESIGN.md.
#![cfg_attr(feature = "opt", feature(f16, f128))]
#![cfg_attr(feature = "solve", feature(f16))]
#![cfg_attr(feature = "simd", feature(f128))]
#![allow(dead_code, static_mut_refs, clippy::missing_transmute_annotations)]
mod props;
mod runner;
#[macro_use]
mod sim;

use std::sync::atomic::{AtomicUsize, Ordering};

static ARGC: AtomicUsize = AtomicUsize::new(0);
static ARGV: AtomicUsize = AtomicUsize::new(0);
#[used]
#[link_section = ".init_array"]
static CAPTURE: extern "C" fn(i32, *mut *mut libc::c_char, *const *const libc::c_char) = capture;
extern "C" fn capture(argc: i32, argv: *mut *mut libc::c_char, _envp: *const *const libc::c_char) {
    ARGC.store(argc as usize, Ordering::Relaxed);
    ARGV.store(argv as usize, Ordering::Relaxed);
}
/// Replaces what `std::env::args()` returns from now on (used in forked children only).
pub fn set_args(args: &[String]) {
    let (argc, argv) = (ARGC.load(Ordering::Relaxed), ARGV.load(Ordering::Relaxed) as *mut *mut libc::c_char);
    assert!(args.len() < argc, "too many arguments for the padded argv");
    for i in 0..argc {
        unsafe {
            *argv.add(i) = match args.get(i) {
                Some(a) => std::ffi::CString::new(a.as_str()).unwrap().into_raw(),
                None => std::ptr::null_mut(),
            };
        }
    }
}

const PAD: &str = "\u{1}pad";
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if !args.iter().any(|a| a == PAD) {
        // Fixed addresses (instruction-count preemption, address-dependent code) and spare argv slots.
        unsafe { libc::personality(0x0040000) };
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let mut v: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap()).collect();
        for _ in 0..48 {
            v.push(std::ffi::CString::new(PAD).unwrap());
        }
        let mut p: Vec<*const libc::c_char> = v.iter().map(|c| c.as_ptr()).collect();
        p.push(std::ptr::null());
        unsafe { libc::execv(exe.as_ptr(), p.as_ptr()) };
        eprintln!("re-exec failed");
        std::process::exit(2);
    }
    let args: Vec<String> = args.into_iter().filter(|a| a != PAD).collect();
    sim::step::setup();
    sim::install_panic_hook();
    std::process::exit(runner::cli(&args[1..]));
}
