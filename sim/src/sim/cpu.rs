//! The processor the code under test believes it runs on: std's cache of detected CPU features, rewritten before a run.
//! Programs choose kernels by it at run time, so it is part of the environment.
use std::sync::OnceLock;

extern "C" {
    static __executable_start: u8;
}
/// Address and number of words of the cache.
static CACHE: OnceLock<Option<(usize, usize)>> = OnceLock::new();

/// Finds the cache in this executable. Called once, before any run starts.
pub fn locate() {
    CACHE.get_or_init(|| find(&std::fs::read("/proc/self/exe").ok()?));
}
fn find(elf: &[u8]) -> Option<(usize, usize)> {
    let u16at = |o: usize| Some(u16::from_le_bytes(elf.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32at = |o: usize| Some(u32::from_le_bytes(elf.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64at = |o: usize| Some(u64::from_le_bytes(elf.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shentsize, shnum) = (u64at(0x28)?, u16at(0x3a)?, u16at(0x3c)?);
    for i in 0..shnum {
        let sh = shoff + i * shentsize;
        if u32at(sh + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64at(sh + 0x18)?, u64at(sh + 0x20)?, u32at(sh + 0x28)?);
        let stroff = u64at(shoff + link * shentsize + 0x18)?;
        for s in (off..off + size).step_by(24) {
            let name = stroff + u32at(s)?;
            let end = name + elf.get(name..)?.iter().position(|b| *b == 0)?;
            let name = &elf[name..end];
            let has = |p: &[u8]| name.windows(p.len()).any(|w| w == p);
            if has(b"std_detect") && has(b"cache") && has(b"5CACHE") {
                let bytes = u64at(s + 16)?;
                if bytes >= 8 && bytes <= 64 && bytes % 8 == 0 {
                    return Some((unsafe { &__executable_start as *const u8 as usize } + u64at(s + 8)?, bytes / 8));
                }
            }
        }
    }
    None
}
fn words() -> Option<&'static mut [u64]> {
    let (a, n) = (*CACHE.get()?)?;
    Some(unsafe { std::slice::from_raw_parts_mut(a as *mut u64, n) })
}
fn detected() -> [bool; 4] {
    [std::is_x86_feature_detected!("avx"), std::is_x86_feature_detected!("fma"), std::is_x86_feature_detected!("avx2"), std::is_x86_feature_detected!("avx512f")]
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model {
    /// no AVX at all
    Baseline,
    /// AVX without FMA
    Avx,
    /// AVX2 and FMA, no AVX-512
    AvxFma,
    /// FMA reported without AVX: reaches the 128-bit FMA kernels
    FmaOnly,
    Native,
    /// as the host, and not asked yet: the first callers detect it
    NativeCold,
}
/// What instructions a program that asked may not use: 1 AVX, 2 FMA, 4 AVX-512.
pub fn assume(m: Model) -> Option<u32> {
    let native = detected();
    let w = words()?;
    let bit = |f: usize| -> Vec<(usize, u64)> {
        let mut v = vec![];
        for i in 0..w.len() {
            for b in 0..63 {
                let w = words().unwrap();
                let old = w[i];
                if old >> b & 1 == 1 {
                    unsafe { std::ptr::write_volatile(&mut w[i], old & !(1 << b)) };
                    let now = detected();
                    if native[f] && !now[f] {
                        v.push((i, 1 << b));
                    }
                    unsafe { std::ptr::write_volatile(&mut w[i], old) };
                }
            }
        }
        v
    };
    let hide: &[usize] = match m {
        Model::Baseline => &[0, 1, 2, 3],
        Model::Avx => &[1, 2, 3],
        Model::AvxFma => &[3],
        Model::FmaOnly => &[0, 2, 3],
        Model::Native => &[],
        Model::NativeCold => {
            for x in words()?.iter_mut() {
                unsafe { std::ptr::write_volatile(x, 0) };
            }
            &[]
        }
    };
    let clear: Vec<(usize, u64)> = hide.iter().flat_map(|f| bit(*f)).collect();
    for (i, b) in clear {
        let w = words().unwrap();
        unsafe { std::ptr::write_volatile(&mut w[i], w[i] & !b) };
    }
    let now = if m == Model::NativeCold { native } else { detected() };
    if m != Model::NativeCold && hide.iter().any(|f| now[*f]) {
        return None;
    }
    if m == Model::FmaOnly {
        // no such processor: FMA instructions are encoded as AVX ones. The model only selects the kernels.
        return Some(0);
    }
    Some(!now[0] as u32 | (!now[1] as u32) << 1 | (!now[3] as u32) << 2)
}
/// Whether the instruction at `p` needs something of `forbidden`, and what.
pub unsafe fn needs(p: *const u8, forbidden: u32) -> Option<&'static str> {
    let mut p = p;
    // legacy prefixes
    for _ in 0..4 {
        match *p {
            0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 => p = p.add(1),
            _ => break,
        }
    }
    match *p {
        0xc5 if forbidden & 1 != 0 => Some("AVX"),
        0xc4 => {
            let fma = *p.add(1) & 0x1f == 2 && matches!(*p.add(3), 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf);
            // bit manipulation instructions share the prefix and are no vector instructions
            let bmi = *p.add(1) & 0x1f != 1 && matches!(*p.add(3), 0xf0..=0xf7);
            if fma && forbidden & 2 != 0 {
                Some("FMA")
            } else if !bmi && !fma && forbidden & 1 != 0 {
                Some("AVX")
            } else {
                None
            }
        }
        0x62 if forbidden & 4 != 0 => Some("AVX-512"),
        _ => None,
    }
}
