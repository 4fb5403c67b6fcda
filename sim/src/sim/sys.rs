//! The seam: this executable defines the libc entry points std uses for I/O, time, entropy and threads.
//! Calls made by code under test are served by the simulator, all others go to the kernel.
#![allow(clippy::missing_safety_doc)]
use super::vfs::{Fd, Node, FD_BASE};
use super::*;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

#[inline]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}
pub unsafe fn real_fn(slot: &AtomicUsize, name: &CStr) -> usize {
    let mut p = slot.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        slot.store(p, Ordering::Relaxed);
    }
    p
}
macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static S: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $ty>(real_fn(&S, CStr::from_bytes_with_nul_unchecked(concat!($name, "\0").as_bytes())))
    }};
}

fn path_of(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
fn is_v(fd: c_int) -> bool {
    fd >= FD_BASE
}
/// The system's fonts and their configuration are not part of any property: reads of them go to the kernel.
fn is_font(p: *const c_char) -> bool {
    if p.is_null() {
        return false;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    !b.starts_with(b"/sim") && b.starts_with(b"/") && b.windows(4).any(|w| w == b"font")
}

// ------------------------------------------------------------------ open / close
fn watch(path: &str) {
    let s = sim();
    if let Some((p, v)) = &mut s.watch {
        if let Some(i) = p.iter().position(|x| x == path) {
            v.push((s.mono, i));
        }
    }
}
fn s_open(path: String, flags: c_int) -> isize {
    before(Op::Open);
    watch(&path);
    sim().opened.insert(path.clone());
    if fault(Fault::OpenEnoent) {
        return fail(libc::ENOENT);
    }
    if fault(Fault::OpenEacces) {
        return fail(libc::EACCES);
    }
    if fault(Fault::OpenEmfile) {
        return fail(libc::EMFILE);
    }
    if fault(Fault::OpenEio) {
        return fail(libc::EIO);
    }
    // opening a directory does not block, so it is not interrupted
    if flags & libc::O_DIRECTORY == 0 && fault(Fault::Eintr) {
        return fail(libc::EINTR);
    }
    let s = sim();
    let acc = flags & libc::O_ACCMODE;
    let writing = acc != libc::O_RDONLY;
    let (dir, name, ino) = match s.vfs.resolve(&path, true) {
        Ok(x) => x,
        Err(e) => {
            ev(|| format!("open {path} -> errno {e}"));
            return fail(e);
        }
    };
    let ino = match ino {
        Some(_) if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 => return fail(libc::EEXIST),
        Some(i) => i,
        None => {
            if flags & libc::O_CREAT == 0 {
                ev(|| format!("open {path} -> ENOENT"));
                return fail(libc::ENOENT);
            }
            let n = s.vfs.alloc(Node::File(Vec::new()));
            if let Node::Dir(m) = &mut s.vfs.inodes.get_mut(&dir).unwrap().node {
                m.insert(name, n);
            }
            n
        }
    };
    let inode = s.vfs.inodes.get_mut(&ino).unwrap();
    if !inode.readable {
        ev(|| format!("open {path} -> EACCES"));
        return fail(libc::EACCES);
    }
    let is_dir = matches!(inode.node, Node::Dir(_));
    if is_dir && writing {
        return fail(libc::EISDIR);
    }
    if !is_dir && flags & libc::O_DIRECTORY != 0 {
        return fail(libc::ENOTDIR);
    }
    if flags & libc::O_TRUNC != 0 && writing {
        if let Node::File(d) = &mut inode.node {
            d.clear();
        }
    }
    let fd = s.vfs.new_fd(Fd { ino, pos: 0, write: writing, append: flags & libc::O_APPEND != 0, dir_list: vec![], dir_pos: 0 });
    ev(|| format!("open {path} flags={flags:#x} -> fd {} ino {ino}", fd - FD_BASE));
    fd as isize
}
unsafe fn p_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> isize {
    if !installed() {
        let p = CStr::from_ptr(path).to_bytes();
        // minstant's constructor: without this file it uses the system clock instead of rdtsc.
        if p.starts_with(b"/sys/devices/system/clocksource") {
            return fail(libc::ENOENT);
        }
    }
    ret(raw(libc::SYS_openat, dirfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() && is_font(path) && flags & libc::O_ACCMODE != libc::O_RDONLY {
        return fail(libc::EROFS) as c_int;
    }
    if active() && !is_font(path) {
        return core(|| s_open(path_of(path), flags)) as c_int;
    }
    p_open(libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() && !is_font(path) {
        let p = at_path(dirfd, path_of(path));
        return core(|| s_open(p, flags)) as c_int;
    }
    p_open(dirfd, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat64(dirfd, path, flags, mode)
}
fn at_path(dirfd: c_int, p: String) -> String {
    if p.starts_with('/') || dirfd == libc::AT_FDCWD {
        return p;
    }
    // directory fds: find any path of the inode
    let s = sim();
    if let Some(fd) = s.vfs.fds.get(&dirfd) {
        if let Some(base) = path_of_ino(fd.ino) {
            return format!("{base}/{p}");
        }
    }
    p
}
fn path_of_ino(want: u64) -> Option<String> {
    fn dfs(v: &Vfs, cur: u64, want: u64, acc: &mut String) -> bool {
        if cur == want {
            return true;
        }
        if let Node::Dir(m) = &v.inodes[&cur].node {
            for (n, c) in m {
                let l = acc.len();
                acc.push('/');
                acc.push_str(n);
                if dfs(v, *c, want, acc) {
                    return true;
                }
                acc.truncate(l);
            }
        }
        false
    }
    let mut a = String::new();
    let v = &sim().vfs;
    dfs(v, v.root, want, &mut a).then_some(a)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if installed() && is_v(fd) {
        return core(|| {
            if active_or_core_sut() {
                before(Op::Close);
            }
            match sim().vfs.fds.remove(&fd) {
                Some(_) => {
                    ev(|| format!("close fd {}", fd - FD_BASE));
                    0
                }
                None => {
                    ev(|| format!("close of unknown fd {}", fd - FD_BASE));
                    fail(libc::EBADF) as c_int
                }
            }
        });
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
fn active_or_core_sut() -> bool {
    get_sut() > 0
}

// ------------------------------------------------------------------ read / write / seek
fn s_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> isize {
    before(Op::Read);
    let s = sim();
    if fault(Fault::Eintr) {
        return fail(libc::EINTR);
    }
    if fault(Fault::EioRead) {
        return fail(libc::EIO);
    }
    let Some(f) = s.vfs.fds.get_mut(&fd) else { return fail(libc::EBADF) };
    let pos = at.unwrap_or(f.pos);
    let data = match &s.vfs.inodes[&f.ino].node {
        Node::File(d) => d,
        _ => return fail(libc::EISDIR),
    };
    let avail = (data.len() as u64).saturating_sub(pos) as usize;
    let mut k = n.min(avail);
    if k > 1 && fault(Fault::ShortRead) {
        k = 1 + choose(k as u64 - 1) as usize;
    }
    if k > 0 {
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(pos as usize), buf, k) };
    }
    if at.is_none() {
        f.pos += k as u64;
    }
    ev(|| format!("read fd {} @{pos} want {n} -> {k}", fd - FD_BASE));
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() && is_v(fd) {
        return core(|| s_read(fd, buf as *mut u8, n, None));
    }
    if active() && fd < 3 {
        return 0; // stdin is at end of file
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if active() && is_v(fd) {
        return core(|| s_read(fd, buf as *mut u8, n, Some(off as u64)));
    }
    ret(raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() && is_v(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
fn s_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> isize {
    if fd == 1 || fd == 2 {
        sim().stdout_bytes += n as u64;
        before(Op::Other);
        return n as isize;
    }
    before(Op::Write);
    let s = sim();
    if fault(Fault::Eintr) {
        return fail(libc::EINTR);
    }
    if n > 0 && fault(Fault::EioWrite) {
        return fail(libc::EIO);
    }
    if n > 0 && fault(Fault::Enospc) {
        // a full disk may still take part of the data
        let part = choose(n as u64) as usize;
        if part == 0 {
            return fail(libc::ENOSPC);
        }
        s.vfs.free = Some(part as u64);
    }
    let Some(f) = s.vfs.fds.get(&fd).cloned() else { return fail(libc::EBADF) };
    if !f.write {
        return fail(libc::EBADF);
    }
    let mut k = n;
    if let Some(free) = s.vfs.free {
        if n > 0 && free == 0 {
            // the disk frees up again right after the failing call
            s.vfs.free = None;
            count_hard();
            ev(|| format!("write fd {} -> ENOSPC", fd - FD_BASE));
            return fail(libc::ENOSPC);
        }
        k = k.min(free as usize);
        s.vfs.free = Some(free - k as u64);
    }
    if k > 1 && fault(Fault::ShortWrite) {
        k = 1 + choose(k as u64 - 1) as usize;
    }
    let src = unsafe { std::slice::from_raw_parts(buf, k) };
    let d = s.vfs.data_mut(f.ino);
    let pos = at.unwrap_or(if f.append { d.len() as u64 } else { f.pos }) as usize;
    if d.len() < pos {
        d.resize(pos, 0);
    }
    let over = (d.len() - pos).min(k);
    d[pos..pos + over].copy_from_slice(&src[..over]);
    d.extend_from_slice(&src[over..]);
    s.vfs.writes += 1;
    if at.is_none() {
        s.vfs.fds.get_mut(&fd).unwrap().pos = (pos + k) as u64;
    }
    ev(|| format!("write fd {} @{pos} {n} bytes -> {k} {:?}", fd - FD_BASE, String::from_utf8_lossy(&src[..k.min(48)])));
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if active() {
        return core(|| s_write(fd, buf as *const u8, n, None));
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if active() {
        return core(|| s_write(fd, buf as *const u8, n, Some(off as u64)));
    }
    ret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if active() {
        if fd == 1 || fd == 2 {
            let mut t = 0;
            for i in 0..cnt as usize {
                t += (*iov.add(i)).iov_len;
            }
            return t as ssize_t;
        }
        // gather, then one write: writev is atomic with respect to other threads
        let mut all = Vec::new();
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return core(|| s_write(fd, all.as_ptr(), all.len(), None));
    }
    ret(raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
fn s_seek(fd: c_int, off: i64, whence: c_int) -> isize {
    before(Op::Seek);
    if fault(Fault::SeekErr) {
        return fail(libc::EIO);
    }
    let s = sim();
    if s.vfs.unseekable {
        return fail(libc::ESPIPE);
    }
    let Some(f) = s.vfs.fds.get_mut(&fd) else { return fail(libc::EBADF) };
    let len = match &s.vfs.inodes[&f.ino].node {
        Node::File(d) => d.len() as i64,
        _ => 0,
    };
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        libc::SEEK_END => len,
        _ => return fail(libc::EINVAL),
    };
    let p = base + off;
    if p < 0 {
        return fail(libc::EINVAL);
    }
    f.pos = p as u64;
    ev(|| format!("seek fd {} {off} whence {whence} -> {p}", fd - FD_BASE));
    p as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if active() && is_v(fd) {
        return core(|| s_seek(fd, off, whence)) as i64;
    }
    ret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if active() {
        return core(|| {
            before(Op::Write);
            let s = sim();
            let Some(f) = s.vfs.fds.get(&fd).cloned() else { return fail(libc::EBADF) };
            if !f.write || s.vfs.unseekable {
                return fail(libc::EINVAL);
            }
            s.vfs.data_mut(f.ino).resize(len as usize, 0);
            ev(|| format!("ftruncate fd {} {len}", fd - FD_BASE));
            0
        }) as c_int;
    }
    ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() {
        core(|| before(Op::Other));
        return 0;
    }
    ret(raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() {
        core(|| before(Op::Other));
        return 0;
    }
    ret(raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if active() {
        core(|| before(Op::Other));
        return 0;
    }
    ret(raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ stat
struct St {
    mode: u32,
    size: u64,
    ino: u64,
    dev: u64,
    btime: Option<u64>,
    mtime: u64,
}
fn st_of(ino: u64) -> St {
    let s = sim();
    let i = &s.vfs.inodes[&ino];
    let (t, size) = match &i.node {
        Node::File(d) => (libc::S_IFREG, d.len() as u64),
        Node::Dir(_) => (libc::S_IFDIR, 4096),
        Node::Link(t) => (libc::S_IFLNK, t.len() as u64),
    };
    St { mode: t | 0o644, size, ino: i.ino_shown, dev: i.dev, btime: s.vfs.has_btime.then_some(i.btime), mtime: i.mtime }
}
fn s_stat_path(path: &str, follow: bool) -> Result<St, i32> {
    before(Op::Stat);
    watch(path);
    if fault(Fault::StatErr) {
        let e = pick(&[libc::EIO, libc::EACCES, libc::ENOENT]);
        if e == libc::ENOENT {
            fired("open_enoent");
        }
        return Err(e);
    }
    let s = sim();
    let r = match s.vfs.resolve(path, follow) {
        Ok((_, _, Some(i))) => Ok(st_of(i)),
        Ok(_) => Err(libc::ENOENT),
        Err(e) => Err(e),
    };
    ev(|| match &r {
        Ok(st) => format!("stat {path} -> ino {} size {}", st.ino, st.size),
        Err(e) => format!("stat {path} -> errno {e}"),
    });
    r
}
fn s_stat_fd(fd: c_int) -> Result<St, i32> {
    before(Op::Stat);
    if fault(Fault::StatErr) {
        return Err(libc::EIO);
    }
    let s = sim();
    let ino = s.vfs.fds.get(&fd).map(|f| f.ino).ok_or(libc::EBADF)?;
    let st = st_of(ino);
    ev(|| format!("fstat fd {} -> ino {} size {}", fd - FD_BASE, st.ino, st.size));
    Ok(st)
}
unsafe fn fill64(st: &St, out: *mut libc::stat64) {
    std::ptr::write_bytes(out, 0, 1);
    (*out).st_mode = st.mode;
    (*out).st_size = st.size as i64;
    (*out).st_ino = st.ino;
    (*out).st_dev = st.dev;
    (*out).st_nlink = 1;
    (*out).st_mtime = (st.mtime / 1_000_000_000) as i64;
    (*out).st_mtime_nsec = (st.mtime % 1_000_000_000) as i64;
}
unsafe fn stat_ret(r: Result<St, i32>, out: *mut libc::stat64) -> c_int {
    match r {
        Ok(st) => {
            fill64(&st, out);
            0
        }
        Err(e) => fail(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if active() && path.is_null() {
        return fail(libc::EFAULT) as c_int;
    }
    if active() && !is_font(path) && !(!path.is_null() && *path == 0 && !is_v(dirfd)) {
        return core(|| {
            let r = if (flags & libc::AT_EMPTY_PATH) != 0 && *path == 0 {
                s_stat_fd(dirfd)
            } else {
                s_stat_path(&at_path(dirfd, path_of(path)), flags & libc::AT_SYMLINK_NOFOLLOW == 0)
            };
            match r {
                Ok(st) => {
                    std::ptr::write_bytes(out, 0, 1);
                    let o = &mut *out;
                    o.stx_mask = 0x7ff;
                    o.stx_mode = st.mode as u16;
                    o.stx_size = st.size;
                    o.stx_ino = st.ino;
                    o.stx_nlink = 1;
                    o.stx_dev_major = 0;
                    o.stx_dev_minor = st.dev as u32;
                    o.stx_mtime.tv_sec = (st.mtime / 1_000_000_000) as i64;
                    o.stx_mtime.tv_nsec = (st.mtime % 1_000_000_000) as u32;
                    if let Some(b) = st.btime {
                        o.stx_mask |= libc::STATX_BTIME;
                        o.stx_btime.tv_sec = (b / 1_000_000_000) as i64;
                        o.stx_btime.tv_nsec = (b % 1_000_000_000) as u32;
                    }
                    0
                }
                Err(e) => fail(e) as c_int,
            }
        });
    }
    ret(raw(libc::SYS_statx, dirfd as isize as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if active() && is_v(fd) {
        return core(|| stat_ret(s_stat_fd(fd), out));
    }
    ret(raw(libc::SYS_fstat, fd as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, out: *mut libc::stat64) -> c_int {
    fstat64(fd, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if active() && !is_font(path) {
        return core(|| stat_ret(s_stat_path(&path_of(path), true), out));
    }
    ret(raw(libc::SYS_stat, path as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, out: *mut libc::stat64) -> c_int {
    stat64(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if active() && !is_font(path) {
        return core(|| stat_ret(s_stat_path(&path_of(path), false), out));
    }
    ret(raw(libc::SYS_lstat, path as usize, out as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    if active() && !is_font(path) {
        return core(|| {
            let p = at_path(dirfd, path_of(path));
            stat_ret(s_stat_path(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0), out)
        });
    }
    ret(raw(libc::SYS_newfstatat, dirfd as isize as usize, path as usize, out as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if active() && !is_font(path) {
        return core(|| match s_stat_path(&path_of(path), true) {
            Ok(_) => 0,
            Err(e) => fail(e) as c_int,
        });
    }
    ret(raw(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dirfd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if active() {
        return access(path, mode);
    }
    ret(raw(libc::SYS_faccessat, dirfd as isize as usize, path as usize, mode as usize, flags as usize, 0, 0)) as c_int
}

// ------------------------------------------------------------------ directories
struct VDir {
    magic: u64,
    fd: c_int,
    ent: libc::dirent64,
}
const VDIR_MAGIC: u64 = 0xd1d1_5eed_d1d1_5eed;
static mut VDIRS: Vec<*mut VDir> = Vec::new();
fn as_vdir(d: *mut c_void) -> Option<&'static mut VDir> {
    #[allow(static_mut_refs)]
    unsafe {
        if VDIRS.iter().any(|p| *p as *mut c_void == d) {
            let v = &mut *(d as *mut VDir);
            debug_assert_eq!(v.magic, VDIR_MAGIC);
            Some(v)
        } else {
            None
        }
    }
}
fn dir_from_fd(fd: c_int) -> *mut c_void {
    let s = sim();
    let ino = s.vfs.fds[&fd].ino;
    let Node::Dir(m) = &s.vfs.inodes[&ino].node else { unreachable!() };
    let mut list: Vec<(String, u64)> = m.iter().map(|(n, i)| (n.clone(), *i)).collect();
    // directory order is arbitrary: rotate/reverse it
    if list.len() > 1 {
        let k = choose(list.len() as u64) as usize;
        list.rotate_left(k);
        if chance(1, 2) {
            list.reverse();
        }
    }
    let f = s.vfs.fds.get_mut(&fd).unwrap();
    f.dir_list = list;
    f.dir_pos = 0;
    let v = Box::into_raw(Box::new(VDir { magic: VDIR_MAGIC, fd, ent: unsafe { std::mem::zeroed() } }));
    #[allow(static_mut_refs)]
    unsafe {
        VDIRS.push(v)
    };
    v as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if active() && !is_font(path) {
        return core(|| {
            let p = path_of(path);
            let fd = s_open(p, libc::O_RDONLY | libc::O_DIRECTORY);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            dir_from_fd(fd as c_int)
        });
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(path)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if active() && is_v(fd) {
        return core(|| dir_from_fd(fd));
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut c_void)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if let Some(v) = as_vdir(d) {
        return core(|| {
            before(Op::Readdir);
            let s = sim();
            if fault(Fault::ReaddirErr) {
                set_errno(libc::EIO);
                return std::ptr::null_mut();
            }
            let f = s.vfs.fds.get_mut(&v.fd).unwrap();
            if f.dir_pos >= f.dir_list.len() {
                return std::ptr::null_mut();
            }
            let (name, ino) = f.dir_list[f.dir_pos].clone();
            f.dir_pos += 1;
            let t = match &s.vfs.inodes[&ino].node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Link(_) => libc::DT_LNK,
            };
            v.ent = std::mem::zeroed();
            v.ent.d_ino = ino;
            v.ent.d_type = t;
            v.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (i, b) in name.bytes().enumerate() {
                v.ent.d_name[i] = b as c_char;
            }
            ev(|| format!("readdir -> {name}"));
            &mut v.ent
        });
    }
    real!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if let Some(v) = as_vdir(d) {
        return core(|| {
            sim().vfs.fds.remove(&v.fd);
            #[allow(static_mut_refs)]
            VDIRS.retain(|p| *p as *mut c_void != d);
            drop(Box::from_raw(d as *mut VDir));
            0
        });
    }
    real!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if let Some(v) = as_vdir(d) {
        return v.fd;
    }
    real!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int)(d)
}

// ------------------------------------------------------------------ names
fn s_unlink(path: &str) -> isize {
    before(Op::Other);
    let s = sim();
    match s.vfs.resolve(path, false) {
        Ok((_, _, Some(_))) => {
            s.vfs.remove(path);
            ev(|| format!("unlink {path}"));
            0
        }
        Ok(_) => fail(libc::ENOENT),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if active() {
        return core(|| s_unlink(&path_of(path))) as c_int;
    }
    ret(raw(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0)) as c_int
}
/// A second name for a file: a hard link, or a symbolic one holding `target`.
fn s_link(target: &str, path: &str, soft: bool) -> isize {
    before(Op::Other);
    let s = sim();
    let ino = if soft {
        Ok(s.vfs.alloc(Node::Link(target.to_string())))
    } else {
        match s.vfs.resolve(target, false) {
            Ok((_, _, Some(i))) => Ok(i),
            Ok(_) => Err(libc::ENOENT),
            Err(e) => Err(e),
        }
    };
    match (ino, s.vfs.resolve(path, false)) {
        (_, Ok((_, _, Some(_)))) => fail(libc::EEXIST),
        (Err(e), _) | (_, Err(e)) => fail(e),
        (Ok(i), Ok((d, n, None))) => {
            if let Node::Dir(m) = &mut s.vfs.inodes.get_mut(&d).unwrap().node {
                m.insert(n, i);
            }
            ev(|| format!("link {target} {path}"));
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return core(|| s_link(&path_of(a), &path_of(b), true)) as c_int;
    }
    ret(raw(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    if active() {
        return core(|| s_link(&path_of(a), &path_of(b), false)) as c_int;
    }
    ret(raw(libc::SYS_linkat, da as usize, a as usize, db as usize, b as usize, fl as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
/// In-kernel copies are not offered: callers read and write instead.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: usize, b: c_int, ob: usize, n: size_t, fl: u32) -> ssize_t {
    if active() {
        return core(|| fail(libc::ENOSYS)) as ssize_t;
    }
    ret(raw(libc::SYS_copy_file_range, a as usize, oa, b as usize, ob, n, fl as usize)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: usize, n: size_t) -> ssize_t {
    if active() {
        return core(|| fail(libc::EINVAL)) as ssize_t;
    }
    ret(raw(libc::SYS_sendfile, a as usize, b as usize, o, n, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(a: c_int, b: c_int, o: usize, n: size_t) -> ssize_t {
    sendfile64(a, b, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: usize, b: c_int, ob: usize, n: size_t, fl: u32) -> ssize_t {
    if active() {
        return core(|| fail(libc::EINVAL)) as ssize_t;
    }
    ret(raw(libc::SYS_splice, a as usize, oa, b as usize, ob, n, fl as usize)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if active() {
        return 4242;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return core(|| {
            before(Op::Other);
            let (pa, pb) = (path_of(a), path_of(b));
            let s = sim();
            match s.vfs.resolve(&pa, false) {
                Ok((d1, n1, Some(i))) => match s.vfs.resolve(&pb, false) {
                    Ok((d2, n2, _)) => {
                        if let Node::Dir(m) = &mut s.vfs.inodes.get_mut(&d1).unwrap().node {
                            m.remove(&n1);
                        }
                        if let Node::Dir(m) = &mut s.vfs.inodes.get_mut(&d2).unwrap().node {
                            m.insert(n2, i);
                        }
                        ev(|| format!("rename {pa} {pb}"));
                        0
                    }
                    Err(e) => fail(e),
                },
                Ok(_) => fail(libc::ENOENT),
                Err(e) => fail(e),
            }
        }) as c_int;
    }
    ret(raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    if active() {
        return core(|| {
            before(Op::Other);
            let p = path_of(path);
            if sim().vfs.lookup(&p).is_some() {
                return fail(libc::EEXIST);
            }
            sim().vfs.mkdirs(&p);
            0
        }) as c_int;
    }
    ret(raw(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if active() {
        return core(|| s_unlink(&path_of(path))) as c_int;
    }
    ret(raw(libc::SYS_rmdir, path as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if active() {
        let p = at_path(dirfd, path_of(path));
        return core(|| s_unlink(&p)) as c_int;
    }
    ret(raw(libc::SYS_unlinkat, dirfd as isize as usize, path as usize, flags as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: u32) -> c_int {
    if active() {
        return 0;
    }
    ret(raw(libc::SYS_chmod, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        return core(|| {
            before(Op::Other);
            let s = sim();
            match s.vfs.resolve(&path_of(path), false) {
                Ok((_, _, Some(i))) => match &s.vfs.inodes[&i].node {
                    Node::Link(t) => {
                        let k = t.len().min(n);
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                        k as isize
                    }
                    _ => fail(libc::EINVAL),
                },
                Ok(_) => fail(libc::ENOENT),
                Err(e) => fail(e),
            }
        });
    }
    ret(raw(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        return core(|| {
            before(Op::Other);
            let s = sim();
            let p = match s.vfs.resolve(&path_of(path), true) {
                Ok((_, _, Some(i))) => path_of_ino(i).unwrap_or_default(),
                Ok(_) => {
                    set_errno(libc::ENOENT);
                    return std::ptr::null_mut();
                }
                Err(e) => {
                    set_errno(e);
                    return std::ptr::null_mut();
                }
            };
            let buf = if out.is_null() { libc::malloc(p.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
            *buf.add(p.len()) = 0;
            buf
        });
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let p = b"/sim\0";
        if n >= p.len() {
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
            return buf;
        }
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        return 0;
    }
    real!("isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}
/// Process creation is outside the simulation.
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_int {
    if active() {
        return libc::EPERM;
    }
    real!("posix_spawnp", unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> c_int)(a, b, c, d, e, f)
}

// ------------------------------------------------------------------ time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if active() {
        return core(|| {
            before(Op::Clock);
            let s = sim();
            let tick = s.clock_tick;
            advance(tick);
            let t: i128 = match id {
                libc::CLOCK_REALTIME | 5 => s.real,
                _ => s.mono as i128,
            };
            (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
            ev(|| format!("clock_gettime({id}) -> {t}"));
            // the thread may be delayed right after reading the clock
            sched::yield_point();
            0
        });
    }
    ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    ret(raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int
}
fn s_sleep(ns: u64) {
    before(Op::Sleep);
    ev(|| format!("sleep {ns} ns"));
    sched::sleep(ns);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        return core(|| {
            let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            if ns > 2 && fault(Fault::Eintr) {
                let done = 1 + choose(ns - 1);
                s_sleep(done);
                let left = ns - done;
                if !rem.is_null() {
                    (*rem).tv_sec = (left / 1_000_000_000) as i64;
                    (*rem).tv_nsec = (left % 1_000_000_000) as i64;
                }
                return fail(libc::EINTR) as c_int;
            }
            s_sleep(ns);
            0
        });
    }
    ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        return core(|| {
            let mut ns = (*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128;
            if flags & libc::TIMER_ABSTIME != 0 {
                let now = if id == libc::CLOCK_REALTIME { sim().real } else { sim().mono as i128 };
                ns = (ns - now).max(0);
            } else if ns > 2 && fault(Fault::Eintr) {
                let done = 1 + choose(ns as u64 - 1);
                s_sleep(done);
                let left = ns as u64 - done;
                if !rem.is_null() {
                    (*rem).tv_sec = (left / 1_000_000_000) as i64;
                    (*rem).tv_nsec = (left % 1_000_000_000) as i64;
                }
                return libc::EINTR;
            }
            s_sleep(ns as u64);
            0
        });
    }
    let r = raw(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0);
    (-r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

// ------------------------------------------------------------------ entropy, cpus
unsafe fn s_random(buf: *mut u8, n: usize) -> isize {
    let s = sim();
    for i in 0..n {
        *buf.add(i) = (s.entropy.next() >> 24) as u8;
    }
    ev(|| format!("getrandom {n}"));
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if active() {
        return core(|| s_random(buf as *mut u8, n));
    }
    ret(raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, sz: size_t, set: *mut u8) -> c_int {
    if active() {
        return core(|| {
            before(Op::Other);
            if sim().affinity_fails {
                ev(|| "sched_getaffinity -> EPERM".into());
                return fail(libc::EPERM) as c_int;
            }
            std::ptr::write_bytes(set, 0, sz);
            for i in 0..sim().ncpu.min(sz * 8) {
                *set.add(i / 8) |= 1 << (i % 8);
            }
            ev(|| format!("sched_getaffinity -> {} cpus", sim().ncpu));
            0
        });
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as usize, sz, set as usize, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    std::ptr::write_bytes(set.add(r as usize), 0, sz - r as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if active() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return core(|| if sim().affinity_fails { -1 } else { sim().ncpu as c_long });
    }
    real!("sysconf", unsafe extern "C" fn(c_int) -> c_long)(name)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        core(|| before(Op::Other));
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ futex and friends
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        match n {
            libc::SYS_futex => return core(|| s_futex(a, b as i32, c as u32, d, f as u32)) as c_long,
            libc::SYS_getrandom => return core(|| s_random(a as *mut u8, b)) as c_long,
            libc::SYS_gettid | libc::SYS_prctl => {}
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
            _ => {
                core(|| ev(|| format!("unsupported syscall {n} -> ENOSYS")));
                return fail(libc::ENOSYS) as c_long;
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}
unsafe fn s_futex(addr: usize, op: i32, val: u32, timeout: usize, bitset: u32) -> isize {
    const WAIT: i32 = 0;
    const WAKE: i32 = 1;
    const WAIT_BITSET: i32 = 9;
    const WAKE_BITSET: i32 = 10;
    let clock_rt = op & 256 != 0;
    let _ = bitset;
    match op & 127 {
        WAIT | WAIT_BITSET => {
            before(Op::Other);
            let cur = (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                return fail(libc::EAGAIN);
            }
            if fault(Fault::SpuriousWake) {
                return fail(libc::EINTR);
            }
            let dl = if timeout == 0 {
                None
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let t = ts.tv_sec as i128 * 1_000_000_000 + ts.tv_nsec as i128;
                Some(match op & 127 {
                    WAIT => sim().mono.saturating_add(t as u64),
                    _ if clock_rt => sim().mono.saturating_add((t - sim().real).max(0) as u64),
                    _ => t.max(0) as u64,
                })
            };
            ev(|| "futex wait".into());
            if sched::futex_wait(addr, dl) {
                0
            } else {
                fail(libc::ETIMEDOUT)
            }
        }
        WAKE | WAKE_BITSET => {
            let n = sched::futex_wake(addr, val as usize);
            ev(|| format!("futex wake {val} -> {n}"));
            before(Op::Other);
            n as isize
        }
        _ => fail(libc::ENOSYS),
    }
}

// ------------------------------------------------------------------ threads
pub type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
pub unsafe fn real_pthread_create(t: *mut libc::pthread_t, attr: *const c_void, f: StartFn, arg: *mut c_void) -> c_int {
    real!("pthread_create", unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, StartFn, *mut c_void) -> c_int)(t, attr, f, arg)
}
pub unsafe fn real_pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const c_void, f: StartFn, arg: *mut c_void) -> c_int {
    if active() {
        return core(|| {
            if fault(Fault::SpawnFail) {
                return libc::EAGAIN;
            }
            sched::spawn(t, attr, f, arg)
        });
    }
    real_pthread_create(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if active() {
        core(|| sched::join(t));
    }
    real_pthread_join(t, out)
}

// ------------------------------------------------------------------ descriptors
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if installed() && is_v(fd) {
        return core(|| {
            let Some(f) = sim().vfs.fds.get(&fd).cloned() else { return fail(libc::EBADF) as c_int };
            match cmd {
                libc::F_GETFD => libc::FD_CLOEXEC,
                libc::F_SETFD => 0,
                libc::F_GETFL => {
                    if f.write {
                        libc::O_RDWR
                    } else {
                        libc::O_RDONLY
                    }
                }
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => sim().vfs.new_fd(f),
                _ => 0,
            }
        });
    }
    ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
