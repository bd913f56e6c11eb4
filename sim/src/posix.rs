//! The seam: this binary defines the libc entry points the standard library uses for files. Calls made by code under
//! test on simulated paths and descriptors go to the simulator; everything else goes to the kernel unchanged.
//! (x86_64 Linux: variadic callers pass their arguments in registers like fixed ones.)
#![allow(clippy::missing_safety_doc)]
use crate::cx::{NOT_UTF8, SPECIAL};
use crate::sim::{Shared, CTX, DIR, EACCES, EINVAL, ENODEV, ENOENT, EXDEV, FD_BASE};
use std::collections::BTreeSet;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::Mutex;

extern "C" {
    fn malloc(n: usize) -> *mut c_void;
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const ENOSYS: i32 = 38;
const ERANGE: i32 = 34;

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn ctx() -> Option<&'static Shared> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
/// Runs simulator code: its own allocations are not the code under test's.
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let on = crate::alloc::set(false);
    let saved = CTX.with(|c| c.replace(std::ptr::null()));
    let r = f();
    CTX.with(|c| c.set(saved));
    crate::alloc::set(on);
    r
}
/// The simulated file a path names: what `cx::disguise` did to the name is undone, `.`, `..` and doubled slashes are
/// resolved, and relative paths begin at the simulated process' working directory. Anything else that is not UTF-8 is taken as it can be shown.
unsafe fn plain(p: *const c_char) -> Option<&'static str> {
    if p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    let c = ctx();
    quiet(|| {
        let mut v = Vec::with_capacity(b.len());
        let from = match c {
            Some(c) if !b.is_empty() && b[0] != b'/' => c.lock().cwd.clone() + "/",
            _ => String::new(),
        };
        if b.starts_with(b"/") || !from.is_empty() {
            let mut parts: Vec<&[u8]> = Vec::new();
            for c in from.as_bytes().split(|c| *c == b'/').chain(b.split(|c| *c == b'/')) {
                match c {
                    b"" | b"." => (),
                    b".." => {
                        parts.pop();
                    }
                    c => parts.push(c),
                }
            }
            v.push(b'/');
            v.extend_from_slice(&parts.join(&b'/'));
        } else {
            v.extend_from_slice(b);
        }
        for m in [NOT_UTF8, SPECIAL] {
            if v.starts_with(b"/sim/") && v[5..].starts_with(m) {
                v.drain(5..5 + m.len());
            }
        }
        let s = String::from_utf8(v).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned());
        static NAMES: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
        let mut names = NAMES.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(n) = names.get(s.as_str()) {
            return Some(*n);
        }
        let n: &'static str = Box::leak(s.into_boxed_str());
        names.insert(n);
        Some(n)
    })
}
unsafe fn path<'a>(p: *const c_char) -> Option<&'a str> {
    let s = plain(p)?;
    if s.starts_with("/sim/") || s == "/sim" || ctx().is_some() && (*p as u8 != b'/' || s == "/") || ctx().is_some_and(|c| quiet(|| c.lock().names.contains_key(s))) {
        Some(s)
    } else {
        None
    }
}
/// The path of an operation that changes the file system: code under test only ever changes the simulated one, whatever
/// the path.
unsafe fn any_path<'a>(p: *const c_char) -> Option<&'a str> {
    plain(p)
}
macro_rules! ret {
    ($r:expr, $t:ty) => {
        match $r {
            Ok(v) => v as $t,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    };
}

unsafe fn do_open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(s) = ctx() {
        if let Some(f) = path(p) {
            return ret!(quiet(|| s.open(f, flags)), c_int);
        }
        // code under test must not reach the real file system for anything but reading
        if flags & (3 | 0o100 | 0o1000) != 0 {
            return match any_path(p) {
                Some(f) => ret!(quiet(|| s.open(f, flags)), c_int),
                None => {
                    set_errno(EACCES);
                    -1
                }
            };
        }
    }
    syscall(257, -100i64, p, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if ctx().is_some() || path(p).is_some() {
        return do_open(p, flags, mode);
    }
    syscall(257, d as c_long, p, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return match ctx() {
            Some(s) => ret!(quiet(|| s.close(fd).map(|_| 0)), c_int),
            None => 0,
        };
    }
    syscall(3, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None)), isize);
        }
    }
    syscall(0, fd as c_long, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            if o < 0 {
                set_errno(EINVAL);
                return -1;
            }
            return ret!(quiet(|| s.read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(o as u64))), isize);
        }
    }
    syscall(17, fd as c_long, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    pread64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.write(fd, std::slice::from_raw_parts(b as *const u8, n), None)), isize);
        }
    }
    syscall(1, fd as c_long, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            if o < 0 {
                set_errno(EINVAL);
                return -1;
            }
            return ret!(quiet(|| s.write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(o as u64))), isize);
        }
    }
    syscall(18, fd as c_long, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    pwrite64(fd, b, n, o)
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
unsafe fn gather(v: *const IoVec, n: c_int) -> Vec<u8> {
    let mut out = Vec::new();
    for i in 0..n as usize {
        let e = &*v.add(i);
        out.extend_from_slice(std::slice::from_raw_parts(e.base as *const u8, e.len));
    }
    out
}
unsafe fn vread(s: &Shared, fd: c_int, v: *const IoVec, n: c_int, at: Option<u64>) -> Result<usize, i32> {
    let total: usize = (0..n as usize).map(|i| (*v.add(i)).len).sum();
    let mut tmp = vec![0u8; total];
    let k = s.read(fd, &mut tmp, at)?;
    let mut done = 0;
    for i in 0..n as usize {
        let e = &*v.add(i);
        let m = e.len.min(k - done);
        std::ptr::copy_nonoverlapping(tmp.as_ptr().add(done), e.base as *mut u8, m);
        done += m;
        if done == k {
            break;
        }
    }
    Ok(k)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| vread(s, fd, v, n, None)), isize);
        }
    }
    syscall(19, fd as c_long, v, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| { let b = gather(v, n); s.write(fd, &b, None) }), isize);
        }
    }
    syscall(20, fd as c_long, v, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, v: *const IoVec, n: c_int, o: i64) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| vread(s, fd, v, n, Some(o as u64))), isize);
        }
    }
    syscall(295, fd as c_long, v, n as c_long, o, 0i64) as isize
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, v: *const IoVec, n: c_int, o: i64) -> isize {
    preadv64(fd, v, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, v: *const IoVec, n: c_int, o: i64) -> isize {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| { let b = gather(v, n); s.write(fd, &b, Some(o as u64)) }), isize);
        }
    }
    syscall(296, fd as c_long, v, n as c_long, o, 0i64) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, v: *const IoVec, n: c_int, o: i64) -> isize {
    pwritev64(fd, v, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.seek(fd, o, wh)), i64);
        }
    }
    syscall(8, fd as c_long, o, wh as c_long)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, wh: c_int) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.truncate(fd, n).map(|_| 0)), c_int);
        }
    }
    syscall(77, fd as c_long, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, o: i64, n: i64) -> c_int {
    if fd >= FD_BASE && ctx().is_some() {
        set_errno(95);
        return -1;
    }
    syscall(285, fd as c_long, mode as c_long, o, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, o: i64, n: i64) -> c_int {
    fallocate64(fd, mode, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: i64, _n: i64, _a: c_int) -> c_int {
    0
}

fn mode(ro: bool, ino: usize) -> u32 {
    match (ino, ro) {
        (DIR, _) => 0o40755,
        (_, true) => 0o100444,
        _ => 0o100644,
    }
}
unsafe fn fill_stat(b: *mut u8, len: u64, ro: bool, ino: usize) {
    std::ptr::write_bytes(b, 0, 144);
    *(b as *mut u64) = 0x51;
    *(b.add(8) as *mut u64) = ino.wrapping_add(1) as u64;
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = mode(ro, ino);
    *(b.add(48) as *mut u64) = len;
    *(b.add(56) as *mut u64) = 4096;
    *(b.add(64) as *mut u64) = len.div_ceil(512);
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut u8) -> c_int {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.stat_fd(fd).map(|(l, ro, i)| { fill_stat(b, l, ro, i); 0 })), c_int);
        }
    }
    syscall(5, fd as c_long, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut u8) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    if let (Some(s), Some(f)) = (ctx(), path(p)) {
        return ret!(quiet(|| s.stat_path(f).map(|(l, ro, i)| { fill_stat(b, l, ro, i); 0 })), c_int);
    }
    syscall(4, p, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, b: *mut u8) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u8) -> c_int {
    if path(p).is_some() {
        return stat64(p, b);
    }
    syscall(6, p, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut u8) -> c_int {
    lstat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut u8) -> c_int {
    if let Some(s) = ctx() {
        let r = if d >= FD_BASE {
            Some(quiet(|| s.stat_fd(d)))
        } else {
            path(p).map(|f| quiet(|| s.stat_path(f)))
        };
        if let Some(r) = r {
            return ret!(
                r.map(|(len, ro, ino)| {
                    std::ptr::write_bytes(b, 0, 256);
                    *(b as *mut u32) = 0x7ff;
                    *(b.add(4) as *mut u32) = 4096;
                    *(b.add(16) as *mut u32) = 1;
                    *(b.add(28) as *mut u16) = mode(ro, ino) as u16;
                    *(b.add(32) as *mut u64) = ino.wrapping_add(1) as u64;
                    *(b.add(40) as *mut u64) = len;
                    *(b.add(48) as *mut u64) = len.div_ceil(512);
                    0
                }),
                c_int
            );
        }
    }
    syscall(332, d as c_long, p, flags as c_long, mask as c_long, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut u8, flags: c_int) -> c_int {
    if path(p).is_some() {
        return stat64(p, b);
    }
    syscall(262, d as c_long, p, b, flags as c_long) as c_int
}
/// Only simulated files have a real path: there are no links among them.
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(s) = ctx() {
        let r = match path(p) {
            Some(f) => quiet(|| s.stat_path(f)).map(|_| ()),
            None => Err(ENOENT),
        };
        if let Err(e) = r {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let b = CStr::from_ptr(p).to_bytes();
        let full: Vec<u8> = quiet(|| match b {
            [b'/', ..] => b.to_vec(),
            _ => [s.lock().cwd.as_bytes(), b"/", b].concat(),
        });
        let o = if out.is_null() { malloc(full.len() + 1) as *mut c_char } else { out };
        if !o.is_null() {
            std::ptr::copy_nonoverlapping(full.as_ptr() as *const c_char, o, full.len());
            *o.add(full.len()) = 0;
        }
        quiet(|| drop(full));
        return o;
    }
    set_errno(ENOSYS);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let (Some(s), Some(f)) = (ctx(), path(p)) {
        return ret!(
            quiet(|| s.stat_path(f).and_then(|(_, ro, _)| if ro && m & 2 != 0 { Err(EACCES) } else { Ok(0) })),
            c_int
        );
    }
    syscall(21, p, m as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.sync(fd).map(|_| 0)), c_int);
        }
    }
    syscall(74, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return fsync(fd);
    }
    syscall(75, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return fsync(fd);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return match cmd {
                0 | 1030 => ret!(quiet(|| s.dup(fd)), c_int),
                1 | 2 | 4 => 0,
                3 => quiet(|| s.lock().flags_of(fd)).unwrap_or(2),
                _ => 0,
            };
        }
    }
    syscall(72, fd as c_long, cmd as c_long, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd >= FD_BASE && ctx().is_some() {
        return 0;
    }
    syscall(73, fd as c_long, op as c_long) as c_int
}
macro_rules! attr_fd {
    ($name:ident, $nr:expr, $($a:ident: $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, $($a: $t),*) -> c_int {
            if fd >= FD_BASE {
                if let Some(s) = ctx() {
                    return ret!(quiet(|| s.touch_fd(fd, stringify!($name)).map(|_| 0)), c_int);
                }
            }
            syscall($nr, fd as c_long, $($a as c_long),*) as c_int
        }
    };
}
macro_rules! attr_path {
    ($name:ident, $nr:expr, $($a:ident: $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, $($a: $t),*) -> c_int {
            if let (Some(s), Some(f)) = (ctx(), any_path(p)) {
                return ret!(quiet(|| s.touch_path(f, stringify!($name)).map(|_| 0)), c_int);
            }
            syscall($nr, p, $($a as c_long),*) as c_int
        }
    };
}
attr_fd!(fchmod, 91, m: c_int);
attr_fd!(fchown, 93, u: u32, g: u32);
attr_fd!(fsetxattr, 190, k: *const c_char, v: *const c_void, n: usize, f: c_int);
attr_fd!(fremovexattr, 199, k: *const c_char);
attr_path!(chmod, 90, m: c_int);
attr_path!(chown, 92, u: u32, g: u32);
attr_path!(lchown, 94, u: u32, g: u32);
attr_path!(setxattr, 188, k: *const c_char, v: *const c_void, n: usize, f: c_int);
attr_path!(removexattr, 197, k: *const c_char);
attr_path!(mknod, 133, m: u32, d: u64);
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const c_void) -> c_int {
    if fd >= FD_BASE {
        if let Some(s) = ctx() {
            return ret!(quiet(|| s.touch_fd(fd, "futimens").map(|_| 0)), c_int);
        }
    }
    syscall(280, fd as c_long, 0i64, t, 0i64) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const c_void, f: c_int) -> c_int {
    if let (Some(s), Some(n)) = (ctx(), any_path(p)) {
        return ret!(quiet(|| s.touch_path(n, "utimensat").map(|_| 0)), c_int);
    }
    syscall(280, d as c_long, p, t, f as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: i64) -> c_int {
    if let (Some(s), Some(f)) = (ctx(), any_path(p)) {
        return ret!(
            quiet(|| {
                let fd = s.open(f, 1)?;
                let r = s.truncate(fd, n);
                s.close(fd)?;
                r.map(|_| 0)
            }),
            c_int
        );
    }
    syscall(76, p, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, n: i64) -> c_int {
    truncate64(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(s), Some(x), Some(y)) = (ctx(), any_path(a), any_path(b)) {
        return ret!(quiet(|| s.link(x, y).map(|_| 0)), c_int);
    }
    syscall(86, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if ctx().is_some() {
        return link(a, b);
    }
    syscall(265, d as c_long, a, e as c_long, b, f as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(s), Some(y)) = (ctx(), any_path(b)) {
        return ret!(quiet(|| s.link("", y).map(|_| 0)), c_int);
    }
    syscall(88, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char) -> c_int {
    if ctx().is_some() {
        return rename(a, b);
    }
    syscall(264, _d as c_long, a, _e as c_long, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32) -> c_int {
    if ctx().is_some() {
        return rename(a, b);
    }
    syscall(316, d as c_long, a, e as c_long, b, f as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if ctx().is_some() {
        return unlink(p);
    }
    syscall(263, d as c_long, p, f as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if let (Some(s), Some(f)) = (ctx(), any_path(p)) {
        return ret!(quiet(|| s.chdir(f).map(|_| 0)), c_int);
    }
    syscall(80, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if let Some(s) = ctx() {
        if b.is_null() {
            set_errno(ENOSYS);
            return b;
        }
        return quiet(|| {
            let mut d = s.lock().cwd.clone();
            if d.is_empty() {
                d.push('/');
            }
            if d.len() >= n {
                set_errno(ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr() as *const c_char, b, d.len());
            *b.add(d.len()) = 0;
            b
        });
    }
    if b.is_null() || syscall(79, b, n) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: usize, f: u32) -> isize {
    if i >= FD_BASE || o >= FD_BASE {
        set_errno(EXDEV);
        return -1;
    }
    syscall(326, i as c_long, io, o as c_long, oo, n, f as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if i >= FD_BASE || o >= FD_BASE {
        set_errno(EINVAL);
        return -1;
    }
    syscall(40, o as c_long, i as c_long, off, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    sendfile64(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: usize, f: u32) -> isize {
    if i >= FD_BASE || o >= FD_BASE {
        set_errno(EINVAL);
        return -1;
    }
    syscall(275, i as c_long, io, o as c_long, oo, n, f as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(s) = ctx() {
        return match any_path(p) {
            Some(f) => ret!(quiet(|| s.unlink(f).map(|_| 0)), c_int),
            None => {
                set_errno(EACCES);
                -1
            }
        };
    }
    syscall(87, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(s) = ctx() {
        return match (any_path(a), any_path(b)) {
            (Some(x), Some(y)) => ret!(quiet(|| s.rename(x, y).map(|_| 0)), c_int),
            _ => {
                set_errno(EXDEV);
                -1
            }
        };
    }
    syscall(82, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_int) -> c_int {
    if let (Some(s), Some(f)) = (ctx(), any_path(p)) {
        return ret!(quiet(|| s.mkdir(f).map(|_| 0)), c_int);
    }
    syscall(83, p, m as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if ctx().is_some() {
        set_errno(ENOENT);
        return -1;
    }
    syscall(84, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, pr: c_int, fl: c_int, fd: c_int, o: i64) -> *mut c_void {
    if fd >= FD_BASE {
        set_errno(ENODEV);
        return usize::MAX as *mut c_void;
    }
    syscall(9, a, n, pr as c_long, fl as c_long, fd as c_long, o) as *mut c_void
}
/// Randomness: deterministic for code under test.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
    if ctx().is_some() {
        for i in 0..n {
            *(b as *mut u8).add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
        }
        return n as isize;
    }
    syscall(318, b, n, f as c_long) as isize
}
/// Time: simulated for code under test.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut [i64; 2]) -> c_int {
    if let Some(s) = ctx() {
        let ns = quiet(|| s.lock().clock_ns);
        *t = [(ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
        return 0;
    }
    syscall(228, c as c_long, t) as c_int
}
/// Sleeping advances the simulated clock.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    if let Some(s) = ctx() {
        quiet(|| s.lock().clock_ns += (*a)[0] as u64 * 1_000_000_000 + (*a)[1] as u64);
        return 0;
    }
    syscall(35, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    if ctx().is_some() {
        return nanosleep(a, b);
    }
    let _ = ENOSYS;
    -(syscall(230, c as c_long, f as c_long, a, b) as c_int)
}
