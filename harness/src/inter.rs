//! Interposed C library calls: every file system effect the library under test
//! has on its files goes through these functions.  They record what was written
//! and what was synced, keep a "storage" shadow copy of each file as of its last
//! successful fsync/fdatasync, and inject failures.  The real call is made with
//! the raw system call.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const EINTR: i32 = 4;
const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PWRITE64: c_long = 18;
const SYS_WRITEV: c_long = 20;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_int = -100;
const O_CREAT: c_int = 0o100;

#[derive(Clone, Debug)]
pub struct Fault {
    pub ext: String, // "*" or a file extension
    pub op: String,  // write | sync | trunc | read
    pub nth: u64,    // first matching call that fails (1..)
    pub count: u64,  // number of failing calls, 0 = until cleared
    pub errno: i32,
    pub short: bool, // a failing write first writes a part
}

#[derive(Default)]
pub struct State {
    pub live: String,   // prefix of the watched files
    pub shadow: String, // prefix of the storage image
    pub unsynced: BTreeSet<String>,
    pub writes: BTreeMap<String, u64>, // path -> number of effects
    pub fault: Option<Fault>,
    pub seen: u64,
    pub fired: u64,
    pub noise: bool, // the last call was interrupted
    pub noises: u64,
    pub crash_from: String, // copy this directory before each effect ...
    pub crash_to: String,   // ... to crash_to/<n>
    pub crash_n: u64,
    pub busy: bool,
}

thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State::default());
}

fn path_of(fd: c_int) -> Option<String> {
    std::fs::read_link(format!("/proc/self/fd/{}", fd))
        .ok()
        .map(|p| p.to_string_lossy().to_string())
}

/// the watched path of a descriptor, if the harness is not doing its own work.
fn watched(fd: c_int) -> Option<String> {
    if fd <= 2 {
        return None;
    }
    let (on, live) = ST
        .try_with(|s| {
            s.try_borrow()
                .map(|s| (!s.busy && !s.live.is_empty(), s.live.clone()))
                .unwrap_or((false, String::new()))
        })
        .unwrap_or((false, String::new()));
    if !on {
        return None;
    }
    match path_of(fd) {
        Some(p) if p.starts_with(&live) => Some(p),
        _ => None,
    }
}

fn crash_copy() {
    let job = ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.crash_to.is_empty() || s.busy {
            return None;
        }
        s.busy = true;
        let n = s.crash_n;
        s.crash_n += 1;
        Some((s.crash_from.clone(), format!("{}/{}", s.crash_to, n)))
    });
    if let Some((from, to)) = job {
        crate::util::copy_tree(&from, &to);
        ST.with(|s| s.borrow_mut().busy = false);
    }
}

pub fn crash_copy_now() {
    crash_copy();
}

/// Some(errno, short) if this call must fail.
fn inject(path: &str, op: &str) -> Option<(i32, bool)> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let f = s.fault.clone()?;
        let ext = path.rsplit('.').next().unwrap_or("");
        if f.op != op || (f.ext != "*" && f.ext != ext) {
            return None;
        }
        s.seen += 1;
        let n = s.seen;
        if n >= f.nth && (f.count == 0 || n < f.nth + f.count) {
            if f.errno == EINTR || f.errno == 0 {
                // part of a call or an interrupted one: no failure
                if f.errno == EINTR && s.noise {
                    s.noise = false;
                    return None;
                }
                s.noise = true;
                s.noises += 1;
            } else {
                s.fired += 1;
            }
            Some((f.errno, f.short))
        } else {
            None
        }
    })
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

fn effect(path: &str) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.unsynced.insert(path.to_string());
        *s.writes.entry(path.to_string()).or_insert(0) += 1;
    });
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if let Some(p) = watched(fd) {
        crash_copy();
        if let Some((e, short)) = inject(&p, "write") {
            if short && n > 1 {
                effect(&p);
                let r = syscall(SYS_WRITE, fd, buf, if e == 0 { n.div_ceil(2) } else { n / 2 });
                if e == 0 {
                    return r as isize;
                }
            }
            if e == 0 {
                effect(&p);
                return syscall(SYS_WRITE, fd, buf, n) as isize;
            }
            set_errno(e);
            return -1;
        }
        effect(&p);
    }
    syscall(SYS_WRITE, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let armed = ST
        .try_with(|s| {
            s.try_borrow()
                .map(|s| s.fault.as_ref().is_some_and(|f| f.op == "read"))
                .unwrap_or(false)
        })
        .unwrap_or(false);
    if armed {
        if let Some(p) = watched(fd) {
            if let Some((e, short)) = inject(&p, "read") {
                if e == 0 {
                    return syscall(SYS_READ, fd, buf, if short { n.div_ceil(2) } else { n }) as isize;
                }
                set_errno(e);
                return -1;
            }
        }
    }
    syscall(SYS_READ, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    if let Some(p) = watched(fd) {
        crash_copy();
        if let Some((e, _)) = inject(&p, "write") {
            set_errno(e);
            return -1;
        }
        effect(&p);
    }
    syscall(SYS_WRITEV, fd, iov, n) as isize
}

unsafe fn pwrite_impl(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if let Some(p) = watched(fd) {
        crash_copy();
        if let Some((e, _)) = inject(&p, "write") {
            set_errno(e);
            return -1;
        }
        effect(&p);
    }
    syscall(SYS_PWRITE64, fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite_impl(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite_impl(fd, buf, n, off)
}

unsafe fn trunc_impl(fd: c_int, len: i64) -> c_int {
    if let Some(p) = watched(fd) {
        crash_copy();
        if let Some((e, _)) = inject(&p, "trunc") {
            set_errno(e);
            return -1;
        }
        effect(&p);
    }
    syscall(SYS_FTRUNCATE, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    trunc_impl(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    trunc_impl(fd, len)
}

unsafe fn sync_impl(fd: c_int, nr: c_long) -> c_int {
    if let Some(p) = watched(fd) {
        if let Some((e, _)) = inject(&p, "sync") {
            set_errno(e);
            return -1;
        }
        // The sandbox needs no real durability: the storage is the shadow copy.
        let _ = nr;
        let to = ST.with(|s| {
            let mut s = s.borrow_mut();
            s.unsynced.remove(&p);
            s.busy = true;
            format!("{}{}", s.shadow, &p[s.live.len()..])
        });
        crate::util::copy_file(&p, &to);
        ST.with(|s| s.borrow_mut().busy = false);
        return 0;
    }
    syscall(nr, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_impl(fd, SYS_FSYNC)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_impl(fd, SYS_FDATASYNC)
}

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if flags & O_CREAT != 0 {
        let p = CStr::from_ptr(path).to_string_lossy().to_string();
        let live = ST
            .try_with(|s| s.try_borrow().map(|s| s.live.clone()).unwrap_or_default())
            .unwrap_or_default();
        if !live.is_empty() && p.starts_with(&live) {
            crash_copy();
        }
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(path, flags, mode)
}
/// lseek with SEEK_DATA / SEEK_HOLE
pub fn seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { syscall(SYS_LSEEK, fd, off, whence) as i64 }
}
