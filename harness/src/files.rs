//! Observing what happens to real files: the system calls which write and sync are
//! interposed by definitions in this binary.

use crate::dev::LogOp;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static WATCH: AtomicBool = AtomicBool::new(false);
static UNSYNCED: AtomicBool = AtomicBool::new(false);
static OPS: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicU64 = AtomicU64::new(0);
static ERRNO: AtomicI32 = AtomicI32::new(5);
static HIT: AtomicBool = AtomicBool::new(false);
static HIT_WRITE: AtomicBool = AtomicBool::new(false);
/// what was written where, and the syncs (while `start` asked for it)
static LOG: Mutex<Option<Vec<LogOp>>> = Mutex::new(None);

pub struct Seen {
    /// bytes were written and not followed by a successful sync
    pub unsynced: bool,
    pub fault_hit: bool,
    pub fault_write: bool,
    pub log: Vec<LogOp>,
}

/// start observing; the n-th write or sync fails (0: none), with one of several errors
pub fn start(fault: u64, kind: u64, log: bool) {
    // EIO, EINVAL, ENOSPC, EROFS, EOPNOTSUPP, EPERM, ENOSYS
    let errno = [5, 22, 28, 30, 95, 1, 38][(kind % 7) as usize];
    ERRNO.store(errno, SeqCst);
    *LOG.lock().expect("log") = log.then(Vec::new);
    UNSYNCED.store(false, SeqCst);
    OPS.store(0, SeqCst);
    FAULT.store(fault, SeqCst);
    HIT.store(false, SeqCst);
    HIT_WRITE.store(false, SeqCst);
    WATCH.store(true, SeqCst);
}

pub fn stop() -> Seen {
    WATCH.store(false, SeqCst);
    Seen {
        unsynced: UNSYNCED.load(SeqCst),
        fault_hit: HIT.load(SeqCst),
        fault_write: HIT_WRITE.load(SeqCst),
        log: LOG.lock().expect("log").take().unwrap_or_default(),
    }
}

fn fails(write: bool) -> bool {
    if !WATCH.load(SeqCst) {
        return false;
    }
    let n = OPS.fetch_add(1, SeqCst) + 1;
    if n == FAULT.load(SeqCst) {
        HIT.store(true, SeqCst);
        HIT_WRITE.store(write, SeqCst);
        return true;
    }
    false
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

unsafe fn fail() -> i64 {
    *__errno_location() = ERRNO.load(SeqCst);
    -1
}

#[cfg(target_arch = "x86_64")]
mod nr {
    pub const WRITE: i64 = 1;
    pub const WRITEV: i64 = 20;
    pub const LSEEK: i64 = 8;
    pub const FCNTL: i64 = 72;
    pub const PWRITE64: i64 = 18;
    pub const FSYNC: i64 = 74;
    pub const FDATASYNC: i64 = 75;
}
#[cfg(target_arch = "aarch64")]
mod nr {
    pub const WRITE: i64 = 64;
    pub const WRITEV: i64 = 66;
    pub const LSEEK: i64 = 62;
    pub const FCNTL: i64 = 25;
    pub const PWRITE64: i64 = 68;
    pub const FSYNC: i64 = 82;
    pub const FDATASYNC: i64 = 83;
}

const SEEK_CUR: i64 = 1;
const SEEK_END: i64 = 2;
const F_GETFL: i64 = 3;
const O_APPEND: i64 = 0o2000;
const O_DSYNC: i64 = 0o10000;

/// what a write of n bytes at an offset (None: the file's position) did
unsafe fn observed(fd: i32, buf: *const u8, off: Option<i64>, f: impl FnOnce() -> i64) -> isize {
    if fd <= 2 || !WATCH.load(SeqCst) {
        return f() as isize;
    }
    if fails(true) {
        return fail() as isize;
    }
    let flags = syscall(nr::FCNTL, fd as i64, F_GETFL);
    let at = match off {
        Some(o) => o,
        None if flags & O_APPEND != 0 => {
            let pos = syscall(nr::LSEEK, fd as i64, 0i64, SEEK_CUR);
            let end = syscall(nr::LSEEK, fd as i64, 0i64, SEEK_END);
            syscall(nr::LSEEK, fd as i64, pos, 0i64);
            end
        }
        None => syscall(nr::LSEEK, fd as i64, 0i64, SEEK_CUR),
    };
    let n = f();
    if n > 0 {
        // a file opened that way needs no syncs
        let direct = flags & O_DSYNC != 0;
        if !direct {
            UNSYNCED.store(true, SeqCst);
        }
        if let Some(l) = LOG.lock().expect("log").as_mut() {
            let data = std::slice::from_raw_parts(buf, n as usize).to_vec();
            l.push(LogOp::Write(at as u64, data));
            if direct {
                l.push(LogOp::Flush);
            }
        }
    }
    n as isize
}

/// # Safety
/// as write(2)
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize {
    observed(fd, buf.cast(), None, || {
        syscall(nr::WRITE, fd as i64, buf, n)
    })
}

/// # Safety
/// as pwrite(2)
#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: i32,
    buf: *const std::ffi::c_void,
    n: usize,
    off: i64,
) -> isize {
    observed(fd, buf.cast(), Some(off), || {
        syscall(nr::PWRITE64, fd as i64, buf, n, off)
    })
}

/// # Safety
/// as writev(2)
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    if fd <= 2 || !WATCH.load(SeqCst) {
        return syscall(nr::WRITEV, fd as i64, iov, n as i64) as isize;
    }
    // a short write: the first piece which is not empty
    let v = std::slice::from_raw_parts(iov, n.max(0) as usize);
    match v.iter().find(|x| x[1] > 0) {
        Some(x) => write(fd, x[0] as *const std::ffi::c_void, x[1]),
        None => 0,
    }
}

unsafe fn sync(num: i64, fd: i32) -> i32 {
    if WATCH.load(SeqCst) && fails(false) {
        return fail() as i32;
    }
    let r = syscall(num, fd as i64) as i32;
    if r == 0 && WATCH.load(SeqCst) {
        UNSYNCED.store(false, SeqCst);
        if let Some(l) = LOG.lock().expect("log").as_mut() {
            l.push(LogOp::Flush);
        }
    }
    r
}

/// # Safety
/// as fsync(2)
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sync(nr::FSYNC, fd)
}

/// # Safety
/// as fdatasync(2)
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sync(nr::FDATASYNC, fd)
}
