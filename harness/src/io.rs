//! Observation and fault injection at the system-call boundary, and a memory
//! meter. The harness binary defines libc's open/read/write/lseek/close, so
//! every call std makes on behalf of the code under test passes through here.
//! Only files whose path contains the armed marker are observed or disturbed;
//! everything else goes straight to the kernel.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_READ: i64 = 0;
const SYS_WRITE: i64 = 1;
const SYS_CLOSE: i64 = 3;
const SYS_LSEEK: i64 = 8;
const SYS_PREAD: i64 = 17;
const SYS_OPENAT: i64 = 257;
const AT_FDCWD: i32 = -100;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub thread: u64,
    pub op: Op,
    pub fd: i32,
    /// absolute file position for reads and writes, where known
    pub pos: i64,
    pub ret: i64,
    pub injected: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// the k-th observed call (0-based) fails with this errno
    pub fail_at: Option<(u64, i32)>,
    /// and so does every later one
    pub sticky: bool,
    /// only calls of this kind are counted for fail_at
    pub only: Option<Op>,
    /// reads and writes transfer at most this many bytes (pseudo-randomly fewer)
    pub short: Option<usize>,
    /// nothing from this file offset on can be read or written: a transfer
    /// stops short there, one that starts there fails with this errno
    pub edge: Option<(i64, i32)>,
    /// interrupt calls with EINTR before they succeed
    pub eintr: bool,
    /// disturb the schedule: yields and short sleeps before calls
    pub delay: bool,
    pub seed: u64,
}

const NFD: usize = 4096;
static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static COUNTED: AtomicU64 = AtomicU64::new(0);
static INJECTED: AtomicU64 = AtomicU64::new(0);
static RNG: AtomicU64 = AtomicU64::new(1);
static TRACKED: [AtomicBool; NFD] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const F: AtomicBool = AtomicBool::new(false);
    [F; NFD]
};
static POS: [AtomicI64; NFD] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const F: AtomicI64 = AtomicI64::new(0);
    [F; NFD]
};
static STATE: Mutex<Option<(Vec<u8>, Plan, Vec<Ev>)>> = Mutex::new(None);
static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static THREAD: Cell<u64> = const { Cell::new(0) };
}

fn tid() -> u64 {
    THREAD
        .try_with(|t| {
            if t.get() == 0 {
                t.set(NEXT_THREAD.fetch_add(1, SeqCst));
            }
            t.get()
        })
        .unwrap_or(0)
}

fn rnd() -> u64 {
    let mut x = RNG.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst).wrapping_add(tid().wrapping_mul(0xA24B_AED4_963E_E407));
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// What happened while a plan was armed.
#[derive(Debug, Default)]
pub struct Seen {
    pub calls: u64,
    pub injected: u64,
    pub events: Vec<Ev>,
}

/// Runs f with the plan armed for files whose path contains marker.
pub fn with_plan<T>(marker: &str, plan: Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    CALLS.store(0, SeqCst);
    COUNTED.store(0, SeqCst);
    INJECTED.store(0, SeqCst);
    RNG.store(plan.seed | 1, SeqCst);
    *STATE.lock().unwrap() = Some((marker.as_bytes().to_vec(), plan, vec![]));
    for t in TRACKED.iter() {
        t.store(false, SeqCst);
    }
    ARMED.store(true, SeqCst);
    let v = f();
    ARMED.store(false, SeqCst);
    let st = STATE.lock().unwrap().take();
    let seen = Seen {
        calls: CALLS.load(SeqCst),
        injected: INJECTED.load(SeqCst),
        events: st.map(|s| s.2).unwrap_or_default(),
    };
    (v, seen)
}

enum Act {
    Pass,
    Fail(i32),
}

/// Decides the fate of one observed call and logs a failed one.
fn gate(op: Op, fd: i32, interruptible: bool) -> (Act, Option<usize>) {
    let (delay, eintr, short) = {
        let g = STATE.lock().unwrap();
        match g.as_ref() {
            None => return (Act::Pass, None),
            Some((_, p, _)) => (p.delay, p.eintr, p.short),
        }
    };
    if delay {
        match rnd() % 8 {
            0 => std::thread::sleep(std::time::Duration::from_micros(rnd() % 120)),
            1..=3 => std::thread::yield_now(),
            _ => (),
        }
    }
    CALLS.fetch_add(1, SeqCst);
    if eintr && interruptible && rnd() % 3 == 0 {
        INJECTED.fetch_add(1, SeqCst);
        return (Act::Fail(EINTR), None);
    }
    let mut g = STATE.lock().unwrap();
    if let Some((_, p, evs)) = g.as_mut() {
        if p.only.map_or(true, |o| o == op) {
            let k = COUNTED.fetch_add(1, SeqCst);
            if let Some((at, e)) = p.fail_at {
                if k == at || (p.sticky && k > at) {
                    INJECTED.fetch_add(1, SeqCst);
                    evs.push(Ev { thread: tid(), op, fd, pos: -1, ret: -(e as i64), injected: true });
                    return (Act::Fail(e), None);
                }
            }
        }
    }
    (Act::Pass, short.map(|m| 1 + (rnd() % m as u64) as usize))
}

/// How much of a transfer of n bytes at pos lies before the plan's edge.
fn before_edge(op: Op, fd: i32, pos: i64, n: usize) -> Result<usize, i32> {
    let mut g = STATE.lock().unwrap();
    match g.as_mut() {
        Some((_, Plan { edge: Some((at, e)), .. }, evs)) if n > 0 => {
            if pos >= *at {
                INJECTED.fetch_add(1, SeqCst);
                evs.push(Ev { thread: tid(), op, fd, pos, ret: -(*e as i64), injected: true });
                Err(*e)
            } else {
                Ok(n.min((*at - pos) as usize))
            }
        }
        _ => Ok(n),
    }
}

fn log(op: Op, fd: i32, pos: i64, ret: i64) {
    if let Some((_, _, evs)) = STATE.lock().unwrap().as_mut() {
        if evs.len() < 100_000 {
            evs.push(Ev { thread: tid(), op, fd, pos, ret, injected: false });
        }
    }
}

unsafe fn fail(e: i32) {
    *__errno_location() = e;
}

unsafe fn ret(r: i64) -> i64 {
    // syscall(3) already set errno
    r
}

fn tracked(fd: i32) -> bool {
    ARMED.load(SeqCst) && fd >= 0 && (fd as usize) < NFD && TRACKED[fd as usize].load(SeqCst)
}

static RECORD: AtomicBool = AtomicBool::new(false);
static OPENED: Mutex<Vec<(Vec<u8>, i32)>> = Mutex::new(vec![]);

/// Runs f and returns the paths opened meanwhile, with their flags.
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<(Vec<u8>, i32)>) {
    OPENED.lock().unwrap().clear();
    RECORD.store(true, SeqCst);
    let v = f();
    RECORD.store(false, SeqCst);
    (v, std::mem::take(&mut *OPENED.lock().unwrap()))
}

unsafe fn do_open(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if RECORD.load(SeqCst) && !path.is_null() {
        let p = std::ffi::CStr::from_ptr(path as *const _).to_bytes().to_vec();
        OPENED.lock().unwrap().push((p, flags));
    }
    if ARMED.load(SeqCst) && !path.is_null() {
        let mut n = 0;
        while *path.add(n) != 0 {
            n += 1;
        }
        let p = std::slice::from_raw_parts(path, n);
        let hit = match STATE.lock().unwrap().as_ref() {
            Some((m, _, _)) => !m.is_empty() && p.windows(m.len()).any(|w| w == &m[..]),
            None => false,
        };
        if hit {
            if let (Act::Fail(e), _) = gate(Op::Open, -1, true) {
                fail(e);
                return -1;
            }
            let fd = ret(syscall(SYS_OPENAT, dir, path, flags, mode)) as i32;
            let errno = *__errno_location();
            if fd >= 0 && (fd as usize) < NFD {
                POS[fd as usize].store(0, SeqCst);
                TRACKED[fd as usize].store(true, SeqCst);
            }
            log(Op::Open, fd, 0, fd as i64);
            *__errno_location() = errno;
            return fd;
        }
    }
    ret(syscall(SYS_OPENAT, dir, path, flags, mode)) as i32
}

#[cfg(not(any(miri, feature = "nosym")))]
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod sym {
    use super::*;

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
        do_open(AT_FDCWD, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
        do_open(AT_FDCWD, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
        do_open(dir, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        if !tracked(fd) {
            return ret(syscall(SYS_READ, fd, buf, n)) as isize;
        }
        match gate(Op::Read, fd, true) {
            (Act::Fail(e), _) => {
                fail(e);
                -1
            }
            (Act::Pass, s) => {
                let m = s.map_or(n, |s| s.min(n));
                let m = match before_edge(Op::Read, fd, POS[fd as usize].load(SeqCst), m) {
                    Ok(m) => m,
                    Err(e) => {
                        fail(e);
                        return -1;
                    }
                };
                let r = ret(syscall(SYS_READ, fd, buf, m)) as isize;
                let pos = POS[fd as usize].fetch_add(r.max(0) as i64, SeqCst);
                log(Op::Read, fd, pos, r as i64);
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize {
        if !tracked(fd) {
            return ret(syscall(SYS_PREAD, fd, buf, n, at)) as isize;
        }
        match gate(Op::Read, fd, true) {
            (Act::Fail(e), _) => {
                fail(e);
                -1
            }
            (Act::Pass, s) => {
                let m = s.map_or(n, |s| s.min(n));
                let m = match before_edge(Op::Read, fd, at, m) {
                    Ok(m) => m,
                    Err(e) => {
                        fail(e);
                        return -1;
                    }
                };
                let r = ret(syscall(SYS_PREAD, fd, buf, m, at)) as isize;
                log(Op::Read, fd, at, r as i64);
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        if !tracked(fd) {
            return ret(syscall(SYS_WRITE, fd, buf, n)) as isize;
        }
        match gate(Op::Write, fd, true) {
            (Act::Fail(e), _) => {
                fail(e);
                -1
            }
            (Act::Pass, s) => {
                let m = s.map_or(n, |s| s.min(n));
                let m = match before_edge(Op::Write, fd, POS[fd as usize].load(SeqCst), m) {
                    Ok(m) => m,
                    Err(e) => {
                        fail(e);
                        return -1;
                    }
                };
                let r = ret(syscall(SYS_WRITE, fd, buf, m)) as isize;
                let pos = POS[fd as usize].fetch_add(r.max(0) as i64, SeqCst);
                log(Op::Write, fd, pos, r as i64);
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        if !tracked(fd) {
            return ret(syscall(SYS_LSEEK, fd, off, whence));
        }
        match gate(Op::Seek, fd, false) {
            (Act::Fail(e), _) => {
                fail(e);
                -1
            }
            (Act::Pass, _) => {
                let r = ret(syscall(SYS_LSEEK, fd, off, whence));
                if r >= 0 {
                    POS[fd as usize].store(r, SeqCst);
                }
                log(Op::Seek, fd, r, r);
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd >= 0 && (fd as usize) < NFD {
            TRACKED[fd as usize].store(false, SeqCst);
        }
        ret(syscall(SYS_CLOSE, fd)) as i32
    }
}

// ------------------------------------------------------------ memory meter

pub struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static METER_ON: AtomicBool = AtomicBool::new(false);

fn grow(n: usize) {
    if METER_ON.load(std::sync::atomic::Ordering::Relaxed) {
        let now = LIVE.fetch_add(n, SeqCst).wrapping_add(n);
        // memory freed that was allocated before the meter started wraps below zero
        if (now as isize) > 0 {
            PEAK.fetch_max(now, SeqCst);
        }
    }
}
fn shrink(n: usize) {
    if METER_ON.load(std::sync::atomic::Ordering::Relaxed) {
        LIVE.fetch_sub(n, SeqCst);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            shrink(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// Runs f and returns the peak of memory it held on top of what was live before.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    METER_ON.store(true, SeqCst);
    let v = f();
    METER_ON.store(false, SeqCst);
    (v, PEAK.load(SeqCst))
}

/// Runs f and returns how much more memory is allocated after it than before.
pub fn kept(f: impl FnOnce()) -> isize {
    LIVE.store(0, SeqCst);
    METER_ON.store(true, SeqCst);
    f();
    METER_ON.store(false, SeqCst);
    LIVE.load(SeqCst) as isize
}
