//! Interposes the system calls with which the code under test changes files, so that a process can
//! be killed at, or be refused, the k-th change below one directory, and so that threads started
//! by the code under test can be delayed.  Everything is off until `arm` / `GATE` are used.
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// die before the k-th change
    KillBefore(u64),
    /// die after the k-th change
    KillAfter(u64),
    /// die in the middle of the k-th change if it is a write of several bytes
    KillTorn(u64),
    /// the changes k, k+1, ... k+n-1 fail with this error number
    Error(u64, u64, i32),
}

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
struct Conf {
    dir: Vec<u8>,
    fault: Fault,
}
static CONF: Mutex<Conf> = Mutex::new(Conf { dir: Vec::new(), fault: Fault::None });

pub fn arm(dir: &str, fault: Fault) {
    let mut c = CONF.lock().unwrap();
    c.dir = dir.as_bytes().to_vec();
    c.fault = fault;
    COUNT.store(0, SeqCst);
    ARMED.store(true, SeqCst);
}
pub fn disarm() -> u64 {
    ARMED.store(false, SeqCst);
    COUNT.load(SeqCst)
}
pub fn count() -> u64 {
    COUNT.load(SeqCst)
}

/// what happens to the change that is about to be made
enum Act {
    Go,
    GoThenDie,
    Torn,
    Fail(i32),
}
fn die() -> ! {
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
        loop {
            libc::pause();
        }
    }
}
fn act() -> Act {
    let c = CONF.lock().unwrap();
    let k = COUNT.fetch_add(1, SeqCst) + 1;
    match c.fault {
        Fault::KillBefore(n) if k == n => die(),
        Fault::KillAfter(n) if k == n => {
            std::mem::forget(c); // nobody else may change anything any more
            Act::GoThenDie
        }
        Fault::KillTorn(n) if k == n => {
            std::mem::forget(c);
            Act::Torn
        }
        Fault::Error(n, m, e) if k >= n && k - n < m => Act::Fail(e),
        _ => Act::Go,
    }
}
fn under(p: &[u8]) -> bool {
    let c = CONF.lock().unwrap();
    !c.dir.is_empty() && p.len() >= c.dir.len() && &p[..c.dir.len()] == c.dir.as_slice()
}
unsafe fn path_counts(dirfd: c_int, p: *const c_char) -> bool {
    if !ARMED.load(SeqCst) || p.is_null() {
        return false;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    if b.first() == Some(&b'/') {
        return under(b);
    }
    if dirfd == libc::AT_FDCWD { false } else { fd_counts(dirfd) }
}
fn fd_counts(fd: c_int) -> bool {
    if !ARMED.load(SeqCst) {
        return false;
    }
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 4096];
    let n = unsafe { libc::readlink(link.as_ptr() as *const c_char, buf.as_mut_ptr() as *mut c_char, buf.len()) };
    n > 0 && under(&buf[..n as usize])
}
fn real(name: &str, cell: &AtomicUsize) -> usize {
    let v = cell.load(SeqCst);
    if v != 0 {
        return v;
    }
    let n = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, n.as_ptr()) } as usize;
    cell.store(p, SeqCst);
    p
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

macro_rules! wrap {
    ($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty, $counts:expr, $fail:expr) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            static CELL: AtomicUsize = AtomicUsize::new(0);
            let f: unsafe extern "C" fn($($t),*) -> $r =
                unsafe { std::mem::transmute(real(stringify!($name), &CELL)) };
            let counts: bool = unsafe { $counts };
            if counts {
                match act() {
                    Act::Go => unsafe { f($($a),*) },
                    Act::GoThenDie => { unsafe { f($($a),*) }; die() }
                    Act::Torn => die(),
                    Act::Fail(e) => { set_errno(e); $fail }
                }
            } else {
                unsafe { f($($a),*) }
            }
        }
    };
}

wrap!(rename(a: *const c_char, b: *const c_char) -> c_int, path_counts(libc::AT_FDCWD, a) || path_counts(libc::AT_FDCWD, b), -1);
wrap!(renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int, path_counts(d, a) || path_counts(e, b), -1);
wrap!(unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int, path_counts(d, a), -1);
wrap!(rmdir(a: *const c_char) -> c_int, path_counts(libc::AT_FDCWD, a), -1);
wrap!(mkdir(a: *const c_char, m: libc::mode_t) -> c_int, path_counts(libc::AT_FDCWD, a), -1);
wrap!(ftruncate64(fd: c_int, l: i64) -> c_int, fd_counts(fd), -1);
wrap!(copy_file_range(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, l: usize, fl: u32) -> isize, fd_counts(o), -1);
wrap!(sendfile(o: c_int, i: c_int, off: *mut i64, l: usize) -> isize, fd_counts(o), -1);

/// points at which the lock file protocol can be stopped from outside
pub static HOLD: Mutex<Option<(String, String, String)>> = Mutex::new(None); // (where, marker to create, file to wait for)
fn hold(here: &str) {
    let h = HOLD.lock().unwrap().clone();
    if let Some((w, mark, wait)) = h
        && w == here
    {
        *HOLD.lock().unwrap() = None;
        let _ = std::fs::write(&mark, b"x");
        for _ in 0..2000 {
            if std::path::Path::new(&wait).exists() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    static CELL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(*const c_char) -> c_int = unsafe { std::mem::transmute(real("unlink", &CELL)) };
    if unsafe { CStr::from_ptr(a) }.to_bytes().ends_with(b"db.lock") {
        hold("unlink");
    }
    if unsafe { path_counts(libc::AT_FDCWD, a) } {
        match act() {
            Act::Go => unsafe { f(a) },
            Act::GoThenDie => {
                unsafe { f(a) };
                die()
            }
            Act::Torn => die(),
            Act::Fail(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        unsafe { f(a) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    static CELL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(c_int, c_int) -> c_int = unsafe { std::mem::transmute(real("flock", &CELL)) };
    if op & libc::LOCK_EX != 0 {
        hold("lock");
    }
    unsafe { f(fd, op) }
}

macro_rules! wrap_open {
    ($name:ident, ($($a:ident : $t:ty),*), $dirfd:expr, $path:ident, $flags:ident) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*, $flags: c_int, mode: libc::mode_t) -> c_int {
            static CELL: AtomicUsize = AtomicUsize::new(0);
            let f: unsafe extern "C" fn($($t),*, c_int, libc::mode_t) -> c_int =
                unsafe { std::mem::transmute(real(stringify!($name), &CELL)) };
            if $flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && unsafe { path_counts($dirfd, $path) } {
                match act() {
                    Act::Go => unsafe { f($($a),*, $flags, mode) },
                    Act::GoThenDie => { unsafe { f($($a),*, $flags, mode) }; die() }
                    Act::Torn => die(),
                    Act::Fail(e) => { set_errno(e); -1 }
                }
            } else {
                unsafe { f($($a),*, $flags, mode) }
            }
        }
    };
}
wrap_open!(open64, (p: *const c_char), libc::AT_FDCWD, p, flags);
wrap_open!(openat64, (d: c_int, p: *const c_char), d, p, flags);

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    static CELL: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(c_int, *const c_void, usize) -> isize =
        unsafe { std::mem::transmute(real("write", &CELL)) };
    if fd > 2 && fd_counts(fd) {
        match act() {
            Act::Go => unsafe { f(fd, b, n) },
            Act::GoThenDie => {
                unsafe { f(fd, b, n) };
                die()
            }
            Act::Torn => {
                unsafe { f(fd, b, n / 2) };
                die()
            }
            Act::Fail(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        unsafe { f(fd, b, n) }
    }
}

// ---------------------------------------------------------------- delaying threads
#[derive(Default)]
pub struct GateState {
    created: u64,
    released: u64,
    finished: u64,
}
pub static GATING: AtomicBool = AtomicBool::new(false);
static GATE: Mutex<GateState> = Mutex::new(GateState { created: 0, released: 0, finished: 0 });
static GATE_CV: Condvar = Condvar::new();

/// number of threads that were started but may not run yet
pub fn gate_waiting() -> u64 {
    let g = GATE.lock().unwrap();
    g.created.saturating_sub(g.released)
}
/// let n more threads run
pub fn gate_release(n: u64) {
    let mut g = GATE.lock().unwrap();
    g.released = (g.released + n).min(g.created);
    GATE_CV.notify_all();
}
/// wait until all released threads ended
pub fn gate_settle() {
    let mut g = GATE.lock().unwrap();
    let t = std::time::Instant::now();
    while g.finished < g.released && t.elapsed().as_secs() < 20 {
        g = GATE_CV.wait_timeout(g, std::time::Duration::from_millis(100)).unwrap().0;
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    f: Start,
    a: *mut c_void,
    ticket: u64,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    {
        let mut g = GATE.lock().unwrap();
        let start = std::time::Instant::now();
        while g.released < t.ticket && start.elapsed().as_secs() < 30 {
            g = GATE_CV.wait_timeout(g, std::time::Duration::from_millis(200)).unwrap().0;
        }
    }
    let r = (t.f)(t.a);
    let mut g = GATE.lock().unwrap();
    g.finished += 1;
    GATE_CV.notify_all();
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(n: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, a: *mut c_void) -> c_int {
    static CELL: AtomicUsize = AtomicUsize::new(0);
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    let real_f: F = unsafe { std::mem::transmute(real("pthread_create", &CELL)) };
    if GATING.load(SeqCst) {
        let ticket = {
            let mut g = GATE.lock().unwrap();
            g.created += 1;
            g.created
        };
        let b = Box::into_raw(Box::new(Tramp { f, a, ticket })) as *mut c_void;
        unsafe { real_f(n, attr, tramp, b) }
    } else {
        unsafe { real_f(n, attr, f, a) }
    }
}
