//! Preloaded (LD_PRELOAD) into processes that are to see another date and another host name:
//! VH_CLOCK is a number of seconds, VH_HOST a name. VH_SPEED is how much faster than it does
//! the monotonic clock seems to go (for processes that never wait for a point in time).
use std::ffi::{c_char, c_int, c_long, CStr};
use std::sync::atomic::{AtomicI64, Ordering};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[repr(C)]
pub struct Timeval {
    sec: i64,
    usec: i64,
}

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn getenv(name: *const c_char) -> *const c_char;
}

const UNAME: c_long = 63;
const CLOCK_GETTIME: c_long = 228;

fn number(name: &CStr) -> i64 {
    let p = unsafe { getenv(name.as_ptr()) };
    if p.is_null() {
        return 0;
    }
    unsafe { CStr::from_ptr(p) }.to_str().ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

static BEGUN: AtomicI64 = AtomicI64::new(0);

/// # Safety
/// As of the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut Timespec) -> c_int {
    let r = syscall(CLOCK_GETTIME, clock as c_long, ts) as c_int;
    // the wall clock, also the coarse and the atomic one
    if r == 0 && matches!(clock, 0 | 5 | 8 | 11) {
        (*ts).sec += number(c"VH_CLOCK");
    }
    // the monotonic clocks
    let speed = if matches!(clock, 1 | 4 | 6 | 7) { number(c"VH_SPEED") } else { 0 };
    if r == 0 && speed > 1 {
        let now = (*ts).sec * 1_000_000_000 + (*ts).nsec;
        BEGUN.compare_exchange(0, now, Ordering::SeqCst, Ordering::SeqCst).ok();
        let begun = BEGUN.load(Ordering::SeqCst);
        let shown = begun + (now - begun).max(0).saturating_mul(speed).min(i64::MAX / 4);
        (*ts).sec = shown / 1_000_000_000;
        (*ts).nsec = shown % 1_000_000_000;
    }
    r
}

/// # Safety
/// As of the C function.
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, _: *mut u8) -> c_int {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    let r = clock_gettime(0, &mut ts);
    *tv = Timeval { sec: ts.sec, usec: ts.nsec / 1000 };
    r
}

/// # Safety
/// As of the C function.
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut ts);
    if !out.is_null() {
        *out = ts.sec;
    }
    ts.sec
}

unsafe fn host(to: *mut c_char, room: usize) {
    let p = getenv(c"VH_HOST".as_ptr());
    if p.is_null() || room == 0 {
        return;
    }
    let name = CStr::from_ptr(p).to_bytes();
    let n = name.len().min(room - 1);
    std::ptr::copy_nonoverlapping(name.as_ptr() as *const c_char, to, n);
    *to.add(n) = 0;
}

/// # Safety
/// As of the C function.
#[no_mangle]
pub unsafe extern "C" fn uname(buf: *mut [[c_char; 65]; 6]) -> c_int {
    let r = syscall(UNAME, buf) as c_int;
    if r == 0 {
        host((*buf)[1].as_mut_ptr(), 65);
    }
    r
}

/// # Safety
/// As of the C function.
#[no_mangle]
pub unsafe extern "C" fn gethostname(to: *mut c_char, room: usize) -> c_int {
    let mut u = [[0 as c_char; 65]; 6];
    uname(&mut u);
    let n = room.min(65);
    std::ptr::copy_nonoverlapping(u[1].as_ptr(), to, n);
    if n > 0 {
        *to.add(n - 1) = 0;
    }
    0
}
