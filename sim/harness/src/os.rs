//! Clocks and randomness of the operating system, taken over for the time of a simulation: whatever
//! the simulated code (or the standard library under it) asks for is answered from the seed.
use std::arch::asm;
use std::os::raw::{c_int, c_long, c_uint, c_void};

const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_GETRANDOM: c_long = 318;

extern "C" {
    fn __errno_location() -> *mut c_int;
}
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r
}
unsafe fn random(buf: *mut c_void, len: usize) -> bool {
    len > 0 && !buf.is_null() && simrt::entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len))
}
/// # Safety
/// as the function of libc
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if random(buf, len) {
        return len as isize;
    }
    raw(SYS_GETRANDOM, buf as c_long, len as c_long, flags as c_long, 0, 0, 0) as isize
}
/// # Safety
/// as the function of libc
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_GETRANDOM && random(a as *mut c_void, b as usize) {
        return b;
    }
    raw(n, a, b, c, d, e, f)
}
#[repr(C)]
pub struct Ts {
    s: i64,
    n: c_long,
}
/// # Safety
/// as the function of libc
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Ts) -> c_int {
    let sim = match id {
        0 | 5 => simrt::try_wall(),
        1 | 4 | 6 | 7 => simrt::try_mono(),
        _ => None,
    };
    if let (Some(t), false) = (sim, ts.is_null()) {
        (*ts).s = (t / 1_000_000_000) as i64;
        (*ts).n = (t % 1_000_000_000) as c_long;
        return 0;
    }
    raw(SYS_CLOCK_GETTIME, id as c_long, ts as c_long, 0, 0, 0, 0) as c_int
}
/// The takeover works: two different simulated moments and streams are seen through the standard library.
pub fn probe() -> bool {
    let f = |seed| std::thread::spawn(move || {
        let mut got = (0, String::new());
        simrt::run(
            simrt::Cfg { seed, policy: simrt::Policy::Fifo, poll_cost: 0, max_steps: 10, max_time: 10, event_first: 0 },
            || {},
            |_| {
                let a = std::time::Instant::now();
                let b = std::time::Instant::now();
                got = ((b - a).as_nanos(), uuid::Uuid::new_v4().to_string());
            },
        );
        got
    }).join().unwrap_or((1, String::new()));
    let (a, b, c) = (f(1), f(1), f(2));
    a == b && a.0 == 0 && a.1 != c.1
}
