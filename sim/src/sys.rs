//! System-call seam: `syscall` and `getrandom` are interposed at link time, so the futexes
//! behind std's Mutex/Once/park and the entropy behind thread_rng()/RandomState belong to
//! the simulator.
use crate::sched;
use std::arch::asm;
use std::os::raw::{c_long, c_uint, c_void};
use std::sync::atomic::{AtomicU64, Ordering};

pub const SYS_FUTEX: c_long = 202;
pub const SYS_GETRANDOM: c_long = 318;
const FUTEX_CMD_MASK: c_long = 0x7f;

#[inline(always)]
pub unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);
/// 0: real entropy (outside runs); 1: seeded; 2: seeded, every draw identical (stuck source)
static MODE: AtomicU64 = AtomicU64::new(0);
pub fn set_entropy(seed: u64, mode: u64) { ENTROPY.store(seed, Ordering::SeqCst); MODE.store(mode, Ordering::SeqCst); DRAWS.store(0, Ordering::SeqCst); }
pub fn draws() -> u64 { DRAWS.load(Ordering::SeqCst) }
unsafe fn fill(p: *mut u8, n: usize) {
    DRAWS.fetch_add(1, Ordering::SeqCst);
    let mode = MODE.load(Ordering::SeqCst);
    for i in 0..n {
        if i % 8 == 0 && mode != 2 { ENTROPY.fetch_add(0x9E3779B97F4A7C15, Ordering::SeqCst); }
        let w = crate::rng::mix(ENTROPY.load(Ordering::SeqCst));
        *p.add(i) = (w >> (8 * (i % 8))) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if MODE.load(Ordering::SeqCst) == 0 {
        let r = raw(SYS_GETRANDOM, buf as c_long, len as c_long, flags as c_long, 0, 0, 0);
        if r < 0 { *libc::__errno_location() = -r as i32; return -1; }
        return r as isize;
    }
    fill(buf as *mut u8, len);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_GETRANDOM && MODE.load(Ordering::SeqCst) != 0 { if b > 0 { fill(a as *mut u8, b as usize); } return b; }
    if n == SYS_FUTEX && sched::active() {
        let cmd = b & FUTEX_CMD_MASK;
        sched::quiet(true); // value check and sleep are one atomic step, as in the kernel
        if cmd == 0 || cmd == 9 { // WAIT, WAIT_BITSET
            if *(a as *const u32) != c as u32 { sched::quiet(false); *libc::__errno_location() = libc::EAGAIN; return -1; }
            let r = sched::block_on(a as usize, d != 0); sched::quiet(false);
            return match r { true => 0, false => { *libc::__errno_location() = libc::ETIMEDOUT; -1 } };
        }
        if cmd == 1 || cmd == 10 { let r = sched::wake(a as usize, c as u64) as c_long; sched::quiet(false); sched::point(sched::C_SYS); return r; }
        sched::quiet(false);
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 { *libc::__errno_location() = -r as i32; return -1; }
    r
}
