//! Allocator seam: every allocation is a scheduling point, and allocations made while library
//! code runs are tracked so ownership rules (exactly-once free, matching layout, no overrun,
//! no leak) can be judged.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub struct SimAlloc;
thread_local! { static IN_LIB: Cell<u32> = const { Cell::new(0) }; }
pub static TRACK: AtomicBool = AtomicBool::new(false);
const CAP: usize = 1 << 16;
const TOMB: usize = 1;
#[derive(Clone, Copy)]
struct Ent { p: usize, size: usize, align: usize, call: u64, freed: bool }
static mut TAB: [Ent; CAP] = [Ent { p: 0, size: 0, align: 0, call: 0, freed: false }; CAP];
static LOCK: AtomicBool = AtomicBool::new(false);
pub static CALL: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
/// 0 none, 1 layout mismatch on free, 2 double free, 3 overrun, 4 write after free
static FAULT: AtomicU64 = AtomicU64::new(0);
pub static TRACKED: AtomicU64 = AtomicU64::new(0);
const RZ: usize = 32;
const RZB: u8 = 0xA7;

fn lock() { sched::quiet(true); while LOCK.swap(true, SeqCst) { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, SeqCst); sched::quiet(false); }
fn h(p: usize) -> usize { (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 48 & (CAP - 1) }
#[allow(static_mut_refs)]
unsafe fn find(p: usize) -> Option<usize> { let mut i = h(p); for _ in 0..CAP { if TAB[i].p == p { return Some(i); } if TAB[i].p == 0 { return None; } i = (i + 1) & (CAP - 1); } None }
#[allow(static_mut_refs)]
unsafe fn insert(e: Ent) { let mut i = h(e.p); for _ in 0..CAP { if TAB[i].p == 0 || TAB[i].p == TOMB || TAB[i].p == e.p { TAB[i] = e; return; } i = (i + 1) & (CAP - 1); } }
fn fault(k: u64) { let _ = FAULT.compare_exchange(0, k, SeqCst, SeqCst); }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::point(sched::C_ALLOC);
        if TRACK.load(SeqCst) && IN_LIB.with(|c| c.get()) > 0 && l.align() <= 16 {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + RZ, l.align()));
            if p.is_null() { return p; }
            std::ptr::write_bytes(p, 0xC5, l.size());
            std::ptr::write_bytes(p.add(l.size()), RZB, RZ);
            lock(); insert(Ent { p: p as usize, size: l.size(), align: l.align(), call: CALL.load(SeqCst), freed: false }); unlock();
            LIVE.fetch_add(1, SeqCst); LIVE_BYTES.fetch_add(l.size(), SeqCst); TRACKED.fetch_add(1, SeqCst);
            return p;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(SeqCst) || LIVE.load(SeqCst) > 0 {
            lock();
            let f = find(p as usize);
            #[allow(static_mut_refs)]
            if let Some(i) = f {
                let e = TAB[i];
                if e.freed { fault(2); unlock(); return; }
                if e.size != l.size() || e.align != l.align() { fault(1); }
                for k in 0..RZ { if *p.add(e.size + k) != RZB { fault(3); break; } }
                // quarantined: the memory is poisoned and never reused within the run
                TAB[i].freed = true;
                unlock();
                std::ptr::write_bytes(p, 0xDD, e.size);
                LIVE.fetch_sub(1, SeqCst); LIVE_BYTES.fetch_sub(e.size, SeqCst);
                return;
            }
            unlock();
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
/// Runs library code; allocations in it are the library's.
pub fn lib<T>(f: impl FnOnce() -> T) -> T { IN_LIB.with(|c| c.set(c.get() + 1)); let r = f(); IN_LIB.with(|c| c.set(c.get() - 1)); r }
/// Runs harness code nested inside library calls (callbacks).
pub fn outside<T>(f: impl FnOnce() -> T) -> T { let n = IN_LIB.with(|c| c.replace(0)); let r = f(); IN_LIB.with(|c| c.set(n)); r }
pub fn live() -> usize { LIVE.load(SeqCst) }
pub fn live_bytes() -> usize { LIVE_BYTES.load(SeqCst) }
pub fn fault_seen() -> u64 { FAULT.load(SeqCst) }
/// Size of the tracked live block at p, if any.
pub fn block(p: *const u8) -> Option<usize> { lock(); let r = unsafe { find(p as usize) }; #[allow(static_mut_refs)] let o = r.and_then(|i| unsafe { if TAB[i].freed { None } else { Some(TAB[i].size) } }); unlock(); o }
