//! Scheduling seam. Library stand-ins call `point(site)`; the simulator installs a
//! callback that may switch to another simulated thread. No callback: no effect.
use std::sync::atomic::{AtomicUsize, Ordering};
static HOOK: AtomicUsize = AtomicUsize::new(0);
pub fn install(f: fn(u32)) { HOOK.store(f as usize, Ordering::SeqCst); }
pub fn uninstall() { HOOK.store(0, Ordering::SeqCst); }
#[inline]
pub fn point(site: u32) {
    let h = HOOK.load(Ordering::Relaxed);
    if h != 0 {
        let f: fn(u32) = unsafe { std::mem::transmute(h) };
        f(site)
    }
}
pub const S_GROUP_ADD: u32 = 1;
pub const S_LRU: u32 = 2;
pub const S_NORMALIZE: u32 = 3;
pub const S_PAIRING: u32 = 4;
pub const S_DESER: u32 = 5;
pub const S_LAZY: u32 = 6;
pub const S_CRH: u32 = 7;
