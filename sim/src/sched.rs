//! Cooperative scheduler over real OS threads: exactly one simulated thread runs at a time and
//! every switch is a recorded decision taken from the run's PRNG (or from a replayed list).
use crate::rng::Rng;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 8;
const NONE: usize = usize::MAX;
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; static BUSY: Cell<bool> = const { Cell::new(false) };
    /// Instruction-level preemption: counted instructions left, the decision that armed it, its target.
    static ARM: Cell<u64> = const { Cell::new(0) }; static ARMK: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; static TRAPS: Cell<u64> = const { Cell::new(0) }; static QUIET: Cell<u32> = const { Cell::new(0) }; }
pub static BURSTS: AtomicU64 = AtomicU64::new(0);
static GATE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static DONE: AtomicU32 = AtomicU32::new(0);
static ON: AtomicBool = AtomicBool::new(false);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicUsize = AtomicUsize::new(NONE);

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Ready, Blocked(usize, bool), Done }
struct S { n: usize, st: [St; MAXT], timed_out: [bool; MAXT], rng: Rng, num: u64, den: u64, mask: u32, plan: Option<Vec<(u64, u64)>>, pos: usize, rec: Vec<(u64, u64)>, k: u64, max: u64, digest: u64, burst: u64, left: u64 }
static mut SCH: Option<S> = None;
#[allow(static_mut_refs)]
fn sch() -> &'static mut S { unsafe { SCH.as_mut().unwrap() } }

pub fn active() -> bool { TID.with(|t| t.get()) != NONE && ON.load(SeqCst) && !BUSY.with(|b| b.get()) }
fn fwait(a: &AtomicU32) { while a.load(SeqCst) == 0 { unsafe { sys::raw(sys::SYS_FUTEX, a as *const _ as i64, 128, 0, 0, 0, 0); } } a.store(0, SeqCst); }
fn fwake(a: &AtomicU32) { a.store(1, SeqCst); unsafe { sys::raw(sys::SYS_FUTEX, a as *const _ as i64, 129, 64, 0, 0, 0); } }

/// Scheduling parameters of one run.
#[derive(Clone, Debug)]
pub struct Params { pub seed: u64, pub num: u64, pub den: u64, pub mask: u32, pub plan: Option<Vec<(u64, u64)>>, pub max: u64, pub burst: u64 }
pub struct Outcome { pub rec: Vec<(u64, u64)>, pub points: u64, pub switches: u64, pub blocks: u64, pub bursts: u64, pub digest: u64 }

fn decide(s: &mut S, me: usize, must: bool, class: u32) -> usize {
    let k = s.k; s.k += 1;
    if s.k > s.max { crate::core::die("livelock", "scheduling step budget exhausted: simulated threads make no progress"); }
    let mut cand = [0usize; MAXT]; let mut n = 0;
    for i in 0..s.n { if s.st[i] == St::Ready && (must || i != me) { cand[n] = i; n += 1; } }
    if n == 0 { return me; }
    if let Some(p) = &s.plan {
        while s.pos < p.len() && p[s.pos].0 < k { s.pos += 1; }
        if s.pos < p.len() && p[s.pos].0 == k { let v = p[s.pos].1; s.pos += 1; if v >= 1000 { if !must { ARMK.with(|a| a.set((k, (v - 1000) % 16))); ARM.with(|a| a.set((v - 1000) / 16)); } } else { for i in 0..n { if cand[i] == v as usize { return v as usize; } } } }
        return if must { cand[0] } else { me };
    }
    if !must && s.burst > 0 && s.left > 0 && s.rng.below(s.burst) == 0 { s.left -= 1; let e = 1 + s.rng.below(9); let n = 1 + s.rng.below(1 << e); ARMK.with(|a| a.set((k, 15))); ARM.with(|a| a.set(n)); STEPS.with(|x| x.set(n)); return me; }
    let go = must || if class == C_SYS { s.rng.below(2) == 0 } else { s.rng.below(s.den) < s.num };
    if !go { return me; }
    let c = cand[s.rng.below(n as u64) as usize];
    if s.rec.len() < s.rec.capacity() { s.rec.push((k, c as u64)); }
    c
}
fn switch(me: usize, to: usize, wait: bool) {
    SWITCHES.fetch_add(1, SeqCst);
    let s = sch(); s.digest = crate::rng::mix2(s.digest, (s.k << 4) | to as u64);
    CUR.store(to, SeqCst);
    fwake(&GATE[to]);
    if wait { fwait(&GATE[me]); }
}
/// A point at which another simulated thread may be scheduled. `class` selects enabled sites.
pub fn point(class: u32) {
    if !active() { return; }
    let me = TID.with(|t| t.get());
    let s = sch();
    if s.mask >> class & 1 == 0 || ARM.with(|a| a.get()) > 0 { return; }
    BUSY.with(|b| b.set(true));
    POINTS.fetch_add(1, SeqCst);
    let to = decide(s, me, false, class);
    if to != me { switch(me, to, true); }
    BUSY.with(|b| b.set(false));
    if ARM.with(|a| a.get()) > 0 { TRAPS.with(|t| t.set(0)); unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") } }
}
/// Marks code of the simulator itself that must not be preempted between instructions.
pub fn quiet(on: bool) { QUIET.with(|q| q.set(if on { q.get() + 1 } else { q.get() - 1 })) }
extern "C" { static __executable_start: u8; static etext: u8; }
unsafe extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let u = c as *mut libc::ucontext_t; let g = &mut (*u).uc_mcontext.gregs;
    let ip = g[libc::REG_RIP as usize] as usize;
    let left = ARM.with(|a| a.get());
    TRAPS.with(|t| t.set(t.get() + 1));
    if left == 0 || TRAPS.with(|t| t.get()) > 300_000 { ARM.with(|a| a.set(0)); g[libc::REG_EFL as usize] &= !0x100; return; }
    let (lo, hi) = (&__executable_start as *const u8 as usize, &etext as *const u8 as usize);
    if ip < lo || ip >= hi || BUSY.with(|b| b.get()) || QUIET.with(|q| q.get()) > 0 { return; }
    if left > 1 { ARM.with(|a| a.set(left - 1)); return; }
    g[libc::REG_EFL as usize] &= !0x100; ARM.with(|a| a.set(0));
    let me = TID.with(|t| t.get());
    if me == NONE || !ON.load(SeqCst) { return; }
    BUSY.with(|b| b.set(true));
    let s = sch(); let (k, want) = ARMK.with(|a| a.get());
    let mut cand = [0usize; MAXT]; let mut n = 0;
    for i in 0..s.n { if s.st[i] == St::Ready && i != me && (s.plan.is_none() || i as u64 == want) { cand[n] = i; n += 1; } }
    if n > 0 {
        let to = if s.plan.is_some() { cand[0] } else { cand[s.rng.below(n as u64) as usize] };
        BURSTS.fetch_add(1, SeqCst);
        // recorded under the decision that armed it, with the exact instruction count
        if s.plan.is_none() && s.rec.len() < s.rec.capacity() { s.rec.push((k, 1000 + STEPS.with(|x| x.get()) * 16 + to as u64)); }
        switch(me, to, true);
    }
    BUSY.with(|b| b.set(false));
}
thread_local! { static STEPS: Cell<u64> = const { Cell::new(0) }; }
pub fn block_on(addr: usize, timed: bool) -> bool {
    let me = TID.with(|t| t.get());
    BUSY.with(|b| b.set(true));
    BLOCKS.fetch_add(1, SeqCst); ARM.with(|a| a.set(0));
    let s = sch();
    s.st[me] = St::Blocked(addr, timed); s.timed_out[me] = false;
    reschedule(me, true);
    BUSY.with(|b| b.set(false));
    !sch().timed_out[me]
}
fn reschedule(me: usize, wait: bool) {
    let s = sch();
    let any = (0..s.n).any(|i| s.st[i] == St::Ready);
    if !any {
        // simulated time passes: a timed waiter expires, otherwise nothing can ever run again
        if let Some(i) = (0..s.n).find(|i| matches!(s.st[*i], St::Blocked(_, true))) { s.st[i] = St::Ready; s.timed_out[i] = true; }
        else if (0..s.n).all(|i| s.st[i] == St::Done) { ON.store(false, SeqCst); fwake(&DONE); return; }
        else { crate::core::die("deadlock", "every live simulated thread is blocked"); }
    }
    let to = decide(s, me, true, 0);
    if to != me { switch(me, to, wait); }
}
pub fn wake(addr: usize, n: u64) -> u64 {
    let s = sch(); let mut woken = 0;
    BUSY.with(|b| b.set(true));
    while woken < n {
        let mut c = [0usize; MAXT]; let mut m = 0;
        for i in 0..s.n { if let St::Blocked(a, _) = s.st[i] { if a == addr { c[m] = i; m += 1; } } }
        if m == 0 { break; }
        let w = if s.plan.is_some() || m == 1 { c[0] } else { c[s.rng.below(m as u64) as usize] };
        s.st[w] = St::Ready; woken += 1;
    }
    BUSY.with(|b| b.set(false));
    woken
}
/// Runs the closures as simulated threads to completion.
#[allow(static_mut_refs)]
pub fn run(p: &Params, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = bodies.len();
    assert!(n <= MAXT && n > 0);
    SWITCHES.store(0, SeqCst); BLOCKS.store(0, SeqCst); POINTS.store(0, SeqCst); DONE.store(0, SeqCst);
    unsafe { SCH = Some(S { n, st: [St::Ready; MAXT], timed_out: [false; MAXT], rng: Rng::new(p.seed), num: p.num, den: p.den, mask: p.mask, plan: p.plan.clone(), pos: 0, rec: Vec::with_capacity(200_000), k: 0, max: p.max, digest: 0, burst: p.burst, left: 16 });
        let mut sa: libc::sigaction = std::mem::zeroed(); sa.sa_sigaction = on_trap as *const () as usize; sa.sa_flags = libc::SA_SIGINFO; libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()); BURSTS.store(0, SeqCst); }
    for i in n..MAXT { sch().st[i] = St::Done; }
    for g in &GATE { g.store(0, SeqCst); }
    ON.store(true, SeqCst);
    let hs: Vec<_> = bodies.into_iter().enumerate().map(|(i, b)| std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        fwait(&GATE[i]);
        TID.with(|t| t.set(i));
        b();
        BUSY.with(|b| b.set(true)); ARM.with(|a| a.set(0));
        sch().st[i] = St::Done;
        TID.with(|t| t.set(NONE));
        reschedule(i, false);
    }).expect("spawn")).collect();
    let first = { let s = sch(); decide(s, 0, true, 0) };
    switch(first, first, false);
    fwait(&DONE);
    for h in hs { let _ = h.join(); }
    let s = sch();
    Outcome { rec: std::mem::take(&mut s.rec), points: POINTS.load(SeqCst), switches: SWITCHES.load(SeqCst), blocks: BLOCKS.load(SeqCst), bursts: BURSTS.load(SeqCst), digest: s.digest }
}
pub fn me() -> usize { TID.with(|t| t.get()) }
pub fn hook(site: u32) { point(site) }
pub const C_ALLOC: u32 = 20;
pub const C_CALL: u32 = 21;
pub const C_SYS: u32 = 22;
