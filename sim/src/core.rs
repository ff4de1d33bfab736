//! Plans, runs in forked children, batch driver, minimiser, replay files, evidence.
use crate::rng::{mix2, Rng};
use crate::{sched, sys};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Step { pub op: String, pub a: Vec<u64> }
pub fn st(op: &str, a: &[u64]) -> Step { Step { op: op.into(), a: a.to_vec() } }
impl Step { pub fn arg(&self, i: usize) -> u64 { self.a.get(i).copied().unwrap_or(0) } }
#[derive(Clone, Debug)]
pub struct Plan { pub scenario: String, pub prop: String, pub seed: u64, pub steps: Vec<Step>, pub sched: Option<Vec<(u64, u64)>> }
impl Plan {
    pub fn text(&self) -> String {
        let mut s = format!("scenario {}\nproperty {}\nseed {}\n", self.scenario, self.prop, self.seed);
        if let Some(p) = &self.sched { s.push_str("sched"); for (k, t) in p { let _ = write!(s, " {}:{}", k, t); } s.push('\n'); }
        for x in &self.steps { let _ = write!(s, "step {}", x.op); for v in &x.a { let _ = write!(s, " {}", v); } s.push('\n'); }
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan { scenario: String::new(), prop: String::new(), seed: 0, steps: vec![], sched: None };
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("scenario") => p.scenario = w.next()?.into(), Some("property") => p.prop = w.next()?.into(), Some("seed") => p.seed = w.next()?.parse().ok()?,
                Some("sched") => p.sched = Some(w.filter_map(|x| { let mut y = x.split(':'); Some((y.next()?.parse().ok()?, y.next()?.parse().ok()?)) }).collect()),
                Some("step") => { let op = w.next()?.to_string(); p.steps.push(Step { op, a: w.map(|x| x.parse().unwrap_or(0)).collect() }) }
                _ => {}
            }
        }
        Some(p)
    }
}
#[derive(Clone, Debug)]
pub struct Fail { pub class: String, pub msg: String }
/// Per-run context: oracle sink, counters, event-log digest.
pub struct Cx {
    pub prop: String, pub seed: u64, pub fail: Option<Fail>, pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub states: BTreeSet<u64>,
    pub digest: u64, pub ops: u64, pub simtime: u64, pub checks: u64, pub verbose: bool, pub sched: Option<Vec<(u64, u64)>>, pub rec: Vec<(u64, u64)>, pub cold: bool,
}
impl Cx {
    pub fn want(&self, p: &str) -> bool { self.prop == p }
    pub fn stop(&self) -> bool { self.fail.is_some() }
    /// One oracle evaluation belonging to property `p`.
    pub fn check(&mut self, p: &str, class: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if p == self.prop || p == "*" { self.checks += 1; if !ok && self.fail.is_none() { self.fail = Some(Fail { class: class.into(), msg: msg() }); } }
        ok
    }
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.into()).or_insert(0) += 1; }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_insert(0) += 1; }
    pub fn log(&mut self, f: impl FnOnce() -> String) { let s = f(); for c in s.as_bytes().chunks(8) { let mut b = [0; 8]; b[..c.len()].copy_from_slice(c); self.digest = mix2(self.digest, u64::from_le_bytes(b)); } if self.verbose { eprintln!("  | {}", s); } }
    pub fn state(&mut self, h: u64) { self.states.insert(h & 0xffff_ffff_ffff); }
}
pub fn hash(b: &[u8]) -> u64 { let mut h = b.len() as u64; for c in b.chunks(8) { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); h = mix2(h, u64::from_le_bytes(x)); } h }

pub trait Scenario: Sync { fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step>; fn exec(&self, steps: &[Step], cx: &mut Cx); }

#[derive(Clone, Debug, Default)]
pub struct Res { pub fail: Option<Fail>, pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub states: Vec<u64>, pub digest: u64, pub ops: u64, pub simtime: u64, pub checks: u64, pub rec: Vec<(u64, u64)>, pub harness: Option<String> }

static OUT: AtomicI32 = AtomicI32::new(-1);
fn clean(s: &str) -> String { s.replace(['\n', '\r'], " ") }
unsafe fn raw_write(fd: i32, s: &[u8]) { let mut o = 0; while o < s.len() { let n = libc::write(fd, s[o..].as_ptr() as *const _, s.len() - o); if n <= 0 { break; } o += n as usize; } }
/// Ends the run from anywhere with a violation of whichever property is being judged.
pub fn die(class: &str, msg: &str) -> ! {
    let fd = OUT.load(SeqCst);
    let s = format!("F {} {}\nEND\n", class, clean(msg));
    unsafe { if fd >= 0 { raw_write(fd, s.as_bytes()); } else { eprintln!("{}", s); } libc::_exit(0) }
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| { let f = l.file(); let f = f.rsplit("/crates/").next().unwrap_or(f); f.to_string() }).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let fd = OUT.load(SeqCst);
        let s = format!("P panic@{} {}\n", loc.replace(' ', "_"), clean(&m));
        unsafe { if fd >= 0 { raw_write(fd, s.as_bytes()); } else { eprintln!("{} at {:?}", s, i.location()); } }
    }));
}
pub const MEM_LIMIT: u64 = 3 << 30;
/// Executes one plan in a forked child. Deterministic function of the plan and the code.
pub struct Running { pub pid: i32, pub fd: i32, pub buf: Vec<u8>, pub start: Instant }
pub fn spawn(sc: &dyn Scenario, plan: &Plan, verbose: bool, cold: bool) -> Running {
    let mut p = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(p.as_mut_ptr()), 0); }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(p[0]); let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &rl); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
        if !verbose { unsafe { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); if n >= 0 { libc::dup2(n, 2); } } }
        OUT.store(p[1], SeqCst);
        install_panic_hook();
        sys::set_entropy(mix2(plan.seed, 0xE17), 1);
        simhook::install(sched::hook);
        let mut cx = Cx { prop: plan.prop.clone(), seed: plan.seed, fail: None, faults: BTreeMap::new(), probes: BTreeMap::new(), states: BTreeSet::new(), digest: 0, ops: 0, simtime: 0, checks: 0, verbose, sched: plan.sched.clone(), rec: vec![], cold };
        // a fresh thread: thread-local generator and hash keys start from the seeded source
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.exec(&plan.steps, &mut cx)))).unwrap().join());
        let ok = matches!(r, Ok(Ok(())));
        let mut o = String::new();
        if let Some(f) = &cx.fail { let _ = writeln!(o, "F {} {}", f.class.replace(' ', "_"), clean(&f.msg)); }
        for (k, v) in &cx.faults { let _ = writeln!(o, "f {} {}", k, v); }
        for (k, v) in &cx.probes { let _ = writeln!(o, "p {} {}", k, v); }
        let _ = writeln!(o, "D {} {} {} {}", cx.digest, cx.ops, cx.simtime, cx.checks);
        o.push('S'); for s in &cx.states { let _ = write!(o, " {}", s); } o.push('\n');
        o.push('R'); for (k, t) in &cx.rec { let _ = write!(o, " {}:{}", k, t); } o.push('\n');
        o.push_str(if ok { "END\n" } else { "PANIC\n" });
        unsafe { raw_write(p[1], o.as_bytes()); libc::_exit(0) }
    }
    unsafe { libc::close(p[1]); libc::fcntl(p[0], libc::F_SETFL, libc::O_NONBLOCK); }
    Running { pid, fd: p[0], buf: vec![], start: Instant::now() }
}
fn parse_res(buf: &[u8], status: i32, timeout: bool) -> Res {
    let mut r = Res::default();
    let t = String::from_utf8_lossy(buf);
    let mut pan: Option<Fail> = None; let mut end = false;
    for l in t.lines() {
        let (h, rest) = l.split_at(l.len().min(1));
        let rest = rest.trim_start();
        let two = || { let mut w = rest.splitn(2, ' '); (w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string()) };
        match h {
            "F" => { let (c, m) = two(); r.fail = Some(Fail { class: c, msg: m }); }
            "P" if l == "PANIC" => end = true,
            "P" => { let (c, m) = two(); if pan.is_none() { pan = Some(Fail { class: c, msg: m }); } }
            "f" => { let (c, m) = two(); r.faults.insert(c, m.parse().unwrap_or(0)); }
            "p" => { let (c, m) = two(); r.probes.insert(c, m.parse().unwrap_or(0)); }
            "D" => { let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect(); if v.len() == 4 { r.digest = v[0]; r.ops = v[1]; r.simtime = v[2]; r.checks = v[3]; } }
            "S" => r.states = rest.split(' ').filter_map(|x| x.parse().ok()).collect(),
            "R" => r.rec = rest.split(' ').filter_map(|x| { let mut y = x.split(':'); Some((y.next()?.parse().ok()?, y.next()?.parse().ok()?)) }).collect(),
            "E" => end = true,
            _ => {}
        }
    }
    if r.fail.is_none() {
        if timeout { r.fail = Some(Fail { class: "hang".into(), msg: "run did not finish within the wall-clock limit".into() }); }
        else if let (Some(p), true) = (pan.clone(), !t.contains("END\n")) { r.fail = Some(Fail { class: p.class, msg: format!("panic: {}{}", p.msg, if libc::WIFSIGNALED(status) { " (process aborted)" } else { "" }) }); }
        else if libc::WIFSIGNALED(status) { let s = libc::WTERMSIG(status); r.fail = Some(Fail { class: format!("signal{}", s), msg: format!("process died with signal {}", s) }); }
        else if !end { r.harness = Some(format!("child ended without a result (status {})", status)); }
    }
    r
}
pub const RUN_LIMIT: Duration = Duration::from_secs(150);
/// Polls a running child; Some when finished.
pub fn poll(x: &mut Running) -> Option<Res> {
    let mut b = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(x.fd, b.as_mut_ptr() as *mut _, b.len()) };
        if n > 0 { x.buf.extend_from_slice(&b[..n as usize]); continue; }
        if n == 0 { let mut s = 0; unsafe { libc::waitpid(x.pid, &mut s, 0); libc::close(x.fd); } return Some(parse_res(&x.buf, s, false)); }
        break;
    }
    if x.start.elapsed() > RUN_LIMIT { let mut s = 0; unsafe { libc::kill(x.pid, libc::SIGKILL); libc::waitpid(x.pid, &mut s, 0); libc::close(x.fd); } return Some(parse_res(&x.buf, s, true)); }
    None
}
pub fn wait_any(v: &[Running]) { let mut f: Vec<libc::pollfd> = v.iter().map(|x| libc::pollfd { fd: x.fd, events: libc::POLLIN | libc::POLLHUP, revents: 0 }).collect(); unsafe { libc::poll(f.as_mut_ptr(), f.len() as u64, 1000); } }
pub fn run1(sc: &dyn Scenario, plan: &Plan, verbose: bool, cold: bool) -> Res { let mut x = spawn(sc, plan, verbose, cold); loop { if let Some(r) = poll(&mut x) { return r; } wait_any(std::slice::from_ref(&x)); } }

pub struct Job { pub scenario: &'static str, pub runs: u64, pub cold: bool }
pub struct Batch { pub runs: u64, pub ops: u64, pub checks: u64, pub simtime: u64, pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub states: BTreeSet<u64>, pub digests: BTreeSet<u64>, pub digest_all: u64, pub nontrivial: BTreeSet<u64>, pub samples: Vec<String>, pub fails: Vec<(Plan, Fail)>, pub errors: Vec<String>, pub rerun_checked: u64, pub rerun_diff: u64 }
impl Batch { pub fn new() -> Self { Batch { runs: 0, ops: 0, checks: 0, simtime: 0, faults: Default::default(), probes: Default::default(), states: Default::default(), digests: Default::default(), digest_all: 0, nontrivial: Default::default(), samples: vec![], fails: vec![], errors: vec![], rerun_checked: 0, rerun_diff: 0 } } }
pub fn plan_for(sc: &dyn Scenario, name: &str, prop: &str, base: u64, i: u64, tier: u32) -> Plan {
    let seed = mix2(mix2(base, hash(name.as_bytes())), i) >> 16;
    let mut r = Rng::new(seed);
    Plan { scenario: name.into(), prop: prop.into(), seed, steps: sc.gen(&mut r, prop, tier), sched: None }
}
#[allow(clippy::too_many_arguments)]
pub fn batch(sc: &dyn Scenario, name: &str, prop: &str, base: u64, runs: u64, tier: u32, workers: usize, cold: bool, deadline: Instant, out: &mut Batch, known: &dyn Fn(&str) -> bool) {
    let mut live: Vec<(Running, Plan, u64)> = vec![];
    let mut next = 0; let mut per: BTreeMap<u64, (u64, bool)> = BTreeMap::new();
    let mut stop = false;
    loop {
        while live.len() < workers && next < runs && !stop && Instant::now() < deadline {
            let p = plan_for(sc, name, prop, base, next, tier);
            live.push((spawn(sc, &p, false, cold), p, next)); next += 1;
        }
        if live.is_empty() { break; }
        let mut f: Vec<libc::pollfd> = live.iter().map(|x| libc::pollfd { fd: x.0.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(f.as_mut_ptr(), f.len() as u64, 500); }
        let mut i = 0;
        while i < live.len() {
            if let Some(r) = poll(&mut live[i].0) {
                let (_, p, idx) = live.swap_remove(i);
                out.runs += 1; out.ops += r.ops; out.checks += r.checks; out.simtime += r.simtime;
                for (k, v) in r.faults { *out.faults.entry(k).or_insert(0) += v; }
                for (k, v) in r.probes { *out.probes.entry(k).or_insert(0) += v; }
                out.states.extend(r.states.iter());
                out.digests.insert(r.digest);
                per.insert(idx, (r.digest, r.checks > 0));
                if r.checks > 0 && r.ops > 0 { out.nontrivial.insert(r.digest); }
                if out.samples.len() < 6 { out.samples.push(format!("{} seed={} steps={} first={}", name, p.seed, p.steps.len(), p.steps.iter().take(4).map(|s| format!("{}{:?}", s.op, &s.a[..s.a.len().min(4)])).collect::<Vec<_>>().join(" "))); }
                if let Some(h) = r.harness { out.errors.push(h); }
                if let Some(f) = r.fail { if !known(&f.class) { stop = true; } let mut p = p; if p.sched.is_none() && !r.rec.is_empty() { p.sched = Some(r.rec.clone()); } out.fails.push((p, f)); }
            } else { i += 1; }
        }
    }
    for (k, (d, _)) in per { out.digest_all = mix2(out.digest_all, mix2(k, d)); }
}
/// Shrinks steps, arguments and schedule while the same violation class persists.
pub fn minimise(sc: &dyn Scenario, plan: Plan, class: &str, cold: bool, budget: Duration) -> (Plan, Res, u64) {
    let t0 = Instant::now(); let mut execs = 0u64;
    let last = std::cell::RefCell::new(None);
    let mut fails = |p: &Plan| -> bool { execs += 1; let r = run1(sc, p, false, cold); let ok = r.fail.as_ref().map_or(false, |f| f.class == class); if ok { *last.borrow_mut() = Some(r); } ok };
    let mut best = plan.clone();
    // a recorded schedule must first reproduce as an explicit one; otherwise keep the seeded schedule
    if best.sched.is_some() && !fails(&best) { best.sched = None; }
    if last.borrow().is_none() && !fails(&best) { let r = run1(sc, &plan, false, cold); return (plan, r, execs); }
    let over = |t: Instant| t.elapsed() > budget;
    if best.sched.is_some() { let mut p = best.clone(); p.sched = Some(vec![]); if fails(&p) { best = p; } }
    let mut chunk = (best.steps.len() / 2).max(1);
    while chunk >= 1 && !over(t0) {
        let mut i = 0; let mut any = false;
        while i < best.steps.len() && !over(t0) {
            let mut p = best.clone(); let e = (i + chunk).min(p.steps.len()); p.steps.drain(i..e);
            if fails(&p) { best = p; any = true; } else { i += chunk; }
        }
        if chunk == 1 && !any { break; }
        chunk = if chunk == 1 { 1 } else { chunk / 2 };
    }
    if let Some(s) = best.sched.clone() {
        let mut chunk = (s.len() / 2).max(1);
        while chunk >= 1 && !over(t0) {
            let mut i = 0; let mut any = false;
            while i < best.sched.as_ref().unwrap().len() && !over(t0) {
                let mut p = best.clone(); let v = p.sched.as_mut().unwrap(); let e = (i + chunk).min(v.len()); v.drain(i..e);
                if fails(&p) { best = p; any = true; } else { i += chunk; }
            }
            if chunk == 1 && !any { break; }
            chunk = if chunk == 1 { 1 } else { chunk / 2 };
        }
    }
    for i in 0..best.steps.len() { for j in 0..best.steps[i].a.len() {
        if over(t0) { break; }
        let v = best.steps[i].a[j];
        for c in [0, 1, v / 2] { if c < v { let mut p = best.clone(); p.steps[i].a[j] = c; if fails(&p) { best = p; break; } } }
    } }
    let _ = fails(&best);
    let r = last.into_inner().unwrap();
    (best, r, execs)
}
pub fn read_file(p: &str) -> std::io::Result<String> { let mut s = String::new(); std::fs::File::open(p)?.read_to_string(&mut s)?; Ok(s) }
pub fn write_file(p: &str, s: &str) -> std::io::Result<()> { if let Some(d) = std::path::Path::new(p).parent() { std::fs::create_dir_all(d)?; } std::fs::File::create(p)?.write_all(s.as_bytes()) }
#[allow(unused)] fn _f(fd: i32) -> std::fs::File { unsafe { std::fs::File::from_raw_fd(fd) } }
