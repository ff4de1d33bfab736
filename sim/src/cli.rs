//! Command line: check / replay / determinism.
use crate::core::*;
use crate::sc;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }
fn jarr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
fn workers() -> usize { std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16)) }
/// Known findings: lines "property=<id> class=<failure class> <what fails>" ("fixed:" lines are history only).
fn known_findings(root: &str, prop: &str) -> Vec<(String, String)> {
    let t = read_file(&format!("{}/known-findings.txt", root)).unwrap_or_default();
    t.lines().filter(|l| l.starts_with("property=")).filter_map(|l| { let mut w = l.splitn(3, ' '); let p = w.next()?.strip_prefix("property=")?; let c = w.next()?.strip_prefix("class=")?; if p == prop { Some((c.into(), w.next().unwrap_or("").into())) } else { None } }).collect()
}
extern "C" { fn mallopt(p: i32, v: i32) -> i32; }
pub fn main() {
    // keep large buffers in the heap: returning them to the kernel after every run costs more than the run
    unsafe { mallopt(-3, 1 << 30); mallopt(-1, 1 << 30); }
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&root, &arg(&a, "--property").expect("--property"), &arg(&a, "--tier").unwrap_or_else(|| "quick".into()), arg(&a, "--runs-scale").and_then(|s| s.parse().ok()).unwrap_or(1.0)),
        Some("replay") => replay(&a[2], a.iter().any(|x| x == "-v")),
        Some("replay-as") => { let t = read_file(&a[3]).expect("file"); let p = Plan::parse(&t).expect("parse"); prep(sc::cold(&p.scenario, &t)); let s = sc::get(&p.scenario).unwrap(); let r = run1(s.as_ref(), &p, false, t.contains("\ncold")); println!("{} {:?} {}", a[2], r.fail.map(|f| f.class), r.digest); 0 }
        Some("determinism") => determinism(arg(&a, "--seeds").and_then(|s| s.parse().ok()).unwrap_or(25)),
        Some("one") => { let sc0 = &a[2]; let prop = &a[3]; let i: u64 = a[4].parse().unwrap(); let s = sc::get(sc0).unwrap(); prep(a.get(5).map_or(false, |x| x == "cold")); let tier = 0; let p = plan_for(s.as_ref(), sc0, prop, base_seed(), i, tier); println!("{}", p.text()); let t = Instant::now(); let r = run1(s.as_ref(), &p, true, false); println!("{:?} {:?}", r, t.elapsed()); 0 }
        _ => { eprintln!("usage: sim check --property P --tier quick|thorough | replay FILE | determinism"); 2 }
    };
    std::process::exit(code);
}
pub fn base_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn prep(cold: bool) { crate::world::pool(); crate::refimpl::crh_params(); sc::prewarm(); if !cold { sc::warm(); } }
fn check(root: &str, prop: &str, tier: &str, scale: f64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough"; let tn = thorough as u32;
    let jobs = sc::jobs(prop, thorough);
    if jobs.is_empty() { eprintln!("no check for property {}", prop); return 2; }
    let wall = Duration::from_secs(if thorough { 14 * 60 } else { 420 });
    let deadline = t0 + wall;
    let kf = known_findings(root, prop);
    let known = |c: &str| kf.iter().any(|k| k.0 == c);
    let mut out = Batch::new();
    let w = workers();
    prep(true);
    let mut warm = false;
    let mut per: Vec<String> = vec![];
    let mut rerun = (0u64, 0u64);
    // cold jobs first: the library's lazily built statics must still be untouched in this process
    let mut order: Vec<&Job> = jobs.iter().filter(|j| j.cold).collect(); order.extend(jobs.iter().filter(|j| !j.cold));
    for j in order {
        if !j.cold && !warm { prep(false); warm = true; }
        let s = sc::get(j.scenario).unwrap();
        let (r0, t1) = (out.runs, Instant::now());
        let n = ((j.runs as f64 * scale).ceil() as u64).max(1);
        batch(s.as_ref(), j.scenario, prop, base_seed(), n, tn, w, j.cold, deadline, &mut out, &known);
        per.push(format!("{}{}: {} of {} runs in {:.1}s", j.scenario, if j.cold { " (cold start)" } else { "" }, out.runs - r0, n, t1.elapsed().as_secs_f64()));
        if out.fails.iter().any(|f| !known(&f.1.class)) { break; }
        // same seeds again, different worker count: identical executions required
        let mut again = Batch::new(); let mut once = Batch::new(); let k = n.min(4);
        batch(s.as_ref(), j.scenario, prop, base_seed(), k, tn, 1, j.cold, deadline, &mut again, &known);
        batch(s.as_ref(), j.scenario, prop, base_seed(), k, tn, w, j.cold, deadline, &mut once, &known);
        rerun.0 += again.runs; if again.digest_all != once.digest_all { rerun.1 += 1; }
    }
    let mut code = 0; let mut viol = 0;
    if !out.errors.is_empty() { eprintln!("harness error: {}", out.errors[0]); code = 2; }
    let mut seen: BTreeSet<String> = BTreeSet::new();
    out.fails.sort_by_key(|f| (f.0.steps.len(), f.0.seed));
    let fails = std::mem::take(&mut out.fails);
    for (_, f) in &fails {
        if let Some(k) = kf.iter().find(|k| k.0 == f.class) { if seen.insert(f.class.clone()) { println!("KNOWN-FINDING: property={} {}", prop, k.1); } continue; }
    }
    if let Some((p, f)) = fails.iter().find(|(_, f)| !known(&f.class)) {
        viol = 1;
        let s = sc::get(&p.scenario).unwrap();
        let cold = jobs.iter().any(|j| j.scenario == p.scenario && j.cold) && !warm;
        // an unwarmed process is needed to shrink a cold-start failure
        let (mut q, r, execs) = minimise(s.as_ref(), p.clone(), &f.class, cold, Duration::from_secs(if thorough { 120 } else { 60 }));
        if q.sched.is_none() && p.sched.is_some() && r.fail.is_none() { q = p.clone(); }
        let path = format!("{}/replays/{}-{}.replay", root, prop, p.seed);
        let ff = r.fail.clone().unwrap_or_else(|| f.clone());
        let mut text = q.text(); if cold { text.push_str("cold\n"); }
        text.push_str(&format!("# class {}\n# {}\n# digest {}\n# minimised from {} to {} steps in {} executions\n", ff.class, ff.msg, r.digest, p.steps.len(), q.steps.len(), execs));
        let _ = write_file(&path, &text);
        eprintln!("class: {}\nwhat: {}", ff.class, ff.msg);
        for st in q.steps.iter().take(40) { eprintln!("  step {} {:?}", st.op, st.a); }
        // confirm from a fresh process
        if let Ok(o) = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output() { eprintln!("replay in a fresh process: exit {:?}", o.status.code()); }
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let unfired: Vec<String> = sc::expected_faults(prop).iter().filter(|k| !out.faults.contains_key(**k)).map(|s| s.to_string()).collect();
    let ev = format!("{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {}, \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"simulated_runs\": {}, \"runs_per_hour\": {}, \"operations\": {}, \"simulated_ticks\": {},\n    \"faults_injected\": {},\n    \"fault_kinds_not_fired\": {},\n    \"probes\": {},\n    \"distinct_executions\": {}, \"distinct_states\": {},\n    \"distinct_measure\": {},\n    \"jobs\": {},\n    \"determinism\": {{\"seeds_rerun_with_other_worker_count\": {}, \"batches_that_differed\": {}}},\n    \"real_components\": {},\n    \"stubbed_components\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.1}, \"violations\": {}\n}}\n",
        js(prop), js(tier), base_seed(), js(sc::level(prop)), out.checks, out.nontrivial.len(),
        js("one evaluation = one oracle comparison for this property inside a simulated run; a run is non-trivial when it executed at least one operation and one oracle comparison, and runs are distinct when the digests of their full event logs (operations, faults, results, schedule) differ"),
        jarr(&out.samples), out.runs, (out.runs as f64 * 3600.0 / wall_s.max(0.1)) as u64, out.ops, out.simtime, jmap(&out.faults), jarr(&unfired), jmap(&out.probes), out.digests.len(), out.states.len(),
        js("executions: digest of the run's event log including every scheduling decision; states: hash of the model state (set of aggregated keys, cache content class, node phases) reached during runs"),
        jarr(&per), rerun.0, rerun.1, jarr(&sc::real(prop)), jarr(&sc::stubs(prop)), jarr(&sc::assumptions(prop)), wall_s, viol);
    let _ = write_file(&format!("{}/evidence/{}.json", root, prop), &ev);
    eprintln!("{} {}: {} runs, {} evaluations, {} distinct, {:.1}s; faults {:?}; probes {:?}", prop, tier, out.runs, out.checks, out.nontrivial.len(), wall_s, out.faults, out.probes);
    for p in &per { eprintln!("  {}", p); }
    if rerun.1 > 0 { eprintln!("warning: {} rerun batches differed (nondeterminism)", rerun.1); }
    code
}
fn replay(file: &str, verbose: bool) -> i32 {
    let t = match read_file(file) { Ok(t) => t, Err(e) => { eprintln!("{}", e); return 2; } };
    let p = match Plan::parse(&t) { Some(p) => p, None => { eprintln!("bad replay file"); return 2; } };
    let cold = t.lines().any(|l| l == "cold");
    let s = match sc::get(&p.scenario) { Some(s) => s, None => return 2 };
    prep(cold);
    let r = run1(s.as_ref(), &p, verbose, cold);
    match r.fail { Some(f) => { println!("class: {}\nwhat: {}\ndigest {}", f.class, f.msg, r.digest); println!("VIOLATION property={} replay={}", p.prop, file); 1 } None => { println!("no violation (digest {})", r.digest); 0 } }
}
fn determinism(n: u64) -> i32 {
    prep(false); let mut bad = 0;
    for (sc0, prop) in sc::all() {
        let s = sc::get(sc0).unwrap(); let mut d = vec![];
        for w in [1, 3, workers()] { let mut b = Batch::new(); batch(s.as_ref(), sc0, prop, base_seed(), n, 0, w, false, Instant::now() + Duration::from_secs(600), &mut b, &|_| true); d.push(b.digest_all); }
        let ok = d.iter().all(|x| *x == d[0]); if !ok { bad += 1; }
        println!("{} {}: {} seeds x 3 worker counts: {}", sc0, prop, n, if ok { "identical" } else { "DIFFERENT" });
    }
    if bad > 0 { 1 } else { 0 }
}
