//! The epoch-transition circuit under an honest prover with arbitrary (true or false) statements, and under a
//! byzantine prover who substitutes witness values of his choice.
use super::chain::{self, build, Verdict, World, ALT};
use crate::core::{hash, st, Cx, Scenario, Step};
use crate::rng::Rng;
use crate::world;
use ark_bw6_761::Fr as Fw;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_relations::sim::{self, Kind, Override, Sim};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub struct Out { pub ok: bool, pub why: String, pub inputs: Vec<Fw>, pub sim: Sim, pub crashed: bool }
type Vk = ark_groth16::VerifyingKey<ark_bls12_377::Bls12_377>;
/// Some verifying key of the right shape for the helper circuit (two inputs per epoch and hash kind).
fn helper_vk(n_inputs: usize) -> Vk {
    let mut r = Rng::new(0x4e1f);
    let mut g = || { use ark_ec::ProjectiveCurve; world::m1(&world::g1(), &world::fr(r.next())).into_affine() };
    let mut vk = Vk::default(); vk.alpha_g1 = g();
    vk.gamma_abc_g1 = (0..n_inputs + 1).map(|_| g()).collect();
    { use ark_ec::ProjectiveCurve; vk.beta_g2 = world::m2(&world::g2(), &world::fr(5)).into_affine(); vk.gamma_g2 = world::m2(&world::g2(), &world::fr(6)).into_affine(); vk.delta_g2 = world::m2(&world::g2(), &world::fr(7)).into_affine(); }
    vk
}
fn vk_for(epochs: usize) -> Vk { static T: OnceLock<Vk> = OnceLock::new(); let mut v = T.get_or_init(|| helper_vk(64)).clone(); let n = (epochs * 384 + 251) / 252 + (epochs * 512 + 251) / 252; v.gamma_abc_g1.truncate(n + 1); v }
pub fn run(w: &World, over: Vec<Override>) -> Out {
    let c = w.circuit(if w.helper { Some(vk_for(w.eps.len())) } else { None });
    let cs = ConstraintSystem::<Fw>::new_ref();
    sim::arm(over);
    let r = catch_unwind(AssertUnwindSafe(|| c.generate_constraints(cs.clone())));
    let s = sim::disarm();
    let crashed = r.is_err();
    let (ok, why) = match r { Ok(Ok(())) => { let b = cs.borrow().unwrap().bad.clone(); (cs.is_satisfied().unwrap_or(false), b.unwrap_or_default()) } Ok(Err(e)) => (false, format!("{:?}", e)), Err(_) => (false, "prover panicked".into()) };
    let inputs = cs.borrow().map(|c| c.instance_assignment.clone()).unwrap_or_default();
    Out { ok, why, inputs: inputs.into_iter().skip(1).collect(), sim: s, crashed }
}
/// Turns a strategy step of the plan into concrete substitutions, given the log of an unmodified run (and of the
/// run of the fault-free twin of the same world, for splicing).
fn strategy(w: &World, a: &[u64], base: &Sim, twin: &Sim, said: &Sim) -> Vec<Override> {
    let twin = if a.get(4).copied().unwrap_or(0) >= 3 { said } else { twin };
    let n = base.log.len(); if n == 0 { return vec![]; }
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let explicit = |i: usize, s: &Sim| -> Override { let v = s.values[i].clone(); match s.log[i] { Kind::Field => Override { at: i, how: 11, arg: v }, Kind::G1 | Kind::G2 => Override { at: i, how: 9, arg: v }, _ => Override { at: i, how: 1, arg: v } } };
    let of = |k: Kind| -> Vec<usize> { (0..n).filter(|i| base.log[*i] == k).collect() };
    match g(0) {
        // any witness, any variant
        0 => vec![Override { at: (g(1) % n as u64) as usize, how: g(2) % 15, arg: vec![g(3)] }],
        // a witness of a given kind
        1 => { let k = [Kind::Field, Kind::Bool, Kind::Byte, Kind::G1, Kind::G2][(g(4) % 5) as usize]; let v = of(k); if v.is_empty() { vec![] } else { vec![Override { at: v[(g(1) % v.len() as u64) as usize], how: g(2) % 15, arg: vec![g(3)] }] } }
        // small integers (indices, thresholds, rounds, counters): shift by a power of two, or by one
        2 | 3 => { let v: Vec<usize> = of(Kind::Field).into_iter().filter(|i| base.values[*i][2..].iter().all(|x| *x == 0)).collect(); if v.is_empty() { return vec![]; } let at = v[(g(1) % v.len() as u64) as usize];
            if g(0) == 2 { vec![Override { at, how: 2 + g(2) % 2, arg: vec![g(3) % 200] }] } else { let mut x = base.values[at].clone(); x[0] = x[0].wrapping_add(g(3)).wrapping_sub(g(2)); vec![Override { at, how: 11, arg: x }] } }
        // splice: take a stretch of witnesses from the twin
        4 => { if twin.log != base.log { return vec![]; } let i = (g(1) % n as u64) as usize; let l = (g(2) % n as u64) as usize + 1; (i..(i + l).min(n)).filter(|j| base.values[*j] != twin.values[*j]).map(|j| explicit(j, twin)).collect() }
        // splice everything of one kind, or one differing witness, or all but one
        5 => { if twin.log != base.log { return vec![]; } let k = [Kind::Field, Kind::Bool, Kind::Byte, Kind::G1, Kind::G2][(g(1) % 5) as usize]; (0..n).filter(|j| base.log[*j] == k && base.values[*j] != twin.values[*j]).map(|j| explicit(j, twin)).collect() }
        6 | 7 => { if twin.log != base.log { return vec![]; } let d: Vec<usize> = (0..n).filter(|j| base.values[*j] != twin.values[*j]).collect(); if d.is_empty() { return vec![]; } let p = (g(1) % d.len() as u64) as usize; d.iter().enumerate().filter(|(q, _)| (*q == p) == (g(0) == 6)).map(|(_, j)| explicit(*j, twin)).collect() }
        // all bits and bytes of the twin
        11 => { if twin.log != base.log { return vec![]; } (0..n).filter(|j| matches!(base.log[*j], Kind::Bool | Kind::Byte) && base.values[*j] != twin.values[*j]).map(|j| explicit(j, twin)).collect() }
        // a small integer is replaced, and every later copy of it is kept at its true value: the circuit must tie the copies
        12 => { let v: Vec<usize> = of(Kind::Field).into_iter().filter(|i| base.values[*i][1..].iter().all(|x| *x == 0)).collect(); if v.is_empty() { return vec![]; } let at = v[(g(1) % v.len() as u64) as usize];
            let mut o = vec![match g(2) % 4 { 0 => Override { at, how: 4, arg: vec![] }, 1 => Override { at, how: 1, arg: vec![] }, 2 => Override { at, how: 0, arg: vec![] }, _ => Override { at, how: 11, arg: { let mut x = base.values[at].clone(); x[0] = g(3); x } } }];
            o.extend(v.iter().filter(|j| **j > at && base.values[**j] == base.values[at]).map(|j| explicit(*j, base))); o }
        // any witness is replaced, and some of what follows from it is kept at its true value
        13 => { let k = [Kind::Field, Kind::Bool, Kind::Byte, Kind::G1, Kind::G2][(g(4) % 5) as usize]; let v = of(k); if v.is_empty() { return vec![]; } let at = v[(g(1) % v.len() as u64) as usize];
            let mut o = vec![Override { at, how: g(2) % 15, arg: vec![g(3)] }]; let r = run(w, o.clone()).sim; if r.log != base.log { return o; }
            let d: Vec<usize> = (at + 1..n).filter(|j| r.values[*j] != base.values[*j]).collect();
            let keep: Vec<usize> = match (g(2) / 15) % 4 { 0 => d.iter().take(1).copied().collect(), 1 => d.iter().copied().filter(|j| base.log[*j] == k).collect(), 2 => d.iter().skip((g(2) / 60 % 8) as usize).take(1 + (g(2) / 480 % 4) as usize).copied().collect(), _ => d };
            o.extend(keep.into_iter().map(|j| explicit(j, base))); o }
        // exchange two witnesses of one kind
        8 => { let k = [Kind::Field, Kind::Bool, Kind::Byte, Kind::G1, Kind::G2][(g(1) % 5) as usize]; let v = of(k); if v.is_empty() { return vec![]; } let (x, y) = (v[(g(2) % v.len() as u64) as usize], v[(g(3) % v.len() as u64) as usize]); let (mut p, mut q) = (explicit(y, base), explicit(x, base)); p.at = x; q.at = y; vec![p, q] }
        // all-true / all-false flips over the booleans that are currently of one value
        9 => of(Kind::Bool).into_iter().filter(|i| base.values[*i][0] == g(1) % 2).map(|at| Override { at, how: 1, arg: vec![1 - g(1) % 2] }).collect(),
        // a group element in disguise: explicit coordinates of the twin's element, other signs, other representation
        _ => { let v: Vec<usize> = (0..n).filter(|i| matches!(base.log[*i], Kind::G1 | Kind::G2)).collect(); if v.is_empty() { return vec![]; } let at = v[(g(1) % v.len() as u64) as usize]; if g(2) % 3 == 0 && twin.log == base.log && twin.values[at] != base.values[at] { vec![Override { at, how: 10, arg: twin.values[at].clone() }] } else { vec![Override { at, how: [5, 6, 0, 12, 13][(g(2) % 5) as usize], arg: vec![g(3)] }] } }
    }
}
fn merge(v: Vec<Override>) -> Vec<Override> { let mut o: Vec<Override> = vec![]; for x in v { if !o.iter().any(|y| y.at == x.at) { o.push(x); } } o }
/// The public inputs and the two messages whose digests they carry.
fn preimages(o: &Out) -> Option<(Vec<u8>, Vec<u8>)> {
    let h: Vec<_> = o.sim.hashes.iter().filter(|h| &h.1[..] == bls_crypto::OUT_DOMAIN).collect();
    for i in 0..h.len() { for j in 0..h.len() { if i != j {
        let bits: Vec<bool> = h[i].2.iter().chain(&h[j].2).flat_map(|b| (0..8).map(move |k| b >> k & 1 == 1)).collect();
        if chain::pack(&bits) == o.inputs { return Some((h[i].0.clone(), h[j].0.clone())); }
    } } }
    None
}
/// None when what the satisfied circuit committed to is a genuinely signed chain.
fn unsound(w: &World, o: &Out, extra: &[(chain::Blk, std::collections::BTreeSet<usize>)]) -> Option<String> {
    let mut signed = w.signed(); signed.extend(extra.iter().cloned());
    let (f, l) = match preimages(o) { Some(x) => x, None => return Some("the public inputs are not digests of a first and a last block".into()) };
    let first = match chain::read_first(&f, w.n) { Some(f) => f, None => return Some("the first public digest is not that of a first block".into()) };
    if chain::reachable(&first, &l, &signed) { None } else { Some(format!("no chain of signed blocks leads from the committed first block (index {}, {} absences allowed) to the committed last block", first.index, first.mns)) }
}
fn difference(k: Kind, old: &[u64], o: &Override) -> Option<u32> {
    if k != Kind::Field { return None; }
    // the power of two dividing the change, for substitutions of the form v + 2^a * m
    match o.how { 2 | 3 => Some(o.arg.first().copied().unwrap_or(0) as u32), 11 => { let mut t = 0; for (i, x) in old.iter().enumerate() { let y = o.arg.get(i).copied().unwrap_or(0); if *x != y { t = 64 * i as u32 + (x ^ y).trailing_zeros(); return Some(t); } } Some(t) } _ => None }
}
/// Names the weakness by the substitutions the forgery needs.
fn classify(w: &World, over: &[Override], base: &Sim) -> String {
    if over.is_empty() { return "false_statement_accepted".into(); }
    // with a helper the XOF output bits are free witnesses; nothing else is
    if w.helper && over.iter().any(|o| base.log.get(o.at) == Some(&Kind::Bool)) { return "helper_unenforced".into(); }
    let disguise = |o: &Override| matches!(base.log.get(o.at), Some(Kind::G1) | Some(Kind::G2)) && matches!(o.how, 5 | 6 | 10);
    let trunc = |o: &Override| base.log.get(o.at).map_or(false, |k| difference(*k, &base.values[o.at], o).map_or(false, |d| {
        // the index (16 bits) and the threshold (32 bits) of a block
        let v = base.values[o.at][0]; let mut blks = w.eps.iter().map(|e| &e.blk).chain([&w.init]);
        blks.any(|b| (d >= 16 && b.index as u64 == v) || (d >= 32 && b.mns as u64 == v))
    }));
    // the set is minimal, so each member is indispensable to the forgery
    if over.iter().any(disguise) { "point_representation".into() } else if over.iter().any(trunc) { "truncated_witness".into() } else { "byzantine_witness".into() }
}
fn describe(o: &[Override], b: &Sim) -> String { o.iter().take(6).map(|x| format!("#{} {:?} how {} {:x?}", x.at, b.log.get(x.at), x.how, &x.arg[..x.arg.len().min(3)])).collect::<Vec<_>>().join("; ") }
pub struct Circuit;
fn mask(r: &mut Rng, n: usize, k: u64) -> u64 { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); v.iter().take(k as usize).fold(0, |a, i| a | 1 << i) }
/// A true chain of transitions, in random shape.
pub fn base_chain(r: &mut Rng, n: usize, e: usize, dummies: bool) -> Vec<Step> {
    let first = match r.below(8) { 0 => 0, 1 => 65535 - e as u64, 2 => 255, 3 => r.below(65000), _ => r.below(400) };
    let ent = r.below(3);
    let mut id = 10;
    let mut en = |r: &mut Rng| { id += 1; if ent == 0 || r.chance(1, 10) { r.below(2) } else { id } };
    let pads0 = if n > 1 && r.chance(1, 5) { let k = 1 + r.below(n as u64 - 1); mask(r, n, k) } else { 0 };
    let mns = |r: &mut Rng, pads: u64| { let p = pads.count_ones() as u64; let hi = n as u64 - 1; if r.chance(1, 20) { r.next() as u32 as u64 | 1 << 31 } else { r.range(p.min(hi), hi) } };
    let m0 = mns(r, pads0); let e0 = en(r);
    let mut v = vec![st("init", &[first, r.next() >> 20, m0, e0, r.below(3), r.below(256), pads0])];
    let (mut pads, mut m) = (pads0, m0);
    for i in 0..e {
        if dummies { for _ in 0..r.below(3) { if r.chance(1, 2) { v.push(st("dummy", &[(pads == 0 && r.chance(1, 2)) as u64, r.below(3), r.below(5), r.below(4)])); } } }
        let np = if n > 1 && r.chance(1, 6) { let k = 1 + r.below(n as u64 - 1); mask(r, n, k) } else { 0 };
        let nm = mns(r, np);
        // absent validators: up to the threshold, often exactly at it
        let room = m.saturating_sub(pads.count_ones() as u64).min(n as u64 - 1 - pads.count_ones() as u64);
        let k = if r.chance(1, 2) { room } else { r.below(room + 1) };
        let mut live: Vec<usize> = (0..n).filter(|b| pads >> b & 1 == 0).collect(); r.shuffle(&mut live);
        let absent = live.iter().take(k as usize).fold(0u64, |a, b| a | 1 << b);
        let ne = en(r);
        v.push(st("ep", &[r.next() >> 20, np, nm, ne, r.below(256), absent, 0, 0, 0, 0, 0, 0, 0])); let _ = i;
        pads = np; m = nm;
    }
    v
}
/// Makes the statement false (usually) in one way.
fn spoil(r: &mut Rng, v: &mut Vec<Step>, n: usize) {
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].op == "ep").collect(); if at.is_empty() { return; } let i = *r.pick(&at);
    let prev = if i == at[0] { v[0].clone() } else { v[*at.iter().rev().find(|j| **j < i).unwrap()].clone() };
    let (pm, pp) = if prev.op == "init" { (prev.arg(2), prev.arg(6)) } else { (prev.arg(2), prev.arg(1)) };
    let live: Vec<usize> = (0..n).filter(|b| pp >> b & 1 == 0).collect();
    let ep = v.len();
    match r.below(14) {
        // absentees beyond the threshold, with a signature that is genuine otherwise
        0 | 1 => { let need = (pm + 1).saturating_sub(pp.count_ones() as u64); if need as usize <= live.len() { let mut l = live.clone(); r.shuffle(&mut l); v[i].a[12] = l.iter().take(need as usize).fold(0, |a, b| a | 1 << b); } else { v[i].a[8] = 1 << r.below(n as u64); } }
        2 | 3 => v[i].a[8] = match r.below(3) { 0 => 1 << r.below(n as u64), 1 => (1 << n) - 1, _ => r.below(1 << n) },
        4 | 5 => v[i].a[6] = *r.pick(&[1, 2, 65535, 65534, 256, 0x8000, 65536 - 256]),
        6 => v[i].a[7] = 1 + r.below(6),
        7 | 8 | 9 => v[i].a[9] = 1 + r.below(ALT.len() as u64 - 1),
        10 => v[i].a[10] = 1 + r.below(2),
        11 => { v[i].a[11] = 1; if pp == 0 { v[i].a[8] = 1; } }
        12 => { if at.len() > 1 && r.chance(1, 2) { let (a, b) = (r.below(ep as u64 - 1), r.below(ep as u64 - 1)); v.push(st("swap", &[a, b])); } else { v.push(st("drop", &[r.below(ep as u64 - 1)])); } }
        _ => match r.below(3) { 0 => v.push(st("dummy", &[(pp == 0) as u64, 0, 0, 0])), 1 => { v.insert(i, st("dummy", &[0, 0, 0, 0, 1])); } _ => { v.remove(i); } },
    }
}
fn attack(r: &mut Rng) -> Step {
    let m = r.weighted(&[10, 20, 10, 16, 16, 6, 8, 8, 6, 3, 4, 10, 8, 10]) as u64;
    st("over", &match m {
        2 => [2, r.next() >> 30, r.below(2), *r.pick(&[0, 1, 8, 16, 32, 64, 128, 31, 15, 7, 376, 33]), 0],
        3 => { let (a, b) = if r.chance(1, 2) { (0, 1 + r.below(4)) } else { (1 + r.below(4), 0) }; [3, r.next() >> 30, a, b, 0] }
        _ => [m, r.next() >> 30, r.next() >> 30, *r.pick(&[0, 1, 2, 3, 7, 16, 32, 255]), r.below(5)],
    })
}
impl Scenario for Circuit {
    fn gen(&self, r: &mut Rng, prop: &str, tier: u32) -> Vec<Step> {
        let n = r.range(1, if tier > 0 { 6 } else { 4 }) as usize;
        let more = r.chance(1, 4) as u64;
        let e = r.range(1, if tier > 0 { 4 } else { 2 } + more) as usize;
        let dummies = r.chance(1, 3);
        let mut v = base_chain(r, n, e, dummies);
        let helper = prop == "P02" && r.chance(1, 8);
        let byz = prop == "P02";
        if r.chance(if byz { 4 } else { 3 }, 5) { spoil(r, &mut v, n); if r.chance(1, 8) { spoil(r, &mut v, n); } }
        if helper && r.chance(1, 2) { if let Some(i) = v.iter().position(|s| s.op == "ep") { v[i].a[9] = 1 + r.below(6); } v.push(st("over", &[5, 1, 0, 0, 4, 0])); }
        v.insert(0, st("shape", &[n as u64, helper as u64]));
        if byz && r.chance(1, 3) { let amount = *r.pick(&[32u64, 32, 33, 16, 64, 8, 128]); for ord in 0..10 { v.push(st("over", &[2, ord, 0, amount, 0, 0])); } }
        if byz && r.chance(1, 4) { let how = if r.chance(3, 4) { 0 } else { r.below(3) }; for ord in 0..12 { v.push(st("over", &[12, ord, how, 0, 0, 0])); } }
        if byz { for _ in 0..r.range(3, if tier > 0 { 24 } else { 10 }) { let k = if r.chance(1, 6) { 2 } else { 1 }; for j in 0..k { let mut s = attack(r); s.a.push(j); v.push(s); } } }
        v
    }
    fn exec(&self, steps: &[Step], cx: &mut Cx) {
        let w = build(steps, false);
        if w.eps.is_empty() { return; }
        let verdict = w.verdict();
        let base = run(&w, vec![]);
        cx.ops += 1;
        cx.simtime += w.eps.len() as u64 * 86400;
        let (ok, name) = match &verdict { Verdict::True => (Some(true), String::new()), Verdict::False(m) => (Some(false), m.clone()), Verdict::Unjudged(m) => (None, m.to_string()) };
        cx.log(|| format!("plan {:?}", steps));
        cx.log(|| format!("n {} epochs {} verdict {:?} {} satisfied {} {}", w.n, w.eps.len(), ok, name, base.ok, base.why));
        cx.state(hash(format!("{} {} {:?} {}", w.n, w.eps.iter().map(|e| if e.dummy { 'd' } else { 'e' }).collect::<String>(), ok, name).as_bytes()));
        for s in steps { if s.op == "dummy" { cx.fault("dummy_epoch"); } if s.op == "ep" { for (i, k) in [(6, "index_gap"), (7, "other_parent_entropy"), (8, "bitmap_lies"), (9, "altered_message"), (10, "other_signer_set"), (11, "padding_key_signs"), (12, "quorum_missed")] { if s.arg(i) > 0 { cx.fault(k); } } } if s.op == "swap" || s.op == "drop" { cx.fault("epochs_shuffled"); } }
        match ok {
            Some(true) => { cx.probe("true_statement"); cx.check("P01", "true_statement_refused", base.ok, || format!("a true statement is not accepted: {}", base.why));
                if base.ok { let want = w.init.inputs(w.last()); cx.check("P01", "public_inputs", base.inputs == want, || "the circuit's public inputs differ from those the verifier computes".into()); } }
            Some(false) => { cx.probe("false_statement"); cx.check("P01", "false_statement_accepted", !base.ok, || format!("a false statement is accepted: {}", name)); if base.crashed { cx.probe("prover_panics_on_false_statement"); } }
            None => { cx.probe("unjudged"); }
        }
        if cx.prop != "P02" || w.over.is_empty() { return; }
        if base.ok { let u = unsound(&w, &base, &[]); cx.check("P02", "false_statement_accepted", u.is_none(), || u.unwrap_or_default()); }
        let honest = build(steps, true);
        let twin = run(&honest, vec![]);
        let said = run(&w.said(), vec![]);
        let extra = honest.signed();
        let mut i = 0;
        while i < w.over.len() && !cx.stop() {
            let mut o = strategy(&w, &w.over[i], &base.sim, &twin.sim, &said.sim);
            // signatures of the twin are available to a prover only where he uses its witnesses
            let twins = |a: &[u64]| matches!(a.first(), Some(4..=7 | 10 | 11)) && a.get(4).copied().unwrap_or(0) < 3;
            let mut tw = twins(&w.over[i]);
            i += 1;
            while i < w.over.len() && w.over[i].get(5) == Some(&1) { tw |= twins(&w.over[i]); o.extend(strategy(&w, &w.over[i], &base.sim, &twin.sim, &said.sim)); i += 1; }
            let o = merge(o);
            let extra = if tw { &extra[..] } else { &[] };
            if o.is_empty() { continue; }
            let r = run(&w, o.clone());
            cx.ops += 1;
            for x in &o { if let Some(k) = base.sim.log.get(x.at) { cx.fault(match k { Kind::Field => "field_witness_substituted", Kind::Bool => "bit_witness_substituted", Kind::Byte => "byte_witness_substituted", Kind::G1 => "g1_witness_substituted", Kind::G2 => "g2_witness_substituted", _ => "other_witness_substituted" }); } }
            if r.crashed { cx.probe("prover_panics"); }
            cx.log(|| format!("attack {} -> satisfied {} {}", describe(&o, &base.sim), r.ok, r.why));
            if !r.ok { cx.check("P02", "-", true, || String::new()); continue; }
            cx.probe("substitution_accepted");
            let u = unsound(&w, &r, extra);
            if u.is_none() { cx.check("P02", "-", true, || String::new()); continue; }
            // which substitutions does the forgery need?
            let mut need = o.clone(); let mut j = 0;
            while j < need.len() && need.len() < 200 { let mut t = need.clone(); t.remove(j); let q = run(&w, t.clone()); if q.ok && unsound(&w, &q, extra).is_some() { need = t; } else { j += 1; } }
            let class = classify(&w, &need, &base.sim);
            cx.check("P02", &class, false, || format!("byzantine prover [{}]: {}", describe(&need, &base.sim), u.unwrap_or_default()));
        }
    }
}
#[allow(dead_code)] fn _u(f: Fw) { let _ = f.into_repr(); }
