//! The byzantine prover: every explicit witness allocation of the code under test passes through `witness`,
//! which may substitute another value. Off unless armed.
use std::cell::RefCell;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Field, Bool, Byte, G1, G2, Other }
/// Replace witness number `at` (counting from 0 in allocation order) by the variant selected by `how`/`arg`.
#[derive(Clone, Debug)]
pub struct Override { pub at: usize, pub how: u64, pub arg: Vec<u64> }
#[derive(Default)]
pub struct Sim { pub armed: bool, pub log: Vec<Kind>, pub values: Vec<Vec<u64>>, pub over: Vec<Override>, pub applied: usize, pub hashes: Vec<(Vec<u8>, [u8; 8], Vec<u8>)>, pub context: String }
thread_local! { static S: RefCell<Sim> = RefCell::new(Sim::default()); }
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
pub fn arm(over: Vec<Override>) { with(|s| *s = Sim { armed: true, over, ..Sim::default() }) }
pub fn disarm() -> Sim { with(std::mem::take) }
pub fn context() -> String { with(|s| format!("after witness {}", s.log.len())) }
/// Called by the gadget library; returns the substitution, if any.
pub fn witness(k: Kind, value: impl FnOnce() -> Vec<u64>) -> Option<Override> {
    with(|s| {
        if !s.armed { return None; }
        let i = s.log.len();
        s.log.push(k); s.values.push(value());
        let o = s.over.iter().find(|o| o.at == i).cloned();
        if o.is_some() { s.applied += 1; }
        o
    })
}
pub fn hashed(msg: Vec<u8>, personal: [u8; 8], digest: Vec<u8>) { with(|s| if s.armed { s.hashes.push((msg, personal, digest)) }) }
