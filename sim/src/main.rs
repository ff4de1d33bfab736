//! Deterministic simulation of the Celo BLS library: one process, one seed, one execution.
mod alloc;
mod core;
mod guard;
mod refimpl;
mod rng;
mod sc;
mod sched;
mod sys;
mod world;
mod cli;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() { cli::main() }
