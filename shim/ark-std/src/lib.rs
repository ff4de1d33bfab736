//! Stand-in for ark-std.
pub use std::*;
pub use rand;
#[macro_export]
macro_rules! start_timer { ($msg:expr) => {{ let _ = &$msg; }}; ($msg:expr, $($t:tt)*) => {{ let _ = &$msg; }}; }
#[macro_export]
macro_rules! end_timer { ($t:expr) => {{ let _ = &$t; }}; ($t:expr, $($r:tt)*) => {{ let _ = &$t; }}; }
/// ceil(log2(x)); 0 for 0 and 1.
pub fn log2(x: usize) -> u32 {
    if x == 0 { 0 } else if x.is_power_of_two() { 1usize.leading_zeros() - x.leading_zeros() } else { 0usize.leading_zeros() - x.leading_zeros() }
}
pub trait UniformRand: Sized { fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self; }
pub fn test_rng() -> impl rand::Rng { use rand::SeedableRng; rand::rngs::StdRng::from_seed([7u8; 32]) }
