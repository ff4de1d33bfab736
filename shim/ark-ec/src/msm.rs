use crate::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, PrimeField, Zero};
pub struct VariableBaseMSM;
thread_local! { static LOG: std::cell::RefCell<Option<Vec<Vec<Vec<u64>>>>> = const { std::cell::RefCell::new(None) }; }
/// Simulation seam: starts recording the scalars of every multiplication made by this thread.
pub fn log_start() { LOG.with(|l| *l.borrow_mut() = Some(vec![])); }
pub fn log_take() -> Vec<Vec<Vec<u64>>> { LOG.with(|l| l.borrow_mut().take()).unwrap_or_default() }
impl VariableBaseMSM {
    /// Sum of scalar * base over the common prefix of both slices.
    pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
        let n = bases.len().min(scalars.len());
        LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() { v.push(scalars[..n].iter().map(|s| s.as_ref().to_vec()).collect()) });
        let bits = scalars[..n].iter().map(|s| s.num_bits()).max().unwrap_or(0) as usize;
        let mut acc = G::Projective::zero();
        for i in (0..bits).rev() {
            acc.double_in_place();
            for (b, s) in bases[..n].iter().zip(scalars) { if s.get_bit(i) { acc.add_assign_mixed(b); } }
        }
        acc
    }
}
