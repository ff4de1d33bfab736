//! Stand-in for ark-ed-on-bw6-761: the real curve.
#![allow(clippy::all)]
use ark_ec::{twisted_edwards_extended::{GroupAffine, GroupProjective}, ModelParameters, TEModelParameters};
pub use ark_bls12_377::{Fq, FqParameters};
use ark_ff::{fp_params, Fp, One};
fp_params!(FrParameters, 6, [0x4103486497d95295, 0x34066d10f5d89381, 0xe1d75fe7d6eeb842, 0x63445b3e601ea271, 0x58c760b80d942927, 0x35c748c2f8a21d]);
pub type Fr = Fp<FrParameters, 6>;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct EdwardsParameters;
impl ModelParameters for EdwardsParameters { type BaseField = Fq; type ScalarField = Fr; }
impl TEModelParameters for EdwardsParameters {
    const COFACTOR: &'static [u64] = &[8];
    fn coeff_a() -> Fq { -Fq::one() }
    fn coeff_d() -> Fq { static C: std::sync::OnceLock<Fq> = std::sync::OnceLock::new(); *C.get_or_init(|| Fq::from(79743u64)) }
    fn mul_by_a(e: &Fq) -> Fq { -*e }
    fn generator() -> (Fq, Fq) {
        (Fq::from_limbs([0xaab61e6fdfe4fc77, 0x5da88626965b066b, 0x2e1fbaf0af31431, 0x4c41c6eb2abc7f0b, 0xc30a7d5b70356e1d, 0x12293502447b5d0]),
         Fq::from_limbs([0x41212982c2ec79d1, 0xf83f929f663db5fc, 0xdfd7952682e87102, 0xe1eaa5231e3e4c0e, 0x3c390c77f2c0d168, 0x15ac503330ebb65]))
    }
}
pub type EdwardsAffine = GroupAffine<EdwardsParameters>;
pub type EdwardsProjective = GroupProjective<EdwardsParameters>;
