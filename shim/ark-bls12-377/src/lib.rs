//! Stand-in for ark-bls12-377: the real BLS12-377 curve on the stand-in field/curve crates.
#![allow(clippy::all)]
use ark_ec::{bls12::{self, Bls12, Bls12Parameters}, ModelParameters, SWModelParameters};
use ark_ff::{fp_params, BigInt, CubicExtField, CubicExtParameters, Field, Fp, One, QuadExtField, QuadExtParameters, Zero};
use std::sync::OnceLock;

fp_params!(FqParameters, 6, [0x8508c00000000001, 0x170b5d4430000000, 0x1ef3622fba094800, 0x1a22d9f300f5138f, 0xc63b05c06ca1493b, 0x1ae3a4617c510ea]);
fp_params!(FrParameters, 4, [0xa11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556]);
pub type Fq = Fp<FqParameters, 6>;
pub type Fr = Fp<FrParameters, 4>;
pub fn fq(l: [u64; 6]) -> Fq { Fq::from_limbs(l) }
const _: fn() -> BigInt<6> = || BigInt([0; 6]);

#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq2Parameters;
impl QuadExtParameters for Fq2Parameters {
    type BasePrimeField = Fq; type BaseField = Fq;
    fn nonresidue() -> Fq { -Fq::from(5u64) }
    fn mul_nr(e: &Fq) -> Fq { let d = e.double().double(); -(d + e) }
    fn frob() -> &'static OnceLock<Fq> { static C: OnceLock<Fq> = OnceLock::new(); &C }
}
pub type Fq2 = QuadExtField<Fq2Parameters>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq6Parameters;
impl CubicExtParameters for Fq6Parameters {
    type BasePrimeField = Fq; type BaseField = Fq2;
    fn nonresidue() -> Fq2 { Fq2::new(Fq::zero(), Fq::one()) }
    fn mul_nr(e: &Fq2) -> Fq2 { Fq2::new(Fq2Parameters::mul_nr(&e.c1), e.c0) }
    fn frob() -> &'static OnceLock<(Fq2, Fq2)> { static C: OnceLock<(Fq2, Fq2)> = OnceLock::new(); &C }
}
pub type Fq6 = CubicExtField<Fq6Parameters>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq12Parameters;
impl QuadExtParameters for Fq12Parameters {
    type BasePrimeField = Fq; type BaseField = Fq6;
    fn nonresidue() -> Fq6 { Fq6::new(Fq2::zero(), Fq2::one(), Fq2::zero()) }
    fn mul_nr(e: &Fq6) -> Fq6 { Fq6::new(Fq6Parameters::mul_nr(&e.c2), e.c0, e.c1) }
    fn frob() -> &'static OnceLock<Fq6> { static C: OnceLock<Fq6> = OnceLock::new(); &C }
}
pub type Fq12 = QuadExtField<Fq12Parameters>;

pub mod g1 {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
        fn coeff_b() -> Fq { Fq::one() }
        fn generator() -> (Fq, Fq) {
            (fq([0xeab9b16eb21be9ef, 0xd5481512ffcd394e, 0x188282c8bd37cb5c, 0x85951e2caa9d41bb, 0xc8fc6225bf87ff54, 0x8848defe740a67]),
             fq([0xfd82de55559c8ea6, 0xc2fe3d3634a9591a, 0x6d182ad44fb82305, 0xbd7fb348ca3e52d9, 0x1f674f5d30afeec4, 0x1914a69c5102eff]))
        }
    }
}
pub mod g2 {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq2; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COFACTOR: &'static [u64] = &[0x1, 0x452217cc90000000, 0xa0f3622fba094800, 0xd693e8c36676bd09, 0x8c505634fae2e189, 0xfbb36b00e1dcc40c, 0xddd88d99a6f6a829, 0x26ba558ae9562a];
        fn coeff_b() -> Fq2 { static C: OnceLock<Fq2> = OnceLock::new(); *C.get_or_init(|| Fq6Parameters::nonresidue().inverse().unwrap()) }
        fn generator() -> (Fq2, Fq2) {
            (Fq2::new(
                fq([0x74e3e48f7c005196, 0x71889f52bb535402, 0x7ea501f557db6b9b, 0xc565f071203e5031, 0xc89630a2a3841d01, 0x18480be71c785fe]),
                fq([0xb26bfefa6ea16afe, 0x5cf89984bff76fe6, 0xe7223ece0799c9de, 0x532777ee6651cecb, 0x70dc5a51b1b140d5, 0xea6040e7004031])),
             Fq2::new(
                fq([0xf094094409fd4ddf, 0xf2cf88886d8c7c2e, 0xe458c282f832d204, 0xde03ed7274b49a58, 0xd960736bcbb2efb4, 0x690d665d446f7b]),
                fq([0xd9a1cdd185eb8f93, 0x4279b83f5e52270b, 0x2463b01acee304c2, 0x61ef11ac3d591bf1, 0x9e549da3151a70aa, 0xf8169fd2835518])))
        }
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct Parameters;
impl Bls12Parameters for Parameters {
    const X: &'static [u64] = &[0x8508c00000000001];
    type Fp = Fq; type Fp2Params = Fq2Parameters; type Fp6Params = Fq6Parameters; type Fp12Params = Fq12Parameters;
    type G1Parameters = g1::Parameters; type G2Parameters = g2::Parameters;
}
pub type Bls12_377 = Bls12<Parameters>;
pub type G1Affine = bls12::G1Affine<Parameters>;
pub type G1Projective = bls12::G1Projective<Parameters>;
pub type G2Affine = bls12::G2Affine<Parameters>;
pub type G2Projective = bls12::G2Projective<Parameters>;

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ec::*;
    use ark_ff::*;
    #[test]
    fn groups_and_pairing() {
        let g1 = G1Affine::prime_subgroup_generator(); let g2 = G2Affine::prime_subgroup_generator();
        assert!(g1.is_on_curve() && g1.is_in_correct_subgroup_assuming_on_curve());
        assert!(g2.is_on_curve() && g2.is_in_correct_subgroup_assuming_on_curve());
        let mut rng = ark_std::test_rng();
        let p = G2Projective::rand(&mut rng).into_affine(); assert!(p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve());
        let p = G1Projective::rand(&mut rng).into_affine(); assert!(p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve());
        let a = Fr::rand(&mut rng); let b = Fr::rand(&mut rng);
        let e1 = Bls12_377::pairing(g1.mul(a), g2.mul(b));
        let e2 = Bls12_377::pairing(g1.mul(a * b), g2);
        let e = Bls12_377::pairing(g1, g2);
        assert_eq!(e1, e2); assert!(!e.is_one()); assert_eq!(e.pow((a * b).into_repr()), e1);
        assert!(e.pow(FrParameters::MODULUS).is_one());
        let t = std::time::Instant::now(); for _ in 0..20 { Bls12_377::pairing(g1, g2); } println!("pairing {:?}", t.elapsed() / 20);
        let t = std::time::Instant::now(); for _ in 0..20 { std::hint::black_box(g2.mul(a)); } println!("g2mul {:?}", t.elapsed() / 20);
        let t = std::time::Instant::now(); for _ in 0..20 { std::hint::black_box(g1.mul(a)); } println!("g1mul {:?}", t.elapsed() / 20);
    }
}

#[cfg(feature = "r1cs")]
pub mod constraints {
    use super::*;
    use ark_r1cs_std::{fields::{fp::FpVar, fp2, opaque::OpaqueVar}, groups::bls12, pairing};
    pub type FqVar = FpVar<Fq>;
    pub type Fq2Var = fp2::Fp2Var<Fq2Parameters>;
    pub type Fq12Var = OpaqueVar<Fq12, Fq>;
    pub type G1Var = bls12::G1Var<Parameters>;
    pub type G2Var = bls12::G2Var<Parameters>;
    pub type G1PreparedVar = bls12::G1PreparedVar<Parameters>;
    pub type G2PreparedVar = bls12::G2PreparedVar<Parameters>;
    pub type PairingVar = pairing::bls12::PairingVar<Parameters>;
}
