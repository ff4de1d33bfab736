//! Stand-in for ark-crypto-primitives: Bowe-Hopwood-Pedersen CRH.
#![allow(clippy::all)]
pub type Error = Box<dyn std::error::Error>;
#[cfg(feature = "r1cs")] pub mod prf;
#[cfg(feature = "r1cs")] pub mod snark;
#[cfg(feature = "r1cs")] pub use {crh::constraints::FixedLengthCRHGadget, snark::{SNARKGadget, SNARK}};
pub mod crh {
    #[cfg(feature = "r1cs")] pub use constraints::FixedLengthCRHGadget;
    #[cfg(feature = "r1cs")]
    pub mod constraints {
        use super::FixedLengthCRH;
        use ark_ff::Field;
        use ark_r1cs_std::prelude::*;
        use ark_relations::r1cs::SynthesisError;
        pub trait FixedLengthCRHGadget<H: FixedLengthCRH, F: Field>: Sized {
            type OutputVar: EqGadget<F> + ToBytesGadget<F> + CondSelectGadget<F> + std::fmt::Debug + Clone + Sized;
            type ParametersVar: AllocVar<H::Parameters, F> + Clone;
            fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<F>]) -> Result<Self::OutputVar, SynthesisError>;
        }
    }
    use super::Error;
    use ark_ff::ToBytes;
    use rand::Rng;
    use std::hash::Hash;
    pub trait FixedLengthCRH {
        const INPUT_SIZE_BITS: usize;
        type Output: ToBytes + Clone + Eq + Hash + Default;
        type Parameters: Clone + Default;
        fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error>;
        fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error>;
    }
    pub mod pedersen {
        pub trait Window: Clone { const WINDOW_SIZE: usize; const NUM_WINDOWS: usize; }
        pub fn bytes_to_bits(bytes: &[u8]) -> Vec<bool> { bytes.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1)).collect() }
    }
    pub mod bowe_hopwood {
        #[cfg(feature = "r1cs")]
        pub mod constraints {
            use super::{pedersen, FixedLengthCRH, Parameters, CRH};
            use crate::crh::FixedLengthCRHGadget;
            use ark_ec::{ModelParameters, TEModelParameters};
            use ark_ff::Field;
            use ark_r1cs_std::{bits::uint32::bit_ids, fields::FieldVar, groups::curves::twisted_edwards::AffineVar, prelude::*};
            use ark_relations::r1cs::{Namespace, SynthesisError};
            use std::{borrow::Borrow, marker::PhantomData};
            type Cf<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
            pub struct ParametersVar<P: TEModelParameters> { pub(crate) params: Parameters<P> }
            impl<P: TEModelParameters> Clone for ParametersVar<P> { fn clone(&self) -> Self { Self { params: self.params.clone() } } }
            impl<P: TEModelParameters, F: Field> AllocVar<Parameters<P>, F> for ParametersVar<P> {
                fn new_variable<T: Borrow<Parameters<P>>>(_: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>, _: AllocationMode) -> Result<Self, SynthesisError> { Ok(Self { params: f()?.borrow().clone() }) }
            }
            pub struct CRHGadget<P, F>(PhantomData<fn() -> (P, F)>);
            impl<P: TEModelParameters, W: pedersen::Window, F: FieldVar<P::BaseField, Cf<P>>> FixedLengthCRHGadget<CRH<P, W>, Cf<P>> for CRHGadget<P, F> {
                type OutputVar = AffineVar<P, F>;
                type ParametersVar = ParametersVar<P>;
                fn evaluate(p: &ParametersVar<P>, input: &[UInt8<Cf<P>>]) -> Result<AffineVar<P, F>, SynthesisError> {
                    let bits = input.to_bits_le()?; let cs = bits.cs();
                    let v: Option<Vec<u8>> = input.iter().map(|b| b.value().ok()).collect();
                    let n = v.as_ref().map_or(input.len(), |v| v.len());
                    assert!(n * 8 <= CRH::<P, W>::INPUT_SIZE_BITS, "CRH input too long");
                    let v = match v { Some(v) => Some(CRH::<P, W>::evaluate(&p.params, &v).map_err(|_| SynthesisError::Unsatisfiable)?), None => None };
                    let mut ids = bit_ids(&bits); ids.push(n as u64);
                    Ok(AffineVar::ideal(&cs, "bowe-hopwood", &ids, v))
                }
            }
        }
        use super::*;
        use ark_ec::{twisted_edwards_extended::GroupProjective as TEProjective, ProjectiveCurve, TEModelParameters};
        use ark_ff::{UniformRand, Zero};
        use std::marker::PhantomData;
        pub const CHUNK_SIZE: usize = 3;
        #[derive(Debug)]
        pub struct Parameters<P: TEModelParameters> { pub generators: Vec<Vec<TEProjective<P>>> }
        impl<P: TEModelParameters> Clone for Parameters<P> { fn clone(&self) -> Self { Self { generators: self.generators.clone() } } }
        impl<P: TEModelParameters> Default for Parameters<P> { fn default() -> Self { Self { generators: vec![] } } }
        /// The composite hasher rebuilds the same parameters in every circuit: remember the generators of each window.
        #[cfg(feature = "memo")]
        fn powers<P: TEModelParameters>(mut base: TEProjective<P>, n: usize) -> Vec<TEProjective<P>> {
            use std::{any::{Any, TypeId}, collections::HashMap, sync::Mutex};
            static M: Mutex<Option<HashMap<(TypeId, Vec<u8>, usize), Box<dyn Any + Send>>>> = Mutex::new(None);
            let mut k = vec![]; for c in [&base.x, &base.y, &base.t, &base.z] { ark_ff::ToBytes::write(c, &mut k).unwrap(); }
            let k = (TypeId::of::<P>(), k, n);
            if let Some(v) = M.lock().unwrap().get_or_insert_with(HashMap::new).get(&k) { return v.downcast_ref::<Vec<TEProjective<P>>>().unwrap().clone(); }
            let v: Vec<TEProjective<P>> = (0..n).map(|_| { let b = base; for _ in 0..4 { base.double_in_place(); } b }).collect();
            let mut m = M.lock().unwrap(); let m = m.get_or_insert_with(HashMap::new);
            if m.len() < 1024 { m.insert(k, Box::new(v.clone())); }
            v
        }
        pub struct CRH<P, W>(PhantomData<fn() -> (P, W)>);
        impl<P: TEModelParameters, W: pedersen::Window> FixedLengthCRH for CRH<P, W> {
            const INPUT_SIZE_BITS: usize = W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE;
            type Output = TEProjective<P>;
            type Parameters = Parameters<P>;
            fn setup<R: Rng>(rng: &mut R) -> Result<Self::Parameters, Error> {
                simhook::point(simhook::S_LAZY);
                let generators = (0..W::NUM_WINDOWS).map(|_| {
                    let mut base = TEProjective::<P>::rand(rng);
                    #[cfg(feature = "memo")] { return powers(base, W::WINDOW_SIZE); }
                    #[cfg(not(feature = "memo"))]
                    (0..W::WINDOW_SIZE).map(|_| { let b = base; for _ in 0..4 { base.double_in_place(); } b }).collect()
                }).collect();
                simhook::point(simhook::S_LAZY);
                Ok(Parameters { generators })
            }
            fn evaluate(p: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error> {
                simhook::point(simhook::S_CRH);
                if input.len() * 8 > Self::INPUT_SIZE_BITS { panic!("incorrect input bitlength {:?} for window params {:?}x{:?}x{}", input.len() * 8, W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE); }
                let mut bits = pedersen::bytes_to_bits(input);
                while bits.len() % CHUNK_SIZE != 0 { bits.push(false); }
                assert_eq!(p.generators.len(), W::NUM_WINDOWS);
                let mut acc = TEProjective::<P>::zero();
                for (seg, gens) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).zip(&p.generators) {
                    for (c, g) in seg.chunks(CHUNK_SIZE).zip(gens) {
                        let mut e = *g;
                        if c[0] { e += g; }
                        if c[1] { e += &g.double(); }
                        if c[2] { e = -e; }
                        acc += &e;
                    }
                }
                Ok(acc)
            }
        }
    }
}
