//! Short-Weierstrass points in homogeneous coordinates (affine x = X/Z, y = Y/Z). As in the real library, an
//! allocated point is three free field variables tied only by the projective curve equation: the honest prover
//! picks Z = 1, a byzantine one need not.
use crate::{enforce, fields::FieldVar, groups::{CurveVar, GroupOpsBounds}, prelude::*};
use ark_ec::{short_weierstrass_jacobian::{GroupAffine, GroupProjective}, AffineCurve, ModelParameters, ProjectiveCurve, SWModelParameters};
use ark_ff::{BitIteratorBE, Field, One, PrimeField, ToBytes, Zero, FromBytes};
use ark_relations::{r1cs::{ConstraintSystemRef, Namespace, SynthesisError}, sim};
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::ops::*;
pub mod bls12;
type Bf<P> = <P as ModelParameters>::BaseField;
type Cf<P> = <Bf<P> as Field>::BasePrimeField;
type Hom<P> = (Bf<P>, Bf<P>, Bf<P>);
pub struct ProjectiveVar<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> { pub x: F, pub y: F, pub z: F, _p: PhantomData<fn() -> P> }
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> Clone for ProjectiveVar<P, F> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone(), self.z.clone()) } }
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> std::fmt::Debug for ProjectiveVar<P, F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ProjectiveVar") } }
/// An affine point as a circuit variable.
pub struct AffineVar<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> { pub x: F, pub y: F, pub infinity: Boolean<Cf<P>>, _p: PhantomData<fn() -> P> }
fn hom<P: SWModelParameters>(v: &GroupProjective<P>) -> Hom<P> { if v.is_zero() { (Zero::zero(), One::one(), Zero::zero()) } else { let a = v.into_affine(); (a.x, a.y, One::one()) } }
fn proj<P: SWModelParameters>(h: &Hom<P>) -> GroupProjective<P> { if h.2.is_zero() { GroupProjective::zero() } else { GroupProjective::new(h.0 * h.2, h.1 * h.2.square(), h.2) } }
/// Derived points get a denominator other than one.
fn hom_scaled<P: SWModelParameters>(v: &GroupProjective<P>) -> Hom<P> { let (x, y, z) = hom(v); let k = Bf::<P>::from(3u64); (x * k, y * k, z * k) }
fn scalar<P: SWModelParameters>(k: u64) -> GroupProjective<P> { GroupProjective::<P>::prime_subgroup_generator().mul([k]) }
/// Representation (X : Y : Z) of `q` whose X is that of `p` and whose Y falls in the same half as that of `p`.
fn disguise<P: SWModelParameters>(p: &Hom<P>, q: GroupProjective<P>) -> Hom<P> {
    let (x, y, _) = hom(&q); let k = p.0 * x.inverse().unwrap_or(One::one());
    let y = y * k; let big = |y: &Bf<P>| *y > -*y;
    // negating q keeps its x
    (p.0, if big(&y) == big(&p.1) { y } else { -y }, k)
}
fn mutate<P: SWModelParameters>(h: Hom<P>, o: &sim::Override) -> Hom<P> {
    let a = o.arg.get(0).copied().unwrap_or(7) | 1; let g = proj::<P>(&h);
    let explicit = |skip: usize| -> GroupProjective<P> {
        let mut b = vec![]; for w in &o.arg[skip..] { b.extend_from_slice(&w.to_le_bytes()); }
        let n = Bf::<P>::extension_degree() as usize * (Cf::<P>::zero().into_repr().as_ref().len() * 8);
        if b.len() < 2 * n { return GroupProjective::zero(); }
        let x = Bf::<P>::read(&b[..n]); let y = Bf::<P>::read(&b[n..2 * n]);
        match (x, y) { (Ok(x), Ok(y)) => GroupAffine::new(x, y, false).into_projective(), _ => GroupProjective::zero() }
    };
    match o.how {
        0 => hom(&-g), 1 => hom(&g.double()), 2 => hom(&scalar::<P>(1)), 3 => hom(&GroupProjective::<P>::zero()), 4 => hom(&(g + scalar::<P>(1))),
        5 => disguise::<P>(&h, scalar::<P>(a)), 6 => { let k = Bf::<P>::from(a + 1); (h.0 * k, h.1 * k, h.2 * k) }
        7 => (h.0, h.1 + Bf::<P>::one(), h.2), 8 => hom(&scalar::<P>(a)), 9 => hom(&explicit(0)), 10 => disguise::<P>(&h, explicit(0)),
        11 => (h.0 + Bf::<P>::one(), h.1, h.2), 12 => (h.0, h.1, Zero::zero()), 13 => (h.0, -h.1, -h.2), _ => hom(&(g.double() + scalar::<P>(a))),
    }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AffineVar<P, F> { pub fn new(x: F, y: F, infinity: Boolean<Cf<P>>) -> Self { Self { x, y, infinity, _p: PhantomData } } }
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> ProjectiveVar<P, F> {
    pub fn new(x: F, y: F, z: F) -> Self { Self { x, y, z, _p: PhantomData } }
    pub(crate) fn from_const(c: GroupProjective<P>) -> Self { let (x, y, z) = hom(&c); Self::new(F::constant(x), F::constant(y), F::constant(z)) }
    pub fn ids(&self) -> Vec<u64> { let mut v = self.x.ids(); v.extend(self.y.ids()); v.extend(self.z.ids()); v }
    fn hom_value(&self) -> Option<Hom<P>> { match (self.x.value(), self.y.value(), self.z.value()) { (Ok(x), Ok(y), Ok(z)) => Some((x, y, z)), _ => None } }
    fn raw(cs: &ConstraintSystemRef<Cf<P>>, op: &str, ids: &[u64], v: Option<Hom<P>>) -> Self { Self::new(F::ideal(cs, op, ids, v.map(|v| v.0)), F::ideal(cs, op, ids, v.map(|v| v.1)), F::ideal(cs, op, ids, v.map(|v| v.2))) }
    fn ideal(cs: &ConstraintSystemRef<Cf<P>>, op: &str, ids: &[u64], v: Option<GroupProjective<P>>) -> Self { Self::raw(cs, op, ids, v.map(|v| hom_scaled(&v))) }
    pub(crate) fn ideal2(&self, o: &Self, neg: bool) -> Self {
        let mut ids = self.ids(); ids.extend(o.ids());
        Self::ideal(&self.cs().or(o.cs()), if neg { "group sub" } else { "group add" }, &ids, match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(if neg { a - b } else { a + b }), _ => None })
    }
    pub fn to_affine(&self) -> Result<AffineVar<P, F>, SynthesisError> {
        let v = self.value().ok().map(|v| v.into_affine()); let cs = self.cs(); let ids = self.ids();
        let inf = if cs.is_none() { Boolean::Constant(v.unwrap().is_zero()) } else { self.z.is_zero()? };
        Ok(AffineVar { x: F::ideal(&cs, "affine x", &ids, v.map(|v| if v.is_zero() { Zero::zero() } else { v.x })), y: F::ideal(&cs, "affine y", &ids, v.map(|v| if v.is_zero() { One::one() } else { v.y })), infinity: inf, _p: PhantomData })
    }
    fn alloc(cs: ConstraintSystemRef<Cf<P>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let v = f();
        if mode == AllocationMode::Constant { return Ok(Self::from_const(v?)); }
        // As in the real library, a failing assignment closure surfaces as a missing coordinate.
        let mut v = v.ok().map(|v| hom(&v));
        if v.is_none() && !cs.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
        if mode == AllocationMode::Witness && !cs.is_in_setup_mode() {
            if let Some(h) = &v {
                let kind = if Bf::<P>::extension_degree() == 1 { sim::Kind::G1 } else { sim::Kind::G2 };
                if let Some(o) = sim::witness(kind, || { let mut b = vec![]; h.0.write(&mut b).unwrap(); h.1.write(&mut b).unwrap(); b.chunks(8).map(|c| { let mut x = [0; 8]; x[..c.len()].copy_from_slice(c); u64::from_le_bytes(x) }).collect() }) { v = Some(mutate::<P>(*h, &o)); }
            }
        }
        let r = if mode == AllocationMode::Input { let h = v; let e = SynthesisError::AssignmentMissing;
            Self::new(F::new_input(cs.clone(), || h.map(|h| h.0).ok_or(e.clone()))?, F::new_input(cs.clone(), || h.map(|h| h.1).ok_or(e.clone()))?, F::new_input(cs.clone(), || h.map(|h| h.2).ok_or(e.clone()))?)
        } else { Self::raw(&cs, "point", &[], v) };
        let ok = v.map(|(x, y, z)| z * (y.square() - P::coeff_b() * z.square()) == x * (x.square() + P::coeff_a() * z.square()));
        enforce(&cs, "on curve", &r.ids(), ok)?;
        Ok(r)
    }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> R1CSVar<Cf<P>> for ProjectiveVar<P, F> {
    type Value = GroupProjective<P>;
    fn cs(&self) -> ConstraintSystemRef<Cf<P>> { self.x.cs().or(self.y.cs()).or(self.z.cs()) }
    fn value(&self) -> Result<Self::Value, SynthesisError> { Ok(proj::<P>(&(self.x.value()?, self.y.value()?, self.z.value()?))) }
}
crate::ideal_group_ops!([P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>] ProjectiveVar<P, F>, GroupProjective<P>);
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> CurveVar<GroupProjective<P>, Cf<P>> for ProjectiveVar<P, F> {
    fn constant(c: GroupProjective<P>) -> Self { Self::from_const(c) }
    fn zero() -> Self { Self::from_const(GroupProjective::zero()) }
    fn is_zero(&self) -> Result<Boolean<Cf<P>>, SynthesisError> { self.z.is_zero() }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<GroupProjective<P>, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> { Self::alloc(cs.into().cs(), f, mode) }
    fn enforce_prime_order(&self) -> Result<(), SynthesisError> {
        let ok = self.value().ok().map(|v| { let mut r = GroupProjective::<P>::zero(); for b in BitIteratorBE::new(<<P::ScalarField as PrimeField>::Params as ark_ff::FpParameters>::MODULUS) { r.double_in_place(); if b { r += &v; } } r.is_zero() });
        enforce(&self.cs(), "prime order", &self.ids(), ok)
    }
    fn double_in_place(&mut self) -> Result<(), SynthesisError> { *self = Self::ideal(&self.cs(), "group double", &self.ids(), self.value().ok().map(|v| v.double())); Ok(()) }
    fn negate(&self) -> Result<Self, SynthesisError> { Ok(Self::new(self.x.clone(), self.y.negate()?, self.z.clone())) }
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<Cf<P>>>) -> Result<Self, SynthesisError> {
        let bits: Vec<_> = bits.cloned().collect();
        let v = match (self.value(), bits.value()) { (Ok(v), Ok(b)) => { let mut r = GroupProjective::<P>::zero(); for b in b.into_iter().rev() { r.double_in_place(); if b { r += &v; } } Some(r) } _ => None };
        let mut ids = self.ids(); ids.extend(crate::bits::uint32::bit_ids(&bits));
        Ok(Self::ideal(&self.cs().or(bits.cs()), "group scalar mul", &ids, v))
    }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> EqGadget<Cf<P>> for ProjectiveVar<P, F> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<Cf<P>>, SynthesisError> {
        let v = match (self.value(), o.value()) { (Ok(a), Ok(b)) => Some(a == b), _ => None };
        let mut ids = self.ids(); ids.extend(o.ids());
        Ok(Boolean::ideal(&self.cs().or(o.cs()), "point is_eq", &ids, v))
    }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> CondSelectGadget<Cf<P>> for ProjectiveVar<P, F> {
    fn conditionally_select(c: &Boolean<Cf<P>>, t: &Self, f: &Self) -> Result<Self, SynthesisError> { Ok(Self::new(c.select(&t.x, &f.x)?, c.select(&t.y, &f.y)?, c.select(&t.z, &f.z)?)) }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AllocVar<GroupProjective<P>, Cf<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<GroupProjective<P>>>(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        let r = Self::alloc(cs.into().cs(), || f().map(|v| *v.borrow()), mode)?;
        if mode != AllocationMode::Constant { r.enforce_prime_order()?; }
        Ok(r)
    }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> AllocVar<GroupAffine<P>, Cf<P>> for ProjectiveVar<P, F> {
    fn new_variable<T: Borrow<GroupAffine<P>>>(cs: impl Into<Namespace<Cf<P>>>, f: impl FnOnce() -> Result<T, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> { <Self as AllocVar<GroupProjective<P>, Cf<P>>>::new_variable(cs, || f().map(|v| v.borrow().into_projective()), mode) }
}
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> ToBitsGadget<Cf<P>> for ProjectiveVar<P, F> { fn to_bits_le(&self) -> Result<Vec<Boolean<Cf<P>>>, SynthesisError> { let g = self.to_affine()?; let mut b = g.x.to_bits_le()?; b.extend(g.y.to_bits_le()?); b.push(g.infinity); Ok(b) } }
impl<P: SWModelParameters, F: FieldVar<Bf<P>, Cf<P>>> ToBytesGadget<Cf<P>> for ProjectiveVar<P, F> { fn to_bytes(&self) -> Result<Vec<UInt8<Cf<P>>>, SynthesisError> { let g = self.to_affine()?; let mut b = g.x.to_bytes()?; b.extend(g.y.to_bytes()?); b.extend(g.infinity.to_bytes()?); Ok(b) } }
