use super::short_weierstrass_jacobian::{GroupAffine, GroupProjective};
use crate::{ModelParameters, PairingEngine, ProjectiveCurve, SWModelParameters};
use ark_ff::{BitIteratorBE, CubicExtField, CubicExtParameters, Field, One, PrimeField, QuadExtField, QuadExtParameters, SquareRootField, ToBytes, Zero};
use std::io::{Result as IoResult, Write};
use std::marker::PhantomData;

/// D-type-twist BLS12 family with positive parameter.
pub trait Bls12Parameters: 'static + Send + Sync + Sized {
    const X: &'static [u64];
    type Fp: PrimeField + SquareRootField;
    type Fp2Params: QuadExtParameters<BasePrimeField = Self::Fp, BaseField = Self::Fp>;
    type Fp6Params: CubicExtParameters<BasePrimeField = Self::Fp, BaseField = QuadExtField<Self::Fp2Params>>;
    type Fp12Params: QuadExtParameters<BasePrimeField = Self::Fp, BaseField = CubicExtField<Self::Fp6Params>>;
    type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
    type G2Parameters: SWModelParameters<BaseField = QuadExtField<Self::Fp2Params>, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
}
pub type G1Affine<P> = GroupAffine<<P as Bls12Parameters>::G1Parameters>;
pub type G1Projective<P> = GroupProjective<<P as Bls12Parameters>::G1Parameters>;
pub type G2Affine<P> = GroupAffine<<P as Bls12Parameters>::G2Parameters>;
pub type G2Projective<P> = GroupProjective<<P as Bls12Parameters>::G2Parameters>;
type F2<P> = QuadExtField<<P as Bls12Parameters>::Fp2Params>;
type F6<P> = CubicExtField<<P as Bls12Parameters>::Fp6Params>;
type F12<P> = QuadExtField<<P as Bls12Parameters>::Fp12Params>;
pub struct Bls12<P: Bls12Parameters>(PhantomData<fn() -> P>);
impl<P: Bls12Parameters> Clone for Bls12<P> { fn clone(&self) -> Self { *self } }
impl<P: Bls12Parameters> Copy for Bls12<P> {}
impl<P: Bls12Parameters> PartialEq for Bls12<P> { fn eq(&self, _: &Self) -> bool { true } }
impl<P: Bls12Parameters> Eq for Bls12<P> {}
impl<P: Bls12Parameters> std::fmt::Debug for Bls12<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Bls12") } }

pub struct G1Prepared<P: Bls12Parameters>(pub G1Affine<P>);
pub struct G2Prepared<P: Bls12Parameters> { pub ell: Vec<(F2<P>, F2<P>, F2<P>)>, pub infinity: bool }
impl<P: Bls12Parameters> Clone for G1Prepared<P> { fn clone(&self) -> Self { Self(self.0) } }
impl<P: Bls12Parameters> Clone for G2Prepared<P> { fn clone(&self) -> Self { Self { ell: self.ell.clone(), infinity: self.infinity } } }
impl<P: Bls12Parameters> std::fmt::Debug for G1Prepared<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl<P: Bls12Parameters> std::fmt::Debug for G2Prepared<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.ell) } }
impl<P: Bls12Parameters> Default for G1Prepared<P> { fn default() -> Self { Self(<G1Affine<P> as crate::AffineCurve>::prime_subgroup_generator()) } }
impl<P: Bls12Parameters> Default for G2Prepared<P> { fn default() -> Self { <G2Affine<P> as crate::AffineCurve>::prime_subgroup_generator().into() } }
impl<P: Bls12Parameters> ToBytes for G1Prepared<P> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.0.write(w) } }
impl<P: Bls12Parameters> ToBytes for G2Prepared<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { for c in &self.ell { c.0.write(&mut w)?; c.1.write(&mut w)?; c.2.write(&mut w)?; } Ok(()) } }
impl<P: Bls12Parameters> G1Prepared<P> { pub fn is_zero(&self) -> bool { self.0.is_zero() } }
impl<P: Bls12Parameters> G2Prepared<P> { pub fn is_zero(&self) -> bool { self.infinity } }
impl<P: Bls12Parameters> From<GroupAffine<P::G1Parameters>> for G1Prepared<P> { fn from(p: G1Affine<P>) -> Self { Self(p) } }
impl<P: Bls12Parameters> From<GroupAffine<P::G2Parameters>> for G2Prepared<P> {
    fn from(q: G2Affine<P>) -> Self {
        if q.is_zero() { return Self { ell: vec![], infinity: true }; }
        let two_inv = P::Fp::one().double().inverse().unwrap();
        let (mut x, mut y, mut z) = (q.x, q.y, F2::<P>::one());
        let mut ell = vec![];
        for b in BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1) {
            let mut a = x * y; a.mul_assign_by_basefield(&two_inv);
            let bb = y.square(); let c = z.square();
            let e = P::G2Parameters::coeff_b() * (c.double() + c); let f = e.double() + e;
            let mut g = bb + f; g.mul_assign_by_basefield(&two_inv);
            let h = (y + z).square() - (bb + c); let i = e - bb; let j = x.square(); let e2 = e.square();
            x = a * (bb - f); y = g.square() - (e2.double() + e2); z = bb * h;
            ell.push((-h, j.double() + j, i));
            if b {
                let theta = y - q.y * z; let lambda = x - q.x * z;
                let c = theta.square(); let d = lambda.square(); let e = lambda * d; let f = z * c; let g = x * d;
                let h = e + f - g.double();
                x = lambda * h; y = theta * (g - h) - e * y; z *= e;
                ell.push((lambda, -theta, theta * q.x - lambda * q.y));
            }
        }
        Self { ell, infinity: false }
    }
}
fn mul034<P: Bls12Parameters>(f: &mut F12<P>, c0: &F2<P>, c3: &F2<P>, c4: &F2<P>) {
    // f * (c0 + (c3 + c4 v) w)
    fn mul01<P: Bls12Parameters>(s: &F6<P>, d0: &F2<P>, d1: &F2<P>) -> F6<P> {
        let a = s.c0 * d0; let b = s.c1 * d1;
        let x = (s.c1 + s.c2) * d1 - b; let y = (s.c0 + s.c2) * d0 - a + b; let z = (*d0 + *d1) * (s.c0 + s.c1) - a - b;
        CubicExtField::new(a + P::Fp6Params::mul_nr(&x), z, y)
    }
    let a = CubicExtField::new(f.c0.c0 * c0, f.c0.c1 * c0, f.c0.c2 * c0);
    let b = mul01::<P>(&f.c1, c3, c4);
    let e = mul01::<P>(&(f.c0 + f.c1), &(*c0 + *c3), c4);
    f.c1 = e - (a + b);
    f.c0 = a + P::Fp12Params::mul_nr(&b);
}
impl<P: Bls12Parameters> PairingEngine for Bls12<P> {
    type Fr = <P::G1Parameters as ModelParameters>::ScalarField;
    type G1Projective = G1Projective<P>;
    type G1Affine = G1Affine<P>;
    type G1Prepared = G1Prepared<P>;
    type G2Projective = G2Projective<P>;
    type G2Affine = G2Affine<P>;
    type G2Prepared = G2Prepared<P>;
    type Fq = P::Fp;
    type Fqe = F2<P>;
    type Fqk = F12<P>;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)> {
        let pairs: Vec<_> = i.into_iter().filter(|(p, q)| !p.is_zero() && !q.is_zero()).collect();
        let mut f = F12::<P>::one();
        let mut k = 0;
        let step = |f: &mut F12<P>, k: usize| for (p, q) in &pairs {
            let (mut c0, mut c1, c2) = q.ell[k];
            c0.mul_assign_by_basefield(&p.0.y); c1.mul_assign_by_basefield(&p.0.x);
            mul034::<P>(f, &c0, &c1, &c2);
        };
        for b in BitIteratorBE::new(P::X).skip_while(|b| !b).skip(1) {
            f.square_in_place();
            step(&mut f, k); k += 1;
            if b { step(&mut f, k); k += 1; }
        }
        f
    }
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
        let mut f1 = *f; f1.conjugate();
        let f2 = f.inverse()?;
        let mut r = f1 * f2;
        let t = r; r.frobenius_map(2); r *= t;
        // hard part (times 3): (x-1)^2 (x+q) (x^2+q^2-1) + 3; unitary elements invert by conjugation
        let conj = |a: &F12<P>| { let mut b = *a; b.conjugate(); b };
        let ex = |a: &F12<P>| a.pow(P::X);
        let xm1 = |a: &F12<P>| ex(a) * conj(a);
        let a = xm1(&xm1(&r));
        let mut fa = a; fa.frobenius_map(1);
        let b = ex(&a) * fa;
        let mut fb = b; fb.frobenius_map(2);
        let c = ex(&ex(&b)) * fb * conj(&b);
        Some(c * r.square() * r)
    }
}
#[allow(unused)] fn _t<P: Bls12Parameters>(a: G1Projective<P>) -> G1Affine<P> { a.into_affine() }
