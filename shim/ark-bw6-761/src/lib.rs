//! Stand-in for ark-bw6-761: the real BW6-761 curve (generators are this stand-in's own), with the Tate pairing.
#![allow(clippy::all)]
use ark_ec::{short_weierstrass_jacobian::{GroupAffine, GroupProjective}, ModelParameters, PairingEngine, SWModelParameters};
pub use ark_bls12_377::{Fq as Fr, FqParameters as FrParameters};
use ark_ff::{fp_params, CubicExtField, CubicExtParameters, Field, Fp, One, PrimeField, QuadExtField, QuadExtParameters, ToBytes, Zero};
use std::sync::OnceLock;

fp_params!(FqParameters, 12, [0xf49d00000000008b, 0xe6913e6870000082, 0x160cf8aeeaf0a437, 0x98a116c25667a8f8, 0x71dcd3dc73ebff2e, 0x8689c8ed12f9fd90, 0x3cebaff25b42304, 0x707ba638e584e919, 0x528275ef8087be41, 0xb926186a81d14688, 0xd187c94004faff3e, 0x122e824fb83ce0a]);
pub type Fq = Fp<FqParameters, 12>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq3Parameters;
impl CubicExtParameters for Fq3Parameters {
    type BasePrimeField = Fq; type BaseField = Fq;
    fn nonresidue() -> Fq { -Fq::from(4u64) }
    fn mul_nr(e: &Fq) -> Fq { -(e.double().double()) }
    fn frob() -> &'static OnceLock<(Fq, Fq)> { static C: OnceLock<(Fq, Fq)> = OnceLock::new(); &C }
}
pub type Fq3 = CubicExtField<Fq3Parameters>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq6Parameters;
impl QuadExtParameters for Fq6Parameters {
    type BasePrimeField = Fq; type BaseField = Fq3;
    fn nonresidue() -> Fq3 { Fq3::new(Fq::zero(), Fq::one(), Fq::zero()) }
    fn mul_nr(e: &Fq3) -> Fq3 { Fq3::new(Fq3Parameters::mul_nr(&e.c2), e.c0, e.c1) }
    fn frob() -> &'static OnceLock<Fq3> { static C: OnceLock<Fq3> = OnceLock::new(); &C }
}
pub type Fq6 = QuadExtField<Fq6Parameters>;
macro_rules! g { ($m:ident, $cof:expr, $b:expr, $x:expr, $y:expr) => { pub mod $m {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct Parameters;
    impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
    impl SWModelParameters for Parameters {
        const COFACTOR: &'static [u64] = &$cof;
        fn coeff_b() -> Fq { static C: OnceLock<Fq> = OnceLock::new(); *C.get_or_init(|| $b) }
        fn generator() -> (Fq, Fq) { static C: OnceLock<(Fq, Fq)> = OnceLock::new(); *C.get_or_init(|| (Fq::from_limbs($x), Fq::from_limbs($y))) }
    }
} } }
g!(g1, [0x3de580000000007c, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76], -Fq::one(), [0x2da946c2ca98c56f, 0xc1891418e3ce0e51, 0xbd557011eb2c7dd0, 0x6d5316c2b601db66, 0xc6c05fc952c93a80, 0xc5042c14be9179f0, 0xbe185365abc6cb0c, 0x3a5d68dc240a36cf, 0x8b1653febae12aa1, 0x6b90133067372846, 0xed25942ffadbec11, 0xd82cbf66753123], [0x6ad507137f20a2dd, 0x9ed9ef0d43b32e77, 0x80aaa35b64148867, 0x87ca22009ba7577b, 0xf196bd4095e732d9, 0xf1f84be0e364c557, 0xf644cd4d4d121918, 0x6b159fd05975390, 0x3b54d7359cd75698, 0x47a171b11241a265, 0x27a96c02bc803855, 0xa62fd67fdd91e3]);
g!(g2, [0x3de5800000000075, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76], Fq::from(4u64), [0xacac591e8c5a93fa, 0x4cc45de6fbd67847, 0x2fc532b59d18f40b, 0x12d84f49c477fd32, 0xbcabe9da05882daf, 0x323e3f1c3e6991b9, 0xe2bf40a492ead210, 0x59b249d724b2c155, 0xdeef8f50aa1221f4, 0x32a3a80f35265437, 0x28e9646093e4c6ab, 0x4cd0ed4bbb4bad], [0xaeae7ededaead5b0, 0xac90858b4a2f2d20, 0x68c9171615a79353, 0xedec5df53182dcf1, 0xc33df16a239fc281, 0x414556817439a0fb, 0x5072aa3dedbe0766, 0x508160dc51bab3ee, 0xf1b92ab610ecb3fd, 0x46fa210a92bc4f56, 0x7f6fe8680ef10cd, 0x5bbdc19380f7c7]);
const FINAL: [u64; 18] = [0xf335c00000004aef, 0xc14a69eb100066c1, 0x84d74e193dc6ff54, 0xb1ea2024801a659, 0x351f136eb9423dac, 0x75c1c8b32b6af1e2, 0x9660e55a2333ce25, 0xcbcdaa4d1bb2a327, 0xc3be81e9dcafdcc8, 0xe33fb491f2c5cc9, 0x77c4729e3955b7f0, 0xedeea0ca453b1ce2, 0x26b1eb1ee9c72b9, 0x3825a11a07c3de42, 0x9fac795e2fd52698, 0xb9bfdd86ce189a02, 0xd8c73eb8090bd134, 0xc4b3cb6f8d4fee];
pub type G1Affine = GroupAffine<g1::Parameters>;
pub type G1Projective = GroupProjective<g1::Parameters>;
pub type G2Affine = GroupAffine<g2::Parameters>;
pub type G2Projective = GroupProjective<g2::Parameters>;
macro_rules! prep { ($n:ident, $a:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct $n(pub $a);
    impl From<$a> for $n { fn from(p: $a) -> Self { $n(p) } }
    impl ToBytes for $n { fn write<W: std::io::Write>(&self, w: W) -> std::io::Result<()> { self.0.write(w) } }
} }
prep!(G1Prepared, G1Affine);
prep!(G2Prepared, G2Affine);
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct BW6_761;
fn line(c1: Fq, c2: Fq, d: Fq) -> Fq6 { Fq6::new(Fq3::new(Fq::zero(), c1, c2), Fq3::new(d, Fq::zero(), Fq::zero())) }
fn miller(p: &G1Affine, q: &G2Affine) -> Fq6 {
    if p.is_zero() || q.is_zero() { return Fq6::one(); }
    let (mut x, mut y, mut z) = (p.x, p.y, Fq::one());
    let mut f = Fq6::one();
    let r = <FrParameters as ark_ff::FpParameters>::MODULUS;
    for b in ark_ff::BitIteratorBE::without_leading_zeros(r).skip(1) {
        // tangent at T, evaluated at the untwisted Q, times a factor in a proper subfield
        let (xx, yy, zz) = (x.square(), y.square(), z.square());
        let m = xx.double() + xx; let mzz = m * zz; let z3 = (y * z).double();
        let l = line(-(mzz * q.x), m * x - yy.double(), z3 * zz * q.y);
        f = f.square() * l;
        let s = (x * yy).double().double(); let nx = m.square() - s.double();
        y = m * (s - nx) - yy.square().double().double().double(); x = nx; z = z3;
        if b {
            let zz = z.square(); let h = p.x * zz - x; let rr = p.y * zz * z - y;
            if h.is_zero() { continue; } // T = -P only at the very end: vertical line
            let zh = z * h;
            f *= line(-(rr * q.x), rr * p.x - zh * p.y, zh * q.y);
            let hh = h.square(); let hhh = hh * h; let v = x * hh;
            let nx = rr.square() - hhh - v.double();
            y = rr * (v - nx) - y * hhh; x = nx; z = zh;
        }
    }
    f
}
impl PairingEngine for BW6_761 {
    type Fr = Fr; type G1Projective = G1Projective; type G1Affine = G1Affine; type G1Prepared = G1Prepared;
    type G2Projective = G2Projective; type G2Affine = G2Affine; type G2Prepared = G2Prepared;
    type Fq = Fq; type Fqe = Fq; type Fqk = Fq6;
    fn miller_loop<'a, I>(i: I) -> Fq6 where I: IntoIterator<Item = &'a (G1Prepared, G2Prepared)> { i.into_iter().fold(Fq6::one(), |f, (p, q)| f * miller(&p.0, &q.0)) }
    fn final_exponentiation(f: &Fq6) -> Option<Fq6> {
        let mut c = *f; c.conjugate();
        let e = f.inverse().map(|i| c * i)?;
        let mut g = e; g.frobenius_map(1);
        Some((g * e).pow(FINAL))
    }
}
#[allow(unused)] fn _t() -> impl PrimeField { Fq::one() }

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ec::*;
    use ark_ff::*;
    #[test]
    fn bilinear() {
        let g1 = G1Affine::prime_subgroup_generator(); let g2 = G2Affine::prime_subgroup_generator();
        assert!(g1.is_on_curve() && g1.is_in_correct_subgroup_assuming_on_curve());
        assert!(g2.is_on_curve() && g2.is_in_correct_subgroup_assuming_on_curve());
        let mut rng = ark_std::test_rng();
        let a = Fr::rand(&mut rng); let b = Fr::rand(&mut rng);
        let t = std::time::Instant::now();
        let e = BW6_761::pairing(g1, g2); println!("pairing {:?}", t.elapsed());
        assert!(!e.is_one()); assert!(e.pow(FrParameters::MODULUS).is_one());
        assert_eq!(BW6_761::pairing(g1.mul(a), g2.mul(b)), e.pow((a * b).into_repr()));
        let t = std::time::Instant::now(); std::hint::black_box(g1.mul(a)); println!("mul {:?}", t.elapsed());
    }
}
