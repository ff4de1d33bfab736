use crate::*;
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::marker::PhantomData;
use std::ops::*;
use std::sync::OnceLock;

/// Modulus and derived constants of an N-limb prime field.
pub trait FpConfig<const N: usize>: FpParameters<BigInt = BigInt<N>> + FftParameters<BigInt = BigInt<N>> {
    fn sqrt_ctx() -> &'static OnceLock<SqrtCtx<N>>;
}
pub struct SqrtCtx<const N: usize> { pub root: BigInt<N>, pub t: [u64; N], pub t1d2: [u64; N] }

pub const fn c_inv(m0: u64) -> u64 { let mut inv = 1u64; let mut i = 0; while i < 63 { inv = inv.wrapping_mul(inv); inv = inv.wrapping_mul(m0); i += 1; } inv.wrapping_neg() }
const fn c_geq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool { let mut i = N; while i > 0 { i -= 1; if a[i] > b[i] { return true; } if a[i] < b[i] { return false; } } true }
const fn c_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] { let mut r = [0u64; N]; let mut bo = 0u64; let mut i = 0; while i < N { let t = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(bo as u128); r[i] = t as u64; bo = ((t >> 64) as u64) & 1; i += 1; } r }
const fn c_dbl_mod<const N: usize>(a: &[u64; N], m: &[u64; N]) -> [u64; N] { let mut r = [0u64; N]; let mut c = 0u64; let mut i = 0; while i < N { r[i] = (a[i] << 1) | c; c = a[i] >> 63; i += 1; } if c == 1 || c_geq(&r, m) { c_sub(&r, m) } else { r } }
pub const fn c_pow2_mod<const N: usize>(k: usize, m: &[u64; N]) -> [u64; N] { let mut r = [0u64; N]; r[0] = 1; let mut i = 0; while i < k { r = c_dbl_mod(&r, m); i += 1; } r }
pub const fn c_bits<const N: usize>(m: &[u64; N]) -> u32 { let mut i = N; while i > 0 { i -= 1; if m[i] != 0 { return i as u32 * 64 + 64 - m[i].leading_zeros(); } } 0 }
pub const fn c_shr1<const N: usize>(m: &[u64; N]) -> [u64; N] { let mut r = [0u64; N]; let mut i = 0; while i < N { r[i] = m[i] >> 1; if i + 1 < N { r[i] |= m[i + 1] << 63; } i += 1; } r }
pub const fn c_twoad<const N: usize>(m: &[u64; N]) -> u32 { let mut v = *m; v[0] -= 1; let mut s = 0; while v[0] & 1 == 0 { v = c_shr1(&v); s += 1; } s }

#[macro_export]
macro_rules! fp_params { ($name:ident, $n:expr, $m:expr) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct $name;
    impl $crate::FftParameters for $name { type BigInt = $crate::BigInt<$n>; const TWO_ADICITY: u32 = $crate::fp::c_twoad(&$m); }
    impl $crate::FpParameters for $name {
        const MODULUS: $crate::BigInt<$n> = $crate::BigInt($m);
        const MODULUS_BITS: u32 = $crate::fp::c_bits(&$m);
        const REPR_SHAVE_BITS: u32 = $n * 64 - Self::MODULUS_BITS;
        const CAPACITY: u32 = Self::MODULUS_BITS - 1;
        const R: $crate::BigInt<$n> = $crate::BigInt($crate::fp::c_pow2_mod($n * 64, &$m));
        const R2: $crate::BigInt<$n> = $crate::BigInt($crate::fp::c_pow2_mod($n * 128, &$m));
        const INV: u64 = $crate::fp::c_inv($m[0]);
        const MODULUS_MINUS_ONE_DIV_TWO: $crate::BigInt<$n> = $crate::BigInt($crate::fp::c_shr1(&$m));
    }
    impl $crate::FpConfig<$n> for $name {
        fn sqrt_ctx() -> &'static std::sync::OnceLock<$crate::SqrtCtx<$n>> { static C: std::sync::OnceLock<$crate::SqrtCtx<$n>> = std::sync::OnceLock::new(); &C }
    }
} }

pub struct Fp<P, const N: usize>(pub BigInt<N>, pub PhantomData<P>);
pub type Fp256<P> = Fp<P, 4>;
pub type Fp320<P> = Fp<P, 5>;
pub type Fp384<P> = Fp<P, 6>;
pub type Fp768<P> = Fp<P, 12>;
impl<P, const N: usize> Clone for Fp<P, N> { #[inline] fn clone(&self) -> Self { *self } }
impl<P, const N: usize> Copy for Fp<P, N> {}
impl<P, const N: usize> PartialEq for Fp<P, N> { #[inline] fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<P, const N: usize> Eq for Fp<P, N> {}
impl<P, const N: usize> Hash for Fp<P, N> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<P: FpConfig<N>, const N: usize> Default for Fp<P, N> { fn default() -> Self { Self::zero() } }
impl<P: FpConfig<N>, const N: usize> fmt::Debug for Fp<P, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp({})", self.into_repr()) } }
impl<P: FpConfig<N>, const N: usize> fmt::Display for Fp<P, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp({})", self.into_repr()) } }
impl<P: FpConfig<N>, const N: usize> Ord for Fp<P, N> { fn cmp(&self, o: &Self) -> Ordering { self.into_repr().cmp(&o.into_repr()) } }
impl<P: FpConfig<N>, const N: usize> PartialOrd for Fp<P, N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }

impl<P: FpConfig<N>, const N: usize> Fp<P, N> {
    #[inline(always)] const fn raw(b: BigInt<N>) -> Self { Fp(b, PhantomData) }
    /// From Montgomery representation.
    pub const fn new(b: BigInt<N>) -> Self { Fp(b, PhantomData) }
    /// From small limbs in ordinary representation.
    pub fn from_limbs(l: [u64; N]) -> Self { Self::from_repr(BigInt(l)).expect("limbs below modulus") }
    #[inline] fn is_valid(&self) -> bool { self.0 < P::MODULUS }
    #[inline(always)] fn reduce(&mut self) { if !self.is_valid() { self.0.sub_noborrow(&P::MODULUS); } }
    #[inline(always)]
    fn mont(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        // CIOS; every modulus used here leaves at least one spare top bit.
        let m = &P::MODULUS.0;
        let mut t = [0u64; N];
        let mut hi = 0u64;
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N { let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c; t[j] = v as u64; c = v >> 64; }
            let v = hi as u128 + c; hi = v as u64;
            let k = t[0].wrapping_mul(P::INV);
            let mut c = (t[0] as u128 + (k as u128) * (m[0] as u128)) >> 64;
            for j in 1..N { let v = t[j] as u128 + (k as u128) * (m[j] as u128) + c; t[j - 1] = v as u64; c = v >> 64; }
            let v = hi as u128 + c; t[N - 1] = v as u64; hi = (v >> 64) as u64;
        }
        t
    }
}
impl<P: FpConfig<N>, const N: usize> Zero for Fp<P, N> { #[inline] fn zero() -> Self { Self::raw(BigInt([0; N])) } #[inline] fn is_zero(&self) -> bool { self.0 .0.iter().all(|x| *x == 0) } }
impl<P: FpConfig<N>, const N: usize> One for Fp<P, N> { #[inline] fn one() -> Self { Self::raw(P::R) } }
impl<P: FpConfig<N>, const N: usize> Neg for Fp<P, N> { type Output = Self; #[inline] fn neg(self) -> Self { if self.is_zero() { self } else { let mut t = P::MODULUS; t.sub_noborrow(&self.0); Self::raw(t) } } }
impl<'a, P: FpConfig<N>, const N: usize> AddAssign<&'a Fp<P, N>> for Fp<P, N> { #[inline] fn add_assign(&mut self, o: &Self) { self.0.add_nocarry(&o.0); self.reduce(); } }
impl<'a, P: FpConfig<N>, const N: usize> SubAssign<&'a Fp<P, N>> for Fp<P, N> { #[inline] fn sub_assign(&mut self, o: &Self) { if self.0 < o.0 { self.0.add_nocarry(&P::MODULUS); } self.0.sub_noborrow(&o.0); } }
impl<'a, P: FpConfig<N>, const N: usize> MulAssign<&'a Fp<P, N>> for Fp<P, N> { #[inline] fn mul_assign(&mut self, o: &Self) { self.0 = BigInt(Self::mont(&self.0 .0, &o.0 .0)); self.reduce(); } }
crate::field_ops!([P: FpConfig<N>, const N: usize] Fp<P, N>);
macro_rules! from_u { ($($t:ty),*) => {$( impl<P: FpConfig<N>, const N: usize> From<$t> for Fp<P, N> { fn from(v: $t) -> Self { Self::from(v as u128) } } )*} }
from_u!(u64, u32, u16, u8, bool);
impl<P: FpConfig<N>, const N: usize> From<u128> for Fp<P, N> { fn from(v: u128) -> Self { let mut l = [0u64; N]; l[0] = v as u64; l[1] = (v >> 64) as u64; Self::from_repr(BigInt(l)).expect("small") } }
impl<P: FpConfig<N>, const N: usize> From<BigInt<N>> for Fp<P, N> { fn from(b: BigInt<N>) -> Self { Self::from_repr(b).expect("below modulus") } }
impl<P: FpConfig<N>, const N: usize> From<Fp<P, N>> for BigInt<N> { fn from(f: Fp<P, N>) -> Self { f.into_repr() } }
impl<P: FpConfig<N>, const N: usize> std::str::FromStr for Fp<P, N> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { let mut r = Self::zero(); let ten = Self::from(10u64); for c in s.chars() { r = r * ten + Self::from(c.to_digit(10).ok_or(())? as u64); } Ok(r) } }
impl<P: FpConfig<N>, const N: usize> Distribution<Fp<P, N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<P, N> {
        loop {
            let mut b: BigInt<N> = rng.sample(Standard);
            b.0[N - 1] &= u64::MAX.checked_shr(P::REPR_SHAVE_BITS).unwrap_or(0);
            let f = Fp::raw(b);
            if f.is_valid() { return f; }
        }
    }
}
impl<P: FpConfig<N>, const N: usize> UniformRand for Fp<P, N> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) } }
impl<P: FpConfig<N>, const N: usize> ToBytes for Fp<P, N> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.into_repr().write(w) } }
impl<P: FpConfig<N>, const N: usize> FromBytes for Fp<P, N> { fn read<R: Read>(r: R) -> IoResult<Self> { let b = BigInt::<N>::read(r)?; Self::from_repr(b).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed")) } }
impl<P: FpConfig<N>, const N: usize> CanonicalSerializeWithFlags for Fp<P, N> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut bytes = self.into_repr().to_bytes_le(); bytes.push(0);
        bytes[n - 1] |= flags.u8_bitmask();
        w.write_all(&bytes[..n])?;
        Ok(())
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) }
}
impl<P: FpConfig<N>, const N: usize> CanonicalSerialize for Fp<P, N> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserializeWithFlags for Fp<P, N> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; 8 * N + 1];
        r.read_exact(&mut b[..n])?;
        let flags = F::from_u8_remove_flags(&mut b[n - 1]).ok_or(SerializationError::UnexpectedFlags)?;
        if b[8 * N] != 0 { return Err(SerializationError::InvalidData); }
        let v = BigInt::<N>::read(&b[..8 * N])?;
        Ok((Self::from_repr(v).ok_or(SerializationError::InvalidData)?, flags))
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserialize for Fp<P, N> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_with_flags::<R, EmptyFlags>(r).map(|x| x.0) }
}
impl<P: FpConfig<N>, const N: usize> Field for Fp<P, N> {
    type BasePrimeField = Self;
    fn extension_degree() -> u64 { 1 }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        if F::BIT_SIZE > 8 { return None; }
        let mut b = vec![0u8; N * 8 + 1];
        let n = bytes.len().min(N * 8);
        b[..n].copy_from_slice(&bytes[..n]);
        let b = &mut b[..N * 8];
        let last_mask = 0xffu8.checked_shr(P::REPR_SHAVE_BITS % 8).unwrap_or(0) ;
        let flags_mask = 0xffu8.checked_shl(8 - F::BIT_SIZE as u32).unwrap_or(0);
        let out = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) - 1;
        let shaved = (P::REPR_SHAVE_BITS / 8) as usize;
        let top = N * 8 - 1 - shaved;
        let mut fl = 0u8;
        for (i, x) in b.iter_mut().enumerate() {
            if i == out { fl = *x & flags_mask; *x &= !flags_mask; }
            if i == top { *x &= last_mask; } else if i > top { *x = 0; }
        }
        let v = BigInt::<N>::read(&b[..]).ok()?;
        let f = Self::from_repr(v)?;
        F::from_u8(fl).map(|fl| (f, fl))
    }
    #[inline] fn square(&self) -> Self { let mut r = Self::raw(BigInt(Self::mont(&self.0 .0, &self.0 .0))); r.reduce(); r }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        // binary extended Euclid on the Montgomery representation
        let one = { let mut l = [0u64; N]; l[0] = 1; BigInt(l) };
        let mut u = self.0; let mut v = P::MODULUS;
        let mut b = Self::raw(P::R2); let mut c = Self::zero();
        fn half<P: FpConfig<N>, const N: usize>(x: &mut Fp<P, N>) { if x.0.is_even() { x.0.div2(); } else { let carry = x.0.add_nocarry(&P::MODULUS); x.0.div2(); if carry { x.0 .0[N - 1] |= 1 << 63; } } }
        while u != one && v != one {
            while u.is_even() { u.div2(); half(&mut b); }
            while v.is_even() { v.div2(); half(&mut c); }
            if v < u { u.sub_noborrow(&v); b -= &c; } else { v.sub_noborrow(&u); c -= &b; }
        }
        Some(if u == one { b } else { c })
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<P: FpConfig<N>, const N: usize> SquareRootField for Fp<P, N> {
    fn legendre(&self) -> LegendreSymbol { if self.is_zero() { return LegendreSymbol::Zero; } if self.pow(P::MODULUS_MINUS_ONE_DIV_TWO).is_one() { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue } }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() { return Some(*self); }
        let s = P::TWO_ADICITY;
        let ctx = P::sqrt_ctx().get_or_init(|| {
            let mut t = P::MODULUS; t.0[0] -= 1; for _ in 0..s { t.div2(); }
            let mut t1 = t; t1.div2();
            let mut nr = Self::from(2u64);
            while !nr.legendre().is_qnr() { nr += Self::one(); }
            SqrtCtx { root: nr.pow(t).0, t: t.0, t1d2: t1.0 }
        });
        let mut z = Self::raw(ctx.root);
        let w = self.pow(&ctx.t1d2);
        let mut x = w * self;
        let mut b = x * w;
        let mut v = s;
        while !b.is_one() {
            let mut k = 0; let mut b2k = b;
            while !b2k.is_one() { b2k.square_in_place(); k += 1; if k == v { return None; } }
            for _ in 1..(v - k) { z.square_in_place(); }
            x *= z; z.square_in_place(); b *= z; v = k;
        }
        if x.square() == *self { Some(x) } else { None }
    }
}
impl<P: FpConfig<N>, const N: usize> PrimeField for Fp<P, N> {
    type Params = P;
    type BigInt = BigInt<N>;
    fn from_repr(b: BigInt<N>) -> Option<Self> { let mut r = Self::raw(b); if r.is_zero() { Some(r) } else if r.is_valid() { r *= &Self::raw(P::R2); Some(r) } else { None } }
    fn into_repr(&self) -> BigInt<N> { let mut one = [0u64; N]; one[0] = 1; let mut r = Self::raw(BigInt(Self::mont(&self.0 .0, &one))); r.reduce(); r.0 }
}
