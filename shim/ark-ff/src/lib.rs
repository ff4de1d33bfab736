//! Stand-in for ark-ff (0.2/0.3 style API): real prime-field and extension-field arithmetic.
#![allow(clippy::all)]
pub mod bigint;
pub mod bytes;
pub mod field;
pub mod fp;
pub mod ext;
pub use bigint::*;
pub use bytes::*;
pub use field::*;
pub use fp::*;
pub use ext::*;
pub use ark_std::UniformRand;
pub use ark_std::rand;
pub mod biginteger { pub use crate::bigint::*; }
pub mod fields { pub use crate::{ext::*, field::*, fp::*}; pub mod models { pub use crate::{ext::*, fp::*}; } }
pub mod prelude { pub use crate::{BigInteger, Field, FpParameters, One, PrimeField, SquareRootField, UniformRand, Zero}; }
