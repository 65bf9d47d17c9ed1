pub use ark_model::fr::{batch_inversion, AdditiveGroup, BigInt, BigInteger, BigInteger256, FftField, Field, One, PrimeField, UniformRand, Zero};
pub mod fields { pub use ark_model::fr::*; }
pub mod biginteger { pub use ark_model::fr::{BigInt, BigInteger, BigInteger256}; }
