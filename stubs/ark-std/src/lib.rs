pub use std::{borrow, boxed, cell, cmp, collections, error, fmt, hash, io, iter, marker, mem, ops, rc, slice, str, string, sync, vec, format};
pub use ark_model::fr::{One, UniformRand, Zero};
pub use rand;
pub fn test_rng() -> impl rand::RngCore { use rand::SeedableRng; rand::rngs::StdRng::seed_from_u64(0x5eed) }
pub fn log2(x: usize) -> u32 { if x == 0 { 0 } else { usize::BITS - (x - 1).leading_zeros() } }
