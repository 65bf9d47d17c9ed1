//! Stand-in for the arkworks crates: the *ideal* bilinear group.
//!
//! An element of G1, G2 or GT is represented by its discrete logarithm, so group operations are
//! field additions and the pairing is field multiplication.  The scalar field is chosen at run
//! time (environment variable STUB_FIELD): a toy prime, so that TLC can recompute every number, or
//! (default) the BN254 scalar field.
//!
//! The public surface follows the parts of the arkworks API that zkenc uses, and rather more, so
//! that ordinary refactorings of zkenc still compile against it.
#![allow(clippy::all)]
pub mod fr;
pub mod serialize;
pub mod group;
pub mod poly;
pub mod gr1cs;
pub mod trace;
