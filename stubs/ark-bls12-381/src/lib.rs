pub use ark_model::fr::Fr;
pub use ark_model::group::Ideal as Bls12_381;
pub type G1Affine = ark_model::group::Aff<1>; pub type G2Affine = ark_model::group::Aff<2>;
pub type G1Projective = ark_model::group::Proj<1>; pub type G2Projective = ark_model::group::Proj<2>;
