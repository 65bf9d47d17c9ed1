pub use ark_model::fr::AdditiveGroup;
pub use ark_model::group::{AffineRepr, CurveGroup, PrimeGroup, ScalarMul, VariableBaseMSM};
pub mod pairing { pub use ark_model::group::{Pairing, PairingOutput}; }
pub mod scalar_mul { pub use ark_model::group::ScalarMul; pub mod variable_base { pub use ark_model::group::VariableBaseMSM; } }
