pub use ark_model::poly::*;
pub mod domain { pub use ark_model::poly::*; }
