pub use ark_model::gr1cs as relations;
