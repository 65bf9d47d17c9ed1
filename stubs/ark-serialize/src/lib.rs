pub use ark_model::serialize::*;
pub use std::io::{Read, Write};
