//! Observation points for the drivers: scalars drawn from a random source.
use std::cell::RefCell;
thread_local! { static SAMPLED: RefCell<Vec<crate::fr::Fr>> = RefCell::new(Vec::new()); }
pub fn sampled_push(f: crate::fr::Fr) { SAMPLED.with(|s| s.borrow_mut().push(f)); }
/// Scalars sampled on this thread since the last call.
pub fn take_sampled() -> Vec<crate::fr::Fr> { SAMPLED.with(|s| std::mem::take(&mut *s.borrow_mut())) }
