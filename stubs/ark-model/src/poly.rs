//! Radix-2 evaluation domains (the part of ark-poly that zkenc uses).
use crate::fr::{batch_inversion, FftField, Field};
pub trait EvaluationDomain<F: FftField>: Copy + Clone + Sized {
    fn new(n: usize) -> Option<Self>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn compute_size_of_domain(n: usize) -> Option<usize> { n.checked_next_power_of_two() }
    fn element(&self, i: usize) -> F { self.group_gen().pow([i as u64]) }
    fn elements(&self) -> std::vec::IntoIter<F> { (0..self.size()).map(|i| self.element(i)).collect::<Vec<_>>().into_iter() }
    fn size_as_field_element(&self) -> F { F::from(self.size() as u64) }
    fn evaluate_vanishing_polynomial(&self, x: F) -> F { x.pow([self.size() as u64]) - F::one() }
    fn evaluate_all_lagrange_coefficients(&self, x: F) -> Vec<F> {
        // L_j(x) = w^j (x^n - 1) / (n (x - w^j)); at a domain point, the indicator
        let n = self.size(); let z = self.evaluate_vanishing_polynomial(x);
        let els: Vec<F> = self.elements().collect();
        if z == F::zero() { return els.iter().map(|e| if *e == x { F::one() } else { F::zero() }).collect(); }
        let ninv = F::from(n as u64).inverse().unwrap();
        let mut den: Vec<F> = els.iter().map(|e| x - *e).collect(); batch_inversion(&mut den);
        els.iter().zip(den).map(|(e, d)| *e * z * ninv * d).collect()
    }
    fn fft(&self, c: &[F]) -> Vec<F> { self.elements().map(|w| { let mut a = F::zero(); for k in c.iter().rev() { a = a * w + *k; } a }).collect() }
    fn ifft(&self, e: &[F]) -> Vec<F> {
        let n = self.size(); let ninv = F::from(n as u64).inverse().unwrap(); let wi = self.group_gen().inverse().unwrap();
        (0..n).map(|j| { let w = wi.pow([j as u64]); let mut a = F::zero(); for k in e.iter().rev() { a = a * w + *k; } a * ninv }).collect()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Radix2EvaluationDomain<F: FftField> { size: usize, gen: F }
impl<F: FftField> EvaluationDomain<F> for Radix2EvaluationDomain<F> {
    fn new(n: usize) -> Option<Self> { let size = n.checked_next_power_of_two()?; Some(Self { size, gen: F::get_root_of_unity(size as u64)? }) }
    fn size(&self) -> usize { self.size }
    fn group_gen(&self) -> F { self.gen }
}
pub type GeneralEvaluationDomain<F> = Radix2EvaluationDomain<F>;
