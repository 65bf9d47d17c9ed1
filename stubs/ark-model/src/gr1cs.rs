//! Constraint systems (the part of ark-relations::gr1cs that zkenc uses), in proving mode.
use crate::fr::Field;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::BTreeMap;
use std::fmt;
use std::ops::{Add, AddAssign, Deref, DerefMut, Mul, Neg, Sub};
use std::rc::Rc;

pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
pub type Result<T> = core::result::Result<T, SynthesisError>;
pub type Matrix<F> = Vec<Vec<(F, usize)>>;
pub type Label = String;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SynthesisError { MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable, PredicateNotFound, ArityMismatch }
impl fmt::Display for SynthesisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for SynthesisError {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
impl Variable {
    pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
    pub fn is_zero(&self) -> bool { matches!(self, Variable::Zero) }
    pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
    pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
    pub fn get_variable_index(&self, w: usize) -> Option<usize> { match self { Variable::One => Some(0), Variable::Instance(i) => Some(*i), Variable::Witness(i) => Some(w + *i), _ => None } }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct LinearCombination<F>(pub Vec<(F, Variable)>);
impl<F> Deref for LinearCombination<F> { type Target = Vec<(F, Variable)>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<F> DerefMut for LinearCombination<F> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<F> LinearCombination<F> { pub fn new() -> Self { Self(vec![]) } }
impl<F: Field> LinearCombination<F> {
    pub fn zero() -> Self { Self(vec![]) }
    pub fn compactify(&mut self) { let mut m: BTreeMap<Variable, F> = BTreeMap::new(); for (c, v) in self.0.drain(..) { *m.entry(v).or_insert_with(F::zero) += c; } self.0 = m.into_iter().map(|(v, c)| (c, v)).collect(); }
    pub fn negate_in_place(&mut self) { for (c, _) in self.0.iter_mut() { *c = -*c; } }
}
impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, t: (F, Variable)) -> Self { self.0.push(t); self } }
impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(mut self, t: (F, Variable)) -> Self { self.0.push((-t.0, t.1)); self } }
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, t: (F, Variable)) { self.0.push(t) } }
impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(mut self, t: Variable) -> Self { self.0.push((F::one(), t)); self } }
impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(mut self, t: Variable) -> Self { self.0.push((-F::one(), t)); self } }
impl<F: Field> Add<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, t: Self) -> Self { self.0.extend(t.0); self } }
impl<'a, F: Field> Add<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, t: &'a Self) -> Self { self.0.extend(t.0.iter().copied()); self } }
impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, s: F) -> Self { for (c, _) in self.0.iter_mut() { *c *= s; } self } }
impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { self.negate_in_place(); self } }
impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { Self(vec![(F::one(), v)]) } }
impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(t: (F, Variable)) -> Self { Self(vec![t]) } }
impl<F: Field> From<Vec<(F, Variable)>> for LinearCombination<F> { fn from(t: Vec<(F, Variable)>) -> Self { Self(t) } }
impl<F: Field> FromIterator<(F, Variable)> for LinearCombination<F> { fn from_iter<I: IntoIterator<Item = (F, Variable)>>(i: I) -> Self { Self(i.into_iter().collect()) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum OptimizationGoal { None, Constraints, Weight }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
impl SynthesisMode { pub const DEFAULT: SynthesisMode = SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true }; }

#[derive(Clone, Debug)]
pub struct ConstraintSystem<F: Field> {
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    instance: Vec<F>, witness: Vec<F>,
    constraints: Vec<[LinearCombination<F>; 3]>,
    mode: SynthesisMode,
}
impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self { ConstraintSystem { num_instance_variables: 1, num_witness_variables: 0, instance: vec![F::one()], witness: vec![], constraints: vec![], mode: SynthesisMode::DEFAULT } }
    pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
    pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
    pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
    pub fn num_constraints(&self) -> usize { self.constraints.len() }
    pub fn num_instance_variables(&self) -> usize { self.num_instance_variables }
    pub fn num_witness_variables(&self) -> usize { self.num_witness_variables }
    pub fn num_variables(&self) -> usize { self.num_instance_variables + self.num_witness_variables }
    pub fn instance_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.instance) } }
    pub fn witness_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.witness) } }
    pub fn new_input_variable<Fun: FnOnce() -> Result<F>>(&mut self, f: Fun) -> Result<Variable> {
        let i = self.num_instance_variables; self.num_instance_variables += 1;
        if !self.is_in_setup_mode() { self.instance.push(f()?); }
        Ok(Variable::Instance(i))
    }
    pub fn new_witness_variable<Fun: FnOnce() -> Result<F>>(&mut self, f: Fun) -> Result<Variable> {
        let i = self.num_witness_variables; self.num_witness_variables += 1;
        if !self.is_in_setup_mode() { self.witness.push(f()?); }
        Ok(Variable::Witness(i))
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> { match v { Variable::Zero => Some(F::zero()), Variable::One => Some(F::one()), Variable::Instance(i) => self.instance.get(i).copied(), Variable::Witness(i) => self.witness.get(i).copied(), _ => None } }
    fn eval(&self, l: &LinearCombination<F>) -> Result<F> { let mut a = F::zero(); for (c, v) in &l.0 { a += *c * self.assigned_value(*v).ok_or(SynthesisError::AssignmentMissing)?; } Ok(a) }
    pub fn is_satisfied(&self) -> Result<bool> { Ok(self.first_bad()?.is_none()) }
    fn first_bad(&self) -> Result<Option<usize>> {
        if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
        for (i, [a, b, c]) in self.constraints.iter().enumerate() { if self.eval(a)? * self.eval(b)? != self.eval(c)? { return Ok(Some(i)); } }
        Ok(None)
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { Ok(self.first_bad()?.map(|i| format!("constraint {}", i))) }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
        let row = |l: &LinearCombination<F>| { let mut l = l.clone(); l.compactify(); l.0.iter().filter(|(c, _)| !c.is_zero()).filter_map(|(c, v)| v.get_variable_index(self.num_instance_variables).map(|i| (*c, i))).collect::<Vec<_>>() };
        let mut m = BTreeMap::new();
        m.insert(R1CS_PREDICATE_LABEL.to_string(), (0..3).map(|k| self.constraints.iter().map(|c| row(&c[k])).collect()).collect());
        Ok(m)
    }
    pub fn finalize(&mut self) {}
}
#[derive(Clone, Debug)]
pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(c: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(c))) }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { match self { Self::None => None, Self::CS(c) => Some(c.borrow()) } }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { match self { Self::None => None, Self::CS(c) => Some(c.borrow_mut()) } }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::None => None, Self::CS(c) => Rc::try_unwrap(c).ok().map(|s| s.into_inner()) } }
    pub fn num_constraints(&self) -> usize { self.borrow().map_or(0, |c| c.num_constraints()) }
    pub fn num_instance_variables(&self) -> usize { self.borrow().map_or(0, |c| c.num_instance_variables()) }
    pub fn num_witness_variables(&self) -> usize { self.borrow().map_or(0, |c| c.num_witness_variables()) }
    pub fn num_variables(&self) -> usize { self.borrow().map_or(0, |c| c.num_variables()) }
    pub fn instance_assignment(&self) -> Result<Vec<F>> { self.borrow().ok_or(SynthesisError::MissingCS)?.instance_assignment().map(|s| s.to_vec()) }
    pub fn witness_assignment(&self) -> Result<Vec<F>> { self.borrow().ok_or(SynthesisError::MissingCS)?.witness_assignment().map(|s| s.to_vec()) }
    pub fn is_in_setup_mode(&self) -> bool { self.borrow().map_or(false, |c| c.is_in_setup_mode()) }
    pub fn set_mode(&self, m: SynthesisMode) { if let Some(mut c) = self.borrow_mut() { c.set_mode(m) } }
    pub fn set_optimization_goal(&self, _: OptimizationGoal) {}
    pub fn finalize(&self) {}
    pub fn new_input_variable<Fun: FnOnce() -> Result<F>>(&self, f: Fun) -> Result<Variable> {
        match self { Self::None => Err(SynthesisError::MissingCS), Self::CS(c) => { if c.borrow().is_in_setup_mode() { c.borrow_mut().new_input_variable(f) } else { let v = f(); c.borrow_mut().new_input_variable(|| v) } } }
    }
    pub fn new_witness_variable<Fun: FnOnce() -> Result<F>>(&self, f: Fun) -> Result<Variable> {
        match self { Self::None => Err(SynthesisError::MissingCS), Self::CS(c) => { if c.borrow().is_in_setup_mode() { c.borrow_mut().new_witness_variable(f) } else { let v = f(); c.borrow_mut().new_witness_variable(|| v) } } }
    }
    pub fn enforce_constraint(&self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> {
        if label != R1CS_PREDICATE_LABEL { return Err(SynthesisError::PredicateNotFound); }
        let v: Vec<_> = lcs.into_iter().map(|f| f()).collect();
        let a: [LinearCombination<F>; 3] = v.try_into().map_err(|_| SynthesisError::ArityMismatch)?;
        self.borrow_mut().ok_or(SynthesisError::MissingCS)?.constraints.push(a); Ok(())
    }
    pub fn enforce_r1cs_constraint(&self, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> {
        let v = [a(), b(), c()]; self.borrow_mut().ok_or(SynthesisError::MissingCS)?.constraints.push(v); Ok(())
    }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { self.borrow().ok_or(SynthesisError::MissingCS)?.to_matrices() }
    pub fn is_satisfied(&self) -> Result<bool> { self.borrow().ok_or(SynthesisError::AssignmentMissing)?.is_satisfied() }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.borrow().ok_or(SynthesisError::AssignmentMissing)?.which_is_unsatisfied() }
    pub fn assigned_value(&self, v: Variable) -> Option<F> { self.borrow().and_then(|c| c.assigned_value(v)) }
}
pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }
