//! The ideal bilinear group: elements are their discrete logarithms.
use crate::fr::*;
use crate::serialize::*;
use rand::Rng;
use std::fmt;
use std::io::{Read, Write};
use std::iter::Sum;
use std::ops::*;

/// Projective element of group K (1 or 2).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)] pub struct Proj<const K: u8>(pub Fr);
/// Affine element of group K.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)] pub struct Aff<const K: u8>(pub Fr);
impl<const K: u8> Proj<K> { pub fn dlog(&self) -> Fr { self.0 } }
impl<const K: u8> Aff<K> { pub fn dlog(&self) -> Fr { self.0 } pub fn from_dlog(f: Fr) -> Self { Aff(f) } pub fn identity() -> Self { Aff(Fr::zero()) } }

macro_rules! group_ops { ($T:ident, [$($g:tt)*], $ty:ty) => {
    impl $($g)* fmt::Debug for $ty { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}]", enc(&self.0)) } }
    impl $($g)* fmt::Display for $ty { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}]", enc(&self.0)) } }
    impl $($g)* Neg for $ty { type Output = Self; fn neg(self) -> Self { $T(-self.0) } }
    impl $($g)* UniformRand for $ty { fn rand<R: Rng + ?Sized>(r: &mut R) -> Self { $T(Fr::rand(r)) } }
} }
group_ops!(Proj, [<const K: u8>], Proj<K>);
group_ops!(Aff, [<const K: u8>], Aff<K>);
macro_rules! bin { ($a:ty, $b:ty => $o:ident, $ot:ty; $($t:ident $m:ident),*) => { $(
    impl<const K: u8> $t<$b> for $a { type Output = $ot; fn $m(self, o: $b) -> $ot { $o($t::$m(self.0, o.0)) } }
)* } }
bin!(Proj<K>, Proj<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Proj<K>, &Proj<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Proj<K>, Aff<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Proj<K>, &Aff<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Aff<K>, Aff<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Aff<K>, &Aff<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Aff<K>, Proj<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(Aff<K>, &Proj<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(&Proj<K>, Proj<K> => Proj, Proj<K>; Add add, Sub sub);
bin!(&Proj<K>, &Proj<K> => Proj, Proj<K>; Add add, Sub sub);
macro_rules! asg { ($a:ty, $b:ty; $($t:ident $m:ident $u:ident $n:ident),*) => { $(
    impl<const K: u8> $t<$b> for $a { fn $m(&mut self, o: $b) { self.0 = $u::$n(self.0, o.0) } }
)* } }
asg!(Proj<K>, Proj<K>; AddAssign add_assign Add add, SubAssign sub_assign Sub sub);
asg!(Proj<K>, &Proj<K>; AddAssign add_assign Add add, SubAssign sub_assign Sub sub);
asg!(Proj<K>, Aff<K>; AddAssign add_assign Add add, SubAssign sub_assign Sub sub);
asg!(Proj<K>, &Aff<K>; AddAssign add_assign Add add, SubAssign sub_assign Sub sub);
impl<const K: u8> Mul<Fr> for Proj<K> { type Output = Proj<K>; fn mul(self, s: Fr) -> Proj<K> { Proj(self.0 * s) } }
impl<'a, const K: u8> Mul<&'a Fr> for Proj<K> { type Output = Proj<K>; fn mul(self, s: &'a Fr) -> Proj<K> { Proj(self.0 * *s) } }
impl<'b, const K: u8> Mul<Fr> for &'b Proj<K> { type Output = Proj<K>; fn mul(self, s: Fr) -> Proj<K> { Proj(self.0 * s) } }
impl<const K: u8> MulAssign<Fr> for Proj<K> { fn mul_assign(&mut self, s: Fr) { self.0 *= s } }
impl<'a, const K: u8> MulAssign<&'a Fr> for Proj<K> { fn mul_assign(&mut self, s: &'a Fr) { self.0 *= *s } }
impl<const K: u8> Mul<Fr> for Aff<K> { type Output = Proj<K>; fn mul(self, s: Fr) -> Proj<K> { Proj(self.0 * s) } }
impl<'a, const K: u8> Mul<&'a Fr> for Aff<K> { type Output = Proj<K>; fn mul(self, s: &'a Fr) -> Proj<K> { Proj(self.0 * *s) } }
impl<const K: u8> Sum for Proj<K> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Proj::default(), |a, b| a + b) } }
impl<'a, const K: u8> Sum<&'a Proj<K>> for Proj<K> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Proj::default(), |a, b| a + *b) } }
impl<const K: u8> Sum<Aff<K>> for Proj<K> { fn sum<I: Iterator<Item = Aff<K>>>(i: I) -> Self { i.fold(Proj::default(), |a, b| a + b) } }
impl<'a, const K: u8> Sum<&'a Aff<K>> for Proj<K> { fn sum<I: Iterator<Item = &'a Aff<K>>>(i: I) -> Self { i.fold(Proj::default(), |a, b| a + b) } }
impl<const K: u8> Zero for Proj<K> { fn zero() -> Self { Proj(Fr::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
impl<const K: u8> From<Aff<K>> for Proj<K> { fn from(a: Aff<K>) -> Self { Proj(a.0) } }
impl<const K: u8> From<Proj<K>> for Aff<K> { fn from(a: Proj<K>) -> Self { Aff(a.0) } }
impl<const K: u8> PartialEq<Aff<K>> for Proj<K> { fn eq(&self, o: &Aff<K>) -> bool { self.0 == o.0 } }
impl<const K: u8> PartialEq<Proj<K>> for Aff<K> { fn eq(&self, o: &Proj<K>) -> bool { self.0 == o.0 } }

// Sizes as for BN254: G1 32 / 64 bytes, G2 64 / 128 bytes; the exponent, then zeros.
fn gsize(k: u8, c: Compress) -> usize { let b = 32 * k as usize; if c == Compress::Yes { b } else { 2 * b } }
// An element is written as a fixed multiple of its exponent, so that its encoding is not that of a scalar.
fn masks() -> &'static (Fr, Fr) { static M: std::sync::OnceLock<(Fr, Fr)> = std::sync::OnceLock::new(); M.get_or_init(|| { let m = Fr::from(0x9e3779b97f4a7c15f39cc0605cedc835u128); let m = m * m + Fr::from(2u64); (m, m.inverse().unwrap()) }) }
fn enc(f: &Fr) -> Fr { *f * masks().0 }
fn put<W: Write>(f: &Fr, n: usize, mut w: W) -> Result<(), SerializationError> { let mut b = vec![0u8; n]; b[..32].copy_from_slice(&enc(f).to_le()); w.write_all(&b)?; Ok(()) }
fn get<R: Read>(n: usize, mut r: R) -> Result<Fr, SerializationError> {
    let mut b = vec![0u8; n]; r.read_exact(&mut b)?;
    if b[32..].iter().any(|x| *x != 0) { return Err(SerializationError::InvalidData); }
    Fr::from_le_checked(b[..32].try_into().unwrap()).map(|f| f * masks().1).ok_or(SerializationError::InvalidData)
}
macro_rules! ser { ($T:ident) => {
    impl<const K: u8> CanonicalSerialize for $T<K> { fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { put(&self.0, gsize(K, c), w) } fn serialized_size(&self, c: Compress) -> usize { gsize(K, c) } }
    impl<const K: u8> Valid for $T<K> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl<const K: u8> CanonicalDeserialize for $T<K> { fn deserialize_with_mode<R: Read>(r: R, c: Compress, _: Validate) -> Result<Self, SerializationError> { Ok($T(get(gsize(K, c), r)?)) } }
} }
ser!(Proj); ser!(Aff);

impl<const K: u8> AdditiveGroup for Proj<K> { type Scalar = Fr; const ZERO: Self = Proj(Fr::zero_const()); }

pub trait PrimeGroup: AdditiveGroup<Scalar = Self::ScalarField> {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self;
}
impl<const K: u8> PrimeGroup for Proj<K> {
    type ScalarField = Fr;
    fn generator() -> Self { Proj(Fr::from(1u64)) }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self { let mut l = Fr::zero(); let b = Fr::from(1u128 << 64); for x in o.as_ref().iter().rev() { l = l * b + Fr::from(*x); } Proj(self.0 * l) }
}
pub trait ScalarMul: PrimeGroup { type MulBase; fn batch_mul(self, v: &[Self::ScalarField]) -> Vec<Self::MulBase>; }
impl<const K: u8> ScalarMul for Proj<K> { type MulBase = Aff<K>; fn batch_mul(self, v: &[Fr]) -> Vec<Aff<K>> { v.iter().map(|s| Aff(self.0 * *s)).collect() } }
pub trait VariableBaseMSM: ScalarMul {
    /// Err(shorter length) when the lengths differ, as in arkworks.
    fn msm(b: &[Self::MulBase], s: &[Self::ScalarField]) -> Result<Self, usize>;
    fn msm_unchecked(b: &[Self::MulBase], s: &[Self::ScalarField]) -> Self;
}
impl<const K: u8> VariableBaseMSM for Proj<K> {
    fn msm(b: &[Aff<K>], s: &[Fr]) -> Result<Self, usize> { if b.len() == s.len() { Ok(Self::msm_unchecked(b, s)) } else { Err(b.len().min(s.len())) } }
    fn msm_unchecked(b: &[Aff<K>], s: &[Fr]) -> Self { Proj(b.iter().zip(s).map(|(x, y)| x.0 * *y).sum()) }
}
pub trait AffineRepr: Eq + Sized + Copy + Clone + Default + Send + Sync + fmt::Debug + fmt::Display + 'static + Neg<Output = Self> + UniformRand
    + CanonicalSerialize + CanonicalDeserialize + From<Self::Group> + Into<Self::Group>
    + Add<Self, Output = Self::Group> + for<'a> Add<&'a Self, Output = Self::Group> + Add<Self::Group, Output = Self::Group>
    + Sub<Self, Output = Self::Group> + Mul<Self::ScalarField, Output = Self::Group> + for<'a> Mul<&'a Self::ScalarField, Output = Self::Group> {
    type ScalarField: PrimeField;
    type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField>;
    fn zero() -> Self; fn is_zero(&self) -> bool; fn generator() -> Self;
    fn into_group(self) -> Self::Group { self.into() }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self::Group { self.into_group().mul_bigint(o) }
}
impl<const K: u8> AffineRepr for Aff<K> { type ScalarField = Fr; type Group = Proj<K>; fn zero() -> Self { Aff(Fr::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } fn generator() -> Self { Aff(Fr::from(1u64)) } }
pub trait CurveGroup: PrimeGroup + VariableBaseMSM<MulBase = Self::Affine> + From<Self::Affine> + Into<Self::Affine>
    + Add<Self::Affine, Output = Self> + Sub<Self::Affine, Output = Self> + for<'a> Add<&'a Self::Affine, Output = Self> + for<'a> Sub<&'a Self::Affine, Output = Self>
    + AddAssign<Self::Affine> + SubAssign<Self::Affine> + for<'a> AddAssign<&'a Self::Affine>
    + Sum<Self::Affine> + for<'a> Sum<&'a Self::Affine> {
    type Affine: AffineRepr<Group = Self, ScalarField = Self::ScalarField>;
    fn into_affine(self) -> Self::Affine { self.into() }
    fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|x| (*x).into_affine()).collect() }
}
impl<const K: u8> CurveGroup for Proj<K> { type Affine = Aff<K>; }

#[derive(Clone, Copy, PartialEq, Eq, Default)] pub struct Prepared<const K: u8>(pub Fr);
impl<const K: u8> fmt::Debug for Prepared<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}]", enc(&self.0)) } }
macro_rules! prep { ($T:ident) => {
    impl<const K: u8> From<$T<K>> for Prepared<K> { fn from(a: $T<K>) -> Self { Prepared(a.0) } }
    impl<'a, const K: u8> From<&'a $T<K>> for Prepared<K> { fn from(a: &'a $T<K>) -> Self { Prepared(a.0) } }
} }
prep!(Proj); prep!(Aff);

/// Target-field element: the exponent of e(g1, g2).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)] pub struct Gt(pub Fr);
impl fmt::Debug for Gt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}]", enc(&self.0)) } }
impl fmt::Display for Gt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}]", enc(&self.0)) } }
impl CanonicalSerialize for Gt { fn serialize_with_mode<W: Write>(&self, w: W, _: Compress) -> Result<(), SerializationError> { put(&self.0, 384, w) } fn serialized_size(&self, _: Compress) -> usize { 384 } }
impl Valid for Gt { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for Gt { fn deserialize_with_mode<R: Read>(r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> { Ok(Gt(get(384, r)?)) } }

pub trait Pairing: Sized + 'static + Copy + fmt::Debug + Sync + Send + Eq + PartialEq {
    type ScalarField: PrimeField;
    type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + VariableBaseMSM<MulBase = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine>;
    type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>;
    type G1Prepared: Default + Clone + Send + Sync + fmt::Debug + From<Self::G1> + From<Self::G1Affine> + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine>;
    type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + VariableBaseMSM<MulBase = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine>;
    type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>;
    type G2Prepared: Default + Clone + Send + Sync + fmt::Debug + From<Self::G2> + From<Self::G2Affine> + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine>;
    type TargetField: Copy + Eq + Default + fmt::Debug + CanonicalSerialize + CanonicalDeserialize + std::hash::Hash + Send + Sync + 'static;
    fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self>;
    fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> { Self::multi_pairing([p], [q]) }
    #[doc(hidden)] fn gt_add(a: Self::TargetField, b: Self::TargetField) -> Self::TargetField;
    #[doc(hidden)] fn gt_neg(a: Self::TargetField) -> Self::TargetField;
    #[doc(hidden)] fn gt_mul(a: Self::TargetField, b: Self::ScalarField) -> Self::TargetField;
    #[doc(hidden)] fn gt_gen() -> Self::TargetField;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct PairingOutput<P: Pairing>(pub P::TargetField);
impl<P: Pairing> Default for PairingOutput<P> { fn default() -> Self { PairingOutput(P::gt_mul(P::gt_gen(), P::ScalarField::zero())) } }
impl<P: Pairing> fmt::Display for PairingOutput<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) } }
impl<P: Pairing> Add for PairingOutput<P> { type Output = Self; fn add(self, o: Self) -> Self { PairingOutput(P::gt_add(self.0, o.0)) } }
impl<P: Pairing> Sub for PairingOutput<P> { type Output = Self; fn sub(self, o: Self) -> Self { PairingOutput(P::gt_add(self.0, P::gt_neg(o.0))) } }
impl<'a, P: Pairing> Add<&'a Self> for PairingOutput<P> { type Output = Self; fn add(self, o: &'a Self) -> Self { self + *o } }
impl<'a, P: Pairing> Sub<&'a Self> for PairingOutput<P> { type Output = Self; fn sub(self, o: &'a Self) -> Self { self - *o } }
impl<P: Pairing> AddAssign for PairingOutput<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<P: Pairing> SubAssign for PairingOutput<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { PairingOutput(P::gt_neg(self.0)) } }
impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> { type Output = Self; fn mul(self, o: P::ScalarField) -> Self { PairingOutput(P::gt_mul(self.0, o)) } }
impl<P: Pairing> Sum for PairingOutput<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
impl<P: Pairing> PairingOutput<P> { pub fn generator() -> Self { PairingOutput(P::gt_gen()) } }
impl<P: Pairing> CanonicalSerialize for PairingOutput<P> { fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.0.serialize_with_mode(w, c) } fn serialized_size(&self, c: Compress) -> usize { self.0.serialized_size(c) } }
impl<P: Pairing> Valid for PairingOutput<P> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> { fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(PairingOutput(P::TargetField::deserialize_with_mode(r, c, v)?)) } }

/// The ideal pairing (stands in for Bn254 / Bls12_381).
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Ideal;
impl Pairing for Ideal {
    type ScalarField = Fr;
    type G1 = Proj<1>; type G1Affine = Aff<1>; type G1Prepared = Prepared<1>;
    type G2 = Proj<2>; type G2Affine = Aff<2>; type G2Prepared = Prepared<2>;
    type TargetField = Gt;
    fn multi_pairing(a: impl IntoIterator<Item = impl Into<Prepared<1>>>, b: impl IntoIterator<Item = impl Into<Prepared<2>>>) -> PairingOutput<Self> {
        PairingOutput(Gt(a.into_iter().zip(b).map(|(x, y)| x.into().0 * y.into().0).sum()))
    }
    fn gt_add(a: Gt, b: Gt) -> Gt { Gt(a.0 + b.0) }
    fn gt_neg(a: Gt) -> Gt { Gt(-a.0) }
    fn gt_mul(a: Gt, b: Fr) -> Gt { Gt(a.0 * b) }
    fn gt_gen() -> Gt { Gt(Fr::from(1u64)) }
}
