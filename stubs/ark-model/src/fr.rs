//! Prime field with a run-time modulus.
use crate::serialize::*;
use rand::Rng;
use std::fmt;
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use std::sync::OnceLock;

pub type L4 = [u64; 4];

pub const BN254_R: L4 = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];

struct Params { p: L4, small: Option<u64>, inv: u64, r2: L4, gen: u64, two_adicity: u32 }

fn params() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let which = std::env::var("STUB_FIELD").unwrap_or_default();
        match which.parse::<u64>() {
            Ok(p) => {
                let mut t = p - 1; let mut s = 0; while t % 2 == 0 { t /= 2; s += 1; }
                // smallest generator of the multiplicative group
                let pw = |b: u64, mut e: u64| { let mut r = 1u64; let mut b = b % p; while e > 0 { if e & 1 == 1 { r = r * b % p } b = b * b % p; e >>= 1 } r };
                let mut fs = vec![]; let mut n = p - 1; let mut d = 2; while d * d <= n { if n % d == 0 { fs.push(d); while n % d == 0 { n /= d } } d += 1 } if n > 1 { fs.push(n) }
                let gen = (2..p).find(|g| fs.iter().all(|f| pw(*g, (p - 1) / f) != 1)).unwrap_or(1);
                Params { p: [p, 0, 0, 0], small: Some(p), inv: 0, r2: [0; 4], gen, two_adicity: s }
            }
            Err(_) => {
                let p = BN254_R;
                let mut inv = 1u64; for _ in 0..63 { inv = inv.wrapping_mul(inv).wrapping_mul(p[0]); }
                let inv = inv.wrapping_neg();
                let mut r = [1u64, 0, 0, 0];
                for _ in 0..512 { r = add_mod(r, r, &p); }
                Params { p, small: None, inv, r2: r, gen: 5, two_adicity: 28 }
            }
        }
    })
}

fn geq(a: &L4, b: &L4) -> bool { for i in (0..4).rev() { if a[i] != b[i] { return a[i] > b[i]; } } true }
fn sub_raw(a: &L4, b: &L4) -> (L4, bool) {
    let mut r = [0; 4]; let mut br = 0u64;
    for i in 0..4 { let (x, b1) = a[i].overflowing_sub(b[i]); let (y, b2) = x.overflowing_sub(br); r[i] = y; br = (b1 | b2) as u64; }
    (r, br != 0)
}
fn add_raw(a: &L4, b: &L4) -> (L4, bool) {
    let mut r = [0; 4]; let mut c = 0u128;
    for i in 0..4 { c += a[i] as u128 + b[i] as u128; r[i] = c as u64; c >>= 64; }
    (r, c != 0)
}
fn add_mod(a: L4, b: L4, p: &L4) -> L4 { let (r, c) = add_raw(&a, &b); if c || geq(&r, p) { sub_raw(&r, p).0 } else { r } }
fn mont_mul(a: &L4, b: &L4, q: &Params) -> L4 {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c; t[j] = v as u64; c = v >> 64; }
        let v = t[4] as u128 + c; t[4] = v as u64; t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(q.inv);
        let v = t[0] as u128 + m as u128 * q.p[0] as u128; let mut c = v >> 64;
        for j in 1..4 { let v = t[j] as u128 + m as u128 * q.p[j] as u128 + c; t[j - 1] = v as u64; c = v >> 64; }
        let v = t[4] as u128 + c; t[3] = v as u64; t[4] = t[5] + (v >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &q.p) { sub_raw(&r, &q.p).0 } else { r }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> Default for BigInt<N> { fn default() -> Self { BigInt([0; N]) } }
pub type BigInteger256 = BigInt<4>;
impl<const N: usize> fmt::Debug for BigInt<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) } }
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl<const N: usize> BigInt<N> {
    pub const fn new(v: [u64; N]) -> Self { Self(v) }
}
pub trait BigInteger: Copy + Clone + fmt::Debug + Eq + Ord + AsRef<[u64]> {
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
}
impl<const N: usize> BigInteger for BigInt<N> {
    fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|l| l.to_le_bytes()).collect() }
    fn is_zero(&self) -> bool { self.0.iter().all(|l| *l == 0) }
    fn num_bits(&self) -> u32 { for i in (0..N).rev() { if self.0[i] != 0 { return 64 * i as u32 + 64 - self.0[i].leading_zeros(); } } 0 }
    fn get_bit(&self, i: usize) -> bool { i < 64 * N && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Fr(pub(crate) L4);

impl Fr {
    pub const fn zero_const() -> Self { Fr([0; 4]) }
    pub fn modulus_limbs() -> L4 { params().p }
    pub fn is_toy() -> bool { params().small.is_some() }
    pub fn limbs(&self) -> L4 { self.0 }
    pub fn to_le(&self) -> [u8; 32] { let mut b = [0; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes()); } b }
    pub fn to_u64(&self) -> u64 { self.0[0] }
    pub fn from_le_checked(b: &[u8; 32]) -> Option<Self> {
        let mut l = [0u64; 4]; for i in 0..4 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        if geq(&l, &params().p) { None } else { Some(Fr(l)) }
    }
    fn from_digits<I: Iterator<Item = u8>>(it: I, base: u64) -> Self { let mut a = Fr::default(); let b = Fr::from(base); for d in it { a = a * b + Fr::from(d as u64); } a }
    pub fn root_of_unity(n: u64) -> Option<Self> {
        let q = params(); let lg = n.trailing_zeros();
        if !n.is_power_of_two() || lg > q.two_adicity { return None; }
        // g^((p-1)/n)
        let mut e = sub_raw(&q.p, &[1, 0, 0, 0]).0;
        for _ in 0..lg { for i in 0..4 { e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 }; } }
        Some(Field::pow(&Fr::from(q.gen), e))
    }
    pub fn to_dec(&self) -> String {
        let mut v = self.0; let mut out = vec![];
        if v == [0; 4] { return "0".into(); }
        while v != [0; 4] { let mut r = 0u128; for i in (0..4).rev() { let c = (r << 64) | v[i] as u128; v[i] = (c / 10) as u64; r = c % 10; } out.push(b'0' + r as u8); }
        out.reverse(); String::from_utf8(out).unwrap()
    }
}
impl fmt::Debug for Fr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.to_dec()) } }
impl fmt::Display for Fr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.to_dec()) } }
impl Add for Fr { type Output = Fr; fn add(self, o: Fr) -> Fr { Fr(add_mod(self.0, o.0, &params().p)) } }
impl Sub for Fr { type Output = Fr; fn sub(self, o: Fr) -> Fr { let (r, b) = sub_raw(&self.0, &o.0); Fr(if b { add_raw(&r, &params().p).0 } else { r }) } }
impl Mul for Fr { type Output = Fr; fn mul(self, o: Fr) -> Fr {
    let q = params();
    if let Some(p) = q.small { return Fr([((self.0[0] as u128 * o.0[0] as u128) % p as u128) as u64, 0, 0, 0]); }
    Fr(mont_mul(&mont_mul(&self.0, &o.0, q), &q.r2, q))
} }
impl Div for Fr { type Output = Fr; fn div(self, o: Fr) -> Fr { self * Field::inverse(&o).expect("division by zero") } }
impl Neg for Fr { type Output = Fr; fn neg(self) -> Fr { Fr::default() - self } }
macro_rules! refs { ($($t:ident $m:ident $ta:ident $ma:ident),*) => { $(
    impl<'a> $t<&'a Fr> for Fr { type Output = Fr; fn $m(self, o: &'a Fr) -> Fr { $t::$m(self, *o) } }
    impl<'a> $t<Fr> for &'a Fr { type Output = Fr; fn $m(self, o: Fr) -> Fr { $t::$m(*self, o) } }
    impl<'a, 'b> $t<&'b Fr> for &'a Fr { type Output = Fr; fn $m(self, o: &'b Fr) -> Fr { $t::$m(*self, *o) } }
    impl<'a> $t<&'a mut Fr> for Fr { type Output = Fr; fn $m(self, o: &'a mut Fr) -> Fr { $t::$m(self, *o) } }
    impl $ta for Fr { fn $ma(&mut self, o: Fr) { *self = $t::$m(*self, o) } }
    impl<'a> $ta<&'a Fr> for Fr { fn $ma(&mut self, o: &'a Fr) { *self = $t::$m(*self, *o) } }
    impl<'a> $ta<&'a mut Fr> for Fr { fn $ma(&mut self, o: &'a mut Fr) { *self = $t::$m(*self, *o) } }
)* } }
refs!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign);
impl<'a> Neg for &'a Fr { type Output = Fr; fn neg(self) -> Fr { -*self } }
impl Sum for Fr { fn sum<I: Iterator<Item = Fr>>(i: I) -> Fr { i.fold(Fr::default(), |a, b| a + b) } }
impl<'a> Sum<&'a Fr> for Fr { fn sum<I: Iterator<Item = &'a Fr>>(i: I) -> Fr { i.fold(Fr::default(), |a, b| a + *b) } }
impl Product for Fr { fn product<I: Iterator<Item = Fr>>(i: I) -> Fr { i.fold(Fr::from(1u64), |a, b| a * b) } }
impl<'a> Product<&'a Fr> for Fr { fn product<I: Iterator<Item = &'a Fr>>(i: I) -> Fr { i.fold(Fr::from(1u64), |a, b| a * *b) } }
impl From<u128> for Fr { fn from(v: u128) -> Fr {
    let l = [v as u64, (v >> 64) as u64, 0, 0];
    match params().small { Some(p) => Fr([(v % p as u128) as u64, 0, 0, 0]), None => Fr(l) }
} }
impl From<i128> for Fr { fn from(v: i128) -> Fr { let a = Fr::from(v.unsigned_abs()); if v < 0 { -a } else { a } } }
macro_rules! from_u { ($($t:ty),*) => { $(impl From<$t> for Fr { fn from(v: $t) -> Fr { Fr::from(v as u128) } })* } }
macro_rules! from_i { ($($t:ty),*) => { $(impl From<$t> for Fr { fn from(v: $t) -> Fr { Fr::from(v as i128) } })* } }
from_u!(u8, u16, u32, u64, bool); from_i!(i8, i16, i32, i64);
impl From<Fr> for BigInteger256 { fn from(f: Fr) -> Self { BigInt(f.0) } }
impl From<BigInteger256> for Fr { fn from(f: BigInteger256) -> Self { Fr::from_bigint(f).unwrap() } }
impl FromStr for Fr {
    type Err = ();
    // as ark-ff: a decimal integer with an optional sign, reduced modulo the field
    fn from_str(s: &str) -> Result<Fr, ()> {
        let (neg, d) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
        if d.is_empty() || d.starts_with('_') { return Err(()); }
        if !d.bytes().all(|c| c.is_ascii_digit() || c == b'_') { return Err(()); }
        let v = Fr::from_digits(d.bytes().filter(|c| *c != b'_').map(|c| c - b'0'), 10);
        Ok(if neg { -v } else { v })
    }
}

pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Self::zero() } }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() } fn set_one(&mut self) { *self = Self::one() } }
impl Zero for Fr { fn zero() -> Fr { Fr([0; 4]) } fn is_zero(&self) -> bool { self.0 == [0; 4] } }
impl One for Fr { fn one() -> Fr { Fr([1, 0, 0, 0]) } }

pub trait UniformRand: Sized { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self; }
impl UniformRand for Fr {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
        let q = params();
        let f = match q.small {
            // toy field: never 0, so that delta is invertible
            Some(p) => Fr([1 + rng.next_u64() % (p - 1), 0, 0, 0]),
            None => loop { let mut b = [0u8; 32]; rng.fill_bytes(&mut b); b[31] &= 0x3f; if let Some(f) = Fr::from_le_checked(&b) { break f; } },
        };
        crate::trace::sampled_push(f);
        f
    }
}
macro_rules! ur { ($($t:ty),*) => { $(impl UniformRand for $t { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.gen() } })* } }
ur!(u8, u16, u32, u64, u128, bool);

pub trait AdditiveGroup: Eq + Sized + Copy + Clone + Default + Send + Sync + fmt::Debug + fmt::Display + Zero + Neg<Output = Self> + UniformRand
    + CanonicalSerialize + CanonicalDeserialize
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self::Scalar, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self::Scalar>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self::Scalar, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self::Scalar>
    + Sum<Self> + for<'a> Sum<&'a Self> + 'static
{
    type Scalar: Field;
    const ZERO: Self;
    fn double(&self) -> Self { *self + *self }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn neg_in_place(&mut self) -> &mut Self { *self = -*self; self }
}
impl AdditiveGroup for Fr { type Scalar = Fr; const ZERO: Fr = Fr([0; 4]); }

pub trait Field: AdditiveGroup<Scalar = Self> + One + std::hash::Hash + Ord + Product<Self> + for<'a> Product<&'a Self>
    + Div<Self, Output = Self> + DivAssign<Self> + for<'a> Div<&'a Self, Output = Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
    + From<i128> + From<i64> + From<i32> + From<i16> + From<i8>
{
    type BasePrimeField: PrimeField;
    const ONE: Self;
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { match self.inverse() { Some(i) => { *self = i; Some(self) } None => None } }
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut r = Self::one();
        for l in e.as_ref().iter().rev() { for i in (0..64).rev() { r = r * r; if (l >> i) & 1 == 1 { r = r * *self; } } }
        r
    }
    fn characteristic() -> &'static [u64];
}
impl Field for Fr {
    type BasePrimeField = Fr;
    const ONE: Fr = Fr([1, 0, 0, 0]);
    fn inverse(&self) -> Option<Fr> { if Zero::is_zero(self) { None } else { Some(Field::pow(self, sub_raw(&params().p, &[2, 0, 0, 0]).0)) } }
    fn characteristic() -> &'static [u64] { &params().p }
}
pub trait FftField: Field { fn get_root_of_unity(n: u64) -> Option<Self>; }
impl FftField for Fr { fn get_root_of_unity(n: u64) -> Option<Fr> { Fr::root_of_unity(n) } }
pub trait PrimeField: Field<BasePrimeField = Self> + FftField + FromStr + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(r: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self;
}
impl PrimeField for Fr {
    type BigInt = BigInteger256;
    const MODULUS: BigInteger256 = BigInt(BN254_R);
    const MODULUS_BIT_SIZE: u32 = 254;
    fn from_bigint(r: BigInteger256) -> Option<Fr> { if geq(&r.0, &params().p) { None } else { Some(Fr(r.0)) } }
    fn into_bigint(self) -> BigInteger256 { BigInt(self.0) }
    fn from_le_bytes_mod_order(b: &[u8]) -> Fr { Fr::from_digits(b.iter().rev().copied(), 256) }
    fn from_be_bytes_mod_order(b: &[u8]) -> Fr { Fr::from_digits(b.iter().copied(), 256) }
}
pub fn batch_inversion<F: Field>(v: &mut [F]) { for x in v.iter_mut() { if let Some(i) = x.inverse() { *x = i; } } }

impl CanonicalSerialize for Fr {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { w.write_all(&self.to_le())?; Ok(()) }
    fn serialized_size(&self, _: Compress) -> usize { 32 }
}
impl Valid for Fr { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl CanonicalDeserialize for Fr {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32]; r.read_exact(&mut b)?;
        Fr::from_le_checked(&b).ok_or(SerializationError::InvalidData)
    }
}
