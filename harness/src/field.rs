//! Small prime fields and a "transparent" toy curve (the additive group Z_p, discrete
//! logarithms visible).  halo2_proofs is generic over these, so the real prover, verifier,
//! key generation, FFTs, ... run over values that TLC can compute with exactly.
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use ff::{Field, FieldBits, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub const fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
const fn two_adicity(p: u64) -> u32 {
    let mut s = 0;
    let mut q = p - 1;
    while q % 2 == 0 {
        q /= 2;
        s += 1;
    }
    s
}
const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

pub trait Small: PrimeField {
    fn get(&self) -> u64;
    const P: u64;
}

#[macro_export]
macro_rules! small_field {
    ($F:ident, $p:expr, $g:expr, $modstr:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
        pub struct $F(pub u64);
        impl fmt::Debug for $F {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x{:08x}", self.0)
            }
        }
        impl Small for $F {
            const P: u64 = $p;
            fn get(&self) -> u64 {
                self.0
            }
        }
        impl From<u64> for $F {
            fn from(v: u64) -> Self {
                $F(v % $p)
            }
        }
        impl From<bool> for $F {
            fn from(v: bool) -> Self {
                $F(v as u64)
            }
        }
        impl ConditionallySelectable for $F {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $F(u64::conditional_select(&a.0, &b.0, c))
            }
        }
        impl ConstantTimeEq for $F {
            fn ct_eq(&self, o: &Self) -> Choice {
                self.0.ct_eq(&o.0)
            }
        }
        impl Neg for $F {
            type Output = $F;
            fn neg(self) -> $F {
                $F(if self.0 == 0 { 0 } else { $p - self.0 })
            }
        }
        impl Neg for &$F {
            type Output = $F;
            fn neg(self) -> $F {
                -*self
            }
        }
        small_field!(@bin $F, Add, add, AddAssign, add_assign, |a: u64, b: u64| (a + b) % $p);
        small_field!(@bin $F, Sub, sub, SubAssign, sub_assign, |a: u64, b: u64| (a + $p - b) % $p);
        small_field!(@bin $F, Mul, mul, MulAssign, mul_assign, |a: u64, b: u64| (a * b) % $p);
        impl Sum for $F {
            fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
                it.fold($F(0), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $F> for $F {
            fn sum<I: Iterator<Item = &'a $F>>(it: I) -> Self {
                it.fold($F(0), |a, b| a + b)
            }
        }
        impl Product for $F {
            fn product<I: Iterator<Item = Self>>(it: I) -> Self {
                it.fold($F(1), |a, b| a * b)
            }
        }
        impl<'a> Product<&'a $F> for $F {
            fn product<I: Iterator<Item = &'a $F>>(it: I) -> Self {
                it.fold($F(1), |a, b| a * b)
            }
        }
        impl Field for $F {
            const ZERO: Self = $F(0);
            const ONE: Self = $F(1);
            fn random(mut rng: impl RngCore) -> Self {
                $F(rng.next_u64() % $p)
            }
            fn square(&self) -> Self {
                *self * *self
            }
            fn double(&self) -> Self {
                *self + *self
            }
            fn invert(&self) -> CtOption<Self> {
                CtOption::new($F(powmod(self.0, $p - 2, $p)), Choice::from((self.0 != 0) as u8))
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                ff::helpers::sqrt_ratio_generic(num, div)
            }
            fn sqrt(&self) -> CtOption<Self> {
                // brute force is fine: only ever used on tiny fields
                ff::helpers::sqrt_tonelli_shanks(
                    self,
                    &[((($p - 1) >> two_adicity($p)) - 1) / 2],
                )
            }
        }
        impl PrimeField for $F {
            type Repr = [u8; 32];
            fn from_repr(r: [u8; 32]) -> CtOption<Self> {
                let mut b = [0u8; 8];
                b.copy_from_slice(&r[..8]);
                let v = u64::from_le_bytes(b);
                let ok = v < $p && r[8..].iter().all(|x| *x == 0);
                CtOption::new($F(v % $p), Choice::from(ok as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let mut r = [0u8; 32];
                r[..8].copy_from_slice(&self.0.to_le_bytes());
                r
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.0 & 1) as u8)
            }
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = nbits($p);
            const CAPACITY: u32 = nbits($p) - 1;
            const TWO_INV: Self = $F(($p + 1) / 2);
            const MULTIPLICATIVE_GENERATOR: Self = $F($g);
            const S: u32 = two_adicity($p);
            const ROOT_OF_UNITY: Self = $F(powmod($g, ($p - 1) >> two_adicity($p), $p));
            const ROOT_OF_UNITY_INV: Self =
                $F(powmod(powmod($g, ($p - 1) >> two_adicity($p), $p), $p - 2, $p));
            const DELTA: Self = $F(powmod($g, 1 << two_adicity($p), $p));
        }
        impl WithSmallOrderMulGroup<3> for $F {
            const ZETA: Self = $F(powmod($g, ($p - 1) / 3, $p));
        }
        impl FromUniformBytes<64> for $F {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut acc = 0u64;
                for x in b.iter().rev() {
                    acc = (acc * 256 + *x as u64) % $p;
                }
                $F(acc)
            }
        }
        impl PrimeFieldBits for $F {
            type ReprBits = [u8; 32];
            fn to_le_bits(&self) -> FieldBits<[u8; 32]> {
                FieldBits::new(self.to_repr())
            }
            fn char_le_bits() -> FieldBits<[u8; 32]> {
                let mut r = [0u8; 32];
                let p: u64 = $p;
                r[..8].copy_from_slice(&p.to_le_bytes());
                FieldBits::new(r)
            }
        }
    };
    (@bin $F:ident, $Op:ident, $op:ident, $OpA:ident, $opa:ident, $f:expr) => {
        impl $Op for $F {
            type Output = $F;
            fn $op(self, o: $F) -> $F {
                $F(($f)(self.0, o.0))
            }
        }
        impl<'a> $Op<&'a $F> for $F {
            type Output = $F;
            fn $op(self, o: &'a $F) -> $F {
                $F(($f)(self.0, o.0))
            }
        }
        impl<'a> $Op<$F> for &'a $F {
            type Output = $F;
            fn $op(self, o: $F) -> $F {
                $F(($f)(self.0, o.0))
            }
        }
        impl<'a, 'b> $Op<&'b $F> for &'a $F {
            type Output = $F;
            fn $op(self, o: &'b $F) -> $F {
                $F(($f)(self.0, o.0))
            }
        }
        impl $OpA for $F {
            fn $opa(&mut self, o: $F) {
                *self = $F(($f)(self.0, o.0));
            }
        }
        impl<'a> $OpA<&'a $F> for $F {
            fn $opa(&mut self, o: &'a $F) {
                *self = $F(($f)(self.0, o.0));
            }
        }
    };
}

/// The additive group of the field itself: point `v` is `v * G`, with generator 1.
/// Its "affine coordinates" are (v^2, v), so that -P has the same x and the negated y.
#[macro_export]
macro_rules! toy_curve {
    ($C:ident, $A:ident, $F:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, Default)]
        pub struct $C(pub $F);
        #[derive(Clone, Copy, PartialEq, Eq, Default)]
        pub struct $A(pub $F);
        impl fmt::Debug for $C {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "<{}>", self.0 .0)
            }
        }
        impl fmt::Debug for $A {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "<{}>", self.0 .0)
            }
        }
        impl From<$A> for $C {
            fn from(a: $A) -> $C {
                $C(a.0)
            }
        }
        impl From<$C> for $A {
            fn from(a: $C) -> $A {
                $A(a.0)
            }
        }
        toy_curve!(@sel $C);
        toy_curve!(@sel $A);
        toy_curve!(@bin $C, $C, $C);
        toy_curve!(@bin $C, $A, $C);
        toy_curve!(@bin $A, $A, $C);
        toy_curve!(@bin $A, $C, $C);
        toy_curve!(@asg $C, $C);
        toy_curve!(@asg $C, $A);
        toy_curve!(@mul $C, $F, $C);
        toy_curve!(@mul $A, $F, $C);
        impl MulAssign<$F> for $C {
            fn mul_assign(&mut self, o: $F) {
                self.0 *= o;
            }
        }
        impl<'a> MulAssign<&'a $F> for $C {
            fn mul_assign(&mut self, o: &'a $F) {
                self.0 *= *o;
            }
        }
        impl Sum for $C {
            fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
                it.fold($C($F(0)), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $C> for $C {
            fn sum<I: Iterator<Item = &'a $C>>(it: I) -> Self {
                it.fold($C($F(0)), |a, b| a + b)
            }
        }
        impl Group for $C {
            type Scalar = $F;
            fn random(rng: impl RngCore) -> Self {
                $C($F::random(rng))
            }
            fn identity() -> Self {
                $C($F(0))
            }
            fn generator() -> Self {
                $C($F(1))
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn double(&self) -> Self {
                $C(self.0 + self.0)
            }
        }
        impl Curve for $C {
            type AffineRepr = $A;
            fn to_affine(&self) -> $A {
                $A(self.0)
            }
        }
        toy_curve!(@enc $C, $F);
        toy_curve!(@enc $A, $F);
        impl PrimeGroup for $C {}
        impl PrimeCurve for $C {
            type Affine = $A;
        }
        impl PrimeCurveAffine for $A {
            type Scalar = $F;
            type Curve = $C;
            fn identity() -> Self {
                $A($F(0))
            }
            fn generator() -> Self {
                $A($F(1))
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn to_curve(&self) -> $C {
                $C(self.0)
            }
        }
        impl CurveExt for $C {
            type ScalarExt = $F;
            type Base = $F;
            type AffineExt = $A;
            const CURVE_ID: &'static str = stringify!($C);
            fn endo(&self) -> Self {
                $C(self.0 * $F::ZETA)
            }
            fn jacobian_coordinates(&self) -> ($F, $F, $F) {
                (self.0 * self.0, self.0, $F(1))
            }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |m| {
                    let h = blake2b_simd::Params::new()
                        .hash_length(64)
                        .to_state()
                        .update(domain_prefix.as_bytes())
                        .update(&[0])
                        .update(m)
                        .finalize();
                    let s = $F::from_uniform_bytes(h.as_array());
                    $C(if s.0 == 0 { $F(1) } else { s })
                })
            }
            fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            fn a() -> $F {
                $F(0)
            }
            fn b() -> $F {
                $F(0)
            }
            fn new_jacobian(x: $F, y: $F, _z: $F) -> CtOption<Self> {
                CtOption::new($C(y), Choice::from((x == y * y) as u8))
            }
        }
        impl CurveAffine for $A {
            type ScalarExt = $F;
            type Base = $F;
            type CurveExt = $C;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                Coordinates::from_xy(self.0 * self.0, self.0)
            }
            fn from_xy(x: $F, y: $F) -> CtOption<Self> {
                CtOption::new($A(y), Choice::from((y.0 != 0 && x == y * y) as u8))
            }
            fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            fn a() -> $F {
                $F(0)
            }
            fn b() -> $F {
                $F(0)
            }
        }
    };
    (@sel $T:ident) => {
        impl ConditionallySelectable for $T {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $T(ConditionallySelectable::conditional_select(&a.0, &b.0, c))
            }
        }
        impl ConstantTimeEq for $T {
            fn ct_eq(&self, o: &Self) -> Choice {
                self.0.ct_eq(&o.0)
            }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                $T(-self.0)
            }
        }
    };
    (@bin $L:ident, $R:ident, $O:ident) => {
        impl Add<$R> for $L {
            type Output = $O;
            fn add(self, o: $R) -> $O {
                $O(self.0 + o.0)
            }
        }
        impl<'a> Add<&'a $R> for $L {
            type Output = $O;
            fn add(self, o: &'a $R) -> $O {
                $O(self.0 + o.0)
            }
        }
        impl Sub<$R> for $L {
            type Output = $O;
            fn sub(self, o: $R) -> $O {
                $O(self.0 - o.0)
            }
        }
        impl<'a> Sub<&'a $R> for $L {
            type Output = $O;
            fn sub(self, o: &'a $R) -> $O {
                $O(self.0 - o.0)
            }
        }
    };
    (@asg $L:ident, $R:ident) => {
        impl AddAssign<$R> for $L {
            fn add_assign(&mut self, o: $R) {
                self.0 += o.0;
            }
        }
        impl<'a> AddAssign<&'a $R> for $L {
            fn add_assign(&mut self, o: &'a $R) {
                self.0 += o.0;
            }
        }
        impl SubAssign<$R> for $L {
            fn sub_assign(&mut self, o: $R) {
                self.0 -= o.0;
            }
        }
        impl<'a> SubAssign<&'a $R> for $L {
            fn sub_assign(&mut self, o: &'a $R) {
                self.0 -= o.0;
            }
        }
    };
    (@mul $L:ident, $F:ident, $O:ident) => {
        impl Mul<$F> for $L {
            type Output = $O;
            fn mul(self, o: $F) -> $O {
                $O(self.0 * o)
            }
        }
        impl<'a> Mul<&'a $F> for $L {
            type Output = $O;
            fn mul(self, o: &'a $F) -> $O {
                $O(self.0 * *o)
            }
        }
    };
    (@enc $T:ident, $F:ident) => {
        impl GroupEncoding for $T {
            type Repr = [u8; 32];
            fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                $F::from_repr(*b).map($T)
            }
            fn from_bytes_unchecked(b: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(b)
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.0.to_repr()
            }
        }
    };
}

// 15 * 2^27 + 1: the largest NTT-friendly prime below 2^31 with 3 | p-1 (fits TLC's integers)
small_field!(BB, 2013265921u64, 31u64, "0x78000001");
toy_curve!(CBB, ABB, BB);
// small fields, for exhaustive enumeration
small_field!(F97, 97u64, 5u64, "0x61");
toy_curve!(C97, A97, F97);
small_field!(F7681, 7681u64, 17u64, "0x1e01");
toy_curve!(C7681, A7681, F7681);
