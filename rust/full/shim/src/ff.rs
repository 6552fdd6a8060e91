//! ark-ff: prime fields of four limbs in Montgomery form, and their traits.
use crate::ser::*;
pub use num_traits::{One, Zero};
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::*;

pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
impl<T> UniformRand for T
where
    Standard: Distribution<T>,
{
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
        rng.sample(Standard)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> Default for BigInt<N> {
    fn default() -> Self {
        Self([0; N])
    }
}
impl<const N: usize> BigInt<N> {
    pub const fn new(v: [u64; N]) -> Self {
        Self(v)
    }
}
impl<const N: usize> PartialOrd for BigInt<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for BigInt<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl<const N: usize> AsRef<[u64]> for BigInt<N> {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl<const N: usize> From<u64> for BigInt<N> {
    fn from(v: u64) -> Self {
        let mut o = [0; N];
        o[0] = v;
        Self(o)
    }
}
impl<const N: usize> Display for BigInt<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&decimal(&self.0))
    }
}
fn decimal(l: &[u64]) -> String {
    let mut l = l.to_vec();
    let mut d = vec![];
    while l.iter().any(|x| *x != 0) {
        let mut r = 0u128;
        for x in l.iter_mut().rev() {
            let t = (r << 64) | *x as u128;
            *x = (t / 10) as u64;
            r = t % 10;
        }
        d.push(b'0' + r as u8);
    }
    if d.is_empty() {
        d.push(b'0');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
pub trait BigInteger: Copy + Debug + Ord + Hash + Default + AsRef<[u64]> + From<u64> + Send + Sync + 'static {
    fn to_bytes_le(&self) -> Vec<u8> {
        self.as_ref().iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn num_bits(&self) -> u32 {
        self.as_ref().iter().enumerate().rev().find(|(_, x)| **x != 0).map(|(i, x)| 64 * i as u32 + 64 - x.leading_zeros()).unwrap_or(0)
    }
    fn get_bit(&self, i: usize) -> bool {
        self.as_ref().get(i / 64).is_some_and(|x| x >> (i % 64) & 1 == 1)
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..64 * self.as_ref().len()).map(|i| self.get_bit(i)).collect()
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let mut v = self.to_bits_le();
        v.reverse();
        v
    }
    fn is_zero(&self) -> bool {
        self.as_ref().iter().all(|x| *x == 0)
    }
    fn is_even(&self) -> bool {
        !self.get_bit(0)
    }
    fn is_odd(&self) -> bool {
        self.get_bit(0)
    }
}
impl<const N: usize> BigInteger for BigInt<N> {}
pub type BigInteger256 = BigInt<4>;

pub trait AdditiveGroup: Copy + Clone + Debug + Display + Default + Eq + Hash + Zero + UniformRand + Send + Sync + 'static + Neg<Output = Self>
    + CanonicalSerialize + CanonicalDeserialize
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + Mul<Self::Scalar, Output = Self> + for<'a> Mul<&'a Self::Scalar, Output = Self> + MulAssign<Self::Scalar> + for<'a> MulAssign<&'a Self::Scalar>
    + Sum<Self> + for<'a> Sum<&'a Self>
{
    type Scalar: Field;
    const ZERO: Self;
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
}
pub trait Field: AdditiveGroup<Scalar = Self> + One + Ord
    + Div<Self, Output = Self> + DivAssign<Self> + for<'a> Div<&'a Self, Output = Self> + for<'a> DivAssign<&'a Self>
    + Product<Self> + for<'a> Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<i128> + From<i64> + From<i32> + From<i16> + From<i8> + From<bool>
{
    type BasePrimeField: PrimeField;
    const ONE: Self;
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        *self = self.inverse()?;
        Some(self)
    }
    fn sqrt(&self) -> Option<Self>;
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut o = Self::one();
        for l in e.as_ref().iter().rev() {
            for b in (0..64).rev() {
                o = o.square();
                if l >> b & 1 == 1 {
                    o *= *self;
                }
            }
        }
        o
    }
    fn characteristic() -> &'static [u64];
    /// The value's bytes, and the size of them.
    fn sum_of_products<const T: usize>(a: &[Self; T], b: &[Self; T]) -> Self {
        a.iter().zip(b).map(|(a, b)| *a * *b).sum()
    }
    #[doc(hidden)]
    fn put(&self, out: &mut Vec<u8>);
    #[doc(hidden)]
    fn take(b: &[u8]) -> Option<Self>;
    #[doc(hidden)]
    const SIZE: usize;
}
pub trait PrimeField: Field<BasePrimeField = Self> + FftField + std::str::FromStr + From<Self::BigInt> + Into<Self::BigInt> {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(v: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        let k = Self::from(256u64);
        b.iter().fold(Self::zero(), |a, x| a * k + Self::from(*x as u64))
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        let k = Self::from(256u64);
        b.iter().rev().fold(Self::zero(), |a, x| a * k + Self::from(*x as u64))
    }
}
pub trait FftField: Field {
    const GENERATOR: Self;
    const TWO_ADICITY: u32;
    const TWO_ADIC_ROOT_OF_UNITY: Self;
    fn get_root_of_unity(n: u64) -> Option<Self> {
        let n = n.checked_next_power_of_two()?;
        let k = n.trailing_zeros();
        if k > Self::TWO_ADICITY {
            return None;
        }
        let mut w = Self::TWO_ADIC_ROOT_OF_UNITY;
        for _ in k..Self::TWO_ADICITY {
            w = w.square();
        }
        Some(w)
    }
}
pub fn batch_inversion<F: Field>(v: &mut [F]) {
    for x in v {
        if let Some(i) = x.inverse() {
            *x = i;
        }
    }
}

pub trait FpConfig: 'static + Copy + Clone + Send + Sync + Eq + Hash + Debug + Default {
    const P: [u64; 4];
    const R: [u64; 4];
    const R2: [u64; 4];
    const INV: u64;
    /// Element of order 2^ADICITY, when there is one worth using.
    const ROOT: [u64; 4];
    const ADICITY: u32;
    const GEN: u64;
}
pub struct Fp<C: FpConfig>(pub(crate) [u64; 4], PhantomData<C>);
impl<C: FpConfig> Copy for Fp<C> {}
impl<C: FpConfig> Clone for Fp<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: FpConfig> PartialEq for Fp<C> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<C: FpConfig> Eq for Fp<C> {}
impl<C: FpConfig> Hash for Fp<C> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<C: FpConfig> Default for Fp<C> {
    fn default() -> Self {
        Self([0; 4], PhantomData)
    }
}
impl<C: FpConfig> Debug for Fp<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Display::fmt(self, f)
    }
}
impl<C: FpConfig> Display for Fp<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&decimal(&self.plain()))
    }
}
impl<C: FpConfig> PartialOrd for Fp<C> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<C: FpConfig> Ord for Fp<C> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        BigInt(self.plain()).cmp(&BigInt(o.plain()))
    }
}
#[inline(always)]
fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
#[inline(always)]
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        o[i] = y;
        br = b1 | b2;
    }
    o
}
#[inline(always)]
fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut o = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c as u64);
        o[i] = y;
        c = c1 | c2;
    }
    o
}
impl<C: FpConfig> Fp<C> {
    #[inline(always)]
    pub const fn raw(v: [u64; 4]) -> Self {
        Self(v, PhantomData)
    }
    #[inline]
    fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let m = t[0].wrapping_mul(C::INV);
            let mut c = (t[0] as u128 + m as u128 * C::P[0] as u128) >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + m as u128 * C::P[j] as u128 + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5].wrapping_add((v >> 64) as u64);
        }
        let o = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&o, &C::P) {
            sub4(&o, &C::P)
        } else {
            o
        }
    }
    /// From the plain value, which has to be below the modulus.
    pub fn of(v: [u64; 4]) -> Self {
        Self::raw(Self::mont(&v, &C::R2))
    }
    pub fn plain(&self) -> [u64; 4] {
        Self::mont(&self.0, &[1, 0, 0, 0])
    }
}
macro_rules! binop {
    ([$($g:tt)*] $t:ty, $o:ty, $tr:ident $f:ident $tra:ident $fa:ident) => {
        impl<$($g)*> $tr<&$o> for $t {
            type Output = $t;
            #[inline]
            fn $f(self, o: &$o) -> $t { $tr::$f(self, *o) }
        }
        impl<$($g)*> $tr<$o> for &$t {
            type Output = $t;
            #[inline]
            fn $f(self, o: $o) -> $t { $tr::$f(*self, o) }
        }
        impl<$($g)*> $tr<&$o> for &$t {
            type Output = $t;
            #[inline]
            fn $f(self, o: &$o) -> $t { $tr::$f(*self, *o) }
        }
        impl<$($g)*> $tra<$o> for $t {
            #[inline]
            fn $fa(&mut self, o: $o) { *self = $tr::$f(*self, o) }
        }
        impl<$($g)*> $tra<&$o> for $t {
            #[inline]
            fn $fa(&mut self, o: &$o) { *self = $tr::$f(*self, *o) }
        }
    };
}
pub(crate) use binop;
macro_rules! sums {
    ([$($g:tt)*] $t:ty, $zero:expr, $tr:ident $f:ident, $op:ident) => {
        impl<$($g)*> $tr<$t> for $t {
            fn $f<I: Iterator<Item = $t>>(i: I) -> $t { i.fold($zero, |a, b| a.$op(b)) }
        }
        impl<'a, $($g)*> $tr<&'a $t> for $t {
            fn $f<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold($zero, |a, b| a.$op(*b)) }
        }
    };
}
pub(crate) use sums;
impl<C: FpConfig> Add for Fp<C> {
    type Output = Self;
    #[inline]
    fn add(self, o: Self) -> Self {
        let s = add4(&self.0, &o.0);
        Self::raw(if geq(&s, &C::P) { sub4(&s, &C::P) } else { s })
    }
}
impl<C: FpConfig> Sub for Fp<C> {
    type Output = Self;
    #[inline]
    fn sub(self, o: Self) -> Self {
        Self::raw(if geq(&self.0, &o.0) { sub4(&self.0, &o.0) } else { sub4(&add4(&self.0, &C::P), &o.0) })
    }
}
impl<C: FpConfig> Mul for Fp<C> {
    type Output = Self;
    #[inline]
    fn mul(self, o: Self) -> Self {
        Self::raw(Self::mont(&self.0, &o.0))
    }
}
impl<C: FpConfig> Div for Fp<C> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inverse().expect("division by zero")
    }
}
impl<C: FpConfig> Neg for Fp<C> {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self {
        Self::default() - self
    }
}
binop!([C: FpConfig] Fp<C>, Fp<C>, Add add AddAssign add_assign);
binop!([C: FpConfig] Fp<C>, Fp<C>, Sub sub SubAssign sub_assign);
binop!([C: FpConfig] Fp<C>, Fp<C>, Mul mul MulAssign mul_assign);
binop!([C: FpConfig] Fp<C>, Fp<C>, Div div DivAssign div_assign);
sums!([C: FpConfig] Fp<C>, Fp::<C>::default(), Sum sum, add);
sums!([C: FpConfig] Fp<C>, Fp::<C>::ONE, Product product, mul);
impl<C: FpConfig> Zero for Fp<C> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl<C: FpConfig> One for Fp<C> {
    fn one() -> Self {
        Self::raw(C::R)
    }
    fn is_one(&self) -> bool {
        self.0 == C::R
    }
}
impl<C: FpConfig> AdditiveGroup for Fp<C> {
    type Scalar = Self;
    const ZERO: Self = Self::raw([0; 4]);
}
macro_rules! from_u { ($($t:ty)*) => {$(impl<C: FpConfig> From<$t> for Fp<C> { fn from(v: $t) -> Self { let v = v as u128; Self::of([v as u64, (v >> 64) as u64, 0, 0]) } })*} }
from_u!(u8 u16 u32 u64 u128 bool);
macro_rules! from_i { ($($t:ty)*) => {$(impl<C: FpConfig> From<$t> for Fp<C> { fn from(v: $t) -> Self { let a = Self::from(v.unsigned_abs()); if v < 0 { -a } else { a } } })*} }
from_i!(i8 i16 i32 i64 i128);
impl<C: FpConfig> Field for Fp<C> {
    type BasePrimeField = Self;
    const ONE: Self = Self::raw(C::R);
    const SIZE: usize = 32;
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        // Binary extended Euclid; starting from R^2 keeps the result in Montgomery form.
        let half = |x: &[u64; 4]| {
            let mut o = [0; 4];
            for i in 0..4 {
                o[i] = x[i] >> 1 | if i < 3 { x[i + 1] << 63 } else { 0 };
            }
            o
        };
        let (mut u, mut v, mut b, mut c) = (self.0, C::P, Self::raw(C::R2), Self::default());
        let one = [1, 0, 0, 0];
        while u != one && v != one {
            while u[0] & 1 == 0 {
                u = half(&u);
                b.0 = half(&if b.0[0] & 1 == 0 { b.0 } else { add4(&b.0, &C::P) });
            }
            while v[0] & 1 == 0 {
                v = half(&v);
                c.0 = half(&if c.0[0] & 1 == 0 { c.0 } else { add4(&c.0, &C::P) });
            }
            if geq(&v, &u) {
                v = sub4(&v, &u);
                c = c - b;
            } else {
                u = sub4(&u, &v);
                b = b - c;
            }
        }
        Some(if u == one { b } else { c })
    }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        if C::P[0] & 3 == 3 {
            let mut e = add4(&C::P, &[1, 0, 0, 0]);
            for _ in 0..2 {
                for i in 0..4 {
                    e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 };
                }
            }
            let s = self.pow(e);
            return (s.square() == *self).then_some(s);
        }
        // Tonelli-Shanks
        let mut q = sub4(&C::P, &[1, 0, 0, 0]);
        for _ in 0..C::ADICITY {
            for i in 0..4 {
                q[i] = q[i] >> 1 | if i < 3 { q[i + 1] << 63 } else { 0 };
            }
        }
        let mut h = q;
        for i in 0..4 {
            h[i] = h[i] >> 1 | if i < 3 { h[i + 1] << 63 } else { 0 };
        }
        let w = self.pow(h);
        let (mut x, mut b, mut z, mut v) = (w * *self, w.square() * *self, Self::of(C::ROOT), C::ADICITY);
        while !b.is_one() {
            let (mut k, mut t) = (0, b);
            while !t.is_one() {
                t = t.square();
                k += 1;
                if k == v {
                    return None;
                }
            }
            let mut g = z;
            for _ in 0..v - k - 1 {
                g = g.square();
            }
            x *= g;
            z = g.square();
            b *= z;
            v = k;
        }
        (x.square() == *self).then_some(x)
    }
    fn characteristic() -> &'static [u64] {
        &C::P
    }
    fn put(&self, out: &mut Vec<u8>) {
        for l in self.plain() {
            out.extend_from_slice(&l.to_le_bytes());
        }
    }
    fn take(b: &[u8]) -> Option<Self> {
        let mut l = [0; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        (!geq(&l, &C::P)).then(|| Self::of(l))
    }
}
impl<C: FpConfig> PrimeField for Fp<C> {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(C::P);
    const MODULUS_BIT_SIZE: u32 = 256 - C::P[3].leading_zeros();
    fn from_bigint(v: BigInt<4>) -> Option<Self> {
        (!geq(&v.0, &C::P)).then(|| Self::of(v.0))
    }
    fn into_bigint(self) -> BigInt<4> {
        BigInt(self.plain())
    }
}
impl<C: FpConfig> FftField for Fp<C> {
    const GENERATOR: Self = Self::raw(const_mont(&[C::GEN, 0, 0, 0], &C::R2, &C::P, C::INV));
    const TWO_ADICITY: u32 = C::ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = Self::raw(C::ROOT_MONT);
}
/// The root in Montgomery form, at compile time.
trait RootMont {
    const ROOT_MONT: [u64; 4];
}
impl<C: FpConfig> RootMont for C {
    const ROOT_MONT: [u64; 4] = const_mont(&C::ROOT, &C::R2, &C::P, C::INV);
}
const fn const_mont(a: &[u64; 4], b: &[u64; 4], p: &[u64; 4], inv: u64) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
            t[j] = v as u64;
            c = v >> 64;
            j += 1;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(inv);
        let mut c = (t[0] as u128 + m as u128 * p[0] as u128) >> 64;
        let mut j = 1;
        while j < 4 {
            let v = t[j] as u128 + m as u128 * p[j] as u128 + c;
            t[j - 1] = v as u64;
            c = v >> 64;
            j += 1;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
        i += 1;
    }
    // One conditional subtraction.
    let mut o = [0u64; 4];
    let mut br = 0u64;
    let mut k = 0;
    while k < 4 {
        let (x, b1) = t[k].overflowing_sub(p[k]);
        let (y, b2) = x.overflowing_sub(br);
        o[k] = y;
        br = (b1 | b2) as u64;
        k += 1;
    }
    if br == 1 {
        [t[0], t[1], t[2], t[3]]
    } else {
        o
    }
}
impl<C: FpConfig> From<BigInt<4>> for Fp<C> {
    fn from(v: BigInt<4>) -> Self {
        Self::from_bigint(v).expect("not below the modulus")
    }
}
impl<C: FpConfig> From<Fp<C>> for BigInt<4> {
    fn from(v: Fp<C>) -> Self {
        v.into_bigint()
    }
}
/// As num-bigint reads integers: an optional sign, then digits, underscores allowed between them.
impl<C: FpConfig> std::str::FromStr for Fp<C> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let (neg, d) = match s.as_bytes().first() {
            Some(b'-') => (true, &s[1..]),
            Some(b'+') => (false, &s[1..]),
            _ => (false, s),
        };
        if d.is_empty() || d.starts_with('_') || !d.bytes().all(|b| b.is_ascii_digit() || b == b'_') {
            return Err(());
        }
        let ten = Self::from(10u64);
        let v = d.bytes().filter(|b| *b != b'_').fold(Self::zero(), |a, b| a * ten + Self::from((b - b'0') as u64));
        Ok(if neg { -v } else { v })
    }
}
impl<C: FpConfig> Distribution<Fp<C>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Fp<C> {
        loop {
            let mut l = [r.next_u64(), r.next_u64(), r.next_u64(), r.next_u64()];
            l[3] &= u64::MAX >> C::P[3].leading_zeros();
            if !geq(&l, &C::P) {
                return Fp::raw(l);
            }
        }
    }
}
impl<C: FpConfig> CanonicalSerialize for Fp<C> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> {
        let mut v = vec![];
        self.put(&mut v);
        Ok(w.write_all(&v)?)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        32
    }
}
impl<C: FpConfig> Valid for Fp<C> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<C: FpConfig> CanonicalDeserialize for Fp<C> {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0; 32];
        r.read_exact(&mut b)?;
        Self::take(&b).ok_or(SerializationError::InvalidData)
    }
}
impl<C: FpConfig> num_traits::Inv for Fp<C> {
    type Output = Option<Self>;
    fn inv(self) -> Option<Self> {
        self.inverse()
    }
}
/// The element a decimal literal names.
#[macro_export]
macro_rules! MontFp {
    ($s:expr) => {
        $s.parse().ok().expect("a field element")
    };
}
