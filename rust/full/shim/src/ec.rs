//! ark-ec: short Weierstrass groups (a = 0) in Jacobian coordinates, and the pairing interface.
use crate::ff::*;
use crate::ser::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::*;

pub use crate::ff::AdditiveGroup;
pub trait PrimeGroup: AdditiveGroup<Scalar = <Self as PrimeGroup>::ScalarField> + Ord0 {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, e: impl AsRef<[u64]>) -> Self {
        let mut o = Self::zero();
        for l in e.as_ref().iter().rev() {
            for b in (0..64).rev() {
                o = o.double();
                if l >> b & 1 == 1 {
                    o += *self;
                }
            }
        }
        o
    }
}
#[doc(hidden)]
pub trait Ord0 {}
impl<T> Ord0 for T {}
pub trait ScalarMul: PrimeGroup {
    type MulBase: Send + Sync + Copy + Eq + Debug + Mul<<Self as PrimeGroup>::ScalarField, Output = Self> + for<'a> Mul<&'a <Self as PrimeGroup>::ScalarField, Output = Self> + Neg<Output = Self::MulBase> + From<Self>;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(v: &[Self]) -> Vec<Self::MulBase> {
        v.iter().map(|x| (*x).into()).collect()
    }
    fn batch_mul(self, v: &[<Self as PrimeGroup>::ScalarField]) -> Vec<Self::MulBase> {
        v.iter().map(|s| (self * *s).into()).collect()
    }
}
pub trait VariableBaseMSM: ScalarMul {
    fn msm_unchecked(bases: &[Self::MulBase], scalars: &[<Self as PrimeGroup>::ScalarField]) -> Self {
        bases.iter().zip(scalars).map(|(b, s)| *b * *s).sum()
    }
    fn msm(bases: &[Self::MulBase], scalars: &[<Self as PrimeGroup>::ScalarField]) -> Result<Self, usize> {
        if bases.len() == scalars.len() {
            Ok(Self::msm_unchecked(bases, scalars))
        } else {
            Err(bases.len().min(scalars.len()))
        }
    }
    fn msm_bigint(bases: &[Self::MulBase], scalars: &[<<Self as PrimeGroup>::ScalarField as PrimeField>::BigInt]) -> Self {
        bases.iter().zip(scalars).map(|(b, s)| *b * <Self as PrimeGroup>::ScalarField::from_bigint(*s).unwrap()).sum()
    }
}
pub trait CurveGroup: VariableBaseMSM<MulBase = <Self as CurveGroup>::Affine> + From<<Self as CurveGroup>::Affine> + Into<<Self as CurveGroup>::Affine>
    + Add<<Self as CurveGroup>::Affine, Output = Self> + AddAssign<<Self as CurveGroup>::Affine> + Sub<<Self as CurveGroup>::Affine, Output = Self> + SubAssign<<Self as CurveGroup>::Affine>
    + Sum<<Self as CurveGroup>::Affine> + for<'a> Sum<&'a <Self as CurveGroup>::Affine>
{
    type BaseField: Field;
    type Affine: AffineRepr<ScalarField = <Self as PrimeGroup>::ScalarField, BaseField = Self::BaseField, Group = Self> + From<Self> + Into<Self>;
    fn normalize_batch(v: &[Self]) -> Vec<<Self as CurveGroup>::Affine> {
        v.iter().map(|x| (*x).into()).collect()
    }
    fn into_affine(self) -> <Self as CurveGroup>::Affine {
        self.into()
    }
}
pub trait AffineRepr: Copy + Clone + Debug + Display + Default + Eq + Hash + UniformRand + Send + Sync + 'static + CanonicalSerialize + CanonicalDeserialize
    + From<<Self as AffineRepr>::Group> + Into<<Self as AffineRepr>::Group> + Neg<Output = Self>
    + Add<Self, Output = <Self as AffineRepr>::Group> + Add<<Self as AffineRepr>::Group, Output = <Self as AffineRepr>::Group> + Sub<Self, Output = <Self as AffineRepr>::Group>
    + Mul<<Self as AffineRepr>::ScalarField, Output = <Self as AffineRepr>::Group> + for<'a> Mul<&'a <Self as AffineRepr>::ScalarField, Output = <Self as AffineRepr>::Group>
{
    type ScalarField: PrimeField;
    type BaseField: Field;
    type Group: CurveGroup<Affine = Self, BaseField = Self::BaseField, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn xy(&self) -> Option<(Self::BaseField, Self::BaseField)>;
    fn x(&self) -> Option<Self::BaseField> {
        self.xy().map(|p| p.0)
    }
    fn y(&self) -> Option<Self::BaseField> {
        self.xy().map(|p| p.1)
    }
    fn zero() -> Self;
    fn is_zero(&self) -> bool {
        self.xy().is_none()
    }
    fn generator() -> Self;
    /// The curves used have cofactor one or are only given points of the subgroup.
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor(&self) -> Self {
        *self
    }
    fn into_group(self) -> Self::Group {
        self.into()
    }
    fn mul_bigint(&self, e: impl AsRef<[u64]>) -> Self::Group {
        PrimeGroup::mul_bigint(&self.into_group(), e)
    }
}

pub trait Curve: 'static + Copy + Clone + Send + Sync + Eq + Hash + Debug + Default {
    type Base: Field;
    type S: FpConfig;
    const COFACTOR_ONE: bool;
    fn b() -> Self::Base;
    fn gen() -> (Self::Base, Self::Base);
    /// y is the larger of y and -y.
    fn negative(y: &Self::Base) -> bool {
        *y > -*y
    }
}
pub struct Affine<C: Curve> {
    pub x: C::Base,
    pub y: C::Base,
    pub infinity: bool,
}
#[derive(Debug)]
pub struct Projective<C: Curve> {
    pub x: C::Base,
    pub y: C::Base,
    pub z: C::Base,
}
impl<C: Curve> Copy for Affine<C> {}
impl<C: Curve> Clone for Affine<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: Curve> Copy for Projective<C> {}
impl<C: Curve> Clone for Projective<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: Curve> Affine<C> {
    pub fn identity() -> Self {
        Self { x: C::Base::zero(), y: C::Base::zero(), infinity: true }
    }
    pub fn new_unchecked(x: C::Base, y: C::Base) -> Self {
        Self { x, y, infinity: false }
    }
    pub fn new(x: C::Base, y: C::Base) -> Self {
        let p = Self::new_unchecked(x, y);
        assert!(p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve());
        p
    }
    pub fn is_on_curve(&self) -> bool {
        self.infinity || self.y.square() == self.x.square() * self.x + C::b()
    }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
        C::COFACTOR_ONE || Zero::is_zero(&PrimeGroup::mul_bigint(&Projective::from(*self), Fp::<C::S>::MODULUS))
    }
    /// The point with this x whose y is (or is not) the larger one.
    pub fn get_point_from_x_unchecked(x: C::Base, greatest: bool) -> Option<Self> {
        let y = (x.square() * x + C::b()).sqrt()?;
        Some(Self::new_unchecked(x, if C::negative(&y) == greatest { y } else { -y }))
    }
}
impl<C: Curve> PartialEq for Affine<C> {
    fn eq(&self, o: &Self) -> bool {
        self.infinity == o.infinity && (self.infinity || self.x == o.x && self.y == o.y)
    }
}
impl<C: Curve> Eq for Affine<C> {}
impl<C: Curve> Hash for Affine<C> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.x, self.y, self.infinity).hash(h)
    }
}
impl<C: Curve> Default for Affine<C> {
    fn default() -> Self {
        Self::identity()
    }
}
impl<C: Curve> Debug for Affine<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.infinity {
            f.write_str("infinity")
        } else {
            write!(f, "({}, {})", self.x, self.y)
        }
    }
}
impl<C: Curve> Display for Affine<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<C: Curve> Display for Projective<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(&Affine::from(*self), f)
    }
}
impl<C: Curve> PartialEq for Projective<C> {
    fn eq(&self, o: &Self) -> bool {
        if self.z.is_zero() || o.z.is_zero() {
            return self.z.is_zero() == o.z.is_zero();
        }
        let (a, b) = (self.z.square(), o.z.square());
        self.x * b == o.x * a && self.y * b * o.z == o.y * a * self.z
    }
}
impl<C: Curve> Eq for Projective<C> {}
impl<C: Curve> Hash for Projective<C> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        Affine::from(*self).hash(h)
    }
}
impl<C: Curve> Default for Projective<C> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<C: Curve> From<Affine<C>> for Projective<C> {
    fn from(a: Affine<C>) -> Self {
        if a.infinity {
            Self::ZERO
        } else {
            Self { x: a.x, y: a.y, z: C::Base::ONE }
        }
    }
}
impl<C: Curve> From<Projective<C>> for Affine<C> {
    fn from(p: Projective<C>) -> Self {
        match p.z.inverse() {
            None => Self::identity(),
            Some(i) => {
                let i2 = i.square();
                Self::new_unchecked(p.x * i2, p.y * i2 * i)
            }
        }
    }
}
impl<C: Curve> Add for Projective<C> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.z.is_zero() {
            return o;
        }
        if o.z.is_zero() {
            return self;
        }
        let (z1, z2) = (self.z.square(), o.z.square());
        let (u1, u2) = (self.x * z2, o.x * z1);
        let (s1, s2) = (self.y * z2 * o.z, o.y * z1 * self.z);
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { Self::ZERO };
        }
        let h = u2 - u1;
        let r = s2 - s1;
        let h2 = h.square();
        let h3 = h2 * h;
        let v = u1 * h2;
        let x = r.square() - h3 - v - v;
        Self { x, y: r * (v - x) - s1 * h3, z: self.z * o.z * h }
    }
}
impl<C: Curve> Neg for Projective<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { y: -self.y, ..self }
    }
}
impl<C: Curve> Sub for Projective<C> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self + -o
    }
}
impl<C: Curve> Mul<Fp<C::S>> for Projective<C> {
    type Output = Self;
    fn mul(self, s: Fp<C::S>) -> Self {
        // Fixed windows of four bits.
        let mut t = [Self::ZERO; 16];
        for i in 1..16 {
            t[i] = t[i - 1] + self;
        }
        let e = s.into_bigint();
        let mut o = Self::ZERO;
        for l in e.as_ref().iter().rev() {
            for k in (0..16).rev() {
                if !o.z.is_zero() {
                    o = o.double().double().double().double();
                }
                o += t[(l >> (4 * k) & 15) as usize];
            }
        }
        o
    }
}
binop!([C: Curve] Projective<C>, Projective<C>, Add add AddAssign add_assign);
binop!([C: Curve] Projective<C>, Projective<C>, Sub sub SubAssign sub_assign);
sums!([C: Curve] Projective<C>, Projective::<C>::ZERO, Sum sum, add);
impl<C: Curve> Mul<&Fp<C::S>> for Projective<C> {
    type Output = Self;
    fn mul(self, s: &Fp<C::S>) -> Self {
        self * *s
    }
}
impl<C: Curve> MulAssign<Fp<C::S>> for Projective<C> {
    fn mul_assign(&mut self, s: Fp<C::S>) {
        *self = *self * s
    }
}
impl<C: Curve> MulAssign<&Fp<C::S>> for Projective<C> {
    fn mul_assign(&mut self, s: &Fp<C::S>) {
        *self = *self * *s
    }
}
impl<C: Curve> Zero for Projective<C> {
    fn zero() -> Self {
        Self::ZERO
    }
    fn is_zero(&self) -> bool {
        self.z.is_zero()
    }
}
impl<C: Curve> AdditiveGroup for Projective<C> {
    type Scalar = Fp<C::S>;
    const ZERO: Self = Self { x: C::Base::ONE, y: C::Base::ONE, z: C::Base::ZERO };
    fn double(&self) -> Self {
        if self.z.is_zero() {
            return *self;
        }
        let a = self.x.square();
        let b = self.y.square();
        let c = b.square();
        let d = ((self.x + b).square() - a - c).double();
        let e = a.double() + a;
        let x = e.square() - d.double();
        Self { x, y: e * (d - x) - c.double().double().double(), z: (self.y * self.z).double() }
    }
}
impl<C: Curve> PrimeGroup for Projective<C> {
    type ScalarField = Fp<C::S>;
    fn generator() -> Self {
        let (x, y) = C::gen();
        Self { x, y, z: C::Base::ONE }
    }
}
impl<C: Curve> ScalarMul for Projective<C> {
    type MulBase = Affine<C>;
}
impl<C: Curve> VariableBaseMSM for Projective<C> {}
impl<C: Curve> CurveGroup for Projective<C> {
    type BaseField = C::Base;
    type Affine = Affine<C>;
    fn normalize_batch(v: &[Self]) -> Vec<Affine<C>> {
        // One inversion for all (Montgomery).
        let mut acc = Vec::with_capacity(v.len());
        let mut m = C::Base::one();
        for p in v {
            acc.push(m);
            if !p.z.is_zero() {
                m *= p.z;
            }
        }
        let mut inv = m.inverse().unwrap();
        let mut out = vec![Affine::identity(); v.len()];
        for i in (0..v.len()).rev() {
            let p = &v[i];
            if !p.z.is_zero() {
                let z = inv * acc[i];
                inv *= p.z;
                let z2 = z.square();
                out[i] = Affine::new_unchecked(p.x * z2, p.y * z2 * z);
            }
        }
        out
    }
}
macro_rules! mixed {
    ($($tr:ident $f:ident $tra:ident $fa:ident),*) => {$(
        impl<C: Curve> $tr<Affine<C>> for Projective<C> {
            type Output = Self;
            fn $f(self, o: Affine<C>) -> Self { $tr::$f(self, Projective::from(o)) }
        }
        impl<C: Curve> $tr<&Affine<C>> for Projective<C> {
            type Output = Self;
            fn $f(self, o: &Affine<C>) -> Self { $tr::$f(self, Projective::from(*o)) }
        }
        impl<C: Curve> $tra<Affine<C>> for Projective<C> {
            fn $fa(&mut self, o: Affine<C>) { *self = $tr::$f(*self, Projective::from(o)) }
        }
        impl<C: Curve> $tra<&Affine<C>> for Projective<C> {
            fn $fa(&mut self, o: &Affine<C>) { *self = $tr::$f(*self, Projective::from(*o)) }
        }
        impl<C: Curve> $tr<Affine<C>> for Affine<C> {
            type Output = Projective<C>;
            fn $f(self, o: Affine<C>) -> Projective<C> { $tr::$f(Projective::from(self), Projective::from(o)) }
        }
        impl<C: Curve> $tr<Projective<C>> for Affine<C> {
            type Output = Projective<C>;
            fn $f(self, o: Projective<C>) -> Projective<C> { $tr::$f(Projective::from(self), o) }
        }
        impl<C: Curve> $tr<&Projective<C>> for Affine<C> {
            type Output = Projective<C>;
            fn $f(self, o: &Projective<C>) -> Projective<C> { $tr::$f(Projective::from(self), *o) }
        }
    )*};
}
mixed!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
impl<C: Curve> Sum<Affine<C>> for Projective<C> {
    fn sum<I: Iterator<Item = Affine<C>>>(i: I) -> Self {
        i.fold(Self::ZERO, |a, b| a + b)
    }
}
impl<'a, C: Curve> Sum<&'a Affine<C>> for Projective<C> {
    fn sum<I: Iterator<Item = &'a Affine<C>>>(i: I) -> Self {
        i.fold(Self::ZERO, |a, b| a + *b)
    }
}
impl<C: Curve> Neg for Affine<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { y: -self.y, ..self }
    }
}
impl<C: Curve> Mul<Fp<C::S>> for Affine<C> {
    type Output = Projective<C>;
    fn mul(self, s: Fp<C::S>) -> Projective<C> {
        Projective::from(self) * s
    }
}
impl<C: Curve> Mul<&Fp<C::S>> for Affine<C> {
    type Output = Projective<C>;
    fn mul(self, s: &Fp<C::S>) -> Projective<C> {
        Projective::from(self) * *s
    }
}
impl<C: Curve> AffineRepr for Affine<C> {
    type ScalarField = Fp<C::S>;
    type BaseField = C::Base;
    type Group = Projective<C>;
    fn xy(&self) -> Option<(C::Base, C::Base)> {
        (!self.infinity).then_some((self.x, self.y))
    }
    fn zero() -> Self {
        Self::identity()
    }
    fn generator() -> Self {
        let (x, y) = C::gen();
        Self::new_unchecked(x, y)
    }
}
impl<C: Curve> Distribution<Projective<C>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Projective<C> {
        Projective::<C>::generator() * Fp::<C::S>::rand(r)
    }
}
impl<C: Curve> Distribution<Affine<C>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Affine<C> {
        (Projective::<C>::generator() * Fp::<C::S>::rand(r)).into()
    }
}
type Rs<T> = Result<T, SerializationError>;
impl<C: Curve> CanonicalSerialize for Affine<C> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Rs<()> {
        let mut v = vec![];
        let flag = if self.infinity { 1 << 6 } else if C::negative(&self.y) { 1 << 7 } else { 0 };
        let (x, y) = if self.infinity { (C::Base::zero(), C::Base::zero()) } else { (self.x, self.y) };
        x.put(&mut v);
        if c == Compress::No {
            y.put(&mut v);
        }
        *v.last_mut().unwrap() |= flag;
        Ok(w.write_all(&v)?)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        C::Base::SIZE * if c == Compress::Yes { 1 } else { 2 }
    }
}
impl<C: Curve> Valid for Affine<C> {
    fn check(&self) -> Rs<()> {
        if self.is_on_curve() && self.is_in_correct_subgroup_assuming_on_curve() {
            Ok(())
        } else {
            Err(SerializationError::InvalidData)
        }
    }
}
impl<C: Curve> CanonicalDeserialize for Affine<C> {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> Rs<Self> {
        let n = C::Base::SIZE;
        let mut b = vec![0; if c == Compress::Yes { n } else { 2 * n }];
        r.read_exact(&mut b)?;
        let last = b.last_mut().unwrap();
        let flag = *last >> 6;
        *last &= 0x3f;
        let x = C::Base::take(&b[..n]).ok_or(SerializationError::InvalidData)?;
        let p = match (flag, c) {
            (3, _) => return Err(SerializationError::UnexpectedFlags),
            (1, _) => Self::identity(),
            (_, Compress::Yes) => Self::get_point_from_x_unchecked(x, flag == 2).ok_or(SerializationError::InvalidData)?,
            _ => Self::new_unchecked(x, C::Base::take(&b[n..]).ok_or(SerializationError::InvalidData)?),
        };
        if v == Validate::Yes {
            p.check()?;
        }
        Ok(p)
    }
}
impl<C: Curve> CanonicalSerialize for Projective<C> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Rs<()> {
        Affine::from(*self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        Affine::from(*self).serialized_size(c)
    }
}
impl<C: Curve> Valid for Projective<C> {
    fn check(&self) -> Rs<()> {
        Affine::from(*self).check()
    }
}
impl<C: Curve> CanonicalDeserialize for Projective<C> {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> Rs<Self> {
        Ok(Affine::deserialize_with_mode(r, c, v)?.into())
    }
}

pub mod pairing {
    use super::*;
    pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq {
        type BaseField: PrimeField;
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + Into<Self::G1Prepared>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>;
        type G1Prepared: Default + Clone + Send + Sync + Debug + From<Self::G1> + From<Self::G1Affine> + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine>;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + Into<Self::G2Prepared>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>;
        type G2Prepared: Default + Clone + Send + Sync + Debug + From<Self::G2> + From<Self::G2Affine> + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine>;
        type TargetField: Target;
        fn multi_miller_loop(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> MillerLoopOutput<Self>;
        fn miller_loop(a: impl Into<Self::G1Prepared>, b: impl Into<Self::G2Prepared>) -> MillerLoopOutput<Self> {
            Self::multi_miller_loop([a], [b])
        }
        fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>>;
        fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> {
            Self::final_exponentiation(Self::multi_miller_loop(a, b)).unwrap()
        }
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> {
            Self::multi_pairing([p], [q])
        }
    }
    /// What the target group needs of its field.
    pub trait Target: Copy + Debug + Display + Eq + Hash + Send + Sync + 'static + Default + Mul<Output = Self> + CanonicalSerialize + CanonicalDeserialize {
        const ONE: Self;
        fn square(&self) -> Self;
        /// Inverse of an element of the target group.
        fn unitary_inverse(&self) -> Self;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct MillerLoopOutput<P: Pairing>(pub P::TargetField);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PairingOutput<P: Pairing>(pub P::TargetField);
    impl<P: Pairing> Hash for PairingOutput<P> {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.0.hash(h)
        }
    }
    impl<P: Pairing> Display for PairingOutput<P> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Display::fmt(&self.0, f)
        }
    }
    impl<P: Pairing> Default for PairingOutput<P> {
        fn default() -> Self {
            Self::ZERO
        }
    }
    impl<P: Pairing> Add for PairingOutput<P> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Self(self.0 * o.0)
        }
    }
    impl<P: Pairing> Neg for PairingOutput<P> {
        type Output = Self;
        fn neg(self) -> Self {
            Self(self.0.unitary_inverse())
        }
    }
    impl<P: Pairing> Sub for PairingOutput<P> {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            self + -o
        }
    }
    impl<P: Pairing, T: std::borrow::Borrow<P::ScalarField>> Mul<T> for PairingOutput<P> {
        type Output = Self;
        fn mul(self, s: T) -> Self {
            self.mul_bigint((*s.borrow()).into_bigint())
        }
    }
    impl<P: Pairing, T: std::borrow::Borrow<P::ScalarField>> MulAssign<T> for PairingOutput<P> {
        fn mul_assign(&mut self, s: T) {
            *self = *self * *s.borrow()
        }
    }
    binop!([P: Pairing] PairingOutput<P>, PairingOutput<P>, Add add AddAssign add_assign);
    binop!([P: Pairing] PairingOutput<P>, PairingOutput<P>, Sub sub SubAssign sub_assign);
    sums!([P: Pairing] PairingOutput<P>, PairingOutput::<P>::ZERO, Sum sum, add);
    impl<P: Pairing> Zero for PairingOutput<P> {
        fn zero() -> Self {
            Self::ZERO
        }
        fn is_zero(&self) -> bool {
            self.0 == P::TargetField::ONE
        }
    }
    impl<P: Pairing> AdditiveGroup for PairingOutput<P> {
        type Scalar = P::ScalarField;
        const ZERO: Self = Self(P::TargetField::ONE);
        fn double(&self) -> Self {
            Self(self.0.square())
        }
    }
    impl<P: Pairing> PrimeGroup for PairingOutput<P> {
        type ScalarField = P::ScalarField;
        fn generator() -> Self {
            P::pairing(P::G1::generator(), P::G2::generator())
        }
    }
    impl<P: Pairing> Distribution<PairingOutput<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> PairingOutput<P> {
            PairingOutput::<P>::generator() * P::ScalarField::rand(r)
        }
    }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Rs<()> {
            self.0.serialize_with_mode(w, c)
        }
        fn serialized_size(&self, c: Compress) -> usize {
            self.0.serialized_size(c)
        }
    }
    impl<P: Pairing> Valid for PairingOutput<P> {
        fn check(&self) -> Rs<()> {
            if self.mul_bigint(P::ScalarField::MODULUS).is_zero() {
                Ok(())
            } else {
                Err(SerializationError::InvalidData)
            }
        }
    }
    impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {
        fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> Rs<Self> {
            let o = Self(P::TargetField::deserialize_with_mode(r, c, v)?);
            if v == Validate::Yes {
                o.check()?;
            }
            Ok(o)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Prepared<A>(pub A);
    impl<A: Default> Default for Prepared<A> {
        fn default() -> Self {
            Self(A::default())
        }
    }
    impl<C: Curve> From<Affine<C>> for Prepared<Affine<C>> {
        fn from(a: Affine<C>) -> Self {
            Self(a)
        }
    }
    impl<C: Curve> From<&Affine<C>> for Prepared<Affine<C>> {
        fn from(a: &Affine<C>) -> Self {
            Self(*a)
        }
    }
    impl<C: Curve> From<Projective<C>> for Prepared<Affine<C>> {
        fn from(a: Projective<C>) -> Self {
            Self(a.into())
        }
    }
    impl<C: Curve> From<&Projective<C>> for Prepared<Affine<C>> {
        fn from(a: &Projective<C>) -> Self {
            Self((*a).into())
        }
    }
}
#[doc(hidden)]
pub struct Unused(PhantomData<()>);
