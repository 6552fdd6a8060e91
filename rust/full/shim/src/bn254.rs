//! ark-bn254: the curve, its extension tower and the optimal ate pairing.
use crate::ec::pairing::*;
use crate::ec::*;
use crate::ff::*;
use crate::ser::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{Debug, Display};
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct FqConfig;
impl FpConfig for FqConfig {
    const P: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    const R: [u64; 4] = [0xd35d438dc58f0d9d, 0x0a78eb28f5c70b3d, 0x666ea36f7879462c, 0x0e0a77c19a07df2f];
    const R2: [u64; 4] = [0xf32cfc5b538afa89, 0xb5e71911d44501fb, 0x47ab1eff0a417ff6, 0x06d89f71cab8351f];
    const INV: u64 = 0x87d20782e4866389;
    const ROOT: [u64; 4] = [0x3c208c16d87cfd46, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    const ADICITY: u32 = 1;
    const GEN: u64 = 3;
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct FrConfig;
impl FpConfig for FrConfig {
    const P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
    const R: [u64; 4] = [0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0x0e0a77c19a07df2f];
    const R2: [u64; 4] = [0x1bb8e645ae216da7, 0x53fe3ab1e35c59e3, 0x8c49833d53bb8085, 0x0216d0b17f4e44a5];
    const INV: u64 = 0xc2e1f593efffffff;
    const ROOT: [u64; 4] = [0x9bd61b6e725b19f0, 0x402d111e41112ed4, 0x00e0a7eb8ef62abc, 0x2a3c09f0a58a7e85];
    const ADICITY: u32 = 28;
    const GEN: u64 = 5;
}
pub type Fq = Fp<FqConfig>;
pub type Fr = Fp<FrConfig>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub const fn new(c0: Fq, c1: Fq) -> Self {
        Self { c0, c1 }
    }
    fn conj(self) -> Self {
        Self::new(self.c0, -self.c1)
    }
    /// Times 9 + u.
    #[inline]
    fn xi(self) -> Self {
        let n = |x: Fq| x.double().double().double() + x;
        Self::new(n(self.c0) - self.c1, n(self.c1) + self.c0)
    }
    fn scale(self, k: Fq) -> Self {
        Self::new(self.c0 * k, self.c1 * k)
    }
}
impl Debug for Fq2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} + {} * u", self.c0, self.c1)
    }
}
impl Display for Fq2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(self, f)
    }
}
impl PartialOrd for Fq2 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fq2 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.c1.cmp(&o.c1).then(self.c0.cmp(&o.c0))
    }
}
impl Add for Fq2 {
    type Output = Self;
    #[inline]
    fn add(self, o: Self) -> Self {
        Self::new(self.c0 + o.c0, self.c1 + o.c1)
    }
}
impl Sub for Fq2 {
    type Output = Self;
    #[inline]
    fn sub(self, o: Self) -> Self {
        Self::new(self.c0 - o.c0, self.c1 - o.c1)
    }
}
impl Neg for Fq2 {
    type Output = Self;
    fn neg(self) -> Self {
        Self::new(-self.c0, -self.c1)
    }
}
impl Mul for Fq2 {
    type Output = Self;
    #[inline]
    fn mul(self, o: Self) -> Self {
        let (a, b) = (self.c0 * o.c0, self.c1 * o.c1);
        Self::new(a - b, (self.c0 + self.c1) * (o.c0 + o.c1) - a - b)
    }
}
impl Div for Fq2 {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inverse().expect("division by zero")
    }
}
binop!([] Fq2, Fq2, Add add AddAssign add_assign);
binop!([] Fq2, Fq2, Sub sub SubAssign sub_assign);
binop!([] Fq2, Fq2, Mul mul MulAssign mul_assign);
binop!([] Fq2, Fq2, Div div DivAssign div_assign);
sums!([] Fq2, Fq2::default(), Sum sum, add);
sums!([] Fq2, <Fq2 as Field>::ONE, Product product, mul);
impl Zero for Fq2 {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.c0.is_zero() && self.c1.is_zero()
    }
}
impl One for Fq2 {
    fn one() -> Self {
        <Self as Field>::ONE
    }
}
impl Distribution<Fq2> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Fq2 {
        Fq2::new(Fq::rand(r), Fq::rand(r))
    }
}
macro_rules! froms { ($($t:ty)*) => {$(impl From<$t> for Fq2 { fn from(v: $t) -> Self { Self::new(Fq::from(v), Fq::zero()) } })*} }
froms!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool);
impl AdditiveGroup for Fq2 {
    type Scalar = Self;
    const ZERO: Self = Self::new(<Fq as AdditiveGroup>::ZERO, <Fq as AdditiveGroup>::ZERO);
}
impl Field for Fq2 {
    type BasePrimeField = Fq;
    const ONE: Self = Self::new(<Fq as Field>::ONE, <Fq as AdditiveGroup>::ZERO);
    const SIZE: usize = 64;
    #[inline]
    fn square(&self) -> Self {
        let m = self.c0 * self.c1;
        Self::new((self.c0 + self.c1) * (self.c0 - self.c1), m + m)
    }
    fn inverse(&self) -> Option<Self> {
        let n = (self.c0.square() + self.c1.square()).inverse()?;
        Some(Self::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        let half = Fq::from(2u64).inverse().unwrap();
        let n = (self.c0.square() + self.c1.square()).sqrt()?;
        for n in [n, -n] {
            if let Some(a) = ((self.c0 + n) * half).sqrt() {
                let s = match a.inverse() {
                    Some(i) => Self::new(a, self.c1 * half * i),
                    None => Self::new(a, (-self.c0).sqrt()?),
                };
                if s.square() == *self {
                    return Some(s);
                }
            }
        }
        None
    }
    fn characteristic() -> &'static [u64] {
        Fq::characteristic()
    }
    fn put(&self, out: &mut Vec<u8>) {
        self.c0.put(out);
        self.c1.put(out);
    }
    fn take(b: &[u8]) -> Option<Self> {
        Some(Self::new(Fq::take(&b[..32])?, Fq::take(&b[32..])?))
    }
}
impl CanonicalSerialize for Fq2 {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        self.c0.serialize_with_mode(&mut w, c)?;
        self.c1.serialize_with_mode(&mut w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        64
    }
}
impl Valid for Fq2 {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for Fq2 {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(Self::new(Fq::deserialize_with_mode(&mut r, c, v)?, Fq::deserialize_with_mode(&mut r, c, v)?))
    }
}

/// Fq2[v] / (v^3 - (9 + u))
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
impl Fq6 {
    const fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Self { c0, c1, c2 }
    }
    fn add(&self, o: &Self) -> Self {
        Self::new(self.c0 + o.c0, self.c1 + o.c1, self.c2 + o.c2)
    }
    fn sub(&self, o: &Self) -> Self {
        Self::new(self.c0 - o.c0, self.c1 - o.c1, self.c2 - o.c2)
    }
    fn neg(&self) -> Self {
        Self::new(-self.c0, -self.c1, -self.c2)
    }
    fn mul(&self, o: &Self) -> Self {
        let (a, b, c) = (self.c0 * o.c0, self.c1 * o.c1, self.c2 * o.c2);
        Self::new(
            ((self.c1 + self.c2) * (o.c1 + o.c2) - b - c).xi() + a,
            (self.c0 + self.c1) * (o.c0 + o.c1) - a - b + c.xi(),
            (self.c0 + self.c2) * (o.c0 + o.c2) - a - c + b,
        )
    }
    /// Times v.
    fn shift(&self) -> Self {
        Self::new(self.c2.xi(), self.c0, self.c1)
    }
    fn inverse(&self) -> Option<Self> {
        let a = self.c0.square() - (self.c1 * self.c2).xi();
        let b = self.c2.square().xi() - self.c0 * self.c1;
        let c = self.c1.square() - self.c0 * self.c2;
        let t = ((self.c2 * b + self.c1 * c).xi() + self.c0 * a).inverse()?;
        Some(Self::new(a * t, b * t, c * t))
    }
}
/// Fq6[w] / (w^2 - v)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}
const Z2: Fq2 = <Fq2 as AdditiveGroup>::ZERO;
const Z6: Fq6 = Fq6::new(Z2, Z2, Z2);
impl Fq12 {
    fn inverse(&self) -> Option<Self> {
        let t = self.c0.mul(&self.c0).sub(&self.c1.mul(&self.c1).shift()).inverse()?;
        Some(Self { c0: self.c0.mul(&t), c1: self.c1.mul(&t).neg() })
    }
    fn pow(&self, e: &[u64]) -> Self {
        let mut o = <Self as Target>::ONE;
        for l in e.iter().rev() {
            for b in (0..64).rev() {
                o = o.square();
                if l >> b & 1 == 1 {
                    o = o * *self;
                }
            }
        }
        o
    }
    fn frob(&self) -> Self {
        let g = gammas();
        let (a, b) = (&self.c0, &self.c1);
        Self { c0: Fq6::new(a.c0.conj(), a.c1.conj() * g[1], a.c2.conj() * g[3]), c1: Fq6::new(b.c0.conj() * g[0], b.c1.conj() * g[2], b.c2.conj() * g[4]) }
    }
    fn parts(&self) -> [Fq; 12] {
        let mut v = [Fq::default(); 12];
        for (i, c) in [self.c0.c0, self.c0.c1, self.c0.c2, self.c1.c0, self.c1.c1, self.c1.c2].iter().enumerate() {
            v[2 * i] = c.c0;
            v[2 * i + 1] = c.c1;
        }
        v
    }
}
impl Display for Fq12 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.parts())
    }
}
impl Mul for Fq12 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let (a, b) = (self.c0.mul(&o.c0), self.c1.mul(&o.c1));
        Self { c1: self.c0.add(&self.c1).mul(&o.c0.add(&o.c1)).sub(&a).sub(&b), c0: a.add(&b.shift()) }
    }
}
impl Target for Fq12 {
    const ONE: Self = Self { c0: Fq6::new(<Fq2 as Field>::ONE, Z2, Z2), c1: Z6 };
    fn square(&self) -> Self {
        let m = self.c0.mul(&self.c1);
        let t = self.c0.add(&self.c1).mul(&self.c0.add(&self.c1.shift()));
        Self { c0: t.sub(&m).sub(&m.shift()), c1: m.add(&m) }
    }
    fn unitary_inverse(&self) -> Self {
        Self { c0: self.c0, c1: self.c1.neg() }
    }
}
impl CanonicalSerialize for Fq12 {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.parts().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        384
    }
}
impl Valid for Fq12 {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for Fq12 {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let p = <[Fq; 12]>::deserialize_with_mode(r, c, v)?;
        let f = |i: usize| Fq2::new(p[2 * i], p[2 * i + 1]);
        Ok(Self { c0: Fq6::new(f(0), f(1), f(2)), c1: Fq6::new(f(3), f(4), f(5)) })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct C1;
impl Curve for C1 {
    type Base = Fq;
    type S = FrConfig;
    const COFACTOR_ONE: bool = true;
    fn b() -> Fq {
        Fq::from(3u64)
    }
    fn gen() -> (Fq, Fq) {
        (Fq::from(1u64), Fq::from(2u64))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct C2;
fn fq2(a: [u64; 4], b: [u64; 4]) -> Fq2 {
    Fq2::new(Fq::of(a), Fq::of(b))
}
impl Curve for C2 {
    type Base = Fq2;
    type S = FrConfig;
    const COFACTOR_ONE: bool = false;
    fn b() -> Fq2 {
        fq2([0x3267e6dc24a138e5, 0xb5b4c5e559dbefa3, 0x81be18991be06ac3, 0x2b149d40ceb8aaae], [0xe4a2bd0685c315d2, 0xa74fa084e52d1852, 0xcd2cafadeed8fdf4, 0x009713b03af0fed4])
    }
    fn gen() -> (Fq2, Fq2) {
        (
            fq2([0x46debd5cd992f6ed, 0x674322d4f75edadd, 0x426a00665e5c4479, 0x1800deef121f1e76], [0x97e485b7aef312c2, 0xf1aa493335a9e712, 0x7260bfb731fb5d25, 0x198e9393920d483a]),
            fq2([0x4ce6cc0166fa7daa, 0xe3d1e7690c43d37b, 0x4aab71808dcb408f, 0x12c85ea5db8c6deb], [0x55acdadcd122975b, 0xbc4b313370b38ef3, 0xec9e99ad690c3395, 0x090689d0585ff075]),
        )
    }
}
pub type G1Affine = Affine<C1>;
pub type G2Affine = Affine<C2>;
pub type G1Projective = Projective<C1>;
pub type G2Projective = Projective<C2>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bn254;
/// The curve's parameter.
const X: u64 = 4965661367192848881;
/// (9 + u)^(k (q - 1) / 6) for k = 1 to 5.
fn gammas() -> &'static [Fq2; 5] {
    static G: std::sync::OnceLock<[Fq2; 5]> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        [
            fq2([0xd60b35dadcc9e470, 0x5c521e08292f2176, 0xe8b99fdd76e68b60, 0x1284b71c2865a7df], [0xca5cf05f80f362ac, 0x747992778eeec7e5, 0xa6327cfe12150b8e, 0x246996f3b4fae7e6]),
            fq2([0x99e39557176f553d, 0xb78cc310c2c3330c, 0x4c0bec3cf559b143, 0x2fb347984f7911f7], [0x1665d51c640fcba2, 0x32ae2a1d0b7c9dce, 0x4ba4cc8bd75a0794, 0x16c9e55061ebae20]),
            fq2([0xdc54014671a0135a, 0xdbaae0eda9c95998, 0xdc5ec698b6e2f9b9, 0x063cf305489af5dc], [0x82d37f632623b0e3, 0x21807dc98fa25bd2, 0x0704b5a7ec796f2b, 0x07c03cbcac41049a]),
            fq2([0x848a1f55921ea762, 0xd33365f7be94ec72, 0x80f3c0b75a181e84, 0x05b54f5e64eea801], [0xc13b4711cd2b8126, 0x3685d2ea1bdec763, 0x9f3a80b03b0b1c92, 0x2c145edbe7fd8aee]),
            fq2([0x2ea2c810eab7692f, 0x425c459b55aa1bd3, 0xe93a3661a4353ff4, 0x0183c1e74f798649], [0x24c6b8ee6e0c2c4b, 0xb080cb99678e2ac0, 0xa27fb246c7729f7d, 0x12acf2ca76fd0675]),
        ]
    })
}
/// 6x + 2
const LOOP: u128 = 29793968203157093288;
/// The line through t and q (or the tangent), evaluated at p; t becomes the sum.
fn line(t: &mut (Fq2, Fq2), q: (Fq2, Fq2), p: (Fq, Fq)) -> Fq12 {
    let m = if *t == q { (t.0.square().double() + t.0.square()) / t.1.double() } else { (q.1 - t.1) / (q.0 - t.0) };
    let l = Fq12 { c0: Fq6::new(Fq2::new(-p.1, Fq::zero()), Z2, Z2), c1: Fq6::new(m.scale(p.0), t.1 - m * t.0, Z2) };
    let x = m.square() - t.0 - q.0;
    *t = (x, m * (t.0 - x) - t.1);
    l
}
fn miller(p: &G1Affine, q: &G2Affine) -> Fq12 {
    let mut f = <Fq12 as Target>::ONE;
    if p.infinity || q.infinity {
        return f;
    }
    let (p, q) = ((p.x, p.y), (q.x, q.y));
    let mut t = q;
    for i in (0..64).rev() {
        let c = t;
        f = f.square() * line(&mut t, c, p);
        if LOOP >> i & 1 == 1 {
            f = f * line(&mut t, q, p);
        }
    }
    let g13 = fq2([0x99e39557176f553d, 0xb78cc310c2c3330c, 0x4c0bec3cf559b143, 0x2fb347984f7911f7], [0x1665d51c640fcba2, 0x32ae2a1d0b7c9dce, 0x4ba4cc8bd75a0794, 0x16c9e55061ebae20]);
    let g12 = fq2([0xdc54014671a0135a, 0xdbaae0eda9c95998, 0xdc5ec698b6e2f9b9, 0x063cf305489af5dc], [0x82d37f632623b0e3, 0x21807dc98fa25bd2, 0x0704b5a7ec796f2b, 0x07c03cbcac41049a]);
    let frob = |q: (Fq2, Fq2)| (q.0.conj() * g13, q.1.conj() * g12);
    let q1 = frob(q);
    let q2 = frob(q1);
    f = f * line(&mut t, q1, p);
    f * line(&mut t, (q2.0, -q2.1), p)
}
impl Pairing for Bn254 {
    type BaseField = Fq;
    type ScalarField = Fr;
    type G1 = G1Projective;
    type G1Affine = G1Affine;
    type G1Prepared = Prepared<G1Affine>;
    type G2 = G2Projective;
    type G2Affine = G2Affine;
    type G2Prepared = Prepared<G2Affine>;
    type TargetField = Fq12;
    fn multi_miller_loop(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> MillerLoopOutput<Self> {
        MillerLoopOutput(a.into_iter().zip(b).fold(<Fq12 as Target>::ONE, |f, (p, q)| f * miller(&p.into().0, &q.into().0)))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        let f = m.0;
        if f == <Fq12 as Target>::ONE {
            return Some(PairingOutput(f));
        }
        // (q^6 - 1)(q^2 + 1), then the exponent of Fuentes-Castaneda et al.: 2x (6x^2 + 3x + 1) times (q^4 - q^2 + 1) / r.
        let f = f.unitary_inverse() * f.inverse()?;
        let r = f.frob().frob() * f;
        let e = |a: Fq12| a.pow(&[X]).unitary_inverse();
        let y0 = e(r);
        let y1 = y0.square();
        let y2 = y1.square();
        let y3 = y2 * y1;
        let y4 = e(y3);
        let y5 = y4.square();
        let y6 = e(y5).unitary_inverse();
        let y3 = y3.unitary_inverse();
        let y7 = y6 * y4;
        let y8 = y7 * y3;
        let y9 = y8 * y1;
        let y10 = y8 * y4;
        let y11 = y10 * r;
        let y13 = y9.frob() * y11;
        let y14 = y8.frob().frob() * y13;
        let y15 = (r.unitary_inverse() * y9).frob().frob().frob();
        Some(PairingOutput(y15 * y14))
    }
}

/// f^((q^12 - 1) / r), computed the plain way.
#[cfg(test)]
pub fn plain_final(f: Fq12) -> Fq12 {
    (f.unitary_inverse() * f.inverse().unwrap()).pow(&[0x5250a54036e3f812, 0xa5635f1596789051, 0xd1138bf54d5bd1d4, 0xa8ce2533be36c7a2, 0x94f69f6b84e09bf6, 0x42ad1f5e50ef3644, 0x0fcc420e48c3454c, 0x758e4408ecc9952c, 0xc901bf1887c6042c, 0xa733cd65b14bb3b5, 0xdf6d76bdcf51b0d8, 0xca64c0fd82eb59e1, 0x1d2e5726e39276a1, 0xc2d1ea74a391cae9, 0x07409206c82d647e, 0x051c6d1aa5afdd17, 0xb37f601919667af5, 0x150e578c5084015b, 0xfbdea556c23998e4, 0x000fd14cc52f5b83])
}
