//! ark-poly: power-of-two evaluation domains.
use crate::ff::*;
pub trait EvaluationDomain<F: FftField>: Copy + Sized {
    fn new(n: usize) -> Option<Self>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn compute_size_of_domain(n: usize) -> Option<usize> {
        n.checked_next_power_of_two().filter(|s| s.trailing_zeros() <= F::TWO_ADICITY)
    }
    fn elements(&self) -> std::vec::IntoIter<F> {
        let mut v = Vec::with_capacity(self.size());
        let mut x = F::one();
        for _ in 0..self.size() {
            v.push(x);
            x *= self.group_gen();
        }
        v.into_iter()
    }
    fn size_as_field_element(&self) -> F {
        F::from(self.size() as u64)
    }
    fn size_inv(&self) -> F {
        self.size_as_field_element().inverse().unwrap()
    }
    fn group_gen_inv(&self) -> F {
        self.group_gen().inverse().unwrap()
    }
    fn log_size_of_group(&self) -> u64 {
        self.size().trailing_zeros() as u64
    }
    fn coset_offset(&self) -> F {
        F::one()
    }
    fn fft_in_place(&self, v: &mut Vec<F>) {
        *v = self.fft(v);
    }
    fn ifft_in_place(&self, v: &mut Vec<F>) {
        *v = self.ifft(v);
    }
    fn element(&self, i: usize) -> F {
        self.group_gen().pow([i as u64])
    }
    fn evaluate_vanishing_polynomial(&self, x: F) -> F {
        x.pow([self.size() as u64]) - F::one()
    }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        let z = self.evaluate_vanishing_polynomial(tau);
        let n = F::from(self.size() as u64).inverse().unwrap();
        self.elements()
            .map(|w| match (tau - w).inverse() {
                None => F::one(),
                Some(i) => z * n * w * i,
            })
            .collect()
    }
    fn fft(&self, c: &[F]) -> Vec<F> {
        let mut v = vec![F::zero(); self.size()];
        for (i, x) in c.iter().enumerate() {
            v[i % self.size()] += *x;
        }
        ntt(&v, self.group_gen())
    }
    fn ifft(&self, e: &[F]) -> Vec<F> {
        let n = F::from(self.size() as u64).inverse().unwrap();
        let mut v = e.to_vec();
        v.resize(self.size(), F::zero());
        ntt(&v, self.group_gen().inverse().unwrap()).into_iter().map(|x| x * n).collect()
    }
}
/// Values of the polynomial with these coefficients at the powers of `w`, a root of unity of the same (two-power) order.
fn ntt<F: FftField>(c: &[F], w: F) -> Vec<F> {
    if c.len() < 2 {
        return c.to_vec();
    }
    let part = |k: usize| c.iter().copied().skip(k).step_by(2).collect::<Vec<F>>();
    let (even, odd) = (ntt(&part(0), w * w), ntt(&part(1), w * w));
    let (mut out, mut x) = (vec![F::zero(); c.len()], F::one());
    for i in 0..c.len() / 2 {
        let t = x * odd[i];
        out[i] = even[i] + t;
        out[i + c.len() / 2] = even[i] - t;
        x = x * w;
    }
    out
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct GeneralEvaluationDomain<F: FftField> {
    n: usize,
    gen: F,
}
pub type Radix2EvaluationDomain<F> = GeneralEvaluationDomain<F>;
impl<F: FftField> GeneralEvaluationDomain<F> {
    pub fn new(n: usize) -> Option<Self> {
        <Self as EvaluationDomain<F>>::new(n)
    }
}
impl<F: FftField> EvaluationDomain<F> for GeneralEvaluationDomain<F> {
    fn new(n: usize) -> Option<Self> {
        let s = Self::compute_size_of_domain(n)?;
        Some(Self { n: s, gen: F::get_root_of_unity(s as u64)? })
    }
    fn size(&self) -> usize {
        self.n
    }
    fn group_gen(&self) -> F {
        self.gen
    }
}
/// Polynomials by their coefficients, and by their values over a domain.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct DensePolynomial<F> {
    pub coeffs: Vec<F>,
}
pub trait Polynomial<F: FftField>: Sized {
    type Point;
    fn degree(&self) -> usize;
    fn evaluate(&self, x: &F) -> F;
}
pub trait DenseUVPolynomial<F: FftField>: Polynomial<F> {
    fn from_coefficients_vec(c: Vec<F>) -> Self;
    fn from_coefficients_slice(c: &[F]) -> Self {
        Self::from_coefficients_vec(c.to_vec())
    }
    fn coeffs(&self) -> &[F];
}
impl<F: FftField> Polynomial<F> for DensePolynomial<F> {
    type Point = F;
    fn degree(&self) -> usize {
        self.coeffs.len().saturating_sub(1)
    }
    fn evaluate(&self, x: &F) -> F {
        self.coeffs.iter().rev().fold(F::zero(), |a, k| a * *x + *k)
    }
}
impl<F: FftField> DenseUVPolynomial<F> for DensePolynomial<F> {
    fn from_coefficients_vec(mut coeffs: Vec<F>) -> Self {
        while coeffs.last().is_some_and(|c| c.is_zero()) {
            coeffs.pop();
        }
        DensePolynomial { coeffs }
    }
    fn coeffs(&self) -> &[F] {
        &self.coeffs
    }
}
impl<F: FftField> DensePolynomial<F> {
    fn zip(&self, o: &Self, f: impl Fn(F, F) -> F) -> Self {
        let at = |v: &Vec<F>, i: usize| v.get(i).copied().unwrap_or(F::zero());
        Self::from_coefficients_vec((0..self.coeffs.len().max(o.coeffs.len())).map(|i| f(at(&self.coeffs, i), at(&o.coeffs, i))).collect())
    }
    pub fn naive_mul(&self, o: &Self) -> Self {
        let mut v = vec![F::zero(); self.coeffs.len() + o.coeffs.len()];
        for (i, a) in self.coeffs.iter().enumerate() {
            for (j, b) in o.coeffs.iter().enumerate() {
                v[i + j] += *a * *b;
            }
        }
        Self::from_coefficients_vec(v)
    }
}
impl<'a, F: FftField> std::ops::Add<&'a DensePolynomial<F>> for &DensePolynomial<F> {
    type Output = DensePolynomial<F>;
    fn add(self, o: &'a DensePolynomial<F>) -> DensePolynomial<F> {
        self.zip(o, |a, b| a + b)
    }
}
impl<'a, F: FftField> std::ops::Sub<&'a DensePolynomial<F>> for &DensePolynomial<F> {
    type Output = DensePolynomial<F>;
    fn sub(self, o: &'a DensePolynomial<F>) -> DensePolynomial<F> {
        self.zip(o, |a, b| a - b)
    }
}
impl<'a, F: FftField> std::ops::Mul<&'a DensePolynomial<F>> for &DensePolynomial<F> {
    type Output = DensePolynomial<F>;
    fn mul(self, o: &'a DensePolynomial<F>) -> DensePolynomial<F> {
        self.naive_mul(o)
    }
}
#[derive(Clone, Debug)]
pub struct Evaluations<F: FftField, D: EvaluationDomain<F> = GeneralEvaluationDomain<F>> {
    pub evals: Vec<F>,
    domain: D,
}
impl<F: FftField, D: EvaluationDomain<F>> Evaluations<F, D> {
    pub fn from_vec_and_domain(evals: Vec<F>, domain: D) -> Self {
        Evaluations { evals, domain }
    }
    pub fn interpolate(self) -> DensePolynomial<F> {
        self.interpolate_by_ref()
    }
    pub fn interpolate_by_ref(&self) -> DensePolynomial<F> {
        DensePolynomial::from_coefficients_vec(self.domain.ifft(&self.evals))
    }
    pub fn domain(&self) -> D {
        self.domain
    }
}
