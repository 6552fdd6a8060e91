//! ark-relations::gr1cs: constraint systems with R1CS predicates.
use crate::ff::Field;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::BTreeMap;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::rc::Rc;

pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
pub type Label = String;
pub type Result<T> = std::result::Result<T, SynthesisError>;
pub type Matrix<F> = Vec<Vec<(F, usize)>>;

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum SynthesisError {
    MissingCS,
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    PolynomialDegreeTooLarge,
    UnexpectedIdentity,
    MalformedVerifyingKey,
    UnconstrainedVariable,
    PredicateNotFound,
    ArityMismatch,
}
impl std::fmt::Display for SynthesisError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for SynthesisError {}

#[derive(Copy, Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
pub enum Variable {
    Zero,
    One,
    Instance(usize),
    Witness(usize),
    SymbolicLc(usize),
}
impl Variable {
    pub fn zero() -> Self {
        Variable::Zero
    }
    pub fn one() -> Self {
        Variable::One
    }
    pub fn instance(i: usize) -> Self {
        Variable::Instance(i)
    }
    pub fn witness(i: usize) -> Self {
        Variable::Witness(i)
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Variable::Zero)
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Variable::One)
    }
    pub fn is_instance(&self) -> bool {
        matches!(self, Variable::Instance(_))
    }
    pub fn is_witness(&self) -> bool {
        matches!(self, Variable::Witness(_))
    }
    pub fn get_index_unchecked(&self, offset: usize) -> Option<usize> {
        self.get_variable_index(offset)
    }
    pub fn get_variable_index(&self, witness_offset: usize) -> Option<usize> {
        match self {
            Variable::One => Some(0),
            Variable::Instance(i) => Some(*i),
            Variable::Witness(i) => Some(witness_offset + *i),
            _ => None,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
pub type Lc<F> = LinearCombination<F>;
impl<F: Field> LinearCombination<F> {
    pub fn new() -> Self {
        Self(vec![])
    }
    pub fn zero() -> Self {
        Self(vec![])
    }
    pub fn compactify(&mut self) {
        self.0.sort_by_key(|e| e.1);
        let mut o: Vec<(F, Variable)> = vec![];
        for (c, v) in self.0.drain(..) {
            match o.last_mut() {
                Some(l) if l.1 == v => l.0 += c,
                _ => o.push((c, v)),
            }
        }
        self.0 = o;
    }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> {
        self.0.iter()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn insert(&mut self, c: F, v: Variable) {
        match self.0.binary_search_by_key(&v, |e| e.1) {
            Ok(i) => self.0[i].0 += c,
            Err(i) => self.0.insert(i, (c, v)),
        }
    }
}
impl<F: Field> From<Variable> for LinearCombination<F> {
    fn from(v: Variable) -> Self {
        if v.is_zero() {
            Self::zero()
        } else {
            Self(vec![(F::one(), v)])
        }
    }
}
impl<F: Field> From<(F, Variable)> for LinearCombination<F> {
    fn from(t: (F, Variable)) -> Self {
        Self(vec![t])
    }
}
impl<F: Field> From<Vec<(F, Variable)>> for LinearCombination<F> {
    fn from(v: Vec<(F, Variable)>) -> Self {
        let mut l = Self(v);
        l.compactify();
        l
    }
}
impl<F: Field> FromIterator<(F, Variable)> for LinearCombination<F> {
    fn from_iter<I: IntoIterator<Item = (F, Variable)>>(i: I) -> Self {
        i.into_iter().collect::<Vec<_>>().into()
    }
}
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> {
    fn add_assign(&mut self, (c, v): (F, Variable)) {
        self.insert(c, v);
    }
}
impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> {
    fn sub_assign(&mut self, (c, v): (F, Variable)) {
        self.insert(-c, v);
    }
}
impl<F: Field> AddAssign<Variable> for LinearCombination<F> {
    fn add_assign(&mut self, v: Variable) {
        self.insert(F::one(), v);
    }
}
impl<F: Field> SubAssign<Variable> for LinearCombination<F> {
    fn sub_assign(&mut self, v: Variable) {
        self.insert(-F::one(), v);
    }
}
impl<F: Field> AddAssign<&LinearCombination<F>> for LinearCombination<F> {
    fn add_assign(&mut self, o: &LinearCombination<F>) {
        for (c, v) in &o.0 {
            self.insert(*c, *v);
        }
    }
}
impl<F: Field> SubAssign<&LinearCombination<F>> for LinearCombination<F> {
    fn sub_assign(&mut self, o: &LinearCombination<F>) {
        for (c, v) in &o.0 {
            self.insert(-*c, *v);
        }
    }
}
impl<F: Field> AddAssign for LinearCombination<F> {
    fn add_assign(&mut self, o: LinearCombination<F>) {
        *self += &o;
    }
}
impl<F: Field> AddAssign<(F, LinearCombination<F>)> for LinearCombination<F> {
    fn add_assign(&mut self, (k, o): (F, LinearCombination<F>)) {
        for (c, v) in &o.0 {
            self.insert(*c * k, *v);
        }
    }
}
impl<F: Field> AddAssign<(F, &LinearCombination<F>)> for LinearCombination<F> {
    fn add_assign(&mut self, (k, o): (F, &LinearCombination<F>)) {
        for (c, v) in &o.0 {
            self.insert(*c * k, *v);
        }
    }
}
impl<F: Field> SubAssign for LinearCombination<F> {
    fn sub_assign(&mut self, o: LinearCombination<F>) {
        *self -= &o;
    }
}
macro_rules! by_assign {
    ($($t:ty: $tr:ident $f:ident $fa:ident),* $(,)?) => {$(
        impl<F: Field> $tr<$t> for LinearCombination<F> {
            type Output = Self;
            fn $f(mut self, o: $t) -> Self { self.$fa(o); self }
        }
        impl<F: Field> $tr<$t> for &LinearCombination<F> {
            type Output = LinearCombination<F>;
            fn $f(self, o: $t) -> LinearCombination<F> { let mut s = self.clone(); s.$fa(o); s }
        }
    )*};
}
by_assign!((F, Variable): Add add add_assign, (F, Variable): Sub sub sub_assign, Variable: Add add add_assign, Variable: Sub sub sub_assign,
    &LinearCombination<F>: Add add add_assign, &LinearCombination<F>: Sub sub sub_assign, LinearCombination<F>: Add add add_assign, LinearCombination<F>: Sub sub sub_assign,
    (F, LinearCombination<F>): Add add add_assign, (F, &LinearCombination<F>): Add add add_assign);
impl<F: Field> Mul<F> for LinearCombination<F> {
    type Output = Self;
    fn mul(mut self, k: F) -> Self {
        self *= k;
        self
    }
}
impl<F: Field> MulAssign<F> for LinearCombination<F> {
    fn mul_assign(&mut self, k: F) {
        for t in &mut self.0 {
            t.0 *= k;
        }
    }
}
impl<F: Field> Neg for LinearCombination<F> {
    type Output = Self;
    fn neg(self) -> Self {
        self * -F::one()
    }
}
/// lc!() is the empty combination.
#[macro_export]
macro_rules! lc {
    () => {
        $crate::gr1cs::LinearCombination::zero()
    };
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum SynthesisMode {
    Setup,
    Prove { construct_matrices: bool, generate_lc_assignments: bool },
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum OptimizationGoal {
    None,
    Constraints,
    Weight,
}
pub trait ConstraintSynthesizer<F: Field> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
}
#[derive(Debug, Clone, Default)]
pub struct Assignments<F: Field> {
    pub instance_assignment: Vec<F>,
    pub witness_assignment: Vec<F>,
    pub lc_assignment: Vec<F>,
}
#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    mode: SynthesisMode,
    goal: OptimizationGoal,
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    lcs: Vec<LinearCombination<F>>,
    rows: Vec<[LinearCombination<F>; 3]>,
    pub assignments: Assignments<F>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        Self {
            mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true },
            goal: OptimizationGoal::None,
            num_instance_variables: 1,
            num_witness_variables: 0,
            lcs: vec![],
            rows: vec![],
            assignments: Assignments { instance_assignment: vec![F::one()], ..Default::default() },
        }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> {
        ConstraintSystemRef::new(Self::new())
    }
    pub fn set_mode(&mut self, m: SynthesisMode) {
        self.mode = m;
    }
    pub fn is_in_setup_mode(&self) -> bool {
        self.mode == SynthesisMode::Setup
    }
    pub fn should_construct_matrices(&self) -> bool {
        !matches!(self.mode, SynthesisMode::Prove { construct_matrices: false, .. })
    }
    pub fn optimization_goal(&self) -> OptimizationGoal {
        self.goal
    }
    pub fn num_constraints(&self) -> usize {
        self.rows.len()
    }
    pub fn num_instance_variables(&self) -> usize {
        self.num_instance_variables
    }
    pub fn num_witness_variables(&self) -> usize {
        self.num_witness_variables
    }
    pub fn num_variables(&self) -> usize {
        self.num_instance_variables + self.num_witness_variables
    }
    pub fn instance_assignment(&self) -> Result<&[F]> {
        if self.is_in_setup_mode() {
            return Err(SynthesisError::AssignmentMissing);
        }
        Ok(&self.assignments.instance_assignment)
    }
    pub fn witness_assignment(&self) -> Result<&[F]> {
        if self.is_in_setup_mode() {
            return Err(SynthesisError::AssignmentMissing);
        }
        Ok(&self.assignments.witness_assignment)
    }
    pub fn new_input_variable<G: FnOnce() -> Result<F>>(&mut self, f: G) -> Result<Variable> {
        let i = self.num_instance_variables;
        self.num_instance_variables += 1;
        if !self.is_in_setup_mode() {
            self.assignments.instance_assignment.push(f()?);
        }
        Ok(Variable::Instance(i))
    }
    pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&mut self, f: G) -> Result<Variable> {
        let i = self.num_witness_variables;
        self.num_witness_variables += 1;
        if !self.is_in_setup_mode() {
            self.assignments.witness_assignment.push(f()?);
        }
        Ok(Variable::Witness(i))
    }
    pub fn new_lc(&mut self, f: impl FnOnce() -> LinearCombination<F>) -> Result<Variable> {
        let l = f();
        self.lcs.push(l);
        Ok(Variable::SymbolicLc(self.lcs.len() - 1))
    }
    pub fn enforce_constraint(&mut self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> {
        if label != R1CS_PREDICATE_LABEL {
            return Err(SynthesisError::PredicateNotFound);
        }
        let fs: Vec<_> = lcs.into_iter().collect();
        let row: Vec<_> = if self.should_construct_matrices() { fs.into_iter().map(|f| f()).collect() } else { fs.into_iter().map(|_| LinearCombination::zero()).collect() };
        self.rows.push(row.try_into().map_err(|_| SynthesisError::ArityMismatch)?);
        Ok(())
    }
    pub fn enforce_r1cs_constraint(&mut self, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> {
        let row = if self.should_construct_matrices() { [a(), b(), c()] } else { [LinearCombination::zero(), LinearCombination::zero(), LinearCombination::zero()] };
        self.rows.push(row);
        Ok(())
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        match v {
            Variable::Zero => Some(F::zero()),
            Variable::One => Some(F::one()),
            Variable::Instance(i) => self.assignments.instance_assignment.get(i).copied(),
            Variable::Witness(i) => self.assignments.witness_assignment.get(i).copied(),
            Variable::SymbolicLc(i) => self.eval(self.lcs.get(i)?),
        }
    }
    fn eval(&self, l: &LinearCombination<F>) -> Option<F> {
        let mut s = F::zero();
        for (c, v) in &l.0 {
            s += *c * self.assigned_value(*v)?;
        }
        Some(s)
    }
    pub fn is_satisfied(&self) -> Result<bool> {
        self.which_is_unsatisfied().map(|s| s.is_none())
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        if self.is_in_setup_mode() {
            return Err(SynthesisError::AssignmentMissing);
        }
        for (i, r) in self.rows.iter().enumerate() {
            let v: Vec<F> = r.iter().map(|l| self.eval(l).ok_or(SynthesisError::AssignmentMissing)).collect::<Result<_>>()?;
            if v[0] * v[1] != v[2] {
                return Ok(Some(format!("{} {}", R1CS_PREDICATE_LABEL, i)));
            }
        }
        Ok(None)
    }
    pub fn finalize(&mut self) {
        self.inline_all_lcs();
    }
    pub fn inline_all_lcs(&mut self) {}
    pub fn set_optimization_goal(&mut self, g: OptimizationGoal) {
        self.goal = g;
    }
    fn expand(&self, l: &LinearCombination<F>, k: F, out: &mut LinearCombination<F>) {
        for (c, v) in &l.0 {
            match v {
                Variable::SymbolicLc(i) => self.expand(&self.lcs[*i], k * *c, out),
                Variable::Zero => {}
                v => out.insert(k * *c, *v),
            }
        }
    }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
        let mut m: Vec<Matrix<F>> = vec![vec![], vec![], vec![]];
        for r in &self.rows {
            for (l, m) in r.iter().zip(&mut m) {
                let mut e = LinearCombination::zero();
                self.expand(l, F::one(), &mut e);
                m.push(e.0.iter().filter(|t| !t.0.is_zero()).map(|(c, v)| (*c, v.get_variable_index(self.num_instance_variables).unwrap())).collect());
            }
        }
        Ok(BTreeMap::from([(R1CS_PREDICATE_LABEL.to_string(), m)]))
    }
}
#[derive(Debug, Clone)]
pub enum ConstraintSystemRef<F: Field> {
    None,
    CS(Rc<RefCell<ConstraintSystem<F>>>),
}
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(c: ConstraintSystem<F>) -> Self {
        Self::CS(Rc::new(RefCell::new(c)))
    }
    fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> {
        match self {
            Self::CS(a) => Some(a),
            Self::None => None,
        }
    }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> {
        match self {
            Self::CS(a) => Rc::try_unwrap(a).ok().map(|s| s.into_inner()),
            Self::None => None,
        }
    }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> {
        self.inner().map(|c| c.borrow())
    }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> {
        self.inner().map(|c| c.borrow_mut())
    }
    pub fn is_none(&self) -> bool {
        matches!(self, Self::None)
    }
    pub fn or(self, o: Self) -> Self {
        if self.is_none() {
            o
        } else {
            self
        }
    }
    fn get<T>(&self, f: impl FnOnce(&ConstraintSystem<F>) -> Result<T>) -> Result<T> {
        f(&self.inner().ok_or(SynthesisError::MissingCS)?.borrow())
    }
    fn with<T>(&self, f: impl FnOnce(&mut ConstraintSystem<F>) -> Result<T>) -> Result<T> {
        f(&mut self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut())
    }
    pub fn set_mode(&self, m: SynthesisMode) {
        let _ = self.with(|c| {
            c.set_mode(m);
            Ok(())
        });
    }
    pub fn is_in_setup_mode(&self) -> bool {
        self.get(|c| Ok(c.is_in_setup_mode())).unwrap_or(false)
    }
    pub fn should_construct_matrices(&self) -> bool {
        self.get(|c| Ok(c.should_construct_matrices())).unwrap_or(false)
    }
    pub fn set_optimization_goal(&self, g: OptimizationGoal) {
        let _ = self.with(|c| {
            c.set_optimization_goal(g);
            Ok(())
        });
    }
    pub fn num_constraints(&self) -> usize {
        self.get(|c| Ok(c.num_constraints())).unwrap_or(0)
    }
    pub fn num_instance_variables(&self) -> usize {
        self.get(|c| Ok(c.num_instance_variables())).unwrap_or(0)
    }
    pub fn num_witness_variables(&self) -> usize {
        self.get(|c| Ok(c.num_witness_variables())).unwrap_or(0)
    }
    pub fn num_variables(&self) -> usize {
        self.get(|c| Ok(c.num_variables())).unwrap_or(0)
    }
    pub fn new_input_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
        // The value comes first: f may itself use the constraint system.
        if self.is_none() {
            return Err(SynthesisError::MissingCS);
        }
        if self.is_in_setup_mode() {
            return self.with(|c| c.new_input_variable(f));
        }
        let v = f();
        self.with(|c| c.new_input_variable(|| v))
    }
    pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
        if self.is_none() {
            return Err(SynthesisError::MissingCS);
        }
        if self.is_in_setup_mode() {
            return self.with(|c| c.new_witness_variable(f));
        }
        let v = f();
        self.with(|c| c.new_witness_variable(|| v))
    }
    pub fn new_lc(&self, f: impl FnOnce() -> LinearCombination<F>) -> Result<Variable> {
        self.with(|c| c.new_lc(f))
    }
    pub fn enforce_constraint(&self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> {
        self.with(|c| c.enforce_constraint(label, lcs))
    }
    pub fn enforce_r1cs_constraint(&self, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> {
        self.with(|s| s.enforce_r1cs_constraint(a, b, c))
    }
    pub fn is_satisfied(&self) -> Result<bool> {
        self.get(|c| c.is_satisfied())
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        self.get(|c| c.which_is_unsatisfied())
    }
    pub fn instance_assignment(&self) -> Result<Vec<F>> {
        self.get(|c| Ok(c.instance_assignment()?.to_vec()))
    }
    pub fn witness_assignment(&self) -> Result<Vec<F>> {
        self.get(|c| Ok(c.witness_assignment()?.to_vec()))
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        self.borrow()?.assigned_value(v)
    }
    pub fn finalize(&self) {}
    pub fn inline_all_lcs(&self) {}
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
        self.get(|c| c.to_matrices())
    }
}
