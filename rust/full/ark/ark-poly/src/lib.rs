pub use shim::poly::*; pub mod domain { pub use shim::poly::*; } pub mod univariate { pub use shim::poly::DensePolynomial; } pub mod polynomial { pub use shim::poly::{DenseUVPolynomial, Polynomial}; pub mod univariate { pub use shim::poly::DensePolynomial; } }
