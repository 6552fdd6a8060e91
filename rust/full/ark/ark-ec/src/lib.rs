pub use shim::ec::*; pub mod short_weierstrass { pub use shim::ec::{Affine, Projective}; } pub mod scalar_mul { pub use shim::ec::ScalarMul; pub mod variable_base { pub use shim::ec::VariableBaseMSM; } }
