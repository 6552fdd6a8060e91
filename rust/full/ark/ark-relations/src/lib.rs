pub use shim::gr1cs; pub use shim::lc;
#[macro_export]
macro_rules! ns { ($cs:expr, $n:expr) => { $cs.clone() }; }
