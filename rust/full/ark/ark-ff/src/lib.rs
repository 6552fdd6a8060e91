pub use shim::ff::*; pub mod fields { pub use shim::ff::*; } pub mod prelude { pub use shim::ff::*; } pub mod biginteger { pub use shim::ff::{BigInt, BigInteger}; } pub use shim::MontFp;
