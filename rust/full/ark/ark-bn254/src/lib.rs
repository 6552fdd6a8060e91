pub use shim::bn254::*;
