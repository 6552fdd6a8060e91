pub use shim::blake::*;
