pub use shim::ser::*; pub use shim::serialize_to_vec;
