pub use shim::ff::{UniformRand, One, Zero}; pub use std::*; pub use rand; pub fn test_rng() -> rand::rngs::StdRng { use rand::SeedableRng; rand::rngs::StdRng::seed_from_u64(7) } pub fn log2(x: usize) -> u32 { if x == 0 { 0 } else { usize::BITS - (x - 1).leading_zeros() } }
#[macro_export]
macro_rules! cfg_iter { ($e:expr) => { $e.iter() }; ($e:expr, $m:expr) => { $e.iter() }; }
#[macro_export]
macro_rules! cfg_iter_mut { ($e:expr) => { $e.iter_mut() }; ($e:expr, $m:expr) => { $e.iter_mut() }; }
#[macro_export]
macro_rules! cfg_into_iter { ($e:expr) => { $e.into_iter() }; ($e:expr, $m:expr) => { $e.into_iter() }; }
#[macro_export]
macro_rules! cfg_chunks { ($e:expr, $n:expr) => { $e.chunks($n) }; }
#[macro_export]
macro_rules! start_timer { ($m:expr) => { () }; }
#[macro_export]
macro_rules! end_timer { ($t:expr) => { let _ = $t; }; }
