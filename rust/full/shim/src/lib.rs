//! The parts of arkworks, blake3 and wasm-bindgen that /repo uses, written for the monitors because the originals are not
//! available offline. Interfaces and encodings follow the originals; arithmetic is plain and unoptimised but real BN254.
pub mod bls;
pub mod blake;
pub mod bn254;
pub mod ec;
pub mod ff;
pub mod gr1cs;
pub mod poly;
pub mod ser;
#[cfg(test)]
mod tests;
