#![allow(warnings)]
#[path = "/repo/packages/zkenc-core/src/serializable.rs"]
pub mod serializable;
