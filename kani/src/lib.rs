#![allow(non_snake_case, clippy::all)]
pub mod field;
pub mod specs;
#[cfg(kani)]
mod proofs;
