#![allow(bare_trait_objects)]
pub mod sym;
#[macro_use]
pub mod contracts;
pub mod market;
pub mod proofs;
