//! Independent models of what the verifier must do, shared by the monitor crates: Merkle trees and proofs,
//! committees, domains, Casper FFG, and scenarios that run through the real verifier.
#[path = "../../mon-ssz/src/model.rs"]
pub mod ssz;
pub mod ffg;
pub mod guest;
pub mod scn;
pub mod spec;
pub mod tree;
