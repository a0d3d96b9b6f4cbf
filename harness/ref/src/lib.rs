//! Independent reference implementations and input generators: nothing here uses the code in
//! /repo.  A crate of its own, so that it is optimised in every profile of the harness.
pub mod gen;
pub mod oracle;
