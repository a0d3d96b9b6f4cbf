//! Independent reference implementations.  Written from the standards, not from the code under
//! test; checked at every start against published vectors (`selftest`).
pub mod cipher;
pub mod ec;
pub mod hash;
