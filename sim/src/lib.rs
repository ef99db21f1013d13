//! Deterministic simulation of the code built from /repo.
pub mod driver;
pub mod elf;
pub mod tape;
pub mod util;

pub mod arm;
pub mod ci;
pub mod native;
pub mod sym;
