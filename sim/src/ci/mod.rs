//! The scripts and tools of the CI, run for real in a world of stand-ins.
pub mod apilist;
pub mod baseline;
pub mod json;
pub mod plan;
pub mod steps;
pub mod world;
