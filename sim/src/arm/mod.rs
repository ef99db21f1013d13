//! Simulated ARM machine: memory system, A32/T16 and A64 cores, scheduler and checks.
pub mod a32;
pub mod a64;
pub mod atomics;
pub mod lin;
pub mod machine;
pub mod mem;
pub mod memory;
pub mod ordering;
pub mod probe;
pub mod routines;
pub mod t16;
