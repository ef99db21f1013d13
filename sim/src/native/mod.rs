//! Simulation of the x86 builds: the real machine code runs on this CPU under control of the
//! simulator.
pub mod abi;
pub mod calls;
pub mod cpu;
pub mod decode;
pub mod engine;
pub mod explore;
pub mod hints;
pub mod hist;
pub mod lib64;
pub mod memops;
pub mod probe;
pub mod x87;
