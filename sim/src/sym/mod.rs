//! The symbol-checking tool between faulty helper processes and damaged libraries (C16).
pub mod files;
pub mod prop;
