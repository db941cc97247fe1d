//! Exhaustive exploration of compiled EVM programs against the reference interpreter.
pub mod diff;
pub mod explore;
pub mod host;
pub mod runner;
pub mod suites;
