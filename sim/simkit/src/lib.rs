//! Deterministic simulation kit shared by the simulators.
pub mod rng;
pub mod runner;
pub mod shm;
pub mod shrink;
#[cfg(feature = "inproc")]
pub mod inproc;
