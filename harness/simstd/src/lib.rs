//! `std` as seen by the code under exploration: everything is the real standard library,
//! except threads, locks, sockets and the clock, which are primitives of the model checker.
//! A crate built with `--extern std=libsimstd` runs unchanged source on simulated threads.
pub use ::std::*;
pub mod collections;
pub mod net;
pub mod sync;
pub mod thread;
pub mod time;
