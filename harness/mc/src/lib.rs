//! A small stateless model checker for cooperative tasks.
//!
//! One execution ("world") runs on one OS thread. Every task of the world is a stackful
//! coroutine; the only places where control can pass from one task to another are the
//! scheduling points of the primitives in this workspace (channels, locks, sockets, timers,
//! network operations). At each scheduling point and each environment choice the world asks
//! an explorer which alternative to take; the explorer enumerates all alternatives whose
//! number of deviations from the default (continue the running task; default environment
//! answer) stays within a bound. Time is virtual: it moves only when no task can run, or -
//! if enabled - as a deviation ("the timer lands first").

pub mod explore;
pub mod report;
pub mod world;

pub use explore::{Bounds, Explorer, Stats, Violation};
pub use world::*;
