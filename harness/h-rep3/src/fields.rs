//! The small fields live in the view of mpc-core (see view/tinyuint.rs).
pub use mpc_core::tinyfields::*;
