//! `rand_chacha` with generators of `simrand`.
pub use chacha::rand_core;
pub use simrand::ctl::SimRng as ChaCha12Rng;
pub use simrand::ctl::SimRng as ChaCha8Rng;
pub use simrand::ctl::SimRng as ChaCha20Rng;
