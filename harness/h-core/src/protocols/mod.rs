//! Paths as they are in mpc-core, for the module that is compiled here (see b.rs).
pub mod rep3 {
    pub mod yao {
        pub(crate) use crate::bristol_fashion;
    }
}
