//! `FieldUint` for the small fields of the harness (in the view of mpc-core, where the trait lives).
use crate::tinyfields::*;
use crate::uint::{FieldUint, U256, UintBackend};
use ark_ff::PrimeField;

macro_rules! tiny {
    ($u:ty: $($f:ty),*) => {$(
        impl FieldUint for $f {
            type Uint = $u;
            fn to_uint(&self) -> $u {
                <$u>::from_limbs_truncating(&self.into_bigint().0)
            }
            fn from_uint_reduced(u: &$u) -> Self {
                let p = <Self as PrimeField>::MODULUS.0[0] as u128;
                let mut r = 0u128;
                for l in u.as_limbs().iter().rev() {
                    r = ((r << 64) | *l as u128) % p;
                }
                Self::from(r as u64)
            }
            fn from_uint_unchecked(u: &$u) -> Self {
                assert!(u.as_limbs()[1..].iter().all(|l| *l == 0), "value is not reduced");
                Self::from_bigint(ark_ff::BigInt([u.as_limbs()[0]])).expect("value is not reduced")
            }
            fn modulus_uint() -> $u {
                <$u>::from_limbs_truncating(&<Self as PrimeField>::MODULUS.0)
            }
        }
    )*};
}
// One limb: the masks of all limbs can be enumerated.
tiny!(crate::uint::RUint<64, 1>: F3, F5);
tiny!(U256: F7, F11, F13, F17, F97, F251, F257, F65537);
