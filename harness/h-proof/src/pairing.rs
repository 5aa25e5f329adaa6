//! Pairings of groups of small prime order, computed through discrete logarithms: every proof
//! element's exponent is known, so that what a verifier should say is known exactly.
use crate::fields::{F13, F17, F97, F257, F65537};
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, PrimeGroup};
use ark_ff::{Field, Fp2, Fp2Config, Fp64, MontBackend, MontConfig, One, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use std::collections::HashMap;
use std::io::Read;
use std::sync::OnceLock;

macro_rules! field {
    ($name:ident, $cfg:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $name = Fp64<MontBackend<$cfg, 1>>;
    };
}
field!(F101, C101, "101", "2");
field!(F263, C263, "263", "5");
field!(F65557, C65557, "65557", "2");
field!(F67, C67, "67", "2");
field!(F1163, C1163, "1163", "5");
field!(F3083, C3083, "3083", "2");
field!(F262147, C262147, "262147", "2");

/// A pairing whose discrete logarithms are known.
pub trait Toy: Pairing<BaseField = <Self::A as CurveConfig>::BaseField, G1 = Projective<Self::A>, G1Affine = Affine<Self::A>, G2 = Projective<Self::B>, G2Affine = Affine<Self::B>>
where
    <Self::A as CurveConfig>::BaseField: PrimeField,
{
    type A: SWCurveConfig<ScalarField = Self::ScalarField>;
    type B: SWCurveConfig<ScalarField = Self::ScalarField, BaseField = <Self::A as CurveConfig>::BaseField>;
    fn log1(p: &Self::G1Affine) -> u64;
    fn log2(p: &Self::G2Affine) -> u64;
    fn exp1(x: Self::ScalarField) -> Self::G1Affine {
        (Self::G1::generator() * x).into_affine()
    }
    fn exp2(x: Self::ScalarField) -> Self::G2Affine {
        (Self::G2::generator() * x).into_affine()
    }
    fn l1(p: &Self::G1Affine) -> Self::ScalarField {
        Self::ScalarField::from(Self::log1(p))
    }
    fn l2(p: &Self::G2Affine) -> Self::ScalarField {
        Self::ScalarField::from(Self::log2(p))
    }
}

fn table<C: SWCurveConfig>(order: u64) -> HashMap<(u64, u64), u64>
where
    C::BaseField: PrimeField,
{
    let g = C::GENERATOR;
    let mut p = Projective::<C>::default();
    let mut all = Vec::new();
    for _ in 0..order - 1 {
        p += g;
        all.push(p);
    }
    assert!((p + g) == Projective::<C>::default(), "wrong order");
    let all = Projective::<C>::normalize_batch(&all);
    let num = |x: C::BaseField| x.into_bigint().as_ref()[0];
    all.iter().enumerate().map(|(i, a)| ((num(a.x), num(a.y)), i as u64 + 1)).collect()
}
fn find<C: SWCurveConfig>(t: &HashMap<(u64, u64), u64>, p: &Affine<C>) -> u64
where
    C::BaseField: PrimeField,
{
    if p.is_zero() {
        return 0;
    }
    let num = |x: C::BaseField| x.into_bigint().as_ref()[0];
    *t.get(&(num(p.x().unwrap()), num(p.y().unwrap()))).expect("point outside the group")
}

macro_rules! curve {
    ($name:ident, $base:ty, $scalar:ty, $a:literal, $b:literal, $gx:literal, $gy:literal) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = $base;
            type ScalarField = $scalar;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $scalar = ark_ff::MontFp!("1");
        }
        impl SWCurveConfig for $name {
            type ZeroFlag = bool;
            const COEFF_A: $base = ark_ff::MontFp!($a);
            const COEFF_B: $base = ark_ff::MontFp!($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(ark_ff::MontFp!($gx), ark_ff::MontFp!($gy));
        }
    };
}

macro_rules! pairing {
    ($name:ident, $base:ty, $scalar:ty, $order:literal, $e1:ident, ($a1:literal, $b1:literal, $x1:literal, $y1:literal), $e2:ident, ($a2:literal, $b2:literal, $x2:literal, $y2:literal), $target:ty, $tc:ident, $prep1:ident, $prep2:ident) => {
        curve!($e1, $base, $scalar, $a1, $b1, $x1, $y1);
        curve!($e2, $base, $scalar, $a2, $b2, $x2, $y2);
        pub struct $tc;
        impl Fp2Config for $tc {
            type Fp = $target;
            const NONRESIDUE: $target = ark_ff::MontFp!("-1");
            const FROBENIUS_COEFF_FP2_C1: &'static [$target] = &[ark_ff::MontFp!("1"), ark_ff::MontFp!("-1")];
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $prep1(u64);
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $prep2(u64);
        impl From<Affine<$e1>> for $prep1 {
            fn from(p: Affine<$e1>) -> Self {
                $prep1($name::log1(&p))
            }
        }
        impl From<Projective<$e1>> for $prep1 {
            fn from(p: Projective<$e1>) -> Self {
                p.into_affine().into()
            }
        }
        impl From<Affine<$e2>> for $prep2 {
            fn from(p: Affine<$e2>) -> Self {
                $prep2($name::log2(&p))
            }
        }
        impl From<Projective<$e2>> for $prep2 {
            fn from(p: Projective<$e2>) -> Self {
                p.into_affine().into()
            }
        }
        impl Toy for $name {
            type A = $e1;
            type B = $e2;
            fn log1(p: &Affine<$e1>) -> u64 {
                static T: OnceLock<HashMap<(u64, u64), u64>> = OnceLock::new();
                find(T.get_or_init(|| table::<$e1>($order)), p)
            }
            fn log2(p: &Affine<$e2>) -> u64 {
                static T: OnceLock<HashMap<(u64, u64), u64>> = OnceLock::new();
                find(T.get_or_init(|| table::<$e2>($order)), p)
            }
        }
        impl Pairing for $name {
            type BaseField = $base;
            type ScalarField = $scalar;
            type G1 = Projective<$e1>;
            type G1Affine = Affine<$e1>;
            type G1Prepared = $prep1;
            type G2 = Projective<$e2>;
            type G2Affine = Affine<$e2>;
            type G2Prepared = $prep2;
            type TargetField = Fp2<$tc>;
            fn multi_miller_loop(
                a: impl IntoIterator<Item = impl Into<$prep1>>,
                b: impl IntoIterator<Item = impl Into<$prep2>>,
            ) -> MillerLoopOutput<Self> {
                static G: OnceLock<Fp2<$tc>> = OnceLock::new();
                let g = G.get_or_init(|| {
                    let q = <$target>::MODULUS.0[0];
                    assert!((q * q - 1) % $order == 0);
                    for k in 1u64.. {
                        let x = Fp2::<$tc>::new(<$target>::from(k), <$target>::from(1u64)).pow([(q * q - 1) / $order]);
                        if !x.is_one() {
                            return x;
                        }
                    }
                    unreachable!()
                });
                let mut e = 0u64;
                let mut b = b.into_iter();
                for x in a {
                    let y: $prep2 = b.next().expect("as many points in both groups").into();
                    let x: $prep1 = x.into();
                    e = (e + x.0 * y.0) % $order;
                }
                assert!(b.next().is_none());
                MillerLoopOutput(g.pow([e]))
            }
            fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                Some(PairingOutput(m.0))
            }
        }
        impl ark_serde_compat::CanonicalJsonSerialize for $name {
            fn serialize_g1<S: serde::Serializer>(p: &Affine<$e1>, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(Self::log1(p))
            }
            fn serialize_g2<S: serde::Serializer>(p: &Affine<$e2>, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(Self::log2(p))
            }
            fn serialize_gt<S: serde::Serializer>(_: &Fp2<$tc>, _: S) -> Result<S::Ok, S::Error> {
                unimplemented!()
            }
            fn serialize_g1_seq<S: serde::Serializer>(_: &[Affine<$e1>], _: S) -> Result<S::Ok, S::Error> {
                unimplemented!()
            }
            fn deserialize_g1<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Affine<$e1>, D::Error> {
                Ok(Self::exp1(<$scalar>::from(<u64 as serde::Deserialize>::deserialize(d)?)))
            }
            fn deserialize_g1_unchecked<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Affine<$e1>, D::Error> {
                Self::deserialize_g1(d)
            }
            fn deserialize_g2<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Affine<$e2>, D::Error> {
                Ok(Self::exp2(<$scalar>::from(<u64 as serde::Deserialize>::deserialize(d)?)))
            }
            fn deserialize_g2_unchecked<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Affine<$e2>, D::Error> {
                Self::deserialize_g2(d)
            }
            fn deserialize_gt<'de, D: serde::Deserializer<'de>>(_: D) -> Result<Fp2<$tc>, D::Error> {
                unimplemented!()
            }
            fn deserialize_g1_seq<'de, D: serde::Deserializer<'de>>(_: D) -> Result<Vec<Affine<$e1>>, D::Error> {
                unimplemented!()
            }
            fn deserialize_g1_seq_unchecked<'de, D: serde::Deserializer<'de>>(_: D) -> Result<Vec<Affine<$e1>>, D::Error> {
                unimplemented!()
            }
        }
        impl circom_types::traits::CircomArkworksPairingBridge for $name {
            const G1_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 0;
            const G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 0;
            const G2_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 0;
            const G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 0;
            const GT_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 0;
            const GT_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 0;
            const SCALAR_FIELD_BYTE_SIZE: usize = 8;
            const BASE_FIELD_BYTE_SIZE: usize = 8;
            fn get_circom_name() -> String {
                stringify!($name).into()
            }
            fn g1_from_bytes(_: &[u8], _: circom_types::CheckElement) -> Result<Affine<$e1>, SerializationError> {
                unimplemented!()
            }
            fn g2_from_bytes(_: &[u8], _: circom_types::CheckElement) -> Result<Affine<$e2>, SerializationError> {
                unimplemented!()
            }
            fn g1_from_reader(_: impl Read, _: circom_types::CheckElement) -> Result<Affine<$e1>, SerializationError> {
                unimplemented!()
            }
            fn g2_from_reader(_: impl Read, _: circom_types::CheckElement) -> Result<Affine<$e2>, SerializationError> {
                unimplemented!()
            }
            fn fr_from_montgomery_reader(_: impl Read) -> Result<$scalar, SerializationError> {
                unimplemented!()
            }
            fn fr_from_reader_for_groth16_zkey(_: impl Read) -> Result<$scalar, SerializationError> {
                unimplemented!()
            }
            fn fq_from_montgomery_reader(_: impl Read) -> Result<$base, SerializationError> {
                unimplemented!()
            }
        }
    };
}

// Found by counting points; the order is checked when the table of logarithms is made.
pairing!(T17, F13, F17, 17, E17a, ("2", "4", "0", "2"), E17b, ("2", "9", "0", "3"), F67, Q17, P17a, P17b);
pairing!(T97, F101, F97, 97, E97a, ("2", "30", "0", "38"), E97b, ("2", "36", "0", "6"), F1163, Q97, P97a, P97b);
pairing!(T257, F263, F257, 257, E257a, ("1", "81", "0", "9"), E257b, ("2", "64", "0", "8"), F3083, Q257, P257a, P257b);
pairing!(T65537, F65557, F65537, 65537, E65537a, ("1", "4", "0", "2"), E65537b, ("2", "165", "0", "23776"), F262147, Q65537, P65537a, P65537b);
