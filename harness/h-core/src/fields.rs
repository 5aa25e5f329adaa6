//! Small prime fields and prime-order curves, whose values can all be enumerated.
use ark_ec::CurveConfig;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ff::{Fp64, MontBackend, MontConfig, PrimeField};

macro_rules! field {
    ($name:ident, $cfg:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $name = Fp64<MontBackend<$cfg, 1>>;
    };
}
field!(F3, C3, "3", "2");
field!(F5, C5, "5", "2");
field!(F7, C7, "7", "3");
field!(F11, C11, "11", "2");
field!(F13, C13, "13", "2");
field!(F17, C17, "17", "3");
field!(F97, C97, "97", "5");
field!(F251, C251, "251", "6");
field!(F257, C257, "257", "3");
field!(F65537, C65537, "65537", "3");

/// A curve whose scalar field is small.
pub trait Tiny: ark_ec::CurveGroup {
    /// Element number i of the group (0 is the identity).
    fn nth(i: u64) -> Self {
        let mut p = Self::zero();
        for _ in 0..i {
            p += Self::generator();
        }
        p
    }
    /// The number of a group element.
    fn log(&self) -> u64 {
        let mut p = Self::zero();
        let mut i = 0;
        while p != *self {
            p += Self::generator();
            i += 1;
            assert!(i < 1000, "point outside the group");
        }
        i
    }
}

macro_rules! curve {
    ($name:ident, $base:ty, $scalar:ty, $a:literal, $b:literal, $gx:literal, $gy:literal, $proj:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = $base;
            type ScalarField = $scalar;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $scalar = ark_ff::MontFp!("1");
        }
        impl SWCurveConfig for $name {
            type ZeroFlag = bool;
            const COEFF_A: $base = ark_ff::MontFp!($a);
            const COEFF_B: $base = ark_ff::MontFp!($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(ark_ff::MontFp!($gx), ark_ff::MontFp!($gy));
        }
        pub type $proj = Projective<$name>;
        impl Tiny for $proj {}
    };
}
// y^2 = x^3 + x + 1 over F7: 5 points; y^2 = x^3 + 2x + 1 over F5: 7 points;
// y^2 = x^3 + x + 6 over F11: 13 points.
curve!(E5, F7, F5, "1", "1", "0", "1", G5);
curve!(E7, F5, F7, "2", "1", "0", "1", G7);
curve!(E13, F11, F13, "1", "6", "2", "4", G13);

pub fn modulus<F: PrimeField>() -> u64 {
    F::MODULUS.as_ref()[0]
}
pub fn small<F: PrimeField>(x: F) -> u64 {
    x.into_bigint().as_ref()[0]
}
pub fn elems<F: PrimeField>() -> Vec<F> {
    (0..modulus::<F>()).map(F::from).collect()
}

/// Integer arithmetic modulo a small prime, written independently of the code under test.
pub mod int {
    pub fn inv(a: u64, p: u64) -> u64 {
        (1..p).find(|b| a % p * b % p == 1).expect("not invertible")
    }
    pub fn eval(poly: &[u64], x: u64, p: u64) -> u64 {
        let mut pow = 1;
        let mut s = 0;
        for c in poly {
            s = (s + c * pow) % p;
            pow = pow * x % p;
        }
        s
    }
    /// Value at 0 of the polynomial of degree < points.len() through the points.
    pub fn at_zero(points: &[(u64, u64)], p: u64) -> u64 {
        at(points, 0, p)
    }
    pub fn at(points: &[(u64, u64)], x: u64, p: u64) -> u64 {
        let mut s = 0;
        for (i, (xi, yi)) in points.iter().enumerate() {
            let mut t = yi % p;
            for (j, (xj, _)) in points.iter().enumerate() {
                if i != j {
                    t = t * ((x + p - xj % p) % p) % p;
                    t = t * inv((xi + p - xj % p) % p, p) % p;
                }
            }
            s = (s + t) % p;
        }
        s
    }
    /// The secret if shares (of parties 1..) form a sharing of degree d.
    pub fn secret(shares: &[u64], d: usize, p: u64) -> Option<u64> {
        let pts: Vec<_> = shares.iter().enumerate().map(|(i, s)| (i as u64 + 1, *s)).collect();
        for (x, y) in &pts[d + 1..] {
            if at(&pts[..=d], *x, p) != *y {
                return None;
            }
        }
        Some(at_zero(&pts[..=d], p))
    }
}

/// Same for any field: the secret if `shares` lie on a polynomial of degree d.
pub fn secret_of<F: PrimeField>(shares: &[F], d: usize) -> Option<F> {
    let xs: Vec<F> = (1..=shares.len() as u64).map(F::from).collect();
    let at = |x: F| -> F {
        let mut s = F::zero();
        for i in 0..=d {
            let mut t = shares[i];
            for j in 0..=d {
                if i != j {
                    t *= (x - xs[j]) / (xs[i] - xs[j]);
                }
            }
            s += t;
        }
        s
    };
    for i in d + 1..shares.len() {
        if at(xs[i]) != shares[i] {
            return None;
        }
    }
    Some(at(F::zero()))
}
pub fn secret_of_point<C: ark_ec::CurveGroup>(shares: &[C], d: usize) -> Option<C> {
    let xs: Vec<C::ScalarField> = (1..=shares.len() as u64).map(C::ScalarField::from).collect();
    let at = |x: C::ScalarField| -> C {
        let mut s = C::zero();
        for i in 0..=d {
            let mut t = C::ScalarField::from(1u64);
            for j in 0..=d {
                if i != j {
                    t *= (x - xs[j]) / (xs[i] - xs[j]);
                }
            }
            s += shares[i] * t;
        }
        s
    };
    for i in d + 1..shares.len() {
        if at(xs[i]) != shares[i] {
            return None;
        }
    }
    Some(at(C::ScalarField::from(0u64)))
}
