//! Constraint systems and what the reductions must make of them, from the definitions only
//! (sums over the domain instead of fast transforms).
use crate::prelude::*;
use co_groth16::ConstraintMatrices;

pub type Lc = Vec<(i64, usize)>;

pub fn fe<F: PrimeField>(x: i64) -> F {
    if x < 0 { -F::from(x.unsigned_abs()) } else { F::from(x as u64) }
}

/// Rows (a, b, c) over the variables 1, public inputs, private witness.
#[derive(Clone, Debug)]
pub struct System {
    /// Public inputs including the constant one.
    pub public: usize,
    pub private: usize,
    pub rows: Vec<[Lc; 3]>,
}
impl System {
    pub fn matrices<F: PrimeField>(&self) -> ConstraintMatrices<F> {
        let side = |k: usize| -> Vec<Vec<(F, usize)>> { self.rows.iter().map(|r| r[k].iter().map(|(c, i)| (fe(*c), *i)).collect()).collect() };
        let (a, b, c) = (side(0), side(1), side(2));
        let nz = |m: &Vec<Vec<(F, usize)>>| m.iter().map(|r| r.len()).sum();
        ConstraintMatrices {
            num_instance_variables: self.public,
            num_witness_variables: self.private,
            num_constraints: self.rows.len(),
            a_num_non_zero: nz(&a),
            b_num_non_zero: nz(&b),
            c_num_non_zero: nz(&c),
            a,
            b,
            c,
        }
    }
    pub fn domain_size(&self) -> usize {
        let k = self.rows.len() + self.public;
        let mut n = 1;
        while n < k {
            n *= 2;
        }
        n
    }
    pub fn lc<F: PrimeField>(&self, lc: &Lc, z: &[F]) -> F {
        lc.iter().map(|(c, i)| fe::<F>(*c) * z[*i]).sum()
    }
    /// The values of a, b, c over the domain for an assignment.
    pub fn values<F: PrimeField>(&self, z: &[F]) -> [Vec<F>; 3] {
        let n = self.domain_size();
        let mut out = [vec![F::zero(); n], vec![F::zero(); n], vec![F::zero(); n]];
        for (i, r) in self.rows.iter().enumerate() {
            for k in 0..3 {
                out[k][i] = self.lc(&r[k], z);
            }
        }
        for j in 0..self.public {
            out[0][self.rows.len() + j] = z[j];
        }
        out
    }
    pub fn satisfied<F: PrimeField>(&self, z: &[F]) -> bool {
        self.rows.iter().all(|r| self.lc(&r[0], z) * self.lc(&r[1], z) == self.lc(&r[2], z))
    }
}

pub fn pow<F: PrimeField>(b: F, mut e: u64) -> F {
    let mut r = F::one();
    let mut b = b;
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
/// The modulus minus one as 2^s * t.
pub fn two_adicity<F: PrimeField>() -> (u32, u64) {
    let m = modulus::<F>() - 1;
    (m.trailing_zeros(), m >> m.trailing_zeros())
}
/// snarkjs: the smallest non-residue, the generator of the domain of size 2^k, and the shift.
pub fn snarkjs<F: PrimeField>(k: u32) -> (F, F) {
    let (s, t) = two_adicity::<F>();
    let half = (modulus::<F>() - 1) / 2;
    let mut q = 2;
    while pow(F::from(q), half) != -F::one() {
        q += 1;
    }
    let q = F::from(q);
    let root = |k: u32| pow(pow(q, t), 1 << (s - k));
    (root(k), if k == s { q * q } else { root(k + 1) })
}

/// The coefficients of the polynomial of degree < n with these values on shift * w^i.
pub fn interpolate<F: PrimeField>(v: &[F], w: F, shift: F) -> Vec<F> {
    let n = v.len();
    let ninv = F::from(n as u64).inverse().unwrap();
    let wi = w.inverse().unwrap();
    let si = shift.inverse().unwrap();
    let mut powers = vec![F::one(); n];
    for i in 1..n {
        powers[i] = powers[i - 1] * wi;
    }
    (0..n).map(|k| (0..n).map(|i| v[i] * powers[i * k % n]).sum::<F>() * ninv * pow(si, k as u64)).collect()
}
pub fn at<F: PrimeField>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::zero(), |s, c| s * x + c)
}
pub fn mul<F: PrimeField>(a: &[F], b: &[F]) -> Vec<F> {
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    r
}

/// What the circom reduction must return.
pub fn circom<F: PrimeField>(s: &System, z: &[F]) -> Option<Vec<F>> {
    let n = s.domain_size();
    let k = n.trailing_zeros();
    if k > two_adicity::<F>().0 {
        return None;
    }
    let (w, shift) = snarkjs::<F>(k);
    let [a, b, _] = s.values(z);
    let ab: Vec<F> = a.iter().zip(&b).map(|(a, b)| *a * b).collect();
    let (a, b, c) = (interpolate(&a, w, F::one()), interpolate(&b, w, F::one()), interpolate(&ab, w, F::one()));
    Some(
        (0..n)
            .map(|i| {
                let x = shift * pow(w, i as u64);
                at(&a, x) * at(&b, x) - at(&c, x)
            })
            .collect(),
    )
}
/// What the libsnark reduction must return.
pub fn libsnark<F: PrimeField>(s: &System, z: &[F]) -> Option<Vec<F>> {
    let n = s.domain_size();
    if n.trailing_zeros() > two_adicity::<F>().0 {
        return None;
    }
    let w = F::get_root_of_unity(n as u64).unwrap();
    let g = F::GENERATOR;
    let [a, b, c] = s.values(z);
    let (a, b, c) = (interpolate(&a, w, F::one()), interpolate(&b, w, F::one()), interpolate(&c, w, F::one()));
    let zinv = (pow(g, n as u64) - F::one()).inverse().unwrap();
    let v: Vec<F> = (0..n)
        .map(|i| {
            let x = g * pow(w, i as u64);
            (at(&a, x) * at(&b, x) - at(&c, x)) * zinv
        })
        .collect();
    let h = interpolate(&v, w, g);
    if s.satisfied(z) {
        // The exact quotient.
        let mut p = mul(&a, &b);
        for (i, c) in c.iter().enumerate() {
            p[i] -= *c;
        }
        let mut hz = vec![F::zero(); 2 * n];
        for (i, h) in h.iter().enumerate() {
            hz[i + n] += *h;
            hz[i] -= *h;
        }
        p.resize(2 * n, F::zero());
        assert!(p == hz, "the reference itself is wrong");
    }
    Some(h)
}

/// Linear combinations used in enumerations; variables: 0 one, 1 public, 2.. private.
pub fn lcs(k: usize) -> Vec<Lc> {
    let mut v: Vec<Lc> = vec![
        vec![],
        vec![(1, 2)],
        vec![(1, 0)],
        vec![(2, 1), (-1, 3)],
        vec![(1, 3)],
        vec![(1, 2), (3, 3)],
        vec![(1, 1)],
        vec![(-1, 2), (5, 0), (1, 2)],
    ];
    v.truncate(k);
    v
}
/// The last row's c such that the row holds for this assignment (z[0] must be one).
pub fn satisfy<F: PrimeField>(s: &mut System, z: &[F], extra: usize) {
    let n = z.len();
    for i in 0..s.rows.len() {
        let ab = s.lc::<F>(&s.rows[i][0], z) * s.lc::<F>(&s.rows[i][1], z);
        // c = extra variable + constant.
        let j = (extra + i) % n;
        let k = small(ab - z[j]) as i64;
        s.rows[i][2] = vec![(1, j), (k, 0)];
    }
}
