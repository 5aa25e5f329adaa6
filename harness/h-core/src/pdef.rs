//! Poseidon2 and its Merkle trees as defined, apart from the code's own structure.
use ark_ff::PrimeField;
use mpc_core::gadgets::poseidon2::*;

/// A fixed function of where a constant is used.
fn constant(k: u64, salt: u64) -> u64 {
    let mut x = salt.wrapping_mul(0x9e3779b97f4a7c15) ^ k.wrapping_mul(0xd1342543de82ef95);
    for _ in 0..4 {
        x ^= 0x0909090909090909;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 29;
    }
    x >> 8
}

// ---------------------------------------------------------------- the definition
pub type Mat<F> = Vec<Vec<F>>;

pub fn external<F: PrimeField>(t: usize) -> Mat<F> {
    let m4 = [[5u64, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| {
                    F::from(match t {
                        2 | 3 => 1 + (i == j) as u64,
                        4 => m4[i][j],
                        _ => m4[i % 4][j % 4] * (1 + (i / 4 == j / 4) as u64),
                    })
                })
                .collect()
        })
        .collect()
}
pub fn internal<F: PrimeField>(diag: &[F]) -> Mat<F> {
    (0..diag.len()).map(|i| (0..diag.len()).map(|j| if i == j { diag[i] + F::one() } else { F::one() }).collect()).collect()
}
pub fn times<F: PrimeField>(m: &Mat<F>, s: &[F]) -> Vec<F> {
    m.iter().map(|r| r.iter().zip(s).map(|(a, b)| *a * b).sum()).collect()
}
pub fn power<F: PrimeField>(x: F, d: u64) -> F {
    (0..d).fold(F::one(), |a, _| a * x)
}
/// What the parameters describe, kept apart from the code's own structure.
pub struct Def<F: PrimeField> {
    pub d: u64,
    pub ext: Mat<F>,
    pub int: Mat<F>,
    pub first: Vec<Vec<F>>,
    pub inner: Vec<F>,
    pub last: Vec<Vec<F>>,
}
impl<F: PrimeField> Def<F> {
    pub fn of<const T: usize, const D: u64>(p: &Poseidon2Params<F, T, D>) -> Self {
        let rc: Vec<Vec<F>> = p.round_constants_external.iter().map(|r| r.to_vec()).collect();
        Def {
            d: D,
            ext: external(T),
            int: internal(&p.mat_internal_diag_m_1[..]),
            first: rc[..p.rounds_f_beginning].to_vec(),
            inner: p.round_constants_internal[..p.rounds_p].to_vec(),
            last: rc[p.rounds_f_beginning..p.rounds_f_beginning + p.rounds_f_end].to_vec(),
        }
    }
    pub fn outer_round(&self, s: &[F], rc: &[F]) -> Vec<F> {
        let s: Vec<F> = s.iter().zip(rc).map(|(x, c)| power(*x + c, self.d)).collect();
        times(&self.ext, &s)
    }
    pub fn inner_round(&self, s: &[F], rc: F) -> Vec<F> {
        let mut s = s.to_vec();
        s[0] = power(s[0] + rc, self.d);
        times(&self.int, &s)
    }
    pub fn perm(&self, s: &[F]) -> Vec<F> {
        let mut s = times(&self.ext, s);
        for rc in &self.first {
            s = self.outer_round(&s, rc);
        }
        for rc in &self.inner {
            s = self.inner_round(&s, *rc);
        }
        for rc in &self.last {
            s = self.outer_round(&s, rc);
        }
        s
    }
}

/// Parameters over any field: round numbers, and constants from `salt` (0: none).
pub fn params<F: PrimeField, const T: usize, const D: u64>(begin: usize, end: usize, inner: usize, salt: u64) -> &'static Poseidon2Params<F, T, D> {
    let v = |k: u64| if salt == 0 { F::zero() } else { F::from(constant(k, salt)) };
    let diag: [F; T] = match T {
        2 => std::array::from_fn(|i| F::from(i as u64 + 1)),
        3 => std::array::from_fn(|i| F::from(1 + (i == 2) as u64)),
        _ => std::array::from_fn(|i| if salt == 0 { F::from(i as u64 + 1) } else { v(1000 + i as u64) }),
    };
    let ext: Vec<[F; T]> = (0..begin + end).map(|r| std::array::from_fn(|i| v((r * T + i) as u64))).collect();
    let int: Vec<F> = (0..inner).map(|r| v(500 + r as u64)).collect();
    Box::leak(Box::new(Poseidon2Params {
        rounds_f_beginning: begin,
        rounds_f_end: end,
        rounds_p: inner,
        mat_internal_diag_m_1: Box::leak(Box::new(diag)),
        round_constants_external: Box::leak(Box::new(ext)),
        round_constants_internal: Box::leak(Box::new(int)),
    }))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Sponge,
    Compression,
}
pub fn node<F: PrimeField>(d: &Def<F>, t: usize, mode: Mode, children: &[F]) -> F {
    let mut s = children.to_vec();
    s.resize(t, F::zero());
    let r = d.perm(&s)[0];
    if mode == Mode::Compression { r + children[0] } else { r }
}
/// All levels, leaves first.
pub fn levels<F: PrimeField>(d: &Def<F>, t: usize, mode: Mode, arity: usize, leaves: &[F]) -> Vec<Vec<F>> {
    let mut l = vec![leaves.to_vec()];
    while l.last().unwrap().len() > 1 {
        let next = l.last().unwrap().chunks(arity).map(|ch| node(d, t, mode, ch)).collect();
        l.push(next);
    }
    l
}
