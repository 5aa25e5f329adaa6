//! Plonk circuits, keys, the prover's polynomials and the verification equation from their
//! definitions, over groups whose discrete logarithms are known.
use crate::pairing::*;
use crate::prelude::*;
use crate::r1cs::{at, interpolate, mul, pow, snarkjs};
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey, VerifyingKey, Zkey};
use sha3::Digest;

pub type S<P> = <P as ark_ec::pairing::Pairing>::ScalarField;

/// qm*a*b + ql*a + qr*b + qo*c + qc = 0 for three signals.
#[derive(Clone, Debug)]
pub struct Gate {
    pub q: [i64; 5],
    pub w: [usize; 3],
}
/// Signals: 0 is zero, then the public inputs, the private ones, the additions.
#[derive(Clone, Debug)]
pub struct Circuit {
    pub public: usize,
    pub private: usize,
    /// Each addition is f1*s1 + f2*s2.
    pub additions: Vec<(usize, i64, usize, i64)>,
    /// Gates after the ones that fix the public inputs.
    pub gates: Vec<Gate>,
    pub n: usize,
}

fn fe<F: PrimeField>(x: i64) -> F {
    crate::r1cs::fe(x)
}

impl Circuit {
    pub fn vars(&self) -> usize {
        1 + self.public + self.private + self.additions.len()
    }
    pub fn rows(&self) -> Vec<Gate> {
        let mut v: Vec<Gate> = (0..self.public).map(|j| Gate { q: [0, 1, 0, 0, 0], w: [j + 1, 0, 0] }).collect();
        v.extend(self.gates.iter().cloned());
        v
    }
    /// The values of all signals.
    pub fn signals<F: PrimeField>(&self, public: &[F], private: &[F]) -> Vec<F> {
        let mut s = vec![F::zero()];
        s.extend(public);
        s.extend(private);
        for (i, f, j, g) in &self.additions {
            s.push(fe::<F>(*f) * s[*i] + fe::<F>(*g) * s[*j]);
        }
        s
    }
    pub fn gate<F: PrimeField>(g: &Gate, s: &[F]) -> F {
        let [a, b, c] = g.w.map(|i| s[i]);
        let [m, l, r, o, k] = g.q.map(fe::<F>);
        m * a * b + l * a + r * b + o * c + k
    }
    pub fn satisfied<F: PrimeField>(&self, s: &[F]) -> bool {
        self.gates.iter().all(|g| Self::gate(g, s).is_zero())
    }
    /// Changes the constants so that the assignment satisfies all gates.
    pub fn satisfy<F: PrimeField>(&mut self, s: &[F]) {
        for g in &mut self.gates {
            let v = small(Self::gate(g, s)) as i64;
            g.q[4] -= v;
        }
    }
}

pub struct Keys<P: Toy> {
    pub c: Circuit,
    pub tau: S<P>,
    w: S<P>,
    k: [S<P>; 2],
    /// Coefficients of qm, ql, qr, qo, qc and the three sigmas.
    q: Vec<Vec<S<P>>>,
    s: Vec<Vec<S<P>>>,
    s_values: Vec<Vec<S<P>>>,
}

/// Two shifts that make three disjoint cosets of the domain.
fn cosets<F: PrimeField>(n: usize) -> [F; 2] {
    let id = |x: F| pow(x, n as u64);
    let mut found: Vec<F> = vec![];
    let mut x = 2u64;
    while found.len() < 2 {
        let f = F::from(x);
        if !id(f).is_one() && found.iter().all(|g| id(*g) != id(f)) {
            found.push(f);
        }
        x += 1;
    }
    [found[0], found[1]]
}

impl<P: Toy> Keys<P> {
    pub fn new(c: &Circuit, tau: u64) -> Self {
        let n = c.n;
        let w: S<P> = snarkjs::<S<P>>(n.trailing_zeros()).0;
        let k = cosets::<S<P>>(n);
        let rows = c.rows();
        assert!(rows.len() <= n);
        let q: Vec<Vec<S<P>>> = (0..5)
            .map(|i| {
                let mut v: Vec<S<P>> = rows.iter().map(|g| fe(g.q[i])).collect();
                v.resize(n, S::<P>::zero());
                interpolate(&v, w, S::<P>::one())
            })
            .collect();
        // Positions with the same signal form one cycle.
        let label = |col: usize, row: usize| [S::<P>::one(), k[0], k[1]][col] * pow(w, row as u64);
        let mut s_values: Vec<Vec<S<P>>> = (0..3).map(|col| (0..n).map(|row| label(col, row)).collect()).collect();
        let mut by_signal: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
        for (row, g) in rows.iter().enumerate() {
            for col in 0..3 {
                by_signal.entry(g.w[col]).or_default().push((col, row));
            }
        }
        for pos in by_signal.values() {
            for (i, (col, row)) in pos.iter().enumerate() {
                let (c2, r2) = pos[(i + 1) % pos.len()];
                s_values[*col][*row] = label(c2, r2);
            }
        }
        let s = s_values.iter().map(|v| interpolate(v, w, S::<P>::one())).collect();
        Keys { c: c.clone(), tau: S::<P>::from(tau), w, k, q, s, s_values }
    }
    fn exp(&self, poly: &[S<P>]) -> P::G1Affine {
        P::exp1(at(poly, self.tau))
    }
    pub fn zkey(&self) -> Zkey<P> {
        let n = self.c.n;
        let ext = snarkjs::<S<P>>((4 * n).trailing_zeros()).0;
        let poly = |c: &Vec<S<P>>| CircomPolynomial { coeffs: ark_poly::univariate::DensePolynomial { coeffs: c.clone() }, evaluations: (0..4 * n).map(|i| at(c, pow(ext, i as u64))).collect() };
        let rows = self.c.rows();
        let col = |i: usize| rows.iter().map(|g| g.w[i]).collect::<Vec<_>>();
        let lagrange = |j: usize| {
            let mut v = vec![S::<P>::zero(); n];
            v[j] = S::<P>::one();
            interpolate(&v, self.w, S::<P>::one())
        };
        Zkey {
            n_vars: self.c.vars(),
            n_public: self.c.public,
            domain_size: n,
            pow: n.trailing_zeros() as usize,
            n_additions: self.c.additions.len(),
            n_constraints: rows.len(),
            verifying_key: VerifyingKey {
                k1: self.k[0],
                k2: self.k[1],
                qm: self.exp(&self.q[0]),
                ql: self.exp(&self.q[1]),
                qr: self.exp(&self.q[2]),
                qo: self.exp(&self.q[3]),
                qc: self.exp(&self.q[4]),
                s1: self.exp(&self.s[0]),
                s2: self.exp(&self.s[1]),
                s3: self.exp(&self.s[2]),
                x_2: P::exp2(self.tau),
            },
            additions: self.c.additions.iter().map(|(i, f, j, g)| Additions { signal_id1: *i as u32, signal_id2: *j as u32, factor1: fe(*f), factor2: fe(*g) }).collect(),
            map_a: col(0),
            map_b: col(1),
            map_c: col(2),
            qm_poly: poly(&self.q[0]),
            ql_poly: poly(&self.q[1]),
            qr_poly: poly(&self.q[2]),
            qo_poly: poly(&self.q[3]),
            qc_poly: poly(&self.q[4]),
            s1_poly: poly(&self.s[0]),
            s2_poly: poly(&self.s[1]),
            s3_poly: poly(&self.s[2]),
            lagrange: (0..self.c.public).map(|j| poly(&lagrange(j))).collect(),
            p_tau: (0..n + 6).map(|i| P::exp1(pow(self.tau, i as u64))).collect(),
        }
    }
    pub fn vk(&self) -> VerificationKey<P>
    where
        P: circom_types::traits::CircomArkworksPairingBridge,
    {
        let g = |p: &Vec<S<P>>| small(at(p, self.tau));
        let f = |x: S<P>| small(x).to_string();
        serde_json::from_value(json!({
            "protocol": "plonk", "curve": "toy", "nPublic": self.c.public, "power": self.c.n.trailing_zeros(),
            "k1": f(self.k[0]), "k2": f(self.k[1]),
            "Qm": g(&self.q[0]), "Ql": g(&self.q[1]), "Qr": g(&self.q[2]), "Qo": g(&self.q[3]), "Qc": g(&self.q[4]),
            "S1": g(&self.s[0]), "S2": g(&self.s[1]), "S3": g(&self.s[2]),
            "X_2": small(self.tau), "w": f(self.w)
        }))
        .unwrap()
    }
}

/// Keccak of big-endian encodings.
struct Hash(sha3::Keccak256);
fn be<F: PrimeField>(x: F) -> Vec<u8> {
    let bits = 64 - modulus::<F>().leading_zeros();
    small(x).to_be_bytes()[8 - bits.div_ceil(8) as usize..].to_vec()
}
impl Hash {
    fn new() -> Self {
        Hash(sha3::Keccak256::new())
    }
    fn f<F: PrimeField>(mut self, x: F) -> Self {
        self.0.update(be(x));
        self
    }
    fn p<P: Toy>(mut self, p: P::G1Affine) -> Self
    where
        P::BaseField: PrimeField,
    {
        match p.xy() {
            Some((x, y)) => {
                self.0.update(be::<P::BaseField>(x));
                self.0.update(be::<P::BaseField>(y));
            }
            None => self.0.update(vec![0u8; 2 * be(P::BaseField::zero()).len()]),
        }
        self
    }
    fn out<F: PrimeField>(self) -> F {
        let m = modulus::<F>() as u128;
        F::from(self.0.finalize().iter().fold(0u128, |r, b| (r * 256 + *b as u128) % m) as u64)
    }
}
pub struct Challenges<F> {
    pub beta: F,
    pub gamma: F,
    pub alpha: F,
    pub xi: F,
    pub v: F,
    pub u: F,
}

pub fn points<P: Toy>(p: &PlonkProof<P>) -> [P::G1Affine; 9]
where
    P: circom_types::traits::CircomArkworksPairingBridge,
{
    [p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw]
}
pub fn evals<P: Toy>(p: &PlonkProof<P>) -> [S<P>; 6]
where
    P: circom_types::traits::CircomArkworksPairingBridge,
{
    [p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw]
}

impl<P: Toy + circom_types::traits::CircomArkworksPairingBridge> Keys<P>
where
    P::BaseField: PrimeField,
{
    pub fn challenges(&self, x: &[S<P>], p: &PlonkProof<P>) -> Challenges<S<P>> {
        let mut h = Hash::new();
        for q in self.q.iter().chain(&self.s) {
            h = h.p::<P>(self.exp(q));
        }
        for v in x {
            h = h.f(*v);
        }
        let beta: S<P> = h.p::<P>(p.a).p::<P>(p.b).p::<P>(p.c).out();
        let gamma: S<P> = Hash::new().f(beta).out();
        let alpha: S<P> = Hash::new().f(beta).f(gamma).p::<P>(p.z).out();
        let xi: S<P> = Hash::new().f(alpha).p::<P>(p.t1).p::<P>(p.t2).p::<P>(p.t3).out();
        let mut h = Hash::new().f(xi);
        for e in evals(p) {
            h = h.f(e);
        }
        Challenges { beta, gamma, alpha, xi, v: h.out(), u: Hash::new().p::<P>(p.wxi).p::<P>(p.wxiw).out() }
    }
    fn lagrange(&self, j: usize, x: S<P>) -> S<P> {
        let mut v = vec![S::<P>::zero(); self.c.n];
        v[j] = S::<P>::one();
        at(&interpolate(&v, self.w, S::<P>::one()), x)
    }
    /// Whether the verification equation holds (None where it divides by zero).
    pub fn holds(&self, x: &[S<P>], p: &PlonkProof<P>) -> Option<bool> {
        let Challenges { beta, gamma, alpha, xi, v, u } = self.challenges(x, p);
        let n = self.c.n as u64;
        let xin = pow(xi, n);
        if xin.is_one() {
            return None;
        }
        let [a, b, c, z, t1, t2, t3, wxi, wxiw] = points(p).map(|p| P::l1(&p));
        let [ea, eb, ec, es1, es2, ezw] = evals(p);
        let [q0, q1, q2, q3, q4] = [0, 1, 2, 3, 4].map(|i| at(&self.q[i], self.tau));
        let [s1, s2, s3] = [0, 1, 2].map(|i| at(&self.s[i], self.tau));
        let l1 = self.lagrange(0, xi);
        let pi: S<P> = -x.iter().enumerate().map(|(j, x)| *x * self.lagrange(j, xi)).sum::<S<P>>();
        let zh = xin - S::<P>::one();
        let id = (ea + beta * xi + gamma) * (eb + beta * self.k[0] * xi + gamma) * (ec + beta * self.k[1] * xi + gamma);
        let sig = (ea + beta * es1 + gamma) * (eb + beta * es2 + gamma);
        // The linearisation polynomial at tau, with its constant part.
        let r = ea * eb * q0 + ea * q1 + eb * q2 + ec * q3 + pi + q4
            + alpha * (id * z - sig * (ec + beta * s3 + gamma) * ezw)
            + alpha * alpha * (z - S::<P>::one()) * l1
            - zh * (t1 + xin * t2 + xin * xin * t3);
        // Openings at xi and xi * w.
        let f = r + v * (a - ea) + v * v * (b - eb) + v * v * v * (c - ec) + pow(v, 4) * (s1 - es1) + pow(v, 5) * (s2 - es2) + u * (z - ezw);
        Some((wxi + u * wxiw) * self.tau == xi * wxi + u * xi * self.w * wxiw + f)
    }

    /// The eleven blinding values of a proof for a satisfied circuit, if all of its elements are
    /// what the definition gives for them (None if the challenges do not determine them).
    pub fn blinding(&self, x: &[S<P>], private: &[S<P>], p: &PlonkProof<P>) -> Result<Option<Vec<S<P>>>, String> {
        type F<P> = S<P>;
        let Challenges { beta, gamma, alpha, xi, v, .. } = self.challenges(x, p);
        let (n, w, tau) = (self.c.n, self.w, self.tau);
        let one = F::<P>::one();
        let sig = self.c.signals(x, private);
        let rows = self.c.rows();
        let logs = points(p).map(|p| P::l1(&p));
        let ev = evals(p);
        let zh = |y: F<P>| pow(y, n as u64) - one;
        if zh(xi).is_zero() || zh(tau).is_zero() || xi == tau || xi * w == tau {
            return Ok(None);
        }
        // Multiples of X^n - 1.
        let times_zh = |q: &[F<P>]| {
            let mut r = vec![F::<P>::zero(); n + q.len()];
            for (i, c) in q.iter().enumerate() {
                r[i] -= *c;
                r[n + i] += *c;
            }
            r
        };
        let add = |a: &[F<P>], b: &[F<P>]| {
            let mut r = vec![F::<P>::zero(); a.len().max(b.len())];
            for (i, x) in a.iter().enumerate() {
                r[i] += *x;
            }
            for (i, x) in b.iter().enumerate() {
                r[i] += *x;
            }
            r
        };
        let scale = |a: &[F<P>], k: F<P>| a.iter().map(|x| *x * k).collect::<Vec<_>>();
        let mut out = vec![];
        let mut wires = vec![];
        let mut values = vec![];
        for i in 0..3 {
            let mut v: Vec<F<P>> = rows.iter().map(|g| sig[g.w[i]]).collect();
            v.resize(n, F::<P>::zero());
            let base = interpolate(&v, w, one);
            // base + (b0 X + b1) Zh at tau and xi.
            let (y0, y1) = ((logs[i] - at(&base, tau)) / zh(tau), (ev[i] - at(&base, xi)) / zh(xi));
            let b0 = (y0 - y1) / (tau - xi);
            let b1 = y0 - b0 * tau;
            out.extend([b0, b1]);
            wires.push(add(&base, &times_zh(&[b1, b0])));
            values.push(v);
        }
        let lin = |c0: F<P>, c1: F<P>| vec![c0, c1];
        let ids: Vec<Vec<F<P>>> = (0..3).map(|i| add(&wires[i], &lin(gamma, beta * [one, self.k[0], self.k[1]][i]))).collect();
        let sgs: Vec<Vec<F<P>>> = (0..3).map(|i| add(&add(&wires[i], &scale(&self.s[i], beta)), &[gamma])).collect();
        let mut acc = vec![one];
        for row in 0..n {
            let (mut num, mut den) = (one, one);
            for i in 0..3 {
                num *= values[i][row] + beta * [one, self.k[0], self.k[1]][i] * pow(w, row as u64) + gamma;
                den *= values[i][row] + beta * self.s_values[i][row] + gamma;
            }
            if den.is_zero() || num.is_zero() {
                return Ok(None);
            }
            acc.push(acc[row] * num / den);
        }
        if !acc[n].is_one() {
            return Err("the reference itself is wrong: grand product".into());
        }
        let z0 = interpolate(&acc[..n], w, one);
        let mut pub_values: Vec<F<P>> = x.iter().map(|v| -*v).collect();
        pub_values.resize(n, F::<P>::zero());
        let pi = interpolate(&pub_values, w, one);
        let mut first = vec![F::<P>::zero(); n];
        first[0] = one;
        let l1 = interpolate(&first, w, one);
        let mut gates = mul(&mul(&wires[0], &wires[1]), &self.q[0]);
        for i in 0..3 {
            gates = add(&gates, &mul(&wires[i], &self.q[i + 1]));
        }
        gates = add(&add(&gates, &pi), &self.q[4]);
        let ids = mul(&mul(&ids[0], &ids[1]), &ids[2]);
        let sgs = mul(&mul(&sgs[0], &sgs[1]), &sgs[2]);
        // z at tau * w from the quotient's commitments.
        let tn = pow(tau, n as u64);
        let t = logs[4] + tn * logs[5] + tn * tn * logs[6];
        let d = alpha * at(&sgs, tau);
        if d.is_zero() {
            return Ok(None);
        }
        let ztw = (at(&gates, tau) + alpha * at(&ids, tau) * logs[3] + alpha * alpha * (logs[3] - one) * at(&l1, tau) - t * zh(tau)) / d;
        let xs = [tau, xi * w, tau * w];
        if xs[1] == xs[2] {
            return Ok(None);
        }
        let ys: Vec<F<P>> = xs.iter().zip([logs[3], ev[5], ztw]).map(|(y, v)| (v - at(&z0, *y)) / zh(*y)).collect();
        let mut b = vec![F::<P>::zero(); 3];
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            let s = ys[i] / ((xs[i] - xs[j]) * (xs[i] - xs[k]));
            b = add(&b, &scale(&[xs[j] * xs[k], -xs[j] - xs[k], one], s));
        }
        out.extend([b[2], b[1], b[0]]);
        let z = add(&z0, &times_zh(&b));
        let zw: Vec<F<P>> = z.iter().enumerate().map(|(i, c)| *c * pow(w, i as u64)).collect();
        let mut big = add(&gates, &scale(&mul(&ids, &z), alpha));
        big = add(&big, &scale(&mul(&sgs, &zw), -alpha));
        big = add(&big, &scale(&mul(&add(&z, &[-one]), &l1), alpha * alpha));
        // Division by X^n - 1.
        let mut quot = vec![F::<P>::zero(); big.len() - n];
        for i in (n..big.len()).rev() {
            quot[i - n] = big[i];
            let c = big[i];
            big[i - n] += c;
        }
        if big[..n].iter().any(|c| !c.is_zero()) {
            return Err("the reference itself is wrong: the quotient has a remainder".into());
        }
        while quot.last().is_some_and(|c| c.is_zero()) {
            quot.pop();
        }
        quot.resize(quot.len().max(3 * n + 6), F::<P>::zero());
        if quot[3 * n + 6..].iter().any(|c| !c.is_zero()) {
            return Err("the reference itself is wrong: the quotient's degree".into());
        }
        let (q1, q2, q3) = (at(&quot[..n], tau), at(&quot[n..2 * n], tau), at(&quot[2 * n..], tau));
        let b9 = (logs[4] - q1) / tn;
        let b10 = q3 - logs[6];
        if logs[5] != q2 - b9 + b10 * tn {
            return Err("the quotient's commitments do not belong to the quotient".into());
        }
        out.extend([b9, b10]);
        if ev[3] != at(&self.s[0], xi) || ev[4] != at(&self.s[1], xi) {
            return Err("the permutation's values are wrong".into());
        }
        if logs[8] * (tau - xi * w) != logs[3] - ev[5] {
            return Err("the second opening is wrong".into());
        }
        // The first opening: linearisation polynomial and the rest.
        let xin = pow(xi, n as u64);
        let at_xi = |p: &[F<P>]| at(p, xi);
        let idv = at_xi(&ids);
        let sg2 = (ev[0] + beta * ev[3] + gamma) * (ev[1] + beta * ev[4] + gamma);
        let [q0, q1s, q2s, q3s, q4s] = [0, 1, 2, 3, 4].map(|i| at(&self.q[i], tau));
        let r = ev[0] * ev[1] * q0 + ev[0] * q1s + ev[1] * q2s + ev[2] * q3s + at_xi(&pi) + q4s
            + alpha * (idv * logs[3] - sg2 * (ev[2] + beta * at(&self.s[2], tau) + gamma) * ev[5])
            + alpha * alpha * (logs[3] - one) * at_xi(&l1)
            - (xin - one) * (logs[4] + xin * logs[5] + xin * xin * logs[6]);
        let open = r + v * (logs[0] - ev[0]) + v * v * (logs[1] - ev[1]) + v * v * v * (logs[2] - ev[2]) + pow(v, 4) * (at(&self.s[0], tau) - ev[3]) + pow(v, 5) * (at(&self.s[1], tau) - ev[4]);
        if logs[7] * (tau - xi) != open {
            return Err("the first opening is wrong".into());
        }
        Ok(Some(out))
    }
}
