//! K03: Groth16 proofs over groups whose discrete logarithms are known.
use crate::pairing::*;
use crate::prelude::*;
use crate::r1cs::*;
use ark_ec::{CurveGroup, PrimeGroup};
use ark_groth16::{Proof, ProvingKey, VerifyingKey};
use co_circom_types::SharedWitness;
use co_groth16::{CircomReduction, ConstraintMatrices, Groth16, LibSnarkReduction, ShamirCoGroth16};
use std::sync::Arc;

type S<P> = <P as ark_ec::pairing::Pairing>::ScalarField;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Circom,
    LibSnark,
}
pub fn usable<F: PrimeField>(k: Kind, s: &System) -> bool {
    let n = s.domain_size() as u64;
    let (adicity, _) = two_adicity::<F>();
    // The key needs a coset disjoint from the domain.
    n.trailing_zeros() <= adicity && n < modulus::<F>() - 1 && !(k == Kind::Circom && n.trailing_zeros() == adicity && pow(snarkjs::<F>(adicity).1, n).is_one())
}

/// What the key's group elements are made of.
pub struct Setup<P: Toy> {
    pub key: ProvingKey<P>,
    a: Vec<S<P>>,
    b: Vec<S<P>>,
    abc: Vec<S<P>>,
    h: Vec<S<P>>,
    alpha: S<P>,
    beta: S<P>,
    gamma: S<P>,
    delta: S<P>,
}

/// Keys as the definition of Groth16 gives them, from the trapdoor tau, alpha, beta, gamma, delta.
pub fn setup<P: Toy>(k: Kind, s: &System, trap: [u64; 5]) -> Setup<P> {
    let [tau, alpha, beta, gamma, delta] = trap.map(S::<P>::from);
    let n = s.domain_size();
    let (m, l) = (s.rows.len(), s.public);
    let w = match k {
        Kind::Circom => snarkjs::<S<P>>(n.trailing_zeros()).0,
        Kind::LibSnark => ark_ff::FftField::get_root_of_unity(n as u64).unwrap(),
    };
    // Lagrange polynomials of shift * <w> at tau.
    let lagrange = |shift: S<P>| -> Vec<S<P>> {
        (0..n)
            .map(|i| {
                let xi = shift * pow(w, i as u64);
                let (mut num, mut den) = (S::<P>::one(), S::<P>::one());
                for j in 0..n {
                    if j != i {
                        let xj = shift * pow(w, j as u64);
                        num *= tau - xj;
                        den *= xi - xj;
                    }
                }
                num / den
            })
            .collect()
    };
    let lag = lagrange(S::<P>::one());
    let vars = l + s.private;
    let side = |q: usize| -> Vec<S<P>> {
        let mut v = vec![S::<P>::zero(); vars];
        for (i, r) in s.rows.iter().enumerate() {
            for (c, j) in &r[q] {
                v[*j] += fe::<S<P>>(*c) * lag[i];
            }
        }
        v
    };
    let (mut a, b, c) = (side(0), side(1), side(2));
    for j in 0..l {
        a[j] += lag[m + j];
    }
    let abc: Vec<S<P>> = (0..vars).map(|j| (beta * a[j] + alpha * b[j] + c[j]) / if j < l { gamma } else { delta }).collect();
    let z = pow(tau, n as u64) - S::<P>::one();
    let h: Vec<S<P>> = match k {
        Kind::Circom => {
            let shift = snarkjs::<S<P>>(n.trailing_zeros()).1;
            // Polynomials that vanish on the domain, from their values on the coset.
            let zc = pow(shift, n as u64) - S::<P>::one();
            lagrange(shift).into_iter().map(|x| x * z / zc / delta).collect()
        }
        Kind::LibSnark => (0..n - 1).map(|i| pow(tau, i as u64) * z / delta).collect(),
    };
    let e1 = |v: &[S<P>]| v.iter().map(|x| P::exp1(*x)).collect::<Vec<_>>();
    let key = ProvingKey {
        vk: VerifyingKey { alpha_g1: P::exp1(alpha), beta_g2: P::exp2(beta), gamma_g2: P::exp2(gamma), delta_g2: P::exp2(delta), gamma_abc_g1: e1(&abc[..l]) },
        beta_g1: P::exp1(beta),
        delta_g1: P::exp1(delta),
        a_query: e1(&a),
        b_g1_query: e1(&b),
        b_g2_query: b.iter().map(|x| P::exp2(*x)).collect(),
        h_query: e1(&h),
        l_query: e1(&abc[l..]),
    };
    Setup { key, a, b, abc, h, alpha, beta, gamma, delta }
}

impl<P: Toy> Setup<P> {
    /// The blinding values of a proof, if its third element is what the definition gives for them.
    fn blinding(&self, k: Kind, s: &System, z: &[S<P>], proof: [S<P>; 3]) -> Result<(S<P>, S<P>), String> {
        let quotient = match k {
            Kind::Circom => circom(s, z),
            Kind::LibSnark => libsnark(s, z),
        }
        .unwrap();
        let dot = |a: &[S<P>], b: &[S<P>]| a.iter().zip(b).map(|(a, b)| *a * b).sum::<S<P>>();
        let [a, b, c] = proof;
        let a0 = self.alpha + dot(&self.a, z);
        let b0 = self.beta + dot(&self.b, z);
        let (r, t) = ((a - a0) / self.delta, (b - b0) / self.delta);
        let want = dot(&self.abc[s.public..], &z[s.public..]) + dot(&self.h, &quotient) + t * a + r * b - r * t * self.delta;
        if c != want {
            return Err(format!("third element is {} instead of {} (first two {}, {})", small(c), small(want), small(a), small(b)));
        }
        Ok((r, t))
    }
    /// Whether the verification equation holds for these public inputs (without the one).
    fn holds(&self, x: &[S<P>], [a, b, c]: [S<P>; 3]) -> bool {
        let sum = self.abc[0] + x.iter().zip(&self.abc[1..]).map(|(x, g)| *x * g).sum::<S<P>>();
        a * b == self.alpha * self.beta + sum * self.gamma + c * self.delta
    }
}

fn logs<P: Toy>(p: &Proof<P>) -> [S<P>; 3] {
    [P::l1(&p.a), P::l2(&p.b), P::l1(&p.c)]
}
fn unlogs<P: Toy>([a, b, c]: [S<P>; 3]) -> Proof<P> {
    Proof { a: P::exp1(a), b: P::exp2(b), c: P::exp1(c) }
}

pub fn plain<P: Toy>(k: Kind, key: &ProvingKey<P>, m: &ConstraintMatrices<S<P>>, public: &[S<P>], witness: &[S<P>]) -> eyre::Result<Proof<P>> {
    let w = SharedWitness { public_inputs: public.to_vec(), witness: witness.to_vec() };
    match k {
        Kind::Circom => Groth16::<P>::plain_prove::<CircomReduction>(key, m, w),
        Kind::LibSnark => Groth16::<P>::plain_prove::<LibSnarkReduction>(key, m, w),
    }
}
pub fn shared<P: Toy>(k: Kind, net: &SimNet, n: usize, t: usize, key: &ProvingKey<P>, m: &ConstraintMatrices<S<P>>, public: &[S<P>], witness: &[Sh<S<P>>]) -> eyre::Result<Proof<P>> {
    let w = SharedWitness { public_inputs: public.to_vec(), witness: witness.to_vec() };
    let (net0, net1) = (SimNet { net: 0, ..*net }, SimNet { net: 1, ..*net });
    match k {
        Kind::Circom => ShamirCoGroth16::<P>::prove::<_, CircomReduction>(&net0, &net1, n, t, key, m, w),
        Kind::LibSnark => ShamirCoGroth16::<P>::prove::<_, LibSnarkReduction>(&net0, &net1, n, t, key, m, w),
    }
}

/// A proof is as defined, and the verifier says about it what the equation says.
fn proof_ok<P: Toy>(k: Kind, s: &System, su: &Setup<P>, z: &[S<P>], proof: &Proof<P>) -> Result<(S<P>, S<P>), String> {
    let l = logs(proof);
    let rs = su.blinding(k, s, z, l)?;
    let x = &z[1..s.public];
    if s.satisfied(z) && !su.holds(x, l) {
        return Err("the proof of a satisfied system is wrong".into());
    }
    match (Groth16::<P>::verify(&su.key.vk, proof, x), su.holds(x, l)) {
        (Ok(()), true) | (Err(_), false) => Ok(rs),
        (v, h) => Err(format!("verification gives {v:?}, the equation {h}")),
    }
}

/// Systems of every shape; assignments satisfied or not.
fn patterned(public: usize, private: usize, m: usize, salt: usize) -> System {
    let vars = public + private;
    let lc = |i: usize| -> Lc { (0..(i + salt) % 3 + 1).map(|j| ((i * 3 + j * 5 + salt) as i64 % 7 - 3, (i * (j + 1) + j + salt) % vars)).collect() };
    System { public, private, rows: (0..m).map(|i| [lc(3 * i + 1), lc(3 * i + 2), lc(3 * i + 3)]).collect() }
}
fn assignment<F: PrimeField>(vars: usize, salt: u64) -> Vec<F> {
    (0..vars as u64).map(|i| if i == 0 { F::one() } else { F::from(i * i * 7 + i * salt + 3 * salt + 2) }).collect()
}
/// Nonzero trapdoors outside the domain (for the given domain size if there is one).
fn trapdoors<F: PrimeField>(n: usize, count: usize) -> Vec<[u64; 5]> {
    let p = modulus::<F>();
    let mut v = vec![];
    let mut i = 0u64;
    while v.len() < count {
        let pick = |k: u64| 1 + (i * i * 5 + i * (2 * k + 3) + k * k * 3 + k + 1) % (p - 1);
        let t = [pick(0), pick(1), pick(2), pick(3), pick(4)];
        if !pow(F::from(t[0]), n as u64).is_one() || n as u64 == p - 1 {
            v.push(t);
        }
        i += 1;
        if i > 10 * p {
            break;
        }
    }
    v
}

fn shapes<P: Toy>(c: &Check, max: usize) {
    let p = modulus::<S<P>>();
    let name = format!("plain-p{p}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut jobs = vec![];
    for m in 0..=max {
        for public in 1..=4usize {
            for private in 0..=3usize {
                jobs.push((m, public, private));
            }
        }
    }
    let mut e = explorer(0, 60);
    e.bounds.max_executions = 100_000;
    let stats = e.explore(move |out| {
        let (m, public, private) = jobs[mc::pick(jobs.len() as u32, "shape") as usize];
        out.set((|| {
            for salt in 0..q(4, 8) {
                let mut s = patterned(public, private, m, salt);
                let z = assignment::<S<P>>(public + private, salt as u64 + 1);
                if salt % 2 == 1 {
                    satisfy(&mut s, &z, salt);
                }
                for k in [Kind::Circom, Kind::LibSnark] {
                    if !usable::<S<P>>(k, &s) {
                        continue;
                    }
                    for trap in trapdoors::<S<P>>(s.domain_size(), q(3, 8)) {
                        let su = setup::<P>(k, &s, trap);
                        let what = || format!("{k:?}, {s:?}, assignment {:?}, trapdoor {trap:?}", z.iter().map(|x| small(*x)).collect::<Vec<_>>());
                        let (pu, pr) = z.split_at(public);
                        let proof = plain::<P>(k, &su.key, &s.matrices(), pu, pr).map_err(|e| format!("{e}; {}", what()))?;
                        proof_ok(k, &s, &su, &z, &proof).map_err(|e| format!("{e}; {}", what()))?;
                    }
                }
            }
            Ok("ok".into())
        })());
    });
    c.explored(&name, &stats);
}

/// The verifier against the equation: every proof, for several public inputs and their number.
fn verifier<P: Toy>(c: &Check) {
    let p = modulus::<S<P>>();
    let name = format!("verifier-p{p}");
    if !c.selected(&name) {
        return;
    }
    let mut jobs = vec![];
    for public in 1..=3usize {
        for trap in trapdoors::<S<P>>(4, q(2, 6)) {
            jobs.push((public, trap));
        }
    }
    parallel(c, jobs, |c, (public, trap)| {
        c.at(&name);
        let s = patterned(public, 1, 1, 0);
        let su = setup::<P>(Kind::LibSnark, &s, trap);
        let mut cases = 0u64;
        for w in words(p, 3) {
            let l = [0, 1, 2].map(|i| S::<P>::from(w[i]));
            let proof = unlogs::<P>(l);
            for x0 in [[0, 1], [w[0], 3], [(w[1] + w[2]) % p, p - 1]] {
                for len in 0..=public + 1 {
                    let x: Vec<S<P>> = (0..len).map(|i| S::<P>::from(x0[i % 2])).collect();
                    let got = mc::catch(|| Groth16::<P>::verify(&su.key.vk, &proof, &x).is_ok());
                    let want = len == public - 1 && su.holds(&x, l);
                    cases += 1;
                    c.expect(got == Ok(want), &name, || format!("verification gives {got:?} instead of {want}: proof exponents {w:?}, {public} instance variables, public inputs {x:?}, trapdoor {trap:?}"));
                }
            }
            if c.failed() {
                return;
            }
        }
        c.count(cases, cases);
        c.tick();
    });
}

#[derive(Clone)]
struct Case<P: Toy> {
    k: Kind,
    s: System,
    su: Arc<Setup<P>>,
    trap: [u64; 5],
}

/// The parties' proof, judged; the blinding values on success.
fn world<P: Toy>(case: &Case<P>, n: usize, t: usize, z: Vec<S<P>>, shares: Vec<Vec<Sh<S<P>>>>) -> Result<(S<P>, S<P>), String> {
    let Case { k, s, su, trap } = case;
    let what = format!("{k:?}, {s:?}, assignment {:?}, trapdoor {trap:?}", z.iter().map(|x| small(*x)).collect::<Vec<_>>());
    let (k2, s2, su2, z2) = (*k, s.clone(), su.clone(), z.clone());
    let res = run(n, move |i, net| shared::<P>(k2, &net, n, t, &su2.key, &s2.matrices(), &z2[..s2.public], &shares[i]));
    let mut proofs = vec![];
    for (i, r) in res.into_iter().enumerate() {
        proofs.push(r.map_err(|e| format!("party {i} panics: {e}; {what}"))?.map_err(|e| format!("party {i} fails: {e}; {what}"))?);
    }
    let l: Vec<_> = proofs.iter().map(logs).collect();
    if l.iter().any(|x| *x != l[0]) {
        return Err(format!("the parties' proofs differ: {l:?}; {what}"));
    }
    if undelivered() != 0 {
        return Err(format!("{} messages were never received; {what}", undelivered()));
    }
    proof_ok(*k, s, su, &z, &proofs[0]).map_err(|e| format!("{e}; {what}"))
}

fn deal<F: PrimeField>(z: &[F], t: usize, n: usize, salt: u64) -> Vec<Vec<Sh<F>>> {
    let p = modulus::<F>();
    let draws = (0..(t * z.len()) as u64).map(|i| (i * 5 + i * i * salt + salt * (i + 2) + 1) % p).collect();
    shamir::share_field_elements(z, t, n, &mut ListRng::new(draws))
}

/// Shared proofs for systems of every shape.
fn shared_shapes<P: Toy>(c: &Check, n: usize, t: usize, m: usize) {
    let p = modulus::<S<P>>();
    let name = format!("shared-p{p}-n{n}-t{t}-m{m}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let mut cases = vec![];
    for public in 1..=3usize {
        for private in 0..=3usize {
            for salt in 0..q(4usize, 8) {
                let mut s = patterned(public, private, m, salt);
                let z = assignment::<S<P>>(public + private, salt as u64 + 1);
                if salt % 2 == 1 {
                    satisfy(&mut s, &z, salt);
                }
                for k in [Kind::Circom, Kind::LibSnark] {
                    if usable::<S<P>>(k, &s) {
                        let trap = trapdoors::<S<P>>(s.domain_size(), salt + 1).pop().unwrap();
                        cases.push((Case { k, su: Arc::new(setup::<P>(k, &s, trap)), s: s.clone(), trap }, z.clone()));
                    }
                }
            }
        }
    }
    let e = explorer(0, 60);
    let cases = Arc::new(cases);
    let stats = e.explore(move |out| {
        let (case, z) = &cases[mc::pick(cases.len() as u32, "case") as usize];
        let salt = mc::pick(q(2, 4), "tape") as u64;
        script_fixed(p, salt);
        let sh = deal(&z[case.s.public..], t, n, salt);
        out.set(world(case, n, t, z.clone(), sh).map(|_| "ok".into()));
    });
    c.explored(&name, &stats);
}

/// The system a * b = c + d (c, or c and d, public), every assignment and every sharing.
fn product(public: usize) -> System {
    let v = |i: usize| vec![(1, i)];
    // Variables: 0 one, 1 c, 2 d, 3 a, 4 b.
    System { public, private: 5 - public, rows: vec![[v(3), v(4), vec![(1, 1), (1, 2)]]] }
}
fn contents<P: Toy>(c: &Check, n: usize, t: usize, k: Kind, public: usize, free: u32) {
    let p = modulus::<S<P>>();
    let name = format!("contents-{k:?}-p{p}-n{n}-t{t}-{public}-public");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let s = product(public);
    let trap = trapdoors::<S<P>>(s.domain_size(), 2).pop().unwrap();
    let case = Case { k, su: Arc::new(setup::<P>(k, &s, trap)), s, trap };
    let mut e = explorer(0, 60);
    e.bounds.max_executions = q(30_000, 500_000);
    let stats = e.explore(move |out| {
        let mut z = vec![S::<P>::one()];
        for i in 1..5 {
            z.push(if i > 4 - free as usize { S::<P>::from(mc::pick(p as u32, "value") as u64) } else { S::<P>::from(3 * i as u64 + 1) });
        }
        let good = mc::pick(2, "satisfied") == 1;
        if good {
            z[1] = z[3] * z[4] - z[2];
        }
        let salt = mc::pick(2, "tape") as u64;
        script_fixed(p, salt);
        let sh = deal(&z[public..], t, n, salt);
        out.set(world(&case, n, t, z, sh).map(|_| "ok".into()));
    });
    c.explored(&name, &stats);
}

/// Schedules: every execution that deviates from the default one at most `dev` times.
fn schedules<P: Toy>(c: &Check, n: usize, t: usize, k: Kind, dev: u32) {
    let p = modulus::<S<P>>();
    let name = format!("schedules-{k:?}-p{p}-n{n}-t{t}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let s = product(2);
    let trap = trapdoors::<S<P>>(s.domain_size(), 1).pop().unwrap();
    let case = Case { k, su: Arc::new(setup::<P>(k, &s, trap)), s, trap };
    let mut e = explorer(dev, 60);
    e.bounds.max_executions = q(15_000, 1_000_000);
    let stats = e.explore(move |out| {
        let z: Vec<S<P>> = [1u64, 26, 4, 5, 6].into_iter().map(S::<P>::from).collect();
        script_fixed(p, 1);
        let sh = deal(&z[2..], t, n, 1);
        out.set(world(&case, n, t, z, sh).map(|(r, t)| format!("r {r} s {t}")));
    });
    if stats.violation.is_none() {
        c.expect(stats.outcomes.len() == 1, &name, || format!("the proof depends on the schedule: {:?}", stats.outcomes));
    }
    c.explored(&name, &stats);
}

/// Which parties hold each seed of a run.
fn holders<P: Toy>(case: &Case<P>, n: usize, t: usize) -> BTreeMap<[u8; 32], BTreeSet<usize>> {
    let out: Arc<std::sync::Mutex<BTreeMap<_, _>>> = Default::default();
    let (o, case) = (out.clone(), case.clone());
    let mut e = explorer(0, 60);
    e.bounds.max_executions = 1;
    let st = e.explore(move |res| {
        simrand::ctl::ctl().script = Some(Rc::new(|_, _| 0));
        let z: Vec<S<P>> = [1u64, 26, 4, 5, 6].into_iter().map(S::<P>::from).collect();
        let sh = deal(&z[2..], t, n, 1);
        let _ = world(&case, n, t, z, sh);
        *o.lock().unwrap() = simrand::ctl::ctl().holders.clone();
        res.set(Ok("done".into()));
    });
    assert!(st.violation.is_none(), "{:?}", st.violation);
    let m = out.lock().unwrap().clone();
    m
}

/// The randomness unknown to t colluding parties makes both blinding values uniform and independent.
fn blinding<P: Toy>(c: &Check, n: usize, t: usize, k: Kind) {
    let p = modulus::<S<P>>();
    let name = format!("blinding-{k:?}-p{p}-n{n}-t{t}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    let s = product(2);
    let trap = trapdoors::<S<P>>(s.domain_size(), 1).pop().unwrap();
    let case = Case { k, su: Arc::new(setup::<P>(k, &s, trap)), s, trap };
    let known = Arc::new(holders(&case, n, t));
    for coalition in subsets(n, t) {
        c.at(&name);
        let mut e = explorer(0, 60);
        e.bounds.max_executions = q(20_000, 500_000);
        let (known, case, corrupt) = (known.clone(), case.clone(), coalition.clone());
        let stats = e.explore(move |out| {
            let z: Vec<S<P>> = [1u64, 26, 4, 5, 6].into_iter().map(S::<P>::from).collect();
            let done = Rc::new(RefCell::new(false));
            let (known, corrupt) = (known.clone(), corrupt.clone());
            simrand::ctl::ctl().script = Some(Rc::new(move |seed, _| {
                let secret = known.get(seed).is_some_and(|h| h.iter().all(|i| !corrupt.contains(i)));
                if !secret || *done.borrow() {
                    return 0;
                }
                let v = mc::pick(2, "draw") as u64;
                *done.borrow_mut() = v != 0;
                v
            }));
            let sh = deal(&z[2..], t, n, 1);
            out.set(world(&case, n, t, z, sh).map(|(r, t)| format!("{},{}", small(r), small(t))));
        });
        c.explored(&name, &stats);
        if stats.capped || stats.violation.is_some() {
            return;
        }
        // The blinding values are affine in the draws: directions spanned from the base point.
        let pts: Vec<Vec<u64>> = stats.outcomes.keys().map(|k| k.split(',').map(|x| x.parse().unwrap()).collect()).collect();
        let base = &pts[0];
        let dirs: Vec<(u64, u64)> = pts[1..].iter().map(|v| ((v[0] + p - base[0]) % p, (v[1] + p - base[1]) % p)).collect();
        let span = dirs.iter().any(|a| dirs.iter().any(|b| (a.0 * b.1) % p != (a.1 * b.0) % p));
        c.expect(span, &name, || format!("to parties {coalition:?} the two blinding values are not uniform: varying one unknown draw at a time gives {pts:?}"));
    }
}
/// Plain proofs: the two blinding values are the two fresh draws.
fn blinding_plain<P: Toy>(c: &Check, k: Kind) {
    let p = modulus::<S<P>>();
    let name = format!("blinding-plain-{k:?}-p{p}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let s = product(2);
    let trap = trapdoors::<S<P>>(s.domain_size(), 1).pop().unwrap();
    let case = Case { k, su: Arc::new(setup::<P>(k, &s, trap)), s, trap };
    let e = explorer(0, 60);
    let stats = e.explore(move |out| {
        let z: Vec<S<P>> = [1u64, 26, 4, 5, 6].into_iter().map(S::<P>::from).collect();
        simrand::ctl::ctl().script = Some(Rc::new(move |_, _| mc::pick(p as u32, "draw") as u64));
        let r = plain::<P>(k, &case.su.key, &case.s.matrices(), &z[..2], &z[2..]);
        out.set(r.map_err(|e| e.to_string()).and_then(|pr| proof_ok(k, &case.s, &case.su, &z, &pr)).map(|(r, t)| format!("{r},{t}")));
    });
    c.explored(&name, &stats);
    if stats.violation.is_none() && !stats.capped {
        let per = stats.executions / (p * p);
        let ok = stats.outcomes.len() as u64 == p * p && stats.outcomes.values().all(|v| *v == per);
        c.expect(ok, &name, || format!("the blinding values are not uniform: {} different pairs in {} draws", stats.outcomes.len(), stats.executions));
    }
}

/// Numbers of values that do not fit the system are errors, alone and together.
fn sizes<P: Toy>(c: &Check, k: Kind) {
    let name = format!("sizes-{k:?}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for (public, private, m) in [(1usize, 0usize, 0usize), (1, 2, 1), (2, 0, 1), (2, 3, 3), (3, 1, 5), (4, 4, 4)] {
        let s = patterned(public, private, m, 1);
        let trap = trapdoors::<S<P>>(s.domain_size(), 1).pop().unwrap();
        let su = Arc::new(setup::<P>(k, &s, trap));
        for a in 0..=public + 3 {
            for b in 0..=private + 3 {
                let z = assignment::<S<P>>(a + b, 1);
                let fits = a == public && b == private;
                let e = explorer(0, 60);
                let (s2, su2, z2) = (s.clone(), su.clone(), z.clone());
                let stats = e.explore(move |out| {
                    let got = plain::<P>(k, &su2.key, &s2.matrices(), &z2[..a], &z2[a..]).is_ok();
                    out.set(if got == fits { Ok("ok".into()) } else { Err(format!("the plain prover succeeds: {got}; {a} public and {b} private values for a system with {public} and {private}")) });
                });
                c.explored(&name, &stats);
                for (n, t) in [(3usize, 1usize), (2, 0)] {
                    let e = explorer(0, 60);
                    let (s2, su2, z2) = (s.clone(), su.clone(), z.clone());
                    let stats = e.explore(move |out| {
                        script_fixed(modulus::<S<P>>(), 1);
                        let sh = deal(&z2[a..], t, n, 1);
                        let (s3, su3, z3) = (s2.clone(), su2.clone(), z2.clone());
                        let res = run(n, move |i, net| shared::<P>(k, &net, n, t, &su3.key, &s3.matrices(), &z3[..a], &sh[i]).map(|_| ()));
                        let all: Vec<String> = res.into_iter().map(|r| match r {
                            Ok(Ok(())) => "proof".into(),
                            Ok(Err(_)) => "error".into(),
                            Err(e) => format!("panic: {e}"),
                        }).collect();
                        let want = if fits { "proof" } else { "error" };
                        out.set(if all.iter().all(|r| r == want) { Ok("ok".into()) } else { Err(format!("{all:?}: {a} public and {b} private values for a system with {public} and {private}")) });
                    });
                    c.explored(&name, &stats);
                }
                if c.failed() {
                    return;
                }
            }
        }
    }
}

/// The curves in use: proofs for the repository's circuits are accepted, altered ones are not.
fn real<P>(c: &Check, dir: &str)
where
    P: ark_ec::pairing::Pairing + circom_types::traits::CircomArkworksPairingBridge + ark_serde_compat::CanonicalJsonSerialize,
    P: CurveOf,
{
    let name = format!("vectors-{}", dir.replace('/', "-"));
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let path = format!("/repo/test_vectors/Groth16/{dir}");
    let file = |f: &str| std::fs::File::open(format!("{path}/{f}")).expect(f);
    let witness = circom_types::Witness::<S<P>>::from_reader(file("witness.wtns")).unwrap().values;
    let (m, key): (ConstraintMatrices<S<P>>, ProvingKey<P>) = circom_types::groth16::Zkey::<P>::from_reader(file("circuit.zkey"), circom_types::CheckElement::Yes).unwrap().into();
    let vk: VerifyingKey<P> = serde_json::from_reader::<_, circom_types::groth16::VerificationKey<P>>(file("verification_key.json")).unwrap().into();
    let stored: Proof<P> = serde_json::from_reader::<_, circom_types::groth16::Proof<P>>(file("circom.proof")).unwrap().into();
    let l = m.num_instance_variables;
    let x = witness[1..l].to_vec();
    let mut proofs = vec![("snarkjs", stored)];
    let proved: Arc<std::sync::Mutex<Vec<(&'static str, Proof<P>)>>> = Default::default();
    let (o, key, m) = (proved.clone(), Arc::new(key), Arc::new(m));
    let w = Arc::new(witness);
    let mut e = explorer(0, 120);
    e.bounds.threads = 1;
    let stats = e.explore(move |out| {
        let (key, m, w) = (key.clone(), m.clone(), w.clone());
        out.set((|| {
            let (pu, pr) = w.split_at(l);
            let (n, t) = [(0, 0), (2, 0), (3, 1), (5, 2)][mc::pick(4, "parties") as usize];
            if n == 0 {
                let pl = P::prove_plain(&key, &m, pu, pr).map_err(|e| e.to_string())?;
                o.lock().unwrap().push(("plain", pl));
                return Ok("ok".into());
            }
            simrand::ctl::set_outside(5);
            let sh = shamir::share_field_elements(pr, t, n, &mut rand::thread_rng());
            let pu = pu.to_vec();
            let res = run(n, move |i, net| P::prove_shared(&net, n, t, &key, &m, &pu, &sh[i]));
            let mut ps = vec![];
            for r in res {
                ps.push(r?.map_err(|e| e.to_string())?);
            }
            if ps.iter().any(|p| *p != ps[0]) {
                return Err("the parties' proofs differ".into());
            }
            o.lock().unwrap().push(("shared", ps.remove(0)));
            Ok("ok".into())
        })());
    });
    c.explored(&name, &stats);
    proofs.extend(proved.lock().unwrap().drain(..));
    let g1 = <P::G1 as PrimeGroup>::generator();
    let g2 = <P::G2 as PrimeGroup>::generator();
    let mut cases = 0;
    for (who, proof) in &proofs {
        let mut judge = |what: String, proof: &Proof<P>, x: &[S<P>], want: bool| {
            cases += 1;
            let got = mc::catch(|| Groth16::<P>::verify(&vk, proof, x).is_ok());
            c.expect(got == Ok(want), &name, || format!("{who} proof, {what}: verification gives {got:?} instead of {want}"));
        };
        judge("unaltered".into(), proof, &x, true);
        for (what, f) in [("the generator added", 0), ("negated", 1), ("doubled", 2), ("zero", 3)] {
            let a1 = |p: P::G1Affine| -> P::G1Affine {
                let q: P::G1 = p.into();
                [q + g1, -q, q + q, q - q][f].into_affine()
            };
            let a2 = |p: P::G2Affine| -> P::G2Affine {
                let q: P::G2 = p.into();
                [q + g2, -q, q + q, q - q][f].into_affine()
            };
            judge(format!("first element {what}"), &Proof { a: a1(proof.a), ..proof.clone() }, &x, false);
            judge(format!("second element {what}"), &Proof { b: a2(proof.b), ..proof.clone() }, &x, false);
            judge(format!("third element {what}"), &Proof { c: a1(proof.c), ..proof.clone() }, &x, false);
            judge(format!("first two elements {what}"), &Proof { a: a1(proof.a), b: a2(proof.b), c: proof.c }, &x, f == 1);
        }
        for i in 0..x.len() {
            for d in [S::<P>::one(), -S::<P>::one(), -x[i]] {
                if !d.is_zero() {
                    let mut y = x.clone();
                    y[i] += d;
                    judge(format!("public input {i} changed"), proof, &y, false);
                }
            }
        }
        for len in 0..=x.len() + 2 {
            let mut y = x.clone();
            y.resize(len, S::<P>::zero());
            judge(format!("{len} public inputs"), proof, &y, len == x.len());
        }
    }
    c.count(cases, cases);
    c.tick();
}
/// The provers name their curves, which generic code cannot.
trait CurveOf: ark_ec::pairing::Pairing {
    fn prove_plain(key: &ProvingKey<Self>, m: &ConstraintMatrices<S<Self>>, public: &[S<Self>], witness: &[S<Self>]) -> eyre::Result<Proof<Self>>;
    fn prove_shared(net: &SimNet, n: usize, t: usize, key: &ProvingKey<Self>, m: &ConstraintMatrices<S<Self>>, public: &[S<Self>], witness: &[Sh<S<Self>>]) -> eyre::Result<Proof<Self>>;
}
macro_rules! curve_of {
    ($p:ty) => {
        impl CurveOf for $p {
            fn prove_plain(key: &ProvingKey<Self>, m: &ConstraintMatrices<S<Self>>, public: &[S<Self>], witness: &[S<Self>]) -> eyre::Result<Proof<Self>> {
                Groth16::<$p>::plain_prove::<CircomReduction>(key, m, SharedWitness { public_inputs: public.to_vec(), witness: witness.to_vec() })
            }
            fn prove_shared(net: &SimNet, n: usize, t: usize, key: &ProvingKey<Self>, m: &ConstraintMatrices<S<Self>>, public: &[S<Self>], witness: &[Sh<S<Self>>]) -> eyre::Result<Proof<Self>> {
                let (net0, net1) = (SimNet { net: 0, ..*net }, SimNet { net: 1, ..*net });
                ShamirCoGroth16::<$p>::prove::<_, CircomReduction>(&net0, &net1, n, t, key, m, SharedWitness { public_inputs: public.to_vec(), witness: witness.to_vec() })
            }
        }
    };
}
curve_of!(ark_bn254::Bn254);
curve_of!(ark_bls12_381::Bls12_381);

pub fn main() {
    let c = Check::new("K03");
    c.assume("the proving key belongs to the constraint system and the first public value is one");
    shapes::<T17>(&c, 7);
    shapes::<T97>(&c, q(14, 28));
    shapes::<T257>(&c, q(12, 60));
    verifier::<T17>(&c);
    for k in [Kind::Circom, Kind::LibSnark] {
        blinding_plain::<T17>(&c, k);
        sizes::<T97>(&c, k);
    }
    let mut jobs = vec![];
    for (n, t) in q(vec![(2, 0), (3, 1), (4, 1), (5, 2)], vec![(1, 0), (2, 0), (3, 0), (3, 1), (4, 0), (4, 1), (5, 1), (5, 2), (6, 2), (7, 3)]) {
        for m in q(vec![0, 1, 2, 5], vec![0, 1, 2, 3, 4, 5, 6, 7, 12]) {
            jobs.push((n, t, m));
        }
    }
    for (n, t, m) in jobs {
        shared_shapes::<T17>(&c, n, t, m);
        shared_shapes::<T97>(&c, n, t, m);
        if n <= 3 {
            shared_shapes::<T65537>(&c, n, t, m);
        }
    }
    for k in [Kind::Circom, Kind::LibSnark] {
        contents::<T17>(&c, 3, 1, k, 2, q(3, 4));
        contents::<T17>(&c, 2, 0, k, 3, q(2, 4));
        contents::<T97>(&c, 5, 2, k, 1, q(1, 2));
        blinding::<T17>(&c, 3, 1, k);
        blinding::<T17>(&c, 5, 2, k);
        blinding::<T17>(&c, 4, 1, k);
        schedules::<T97>(&c, 2, 0, k, q(2, 3));
        schedules::<T97>(&c, 3, 1, k, q(1, 2));
        schedules::<T97>(&c, 5, 2, k, 1);
    }
    real::<ark_bn254::Bn254>(&c, "bn254/multiplier2");
    real::<ark_bn254::Bn254>(&c, "bn254/poseidon");
    real::<ark_bls12_381::Bls12_381>(&c, "bls12_381/multiplier2");
    real::<ark_bls12_381::Bls12_381>(&c, "bls12_381/poseidon");
    c.finish()
}
