//! S01: any t+1 shares reconstruct. S02: any t shares say nothing.
use crate::prelude::*;

/// Every n, t, secret, randomness, subset and order of the parties, on a small field.
fn field<F: PrimeField>(c: &Check, n: usize, t: usize) {
    let p = modulus::<F>();
    let name = format!("field-p{p}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut sel = Vec::new();
    for k in t + 1..=n {
        for s in subsets(n, k) {
            if k <= 4 { sel.extend(orders(&s)) } else { sel.extend([s.clone(), s.into_iter().rev().collect()]) }
        }
    }
    let sel: Vec<Vec<usize>> = sel.into_iter().map(|s| s.into_iter().map(|i| i + 1).collect()).collect();
    let mut cases = 0u64;
    for secret in 0..p {
        let all = all_tapes(p, 2_000_000, |rng| {
            let shares = shamir::share_field_element(F::from(secret), t, n, rng);
            let tape = rng.used();
            let fail = |what: String| {
                c.violation(&name, &what, json!({"n": n, "t": t, "secret": secret, "tape": tape}));
            };
            if shares.len() != n {
                fail(format!("{} shares for {n} parties", shares.len()));
                return;
            }
            let ints: Vec<u64> = shares.iter().map(|s| small(s.a)).collect();
            if int::secret(&ints, t, p) != Some(secret) {
                fail(format!("shares {ints:?} are not a sharing of degree {t} of {secret}"));
            }
            for ids in &sel {
                let sh: Vec<_> = ids.iter().map(|i| shares[i - 1]).collect();
                match shamir::combine_field_element(&sh, ids, t) {
                    Ok(v) if small(v) == secret => {}
                    other => fail(format!("combining the shares of {ids:?} gives {other:?} instead of {secret}")),
                }
                cases += 1;
            }
        });
        if !all {
            c.incomplete(format!("{name}: randomness not exhausted"));
        }
        c.tick();
    }
    // Too few shares, and counts that do not match.
    let shares = shamir::share_field_element(F::from(1u64), t, n, &mut ListRng::new(vec![1; n]));
    for k in 0..=n {
        for m in 0..=n {
            let ids: Vec<usize> = (1..=m).collect();
            c.no_panic(&name, || format!("{k} shares, {m} ids"), || {
                let r = shamir::combine_field_element(&shares[..k], &ids, t);
                c.expect(r.is_ok() == (k == m && k > t), &name, || format!("{k} shares and {m} ids (degree {t}): {r:?}"));
            });
            cases += 1;
        }
    }
    c.count(cases, cases);
}

/// Vectors: every length up to 3 with every content from a few values.
fn vectors<F: PrimeField>(c: &Check, n: usize, t: usize) {
    let p = modulus::<F>();
    let name = format!("vectors-p{p}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut cases = 0u64;
    let mut sel = Vec::new();
    for k in t + 1..=n {
        sel.extend(subsets(n, k).iter().flat_map(|s| if k <= 3 { orders(s) } else { vec![s.clone()] }));
    }
    for len in 0..=3usize {
        for w in words(p.min(4), len) {
            for salt in 0..4u64 {
                let vals: Vec<F> = w.iter().map(|x| F::from(*x)).collect();
                let draws = (0..(t * len) as u64).map(|i| (i * 3 + salt * (i + 2)) % p).collect();
                let shares = shamir::share_field_elements(&vals, t, n, &mut ListRng::new(draws));
                c.expect(shares.len() == n && shares.iter().all(|s| s.len() == len), &name, || "wrong shape".into());
                for s in &sel {
                    let ids: Vec<usize> = s.iter().map(|i| i + 1).collect();
                    let sh: Vec<_> = s.iter().map(|i| shares[*i].clone()).collect();
                    let r = shamir::combine_field_elements(&sh, &ids, t);
                    c.expect(r.as_ref().is_ok_and(|v| *v == vals), &name, || {
                        format!("vector {w:?} shared and combined by {ids:?} gives {r:?}")
                    });
                    cases += 1;
                }
            }
        }
    }
    // Every combination of lengths 0..=2 of the parties' vectors.
    for w in words(3, n) {
        let shares: Vec<Vec<Sh<F>>> = w.iter().map(|l| vec![Sh::new(F::one()); *l as usize]).collect();
        for k in 0..=n {
            for m in 0..=n {
                let ids: Vec<usize> = (1..=m).collect();
                let ok = k == m && k > t && w[..k].iter().all(|l| *l == w[0]);
                c.no_panic(&name, || format!("lengths {:?}, {m} ids", &w[..k]), || {
                    let r = shamir::combine_field_elements(&shares[..k], &ids, t);
                    c.expect(r.is_ok() == ok, &name, || format!("lengths {:?} with {m} ids: {r:?}", &w[..k]));
                });
                cases += 1;
            }
        }
    }
    c.count(cases, cases);
}

fn points<C: Tiny>(c: &Check, n: usize, t: usize) {
    let p = modulus::<C::ScalarField>();
    let name = format!("points-order{p}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut cases = 0u64;
    let mut sel = Vec::new();
    for k in t + 1..=n {
        sel.extend(subsets(n, k).iter().flat_map(|s| if k <= 3 { orders(s) } else { vec![s.clone()] }));
    }
    for secret in 0..p {
        for salt in 0..q(12u64, 60) {
            let draws = (0..200u64).map(|i| (i * i + 3 * i + salt * (2 * i + 1) + (i % 3) * (1 << 31)) % (1 << 33) ^ (salt % 7)).collect();
            let s = C::nth(secret);
            let shares = shamir::share_curve_point(s, t, n, &mut SmallRng(ListRng::new(draws)));
            let logs: Vec<u64> = shares.iter().map(|x| x.a.log()).collect();
            c.expect(logs.len() == n && int::secret(&logs, t, p) == Some(secret), &name, || {
                format!("{logs:?} is no sharing of degree {t} of {secret}")
            });
            for s in &sel {
                let ids: Vec<usize> = s.iter().map(|i| i + 1).collect();
                let sh: Vec<_> = s.iter().map(|i| shares[*i]).collect();
                let r = shamir::combine_curve_point(&sh, &ids, t).map(|x| x.log());
                c.expect(r.as_ref().is_ok_and(|x| *x == secret), &name, || format!("point {secret} combined by {ids:?}: {r:?}"));
                cases += 1;
            }
        }
    }
    let shares = shamir::share_curve_point(C::nth(1), t, n, &mut SmallRng(ListRng::new(vec![0, 1, 2, 3, 4, 5, 6])));
    for k in 0..=n {
        for m in 0..=n {
            let ids: Vec<usize> = (1..=m).collect();
            c.no_panic(&name, || format!("{k} shares, {m} ids"), || {
                let r = shamir::combine_curve_point(&shares[..k], &ids, t);
                c.expect(r.is_ok() == (k == m && k > t), &name, || format!("{k} point shares and {m} ids: {r:?}"));
            });
            cases += 1;
        }
    }
    c.count(cases, cases);
}
/// Draws cycle through small values, so that sampling a point of a tiny curve ends.
struct SmallRng(ListRng);
impl rand::RngCore for SmallRng {
    fn next_u32(&mut self) -> u32 {
        let v = self.next_u64();
        ((v & 1) as u32) << 31
    }
    fn next_u64(&mut self) -> u64 {
        let i = self.0.pos as u64;
        let v = self.0.vals[i as usize % self.0.vals.len()];
        self.0.pos += 1;
        (v + i) % 13
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for SmallRng {}

/// Large parameters and fields: boundary secrets, all cyclic runs of parties.
fn large<F: PrimeField>(c: &Check, tag: &str) {
    let name = format!("large-{tag}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut cases = 0u64;
    let secrets = [F::zero(), F::one(), -F::one(), F::from(2u64).inverse().unwrap(), F::from(u64::MAX), -F::from(u64::MAX)];
    for n in 1..=q(9usize, 16) {
        for t in 0..n {
            for (si, secret) in secrets.iter().enumerate() {
                let draws = (0..4 * t as u64).map(|i| if i % 4 == 3 { i + si as u64 } else { (i + 1).wrapping_mul(0x9e3779b97f4a7c15) }).collect();
                let shares = shamir::share_field_element(*secret, t, n, &mut ListRng::new(draws));
                c.expect(secret_of(&shares.iter().map(|s| s.a).collect::<Vec<_>>(), t) == Some(*secret), &name, || {
                    format!("n={n} t={t} secret {secret}: not a sharing")
                });
                for start in 0..n {
                    for k in t + 1..=n {
                        let ids: Vec<usize> = (0..k).map(|i| (start + i) % n + 1).collect();
                        let sh: Vec<_> = ids.iter().map(|i| shares[i - 1]).collect();
                        let r = shamir::combine_field_element(&sh, &ids, t);
                        c.expect(r.as_ref().is_ok_and(|v| v == secret), &name, || format!("n={n} t={t} ids {ids:?}: {r:?} not {secret}"));
                        cases += 1;
                    }
                }
            }
        }
        c.tick();
    }
    c.count(cases, cases);
}

pub fn main() {
    let c = Check::new("S01");
    let mut jobs: Vec<Box<dyn Fn(&Check) + Send + Sync>> = Vec::new();
    for n in 1..=4usize {
        for t in 0..n.min(q(3, 4)) {
            jobs.push(Box::new(move |c| field::<F5>(c, n, t)));
        }
    }
    for n in 5..=q(5usize, 6) {
        for t in 0..=q(2usize, 4) {
            jobs.push(Box::new(move |c| field::<F7>(c, n, t)));
        }
    }
    for (n, t) in [(1, 0), (2, 0), (2, 1), (3, 1), (4, 1), (4, 2)] {
        jobs.push(Box::new(move |c| vectors::<F7>(c, n, t)));
    }
    for n in 1..=4usize {
        for t in 0..n {
            jobs.push(Box::new(move |c| points::<G5>(c, n, t)));
            jobs.push(Box::new(move |c| points::<G7>(c, n, t)));
            jobs.push(Box::new(move |c| points::<G13>(c, n + 1, t)));
        }
    }
    jobs.push(Box::new(|c| large::<ark_bn254::Fr>(c, "bn254")));
    jobs.push(Box::new(|c| large::<ark_bls12_377::Fr>(c, "bls12-377")));
    jobs.push(Box::new(|c| large::<ark_bn254::Fq>(c, "bn254-base")));
    parallel(&c, jobs, |c, j| j(c));
    c.sample(json!({"field": "F7", "n": 5, "t": 2, "secrets": 7, "tapes": 49, "selections": "every subset of at least 3 parties, every order up to size 4"}));
    c.assume("party ids are distinct and smaller than the field's modulus");
    c.finish()
}

/// Joint distribution of the shares of every coalition of at most t parties.
fn hiding<F: PrimeField>(c: &Check, n: usize, t: usize) {
    let p = modulus::<F>();
    let name = format!("field-p{p}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut hist: BTreeMap<Vec<usize>, Vec<BTreeMap<Vec<u64>, u64>>> = BTreeMap::new();
    let coalitions: Vec<Vec<usize>> = (0..=t).flat_map(|k| subsets(n, k)).collect();
    let mut runs = 0u64;
    for secret in 0..p {
        for co in &coalitions {
            hist.entry(co.clone()).or_default().push(BTreeMap::new());
        }
        let mut lens = BTreeSet::new();
        let all = all_tapes(p, 5_000_000, |rng| {
            let shares = shamir::share_field_element(F::from(secret), t, n, rng);
            lens.insert(rng.used().len());
            let ints: Vec<u64> = shares.iter().map(|s| small(s.a)).collect();
            for co in &coalitions {
                let view: Vec<u64> = co.iter().map(|i| ints[*i]).collect();
                *hist.get_mut(co).unwrap().last_mut().unwrap().entry(view).or_default() += 1;
            }
            runs += 1;
        });
        assert!(all && lens.len() == 1, "the randomness of {name} could not be enumerated ({lens:?})");
        c.tick();
    }
    for (co, h) in &hist {
        let want = p.pow(co.len() as u32);
        for (secret, m) in h.iter().enumerate() {
            let uniform = m.len() as u64 == want && m.values().min() == m.values().max();
            c.expect(uniform && *m == h[0], &name, || {
                format!("the shares of parties {co:?} for secret {secret} are not uniform: {} of {want} values, counts {:?}..{:?}", m.len(), m.values().min(), m.values().max())
            });
        }
    }
    c.count(runs, runs * coalitions.len() as u64);
}

/// Sharing two values: the coefficients of the two must be drawn independently.
fn hiding_vector<F: PrimeField>(c: &Check, n: usize, t: usize) {
    let p = modulus::<F>();
    let name = format!("vector-p{p}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let coalitions: Vec<Vec<usize>> = subsets(n, t);
    let mut first: Option<Vec<BTreeMap<Vec<u64>, u64>>> = None;
    let mut runs = 0u64;
    for w in words(p, 2) {
        let mut h = vec![BTreeMap::new(); coalitions.len()];
        let vals: Vec<F> = w.iter().map(|x| F::from(*x)).collect();
        let all = all_tapes(p, 5_000_000, |rng| {
            let shares = shamir::share_field_elements(&vals, t, n, rng);
            for (co, h) in coalitions.iter().zip(&mut h) {
                let view: Vec<u64> = co.iter().flat_map(|i| shares[*i].iter().map(|s| small(s.a))).collect();
                *h.entry(view).or_default() += 1u64;
            }
            runs += 1;
        });
        assert!(all);
        for (co, h) in coalitions.iter().zip(&h) {
            c.expect(h.len() as u64 == p.pow(2 * t as u32) && h.values().min() == h.values().max(), &name, || {
                format!("the shares of parties {co:?} for secrets {w:?} are not jointly uniform")
            });
        }
        match &first {
            None => first = Some(h),
            Some(f) => {
                c.expect(*f == h, &name, || format!("the distribution for secrets {w:?} differs from that for 0, 0"));
            }
        }
        c.tick();
    }
    c.count(runs, runs);
}

/// Points: the coefficients are drawn from all points the curve's sampler can give; the shares of
/// a coalition must be distributed as with independent coefficients, for every secret.
fn hiding_points<C: Tiny>(c: &Check, n: usize, t: usize) {
    let order = modulus::<C::ScalarField>();
    let base = {
        use ark_ff::AdditiveGroup;
        let _ = C::BaseField::ZERO;
        let m: ark_ff::BigInteger64 = ark_ff::BigInt::new([<<C::BaseField as Field>::BasePrimeField as PrimeField>::MODULUS.as_ref()[0]]);
        m.0[0]
    };
    let name = format!("points-order{order}-n{n}-t{t}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let coalitions: Vec<Vec<usize>> = (1..=t).flat_map(|k| subsets(n, k)).collect();
    let mut runs = 0u64;
    // Sampling rejects some draws; sequences with more than `extra` rejections are cut off, which
    // affects all points alike because a rejected draw does not depend on later ones.
    for secret in 0..order {
        let mut h: Vec<BTreeMap<Vec<u64>, u64>> = vec![BTreeMap::new(); coalitions.len()];
        let all = all_tapes(base, 40_000_000, |rng| {
            let mut lim = Limited { rng, left: 2 * t };
            let r = mc::catch(|| shamir::share_curve_point(C::nth(secret), t, n, &mut lim));
            runs += 1;
            let Ok(shares) = r else { return };
            for (co, h) in coalitions.iter().zip(&mut h) {
                *h.entry(co.iter().map(|i| shares[*i].a.log()).collect()).or_default() += 1;
            }
        });
        assert!(all, "{name}: not exhausted");
        // The oracle: coefficients independent and uniform over the points but the identity.
        for (co, h) in coalitions.iter().zip(&h) {
            let mut want: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
            for w in words(order - 1, t) {
                let mut poly = vec![secret];
                poly.extend(w.iter().map(|x| x + 1));
                *want.entry(co.iter().map(|i| int::eval(&poly, *i as u64 + 1, order)).collect()).or_default() += 1;
            }
            let unit = h.values().sum::<u64>() / want.values().sum::<u64>().max(1);
            let same = h.len() == want.len() && want.iter().all(|(k, v)| h.get(k) == Some(&(v * unit)));
            c.expect(same && unit > 0, &name, || format!("the point shares of {co:?} for secret {secret} are not distributed as with independent random coefficients"));
        }
        c.tick();
    }
    c.count(runs, runs);
}
/// Fails (by a panic that is caught) after too many draws.
struct Limited<'a> {
    rng: &'a mut TapeRng,
    left: usize,
}
impl Limited<'_> {
    fn tick(&mut self) {
        if self.left == 0 {
            panic!("cut off");
        }
        self.left -= 1;
    }
}
impl rand::RngCore for Limited<'_> {
    fn next_u32(&mut self) -> u32 {
        self.tick();
        self.rng.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        self.rng.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.rng.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.rng.try_fill_bytes(dest)
    }
}
impl rand::CryptoRng for Limited<'_> {}

pub fn main_s02() {
    let c = Check::new("S02");
    let mut jobs: Vec<Box<dyn Fn(&Check) + Send + Sync>> = Vec::new();
    for n in 1..=4usize {
        for t in 0..n {
            jobs.push(Box::new(move |c| hiding::<F5>(c, n, t)));
        }
    }
    for n in 5..=6usize {
        for t in 0..=q(4usize.min(n - 1), n - 1) {
            jobs.push(Box::new(move |c| hiding::<F7>(c, n, t)));
        }
    }
    for n in 7..=q(7usize, 9) {
        for t in 0..=q(3usize, 4) {
            jobs.push(Box::new(move |c| hiding::<F11>(c, n, t)));
        }
    }
    for (n, t) in [(2, 1), (3, 1), (4, 1), (3, 2), (4, 2)] {
        jobs.push(Box::new(move |c| hiding_vector::<F5>(c, n, t)));
    }
    for (n, t) in [(2, 1), (3, 1), (4, 1), (3, 2), (4, 2)] {
        jobs.push(Box::new(move |c| hiding_points::<G5>(c, n, t)));
        jobs.push(Box::new(move |c| hiding_points::<G7>(c, n, t)));
    }
    parallel(&c, jobs, |c, j| j(c));
    c.sample(json!({"field": "F5", "n": 4, "t": 2, "secrets": 5, "sequences of draws per secret": 25, "coalitions": "all of size 0, 1, 2"}));
    c.assume("the generator given to sharing is uniform; field elements are drawn from it as 64-bit words");
    c.finish()
}
