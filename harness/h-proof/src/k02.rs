//! K02: sharing a witness.
use crate::prelude::*;
use circom_types::Witness;
use co_circom_types::{BatchedWitness, ShamirSharedWitness, SharedWitness};

fn split<F: PrimeField>(c: &Check, n: usize, t: usize, len: usize) {
    let p = modulus::<F>();
    let name = format!("share-p{p}-n{n}-t{t}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for public in 0..=len {
        for salt in 0..3u64 {
            let vals: Vec<F> = (0..len as u64).map(|i| F::from(if salt == 2 { i } else { i * i * 3 + i * (salt + 1) + 1 })).collect();
            let draws = t * (len - public);
            let tapes: Vec<Vec<u64>> = if p.saturating_pow(draws as u32) <= q(500, 20_000) {
                words(p, draws).collect()
            } else {
                (0..q(5, 50)).map(|s| (0..draws as u64).map(|i| (i * 5 + i * i * s + s * 3 + 1) % p).collect()).collect()
            };
            for tape in &tapes {
                let what = || format!("{len} values {vals:?}, {public} public ones, n={n}, t={t}, draws {tape:?}");
                let mut rng = ListRng::new(tape.clone());
                let sh = match mc::catch(|| ShamirSharedWitness::<F>::share_shamir(Witness { values: vals.clone() }, public, t, n, &mut rng)) {
                    Ok(s) => s,
                    Err(e) => {
                        c.expect(false, &name, || format!("panic: {e}; {}", what()));
                        return;
                    }
                };
                c.expect(sh.len() == n, &name, || format!("{} shares; {}", sh.len(), what()));
                for (i, s) in sh.iter().enumerate() {
                    c.expect(s.public_inputs == vals[..public], &name, || format!("party {i} has public values {:?}; {}", s.public_inputs, what()));
                    c.expect(s.witness.len() == len - public, &name, || format!("party {i} has {} shares; {}", s.witness.len(), what()));
                    if public > 0 {
                        c.expect(s.public_inputs_for_verify() == vals[1..public], &name, || format!("verified against {:?}; {}", s.public_inputs_for_verify(), what()));
                    }
                }
                if c.failed() {
                    return;
                }
                for j in public..len {
                    let x: Vec<F> = sh.iter().map(|s| s.witness[j - public].inner()).collect();
                    c.expect(secret_of(&x, t) == Some(vals[j]), &name, || format!("value {j}: shares {x:?}; {}", what()));
                }
            }
            c.count(tapes.len() as u64, (tapes.len() * len) as u64);
        }
    }
    c.tick();
}

/// The distribution of t parties' shares over all randomness is uniform for every witness.
fn hiding<F: PrimeField>(c: &Check, n: usize, t: usize, k: usize) {
    let p = modulus::<F>();
    let name = format!("hiding-p{p}-n{n}-t{t}-{k}-values");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for vals in words(p, k) {
        let w: Vec<F> = std::iter::once(F::one()).chain(vals.iter().map(|v| F::from(*v))).collect();
        let mut views: Vec<BTreeMap<Vec<u64>, u64>> = vec![BTreeMap::new(); subsets(n, t).len()];
        let mut runs = 0u64;
        let all = all_tapes(p, 5_000_000, |rng| {
            let sh = ShamirSharedWitness::<F>::share_shamir(Witness { values: w.clone() }, 1, t, n, rng);
            runs += 1;
            for (i, co) in subsets(n, t).iter().enumerate() {
                let v = co.iter().flat_map(|i| sh[*i].witness.iter().map(|s| small(s.inner()))).collect();
                *views[i].entry(v).or_default() += 1;
            }
        });
        if !all {
            c.incomplete(format!("{name}: randomness not exhausted"));
            return;
        }
        let count = p.pow((t * k) as u32);
        for (i, v) in views.iter().enumerate() {
            let ok = v.len() as u64 == count && v.values().all(|x| *x == runs / count);
            c.expect(ok, &name, || format!("the shares of parties {:?} of the witness {vals:?} are not uniform", subsets(n, t)[i]));
        }
        c.count(runs, runs);
    }
    c.tick();
}

fn batches(c: &Check) {
    if !c.selected("unbatch") || c.failed() {
        return;
    }
    c.at("unbatch");
    let mut cases = 0;
    for public in 0..=q(3usize, 4) {
        for private in 0..=q(3usize, 4) {
            // Every combination of lengths.
            for sizes in words(4, public + private) {
                let mk = |i: usize, k: u64| -> Vec<F17> { (0..k).map(|j| F17::from(5 * i as u64 + j + 1)).collect() };
                let all: Vec<Vec<F17>> = sizes.iter().enumerate().map(|(i, k)| mk(i, *k)).collect();
                let b = BatchedWitness::<F17, F17> { public_inputs: all[..public].to_vec(), witness: all[public..].to_vec() };
                let what = || format!("{public} public and {private} other values in batches of {sizes:?}");
                let good = public > 0 && sizes.iter().all(|s| *s == sizes[0]);
                let got = mc::catch(|| b.unbatch());
                cases += 1;
                match got {
                    // Inconsistent batches are refused by an assertion.
                    Err(_) => {
                        c.expect(!good, "unbatch", || format!("refused: {}", what()));
                    }
                    Ok(v) => {
                        if !c.expect(good, "unbatch", || format!("accepted: {}", what())) {
                            return;
                        }
                        let want: Vec<SharedWitness<F17, F17>> = (0..sizes[0] as usize)
                            .map(|j| SharedWitness { public_inputs: all[..public].iter().map(|b| b[j]).collect(), witness: all[public..].iter().map(|b| b[j]).collect() })
                            .collect();
                        c.expect(v == want, "unbatch", || format!("{v:?}; {}", what()));
                    }
                }
            }
        }
    }
    c.count(cases, cases);
    c.tick();
}

pub fn main() {
    let c = Check::new("K02");
    for (n, t) in q(vec![(1, 0), (2, 0), (2, 1), (3, 1), (4, 1), (4, 2), (5, 2), (7, 3)], vec![(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1), (5, 2), (5, 4), (6, 3), (7, 3), (9, 4), (12, 5)]) {
        for len in 0..=q(8, 14) {
            split::<F17>(&c, n, t, len);
            if n < 7 {
                split::<F7>(&c, n, t, len);
            }
            split::<F65537>(&c, n, t, len);
        }
    }
    hiding::<F3>(&c, 2, 1, 3);
    hiding::<F5>(&c, 3, 1, 3);
    hiding::<F5>(&c, 4, 2, 2);
    hiding::<F7>(&c, 5, 2, q(1, 2));
    hiding::<F3>(&c, 2, 1, 5);
    batches(&c);
    c.finish()
}
