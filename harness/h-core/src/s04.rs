//! S04: what a coalition of at most t parties sees does not depend on the others' secrets.
//!
//! The coalition's inputs and every random value one of its members holds are fixed (to several
//! choices); every random value that only other parties hold is enumerated completely, for every
//! choice of secrets. The distributions of the coalition's view must then be equal for all
//! secrets that lead to the same opened results.
use crate::prelude::*;
use crate::proto::{self, Op, mix};
use mpc_core::protocols::shamir::pointshare as pt;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

type Seed = [u8; 32];

/// An operation on enumerated secrets; returns the opened values (for field operations).
#[derive(Clone, Copy)]
pub struct View<F: PrimeField> {
    pub name: &'static str,
    pub secrets: usize,
    pub run: fn(&SimNet, &mut ShamirState<F>, &[F]) -> eyre::Result<Vec<u8>>,
    /// What the coalition is allowed to learn from the secrets.
    pub allowed: fn(&[u64]) -> Vec<u64>,
}

fn holders<F: PrimeField>(v: View<F>, sp: proto::Space) -> BTreeMap<Seed, BTreeSet<usize>> {
    let out: std::sync::Arc<Mutex<BTreeMap<Seed, BTreeSet<usize>>>> = Default::default();
    let o = out.clone();
    let mut e = explorer(0, 60);
    e.bounds.threads = 1;
    e.bounds.max_executions = 1;
    e.must_finish = false;
    let s = e.explore(move |res| {
        simrand::ctl::ctl().script = Some(Rc::new(|_, _| 1));
        let r = run(sp.n, move |_, net| {
            let mut st = proto::state::<F>(&net, sp)?;
            (v.run)(&net, &mut st, &vec![F::one(); v.secrets])
        });
        drop(r);
        *o.lock().unwrap() = simrand::ctl::ctl().holders.clone();
        res.set(Ok("done".into()));
    });
    assert!(s.violation.is_none(), "{:?}", s.violation);
    let m = out.lock().unwrap().clone();
    m
}

/// One exploration: a coalition, with its shares of the inputs and its random values fixed.
pub fn explore<F: PrimeField>(c: &Check, v: View<F>, sp: proto::Space, coalition: &[usize], tape: u64, own: &[u64], secrets: &[Vec<u64>], max_draws: usize) {
    let p = modulus::<F>();
    let name = format!("{}-p{p}-n{}-t{}", v.name, sp.n, sp.t);
    let known = std::sync::Arc::new(holders(v, sp));
    // secrets -> views -> how often
    type Hist = HashMap<usize, HashMap<u64, u64>>;
    let hist: std::sync::Arc<Mutex<Hist>> = Default::default();
    let failed: std::sync::Arc<Mutex<Option<String>>> = Default::default();
    let draws_seen: std::sync::Arc<Mutex<BTreeSet<usize>>> = Default::default();
    // Sharing polynomials fixed by the secret and the coalition's shares (|coalition| = t).
    let mut deals: Vec<Vec<Vec<u64>>> = Vec::new();
    for s in secrets {
        deals.push(
            s.iter()
                .enumerate()
                .map(|(k, v)| {
                    let mut pts = vec![(0u64, *v)];
                    for (j, m) in coalition.iter().enumerate() {
                        pts.push((*m as u64 + 1, own[k * coalition.len() + j]));
                    }
                    (1..=sp.n as u64).map(|x| int::at(&pts, x, p)).collect()
                })
                .collect(),
        );
    }
    let (h2, k2, co, f2, d2) = (hist.clone(), known.clone(), coalition.to_vec(), failed.clone(), draws_seen.clone());
    let n_sec = secrets.len();
    let mut e = explorer(0, 300);
    e.bounds.max_executions = u64::MAX;
    let stats = e.explore(move |out| {
        let which = mc::pick(n_sec as u32, "secrets") as usize;
        let used = Rc::new(RefCell::new(0usize));
        let (u2, k3, co2) = (used.clone(), k2.clone(), co.clone());
        simrand::ctl::ctl().script = Some(Rc::new(move |seed, pos| {
            let mine = k3.get(seed).is_some_and(|h| h.iter().any(|x| co2.contains(x)));
            if mine {
                return mix(seed, pos, tape) % p;
            }
            if *u2.borrow() >= max_draws {
                return mix(seed, pos, 77) % p;
            }
            *u2.borrow_mut() += 1;
            mc::pick(p as u32, "draw") as u64
        }));
        let deal = deals[which].clone();
        let res = run(sp.n, move |i, net| {
            let mut st = proto::state::<F>(&net, sp)?;
            let mine: Vec<F> = deal.iter().map(|d| F::from(d[i])).collect();
            (v.run)(&net, &mut st, &mine)
        });
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for m in &co {
            m.hash(&mut h);
            if let Some(view) = hub().views.get(m) {
                for (net, from, data) in view {
                    (net, from, &data[..]).hash(&mut h);
                }
            }
            match &res[*m] {
                Ok(Ok(o)) => o.hash(&mut h),
                Ok(Err(_)) => 1u8.hash(&mut h),
                Err(e) => {
                    f2.lock().unwrap().get_or_insert(format!("party {m} panicked: {e}"));
                }
            }
        }
        d2.lock().unwrap().insert(*used.borrow());
        *h2.lock().unwrap().entry(which).or_default().entry(h.finish()).or_default() += 1;
        out.set(Ok("view".into()));
    });
    c.explored(&name, &stats);
    if stats.capped {
        return;
    }
    if let Some(f) = failed.lock().unwrap().take() {
        c.violation(&name, &f, json!({"coalition": coalition}));
        return;
    }
    let hist = hist.lock().unwrap();
    let mut groups: BTreeMap<Vec<u64>, usize> = BTreeMap::new();
    for (i, s) in secrets.iter().enumerate() {
        let g = *groups.entry((v.allowed)(s)).or_insert(i);
        let (a, b) = (&hist[&g], &hist[&i]);
        if a != b {
            let only = b.keys().filter(|k| !a.contains_key(k)).count();
            c.violation(
                &name,
                &format!(
                    "the view of parties {coalition:?} tells secrets {:?} and {:?} apart (its shares {own:?}): {} and {} different views, {only} that occur only for the second",
                    secrets[g], s, a.len(), b.len()
                ),
                json!({"coalition": coalition, "own_shares": own, "secrets": [secrets[g], s], "draws": draws_seen.lock().unwrap().iter().collect::<Vec<_>>()}),
            );
            return;
        }
    }
}

fn ser<T: ark_serialize::CanonicalSerialize>(x: T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_compressed(&mut v).unwrap();
    v
}

pub fn views<F: PrimeField>() -> Vec<View<F>> {
    use mpc_core::protocols::shamir::arithmetic as ar;
    fn sh<F: PrimeField>(x: &[F]) -> Vec<Sh<F>> {
        x.iter().map(|x| Sh::new(*x)).collect()
    }
    vec![
        View { name: "rand", secrets: 0, run: |n, st, _| Ok(ser((st.rand(n)?, st.rand(n)?))), allowed: |_| vec![] },
        View { name: "mul", secrets: 2, run: |n, st, x| Ok(ser(ar::mul(Sh::new(x[0]), Sh::new(x[1]), n, st)?)), allowed: |_| vec![] },
        View { name: "mul_vec", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            Ok(ser(ar::mul_vec(&[x[0], x[1]], &[x[1], x[1]], n, st)?))
        }, allowed: |_| vec![] },
        View { name: "mul_twice", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            let a = ar::mul(x[0], x[1], n, st)?;
            Ok(ser(ar::mul(a, x[0], n, st)?))
        }, allowed: |_| vec![] },
        View { name: "mul_then_open", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            let a = ar::mul(x[0], x[1], n, st)?;
            Ok(ser(ar::open(a, n, st)?))
        }, allowed: |s| vec![s[0] * s[1] % 5] },
        View { name: "open", secrets: 2, run: |n, st, x| Ok(ser(ar::open(Sh::new(x[0]), n, st)?)), allowed: |s| vec![s[0]] },
        View { name: "open_vec", secrets: 2, run: |n, st, x| Ok(ser(ar::open_vec(&[Sh::new(x[0] + x[1])], n, st)?)), allowed: |s| vec![(s[0] + s[1]) % 5] },
        View { name: "inv", secrets: 1, run: |n, st, x| Ok(ser(ar::inv(Sh::new(x[0]), n, st)?)), allowed: |s| vec![(s[0] == 0) as u64] },
        View { name: "inv_vec", secrets: 1, run: |n, st, x| Ok(ser(ar::inv_vec(&[Sh::new(x[0])], n, st)?)), allowed: |s| vec![(s[0] == 0) as u64] },
        View { name: "mul_open_vec", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            Ok(ser(ar::mul_open_vec(&[x[0]], &[x[1]], n, st)?))
        }, allowed: |s| vec![s[0] * s[1] % 5] },
        // Two results at once: their masks must be independent of each other.
        View { name: "mul_open_vec-two", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            Ok(ser(ar::mul_open_vec(&[x[0], x[1]], &[x[1], x[1]], n, st)?))
        }, allowed: |s| vec![s[0] * s[1] % 5, s[1] * s[1] % 5] },
        View { name: "mul_open_vec-twice", secrets: 2, run: |n, st, x| {
            let x = sh(x);
            let a = ar::mul_open_vec(&[x[0]], &[x[1]], n, st)?;
            Ok(ser((a, ar::mul_open_vec(&[x[1]], &[x[1]], n, st)?)))
        }, allowed: |s| vec![s[0] * s[1] % 5, s[1] * s[1] % 5] },
    ]
}

/// The same on points of order 5.
pub fn point_views() -> Vec<View<F5>> {
    fn share(x: F5) -> ShamirPointShare<G5> {
        ShamirPointShare::new(G5::nth(small(x)))
    }
    vec![
        View { name: "scalar_mul", secrets: 2, run: |n, st, x| Ok(ser(pt::scalar_mul(&share(x[0]), Sh::new(x[1]), n, st)?)), allowed: |_| vec![] },
        View { name: "open_point", secrets: 2, run: |n, st, x| Ok(ser(pt::open_point(&share(x[0] - x[1]), n, st)?)), allowed: |s| vec![(s[0] + 5 - s[1]) % 5] },
        View { name: "open_point_and_field", secrets: 2, run: |n, st, x| Ok(ser(pt::open_point_and_field(&share(x[0]), &Sh::new(x[1]), n, st)?)), allowed: |s| s.to_vec() },
        View { name: "open_half_point", secrets: 2, run: |n, st, x| {
            let a = pt::scalar_mul_local(&share(x[0]), Sh::new(x[1]));
            Ok(ser(pt::open_half_point(a, n, st)?))
        }, allowed: |s| vec![s[0] * s[1] % 5] },
        View { name: "scalar_mul_then_open", secrets: 2, run: |n, st, x| {
            let a = pt::scalar_mul(&share(x[0]), Sh::new(x[1]), n, st)?;
            Ok(ser(pt::open_point(&a, n, st)?))
        }, allowed: |s| vec![s[0] * s[1] % 5] },
    ]
}

pub fn main() {
    let c = Check::new("S04");
    let all: Vec<View<F5>> = views::<F5>().into_iter().chain(point_views()).collect();
    // Three parties, one corrupted.
    for v in &all {
        let name = format!("{}-p5-n3-t1", v.name);
        if !c.selected(&name) {
            continue;
        }
        c.at(&name);
        let sp = proto::Space { n: 3, t: 1, pairs: 2, budget: 0, tapes: 1, polys: 0, cap: 0 };
        let secrets: Vec<Vec<u64>> = if v.name.contains("-tw") { vec![vec![0, 1], vec![0, 4], vec![1, 2], vec![4, 3]] } else { words(5, v.secrets).collect() };
        let owns: Vec<Vec<u64>> = if thorough() { words(5, v.secrets).collect() } else { vec![vec![0; v.secrets], (0..v.secrets as u64).map(|i| 1 + 2 * i).collect()] };
        for party in 0..3 {
            for own in &owns {
                for tape in 0..q(1u64, 3) {
                    explore(&c, *v, sp, &[party], tape, own, &secrets, 8);
                }
            }
        }
    }
    // Four parties, one corrupted: some secrets only.
    for v in views::<F5>().into_iter().filter(|v| q(&["mul", "rand"][..], &["mul", "rand", "inv", "open"][..]).contains(&v.name)) {
        let name = format!("{}-p5-n4-t1", v.name);
        if !c.selected(&name) {
            continue;
        }
        c.at(&name);
        let sp = proto::Space { n: 4, t: 1, pairs: 2, budget: 0, tapes: 1, polys: 0, cap: 0 };
        let secrets: Vec<Vec<u64>> = if v.secrets == 0 { vec![vec![]] } else { vec![vec![0; v.secrets], vec![3; v.secrets]] };
        for party in if thorough() { vec![0, 1, 2, 3] } else { vec![0] } {
            explore(&c, v, sp, &[party], 0, &vec![2; v.secrets], &secrets, 8);
        }
    }
    c.assume("a seed is as good as the random values derived from it; draws of one generator are independent and uniform");
    c.finish()
}
