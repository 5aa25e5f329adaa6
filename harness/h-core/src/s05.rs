//! S05: the stock of preprocessed pairs, over all histories of drawing, buffering and forking.
use crate::prelude::*;
use crate::proto::script;
use mpc_core::protocols::shamir::arithmetic as ar;

type F = ark_bn254::Fr;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Pair,
    Rand,
    Mul,
    Buffer(usize),
    Fork(usize),
}

/// What a party got from one step; the steps are the same for all parties.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Pair(F, F),
    Share(F),
    Nothing,
    Err,
}

/// Runs the history at every party. `promised` follows what each state must still have in stock.
fn world(n: usize, t: usize, amount: usize, acts: Vec<(usize, Act)>, drain: bool, out: Out) {
    script::<F>(1, 0);
    let a2 = acts.clone();
    // (step, did it draw or send anything though the stock sufficed)
    let work: Rc<RefCell<BTreeSet<usize>>> = Default::default();
    let w2 = work.clone();
    let res = run(n, move |i, net| -> eyre::Result<Vec<Got>> {
        let mut states: Vec<ShamirState<F>> = vec![ShamirPreprocessing::<F>::new(n, t, amount, &net)?.into()];
        let mut stock = vec![amount];
        let mut got = vec![];
        let x = Sh::new(F::from(3u64 + 5 * (i as u64 + 1) * (t > 0) as u64));
        let mut steps = a2.clone();
        let mut k = 0;
        while k < steps.len() || drain {
            if k == steps.len() {
                // Whatever was promised must still be there.
                match stock.iter().position(|s| *s > 0) {
                    Some(s) => steps.push((s, Act::Pair)),
                    None => break,
                }
            }
            let (s, act) = steps[k];
            if s >= states.len() {
                got.push(Got::Nothing);
                k += 1;
                continue;
            }
            let before = effort_of(i);
            let free = stock[s] > 0;
            let st = &mut states[s];
            got.push(match act {
                Act::Pair => {
                    let (a, b) = st.get_pair(&net)?;
                    Got::Pair(a, b)
                }
                Act::Rand => Got::Share(st.rand(&net)?.a),
                Act::Mul => Got::Share(ar::mul(x, x, &net, st)?.a),
                Act::Buffer(m) => {
                    st.buffer_triples(&net, m)?;
                    stock[s] = stock[s].max(m);
                    Got::Nothing
                }
                Act::Fork(m) => match st.fork(m) {
                    Ok(child) => {
                        states.push(child);
                        stock.push(m);
                        stock[s] = stock[s].saturating_sub(m);
                        Got::Nothing
                    }
                    Err(_) if m > stock[s] => Got::Err,
                    Err(e) => return Err(e.wrap_err(format!("step {k}: cannot fork {m} pairs"))),
                },
            });
            if matches!(act, Act::Pair | Act::Rand | Act::Mul) {
                stock[s] = stock[s].saturating_sub(1);
                if free && effort_of(i) != before {
                    w2.borrow_mut().insert(k);
                }
            }
            k += 1;
        }
        Ok(got)
    });
    out.set(judge(n, t, &acts, res, &work.borrow()));
}

/// How many random values this party has drawn.
fn effort_of(i: usize) -> u64 {
    simrand::ctl::ctl().drawn.get(&i).copied().unwrap_or(0)
}

fn judge(n: usize, t: usize, acts: &[(usize, Act)], res: Vec<Result<eyre::Result<Vec<Got>>, String>>, work: &BTreeSet<usize>) -> Result<String, String> {
    let mut all = vec![];
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Err(p) => return Err(format!("party {i} panicked: {p}; history {acts:?}")),
            Ok(Err(e)) => return Err(format!("party {i}: {e:#}; history {acts:?}")),
            Ok(Ok(g)) => all.push(g),
        }
    }
    let _ = n;
    let mut seen: BTreeMap<F, usize> = BTreeMap::new();
    for k in 0..all[0].len() {
        let col: Vec<&Got> = all.iter().map(|g| &g[k]).collect();
        let act = acts.get(k);
        match col[0] {
            Got::Pair(..) => {
                let a: Vec<F> = col.iter().map(|g| if let Got::Pair(a, _) = g { *a } else { unreachable!() }).collect();
                let b: Vec<F> = col.iter().map(|g| if let Got::Pair(_, b) = g { *b } else { unreachable!() }).collect();
                let (va, vb) = (secret_of(&a, t), secret_of(&b, 2 * t));
                if va.is_none() || va != vb {
                    return Err(format!("step {k}: no pair of sharings of one value: {va:?} and {vb:?}; history {acts:?}"));
                }
                if let Some(j) = seen.insert(va.unwrap(), k) {
                    return Err(format!("steps {j} and {k} hand out the same pair; history {acts:?}"));
                }
            }
            Got::Share(_) => {
                let a: Vec<F> = col.iter().map(|g| if let Got::Share(a) = g { *a } else { unreachable!() }).collect();
                let Some(v) = secret_of(&a, t) else {
                    return Err(format!("step {k}: no sharing of degree {t}; history {acts:?}"));
                };
                if act.map(|a| a.1) == Some(Act::Mul) {
                    if v != F::from(9u64) {
                        return Err(format!("step {k}: the product is {v}; history {acts:?}"));
                    }
                    // The mask of the product: what was subtracted is only visible in the shares.
                    if t > 0 && seen.insert(a[0] - F::from(9u64), k).is_some() {
                        return Err(format!("step {k}: the same sharing as before; history {acts:?}"));
                    }
                } else if let Some(j) = seen.insert(v, k) {
                    return Err(format!("steps {j} and {k} hand out the same random value; history {acts:?}"));
                }
            }
            Got::Nothing | Got::Err => {
                if col.iter().any(|g| *g != col[0]) {
                    return Err(format!("step {k}: parties disagree; history {acts:?}"));
                }
                if matches!(act, Some((_, Act::Fork(m))) if *m >= 1 << 30) && *col[0] != Got::Err && acts[k].0 == 0 {
                    return Err(format!("step {k}: {} pairs forked; history {acts:?}", 1 << 30));
                }
            }
        }
    }
    if let Some(k) = work.iter().next() {
        return Err(format!("step {k} generates randomness although enough was requested before; history {acts:?}"));
    }
    if undelivered() != 0 {
        return Err(format!("{} messages were never received; history {acts:?}", undelivered()));
    }
    Ok("ok".into())
}

/// All histories up to `depth` from the given actions.
fn histories(depth: usize, acts: &[Act], max_states: usize) -> Vec<Vec<(usize, Act)>> {
    let mut all: Vec<(Vec<(usize, Act)>, usize)> = vec![(vec![], 1)];
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for (h, states) in &last {
            for s in 0..*states {
                for a in acts {
                    let forks = matches!(a, Act::Fork(m) if *m < 1 << 30);
                    if forks && *states == max_states {
                        continue;
                    }
                    let mut h = h.clone();
                    h.push((s, *a));
                    next.push((h, *states + forks as usize));
                }
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all.into_iter().map(|x| x.0).collect()
}

pub fn main() {
    let c = Check::new("S05");
    // Every configuration and amount: all requested pairs are there and right.
    let name = "amounts";
    if c.selected(name) {
        c.at(name);
        let mut jobs: Vec<(usize, usize, usize)> = vec![];
        for n in 2..=q(8, 11) {
            for t in 0..=(n - 1) / 2 {
                for m in (0..=q(9, 24)).chain(q(vec![100], vec![100, 1000, 1025, 3000])) {
                    jobs.push((n, t, m));
                }
            }
        }
        let jobs = std::sync::Arc::new(jobs);
        let mut e = explorer(0, 60);
        let j2 = jobs.clone();
        let s = e.explore(move |out| {
            let (n, t, m) = j2[mc::pick(j2.len() as u32, "amount") as usize];
            world(n, t, m, vec![], true, out);
        });
        c.explored(name, &s);
    }
    // Impossible thresholds: an error at once, at every party.
    let name = "impossible";
    if c.selected(name) {
        c.at(name);
        let mut e = explorer(0, 60);
        let s = e.explore(|out| {
            let n = 1 + mc::pick(8, "n") as usize;
            let t = mc::pick(12, "t") as usize;
            let m = mc::pick(3, "amount") as usize;
            if n > 1 && 2 * t + 1 <= n {
                return out.set(Ok("possible".into()));
            }
            let res = run(n, move |_, net| ShamirPreprocessing::<F>::new(n, t, m, &net).is_err());
            for (i, r) in res.into_iter().enumerate() {
                match r {
                    Ok(true) => {}
                    Ok(false) => return out.set(Err(format!("party {i} accepts n={n} t={t}"))),
                    Err(p) => return out.set(Err(format!("party {i} panicked with n={n} t={t}: {p}"))),
                }
            }
            out.set(Ok("impossible".into()));
        });
        c.explored(name, &s);
    }
    // Histories.
    let acts = [Act::Pair, Act::Rand, Act::Mul, Act::Buffer(1), Act::Buffer(4), Act::Fork(0), Act::Fork(1), Act::Fork(3), Act::Fork(1 << 30)];
    for (n, t, amounts, depth) in [(3, 1, vec![1, 4], q(3, 4)), (3, 1, vec![0], q(2, 3)), (4, 1, vec![4], q(3, 4)), (4, 1, vec![0], q(2, 3)), (5, 2, vec![3], q(2, 3)), (2, 0, vec![2], q(3, 4))] {
        let name = format!("histories-n{n}-t{t}-{amounts:?}");
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let hs = std::sync::Arc::new(histories(depth, &acts, 3));
        c.note(&name, format!("{} histories of up to {depth} steps", hs.len()));
        let mut e = explorer(0, 120);
        let s = e.explore(move |out| {
            let amount = amounts[mc::pick(amounts.len() as u32, "amount") as usize];
            let h = hs[mc::pick(hs.len() as u32, "history") as usize].clone();
            world(n, t, amount, h, true, out);
        });
        c.explored(&name, &s);
    }
    c.finish()
}
