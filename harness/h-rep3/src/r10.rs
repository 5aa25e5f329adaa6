//! R10: the witness traces computed on shares (replicated and Shamir) are those of the plain run.
use crate::ops::*;
use crate::pdef::*;
use mpc_core::gadgets::poseidon2::*;
use mpc_core::protocols::rep3;

fn arr<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    v.try_into().unwrap()
}

/// Which way the traces are computed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// One after the other, precomputed values for each.
    Alone,
    /// One after the other from one set of precomputed values.
    Sequence,
    /// All in one call, the number known at compile time.
    Packed,
    /// All in one call.
    Batch,
    /// The first alone, the others in one call, from one set of precomputed values.
    Mixed,
}
const FORMS: [Form; 5] = [Form::Alone, Form::Sequence, Form::Packed, Form::Batch, Form::Mixed];

/// Final states, then traces, of as many permutations as `x` has room for.
/// `T2` is the number of shares of `B` permutations.
fn rep3_traces<F: PrimeField, const T: usize, const T2: usize, const B: usize>(form: Form, p: &'static Poseidon2Params<F, T, 5>, n: &SimNet, s: &mut Rep3State, x: &[FS<F>]) -> eyre::Result<Vec<FS<F>>> {
    let h = Poseidon2::new(p);
    let k = x.len() / T;
    let (mut states, mut traces) = (vec![], vec![]);
    let mut all = h.precompute_rep3(k, n, s)?;
    let mut alone = |x: &[FS<F>], pre: &mut Poseidon2Precomputations<FS<F>>, states: &mut Vec<FS<F>>, traces: &mut Vec<FS<F>>| -> eyre::Result<()> {
        let mut c: [FS<F>; T] = arr(x);
        traces.extend(h.rep3_permutation_in_place_with_precomputation_intermediate(&mut c, pre, n)?);
        states.extend(c);
        Ok(())
    };
    match form {
        Form::Alone => {
            for c in x.chunks(T) {
                alone(c, &mut h.precompute_rep3(1, n, s)?, &mut states, &mut traces)?;
            }
        }
        Form::Sequence => {
            for c in x.chunks(T) {
                alone(c, &mut all, &mut states, &mut traces)?;
            }
        }
        Form::Packed => {
            let (o, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, T2, B>(arr(x), &mut all, n)?;
            states.extend(o);
            t.into_iter().for_each(|t| traces.extend(t));
        }
        Form::Batch => {
            let (o, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_vec(x.to_vec(), &mut all, n)?;
            eyre::ensure!(t.len() == k, "{} traces for {k} permutations", t.len());
            states.extend(o);
            t.into_iter().for_each(|t| traces.extend(t));
        }
        Form::Mixed => {
            alone(&x[..T], &mut all, &mut states, &mut traces)?;
            if k > 1 {
                let (o, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_vec(x[T..].to_vec(), &mut all, n)?;
                states.extend(o);
                t.into_iter().for_each(|t| traces.extend(t));
            }
        }
    }
    states.extend(traces);
    Ok(states)
}
fn shamir_traces<F: PrimeField, const T: usize, const T2: usize, const B: usize>(form: Form, p: &'static Poseidon2Params<F, T, 5>, n: &SimNet, t: usize, x: &[Sh<F>]) -> eyre::Result<Vec<Sh<F>>> {
    let h = Poseidon2::new(p);
    let k = x.len() / T;
    let mut s: ShamirState<F> = ShamirPreprocessing::new(n.n, t, h.rand_required(k, true), n)?.into();
    let (mut states, mut traces) = (vec![], vec![]);
    let alone = |x: &[Sh<F>], pre: &mut Poseidon2Precomputations<Sh<F>>, s: &mut ShamirState<F>, states: &mut Vec<Sh<F>>, traces: &mut Vec<Sh<F>>| -> eyre::Result<()> {
        let mut c: [Sh<F>; T] = arr(x);
        traces.extend(h.shamir_permutation_in_place_with_precomputation_intermediate(&mut c, pre, n, s)?);
        states.extend(c);
        Ok(())
    };
    if form == Form::Alone {
        for c in x.chunks(T) {
            let mut one = h.precompute_shamir(1, n, &mut s)?;
            alone(c, &mut one, &mut s, &mut states, &mut traces)?;
        }
        states.extend(traces);
        return Ok(states);
    }
    let mut all = h.precompute_shamir(k, n, &mut s)?;
    match form {
        Form::Packed => {
            let (o, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_packed::<_, T2, B>(arr(x), &mut all, n, &mut s)?;
            states.extend(o);
            t.into_iter().for_each(|t| traces.extend(t));
        }
        Form::Batch => {
            let (o, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_vec(x.to_vec(), &mut all, n, &mut s)?;
            eyre::ensure!(t.len() == k, "{} traces for {k} permutations", t.len());
            states.extend(o);
            t.into_iter().for_each(|t| traces.extend(t));
        }
        Form::Mixed if k > 1 => {
            alone(&x[..T], &mut all, &mut s, &mut states, &mut traces)?;
            let (o, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_vec(x[T..].to_vec(), &mut all, n, &mut s)?;
            states.extend(o);
            t.into_iter().for_each(|t| traces.extend(t));
        }
        _ => {
            for c in x.chunks(T) {
                alone(c, &mut all, &mut s, &mut states, &mut traces)?;
            }
        }
    }
    states.extend(traces);
    Ok(states)
}

/// What the plain run computes; its final state must be the permutation.
fn plain<F: PrimeField, const T: usize>(p: &'static Poseidon2Params<F, T, 5>, d: &Def<F>, x: &[F]) -> Result<Vec<F>, String> {
    let h = Poseidon2::new(p);
    let (mut states, mut traces) = (vec![], vec![]);
    for c in x.chunks(T) {
        let (s, t) = h.plain_permutation_intermediate(arr(c)).map_err(|e| e.to_string())?;
        if s.to_vec() != d.perm(c) {
            return Err(format!("plain trace of {c:?} ends in another state than the permutation"));
        }
        states.extend(s);
        traces.extend(t);
    }
    states.extend(traces);
    Ok(states)
}

/// The values that occur while the definition is followed.
fn occurring<F: PrimeField>(d: &Def<F>, x: &[F]) -> std::collections::HashSet<F> {
    let t = x.len();
    let mut all: std::collections::HashSet<F> = [F::zero()].into_iter().collect();
    fn mds<F: PrimeField>(s: &[F], all: &mut std::collections::HashSet<F>) {
        // Partial sums of the wide external layer: the columns after the small matrix.
        if s.len() > 4 {
            let m = external::<F>(4);
            for c in s.chunks(4) {
                all.extend(times(&m, c));
            }
        }
    }
    let sbox = |v: F, all: &mut std::collections::HashSet<F>| {
        all.extend([v.square(), v.square().square(), power(v, 5), power(v, 5) + power(v, 5)]);
    };
    mds(x, &mut all);
    let mut s = times(&d.ext, x);
    all.extend(&s);
    for (i, rc) in d.first.iter().chain(&d.last).enumerate() {
        if i == d.first.len() {
            for rc in &d.inner {
                let v = s[0] + rc;
                sbox(v, &mut all);
                let mut before = s.clone();
                before[0] = power(v, 5);
                all.insert(before.iter().sum());
                s = d.inner_round(&s, *rc);
                all.extend(&s);
            }
        }
        let after: Vec<F> = s.iter().zip(rc).map(|(a, b)| power(*a + b, 5)).collect();
        for (a, b) in s.iter().zip(rc) {
            sbox(*a + b, &mut all);
        }
        mds(&after, &mut all);
        if t == 2 || t == 3 {
            all.insert(after.iter().sum());
        }
        if t == 4 {
            // The steps of the small matrix.
            let (a, b) = (after[0] + after[1], after[2] + after[3]);
            let (e, f) = (after[1].double() + b, after[3].double() + a);
            all.extend([a, b, e, f, a.double().double() + f, b.double().double() + e, after[1].double(), after[3].double()]);
        }
        s = d.outer_round(&s, rc);
        all.extend(&s);
    }
    all
}

/// Inputs: `k` permutations' words.
fn words<F: PrimeField, const T: usize>(k: usize) -> Vec<Vec<F>> {
    let mut v = vec![vec![F::zero(); k * T], vec![-F::one(); k * T]];
    v.extend((1..q(4u64, 12)).map(|salt| (0..k * T).map(|i| F::from(mix(i as u64, salt, 5)).inverse().unwrap_or(F::one())).collect()));
    // One word different from zero: wrong places show.
    v.extend((0..k * T).map(|i| (0..k * T).map(|j| if i == j { F::from(3u64) } else { F::zero() }).collect()));
    v
}

fn compare<F: PrimeField, const T: usize, const T2: usize, const B: usize>(c: &Check, p: &'static Poseidon2Params<F, T, 5>, tag: &str) {
    let k = B;
    for (what, n, t) in [("rep3", 3usize, 1usize), ("shamir", 3, 1), ("shamir", 5, 2)] {
        let name = format!("{tag}-t{T}-{k}-{what}-{n}");
        if !c.selected(&name) || c.failed() || (n == 5 && T == 16 && !thorough()) {
            continue;
        }
        c.at(&name);
        let d = Def::of(p);
        let ins = words::<F, T>(k);
        let ins = if T == 16 || n == 5 { ins[..q(3, 12)].to_vec() } else { ins };
        let want: Result<Vec<Vec<F>>, String> = ins.iter().map(|x| plain(p, &d, x)).collect();
        let want = match want {
            Ok(w) => w,
            Err(e) => {
                c.violation(&name, &e, json!({"scenario": name}));
                return;
            }
        };
        // Every entry of the plain trace occurs in the definition.
        for (x, w) in ins.iter().zip(&want) {
            let size = (w.len() - k * T) / k;
            for (j, x) in x.chunks(T).enumerate() {
                let occ = occurring(&d, x);
                let tr = &w[k * T + j * size..k * T + (j + 1) * size];
                if let Some(i) = tr.iter().position(|v| !occ.contains(v)) {
                    c.violation(&name, &format!("entry {i} of the plain trace occurs nowhere in the permutation"), json!({"scenario": name}));
                    return;
                }
            }
        }
        let total = ins.len();
        let mut e = explorer(0, 120);
        e.bounds.threads = 1;
        e.bounds.max_executions = u64::MAX;
        let s = e.explore(move |out| {
            let form = FORMS[mc::pick(FORMS.len() as u32, "form") as usize];
            let i = mc::pick(total as u32, "input") as usize;
            let salt = mc::pick(if i < 3 { 3 } else { 1 }, "draws") as u64;
            if k == 1 && form == Form::Mixed {
                return out.set(Ok("skipped".into()));
            }
            script(salt + 2);
            let x = ins[i].clone();
            let mut g: Vec<Vec<F>> = vec![];
            let opened: Result<Vec<F>, String> = if what == "rep3" {
                let shares = rep3::share_field_elements::<F, _>(&x, &mut crate::r03::rand_chacha_rng(salt));
                let res = run(3, move |i, net| -> eyre::Result<Vec<FS<F>>> {
                    let mut st = Rep3State::new(&net, A2BType::Direct)?;
                    rep3_traces::<F, T, T2, B>(form, p, &net, &mut st, &shares[i])
                });
                let mut h = vec![];
                let mut bad = None;
                for (i, r) in res.into_iter().enumerate() {
                    match r {
                        Ok(Ok(v)) => h.push(v),
                        Ok(Err(e)) => bad = Some(format!("party {i}: {e}")),
                        Err(e) => bad = Some(format!("party {i} panicked: {e}")),
                    }
                }
                match bad {
                    Some(b) => Err(b),
                    None if h.iter().any(|v| v.len() != h[0].len()) => Err("parties disagree about the length".into()),
                    None => (0..h[0].len())
                        .map(|j| {
                            if (0..3).any(|i| h[i][j].b != h[(i + 2) % 3][j].a) {
                                return Err(format!("value {j} is no sharing"));
                            }
                            Ok(rep3::combine_field_element(h[0][j], h[1][j], h[2][j]))
                        })
                        .collect(),
                }
            } else {
                let deal = |v: &F, pos: u64| -> Vec<F> {
                    let poly: Vec<F> = std::iter::once(*v).chain((0..t as u64).map(|q| F::from(mix(pos, q, salt)))).collect();
                    (1..=n as u64).map(|x| poly.iter().rev().fold(F::zero(), |a, c| a * F::from(x) + c)).collect()
                };
                let shares: Vec<Vec<F>> = x.iter().enumerate().map(|(i, v)| deal(v, i as u64)).collect();
                let res = run(n, move |i, net| -> eyre::Result<Vec<F>> {
                    let mine: Vec<Sh<F>> = shares.iter().map(|s| Sh::new(s[i])).collect();
                    Ok(shamir_traces::<F, T, T2, B>(form, p, &net, t, &mine)?.into_iter().map(|s| s.inner()).collect())
                });
                let mut bad = None;
                for (i, r) in res.into_iter().enumerate() {
                    match r {
                        Ok(Ok(v)) => g.push(v),
                        Ok(Err(e)) => bad = Some(format!("party {i}: {e}")),
                        Err(e) => bad = Some(format!("party {i} panicked: {e}")),
                    }
                }
                match bad {
                    Some(b) => Err(b),
                    None if g.iter().any(|v| v.len() != g[0].len()) => Err("parties disagree about the length".into()),
                    None => {
                        // The polynomial through the first t+1 shares, at 0 and at the others.
                        let at = |j: usize, x: u64| -> F {
                            (0..=t)
                                .map(|a| {
                                    let l: F = (0..=t).filter(|b| *b != a).map(|b| (F::from(x) - F::from(b as u64 + 1)) / (F::from(a as u64 + 1) - F::from(b as u64 + 1))).product();
                                    l * g[a][j]
                                })
                                .sum()
                        };
                        (0..g[0].len())
                            .map(|j| {
                                if (t + 1..n).any(|i| at(j, i as u64 + 1) != g[i][j]) {
                                    return Err(format!("value {j} is no sharing of degree {t}"));
                                }
                                Ok(at(j, 0))
                            })
                            .collect()
                    }
                }
            };
            out.set(opened.and_then(|o| {
                if o.len() != want[i].len() {
                    return Err(format!("{form:?}: {} values, plain {}", o.len(), want[i].len()));
                }
                match o.iter().zip(&want[i]).position(|(a, b)| a != b) {
                    Some(j) => Err(format!("{form:?}: {} {j} differs from the plain run", if j < k * T { "state" } else { "trace entry" })),
                    None => Ok("equal".into()),
                }
            }).map_err(|e| format!("input {i}, {form:?}: {e}")));
        });
        c.explored(&name, &s);
    }
}

pub fn main() {
    let c = Check::new("R10");
    let jobs: Vec<Box<dyn FnOnce(&Check) + Send>> = vec![
        Box::new(|c| compare::<F65537, 2, 2, 1>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 2, 4, 2>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 3, 3, 1>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 3, 9, 3>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 4, 4, 1>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 4, 8, 2>(c, params(4, 4, 56, 1), "p65537")),
        Box::new(|c| compare::<F65537, 16, 16, 1>(c, params(4, 4, 57, 1), "p65537")),
        Box::new(|c| compare::<F65537, 16, 32, 2>(c, params(4, 4, 57, 1), "p65537")),
        Box::new(|c| compare::<ark_bn254::Fr, 2, 4, 2>(c, Poseidon2::<ark_bn254::Fr, 2, 5>::default().params, "bn254")),
        Box::new(|c| compare::<ark_bn254::Fr, 3, 6, 2>(c, Poseidon2::<ark_bn254::Fr, 3, 5>::default().params, "bn254")),
        Box::new(|c| compare::<ark_bn254::Fr, 4, 8, 2>(c, Poseidon2::<ark_bn254::Fr, 4, 5>::default().params, "bn254")),
        Box::new(|c| compare::<ark_bn254::Fr, 16, 32, 2>(c, Poseidon2::<ark_bn254::Fr, 16, 5>::default().params, "bn254")),
    ];
    parallel(&c, jobs, |c, j| {
        crate::r04::inline_rayon();
        j(c)
    });
    c.assume("where an intermediate value belongs in the trace: the tables of indices the plain run uses, which no circuit compiler here can produce again");
    c.finish()
}
