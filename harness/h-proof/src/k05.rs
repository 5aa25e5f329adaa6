//! K05: the witness maps of both reductions against their definitions.
use crate::pairing::*;
use crate::prelude::*;
use crate::r1cs::*;
use co_groth16::{CircomReduction, LibSnarkReduction, PlainGroth16Driver, R1CSToQAP, ShamirGroth16Driver};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Circom,
    LibSnark,
}
fn plain<P: Toy>(k: Kind, s: &System, z: &[P::ScalarField]) -> Result<Vec<P::ScalarField>, String> {
    let m = s.matrices();
    let (public, private) = z.split_at(s.public);
    match k {
        Kind::Circom => CircomReduction::witness_map_from_matrices::<P, PlainGroth16Driver>(&mut (), &m, public, private),
        Kind::LibSnark => LibSnarkReduction::witness_map_from_matrices::<P, PlainGroth16Driver>(&mut (), &m, public, private),
    }
    .map_err(|e| e.to_string())
}
fn expected<P: Toy>(k: Kind, s: &System, z: &[P::ScalarField]) -> Option<Vec<P::ScalarField>> {
    match k {
        Kind::Circom => circom(s, z),
        Kind::LibSnark => libsnark(s, z),
    }
}
/// No coset exists when the domain is the whole multiplicative group (not on any field in use).
fn usable<F: PrimeField>(k: Kind, s: &System) -> bool {
    let n = s.domain_size() as u64;
    !(k == Kind::LibSnark && n == modulus::<F>() - 1)
}

fn judge<P: Toy>(c: &Check, name: &str, k: Kind, s: &System, z: &[P::ScalarField]) -> bool {
    let what = || format!("{k:?}, {s:?}, assignment {:?}", z.iter().map(|x| small(*x)).collect::<Vec<_>>());
    let got = match mc::catch(|| plain::<P>(k, s, z)) {
        Ok(g) => g,
        Err(e) => {
            c.expect(false, name, || format!("panic: {e}; {}", what()));
            return false;
        }
    };
    let want = expected::<P>(k, s, z);
    match (&got, &want) {
        (Ok(g), Some(w)) => c.expect(g == w, name, || {
            let n = |v: &[P::ScalarField]| v.iter().map(|x| small(*x)).collect::<Vec<_>>();
            format!("{:?} instead of {:?}; {}", n(g), n(w), what())
        }),
        (Err(_), None) => true,
        _ => c.expect(false, name, || format!("{:?}; {}", got.as_ref().map(|v| v.len()), what())),
    }
}

/// Systems of every number of constraints and inputs, with varied rows.
fn patterned(public: usize, private: usize, m: usize, salt: usize) -> System {
    let vars = public + private;
    let lc = |i: usize| -> Lc {
        (0..(i + salt) % 4).map(|j| ((i * 3 + j * 5 + salt) as i64 % 7 - 3, (i * (j + 1) + j + salt) % vars)).collect()
    };
    System { public, private, rows: (0..m).map(|i| [lc(3 * i + 1), lc(3 * i + 2), lc(3 * i + 3)]).collect() }
}
fn assignment<F: PrimeField>(vars: usize, salt: u64) -> Vec<F> {
    (0..vars as u64).map(|i| if i == 0 { F::one() } else { F::from(i * i * 7 + i * salt + 3 * salt + 2) }).collect()
}

fn shapes<P: Toy>(c: &Check, max: usize) {
    let p = modulus::<P::ScalarField>();
    let name = format!("shapes-p{p}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut cases = 0;
    for threads in 1..=8usize {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for m in 0..=max {
            for public in 1..=5usize {
                for private in [0usize, 1, 3] {
                    if (threads != 8 && private != 1) || c.failed() {
                        continue;
                    }
                    for salt in 0..3 {
                        let mut s = patterned(public, private, m, salt);
                        let z = assignment::<P::ScalarField>(public + private, salt as u64 + 1);
                        if salt == 1 {
                            satisfy(&mut s, &z, m);
                        }
                        for k in [Kind::Circom, Kind::LibSnark] {
                            if usable::<P::ScalarField>(k, &s) {
                                pool.install(|| judge::<P>(c, &name, k, &s, &z));
                                cases += 1;
                            }
                        }
                    }
                }
            }
            c.tick();
        }
    }
    c.count(cases, cases);
}

/// Every system with m rows over the first k linear combinations, with several assignments.
fn contents<P: Toy>(c: &Check, m: usize, k: usize, vals: &[u64]) {
    let p = modulus::<P::ScalarField>();
    let name = format!("systems-p{p}-m{m}");
    if !c.selected(&name) {
        return;
    }
    let l = lcs(k);
    let zs: Vec<Vec<P::ScalarField>> = words(vals.len() as u64, 3)
        .map(|w| std::iter::once(P::ScalarField::one()).chain(w.iter().map(|x| P::ScalarField::from(vals[*x as usize]))).collect())
        .collect();
    let all: Vec<Vec<u64>> = words(l.len() as u64, 3 * m).collect();
    let jobs: Vec<Vec<Vec<u64>>> = all.chunks(512).map(|c| c.to_vec()).collect();
    parallel(c, jobs, |c, chunk| {
        c.at(&name);
        let mut cases = 0;
        for w in chunk {
            let s = System { public: 2, private: 2, rows: (0..m).map(|i| [0, 1, 2].map(|j| l[w[3 * i + j] as usize].clone())).collect() };
            for z in &zs {
                for kind in [Kind::Circom, Kind::LibSnark] {
                    judge::<P>(c, &name, kind, &s, z);
                    cases += 1;
                }
            }
            if c.failed() {
                return;
            }
        }
        c.count(cases, cases);
        c.tick();
    });
}

/// Sharings: the parties' outputs are a sharing of degree 2t of the right vector.
fn shared<P: Toy>(c: &Check, n: usize, t: usize, m: usize) {
    type F<P> = <P as ark_ec::pairing::Pairing>::ScalarField;
    let p = modulus::<F<P>>();
    let name = format!("shared-p{p}-n{n}-t{t}-m{m}");
    if !c.selected(&name) {
        return;
    }
    c.at(&name);
    let mut cases: Vec<(System, Vec<F<P>>, Vec<Vec<Sh<F<P>>>>)> = vec![];
    for public in 1..=3 {
        for private in [0usize, 1, 3] {
            for salt in 0..q(6, 12) {
                let mut s = patterned(public, private, m, salt);
                let z = assignment::<F<P>>(public + private, salt as u64 * 3 + 1);
                if salt % 2 == 1 {
                    satisfy(&mut s, &z, salt);
                }
                let draws = (0..(t * private) as u64).map(|i| (i * 5 + salt as u64 * (i + 2) + 1) % p).collect();
                let sh = shamir::share_field_elements(&z[public..], t, n, &mut ListRng::new(draws));
                cases.push((s, z, sh));
            }
        }
    }
    let cases = std::sync::Arc::new(cases);
    let k = cases.len();
    let e = explorer(0, 60);
    let stats = e.explore(move |out| {
        script_fixed(p, 1);
        let cs = cases.clone();
        let res = run(n, move |i, net| -> eyre::Result<Vec<Vec<Vec<F<P>>>>> {
            let mut state = ShamirState::from(ShamirPreprocessing::<F<P>>::new(n, t, 1, &net)?);
            let mut out = vec![];
            for (s, z, sh) in cs.iter() {
                let mats = s.matrices();
                let mut o = vec![];
                o.push(CircomReduction::witness_map_from_matrices::<P, ShamirGroth16Driver>(&mut state, &mats, &z[..s.public], &sh[i])?);
                if usable::<F<P>>(Kind::LibSnark, s) {
                    o.push(LibSnarkReduction::witness_map_from_matrices::<P, ShamirGroth16Driver>(&mut state, &mats, &z[..s.public], &sh[i])?);
                }
                out.push(o);
            }
            Ok(out)
        });
        out.set(compare::<P>(&cases, res, t));
    });
    c.explored(&name, &stats);
    c.count(2 * k as u64, 2 * k as u64);
}

fn compare<P: Toy>(
    cases: &[(System, Vec<P::ScalarField>, Vec<Vec<Sh<P::ScalarField>>>)],
    res: Vec<Result<eyre::Result<Vec<Vec<Vec<P::ScalarField>>>>, String>>,
    t: usize,
) -> Result<String, String> {
    let mut all = vec![];
    for (i, r) in res.into_iter().enumerate() {
        all.push(r.map_err(|e| format!("party {i} panics: {e}"))?.map_err(|e| format!("party {i} fails: {e}"))?);
    }
    for (x, (s, z, _)) in cases.iter().enumerate() {
        for (y, kind) in [Kind::Circom, Kind::LibSnark].into_iter().enumerate() {
            if y >= all[0][x].len() {
                continue;
            }
            let want = expected::<P>(kind, s, z).unwrap();
            for (i, o) in all.iter().enumerate() {
                if o[x][y].len() != want.len() {
                    return Err(format!("{kind:?}: party {i} has {} elements instead of {}; {s:?}", o[x][y].len(), want.len()));
                }
            }
            for (i, w) in want.iter().enumerate() {
                let sh: Vec<_> = all.iter().map(|o| o[x][y][i]).collect();
                if secret_of(&sh, 2 * t) != Some(*w) {
                    return Err(format!("{kind:?}, element {i}: shares {:?} are no sharing of degree {} of {}; {s:?}", sh.iter().map(|x| small(*x)).collect::<Vec<_>>(), 2 * t, small(*w)));
                }
            }
        }
    }
    Ok("ok".into())
}

pub fn main() {
    let c = Check::new("K05");
    c.note("fields", json!([17, 97, 257, 65537]));
    shapes::<T17>(&c, 20);
    shapes::<T97>(&c, q(40, 70));
    shapes::<T257>(&c, q(70, 280));
    contents::<T17>(&c, 1, 8, &[0, 1, 5, 16]);
    contents::<T17>(&c, 2, q(3, 5), &[0, 3, 16]);
    contents::<T97>(&c, 1, q(5, 8), &[0, 1, 5, 40, 96]);
    // Large enough for the work to be split between threads.
    if c.selected("large") {
        for m in q(vec![600, 1020], vec![255, 513, 600, 1020, 2040]) {
            let s = patterned(3, 9, m, 2);
            let z = assignment::<F65537>(12, 77);
            for k in [Kind::Circom, Kind::LibSnark] {
                judge::<T65537>(&c, "large", k, &s, &z);
            }
            c.count(2, 2);
        }
    }
    let mut jobs = vec![];
    for (n, t) in q(vec![(2, 0), (3, 1), (4, 1), (5, 2)], vec![(2, 0), (3, 0), (3, 1), (4, 1), (5, 1), (5, 2), (7, 3)]) {
        for m in q(vec![0, 1, 2, 3, 6, 13], (0..=14).collect()) {
            jobs.push((n, t, m));
        }
    }
    parallel(&c, jobs, |c, (n, t, m)| {
        shared::<T17>(c, n, t, m);
        shared::<T97>(c, n, t, m);
    });
    c.finish()
}
