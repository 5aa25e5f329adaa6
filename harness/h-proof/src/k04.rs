//! K04: Plonk proofs over groups whose discrete logarithms are known.
use crate::pairing::*;
use crate::plonk::*;
use crate::prelude::*;
use circom_types::plonk::{PlonkProof, VerificationKey, Zkey};
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::SharedWitness;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_serde_compat::CanonicalJsonSerialize;
use co_plonk::{Plonk, ShamirCoPlonk};
use std::sync::Arc;

/// What the prover returns: Err(None) for an error, Err(Some) for a panic or disagreement.
type Proved<P> = Result<PlonkProof<P>, Option<String>>;

trait Curve: Toy<BaseField: PrimeField> + CircomArkworksPairingBridge + 'static {}
impl<P: Toy<BaseField: PrimeField> + CircomArkworksPairingBridge + 'static> Curve for P {}

struct Case<P: Curve> {
    keys: Keys<P>,
    zkey: Arc<Zkey<P>>,
    vk: VerificationKey<P>,
    public: Vec<S<P>>,
    private: Vec<S<P>>,
    satisfied: bool,
}
impl<P: Curve> Case<P> {
    fn new(c: &Circuit, tau: u64, public: Vec<S<P>>, private: Vec<S<P>>) -> Self {
        let keys = Keys::new(c, tau);
        let satisfied = c.satisfied(&c.signals(&public, &private));
        Case { zkey: Arc::new(keys.zkey()), vk: keys.vk(), keys, public, private, satisfied }
    }
    fn show(&self) -> String {
        let f = |v: &[S<P>]| v.iter().map(|x| small(*x)).collect::<Vec<_>>();
        format!("{:?}, public {:?}, private {:?}, tau {}", self.keys.c, f(&self.public), f(&self.private), small(self.keys.tau))
    }
    fn full(&self) -> Vec<S<P>> {
        let mut v = vec![S::<P>::one()];
        v.extend(&self.public);
        v
    }
}

fn plain<P: Curve>(zkey: &Arc<Zkey<P>>, public: &[S<P>], private: &[S<P>]) -> Proved<P> {
    match mc::catch(|| Plonk::<P>::plain_prove(zkey.clone(), SharedWitness { public_inputs: public.to_vec(), witness: private.to_vec() })) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(_)) => Err(None),
        Err(e) => Err(Some(format!("the prover panics: {e}"))),
    }
}
fn shared<P: Curve>(zkey: &Arc<Zkey<P>>, n: usize, t: usize, public: &[S<P>], shares: Vec<Vec<Sh<S<P>>>>) -> Proved<P> {
    let (zkey, public) = (zkey.clone(), public.to_vec());
    let res = run(n, move |i, net| {
        let nets: [SimNet; 8] = std::array::from_fn(|k| SimNet { net: k, ..net });
        ShamirCoPlonk::<P>::prove(&nets, n, t, zkey.clone(), SharedWitness { public_inputs: public.clone(), witness: shares[i].clone() })
    });
    let mut ok = vec![];
    let mut failed = 0;
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok(p)) => ok.push(p),
            Ok(Err(_)) => failed += 1,
            Err(e) => return Err(Some(format!("party {i} panics: {e}"))),
        }
    }
    if failed > 0 {
        return if ok.is_empty() { Err(None) } else { Err(Some("some parties fail, others do not".into())) };
    }
    if ok.iter().any(|p| *p != ok[0]) {
        return Err(Some("the parties' proofs differ".into()));
    }
    if undelivered() != 0 {
        return Err(Some(format!("{} messages were never received", undelivered())));
    }
    Ok(ok.remove(0))
}

/// The verifier says what the equation says.
fn verify<P: Curve>(case: &Case<P>, x: &[S<P>], p: &PlonkProof<P>) -> Result<Option<bool>, String> {
    let Some(want) = (if x.len() == case.public.len() { case.keys.holds(x, p) } else { Some(false) }) else {
        return Ok(None);
    };
    match mc::catch(|| Plonk::<P>::verify(&case.vk, p, x).is_ok()) {
        Ok(got) if got == want => Ok(Some(want)),
        got => Err(format!("verification gives {got:?} instead of {want} for public inputs {:?} and the proof {p:?}", x.iter().map(|x| small(*x)).collect::<Vec<_>>())),
    }
}

/// The last panic, for the report.
static PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Outcome of one attempt: decided or unlucky (a random value was zero, a challenge degenerate).
fn judge<P: Curve>(case: &Case<P>, p: &Proved<P>) -> Result<bool, String> {
    let p = match p {
        Ok(p) => p,
        // A division by a challenge or random value that happens to be degenerate.
        Err(Some(e)) if e.contains("panics") => {
            *PANIC.lock().unwrap() = e.clone();
            return Ok(false);
        }
        Err(Some(e)) => return Err(format!("{e}; {}", case.show())),
        // Errors are the expected answer for an unsatisfied circuit.
        Err(None) => return Ok(!case.satisfied),
    };
    match verify(case, &case.public, p).map_err(|e| format!("{e}; {}", case.show()))? {
        None => Ok(false),
        Some(true) if !case.satisfied => Ok(false),
        Some(true) => {
            case.keys.blinding(&case.public, &case.private, p).map_err(|e| format!("{e}; {}", case.show()))?;
            Ok(true)
        }
        Some(false) if case.satisfied => {
            // Only a zero in the grand product excuses a wrong proof.
            match case.keys.blinding(&case.public, &case.private, p) {
                Ok(None) => Ok(false),
                _ => Err(format!("the proof does not verify; {}", case.show())),
            }
        }
        Some(false) => Ok(true),
    }
}

fn patterned<F: PrimeField>(public: usize, private: usize, adds: usize, gates: usize, salt: usize, good: bool) -> (Circuit, Vec<F>, Vec<F>) {
    let mut c = Circuit { public, private, additions: vec![], gates: vec![], n: 8 };
    for i in 0..adds {
        let known = c.vars();
        c.additions.push(((salt + 2 * i + 1) % known, i as i64 + 2, (salt * 3 + i) % known, 1 - 3 * i as i64));
    }
    let vars = c.vars();
    for i in 0..gates {
        let q = |k: usize| ((i * 7 + k * 3 + salt * (k + 1)) % 5) as i64 - 2;
        let w = |k: usize| (i * (k + 1) + salt + k * k + 1) % vars;
        c.gates.push(Gate { q: [q(0), q(1), q(2), q(3), q(4)], w: [w(0), w(1), w(2)] });
    }
    while c.n < public + gates {
        c.n *= 2;
    }
    let value = |i: usize| F::from((i * i * 11 + i * salt * 5 + 7 * salt + 3) as u64);
    let (x, y): (Vec<F>, Vec<F>) = ((0..public).map(value).collect(), (0..private).map(|i| value(i + 10)).collect());
    let s = c.signals(&x, &y);
    c.satisfy(&s);
    if !good && gates > 0 {
        c.gates[salt % gates].q[4] += 1;
    }
    (c, x, y)
}

fn trapdoor<F: PrimeField>(n: usize, salt: u64) -> u64 {
    let p = modulus::<F>();
    (0..)
        .map(|i| 2 + (salt * 7919 + i * 31 + 5) % (p - 2))
        .find(|t| !crate::r1cs::pow(F::from(*t), n as u64).is_one())
        .unwrap()
}

/// One attempt after the other until one decides.
fn shapes<P: Curve>(c: &Check, who: Option<(usize, usize)>, sizes: Vec<(usize, usize, usize, usize)>, salts: usize) {
    let p = modulus::<S<P>>();
    let name = match who {
        None => format!("plain-p{p}"),
        Some((n, t)) => format!("shared-p{p}-n{n}-t{t}"),
    };
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let mut cases = vec![];
    for (public, private, adds, gates) in sizes {
        for salt in 0..salts {
            let (circ, x, y) = patterned::<S<P>>(public, private, adds, gates, salt, salt % 3 != 2);
            cases.push(Case::<P>::new(&circ, trapdoor::<S<P>>(circ.n, salt as u64), x, y));
        }
    }
    let cases = Arc::new(cases);
    let tries = if p < 1000 { 12u32 } else { 4 };
    let open: Arc<std::sync::Mutex<BTreeMap<usize, u32>>> = Default::default();
    let mut e = explorer(0, 120);
    e.bounds.max_executions = 1_000_000;
    e.allow_panics = true;
    let (o, cs) = (open.clone(), cases.clone());
    let stats = e.explore(move |out| {
        let k = mc::pick(cs.len() as u32, "case") as usize;
        let case = &cs[k];
        let tape = mc::pick(tries, "tape") as u64;
        script_fixed(p, tape);
        let proof = match who {
            None => plain(&case.zkey, &case.full(), &case.private),
            Some((n, t)) => {
                let draws = (0..(t * case.private.len()) as u64).map(|i| (i * 5 + i * i * tape + tape * (i + 2) + 1) % p).collect();
                let sh = shamir::share_field_elements(&case.private, t, n, &mut ListRng::new(draws));
                shared(&case.zkey, n, t, &case.full(), sh)
            }
        };
        out.set(judge(case, &proof).map(|d| {
            if !d {
                *o.lock().unwrap().entry(k).or_default() += 1;
            }
            if d { "decided".into() } else { "unlucky".into() }
        }));
    });
    for (k, count) in open.lock().unwrap().iter() {
        c.expect(*count < tries, &name, || {
            let case = &cases[*k];
            format!("{} for each of {tries} tapes; {} {}", if case.satisfied { "no proof that verifies" } else { "a proof that verifies although the circuit is not satisfied" }, case.show(), PANIC.lock().unwrap())
        });
    }
    // Nothing but chance keeps an attempt from deciding: its share falls with the field.
    let unlucky = stats.outcomes.get("unlucky").copied().unwrap_or(0);
    let most = stats.executions * 400 / p + 3;
    if stats.violation.is_none() {
        c.expect(unlucky <= most, &name, || format!("{unlucky} of {} attempts fail or are not decided, at most {most} expected {}", stats.executions, PANIC.lock().unwrap()));
    }
    c.note(&name, json!({"circuits": cases.len(), "tapes": tries, "outcomes": stats.outcomes}));
    c.explored(&name, &stats);
}

/// A proof with one element, or the public inputs, altered.
fn altered<P: Curve>(c: &Check, public: usize, every: bool) {
    let p = modulus::<S<P>>();
    let name = format!("altered-p{p}-{public}-public");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    // A proof to start from.
    let found: Arc<std::sync::Mutex<Vec<(usize, PlonkProof<P>)>>> = Default::default();
    let cases: Arc<Vec<Case<P>>> = Arc::new((0..6).filter(|s| s % 3 != 2).map(|salt| {
        let (circ, x, y) = patterned::<S<P>>(public, 2, 1, 4, salt, true);
        Case::new(&circ, trapdoor::<S<P>>(circ.n, 3), x, y)
    }).collect());
    let (f, cs) = (found.clone(), cases.clone());
    let mut e = explorer(0, 60);
    e.bounds.threads = 1;
    e.allow_panics = true;
    let stats = e.explore(move |out| {
        let k = mc::pick(cs.len() as u32, "case") as usize;
        script_fixed(p, mc::pick(8, "tape") as u64);
        let pr = plain(&cs[k].zkey, &cs[k].full(), &cs[k].private);
        let d = judge(&cs[k], &pr);
        if let (Ok(true), Ok(pr)) = (&d, pr) {
            let mut f = f.lock().unwrap();
            if f.iter().all(|(i, _)| *i != k) {
                f.push((k, pr));
            }
        }
        out.set(d.map(|d| d.to_string()));
    });
    c.explored(&name, &stats);
    let proofs = std::mem::take(&mut *found.lock().unwrap());
    if !c.expect(!proofs.is_empty(), &name, || "no proof verifies".into()) {
        return;
    }
    let deltas: Vec<u64> = if every { (1..p).collect() } else { vec![1, 2, 3, 255, 256, p / 2, p - 2, p - 1] };
    let jobs: Vec<_> = proofs.into_iter().take(q(2, 4)).collect();
    parallel(c, jobs, |c, (k, proof)| {
        let case = &cases[k];
        let mut cases = 0u64;
        let mut wrong = 0u64;
        let mut judge = |what: String, x: &[S<P>], pr: &PlonkProof<P>| {
            cases += 1;
            match verify(case, x, pr) {
                Ok(r) => {
                    wrong += (r == Some(true)) as u64;
                    // In a large field no altered proof is right by chance.
                    c.expect(p < 1000 || r != Some(true), &name, || format!("accepted with {what}; {}; {pr:?}", case.show()));
                }
                Err(e) => {
                    c.expect(false, &name, || format!("{e}, {what}; {}", case.show()));
                }
            }
        };
        for d in &deltas {
            let d = S::<P>::from(*d);
            for i in 0..9 {
                let mut pr = proof.clone();
                let e: &mut P::G1Affine = [&mut pr.a, &mut pr.b, &mut pr.c, &mut pr.z, &mut pr.t1, &mut pr.t2, &mut pr.t3, &mut pr.wxi, &mut pr.wxiw].into_iter().nth(i).unwrap();
                *e = P::exp1(P::l1(e) + d);
                judge(format!("element {i} altered"), &case.public, &pr);
            }
            for i in 0..6 {
                let mut pr = proof.clone();
                *[&mut pr.eval_a, &mut pr.eval_b, &mut pr.eval_c, &mut pr.eval_s1, &mut pr.eval_s2, &mut pr.eval_zw].into_iter().nth(i).unwrap() += d;
                judge(format!("value {i} altered"), &case.public, &pr);
            }
            for i in 0..case.public.len() {
                let mut x = case.public.clone();
                x[i] += d;
                judge(format!("public input {i} altered"), &x, &proof);
            }
        }
        for i in 0..9 {
            let mut pr = proof.clone();
            let e: &mut P::G1Affine = [&mut pr.a, &mut pr.b, &mut pr.c, &mut pr.z, &mut pr.t1, &mut pr.t2, &mut pr.t3, &mut pr.wxi, &mut pr.wxiw].into_iter().nth(i).unwrap();
            if !P::l1(e).is_zero() {
                *e = P::exp1(S::<P>::zero());
                judge(format!("element {i} the identity"), &case.public, &pr);
            }
        }
        for len in 0..case.public.len() + 4 {
            for fill in [0u64, 1] {
                let mut x = case.public.clone();
                x.resize(len, S::<P>::from(fill));
                if len != case.public.len() {
                    judge(format!("{len} public inputs"), &x, &proof);
                }
            }
        }
        c.count(cases, cases);
        c.tick();
        c.note(&format!("{name}-{k}"), json!({"altered proofs": cases, "right by chance": wrong}));
    });
}

/// Which parties hold each seed of a run.
fn holders<P: Curve>(case: &Arc<Case<P>>, n: usize, t: usize) -> BTreeMap<[u8; 32], BTreeSet<usize>> {
    let out: Arc<std::sync::Mutex<BTreeMap<_, _>>> = Default::default();
    let (o, case) = (out.clone(), case.clone());
    let mut e = explorer(0, 60);
    e.bounds.max_executions = 1;
    let st = e.explore(move |res| {
        script_fixed(modulus::<S<P>>(), 1);
        let sh = shamir::share_field_elements(&case.private, t, n, &mut ListRng::new(vec![3; t * case.private.len()]));
        let _ = shared(&case.zkey, n, t, &case.full(), sh);
        *o.lock().unwrap() = simrand::ctl::ctl().holders.clone();
        res.set(Ok("done".into()));
    });
    assert!(st.violation.is_none(), "{:?}", st.violation);
    let m = out.lock().unwrap().clone();
    m
}

fn rank<F: PrimeField>(mut m: Vec<Vec<F>>) -> usize {
    let mut r = 0;
    let cols = m.first().map_or(0, |v| v.len());
    for c in 0..cols {
        let Some(i) = (r..m.len()).find(|i| !m[*i][c].is_zero()) else { continue };
        m.swap(r, i);
        let inv = m[r][c].inverse().unwrap();
        for k in r + 1..m.len() {
            let f = m[k][c] * inv;
            for j in c..cols {
                let x = m[r][j] * f;
                m[k][j] -= x;
            }
        }
        r += 1;
    }
    r
}

/// The eleven blinding values, which are linear in the draws: those unknown to any t parties
/// reach every combination of them.
fn blinding<P: Curve>(c: &Check, who: Option<(usize, usize)>) {
    let p = modulus::<S<P>>();
    let name = match who {
        None => "blinding-plain".to_string(),
        Some((n, t)) => format!("blinding-n{n}-t{t}"),
    };
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let (circ, x, y) = patterned::<S<P>>(2, 2, 1, 4, 1, true);
    let case = Arc::new(Case::<P>::new(&circ, trapdoor::<S<P>>(circ.n, 3), x, y));
    let (coalitions, known) = match who {
        None => (vec![vec![]], None),
        Some((n, t)) => (subsets(n, t), Some(Arc::new(holders(&case, n, t)))),
    };
    for coalition in coalitions {
        let seen: Arc<std::sync::Mutex<Vec<Vec<S<P>>>>> = Default::default();
        let (o, case, known, corrupt) = (seen.clone(), case.clone(), known.clone(), coalition.clone());
        let e = explorer(0, 60);
        let stats = e.explore(move |out| {
            let tape = mc::pick(24, "tape") as u64;
            script_fixed(p, 77);
            let fixed = simrand::ctl::ctl().script.take().unwrap();
            script_fixed(p, 1000 + tape);
            let varied = simrand::ctl::ctl().script.take().unwrap();
            let (known, corrupt) = (known.clone(), corrupt.clone());
            simrand::ctl::ctl().script = Some(Rc::new(move |seed, pos| {
                let secret = known.as_ref().is_none_or(|k| k.get(seed).is_some_and(|h| h.iter().all(|i| !corrupt.contains(i))));
                if secret { varied(seed, pos) } else { fixed(seed, pos) }
            }));
            let pr = match who {
                None => plain(&case.zkey, &case.full(), &case.private),
                Some((n, t)) => {
                    let sh = shamir::share_field_elements(&case.private, t, n, &mut ListRng::new(vec![3; t * case.private.len()]));
                    shared(&case.zkey, n, t, &case.full(), sh)
                }
            };
            out.set(judge(&case, &pr).and_then(|_| {
                if let Ok(pr) = &pr
                    && let Some(b) = case.keys.blinding(&case.public, &case.private, pr)?
                {
                    o.lock().unwrap().push(b);
                }
                Ok("ok".into())
            }));
        });
        let seen = seen.lock().unwrap();
        if stats.violation.is_none() {
            let r = if seen.len() < 2 { 0 } else { rank(seen[1..].iter().map(|v| v.iter().zip(&seen[0]).map(|(a, b)| *a - *b).collect()).collect()) };
            c.expect(r == 11, &name, || format!("with the randomness known to parties {coalition:?} fixed, the 11 blinding values of {} proofs span {r} dimensions only", seen.len()));
        }
        c.explored(&name, &stats);
    }
}

/// Schedules: every execution that deviates from the default one at most `dev` times.
fn schedules<P: Curve>(c: &Check, n: usize, t: usize, dev: u32, max: u64) {
    let p = modulus::<S<P>>();
    let name = format!("schedules-p{p}-n{n}-t{t}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let (circ, x, y) = patterned::<S<P>>(1, 2, 1, 3, 1, true);
    let case = Arc::new(Case::<P>::new(&circ, trapdoor::<S<P>>(circ.n, 3), x, y));
    let mut e = explorer(dev, 60);
    e.bounds.max_executions = max;
    let stats = e.explore(move |out| {
        script_fixed(p, 1);
        let sh = shamir::share_field_elements(&case.private, t, n, &mut ListRng::new(vec![3; t * case.private.len()]));
        let pr = shared(&case.zkey, n, t, &case.full(), sh);
        out.set(judge(&case, &pr).map(|d| format!("{d} {:?}", pr.map(|p| (points(&p).map(|p| P::log1(&p)), evals(&p).map(small))))));
    });
    if stats.violation.is_none() {
        c.expect(stats.outcomes.len() == 1, &name, || format!("the proof depends on the schedule: {:?}", stats.outcomes));
    }
    c.note(&name, json!({"executions": stats.executions, "deviations": dev, "complete": !stats.capped}));
    c.explored(&name, &stats);
}

/// Numbers of values that do not fit the circuit are errors, alone and together.
fn sizes<P: Curve>(c: &Check) {
    let p = modulus::<S<P>>();
    let name = "sizes".to_string();
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for (public, private, adds, gates) in [(1usize, 2usize, 1usize, 3usize), (2, 0, 0, 2), (3, 3, 2, 9), (1, 1, 0, 0)] {
        let (circ, _, _) = patterned::<S<P>>(public, private, adds, gates, 1, true);
        for a in 0..=public + 3 {
            for b in 0..=private + 3 {
                // The constant one and the public inputs.
                let fits = a == public + 1 && b == private;
                let full: Vec<S<P>> = (0..a as u64).map(|i| S::<P>::from(i * i + 1)).collect();
                let wit: Vec<S<P>> = (0..b as u64).map(|i| S::<P>::from(i * 3 + 5)).collect();
                let mut fixed = circ.clone();
                if fits {
                    let s = fixed.signals(&full[1..], &wit);
                    fixed.satisfy(&s);
                }
                let zkey = Arc::new(Keys::<P>::new(&fixed, 11).zkey());
                for who in [None, Some((2usize, 0usize)), Some((3, 1))] {
                    let (zkey, full, wit) = (zkey.clone(), full.clone(), wit.clone());
                    let e = explorer(0, 60);
                    let stats = e.explore(move |out| {
                        script_fixed(p, 1);
                        let pr = match who {
                            None => plain(&zkey, &full, &wit),
                            Some((n, t)) => {
                                let sh = shamir::share_field_elements(&wit, t, n, &mut ListRng::new(vec![3; t * wit.len()]));
                                let sh = if wit.is_empty() { vec![vec![]; n] } else { sh };
                                shared(&zkey, n, t, &full, sh)
                            }
                        };
                        out.set(match pr {
                            Err(Some(e)) => Err(format!("{e}: {a} public values (with the one) and {b} private ones for a circuit with {public} and {private}")),
                            Ok(_) if !fits => Err(format!("a proof: {a} public values (with the one) and {b} private ones for a circuit with {public} and {private}")),
                            Err(None) if fits => Err(format!("an error: {a} public values (with the one) and {b} private ones")),
                            _ => Ok("ok".into()),
                        });
                    });
                    c.explored(&name, &stats);
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    }
}

/// The repository's circuits on real curves: its stored proof and proofs made here.
fn vectors<P, C>(c: &Check, dir: &str)
where
    P: ark_ec::pairing::Pairing<G1 = Projective<C>, G1Affine = Affine<C>> + CircomArkworksPairingBridge + CanonicalJsonSerialize,
    C: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let name = format!("vectors-{}", dir.replace('/', "-"));
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let path = format!("/repo/test_vectors/Plonk/{dir}");
    let file = |f: &str| std::fs::File::open(format!("{path}/{f}"));
    let witness = circom_types::Witness::<S<P>>::from_reader(file("witness.wtns").unwrap()).unwrap().values;
    let vk: VerificationKey<P> = serde_json::from_reader(file("verification_key.json").unwrap()).unwrap();
    let stored: PlonkProof<P> = serde_json::from_reader(file("circom.proof").unwrap()).unwrap();
    let x = witness[1..=vk.n_public].to_vec();
    let mut proofs = vec![("snarkjs".to_string(), stored)];
    if let Ok(f) = file("circuit.zkey") {
        let zkey = Arc::new(Zkey::<P>::from_reader(f, circom_types::CheckElement::Yes).unwrap());
        let proved: Arc<std::sync::Mutex<Vec<_>>> = Default::default();
        let (o, zkey, w) = (proved.clone(), zkey.clone(), Arc::new(witness.clone()));
        let mut e = explorer(0, 120);
        e.bounds.threads = 1;
        let stats = e.explore(move |out| {
            let (zkey, w) = (zkey.clone(), w.clone());
            out.set((|| {
                let (pu, pr) = w.split_at(zkey.n_public + 1);
                let (n, t) = [(0, 0), (2, 0), (3, 1), (5, 2)][mc::pick(4, "parties") as usize];
                simrand::ctl::set_outside(5);
                if n == 0 {
                    let pl = Plonk::<P>::plain_prove(zkey.clone(), SharedWitness { public_inputs: pu.to_vec(), witness: pr.to_vec() }).map_err(|e| e.to_string())?;
                    o.lock().unwrap().push(("plain".to_string(), pl));
                    return Ok("ok".into());
                }
                let sh = shamir::share_field_elements(pr, t, n, &mut rand::thread_rng());
                let pu = pu.to_vec();
                let res = run(n, move |i, net| {
                    let nets: [SimNet; 8] = std::array::from_fn(|k| SimNet { net: k, ..net });
                    ShamirCoPlonk::<P>::prove(&nets, n, t, zkey.clone(), SharedWitness { public_inputs: pu.clone(), witness: sh[i].clone() })
                });
                let mut ps = vec![];
                for r in res {
                    ps.push(r?.map_err(|e| e.to_string())?);
                }
                if ps.iter().any(|p| *p != ps[0]) {
                    return Err("the parties' proofs differ".into());
                }
                o.lock().unwrap().push((format!("n={n}, t={t}"), ps.remove(0)));
                Ok("ok".into())
            })());
        });
        c.explored(&name, &stats);
        proofs.extend(proved.lock().unwrap().drain(..));
    }
    let made = proofs.len();
    let jobs: Vec<_> = proofs.into_iter().collect();
    let (vk, x) = (&vk, &x);
    parallel(c, jobs, |c, (who, proof)| {
        let mut cases = 0u64;
        let mut judge = |what: String, proof: &PlonkProof<P>, x: &[S<P>], want: bool| {
            cases += 1;
            let got = mc::catch(|| Plonk::<P>::verify(vk, proof, x).is_ok());
            c.expect(got == Ok(want), &name, || format!("{who} proof, {what}: verification gives {got:?} instead of {want}"));
        };
        judge("unaltered".into(), &proof, x, true);
        let g = P::G1::generator();
        let h = g * S::<P>::from(0x1234567u64);
        for i in 0..9 {
            for (what, f) in [("the generator added", 0), ("negated", 1), ("doubled", 2), ("a multiple added", 3), ("zero", 4)] {
                let mut pr = proof.clone();
                let e: &mut P::G1Affine = [&mut pr.a, &mut pr.b, &mut pr.c, &mut pr.z, &mut pr.t1, &mut pr.t2, &mut pr.t3, &mut pr.wxi, &mut pr.wxiw].into_iter().nth(i).unwrap();
                let p = e.into_group();
                *e = [p + g, -p, p + p, p + h, p - p][f].into_affine();
                judge(format!("element {i} {what}"), &pr, x, false);
            }
        }
        // Exchanges of two elements.
        for i in 0..9 {
            for j in i + 1..9 {
                let mut pr = proof.clone();
                let mut e: [P::G1Affine; 9] = [pr.a, pr.b, pr.c, pr.z, pr.t1, pr.t2, pr.t3, pr.wxi, pr.wxiw];
                e.swap(i, j);
                [pr.a, pr.b, pr.c, pr.z, pr.t1, pr.t2, pr.t3, pr.wxi, pr.wxiw] = e;
                judge(format!("elements {i} and {j} exchanged"), &pr, x, false);
            }
        }
        for i in 0..6 {
            for d in [S::<P>::one(), -S::<P>::one()] {
                let mut pr = proof.clone();
                *[&mut pr.eval_a, &mut pr.eval_b, &mut pr.eval_c, &mut pr.eval_s1, &mut pr.eval_s2, &mut pr.eval_zw].into_iter().nth(i).unwrap() += d;
                judge(format!("value {i} altered"), &pr, x, false);
            }
        }
        for i in 0..x.len() {
            for d in [S::<P>::one(), -S::<P>::one(), -x[i]] {
                if !d.is_zero() {
                    let mut y = x.clone();
                    y[i] += d;
                    judge(format!("public input {i} changed"), &proof, &y, false);
                }
            }
        }
        for len in 0..=x.len() + 2 {
            let mut y = x.clone();
            y.resize(len, S::<P>::zero());
            judge(format!("{len} public inputs"), &proof, &y, len == x.len());
        }
        c.count(cases, cases);
        c.tick();
    });
    c.note(&name, json!({"proofs": made}));
}

pub fn main() {
    let c = Check::new("K04");
    c.assume("the proving key belongs to the circuit, whose domain has at least eight elements");
    let mut all = vec![];
    for public in 0..=3 {
        for private in 0..=3 {
            for adds in 0..=2 {
                for gates in [0, 1, 3, 5, 8 - public] {
                    all.push((public, private, adds, gates));
                }
            }
        }
    }
    let mut big = vec![];
    for public in [0, 1, 4] {
        for gates in [8, 9, 15, 16, 17, 31].into_iter().filter(|g| *g > 8 || public > 0) {
            big.push((public, 3, 2, gates));
        }
    }
    shapes::<T65537>(&c, None, all.clone(), q(3, 12));
    shapes::<T257>(&c, None, all.clone(), q(3, 12));
    shapes::<T65537>(&c, None, big.clone(), q(3, 6));
    altered::<T65537>(&c, 1, false);
    altered::<T65537>(&c, 3, false);
    altered::<T257>(&c, 2, true);
    sizes::<T65537>(&c);
    blinding::<T65537>(&c, None);
    blinding::<T65537>(&c, Some((3, 1)));
    blinding::<T65537>(&c, Some((5, 2)));
    let some: Vec<_> = all.iter().copied().enumerate().filter(|(i, _)| i % q(11, 2) == 0).map(|(_, x)| x).collect();
    for (n, t) in q(vec![(2, 0), (3, 1), (5, 2)], vec![(1, 0), (2, 0), (3, 0), (3, 1), (4, 1), (5, 1), (5, 2), (7, 3)]) {
        shapes::<T65537>(&c, Some((n, t)), some.clone(), 3);
    }
    shapes::<T65537>(&c, Some((3, 1)), big.iter().copied().filter(|b| b.0 == 1 || thorough()).collect(), q(2, 3));
    for dir in ["bn254/multiplier2", "bn254/poseidon"] {
        vectors::<ark_bn254::Bn254, _>(&c, dir);
    }
    for dir in ["bls12_381/multiplier2", "bls12_381/poseidon"] {
        vectors::<ark_bls12_381::Bls12_381, _>(&c, dir);
    }
    schedules::<T65537>(&c, 2, 0, 1, q(400, 100_000));
    schedules::<T65537>(&c, 3, 1, 1, q(400, 100_000));
    c.finish()
}
