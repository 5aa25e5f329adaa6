//! K01: what an input file denotes, for every small JSON value and every short string.
use crate::prelude::*;
use co_circom_types::{ShamirInputType, split_input_shamir};
use serde_json::Value;

/// The residue of a decimal or hexadecimal numeral modulo the modulus, digit by digit.
pub fn numeral<F: PrimeField>(s: &str) -> Option<F> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (radix, digits) = match s.strip_prefix("0x") {
        Some(r) => (16, r),
        None => (10, s),
    };
    if digits.is_empty() {
        return None;
    }
    let mut v = F::zero();
    for ch in digits.chars() {
        v = v * F::from(radix as u64) + F::from(ch.to_digit(radix)? as u64);
    }
    Some(if neg { -v } else { v })
}
/// Spellings that nobody relies on either way.
fn unclaimed(s: &str) -> bool {
    s.contains('+') || s.contains('_') || s.contains("--")
}

/// The entries that an input denotes; None if it is ill-formed.
pub fn entries<F: PrimeField>(name: &str, v: &Value) -> Option<Vec<(String, F)>> {
    fn scalar<F: PrimeField>(v: &Value) -> Option<F> {
        match v {
            Value::Bool(b) => Some(F::from(*b as u64)),
            Value::String(s) => numeral(s),
            _ => None,
        }
    }
    fn walk<F: PrimeField>(v: &[Value], out: &mut Vec<Option<F>>) -> bool {
        v.iter().all(|x| match x {
            Value::Array(a) => walk(a, out),
            Value::String(s) if s == "?" => {
                out.push(None);
                true
            }
            x => match scalar(x) {
                Some(f) => {
                    out.push(Some(f));
                    true
                }
                None => false,
            },
        })
    }
    match v {
        Value::Array(a) => {
            let mut out = vec![];
            walk(a, &mut out).then(|| out.into_iter().enumerate().filter_map(|(i, x)| x.map(|x| (format!("{name}[{i}]"), x))).collect())
        }
        x => scalar(x).map(|f| vec![(name.to_string(), f)]),
    }
}

fn judge<F: PrimeField>(c: &Check, name: &str, inputs: &[(&str, Value)], public: &[&str], n: usize, t: usize) {
    let map: serde_json::Map<String, Value> = inputs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let pubs: Vec<String> = public.iter().map(|s| s.to_string()).collect();
    let what = || format!("{} with public inputs {public:?}, {n} parties, degree {t}", Value::Object(map.clone()));
    let got = match mc::catch(|| split_input_shamir::<F>(map.clone(), &pubs, t, n)) {
        Ok(g) => g,
        Err(e) => {
            c.expect(false, name, || format!("panic: {e}; {}", what()));
            return;
        }
    };
    let mut want: Option<BTreeMap<String, (F, bool)>> = Some(BTreeMap::new());
    for (k, v) in inputs {
        match entries::<F>(k, v) {
            Some(e) => {
                if let Some(w) = &mut want {
                    w.extend(e.into_iter().map(|(n, f)| (n, (f, public.contains(k)))))
                }
            }
            None => want = None,
        }
    }
    let (got, want) = match (got, want) {
        (Err(_), None) => return,
        (Err(e), Some(_)) => {
            c.expect(false, name, || format!("rejected ({e}): {}", what()));
            return;
        }
        (Ok(_), None) => {
            c.expect(false, name, || format!("ill-formed input accepted: {}", what()));
            return;
        }
        (Ok(g), Some(w)) => (g, w),
    };
    c.expect(got.len() == n, name, || format!("{} parties' shares; {}", got.len(), what()));
    for g in &got {
        c.expect(g.keys().eq(want.keys()), name, || format!("entries {:?} instead of {:?}; {}", g.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), what()));
        if c.failed() {
            return;
        }
    }
    for (k, (v, public)) in &want {
        if *public {
            for g in &got {
                c.expect(g[k] == ShamirInputType::Public(*v), name, || format!("{k} is {:?} instead of the public value {v}; {}", g[k], what()));
            }
        } else {
            let mut sh = vec![];
            for g in &got {
                match g[k].as_shared() {
                    Some(s) => sh.push(s.inner()),
                    None => {
                        c.expect(false, name, || format!("{k} is not shared; {}", what()));
                        return;
                    }
                }
            }
            c.expect(secret_of(&sh, t) == Some(*v), name, || format!("{k}: shares {sh:?} are no sharing of degree {t} of {v}; {}", what()));
        }
    }
}

/// Every string over an alphabet up to a length, as a value and inside an array.
fn strings<F: PrimeField>(c: &Check, alphabet: &[char], max: usize) {
    let name = format!("strings-{}", F::MODULUS);
    if !c.selected(&name) {
        return;
    }
    let mut jobs: Vec<Vec<u64>> = vec![];
    for k in 0..=max {
        if k < 2 {
            jobs.extend(words(alphabet.len() as u64, k).map(|w| [vec![k as u64], w].concat()));
        } else {
            jobs.extend(words(alphabet.len() as u64, 2).map(|w| [vec![k as u64], w].concat()));
        }
    }
    parallel(c, jobs, |c, job| {
        c.at(&name);
        let (k, head) = (job[0] as usize, &job[1..]);
        let mut cases = 0;
        for tail in words(alphabet.len() as u64, k - head.len()) {
            let s: String = head.iter().chain(&tail).map(|i| alphabet[*i as usize]).collect();
            if unclaimed(&s) {
                continue;
            }
            judge::<F>(c, &name, &[("x", Value::String(s.clone()))], &["x"], 1, 0);
            if s != "?" {
                judge::<F>(c, &name, &[("x", json!(["1", s]))], &[], 2, 0);
            }
            cases += 2;
            if c.failed() {
                return;
            }
        }
        c.count(cases, cases);
        c.tick();
    });
}

/// All arrays with the given number of nodes below the root.
fn arrays(nodes: usize, leaves: &[Value]) -> Vec<Vec<Value>> {
    if nodes == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for rest in arrays(nodes - 1, leaves) {
        for l in leaves {
            let mut v = vec![l.clone()];
            v.extend(rest.clone());
            out.push(v);
        }
    }
    for inner in 0..nodes {
        for a in arrays(inner, leaves) {
            for rest in arrays(nodes - 1 - inner, leaves) {
                let mut v = vec![Value::Array(a.clone())];
                v.extend(rest);
                out.push(v);
            }
        }
    }
    out
}

fn structures<F: PrimeField>(c: &Check, max: usize) {
    let name = format!("structures-{}", F::MODULUS);
    if !c.selected(&name) {
        return;
    }
    let good = [json!("3"), json!("-0x1f"), json!(true), json!("?")];
    let mixed = [json!("0x1F"), json!("-12"), json!(false), json!(true), json!("?"), json!(""), json!("-"), json!(7), json!(1.5), json!(null), json!({}), json!({"a": "1"})];
    let mut jobs: Vec<(Vec<Value>, usize)> = vec![];
    for k in 0..=max {
        jobs.extend(arrays(k, &good).into_iter().map(|a| (a, k)));
    }
    for k in 0..max - 1 {
        jobs.extend(arrays(k, &mixed).into_iter().map(|a| (a, k)));
    }
    // Many leaves: the order of indices beyond nine.
    for k in 9..=q(14usize, 130) {
        jobs.push(((0..k).map(|i| if i % 5 == 3 { json!("?") } else { json!(i.to_string()) }).collect(), k));
        jobs.push(((0..k).map(|i| json!([[i.to_string()], [], [true, "?"]])).collect(), k));
    }
    let chunks: Vec<Vec<(Vec<Value>, usize)>> = jobs.chunks(256).map(|c| c.to_vec()).collect();
    parallel(c, chunks, |c, chunk| {
        c.at(&name);
        let mut cases = 0;
        for (a, _) in chunk {
            let v = Value::Array(a);
            judge::<F>(c, &name, &[("x", v.clone())], &["x"], 2, 0);
            judge::<F>(c, &name, &[("x", v.clone()), ("xy", json!("-5"))], &["y", "xy"], 3, 1);
            cases += 2;
        }
        c.count(cases, cases);
        c.tick();
    });
    // Several inputs, every choice of public ones, every number of parties.
    c.at(&name);
    let vals = [json!("5"), json!(true), json!(["1", "?", ["2"]]), json!([]), json!("x"), json!([["0x"]])];
    let names = ["a", "ab", "b[0]", ""];
    let mut cases = 0;
    for w in words(vals.len() as u64 + 1, 4) {
        let inputs: Vec<(&str, Value)> = names.iter().zip(&w).filter(|(_, i)| **i > 0).map(|(n, i)| (*n, vals[*i as usize - 1].clone())).collect();
        for mask in 0..16 {
            let public: Vec<&str> = (0..4).filter(|i| mask >> i & 1 == 1).map(|i| names[i]).collect();
            judge::<F>(c, &name, &inputs, &public, 3, 1);
            cases += 1;
        }
        if c.failed() {
            return;
        }
    }
    for n in 1..=7 {
        for t in 0..n {
            judge::<F>(c, &name, &[("a", json!(["1", "2", "-3"])), ("b", json!("0x10"))], &["b"], n, t);
            cases += 1;
        }
    }
    c.count(cases, cases);
}

/// Numbers around the modulus and around powers of two and ten, in every spelling.
fn numbers<F: PrimeField>(c: &Check, name: &str) {
    if !c.selected(name) {
        return;
    }
    c.at(name);
    // Decimal arithmetic on digit vectors, least significant first.
    fn add(a: &mut Vec<u8>, radix: u8, mut carry: u32) {
        for d in a.iter_mut() {
            let v = *d as u32 + carry;
            *d = (v % radix as u32) as u8;
            carry = v / radix as u32;
        }
        while carry > 0 {
            a.push((carry % radix as u32) as u8);
            carry /= radix as u32;
        }
    }
    fn times(a: &mut Vec<u8>, radix: u8, by: u32) {
        let mut carry = 0;
        for d in a.iter_mut() {
            let v = *d as u32 * by + carry;
            *d = (v % radix as u32) as u8;
            carry = v / radix as u32;
        }
        add(&mut vec![], radix, 0);
        while carry > 0 {
            a.push((carry % radix as u32) as u8);
            carry /= radix as u32;
        }
    }
    fn pred(a: &mut [u8], radix: u8) {
        for d in a.iter_mut() {
            if *d > 0 {
                *d -= 1;
                return;
            }
            *d = radix - 1;
        }
    }
    let bits: Vec<bool> = {
        use ark_ff::BigInteger;
        F::MODULUS.to_bits_be()
    };
    let mut cases = 0u64;
    for radix in [10u8, 16] {
        let mut list: Vec<Vec<u8>> = vec![];
        // Multiples of the modulus.
        let mut m = vec![0u8];
        for b in &bits {
            times(&mut m, radix, 2);
            add(&mut m, radix, *b as u32);
        }
        for k in 1..=17 {
            let mut v = m.clone();
            times(&mut v, radix, k);
            list.push(v);
        }
        // Powers of two and of the radix.
        let mut v = vec![1u8];
        for _ in 0..q(600, 2100) {
            list.push(v.clone());
            times(&mut v, radix, 2);
        }
        for k in 0..q(200, 700) {
            let mut v = vec![0; k];
            v.push(1);
            list.push(v);
        }
        for base in list {
            for off in [-2i32, -1, 0, 1, 2] {
                let mut v = base.clone();
                if off < 0 {
                    let small = v.iter().skip(1).all(|d| *d == 0);
                    if small && (v[0] as i32) < -off {
                        continue;
                    }
                    for _ in 0..-off {
                        pred(&mut v, radix);
                    }
                } else {
                    add(&mut v, radix, off as u32);
                }
                let digits: String = v.iter().rev().map(|d| char::from_digit(*d as u32, radix as u32).unwrap()).collect();
                let pre = if radix == 16 { "0x" } else { "" };
                for sign in ["", "-"] {
                    for zeros in ["", "0", "00000"] {
                        let s = format!("{sign}{pre}{zeros}{digits}");
                        judge::<F>(c, name, &[("x", json!(s))], &["x"], 1, 0);
                        if zeros.is_empty() {
                            judge::<F>(c, name, &[("x", json!([s.to_uppercase().replace('X', "x")]))], &[], 1, 0);
                        }
                        cases += 1;
                    }
                }
                if c.failed() {
                    return;
                }
            }
        }
        c.tick();
    }
    c.count(cases, cases);
}

/// The shares of secret inputs hide them: enumerated over all randomness.
fn hiding<F: PrimeField>(c: &Check, n: usize, t: usize, k: usize) {
    let p = modulus::<F>();
    let name = format!("hiding-p{p}-n{n}-t{t}-{k}-values");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for coalition in subsets(n, t) {
        let mut e = explorer(0, 60);
        e.bounds.max_executions = u64::MAX;
        let co = coalition.clone();
        let stats = e.explore(move |out| {
            let vals: Vec<u64> = (0..k).map(|_| mc::pick(p as u32, "value") as u64).collect();
            simrand::ctl::ctl().script = Some(Rc::new(move |_, _| mc::pick(p as u32, "draw") as u64));
            let map = [("x".to_string(), json!(vals.iter().map(|v| v.to_string()).collect::<Vec<_>>()))].into_iter().collect();
            let sh = split_input_shamir::<F>(map, &[], t, n).unwrap();
            let view: Vec<Vec<u64>> = co.iter().map(|i| sh[*i].values().map(|v| small(v.as_shared().unwrap().inner())).collect()).collect();
            out.set(Ok(format!("{vals:?}|{view:?}")));
        });
        c.explored(&name, &stats);
        if stats.capped || c.failed() {
            return;
        }
        // Every view equally often for every value.
        let views = p.pow((t * k) as u32);
        let per = stats.executions / p.pow(k as u32) / views;
        let ok = stats.outcomes.len() as u64 == p.pow(k as u32) * views && stats.outcomes.values().all(|v| *v == per);
        c.expect(ok, &name, || format!("the shares of parties {coalition:?} depend on the values: {} different pairs of values and views instead of {}", stats.outcomes.len(), p.pow(k as u32) * views));
    }
}

pub fn main() {
    let c = Check::new("K01");
    c.note("accepted spellings", json!("-?[0-9]+, -?0x[0-9a-fA-F]+, booleans, \"?\" in arrays"));
    c.assume("spellings with a plus sign, an underscore or two minus signs are neither required nor forbidden");
    strings::<F17>(&c, &['0', '1', '9', '-', 'x', 'a', 'F', 'g', ' ', '.', '?'], q(4, 6));
    strings::<ark_bn254::Fr>(&c, &['0', '7', '-', 'x', 'e', 'X', '\u{0661}', '\n'], q(4, 6));
    structures::<F17>(&c, q(5, 6));
    structures::<F65537>(&c, q(4, 5));
    numbers::<F17>(&c, "numbers-17");
    numbers::<F65537>(&c, "numbers-65537");
    numbers::<ark_bn254::Fr>(&c, "numbers-bn254");
    numbers::<ark_bls12_381::Fr>(&c, "numbers-bls12-381");
    hiding::<F3>(&c, 2, 1, q(2, 3));
    hiding::<F5>(&c, 3, 1, 2);
    hiding::<F5>(&c, 4, 1, q(2, 3));
    hiding::<F5>(&c, 4, 2, q(1, 2));
    hiding::<F7>(&c, 5, 2, 1);
    c.finish()
}
