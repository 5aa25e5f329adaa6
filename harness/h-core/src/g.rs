//! G01, G02: Poseidon2 and the Merkle trees built on it.
use crate::prelude::*;
use crate::proto::{Space, any, any_count, any_sharing, is_small, mix, script, state};
use mpc_core::gadgets::poseidon2::*;
use mpc_core::protocols::shamir::arithmetic as ar;
use crate::pdef::{Mode::*, *};
use num_bigint::BigUint;

/// All words of the length over the values, or - if these are too many - those that differ in at
/// most two places from a constant word.
fn some_words<F: PrimeField>(vals: &[F], len: usize, max: u64) -> Vec<Vec<F>> {
    let m = vals.len() as u64;
    if (len as f64) * (m as f64).ln() <= (max as f64).ln() {
        return words(m, len).map(|w| w.iter().map(|x| vals[*x as usize]).collect()).collect();
    }
    let mut out = Vec::new();
    for b in vals {
        out.push(vec![*b; len]);
        for i in 0..len {
            for x in vals {
                if x == b {
                    continue;
                }
                let mut w = vec![*b; len];
                w[i] = *x;
                out.push(w.clone());
                if (len * len * vals.len() * vals.len() * vals.len()) as u64 > 8 * max {
                    continue;
                }
                for j in i + 1..len {
                    for y in vals {
                        if y != b {
                            let mut w = w.clone();
                            w[j] = *y;
                            out.push(w);
                        }
                    }
                }
            }
        }
    }
    // And one with all entries different.
    out.push((0..len).map(|i| F::from(mix(&[3; 32], i as u64, 5))).collect());
    out
}
fn all<F: PrimeField>() -> Vec<F> {
    if is_small::<F>() {
        (0..modulus::<F>()).map(F::from).collect()
    } else {
        vec![F::zero(), F::one(), -F::one(), F::from(2u64).inverse().unwrap(), F::from(u64::MAX), -F::from(3u64).inverse().unwrap()]
    }
}
fn arr<F: Copy, const T: usize>(v: &[F]) -> [F; T] {
    v.try_into().unwrap()
}

// ---------------------------------------------------------------- plain
fn plain<F: PrimeField, const T: usize, const D: u64>(c: &Check, name: &str, p: &'static Poseidon2Params<F, T, D>, states: &[Vec<F>]) {
    if !c.selected(name) || c.failed() {
        return;
    }
    c.at(name);
    let h = Poseidon2::new(p);
    let d = Def::of(p);
    let rounds = p.rounds_f_beginning + p.rounds_f_end + p.rounds_p;
    c.expect(h.num_rounds() == rounds, name, || format!("num_rounds {}", h.num_rounds()));
    let sboxes = (p.rounds_f_beginning + p.rounds_f_end) * T + p.rounds_p;
    c.expect(h.num_sbox() == sboxes, name, || format!("num_sbox {} instead of {sboxes}", h.num_sbox()));
    let r = mc::catch(|| -> Result<(), String> {
        for w in states {
            let s: [F; T] = arr(w);
            let check = |what: &str, got: [F; T], want: Vec<F>| if got[..] == want[..] { Ok(()) } else { Err(format!("{what} of {w:?} gives {got:?} instead of {want:?}")) };
            let mut x = s;
            h.permutation_in_place(&mut x);
            let want = d.perm(w);
            check("permutation_in_place", x, want.clone())?;
            check("permutation", h.permutation(&s), want)?;
            let mut x = s;
            Poseidon2::<F, T, D>::matmul_external(&mut x);
            check("matmul_external", x, times(&d.ext, w))?;
            let mut x = s;
            h.matmul_internal(&mut x);
            check("matmul_internal", x, times(&d.int, w))?;
            for (r, rc) in d.first.iter().chain(&d.last).enumerate() {
                let mut x = s;
                h.add_rc_external(&mut x, r);
                check("add_rc_external", x, w.iter().zip(rc).map(|(a, b)| *a + b).collect())?;
                let mut x = s;
                h.external_round(&mut x, r);
                check("external_round", x, d.outer_round(w, rc))?;
            }
            for (r, rc) in d.inner.iter().enumerate() {
                let mut x = s;
                h.add_rc_internal(&mut x, r);
                let mut want = w.clone();
                want[0] += rc;
                check("add_rc_internal", x, want)?;
                let mut x = s;
                h.internal_round(&mut x, r);
                check("internal_round", x, d.inner_round(w, *rc))?;
            }
        }
        Ok(())
    });
    if let Some(e) = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(e) => Some(format!("panic: {e}")),
    } {
        c.violation(name, &e, json!({"rounds": [p.rounds_f_beginning, p.rounds_p, p.rounds_f_end]}));
    }
    c.count(states.len() as u64, (states.len() * (2 * rounds + 4)) as u64);
}

/// The generator of the published parameter script: its bits fix all constants.
struct Grain(std::collections::VecDeque<bool>);
impl Grain {
    fn new(bits: u64, t: u64, rf: u64, rp: u64) -> Self {
        let mut s = std::collections::VecDeque::new();
        for (v, w) in [(1, 2), (0, 4), (bits, 12), (t, 12), (rf, 10), (rp, 10)] {
            s.extend((0..w).rev().map(|i| v >> i & 1 == 1));
        }
        s.extend([true; 30]);
        let mut g = Grain(s);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let s = &mut self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        s.pop_front();
        s.push_back(b);
        b
    }
    fn bit(&mut self) -> bool {
        while !self.step() {
            self.step();
        }
        self.step()
    }
    fn number(&mut self, bits: usize) -> BigUint {
        (0..bits).fold(BigUint::ZERO, |a, _| (a << 1u32) + self.bit() as u32)
    }
    fn element<F: PrimeField>(&mut self) -> F {
        loop {
            let v = self.number(F::MODULUS_BIT_SIZE as usize);
            if v < F::MODULUS.into() {
                return v.into();
            }
        }
    }
}

/// The constants of the deployed parameters are those that the published script generates.
fn constants<const T: usize>(c: &Check, p: &'static Poseidon2Params<ark_bn254::Fr, T, 5>, rp: usize, candidate: Option<usize>) {
    type F = ark_bn254::Fr;
    let name = &format!("bn254-t{T}-constants");
    if !c.selected(name) {
        return;
    }
    c.at(name);
    c.expect((p.rounds_f_beginning, p.rounds_f_end, p.rounds_p) == (4, 4, rp), name, || "round numbers".into());
    let mut g = Grain::new(254, T as u64, 8, rp as u64);
    let draw = |g: &mut Grain, k: usize| -> Vec<F> { (0..k).map(|_| g.element()).collect() };
    let mut want = draw(&mut g, 4 * T);
    let inner = draw(&mut g, rp);
    want.extend(draw(&mut g, 4 * T));
    let got: Vec<F> = p.round_constants_external.iter().flatten().copied().collect();
    c.expect(got.len() == want.len(), name, || format!("{} external constants", got.len()));
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        c.expect(a == b, name, || format!("external constant {} of round {}: {a} instead of {b}", i % T, i / T));
    }
    c.expect(p.round_constants_internal.len() == rp, name, || "number of internal constants".into());
    for (i, (a, b)) in p.round_constants_internal.iter().zip(&inner).enumerate() {
        c.expect(a == b, name, || format!("internal constant {i}: {a} instead of {b}"));
    }
    let diag: Vec<F> = match candidate {
        None if T == 2 => vec![F::one(), F::from(2u64)],
        None => vec![F::one(), F::one(), F::from(2u64)],
        Some(k) => {
            // The script rejects candidates until the matrix is secure.
            let d0: Vec<F> = (0..T * (k + 1)).map(|_| F::from(g.number(254)) - F::one()).collect();
            d0[T * k..].to_vec()
        }
    };
    c.expect(p.mat_internal_diag_m_1[..] == diag[..], name, || format!("diagonal {:?}", p.mat_internal_diag_m_1));
    let h = Poseidon2::<F, T, 5>::default();
    let d = Def::of(p);
    for w in some_words(&all::<F>(), T, 300) {
        c.expect(h.permutation(&arr(&w))[..] == d.perm(&w)[..], name, || format!("default parameters: permutation of {w:?}"));
    }
    c.count(want.len() as u64 + inner.len() as u64, 300);
}

// ---------------------------------------------------------------- shared
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// Three multiplications per S-box.
    Direct,
    DirectInPlace,
    /// One set of precomputed values per permutation.
    Precomp,
    /// One set of precomputed values for all, used one permutation after the other.
    Sequence,
    Packed,
    PackedInPlace,
    /// First permutation alone, the others packed.
    Mixed,
    /// Put together from its rounds.
    Rounds,
}
const FORMS: [Form; 8] = [Form::Direct, Form::DirectInPlace, Form::Precomp, Form::Sequence, Form::Packed, Form::PackedInPlace, Form::Mixed, Form::Rounds];

fn drawn(i: usize) -> u64 {
    simrand::ctl::ctl().drawn.get(&i).copied().unwrap_or(0)
}

fn shared_run<F: PrimeField, const T: usize>(form: Form, p: &'static Poseidon2Params<F, T, 5>, sp: Space, k: usize, net: &SimNet, mine: &[Sh<F>]) -> eyre::Result<Vec<F>> {
    let h = Poseidon2::new(p);
    let pre = !matches!(form, Form::Direct | Form::DirectInPlace);
    let pairs = h.rand_required(k, pre);
    let mut st = state::<F>(net, Space { pairs, ..sp })?;
    let before = drawn(net.id);
    let mut out: Vec<Sh<F>> = Vec::new();
    let fresh = |n: usize, st: &mut ShamirState<F>| h.precompute_shamir(n, net, st);
    match form {
        Form::Direct => {
            for s in mine.chunks(T) {
                out.extend(h.shamir_permutation(&arr(s), net, &mut st)?);
            }
        }
        Form::DirectInPlace => {
            for s in mine.chunks(T) {
                let mut s: [Sh<F>; T] = arr(s);
                h.shamir_permutation_in_place(&mut s, net, &mut st)?;
                out.extend(s);
            }
        }
        Form::Precomp => {
            for s in mine.chunks(T) {
                let mut pc = fresh(1, &mut st)?;
                out.extend(h.shamir_permutation_with_precomputation(&arr(s), &mut pc, net, &mut st)?);
                eyre::ensure!(pc.consumed(), "precomputed values are left over");
            }
        }
        Form::Sequence => {
            let mut pc = fresh(k, &mut st)?;
            for s in mine.chunks(T) {
                eyre::ensure!(!pc.consumed(), "too few precomputed values");
                let mut s: [Sh<F>; T] = arr(s);
                h.shamir_permutation_in_place_with_precomputation(&mut s, &mut pc, net, &mut st)?;
                out.extend(s);
            }
            eyre::ensure!(pc.consumed(), "precomputed values are left over");
        }
        Form::Packed => {
            let mut pc = fresh(k, &mut st)?;
            out = h.shamir_permutation_with_precomputation_packed(mine, &mut pc, net, &mut st)?;
            eyre::ensure!(pc.consumed() && pc.get_offset() == h.num_sbox() * k, "precomputed values are left over");
        }
        Form::PackedInPlace => {
            let mut pc = fresh(k, &mut st)?;
            out = mine.to_vec();
            h.shamir_permutation_in_place_with_precomputation_packed(&mut out, &mut pc, net, &mut st)?;
            eyre::ensure!(pc.consumed(), "precomputed values are left over");
        }
        Form::Mixed => {
            let mut pc = fresh(k, &mut st)?;
            out.extend(h.shamir_permutation_with_precomputation(&arr(&mine[..T]), &mut pc, net, &mut st)?);
            out.extend(h.shamir_permutation_with_precomputation_packed(&mine[T..], &mut pc, net, &mut st)?);
            eyre::ensure!(pc.consumed(), "precomputed values are left over");
        }
        Form::Rounds => {
            let mut pc = fresh(k, &mut st)?;
            for s in mine.chunks(T) {
                let mut s: [Sh<F>; T] = arr(s);
                Poseidon2::<F, T, 5>::matmul_external_shamir(&mut s);
                for r in 0..p.rounds_f_beginning {
                    h.shamir_external_round_precomp(&mut s, r, &mut pc, net, &mut st)?;
                }
                for r in 0..p.rounds_p {
                    h.shamir_internal_round_precomp(&mut s, r, &mut pc, net, &mut st)?;
                }
                for r in 0..p.rounds_f_end {
                    h.shamir_external_round_precomp(&mut s, p.rounds_f_beginning + r, &mut pc, net, &mut st)?;
                }
                out.extend(s);
            }
        }
    }
    eyre::ensure!(drawn(net.id) == before, "more randomness was needed than rand_required says");
    Ok(out.into_iter().map(|x| x.a).collect())
}

#[allow(clippy::too_many_arguments)]
fn shared<F: PrimeField, const T: usize>(c: &Check, tag: &str, p: &'static Poseidon2Params<F, T, 5>, n: usize, t: usize, k: usize, polys: u32, tapes: u32, budget: u32, dev: u32) {
    for form in FORMS {
        let name = format!("shamir-{tag}-n{n}-t{t}-{k}x-{form:?}{}", if dev > 0 { "-schedules" } else { "" });
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let full = (any_count::<F>() as f64).powi((T * k) as i32);
        let two = (T as u64 * k as u64 * any_count::<F>()).pow(2);
        let free = if full <= q(700.0, 20000.0) { T * k } else if two <= q(1500, 20000) { 2 } else { 1 };
        let mut e = explorer(dev, 60);
        e.bounds.max_executions = q(40_000, 2_000_000);
        let s = e.explore(move |out| {
            let base = mc::pick(tapes, "tape") + 1;
            let sp = Space { n, t, pairs: 0, budget, tapes, polys, cap: 0 };
            // Values: all free, or two of them at any place.
            let mut vals: Vec<F> = (0..T * k).map(|i| F::from(mix(&[1; 32], i as u64, base as u64))).collect();
            if free == T * k {
                vals.iter_mut().for_each(|v| *v = any());
            } else if dev == 0 {
                for _ in 0..free {
                    let i = mc::pick((T * k) as u32, "place");
                    vals[i as usize] = any();
                }
            }
            let shares: Vec<Vec<F>> = vals.iter().map(|v| any_sharing(*v, n, t, polys)).collect();
            script::<F>(base, budget);
            let res = run(n, move |i, net| {
                let mine: Vec<Sh<F>> = shares.iter().map(|s| Sh::new(s[i])).collect();
                shared_run(form, p, sp, k, &net, &mine)
            });
            let d = Def::of(p);
            let want: Vec<F> = vals.chunks(T).flat_map(|s| d.perm(s)).collect();
            out.set(same_secrets(res, t, &want, &vals));
        });
        c.explored(&name, &s);
    }
}

fn same_secrets<F: PrimeField>(res: Vec<Result<eyre::Result<Vec<F>>, String>>, t: usize, want: &[F], input: &[F]) -> Result<String, String> {
    let mut all = Vec::new();
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Err(e) => return Err(format!("party {i} panicked: {e}; input {input:?}")),
            Ok(Err(e)) => return Err(format!("party {i}: {e:#}; input {input:?}")),
            Ok(Ok(v)) => all.push(v),
        }
        if all[i].len() != want.len() {
            return Err(format!("party {i} has {} results instead of {}", all[i].len(), want.len()));
        }
    }
    for (j, w) in want.iter().enumerate() {
        let sh: Vec<F> = all.iter().map(|v| v[j]).collect();
        if secret_of(&sh, t) != Some(*w) {
            return Err(format!("result {j} is a sharing of {:?} instead of {w}; input {input:?}", secret_of(&sh, t)));
        }
    }
    if undelivered() != 0 {
        return Err(format!("{} messages were never received", undelivered()));
    }
    Ok("ok".into())
}

pub fn main() {
    let c = Check::new("G01");
    macro_rules! plain_rounds {
        ($f:ty, $t:literal, $d:literal, $max:expr) => {{
            for (b, e, i) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 2), (1, 2, 3)] {
                for salt in 0..q(3, 6) {
                    let p = params::<$f, $t, $d>(b, e, i, salt);
                    let w = some_words(&all::<$f>(), $t, q($max, 20 * $max));
                    plain(&c, &format!("p{}-t{}-d{}-rounds{b}.{i}.{e}-c{salt}", modulus::<$f>(), $t, $d), p, &w);
                }
            }
        }};
    }
    plain_rounds!(F251, 2, 3, 7_000);
    plain_rounds!(F7, 2, 5, 5000);
    plain_rounds!(F97, 2, 5, 10_000);
    plain_rounds!(F97, 2, 7, 10_000);
    plain_rounds!(F17, 2, 9, 5000);
    plain_rounds!(F17, 2, 1, 5000);
    plain_rounds!(F17, 2, 11, 5000);
    plain_rounds!(F13, 3, 5, 5000);
    plain_rounds!(F11, 3, 3, 5000);
    plain_rounds!(F11, 3, 7, 5000);
    plain_rounds!(F11, 3, 9, 5000);
    plain_rounds!(F7, 4, 5, 5000);
    plain_rounds!(F5, 4, 3, 5000);
    plain_rounds!(F5, 4, 7, 5000);
    plain_rounds!(F3, 8, 5, 7000);
    plain_rounds!(F3, 12, 5, 5000);
    plain_rounds!(F3, 16, 5, 5000);
    plain_rounds!(F5, 16, 5, 5000);
    plain_rounds!(F3, 20, 5, 5000);
    plain_rounds!(F3, 24, 5, 5000);
    macro_rules! deployed {
        ($t:literal, $p:expr, $rp:expr, $cand:expr) => {{
            let p: &'static Poseidon2Params<ark_bn254::Fr, $t, 5> = &$p;
            constants::<$t>(&c, p, $rp, $cand);
            plain(&c, concat!("bn254-t", $t), p, &some_words(&all::<ark_bn254::Fr>(), $t, q(1300, 8000)));
        }};
    }
    deployed!(2, POSEIDON2_BN254_T2_PARAMS, 56, None);
    deployed!(3, POSEIDON2_BN254_T3_PARAMS, 56, None);
    deployed!(4, POSEIDON2_BN254_T4_PARAMS, 56, Some(4));
    deployed!(16, POSEIDON2_BN254_T16_PARAMS, 57, Some(6));

    // All inputs, all sharings of some, several tapes.
    shared(&c, "p7-t2", params::<F7, 2, 5>(1, 1, 1, 1), 3, 1, 1, 3, 3, 0, 0);
    shared(&c, "p7-t2", params::<F7, 2, 5>(1, 1, 1, 2), 3, 1, 1, 0, 1, 0, 0);
    shared(&c, "p5-t2", params::<F5, 2, 5>(1, 1, 2, 2), 3, 1, 1, 1, 1, 1, 0);
    shared(&c, "p5-t2", params::<F5, 2, 5>(1, 2, 1, 2), 4, 1, 2, 1, 2, 0, 0);
    shared(&c, "p7-t3", params::<F7, 3, 5>(2, 1, 2, 1), 5, 2, 1, 2, 2, 0, 0);
    shared(&c, "p7-t3", params::<F7, 3, 5>(1, 1, 2, 1), 3, 1, 3, 1, 3, 0, 0);
    shared(&c, "p5-t4", params::<F5, 4, 5>(1, 1, 1, 1), 3, 1, 1, 2, 2, 0, 0);
    shared(&c, "p7-t4", params::<F7, 4, 5>(1, 1, 1, 1), 6, 2, 2, 1, 1, 0, 0);
    shared(&c, "p5-t8", params::<F5, 8, 5>(1, 1, 1, 1), 3, 1, 2, 1, 1, 0, 0);
    shared(&c, "p7-t2", params::<F7, 2, 5>(1, 0, 1, 1), 3, 0, 2, 1, 1, 0, 0);
    shared(&c, "p5-t16", params::<F5, 16, 5>(1, 1, 2, 1), 3, 1, 1, 1, 1, 0, 0);
    shared(&c, "p7-t2", params::<F7, 2, 5>(1, 0, 1, 1), 3, 1, 1, 1, 1, 0, 1);
    shared(&c, "bn254-t3-short", params::<ark_bn254::Fr, 3, 5>(1, 1, 2, 1), 3, 1, 2, 1, 1, 0, 0);
    c.assume("the deployed round constants are compared with those of the published generation script; for t = 4 and t = 16 the diagonal is its candidate number 4 and 6 (the earlier ones are rejected by that script)");
    c.finish()
}

// ---------------------------------------------------------------- Merkle trees
fn accepts<F: PrimeField>(d: &Def<F>, t: usize, mode: Mode, root: F, leaf: F, path: &[(Vec<F>, usize)]) -> bool {
    let arity = path.first().map_or(0, |w| w.0.len());
    let mut x = leaf;
    for (other, pos) in path {
        if other.len() != arity || *pos > arity {
            return false;
        }
        let mut ch = other.clone();
        ch.insert(*pos, x);
        x = node(d, t, mode, &ch);
    }
    x == root
}

fn tree<F: PrimeField, const T: usize, const A: usize>(c: &Check, tag: &str, p: &'static Poseidon2Params<F, T, 5>, mode: Mode, vals: &[F], depth: u32, max: u64, strict: bool) {
    let h = Poseidon2::new(p);
    let def = Def::of(p);
    let d = &def;
    let forge = Poseidon2::new(params::<F, 2, 5>(0, 0, 0, 0));
    for k in 0..=depth {
        let len = A.pow(k);
        let name = &format!("{tag}-t{T}-arity{A}-{mode:?}-{len}-leaves");
        if !c.selected(name) || c.failed() {
            continue;
        }
        c.at(name);
        let verify = |root: F, leaf: F, path: &[(Vec<F>, usize)]| -> Result<bool, String> {
            // The type of path elements has no name outside the crate: get some and change them.
            let (_, mut w) = forge.merkle_tree_compression_with_witness::<2>(vec![F::zero(); 1 << path.len().max(1)], 0);
            w.truncate(path.len());
            for (w, (o, p)) in w.iter_mut().zip(path) {
                w.other = o.clone();
                w.position = *p;
            }
            mc::catch(|| match mode {
                Sponge => h.verify_merkle_path_sponge(root, leaf, w),
                Compression => h.verify_merkle_path_compression(root, leaf, w),
            })
            .map_err(|e| format!("verification panics: {e}"))
        };
        let mut runs = 0;
        let mut check = |leaves: &[F]| -> Result<(), String> {
            let l = levels(d, T, mode, A, leaves);
            let root = *l.last().unwrap().last().unwrap();
            let v = leaves.to_vec();
            let got = mc::catch(|| match mode {
                Sponge => h.merkle_tree_sponge::<A>(v),
                Compression => h.merkle_tree_compression::<A>(v),
            })
            .map_err(|e| format!("building the tree panics: {e}"))?;
            if got != root {
                return Err(format!("root {got} instead of {root}"));
            }
            for i in 0..len {
                let v = leaves.to_vec();
                let (r, w) = mc::catch(|| match mode {
                    Sponge => h.merkle_tree_sponge_with_witness::<A>(v, i),
                    Compression => h.merkle_tree_compression_with_witness::<A>(v, i),
                })
                .map_err(|e| format!("building the tree with the path of leaf {i} panics: {e}"))?;
                if r != root {
                    return Err(format!("root {r} instead of {root} when asking for the path of leaf {i}"));
                }
                let path: Vec<(Vec<F>, usize)> = w.into_iter().map(|w| (w.other, w.position)).collect();
                // The path as it is defined.
                let mut j = i;
                let mut want = Vec::new();
                for level in &l[..l.len() - 1] {
                    let mut ch = level[j / A * A..j / A * A + A].to_vec();
                    ch.remove(j % A);
                    want.push((ch, j % A));
                    j /= A;
                }
                if path != want {
                    return Err(format!("path of leaf {i}: {path:?} instead of {want:?}"));
                }
                if !verify(root, leaves[i], &path)? {
                    return Err(format!("the path of leaf {i} does not verify"));
                }
                // Every single change.
                let mut bad: Vec<(String, F, F, Vec<(Vec<F>, usize)>)> = Vec::new();
                for x in vals {
                    if *x != root {
                        bad.push((format!("root:: {x}"), *x, leaves[i], path.clone()));
                    }
                    if *x != leaves[i] {
                        bad.push((format!("leaf:: {x}"), root, *x, path.clone()));
                    }
                    for (a, (o, _)) in path.iter().enumerate() {
                        for (b, y) in o.iter().enumerate() {
                            if x != y {
                                let mut p = path.clone();
                                p[a].0[b] = *x;
                                bad.push((format!("level {a} sibling:: {b} {x}"), root, leaves[i], p));
                            }
                        }
                    }
                }
                for a in 0..path.len() {
                    for pos in (0..=A + 1).chain([usize::MAX]) {
                        if pos != path[a].1 {
                            let mut p = path.clone();
                            p[a].1 = pos;
                            bad.push((format!("level {a} position {pos}"), root, leaves[i], p));
                        }
                    }
                    let mut p = path.clone();
                    p[a].0.pop();
                    bad.push((format!("level {a} with a sibling less"), root, leaves[i], p));
                    if T > A || a > 0 {
                        let mut p = path.clone();
                        p[a].0.push(F::zero());
                        bad.push((format!("level {a} with a sibling more"), root, leaves[i], p));
                    }
                    let mut p = path.clone();
                    p.remove(a);
                    bad.push((format!("level {a} left out"), root, leaves[i], p));
                    let mut p = path.clone();
                    p.insert(a, path[a].clone());
                    bad.push((format!("level {a} twice"), root, leaves[i], p));
                }
                for (what, r, leaf, p) in bad {
                    // A change that gives the same hash input changes nothing (equal siblings).
                    let want = accepts(d, T, mode, r, leaf, &p);
                    // Sponge mode needs a free element of the state.
                    if mode == Sponge && p.iter().any(|w| w.0.len() + 1 >= T) {
                        continue;
                    }
                    let got = verify(r, leaf, &p).map_err(|e| format!("path of leaf {i}, {what}: {e}"))?;
                    if got != want {
                        return Err(format!("path of leaf {i} with {what}: accepted {got}, by definition {want}"));
                    }
                    if strict && want && what.contains("::") {
                        return Err(format!("path of leaf {i} with {what} verifies"));
                    }
                    runs += 1;
                }
                runs += 2;
            }
            Ok(())
        };
        let words = some_words(vals, len, max);
        for w in &words {
            if let Err(e) = check(w) {
                c.violation(name, &e, json!({"leaves": format!("{w:?}")}));
                break;
            }
        }
        c.count(words.len() as u64, runs);
    }
}

fn shared_tree<F: PrimeField, const T: usize, const A: usize>(c: &Check, tag: &str, p: &'static Poseidon2Params<F, T, 5>, mode: Mode, n: usize, t: usize, depth: u32) {
    for k in 0..=depth {
        let len = A.pow(k);
        let name = format!("shamir-{tag}-t{T}-arity{A}-{mode:?}-{len}-leaves-n{n}-t{t}");
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let mut e = explorer(0, 60);
        e.bounds.max_executions = q(20_000, 500_000);
        let all = (any_count::<F>() as f64).powi(len as i32) <= 700.0;
        let s = e.explore(move |out| {
            let base = mc::pick(2, "tape") + 1;
            let sp = Space { n, t, pairs: 0, budget: 0, tapes: 2, polys: 1, cap: 0 };
            let mut leaves: Vec<F> = (0..len).map(|i| F::from(mix(&[1; 32], i as u64, base as u64))).collect();
            if all {
                leaves.iter_mut().for_each(|v| *v = any());
            } else {
                leaves[mc::pick(len as u32, "place") as usize] = any();
            }
            let shares: Vec<Vec<F>> = leaves.iter().map(|v| any_sharing(*v, n, t, 1)).collect();
            script::<F>(base, 0);
            let res = run(n, move |i, net| {
                let mine: Vec<Sh<F>> = shares.iter().map(|s| Sh::new(s[i])).collect();
                let h = Poseidon2::new(p);
                let mut st = state::<F>(&net, sp)?;
                let r = match mode {
                    Sponge => h.merkle_tree_sponge_shamir::<A, _>(mine, &net, &mut st)?,
                    Compression => h.merkle_tree_compression_shamir::<A, _>(mine, &net, &mut st)?,
                };
                let o = ar::open(r, &net, &mut st)?;
                Ok(vec![r.a, o])
            });
            let want = *levels(&Def::of(p), T, mode, A, &leaves).last().unwrap().last().unwrap();
            out.set(same_secrets(res, t, &[want, want], &leaves));
        });
        c.explored(&name, &s);
    }
}

pub fn main_g02() {
    let c = Check::new("G02");
    let mut jobs: Vec<Box<dyn Fn(&Check) + Send>> = Vec::new();
    macro_rules! trees {
        ($f:ty, $t:literal, $a:literal, $mode:ident, $depth:expr) => {{
            let p = params::<$f, $t, 5>(1, 1, 1, 2);
            jobs.push(Box::new(move |c: &Check| tree::<$f, $t, $a>(c, &format!("p{}", modulus::<$f>()), p, $mode, &all::<$f>(), q($depth, $depth + 1), q(130, 3000), false)));
        }};
    }
    trees!(F5, 3, 2, Sponge, 4);
    trees!(F5, 4, 2, Sponge, 3);
    trees!(F5, 4, 3, Sponge, 2);
    trees!(F5, 8, 2, Sponge, 2);
    trees!(F5, 8, 4, Sponge, 2);
    trees!(F5, 8, 7, Sponge, 1);
    trees!(F5, 2, 2, Compression, 4);
    trees!(F5, 3, 2, Compression, 3);
    trees!(F5, 3, 3, Compression, 2);
    trees!(F5, 4, 2, Compression, 3);
    trees!(F5, 4, 3, Compression, 2);
    trees!(F5, 4, 4, Compression, 2);
    trees!(F5, 8, 3, Compression, 2);
    trees!(F5, 8, 8, Compression, 1);
    trees!(F97, 2, 2, Compression, 1);
    trees!(F97, 3, 2, Sponge, 1);
    macro_rules! deployed {
        ($t:literal, $a:literal, $mode:ident, $p:expr, $depth:expr) => {{
            let v = [ark_bn254::Fr::zero(), ark_bn254::Fr::one(), -ark_bn254::Fr::one()];
            jobs.push(Box::new(move |c: &Check| tree::<ark_bn254::Fr, $t, $a>(c, "bn254", &$p, $mode, &v, $depth, 30, true)));
        }};
    }
    deployed!(2, 2, Compression, POSEIDON2_BN254_T2_PARAMS, 2);
    deployed!(3, 2, Sponge, POSEIDON2_BN254_T3_PARAMS, 2);
    deployed!(3, 3, Compression, POSEIDON2_BN254_T3_PARAMS, 1);
    deployed!(4, 2, Sponge, POSEIDON2_BN254_T4_PARAMS, 2);
    deployed!(4, 4, Compression, POSEIDON2_BN254_T4_PARAMS, 1);
    deployed!(16, 2, Sponge, POSEIDON2_BN254_T16_PARAMS, 1);
    parallel(&c, jobs, |c, j| j(c));
    macro_rules! shared_trees {
        ($f:ty, $t:literal, $a:literal, $mode:ident, $n:expr, $th:expr, $depth:expr) => {
            shared_tree::<$f, $t, $a>(&c, &format!("p{}", modulus::<$f>()), params::<$f, $t, 5>(1, 1, 1, 2), $mode, $n, $th, q($depth, $depth + 1))
        };
    }
    shared_trees!(F5, 3, 2, Sponge, 3, 1, 3);
    shared_trees!(F5, 4, 2, Sponge, 3, 1, 2);
    shared_trees!(F5, 4, 3, Sponge, 4, 1, 2);
    shared_trees!(F5, 2, 2, Compression, 3, 1, 3);
    shared_trees!(F7, 2, 2, Compression, 5, 2, 2);
    shared_trees!(F5, 3, 2, Compression, 3, 1, 2);
    shared_trees!(F5, 4, 2, Compression, 4, 1, 2);
    shared_trees!(F5, 4, 4, Compression, 3, 1, 2);
    shared_trees!(F5, 8, 4, Compression, 3, 1, 2);
    shared_trees!(F7, 3, 3, Compression, 3, 0, 1);
    c.finish()
}
