//! R09: Poseidon2 and Merkle trees on replicated shares equal their definition.
use crate::ops::*;
use crate::pdef::*;
use mpc_core::gadgets::poseidon2::*;
use mpc_core::protocols::rep3;
use std::sync::Arc;

fn arr<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    v.try_into().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// Three multiplications per S-box.
    Direct,
    InPlace,
    /// One set of precomputed values per permutation.
    Precomp,
    /// One set for all, used one permutation after the other.
    Sequence,
    Packed,
    PackedInPlace,
    /// First permutation alone, the others packed, from one set.
    Mixed,
    /// Put together from its rounds.
    Rounds,
    Additive,
    AdditiveSequence,
}
const FORMS: [Form; 10] =
    [Form::Direct, Form::InPlace, Form::Precomp, Form::Sequence, Form::Packed, Form::PackedInPlace, Form::Mixed, Form::Rounds, Form::Additive, Form::AdditiveSequence];

fn permute<F: PrimeField, const T: usize>(form: Form, p: &'static Poseidon2Params<F, T, 5>, n: &SimNet, s: &mut Rep3State, x: &[FS<F>]) -> eyre::Result<Vec<FS<F>>> {
    let h = Poseidon2::new(p);
    let k = x.len() / T;
    let mut out = vec![];
    match form {
        Form::Direct => {
            for c in x.chunks(T) {
                out.extend(h.rep3_permutation(&arr(c), n, s)?);
            }
        }
        Form::InPlace => {
            for c in x.chunks(T) {
                let mut c: [FS<F>; T] = arr(c);
                h.rep3_permutation_in_place(&mut c, n, s)?;
                out.extend(c);
            }
        }
        Form::Precomp => {
            for c in x.chunks(T) {
                let mut pre = h.precompute_rep3(1, n, s)?;
                out.extend(h.rep3_permutation_with_precomputation(&arr(c), &mut pre, n)?);
            }
        }
        Form::Sequence => {
            let mut pre = h.precompute_rep3(k, n, s)?;
            for c in x.chunks(T) {
                out.extend(h.rep3_permutation_with_precomputation(&arr(c), &mut pre, n)?);
            }
        }
        Form::Packed => {
            let mut pre = h.precompute_rep3(k, n, s)?;
            out = h.rep3_permutation_with_precomputation_packed(x, &mut pre, n)?;
        }
        Form::PackedInPlace => {
            let mut pre = h.precompute_rep3(k, n, s)?;
            out = x.to_vec();
            h.rep3_permutation_in_place_with_precomputation_packed(&mut out, &mut pre, n)?;
        }
        Form::Mixed => {
            let mut pre = h.precompute_rep3(k, n, s)?;
            let mut first: [FS<F>; T] = arr(&x[..T]);
            h.rep3_permutation_in_place_with_precomputation(&mut first, &mut pre, n)?;
            out.extend(first);
            out.extend(h.rep3_permutation_with_precomputation_packed(&x[T..], &mut pre, n)?);
        }
        Form::Rounds => {
            for c in x.chunks(T) {
                let mut c: [FS<F>; T] = arr(c);
                let mut pre = h.precompute_rep3(1, n, s)?;
                Poseidon2::<F, T, 5>::matmul_external_rep3(&mut c);
                for r in 0..p.rounds_f_beginning {
                    h.rep3_external_round_precomp(&mut c, r, &mut pre, n)?;
                }
                for r in 0..p.rounds_p {
                    h.rep3_internal_round_precomp(&mut c, r, &mut pre, n)?;
                }
                for r in p.rounds_f_beginning..p.rounds_f_beginning + p.rounds_f_end {
                    h.rep3_external_round_precomp(&mut c, r, &mut pre, n)?;
                }
                out.extend(c);
            }
        }
        Form::Additive => {
            for c in x.chunks(T) {
                let mut pre = h.precompute_rep3_additive(1, n, s)?;
                out.extend(h.rep3_permutation_additive_with_precomputation(&arr(c), &mut pre, n, s)?);
            }
        }
        Form::AdditiveSequence => {
            let mut pre = h.precompute_rep3_additive(k, n, s)?;
            for c in x.chunks(T) {
                let mut c: [FS<F>; T] = arr(c);
                h.rep3_permutation_additive_in_place_with_precomputation(&mut c, &mut pre, n, s)?;
                out.extend(c);
            }
        }
    }
    Ok(out)
}

/// Words of length `len` as inputs: the first ones take all of `vals`, the others one value each.
fn inputs<F: PrimeField>(len: usize, wide: usize, vals: &[u128]) -> Vec<In> {
    (0..len).map(|i| if i < wide { asome::<F>(vals) } else { asome::<F>(&[(i as u128 * 3 + 1) % pm::<F>()]) }).collect()
}

fn forms<F: FieldUint, const T: usize>(p: &'static Poseidon2Params<F, T, 5>, tag: &str, k: usize, wide: usize, vals: &[u128]) -> Vec<Op> {
    let d = Arc::new(Def::of(p));
    let mut v = vec![];
    for form in FORMS {
        let d = d.clone();
        v.push(op(&format!("{tag}-t{T}-{k}-{form:?}"), inputs::<F>(k * T, wide, vals), move |n, s, x| Ok(permute(form, p, n, s, &x.fs::<F>())?.into_iter().map(vf).collect()), move |x| {
            is(x.chunks(T).flat_map(|c| d.perm(&c.iter().map(|v| fld(*v)).collect::<Vec<F>>())).map(num).collect())
        }));
    }
    if k == 1 {
        let d2 = d.clone();
        v.push(op(&format!("{tag}-t{T}-layers"), inputs::<F>(T, wide, vals), move |_, s, x| {
            let h = Poseidon2::new(p);
            let c: [FS<F>; T] = arr(&x.fs::<F>());
            let (mut e, mut i, mut r) = (c, c, c);
            Poseidon2::<F, T, 5>::matmul_external_rep3(&mut e);
            h.matmul_internal_rep3(&mut i);
            h.add_rc_external_rep3(&mut r, 0, s.id);
            Ok(e.into_iter().chain(i).chain(r).map(vf).collect())
        }, move |x| {
            let w: Vec<F> = x.iter().map(|v| fld(*v)).collect();
            let r = w.iter().zip(&d2.first[0]).map(|(a, b)| *a + b);
            is(times(&d2.ext, &w).into_iter().chain(times(&d2.int, &w)).chain(r).map(num).collect())
        }));
    }
    v
}

fn trees<F: FieldUint, const T: usize, const A: usize>(p: &'static Poseidon2Params<F, T, 5>, mode: Mode, depth: u32, vals: &[u128]) -> Vec<Op> {
    let d = Arc::new(Def::of(p));
    (0..=depth)
        .map(|k| {
            let len = A.pow(k);
            let d = d.clone();
            op(&format!("tree-t{T}-arity{A}-{mode:?}-{len}"), inputs::<F>(len, 4, vals), move |n, s, x| {
                let h = Poseidon2::new(p);
                let l = x.fs::<F>();
                Ok(vec![vf(match mode {
                    Mode::Sponge => h.merkle_tree_sponge_rep3::<A, _>(l, n, s)?,
                    Mode::Compression => h.merkle_tree_compression_rep3::<A, _>(l, n, s)?,
                })])
            }, move |x| is(vec![num(levels(&d, T, mode, A, &x.iter().map(|v| fld(*v)).collect::<Vec<F>>()).last().unwrap()[0])]))
        })
        .collect()
}

/// The deployed parameters, a few inputs.
fn deployed<const T: usize>(c: &Check)
where
    Poseidon2<ark_bn254::Fr, T, 5>: Default,
{
    type F = ark_bn254::Fr;
    let name = format!("bn254-t{T}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let few = vec![vec![F::zero(); T], vec![-F::one(); T], (0..T).map(|i| F::from(i as u64)).collect::<Vec<F>>(), (0..T).map(|i| F::from(mix(i as u64, 1, 2)).inverse().unwrap()).collect()];
    let want: Vec<Vec<F>> = few.iter().map(|w| Poseidon2::<F, T, 5>::default().permutation(&arr(w)).to_vec()).collect();
    let mut e = explorer(0, 60);
    e.bounds.threads = 1;
    e.bounds.max_executions = u64::MAX;
    let s = e.explore(move |out| {
        let form = FORMS[mc::pick(FORMS.len() as u32, "form") as usize];
        let salt = mc::pick(3, "draws") as u64;
        script(salt + 2);
        let shares: Rc<Vec<[Vec<FS<F>>; 3]>> = Rc::new(few.iter().map(|w| rep3::share_field_elements::<F, _>(w, &mut crate::r03::rand_chacha_rng(salt))).collect());
        let res = run(3, move |i, net| -> eyre::Result<Vec<FS<F>>> {
            let mut st = Rep3State::new(&net, A2BType::Direct)?;
            let h = Poseidon2::<F, T, 5>::default();
            permute::<F, T>(form, h.params, &net, &mut st, &shares.iter().flat_map(|s| s[i].clone()).collect::<Vec<_>>())
        });
        let judge = || -> Result<String, String> {
            let mut g = vec![];
            for (i, r) in res.into_iter().enumerate() {
                g.push(r.map_err(|e| format!("party {i} panicked: {e}"))?.map_err(|e| format!("party {i}: {e}"))?);
            }
            for (k, w) in want.concat().iter().enumerate() {
                for i in 0..3 {
                    if g[i][k].b != g[(i + 2) % 3][k].a {
                        return Err(format!("{form:?}: result {k} is no sharing"));
                    }
                }
                if rep3::combine_field_element(g[0][k], g[1][k], g[2][k]) != *w {
                    return Err(format!("{form:?}: wrong result {k}"));
                }
            }
            Ok("equal".into())
        };
        out.set(judge());
    });
    c.explored(&name, &s);
}

pub fn main() {
    let c = Check::new("R09");
    let all = |p: u128| (0..p).collect::<Vec<u128>>();
    let mut o = vec![];
    o.extend(forms::<F7, 2>(params(1, 1, 1, 1), "p7", 1, 2, &all(7)));
    o.extend(forms::<F7, 2>(params(2, 0, 2, 2), "p7-uneven", 1, 2, &all(7)));
    o.extend(forms::<F5, 2>(params(1, 2, 0, 3), "p5", 2, 4, &all(5)));
    o.extend(forms::<F7, 3>(params(1, 1, 2, 1), "p7", 1, 3, &all(7)));
    o.extend(forms::<F13, 3>(params(2, 1, 1, 1), "p13", 2, 3, &[0, 1, 6, 12]));
    o.extend(forms::<F5, 4>(params(1, 1, 1, 1), "p5", 1, 4, &all(5)));
    o.extend(forms::<F7, 4>(params(1, 1, 1, 2), "p7", 3, 3, &[0, 1, 4]));
    o.extend(forms::<F5, 8>(params(1, 1, 1, 1), "p5", 1, 8, &[0, 3]));
    o.extend(forms::<F13, 12>(params(1, 1, 1, 1), "p13", 1, 5, &[0, 7]));
    o.extend(forms::<F7, 16>(params(1, 1, 1, 1), "p7", 1, 5, &[0, 2]));
    o.extend(forms::<F11, 20>(params(1, 1, 1, 1), "p11", 1, 4, &[0, 2]));
    o.extend(forms::<F5, 24>(params(1, 1, 1, 1), "p5", 1, 4, &[0, 2]));
    let (s, m) = (Mode::Sponge, Mode::Compression);
    o.extend(trees::<F5, 3, 2>(params(1, 1, 1, 1), s, q(3, 4), &[0, 1, 3]));
    o.extend(trees::<F5, 2, 2>(params(1, 1, 1, 1), m, q(3, 4), &[0, 1, 3]));
    o.extend(trees::<F5, 3, 2>(params(1, 1, 1, 1), m, 3, &[0, 1]));
    o.extend(trees::<F7, 3, 3>(params(1, 1, 1, 1), m, 2, &[0, 1]));
    o.extend(trees::<F7, 4, 2>(params(1, 1, 1, 1), s, 3, &[0, 1]));
    o.extend(trees::<F7, 4, 2>(params(1, 1, 1, 1), m, 3, &[0, 1]));
    o.extend(trees::<F7, 4, 3>(params(1, 1, 1, 1), s, 2, &[0, 1, 5]));
    o.extend(trees::<F7, 4, 4>(params(1, 1, 1, 1), m, 2, &[0, 1]));
    o.extend(trees::<F7, 8, 4>(params(1, 1, 1, 1), s, 2, &[0, 1]));
    parallel(&c, o, |c, o| {
        crate::r04::inline_rayon();
        exhaust(c, &o, "", 0..q(4, 30), 60, 1)
    });
    deployed::<2>(&c);
    deployed::<3>(&c);
    deployed::<4>(&c);
    deployed::<16>(&c);
    c.assume("bn254: the plain permutation, which G01 compares with the definition");
    c.finish()
}
