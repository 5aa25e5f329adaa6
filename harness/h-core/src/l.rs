//! L01: lookup tables over public values.
use crate::prelude::*;
use mpc_core::lut::{LookupTableProvider, PlainCurveLookupTableProvider, PlainLookupTableProvider};

/// The plain providers seen through one interface.
trait Table<T, I>: LookupTableProvider<T, SecretShare = T, IndexSecretShare = I, LutType = Vec<T>, State = ()>
where
    T: Default,
{
    fn get(&mut self, i: I, t: &Vec<T>) -> eyre::Result<T> {
        let net = SimNet { net: 0, id: 0, n: 1 };
        self.get_from_lut(i, t, &net, &net, &mut (), &mut ())
    }
    fn put(&mut self, i: I, v: T, t: &mut Vec<T>) -> eyre::Result<()> {
        let net = SimNet { net: 0, id: 0, n: 1 };
        self.write_to_lut(i, v, t, &net, &net, &mut (), &mut ())
    }
}
impl<T: Default, I, P> Table<T, I> for P where P: LookupTableProvider<T, SecretShare = T, IndexSecretShare = I, LutType = Vec<T>, State = ()> {}

/// All sequences of reads and writes of the given depth on all tables of the given length.
fn histories<T, I, P>(c: &Check, tag: &str, vals: &[T], idx: impl Fn(u64) -> I, outside: &[I], len: usize, depth: usize)
where
    T: Copy + Default + PartialEq + std::fmt::Debug,
    I: Copy + std::fmt::Debug,
    P: Table<T, I>,
{
    let name = format!("{tag}-{len}-entries");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let m = vals.len() as u64;
    let ops = len as u64 * (1 + m);
    let fail = |what: String, ops: &[(usize, Option<T>)], init: &[T]| {
        if !c.failed() {
            c.violation(&name, &what, json!({"initial": format!("{init:?}"), "operations (index, written value)": format!("{ops:?}")}));
        }
    };
    for w in words(m, len) {
        let init: Vec<T> = w.iter().map(|x| vals[*x as usize]).collect();
        for public in [false, true] {
            for h in words(ops.max(1), if ops == 0 { 0 } else { depth }) {
                let steps: Vec<(usize, Option<T>)> = h.iter().map(|o| ((o % len as u64) as usize, (o / len as u64).checked_sub(1).map(|v| vals[v as usize]))).collect();
                let r = mc::catch(|| -> Result<(), String> {
                    let mut p = P::default();
                    let mut t = if public { p.init_public(init.clone()) } else { p.init_private(init.clone()) };
                    let mut model = init.clone();
                    for (k, (i, v)) in steps.iter().enumerate() {
                        match v {
                            None => {
                                let r = p.get(idx(*i as u64), &t).map_err(|e| format!("read {k}: {e}"))?;
                                if r != model[*i] {
                                    return Err(format!("step {k}: reading {i} gives {r:?}, expected {:?}", model[*i]));
                                }
                            }
                            Some(v) => {
                                p.put(idx(*i as u64), *v, &mut t).map_err(|e| format!("write {k}: {e}"))?;
                                model[*i] = *v;
                            }
                        }
                        let seen = P::get_public_lut(&t).map_err(|e| format!("{e}"))?;
                        if *seen != model || P::get_lut_len(&t) != len {
                            return Err(format!("step {k}: the table is {seen:?}, expected {model:?}"));
                        }
                    }
                    // Reading everything back.
                    for (i, want) in model.iter().enumerate() {
                        let r = p.get(idx(i as u64), &t).map_err(|e| format!("final read: {e}"))?;
                        if r != *want {
                            return Err(format!("finally {i} holds {r:?}, expected {want:?}"));
                        }
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => fail(e, &steps, &init),
                    Err(e) => fail(format!("panic: {e}"), &steps, &init),
                }
                c.count(1, depth as u64);
            }
            // Outside the table: never a value, never a change.
            for i in outside.iter().copied().chain((len as u64..len as u64 + 3).map(&idx)) {
                let mut p = P::default();
                let t = if public { p.init_public(init.clone()) } else { p.init_private(init.clone()) };
                if let Ok(Ok(v)) = mc::catch(|| p.get(i, &t)) {
                    fail(format!("reading index {i:?} gives {v:?}"), &[], &init);
                }
                for v in vals {
                    let mut t = t.clone();
                    let _ = mc::catch(|| p.put(i, *v, &mut t));
                    if t != init {
                        fail(format!("writing {v:?} to index {i:?} changes the table to {t:?}"), &[], &init);
                    }
                }
                c.count(1, 1 + m);
            }
        }
        if c.failed() {
            return;
        }
    }
}

/// Indices with a small low part and something above it.
fn high<F: PrimeField>() -> Vec<F> {
    let mut v = vec![-F::one(), -F::from(2u64)];
    let top = F::MODULUS_BIT_SIZE as u64 - 1;
    for k in [32u64, 63, 64, 65, 127, 128, 191, 192, 193, 250] {
        for low in 0..3u64 {
            if k < top {
                v.push(F::from(2u64).pow([k]) + F::from(low));
            }
        }
    }
    v.push(F::from(2u64).pow([top]));
    v.push(F::from(2u64).pow([64]) * F::from(3u64) + F::from(1u64));
    v
}

pub fn main() {
    let c = Check::new("L01");
    use ark_bn254::Fr as B;
    use ark_bls12_381::Fr as L;
    for (len, depth) in q(vec![(0, 1), (1, 4), (2, 3), (3, 2)], vec![(0, 1), (1, 6), (2, 4), (3, 3), (4, 2)]) {
        histories::<F7, F7, PlainLookupTableProvider<F7>>(&c, "p7", &elems::<F7>(), F7::from, &[], len.min(2), depth.min(2));
        let some: Vec<F251> = [0u64, 1, 250].map(F251::from).to_vec();
        histories::<F251, F251, PlainLookupTableProvider<F251>>(&c, "p251", &some, F251::from, &[-F251::one()], len, depth);
        let some: Vec<B> = vec![B::zero(), -B::one()];
        histories::<B, B, PlainLookupTableProvider<B>>(&c, "bn254", &some, B::from, &high(), len, depth);
        let some: Vec<L> = vec![L::zero(), -L::one()];
        histories::<L, L, PlainLookupTableProvider<L>>(&c, "bls12_381", &some, L::from, &high(), len, depth);
        let some: Vec<G13> = [0u64, 1, 12].map(G13::nth).to_vec();
        histories::<G13, F13, PlainCurveLookupTableProvider<G13>>(&c, "curve-13", &some, F13::from, &[-F13::one()], len, depth);
        type G = ark_bn254::G1Projective;
        let some: Vec<G> = vec![G::zero(), G::generator()];
        histories::<G, B, PlainCurveLookupTableProvider<G>>(&c, "curve-bn254", &some, B::from, &high(), len, depth);
    }
    // A longer table: every index, one write then all reads.
    let name = "long-table";
    if c.selected(name) && !c.failed() {
        c.at(name);
        for len in q(vec![16usize, 65, 257], vec![16, 65, 257, 1025, 4097]) {
            let init: Vec<B> = (0..len as u64).map(|i| B::from(i * i + 7)).collect();
            for i in 0..len {
                let r = mc::catch(|| {
                    let mut p = PlainLookupTableProvider::<B>::default();
                    let mut t = p.init_public(init.clone());
                    let mut want = init.clone();
                    want[i] = B::from(5u64);
                    let w = p.put(B::from(i as u64), B::from(5u64), &mut t).is_ok();
                    let all = (i.saturating_sub(2)..len.min(i + 3)).all(|k| p.get(B::from(k as u64), &t).ok() == Some(want[k]));
                    w && all && t == want
                });
                c.expect(r == Ok(true), name, || format!("writing entry {i} of {len}: {r:?}"));
                c.count(1, 5);
            }
        }
    }
    c.finish()
}
