//! R07: oblivious sorting, one-hot vectors and lookup tables.
use crate::ops::*;
use crate::r05::Job;
use mpc_core::lut::LookupTableProvider;
use mpc_core::protocols::rep3::gadgets::sort::batcher_odd_even_merge_sort_yao;
use mpc_core::protocols::rep3_ring::gadgets::{lut_curve as gc, lut_field as gf, ohv, sort};
use mpc_core::protocols::rep3_ring::{lut_curve as lc, lut_field as lf};
use rand::distributions::{Distribution, Standard};
use std::sync::Arc;

fn f<F: PrimeField>(v: Vec<FS<F>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vf).collect())
}
fn second(n: &SimNet) -> SimNet {
    SimNet { net: 1, ..*n }
}
/// A few values that differ in the low, middle and high bits.
fn few<F: PrimeField>() -> Vec<u128> {
    let p = pm::<F>();
    let mut v = vec![0, 1, 2, p / 2, p / 2 + 1, p - 1];
    v.retain(|x| *x < p);
    v.sort();
    v.dedup();
    v
}

fn sorts<F: FieldUint>() -> Vec<Op> {
    let nb = bits::<F>() as usize;
    let mut v = vec![];
    let vals = |n: usize| if n <= 2 { (0..pm::<F>().min(17)).collect() } else if n == 3 { few::<F>() } else { vec![0, 1, pm::<F>() - 1] };
    let sizes: Vec<usize> = [1, 2, nb - 1, nb].into_iter().filter(|b| *b > 0 && *b <= nb).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    for n in 0..=q(5, 7usize) {
        for bs in sizes.clone() {
            if n > 3 && bs != nb && bs != 1 {
                continue;
            }
            let m = mask(bs as u32);
            let ins = vec![asome::<F>(&vals(n)); n];
            if n > 0 {
                v.push(op(&format!("batcher-{n}-{bs}"), ins.clone(), move |net, s, x| f(batcher_odd_even_merge_sort_yao(&x.fs::<F>(), net, s, bs)?), move |x| {
                    let mut w: Vec<u128> = x.iter().map(|v| v & m).collect();
                    w.sort();
                    is(w)
                }));
            }
            if n == 0 || n > 4 {
                continue;
            }
            for private in 0..=n {
                if n == 4 && private % 2 == 1 {
                    continue;
                }
                let mut ins = ins.clone();
                for i in &mut ins[private..] {
                    *i = public(i.vals.clone());
                }
                v.push(op(&format!("radix-{private}-{}-{bs}", n - private), ins, move |net, s, x| {
                    let p = (private..x.s.len()).map(|i| x.pf::<F>(i)).collect();
                    let mut t = s.fork(0)?;
                    f(sort::radix_sort_fields(x.fs::<F>(), p, bs, net, &second(net), s, &mut t)?)
                }, move |x| {
                    let mut w = x.to_vec();
                    w.sort_by_key(|v| v & m);
                    is(w)
                }).conv());
            }
            if n == 3 || n == 2 {
                for order in 0..1u32 << n {
                    let shared = order.count_ones() as usize;
                    // The keys in order; then two vectors carried along.
                    let ord: Vec<bool> = (0..n).map(|i| order >> i & 1 == 1).collect();
                    let mut ins: Vec<In> = ord.iter().map(|s| if *s { asome::<F>(&vals(3)) } else { public(vals(3)) }).collect();
                    for i in 0..n {
                        ins.push(asome::<F>(&[i as u128 % pm::<F>()]));
                    }
                    let _ = shared;
                    v.push(op(&format!("radix-by-{n}-{order}-{bs}"), ins, move |net, s, x| {
                        let keys: Vec<FS<F>> = (0..n).filter(|i| ord[*i]).map(|i| x.f(i)).collect();
                        let pubs: Vec<F> = (0..n).filter(|i| !ord[*i]).map(|i| x.pf(i)).collect();
                        let a: Vec<FS<F>> = (n..2 * n).map(|i| x.f(i)).collect();
                        let b: Vec<FS<F>> = a.iter().rev().copied().collect();
                        let mut t = s.fork(0)?;
                        f(sort::radix_sort_fields_vec_by(&keys, &pubs, &ord, vec![&a, &b], bs, net, &second(net), s, &mut t)?.concat())
                    }, move |x| {
                        let n = x.len() / 2;
                        let mut perm: Vec<usize> = (0..n).collect();
                        perm.sort_by_key(|i| x[*i] & m);
                        let mut w: Vec<u128> = perm.iter().map(|i| x[n + i]).collect();
                        w.extend(perm.iter().map(|i| x[2 * n - 1 - i]));
                        is(w)
                    }));
                }
            }
        }
    }
    v.push(op("batcher-too-wide", vec![asome::<F>(&[1])], move |net, s, x| f(batcher_odd_even_merge_sort_yao(&x.fs::<F>(), net, s, nb + 1)?), |_| Want::Refuse));
    v
}

fn ohvs<T: Rt>(max: usize) -> Vec<Op>
where
    Standard: Distribution<T>,
{
    (1..=max).flat_map(|k| {
        let name = format!("{k}-{}", T::K);
        vec![
            op(&format!("ohv-{name}"), vec![In { bits: k as u32, ..ringx::<T>((0..1 << k).collect()) }], move |n, s, x| {
                Ok(ohv::ohv::<T, _>(k, x.x(0), n, s)?.into_iter().map(vx).collect())
            }, move |x| is((0..1 << k).map(|i| (i == x[0]) as u128).collect())),
            op(&format!("rand_ohv-{name}"), vec![public(vec![0])], move |n, s, _| {
                let (r, e) = ohv::rand_ohv::<T, _>(k, n, s)?;
                let r = mpc_core::protocols::rep3_ring::binary::open(&r, n)?.0.to();
                if r >> k != 0 {
                    eyre::bail!("the index {r} has more than {k} bits");
                }
                // Entry r must be the one that is set: move it to the front.
                Ok((0..e.len()).map(|i| vx(e[i ^ r as usize])).collect())
            }, move |_| is((0..1 << k).map(|i| (i == 0) as u128).collect())),
        ]
    }).collect()
}

/// The indices below `n` that are tried: all of a small table, the ends and
/// the powers of two of a large one.
fn spots(n: u128) -> Vec<u128> {
    if n <= q(9, 17) {
        return (0..n).collect();
    }
    let mut v: Vec<u128> = (0..n.ilog2()).map(|i| (1 << i) + (i as u128 % 2)).chain([0, n / 2 + 1, n - 2, n - 1]).collect();
    v.sort();
    v.dedup();
    v
}

/// Entries of the table under test.
fn table(p: u128, len: usize, t: u128) -> Vec<u128> {
    (0..len as u128).map(|i| (i * i * 3 + t * 5 + i * t + 1) % p).collect()
}

fn luts<F: FieldUint, T: Rt>(len: usize) -> Vec<Op>
where
    Standard: Distribution<T>,
{
    let p = pm::<F>();
    let pad = len.next_power_of_two() as u128;
    let idx = || asome::<F>(&spots(len as u128));
    let padded = || asome::<F>(&if len > 16 { vec![0, len as u128 - 1, len as u128, pad.min(p) - 1] } else { (0..pad.min(p)).collect() });
    let xi = |m: u128| In { bits: pad.ilog2(), ..ringx::<T>(spots(m)) };
    let tab = Arc::new(table(p, len, 0));
    let tab1 = Arc::new(table(p, (len + 1) / 2, 1));
    let at = |t: &[u128], i: u128| t.get(i as usize).copied().unwrap_or(0);
    let val: Vec<u128> = vec![0, p - 1];
    type L<F> = lf::Rep3FieldLookupTable<F>;
    let share = |s: &Rep3State, t: &[u128]| -> Vec<FS<F>> { t.iter().map(|v| mpc_core::protocols::rep3::arithmetic::promote_to_trivial_share(s.id, fld(*v))).collect() };
    let pubs = |t: &[u128]| -> Vec<F> { t.iter().map(|v| fld(*v)).collect() };
    let mut v = vec![];
    let t = tab.clone();
    v.push(op("lut-read", vec![idx()], move |n, s, x| {
        let mut l = L::<F>::new();
        let mut s1 = s.fork(0)?;
        let (a, b) = (l.init_public(pubs(&t)), l.init_private(share(s, &t)));
        eyre::ensure!(L::<F>::get_lut_len(&a) == t.len() && L::<F>::get_lut_len(&b) == t.len() && L::<F>::is_public_lut(&a) && !L::<F>::is_public_lut(&b) && a.len() == t.len() && !b.is_empty());
        eyre::ensure!(*L::<F>::get_public_lut(&a)? == pubs(&t) && L::<F>::get_public_lut(&b).is_err());
        f(vec![l.get_from_lut(x.f(0), &a, n, &second(n), s, &mut s1)?, l.get_from_lut(x.f(0), &b, n, &second(n), s, &mut s1)?])
    }, { let t = tab.clone(); move |x| is(vec![at(&t, x[0]); 2]) }).conv());
    let t = tab.clone();
    v.push(op("lut-write-read", vec![padded(), asome::<F>(&val), if len > 16 { asome::<F>(&[0, len as u128 - 1]) } else { idx() }], move |n, s, x| {
        let mut l = L::<F>::new();
        let mut s1 = s.fork(0)?;
        let m = second(n);
        let (mut a, mut b) = (l.init_public(pubs(&t)), l.init_private(share(s, &t)));
        l.write_to_lut(x.f(0), x.f(1), &mut a, n, &m, s, &mut s1)?;
        l.write_to_lut(x.f(0), x.f(1), &mut b, n, &m, s, &mut s1)?;
        // A second write, elsewhere.
        l.write_to_lut(x.f(2), x.f(0), &mut b, n, &m, s, &mut s1)?;
        let mut out = vec![];
        for t in [&a, &b] {
            match t {
                lf::PublicPrivateLut::Public(_) => eyre::bail!("still public"),
                lf::PublicPrivateLut::Shared(t) => out.extend(t.clone()),
            }
        }
        out.push(l.get_from_lut(x.f(2), &a, n, &m, s, &mut s1)?);
        f(out)
    }, { let t = tab.clone(); move |x| {
        let mut a = t.to_vec();
        if let Some(e) = a.get_mut(x[0] as usize) {
            *e = x[1];
        }
        let mut b = a.clone();
        b[x[2] as usize] = x[0];
        let r = a[x[2] as usize];
        is(a.into_iter().chain(b).chain([r]).collect())
    }}).conv());
    let (t, u) = (tab.clone(), tab1.clone());
    v.push(op("lut-read-several", vec![idx()], move |n, s, x| {
        let mut s1 = s.fork(0)?;
        f(L::<F>::get_from_public_luts(x.f(0), &[pubs(&t), pubs(&u), pubs(&t)], n, &second(n), s, &mut s1)?)
    }, { let (t, u) = (tab.clone(), tab1.clone()); move |x| is(vec![at(&t, x[0]), at(&u, x[0]), at(&t, x[0])]) }).conv());
    let t = tab.clone();
    v.push(op("lut-by-ohv", vec![padded(), asome::<F>(&val)], move |n, s, x| {
        let mut s1 = s.fork(0)?;
        let e = L::<F>::ohv_from_index(x.f(0), t.len(), n, &second(n), s, &mut s1)?;
        let mut w = share(s, &t);
        L::<F>::write_to_shared_lut_from_ohv(&e, x.f(1), &mut w, n, s)?;
        w.extend(e);
        f(w)
    }, { let t = tab.clone(); move |x| {
        let mut w = t.to_vec();
        if let Some(e) = w.get_mut(x[0] as usize) {
            *e = x[1];
        }
        w.extend((0..pad).map(|i| (i == x[0]) as u128));
        is(w)
    }}).conv());
    // The gadgets behind it, with an index that is shared bitwise.
    let (t, u) = (tab.clone(), tab1.clone());
    v.push(op(&format!("gadgets-{}", T::K), vec![xi(pad), asome::<F>(&val)], move |n, s, x| {
        let i = x.x::<T>(0);
        let m = second(n);
        let mut s1 = s.fork(0)?;
        let mut out = vec![vb(gf::read_public_lut::<F, T, _>(&pubs(&t), i, n, s)?)];
        let low = gf::read_public_lut_low_depth::<F, T, _>(&pubs(&t), i, n, &m, s, &mut s1)?;
        let several = gf::read_multiple_public_lut_low_depth::<F, T, _>(&[pubs(&t), pubs(&u)], i, n, &m, s, &mut s1)?;
        use mpc_core::protocols::rep3::network::Rep3NetworkExt;
        let mut a = vec![low];
        a.extend(several);
        let b = n.reshare_many(&a)?;
        out.extend(a.into_iter().zip(b).map(|(a, b)| vb(US::<F>::new(a, b))));
        let mut w = share(s, &t);
        if (w.len() as u128) < (1 << pad.ilog2()) {
            w.resize(1 << pad.ilog2(), FS::default());
        }
        let a = gf::read_shared_lut::<F, T, _>(&w, i, n, s)?;
        out.push(vf(FS::new(a, n.reshare(a)?)));
        gf::write_lut::<F, T, _>(&x.f(1), &mut w, i, n, s)?;
        out.extend(w.into_iter().map(vf));
        Ok(out)
    }, { let (t, u) = (tab.clone(), tab1.clone()); move |x| {
        let mut w = t.to_vec();
        w.resize(pad as usize, 0);
        let r = w[x[0] as usize];
        w[x[0] as usize] = x[1];
        is([r, r, r, at(&u, x[0]), r].into_iter().chain(w).collect())
    }}));
    v
}

/// The same for tables of curve points.
fn curve_luts<C: Tiny, T: Rt>(len: usize) -> Vec<Op>
where
    C::ScalarField: FieldUint,
    Standard: Distribution<T>,
{
    let p = pm::<C::ScalarField>();
    let pad = len.next_power_of_two() as u128;
    let idx = || asome::<C::ScalarField>(&spots((len as u128).min(p)));
    let padded = || asome::<C::ScalarField>(&(0..pad.min(p)).collect::<Vec<_>>());
    let tab = Arc::new(table(p, len, 0));
    let tab1 = Arc::new(table(p, (len + 1) / 2, 1));
    let at = |t: &[u128], i: u128| t.get(i as usize).copied().unwrap_or(0);
    let pubs = |t: &[u128]| -> Vec<C> { t.iter().map(|v| C::nth(*v as u64)).collect() };
    let share = move |s: &Rep3State, t: &[u128]| -> Vec<PS<C>> { pubs(t).iter().map(|v| mpc_core::protocols::rep3::pointshare::promote_to_trivial_share(s.id, v)).collect() };
    type L<C> = lc::Rep3CurveLookupTable<C>;
    let c = |v: Vec<PS<C>>| -> eyre::Result<Vec<V>> { Ok(v.into_iter().map(vc).collect()) };
    let t = tab.clone();
    let mut v = vec![op("curve-lut-read", vec![idx()], move |n, s, x| {
        let mut l = L::<C>::new();
        let mut s1 = s.fork(0)?;
        let (a, b) = (l.init_public(pubs(&t)), l.init_private(share(s, &t)));
        eyre::ensure!(L::<C>::get_lut_len(&a) == t.len() && L::<C>::get_lut_len(&b) == t.len() && L::<C>::is_public_lut(&a) && !L::<C>::is_public_lut(&b) && a.len() == t.len() && !b.is_empty());
        eyre::ensure!(*L::<C>::get_public_lut(&a)? == pubs(&t) && L::<C>::get_public_lut(&b).is_err());
        c(vec![l.get_from_lut(x.f(0), &a, n, &second(n), s, &mut s1)?, l.get_from_lut(x.f(0), &b, n, &second(n), s, &mut s1)?])
    }, { let t = tab.clone(); move |x| is(vec![at(&t, x[0]); 2]) }).conv()];
    let t = tab.clone();
    v.push(op("curve-lut-write-read", vec![padded(), In { vals: vec![0, p - 1], ..pt::<C>() }, idx()], move |n, s, x| {
        let mut l = L::<C>::new();
        let mut s1 = s.fork(0)?;
        let m = second(n);
        let (mut a, mut b) = (l.init_public(pubs(&t)), l.init_private(share(s, &t)));
        l.write_to_lut(x.f(0), x.c(1), &mut a, n, &m, s, &mut s1)?;
        l.write_to_lut(x.f(0), x.c(1), &mut b, n, &m, s, &mut s1)?;
        let mut out = vec![];
        for t in [&a, &b] {
            match t {
                lc::PublicPrivateLut::Public(_) => eyre::bail!("still public"),
                lc::PublicPrivateLut::Shared(t) => out.extend(t.clone()),
            }
        }
        out.push(l.get_from_lut(x.f(2), &a, n, &m, s, &mut s1)?);
        c(out)
    }, { let t = tab.clone(); move |x| {
        let mut a = t.to_vec();
        if let Some(e) = a.get_mut(x[0] as usize) {
            *e = x[1];
        }
        let r = a[x[2] as usize];
        is(a.clone().into_iter().chain(a).chain([r]).collect())
    }}).conv());
    let (t, u) = (tab.clone(), tab1.clone());
    v.push(op("curve-lut-read-several", vec![idx()], move |n, s, x| c(L::<C>::get_from_public_luts(x.f(0), &[pubs(&t), pubs(&u)], n, s)?), { let (t, u) = (tab.clone(), tab1.clone()); move |x| is(vec![at(&t, x[0]), at(&u, x[0])]) }).conv());
    let t = tab.clone();
    v.push(op(&format!("curve-gadgets-{}", T::K), vec![In { bits: pad.ilog2(), ..ringx::<T>((0..pad).collect()) }, In { vals: vec![0, p - 1], ..pt::<C>() }], move |n, s, x| {
        use mpc_core::protocols::rep3::network::Rep3NetworkExt;
        let i = x.x::<T>(0);
        let mut out = vec![gc::read_public_lut::<C, T, _>(&pubs(&t), i, n, s)?];
        out.extend(gc::read_public_luts::<C, T, _>(&[pubs(&t), vec![C::generator()]], i, n, s)?);
        let mut w = share(s, &t);
        w.resize(1 << pad.ilog2(), PS::default());
        let a = gc::read_shared_lut::<C, T, _>(&w, i, n, s)?;
        out.push(PS::new(a, n.reshare(a)?));
        gc::write_lut::<C, T, _>(&x.c(1), &mut w, i, n, s)?;
        out.extend(w);
        c(out)
    }, { let t = tab.clone(); move |x| {
        let mut w = t.to_vec();
        w.resize(pad as usize, 0);
        let r = w[x[0] as usize];
        w[x[0] as usize] = x[1];
        is([r, r, (x[0] == 0) as u128, r].into_iter().chain(w).collect())
    }}));
    v
}

pub fn main() {
    let c = Check::new("R07");
    let mut jobs: Vec<Job> = vec![];
    fn push(jobs: &mut Vec<Job>, o: Vec<Op>, label: &str, salts: std::ops::Range<u64>, dev: u32) {
        for o in o {
            let (label, salts) = (label.to_string(), salts.clone());
            jobs.push(Box::new(move |c| exhaust(c, &o, &label, salts, 40, dev)));
        }
    }
    for len in [2, 3, 4, 5, 8, 13, 16, 17, 40, 200].into_iter().chain(q(vec![], vec![6, 7, 9, 32, 33, 64, 128, 256])).rev() {
        push(&mut jobs, luts::<F257, u16>(len), &format!("len{len}-p257"), 1..if len > 40 { 2 } else { q(3, 12) }, 0);
    }
    for len in 2..=5 {
        push(&mut jobs, luts::<F5, u8>(len), &format!("len{len}-p5"), 0..q(4, 20), (len == 3) as u32);
    }
    push(&mut jobs, luts::<F5, u32>(4), "len4-p5", 1..q(3, 12), 0);
    push(&mut jobs, luts::<F3, u64>(3), "len3-p3", 0..q(5, 30), 0);
    for len in [2, 3, 4, 7, 8, 13].into_iter().chain(q(vec![], vec![5, 6, 9, 12])) {
        push(&mut jobs, curve_luts::<G13, u8>(len), &format!("len{len}-G13"), 2..q(4, 12), 0);
    }
    push(&mut jobs, curve_luts::<G5, u16>(5), "len5-G5", 2..q(6, 20), 1);
    push(&mut jobs, sorts::<F17>(), "p17", 1..q(2, 6), 0);
    push(&mut jobs, sorts::<F5>(), "p5", 0..q(4, 12), 0);
    push(&mut jobs, sorts::<F3>(), "p3", 0..q(4, 20), 1);
    push(&mut jobs, ohvs::<Bit>(1), "", 0..q(8, 80), 2);
    push(&mut jobs, ohvs::<u8>(q(6, 8)), "", 0..q(8, 40), 1);
    push(&mut jobs, ohvs::<u16>(q(8, 10)), "", 0..q(4, 10), 0);
    push(&mut jobs, ohvs::<u128>(3), "", 0..q(4, 30), 0);
    parallel(&c, jobs, |c, j| j(c));
    c.finish()
}
