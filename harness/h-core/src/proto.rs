//! Shamir protocols run by tasks: operations with their plain meaning, and what is enumerated.
use crate::prelude::*;
use mpc_core::protocols::shamir::arithmetic as ar;
use mpc_core::protocols::shamir::network::ShamirNetworkExt;

/// What one party gets out of an operation.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Got<F: PrimeField> {
    pub shares: Vec<F>,
    pub opened: Vec<F>,
}
pub type R<F> = eyre::Result<Got<F>>;

pub type RunF<F> = fn(&SimNet, &mut ShamirState<F>, &[Sh<F>], &[F]) -> R<F>;
/// The plain meaning: Err means that every party must report an error.
pub type Plain<F> = fn(&[F], &[F]) -> Result<(Vec<F>, Vec<F>), ()>;

#[derive(Clone, Copy)]
pub struct Op<F: PrimeField> {
    pub name: &'static str,
    /// Shared inputs and public inputs.
    pub ins: usize,
    pub pubs: usize,
    /// Sends messages.
    pub net: bool,
    /// May fail if a random value happens to be zero.
    pub lucky: bool,
    pub run: RunF<F>,
    pub plain: Plain<F>,
}

fn s<F: PrimeField>(v: Vec<Sh<F>>) -> R<F> {
    Ok(Got { shares: v.into_iter().map(|x| x.a).collect(), opened: vec![] })
}
fn o<F: PrimeField>(v: Vec<F>) -> R<F> {
    Ok(Got { shares: vec![], opened: v })
}
fn sh<F>(v: Vec<F>) -> Result<(Vec<F>, Vec<F>), ()> {
    Ok((v, vec![]))
}
fn op<F>(v: Vec<F>) -> Result<(Vec<F>, Vec<F>), ()> {
    Ok((vec![], v))
}

pub fn ops<F: PrimeField>() -> Vec<Op<F>> {
    macro_rules! op {
        ($name:literal, $ins:literal, $pubs:literal, $net:literal, $lucky:literal, $run:expr, $plain:expr) => {
            Op { name: $name, ins: $ins, pubs: $pubs, net: $net, lucky: $lucky, run: $run, plain: $plain }
        };
    }
    vec![
        op!("add", 2, 0, false, false, |_, _, x, _| s(vec![ar::add(x[0], x[1]), x[0] + x[1], x[0] + &x[1], &x[0] + &x[1]]), |x, _| sh(vec![x[0] + x[1]; 4])),
        op!("add_assign", 2, 0, false, false, |_, _, x, _| {
            let (mut a, mut b, mut c) = (x[0], x[0], x[0]);
            ar::add_assign(&mut a, x[1]);
            b += x[1];
            c += &x[1];
            s(vec![a, b, c])
        }, |x, _| sh(vec![x[0] + x[1]; 3])),
        op!("sub", 2, 0, false, false, |_, _, x, _| s(vec![ar::sub(x[0], x[1]), x[0] - x[1], x[0] - &x[1], &x[0] - &x[1]]), |x, _| sh(vec![x[0] - x[1]; 4])),
        op!("sub_assign", 2, 0, false, false, |_, _, x, _| {
            let (mut a, mut b) = (x[0], x[0]);
            ar::sub_assign(&mut a, x[1]);
            b -= x[1];
            s(vec![a, b])
        }, |x, _| sh(vec![x[0] - x[1]; 2])),
        op!("vec_assign", 3, 0, false, false, |_, _, x, _| {
            let mut a = vec![x[0], x[1]];
            ar::add_vec_assign(&mut a, &[x[1], x[2]]);
            let mut b = vec![x[0], x[1]];
            ar::sub_vec_assign(&mut b, &[x[1], x[2]]);
            let mut e = vec![];
            ar::add_vec_assign(&mut e, &[]);
            ar::sub_vec_assign(&mut e, &[]);
            a.extend(b);
            a.extend(e);
            s(a)
        }, |x, _| sh(vec![x[0] + x[1], x[1] + x[2], x[0] - x[1], x[1] - x[2]])),
        op!("add_public", 1, 1, false, false, |_, _, x, y| {
            let (mut a, mut b) = (x[0], x[0]);
            ar::add_assign_public(&mut a, y[0]);
            b += y[0];
            s(vec![ar::add_public(x[0], y[0]), x[0] + y[0], &x[0] + &y[0], a, b])
        }, |x, y| sh(vec![x[0] + y[0]; 5])),
        op!("mul_public", 1, 1, false, false, |_, _, x, y| {
            let (mut a, mut b) = (x[0], x[0]);
            ar::mul_assign_public(&mut a, y[0]);
            b *= y[0];
            s(vec![ar::mul_public(x[0], y[0]), x[0] * y[0], &x[0] * &y[0], a, b])
        }, |x, y| sh(vec![x[0] * y[0]; 5])),
        op!("neg", 1, 0, false, false, |_, _, x, _| s(vec![ar::neg(x[0]), -x[0], -&x[0]]), |x, _| sh(vec![-x[0]; 3])),
        op!("promote", 0, 2, false, false, |_, _, _, y| {
            let mut v = ar::promote_to_trivial_shares(y);
            v.push(ar::promote_to_trivial_share(y[0]));
            v.extend(ar::promote_to_trivial_shares::<F>(&[]));
            v.push(Sh::zero_share());
            v.push(Sh::zero());
            s(v)
        }, |_, y| sh(vec![y[0], y[1], y[0], F::zero(), F::zero()])),
        op!("div_shared_by_public", 1, 1, false, false, |_, _, x, y| s(vec![ar::div_shared_by_public(x[0], y[0])?]), |x, y| {
            if y[0].is_zero() { Err(()) } else { sh(vec![x[0] / y[0]]) }
        }),
        op!("mul", 2, 0, true, false, |n, st, x, _| s(vec![ar::mul(x[0], x[1], n, st)?]), |x, _| sh(vec![x[0] * x[1]])),
        op!("mul_twice", 2, 0, true, false, |n, st, x, _| {
            let a = ar::mul(x[0], x[1], n, st)?;
            s(vec![a, ar::mul(a, x[1], n, st)?])
        }, |x, _| sh(vec![x[0] * x[1], x[0] * x[1] * x[1]])),
        op!("mul_vec", 2, 0, true, false, |n, st, x, _| {
            let mut v = ar::mul_vec(&[x[0], x[1]], &[x[1], x[1]], n, st)?;
            v.extend(ar::mul_vec::<F, _>(&[], &[], n, st)?);
            v.extend(ar::mul_vec(&[x[0]], &[x[0]], n, st)?);
            s(v)
        }, |x, _| sh(vec![x[0] * x[1], x[1] * x[1], x[0] * x[0]])),
        op!("local_mul_vec", 2, 0, true, false, |n, st, x, _| {
            let l = ar::local_mul_vec(&[x[0], x[1], x[0]], &[x[1], x[1], x[0]]);
            s(n.degree_reduce_many(st, l)?)
        }, |x, _| sh(vec![x[0] * x[1], x[1] * x[1], x[0] * x[0]])),
        op!("local_mul_sum", 2, 0, true, false, |n, st, x, _| {
            let a = x[0] * x[1];
            let b = x[1] * &x[1];
            let c = &x[0] * &x[0];
            s(vec![n.degree_reduce(st, a.a + b.a - c.a)?])
        }, |x, _| sh(vec![x[0] * x[1] + x[1] * x[1] - x[0] * x[0]])),
        op!("open", 2, 0, true, false, |n, st, x, _| o(vec![ar::open(x[0], n, st)?, ar::open(x[1], n, st)?]), |x, _| op(vec![x[0], x[1]])),
        op!("open_vec", 2, 0, true, false, |n, st, x, _| {
            let mut v = ar::open_vec(&[x[0], x[1], x[0]], n, st)?;
            v.extend(ar::open_vec::<F, _>(&[], n, st)?);
            v.extend(ar::open_vec(&[x[1]], n, st)?);
            o(v)
        }, |x, _| op(vec![x[0], x[1], x[0], x[1]])),
        op!("mul_open_vec", 2, 0, true, false, |n, st, x, _| {
            let mut v = ar::mul_open_vec(&[x[0], x[1]], &[x[1], x[1]], n, st)?;
            v.extend(ar::mul_open_vec::<F, _>(&[], &[], n, st)?);
            v.extend(ar::mul_open_vec(&[x[0]], &[x[0]], n, st)?);
            o(v)
        }, |x, _| op(vec![x[0] * x[1], x[1] * x[1], x[0] * x[0]])),
        op!("inv", 1, 0, true, true, |n, st, x, _| s(vec![ar::inv(x[0], n, st)?]), |x, _| x[0].inverse().ok_or(()).and_then(|i| sh(vec![i]))),
        op!("inv_vec", 2, 0, true, true, |n, st, x, _| s(ar::inv_vec(&[x[0], x[1]], n, st)?), |x, _| {
            match (x[0].inverse(), x[1].inverse()) {
                (Some(a), Some(b)) => sh(vec![a, b]),
                _ => Err(()),
            }
        }),
        op!("inv_vec_lengths", 1, 0, true, true, |n, st, x, _| {
            let mut v = ar::inv_vec(&[], n, st)?;
            v.extend(ar::inv_vec(&[x[0]], n, st)?);
            s(v)
        }, |x, _| x[0].inverse().ok_or(()).and_then(|i| sh(vec![i]))),
        op!("div", 2, 0, true, true, |n, st, x, _| s(vec![ar::div(x[0], x[1], n, st)?]), |x, _| x[1].inverse().ok_or(()).and_then(|i| sh(vec![x[0] * i]))),
        op!("div_public_by_shared", 1, 1, true, true, |n, st, x, y| s(vec![ar::div_public_by_shared(y[0], x[0], n, st)?]), |x, y| x[0].inverse().ok_or(()).and_then(|i| sh(vec![y[0] * i]))),
        op!("rand_twice", 0, 0, true, false, |n, st, _, _| {
            // Only that both are shares of the value that opening gives.
            let (a, b) = (st.rand(n)?, st.rand(n)?);
            let v = ar::open_vec(&[a, b], n, st)?;
            s(vec![a - Sh::new(v[0]), b - Sh::new(v[1])])
        }, |_, _| sh(vec![F::zero(); 2])),
        op!("send_and_recv", 1, 0, true, false, |n, _, x, _| {
            // Around the ring once: everybody ends with its own share.
            let (nx, pv) = ((n.id + 1) % n.n, (n.id + n.n - 1) % n.n);
            let mut v = x[0].a;
            for _ in 0..n.n {
                v = n.send_and_recv(nx, v, pv)?;
            }
            let w: Vec<F> = n.send_and_recv_many(nx, &[v, v + F::one()], pv)?;
            let back: Vec<F> = n.send_and_recv_many(pv, &w, nx)?;
            s(vec![Sh::new(v), Sh::new(back[0]), Sh::new(back[1] - F::one())])
        }, |x, _| sh(vec![x[0]; 3])),
        op!("broadcast", 1, 0, true, false, |n, _, x, _| {
            let all = n.broadcast(n.n, x[0].a)?;
            let pts: Vec<(F, F)> = all.iter().enumerate().map(|(i, v)| (F::from(i as u64 + 1), *v)).collect();
            let mut r = F::zero();
            for (i, (xi, yi)) in pts.iter().enumerate() {
                let mut l = *yi;
                for (j, (xj, _)) in pts.iter().enumerate() {
                    if i != j {
                        l *= *xj / (*xj - xi);
                    }
                }
                r += l;
            }
            o(vec![r])
        }, |x, _| op(vec![x[0]])),
    ]
}

/// What is enumerated in one world: secrets, sharing randomness, draws of the parties.
#[derive(Clone, Copy, Debug)]
pub struct Space {
    pub n: usize,
    pub t: usize,
    /// Pairs to preprocess.
    pub pairs: usize,
    /// Draws that may deviate from the base tape.
    pub budget: u32,
    /// Number of base tapes.
    pub tapes: u32,
    /// Sharing polynomials per secret: all (0), or this many.
    pub polys: u32,
    pub cap: usize,
}

pub fn state<F: PrimeField>(n: &SimNet, sp: Space) -> eyre::Result<ShamirState<F>> {
    Ok(ShamirPreprocessing::<F>::new(sp.n, sp.t, sp.pairs, n)?.into())
}

pub fn is_small<F: PrimeField>() -> bool {
    F::MODULUS_BIT_SIZE <= 20
}
/// Number of values `any` chooses from.
pub fn any_count<F: PrimeField>() -> u64 {
    if is_small::<F>() { modulus::<F>() } else { 6 }
}
/// A value chosen freely by the checker: any of a small field, boundary values of a large one.
pub fn any<F: PrimeField>() -> F {
    let k = mc::pick(any_count::<F>() as u32, "value") as u64;
    if is_small::<F>() {
        return F::from(k);
    }
    match k {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2u64).inverse().unwrap(),
        4 => F::from(u64::MAX),
        _ => -F::from(3u64).inverse().unwrap(),
    }
}
pub fn deal<F: PrimeField>(poly: &[F], n: usize) -> Vec<F> {
    (1..=n as u64).map(|x| poly.iter().rev().fold(F::zero(), |acc, c| acc * F::from(x) + c)).collect()
}
/// A sharing of v chosen freely: shares of all parties.
pub fn any_sharing<F: PrimeField>(v: F, n: usize, t: usize, polys: u32) -> Vec<F> {
    let mut poly = vec![v];
    if polys == 0 {
        poly.extend((0..t).map(|_| any::<F>()));
    } else {
        let k = mc::pick(polys, "poly") as u64;
        poly.extend((0..t as u64).map(|i| F::from(mix(&[7; 32], i, k))));
    }
    deal(&poly, n)
}

/// The parties' draws: the base tape, changed in up to `budget` places in all ways.
pub fn script<F: PrimeField>(base: u32, budget: u32) {
    let p = modulus::<F>();
    let big = !is_small::<F>();
    let left = Rc::new(RefCell::new(budget));
    simrand::ctl::ctl().script = Some(Rc::new(move |seed, pos| {
        if big {
            return mix(seed, pos, base as u64 + 1) << 8 ^ mix(seed, pos, base as u64 + 99);
        }
        let b = if base == 0 { 0 } else { mix(seed, pos, base as u64) };
        let mut v = 0;
        if *left.borrow() > 0 {
            v = mc::pick(p as u32, "draw") as u64;
            if v != 0 {
                *left.borrow_mut() -= 1;
            }
        }
        (b + v) % p
    }));
}
pub fn mix(seed: &[u8; 32], pos: u64, salt: u64) -> u64 {
    let mut x = salt.wrapping_mul(0x9e3779b97f4a7c15) ^ pos.wrapping_mul(0xd1342543de82ef95);
    for c in seed.chunks(8) {
        x ^= u64::from_le_bytes(c.try_into().unwrap());
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 29;
    }
    x >> 8
}

/// Runs one operation on enumerated inputs in a world and compares with the plain result.
pub fn world<F: PrimeField>(op: Op<F>, sp: Space, out: Out) {
    let base = if sp.tapes > 1 { mc::pick(sp.tapes, "tape") } else { 0 };
    hub().cap = sp.cap;
    let vals: Vec<F> = (0..op.ins).map(|_| any()).collect();
    let pubs: Vec<F> = (0..op.pubs).map(|_| any()).collect();
    let shares: Vec<Vec<F>> = vals.iter().map(|v| any_sharing(*v, sp.n, sp.t, sp.polys)).collect();
    script::<F>(base, sp.budget);
    let (v2, p2) = (vals.clone(), pubs.clone());
    // For operations that fail when a random value is zero: whether one of them is.
    let zero = Rc::new(RefCell::new(false));
    let z2 = zero.clone();
    let res = run(sp.n, move |i, net| {
        let mine: Vec<Sh<F>> = shares.iter().map(|s| Sh::new(s[i])).collect();
        if op.lucky {
            let mut twin = state::<F>(&net, sp)?;
            for _ in 0..sp.pairs {
                let r = twin.rand(&net)?;
                if ar::open(r, &net, &mut twin)?.is_zero() {
                    *z2.borrow_mut() = true;
                }
            }
            // The same entropy again.
            simrand::ctl::ctl().asked.remove(&i);
        }
        let mut st = state::<F>(&net, sp)?;
        (op.run)(&net, &mut st, &mine, &p2)
    });
    let lucky = *zero.borrow();
    out.set(judge(&op, sp, &v2, &pubs, res, lucky));
}

pub fn judge<F: PrimeField>(op: &Op<F>, sp: Space, vals: &[F], pubs: &[F], res: Vec<Result<R<F>, String>>, may_fail: bool) -> Result<String, String> {
    let ctx = || format!("inputs {:?} public {:?}", vals.iter().map(|x| x.to_string()).collect::<Vec<_>>(), pubs.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    let mut got = Vec::new();
    let mut errs = Vec::new();
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Err(p) => return Err(format!("party {i} panicked: {p}; {}", ctx())),
            Ok(Ok(g)) => got.push(g),
            Ok(Err(e)) => errs.push(format!("party {i}: {e:#}")),
        }
    }
    let want = (op.plain)(vals, pubs);
    if !errs.is_empty() && !got.is_empty() {
        return Err(format!("only some parties fail ({errs:?}); {}", ctx()));
    }
    match want {
        Err(()) => {
            if errs.is_empty() {
                return Err(format!("no error; {}", ctx()));
            }
            if undelivered() != 0 {
                return Err(format!("{} messages were never received; {}", undelivered(), ctx()));
            }
            Ok("error".into())
        }
        Ok((shares, opened)) => {
            if !errs.is_empty() {
                if may_fail {
                    return Ok("a random value was zero".into());
                }
                return Err(format!("{errs:?}; {}", ctx()));
            }
            for (i, g) in got.iter().enumerate() {
                if g.opened != opened {
                    return Err(format!("party {i} opens {:?} instead of {:?}; {}", g.opened, opened, ctx()));
                }
                if g.shares.len() != shares.len() {
                    return Err(format!("party {i} has {} shares, not {}; {}", g.shares.len(), shares.len(), ctx()));
                }
            }
            for (k, want) in shares.iter().enumerate() {
                let sh: Vec<F> = got.iter().map(|g| g.shares[k]).collect();
                match secret_of(&sh, sp.t) {
                    Some(v) if v == *want => {}
                    Some(v) => return Err(format!("result {k} is a sharing of {v} instead of {want}; {}", ctx())),
                    None => return Err(format!("result {k} is no sharing of degree {}: {sh:?}; {}", sp.t, ctx())),
                }
            }
            if undelivered() != 0 {
                return Err(format!("{} messages were never received; {}", undelivered(), ctx()));
            }
            Ok("ok".into())
        }
    }
}

/// S03.
pub fn s03() {
    let c = Check::new("S03");
    fn group<F: PrimeField>(c: &Check, n: usize, t: usize, tapes: u32) {
        for op in ops::<F>() {
            let name = format!("{}-p{}-n{n}-t{t}", op.name, modulus::<F>());
            if !c.selected(&name) || c.failed() {
                continue;
            }
            c.at(&name);
            let k = any_count::<F>();
            let full = k.pow((op.ins * (t + 1) + op.pubs) as u32);
            let limit = q(16_000, 600_000);
            let polys = if full > limit || !is_small::<F>() { 3 } else { 0 };
            let inputs = if polys == 0 { full } else { k.pow((op.ins + op.pubs) as u32) * 3u64.pow(op.ins as u32) };
            let pairs: usize = if !op.net { 0 } else if op.lucky { 6 } else { 4 };
            let tapes = match (op.net, op.lucky) {
                (false, _) => 1,
                (true, false) => tapes,
                (true, true) => tapes + 3,
            };
            // As many changed draws as the number of executions allows.
            let draws = (pairs.div_ceil(t + 1) * n * (3 * t + 1)) as u64;
            let one = draws * (any_count::<F>() - 1);
            let runs = |b: u32| inputs * tapes as u64 * (1..=b as u64).fold((1, 1), |(sum, last), i| {
                let next = last * one / i;
                (sum + next, next)
            }).0;
            let target = q(if n > 4 { 12_000 } else { 25_000 }, 2_000_000);
            let budget = if !op.net || !is_small::<F>() { 0 } else { (0..=3).rev().find(|b| runs(*b) <= target).unwrap_or(0) };
            let sp = Space { n, t, pairs, budget, tapes, polys, cap: 0 };
            let mut e = explorer(0, 60);
            e.bounds.max_executions = q(400_000, 20_000_000);
            let s = e.explore(move |out| world(op, sp, out));
            if s.violation.is_none() && !s.capped {
                c.expect(s.outcomes.contains_key("ok"), &name, || format!("never succeeds: {:?}", s.outcomes));
            }
            c.explored(&name, &s);
        }
    }
    group::<F5>(&c, 3, 1, 2);
    group::<F5>(&c, 2, 0, 2);
    group::<F5>(&c, 4, 1, 1);
    group::<F5>(&c, 3, 0, 1);
    group::<F7>(&c, 5, 2, 1);
    group::<F7>(&c, 5, 1, 1);
    group::<F7>(&c, 6, 2, 1);
    group::<ark_bn254::Fr>(&c, 3, 1, 2);
    group::<ark_bn254::Fr>(&c, 5, 2, 1);
    group::<ark_bls12_377::Fr>(&c, 3, 1, 1);
    if thorough() {
        group::<F11>(&c, 7, 3, 1);
        group::<F11>(&c, 8, 3, 1);
        group::<F13>(&c, 10, 4, 1);
        group::<F7>(&c, 3, 1, 2);
    }
    c.finish()
}
