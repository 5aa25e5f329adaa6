//! S08: operations on shared points; points are named by their discrete logarithm.
use crate::prelude::*;
use crate::proto::{Space, any, any_count, any_sharing, is_small, script, state};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use mpc_core::protocols::shamir::network::ShamirNetworkExt;
use mpc_core::protocols::shamir::pointshare as pt;

pub type P<C> = ShamirPointShare<C>;

#[derive(Default)]
pub struct Got<C: CurveGroup> {
    pub shares: Vec<C>,
    pub points: Vec<C>,
    pub fields: Vec<C::ScalarField>,
}
pub struct In<'a, C: CurveGroup> {
    pub p: &'a [P<C>],
    pub f: &'a [Sh<C::ScalarField>],
    pub pp: &'a [C],
    pub pf: &'a [C::ScalarField],
}
/// Logarithms of what must come out: shares, opened points, opened field elements.
pub type Want<F> = (Vec<F>, Vec<F>, Vec<F>);

pub struct Op<C: CurveGroup> {
    pub name: &'static str,
    /// Shared points, shared scalars, public points, public scalars.
    pub ins: [usize; 4],
    pub net: bool,
    pub run: fn(&SimNet, &mut ShamirState<C::ScalarField>, In<C>) -> eyre::Result<Got<C>>,
    pub plain: fn(&[C::ScalarField], &[C::ScalarField], &[C::ScalarField], &[C::ScalarField]) -> Want<C::ScalarField>,
}
impl<C: CurveGroup> Clone for Op<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: CurveGroup> Copy for Op<C> {}

fn s<C: CurveGroup>(v: Vec<P<C>>) -> eyre::Result<Got<C>> {
    Ok(Got { shares: v.into_iter().map(|x| x.a).collect(), points: vec![], fields: vec![] })
}
fn o<C: CurveGroup>(v: Vec<C>) -> eyre::Result<Got<C>> {
    Ok(Got { shares: vec![], points: v, fields: vec![] })
}

pub fn ops<C, S>() -> Vec<Op<C>>
where
    C: CurveGroup<Config = S, Affine = Affine<S>>,
    S: SWCurveConfig<ScalarField = C::ScalarField>,
{
    vec![
        Op { name: "add", ins: [2, 0, 0, 0], net: false, run: |_, _, i| {
            let (x, y) = (i.p[0], i.p[1]);
            let (mut a, mut b) = (x, x);
            pt::add_assign(&mut a, &y);
            b += &y;
            s(vec![pt::add(&x, &y), x + y, x + &y, &x + &y, a, b])
        }, plain: |p, _, _, _| (vec![p[0] + p[1]; 6], vec![], vec![]) },
        Op { name: "sub", ins: [2, 0, 0, 0], net: false, run: |_, _, i| {
            let (x, y) = (i.p[0], i.p[1]);
            let (mut a, mut b) = (x, x);
            pt::sub_assign(&mut a, &y);
            b -= &y;
            s(vec![pt::sub(&x, &y), x - y, x - &y, &x - &y, a, b])
        }, plain: |p, _, _, _| (vec![p[0] - p[1]; 6], vec![], vec![]) },
        Op { name: "public", ins: [1, 0, 1, 0], net: false, run: |_, _, i| {
            let (mut a, mut b, mut c, mut d) = (i.p[0], i.p[0], i.p[0], i.p[0]);
            pt::add_assign_public(&mut a, &i.pp[0]);
            pt::sub_assign_public(&mut b, &i.pp[0]);
            pt::add_assign_public_affine(&mut c, &i.pp[0].into_affine());
            pt::sub_assign_public_affine(&mut d, &i.pp[0].into_affine());
            s(vec![a, b, c, d, pt::promote_to_trivial_share(&i.pp[0]), P::default()])
        }, plain: |p, _, q, _| (vec![p[0] + q[0], p[0] - q[0], p[0] + q[0], p[0] - q[0], q[0], q[0] - q[0]], vec![], vec![]) },
        Op { name: "mul_public", ins: [1, 1, 1, 1], net: false, run: |_, _, i| {
            s(vec![pt::scalar_mul_public_point(i.f[0], &i.pp[0]), pt::scalar_mul_public_scalar(&i.p[0], &i.pf[0]), &i.p[0] * &i.pf[0]])
        }, plain: |p, f, q, k| (vec![f[0] * q[0], p[0] * k[0], p[0] * k[0]], vec![], vec![]) },
        Op { name: "scalar_mul", ins: [1, 1, 0, 0], net: true, run: |n, st, i| s(vec![pt::scalar_mul(&i.p[0], i.f[0], n, st)?]), plain: |p, f, _, _| (vec![p[0] * f[0]], vec![], vec![]) },
        Op { name: "scalar_mul_local", ins: [2, 1, 0, 0], net: true, run: |n, st, i| {
            let h = pt::scalar_mul_local(&i.p[0], i.f[0]);
            let g = (i.f[0] * &i.p[1]).a;
            let r = n.degree_reduce_point(st, h - g)?;
            let mut x = s(vec![r])?;
            x.points = vec![pt::open_half_point(h, n, st)?, pt::open_half_point(g + i.p[0].a, n, st)?];
            Ok(x)
        }, plain: |p, f, _, _| (vec![p[0] * f[0] - p[1] * f[0]], vec![p[0] * f[0], p[1] * f[0] + p[0]], vec![]) },
        Op { name: "open", ins: [2, 0, 0, 0], net: true, run: |n, st, i| o(vec![pt::open_point(&i.p[0], n, st)?, pt::open_half_point(i.p[1].a, n, st)?, pt::open_point(&i.p[1], n, st)?]), plain: |p, _, _, _| (vec![], vec![p[0], p[1], p[1]], vec![]) },
        Op { name: "open_many", ins: [2, 0, 0, 0], net: true, run: |n, st, i| {
            let mut v = pt::open_point_many(&[i.p[0], i.p[1], i.p[0]], n, st)?;
            v.extend(pt::open_point_many::<C, _>(&[], n, st)?);
            v.extend(pt::open_point_many(&[i.p[1]], n, st)?);
            o(v)
        }, plain: |p, _, _, _| (vec![], vec![p[0], p[1], p[0], p[1]], vec![]) },
        Op { name: "open_point_and_field", ins: [1, 1, 0, 0], net: true, run: |n, st, i| {
            let (a, b) = pt::open_point_and_field(&i.p[0], &i.f[0], n, st)?;
            Ok(Got { shares: vec![], points: vec![a], fields: vec![b] })
        }, plain: |p, f, _, _| (vec![], vec![p[0]], vec![f[0]]) },
        Op { name: "open_point_and_field_many", ins: [2, 2, 0, 0], net: true, run: |n, st, i| {
            let (mut a, mut b) = pt::open_point_and_field_many(&[i.p[0], i.p[1]], &[i.f[0], i.f[1]], n, st)?;
            let (c, d) = pt::open_point_and_field_many::<C, _>(&[], &[], n, st)?;
            let (e, f) = pt::open_point_and_field_many(&[i.p[1]], &[i.f[0]], n, st)?;
            a.extend(c);
            b.extend(d);
            a.extend(e);
            b.extend(f);
            Ok(Got { shares: vec![], points: a, fields: b })
        }, plain: |p, f, _, _| (vec![], vec![p[0], p[1], p[1]], vec![f[0], f[1], f[0]]) },
        Op { name: "msm", ins: [0, 2, 2, 0], net: false, run: |_, _, i| {
            let a: Vec<_> = i.pp.iter().map(|p| p.into_affine()).collect();
            s(vec![pt::msm_public_points::<C, S>(&a, i.f), pt::msm_public_points::<C, S>(&[], &[]), pt::msm_public_points::<C, S>(&a[1..], &i.f[..1])])
        }, plain: |_, f, q, _| (vec![f[0] * q[0] + f[1] * q[1], f[0] - f[0], q[1] * f[0]], vec![], vec![]) },
        Op { name: "chain", ins: [1, 2, 0, 0], net: true, run: |n, st, i| {
            let a = pt::scalar_mul(&i.p[0], i.f[0], n, st)?;
            let b = pt::scalar_mul(&a, i.f[1], n, st)?;
            let c = pt::open_point(&(a + b), n, st)?;
            let mut x = s(vec![a, b])?;
            x.points = vec![c];
            Ok(x)
        }, plain: |p, f, _, _| {
            let (a, b) = (p[0] * f[0], p[0] * f[0] * f[1]);
            (vec![a, b], vec![a + b], vec![])
        } },
    ]
}

fn world<C: CurveGroup>(op: Op<C>, sp: Space, out: Out) {
    hub().cap = sp.cap;
    let base = if sp.tapes > 1 { mc::pick(sp.tapes, "tape") } else { 0 };
    let vals: Vec<Vec<C::ScalarField>> = op.ins.iter().map(|k| (0..*k).map(|_| any()).collect()).collect();
    let sharings: Vec<Vec<Vec<C::ScalarField>>> = vals[..2].iter().map(|v| v.iter().map(|x| any_sharing(*x, sp.n, sp.t, sp.polys)).collect()).collect();
    script::<C::ScalarField>(base, sp.budget);
    let v2 = vals.clone();
    let res = run(sp.n, move |i, net| {
        let g = C::generator();
        let p: Vec<P<C>> = sharings[0].iter().map(|s| P::new(g * s[i])).collect();
        let f: Vec<Sh<C::ScalarField>> = sharings[1].iter().map(|s| Sh::new(s[i])).collect();
        let pp: Vec<C> = v2[2].iter().map(|s| g * s).collect();
        let mut st = state::<C::ScalarField>(&net, sp)?;
        (op.run)(&net, &mut st, In { p: &p, f: &f, pp: &pp, pf: &v2[3] })
    });
    out.set(judge(op, sp, &vals, res));
}

fn judge<C: CurveGroup>(op: Op<C>, sp: Space, v: &[Vec<C::ScalarField>], res: Vec<Result<eyre::Result<Got<C>>, String>>) -> Result<String, String> {
    let ctx = || format!("points {:?} scalars {:?} public points {:?} public scalars {:?}", v[0], v[1], v[2], v[3]);
    let (shares, points, fields) = (op.plain)(&v[0], &v[1], &v[2], &v[3]);
    let g = C::generator();
    let mut got = vec![];
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Err(p) => return Err(format!("party {i} panicked: {p}; {}", ctx())),
            Ok(Err(e)) => return Err(format!("party {i}: {e:#}; {}", ctx())),
            Ok(Ok(x)) => {
                if x.points != points.iter().map(|l| g * l).collect::<Vec<_>>() {
                    return Err(format!("party {i} opens wrong points; {}", ctx()));
                }
                if x.fields != fields {
                    return Err(format!("party {i} opens {:?} instead of {fields:?}; {}", x.fields, ctx()));
                }
                if x.shares.len() != shares.len() {
                    return Err(format!("party {i} has {} shares; {}", x.shares.len(), ctx()));
                }
                got.push(x.shares);
            }
        }
    }
    for (k, l) in shares.iter().enumerate() {
        let sh: Vec<C> = got.iter().map(|x| x[k]).collect();
        match secret_of_point(&sh, sp.t) {
            Some(p) if p == g * l => {}
            Some(_) => return Err(format!("result {k} is a sharing of another point; {}", ctx())),
            None => return Err(format!("result {k} is no sharing of degree {}; {}", sp.t, ctx())),
        }
    }
    if undelivered() != 0 {
        return Err(format!("{} messages were never received; {}", undelivered(), ctx()));
    }
    Ok("ok".into())
}

fn group<C, S>(c: &Check, curve: &str, n: usize, t: usize)
where
    C: CurveGroup<Config = S, Affine = Affine<S>>,
    S: SWCurveConfig<ScalarField = C::ScalarField>,
{
    for op in ops::<C, S>() {
        let name = format!("{}-{curve}-n{n}-t{t}", op.name);
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let k = any_count::<C::ScalarField>();
        let (sh, pb) = (op.ins[0] + op.ins[1], op.ins[2] + op.ins[3]);
        let full = k.pow((sh * (t + 1) + pb) as u32);
        let big = !is_small::<C::ScalarField>();
        let limit = q(16_000, 600_000);
        let polys = if big { 1 } else if full > limit { 2 } else { 0 };
        let inputs = if polys == 0 { full } else { k.pow((sh + pb) as u32) * (polys as u64).pow(sh as u32) };
        let pairs: usize = if op.net { 4 } else { 0 };
        let draws = (pairs.div_ceil(t + 1) * n * (3 * t + 1)) as u64;
        let one = draws * (k - 1);
        let budget = if !op.net || big || inputs * (1 + one) > q(60_000, 3_000_000) { 0 } else { 1 };
        let sp = Space { n, t, pairs, budget, tapes: if op.net { 2 } else { 1 }, polys, cap: 0 };
        let mut e = explorer(0, 60);
        e.bounds.max_executions = q(400_000, 20_000_000);
        let s = e.explore(move |out| world(op, sp, out));
        c.explored(&name, &s);
    }
}

pub fn main() {
    let c = Check::new("S08");
    group::<G5, _>(&c, "g5", 3, 1);
    group::<G5, _>(&c, "g5", 2, 0);
    group::<G5, _>(&c, "g5", 4, 1);
    group::<G7, _>(&c, "g7", 5, 2);
    group::<G7, _>(&c, "g7", 5, 1);
    group::<G7, _>(&c, "g7", 6, 2);
    group::<ark_bn254::G1Projective, _>(&c, "bn254g1", 3, 1);
    group::<ark_bn254::G2Projective, _>(&c, "bn254g2", 3, 1);
    if thorough() {
        group::<G7, _>(&c, "g7", 3, 1);
        group::<G13, _>(&c, "g13", 7, 3);
        group::<G13, _>(&c, "g13", 10, 4);
        group::<ark_bn254::G1Projective, _>(&c, "bn254g1", 5, 2);
        group::<ark_bls12_377::G1Projective, _>(&c, "bls377g1", 3, 1);
    }
    // Longer sums, on one party's view: the parts must add up.
    let name = "msm-lengths";
    if c.selected(name) {
        c.at(name);
        let mut jobs = vec![];
        for len in (0..=q(70, 300)).chain(q(vec![128, 255, 256, 257, 1000], vec![512, 1000, 1023, 1024, 1025, 4096])) {
            jobs.push(len);
        }
        parallel(&c, jobs, |c, len| {
            fn one<C, S>(len: usize) -> bool
            where
                C: CurveGroup<Config = S, Affine = Affine<S>>,
                S: SWCurveConfig<ScalarField = C::ScalarField>,
            {
                let m = modulus::<C::ScalarField>().min(1 << 40);
                let logs: Vec<u64> = (0..len as u64).map(|i| (i * i + 3 * i) % m).collect();
                let ks: Vec<C::ScalarField> = (0..len as u64).map(|i| if i % 11 == 7 { -C::ScalarField::from(i) } else { C::ScalarField::from(i * 7 + i / 5) }).collect();
                let g = C::generator();
                let pts: Vec<_> = logs.iter().map(|l| (g * C::ScalarField::from(*l)).into_affine()).collect();
                let sh: Vec<_> = ks.iter().map(|k| Sh::new(*k)).collect();
                let want: C::ScalarField = logs.iter().zip(&ks).map(|(l, k)| *k * C::ScalarField::from(*l)).sum();
                pt::msm_public_points::<C, S>(&pts, &sh).a == g * want
            }
            c.count(3, 3);
            for (curve, ok) in [("g5", one::<G5, _>(len)), ("g13", one::<G13, _>(len)), ("bn254g1", one::<ark_bn254::G1Projective, _>(len))] {
                c.expect(ok, name, || format!("{curve}: wrong sum of {len} points"));
            }
        });
    }
    c.finish()
}
