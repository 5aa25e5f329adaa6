//! R03: field and point arithmetic on replicated shares.
use crate::ops::*;
use mpc_core::protocols::rep3::{self, arithmetic as ar, network::Rep3NetworkExt, pointshare as pt, poly};

fn inv(a: u128, p: u128) -> u128 {
    int::inv(a as u64, p as u64) as u128
}
fn powm(a: u128, mut e: u128, p: u128) -> u128 {
    let (mut r, mut b) = (1 % p, a % p);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
fn f<F: PrimeField>(v: Vec<FS<F>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vf).collect())
}

pub fn field_ops<F: FieldUint>() -> Vec<Op> {
    let p = pm::<F>();
    let k = bits::<F>();
    let _ = k;
    let m = move |x: u128| x % p;
    let mut v = vec![
        op("mul", vec![af::<F>(), af::<F>()], |n, s, x| f::<F>(vec![ar::mul(x.f(0), x.f(1), n, s)?, ar::mul(x.f(0), x.f(0), n, s)?]), move |x| is(vec![m(x[0] * x[1]), m(x[0] * x[0])])),
        op("mul-of-results", vec![af::<F>(), af::<F>()], |n, s, x| {
            let a = ar::mul::<F, _>(x.f(0), x.f(1), n, s)?;
            let b = ar::mul(a, ar::add(a, x.f(0)), n, s)?;
            f(vec![b, ar::mul(b, a, n, s)?])
        }, move |x| {
            let a = m(x[0] * x[1]);
            let b = m(a * m(a + x[0]));
            is(vec![b, m(b * a)])
        }),
        op("mul_vec", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let mut r = ar::mul_vec(&[a, b, b], &[b, b, a], n, s)?;
            r.extend(ar::mul_vec::<F, _>(&[], &[], n, s)?);
            r.extend(ar::mul_vec(&[a], &[a], n, s)?);
            f(r)
        }, move |x| is(vec![m(x[0] * x[1]), m(x[1] * x[1]), m(x[0] * x[1]), m(x[0] * x[0])])),
        op("local_mul_vec", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let l = ar::local_mul_vec(&[a, b, b], &[b, b, a], s);
            let e = ar::local_mul_vec::<F>(&[], &[], s);
            let mut r = ar::reshare_vec(l, n)?;
            r.extend(ar::reshare_vec(e, n)?);
            f(r)
        }, move |x| is(vec![m(x[0] * x[1]), m(x[1] * x[1]), m(x[0] * x[1])])),
        op("local_mul-sum", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let l = a * b + b * b + s.rngs.rand.masking_field_element::<F>();
            f(vec![ar::reshare_vec(vec![l], n)?[0]])
        }, move |x| is(vec![m(x[0] * x[1] + x[1] * x[1])])),
        op("inv", vec![af::<F>()], |n, s, x| f(vec![ar::inv::<F, _>(x.f(0), n, s)?]), move |x| if x[0] == 0 { Want::Refuse } else { is(vec![inv(x[0], p)]) }).lucky(),
        op("inv_vec", vec![af::<F>(), af::<F>()], |n, s, x| f(ar::inv_vec::<F, _>(&[x.f(0), x.f(1)], n, s)?), move |x| if x[0] * x[1] == 0 { Want::Refuse } else { is(vec![inv(x[0], p), inv(x[1], p)]) }).lucky(),
        op("inv_vec-none", vec![], |n, s, _| f(ar::inv_vec::<F, _>(&[], n, s)?), |_| is(vec![])),
        op("div", vec![af::<F>(), af::<F>()], |n, s, x| f(vec![ar::div::<F, _>(x.f(0), x.f(1), n, s)?]), move |x| if x[1] == 0 { Want::Refuse } else { is(vec![m(x[0] * inv(x[1], p))]) }).lucky(),
        op("div_public_by_shared", vec![pf::<F>(), af::<F>()], |n, s, x| f(vec![ar::div_public_by_shared::<F, _>(x.pf(0), x.f(1), n, s)?]), move |x| if x[1] == 0 { Want::Refuse } else { is(vec![m(x[0] * inv(x[1], p))]) }).lucky(),
        op("div_shared_by_public", vec![af::<F>(), pf::<F>()], |_, _, x| f(vec![ar::div_shared_by_public::<F>(x.f(0), x.pf(1))?]), move |x| if x[1] == 0 { Want::Refuse } else { is(vec![m(x[0] * inv(x[1], p))]) }),
        op("sqrt", vec![af::<F>()], |n, s, x| f(vec![ar::sqrt::<F, _>(x.f(0), n, s)?]), move |x| {
            let x = x[0];
            if (0..p).all(|r| r * r % p != x) { Want::Refuse } else { Want::Sat(vec![Box::new(move |r| r * r % p == x)]) }
        }).lucky(),
        op("open", vec![af::<F>(), af::<F>()], |n, _, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let mut o = vec![of(ar::open(a, n)?)];
            o.extend(ar::open_vec(&[a, b, a], n)?.into_iter().map(of));
            o.extend(ar::open_vec::<F, _>(&[], n)?.into_iter().map(of));
            Ok(o)
        }, |x| is(vec![x[0], x[0], x[1], x[0]])),
        op("open_bit", vec![bw::<F>()], |n, _, x| Ok(vec![ou(ar::open_bit::<F, _>(x.b(0), n)?)]), |x| is(vec![x[0]])),
        op("mul_open", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let mut o = vec![of(ar::mul_open(a, b, n, s)?)];
            o.extend(ar::mul_open_vec(&[a, b, a], &[b, b, a], n, s)?.into_iter().map(of));
            o.extend(ar::mul_open_vec::<F, _>(&[], &[], n, s)?.into_iter().map(of));
            Ok(o)
        }, move |x| is(vec![m(x[0] * x[1]), m(x[0] * x[1]), m(x[1] * x[1]), m(x[0] * x[0])])),
        op("cmux", vec![a01::<F>(), af::<F>(), af::<F>()], |n, s, x| {
            let (c, a, b) = (x.f::<F>(0), x.f(1), x.f(2));
            let mut r = vec![ar::cmux(c, a, b, n, s)?];
            r.extend(ar::cmux_vec(c, &[a, b], &[b, a], n, s)?);
            r.extend(ar::cmux_vec(c, &[], &[], n, s)?);
            f(r)
        }, |x| if x[0] == 1 { is(vec![x[1], x[1], x[2]]) } else { is(vec![x[2], x[2], x[1]]) }),
        op("add_mul", vec![af::<F>(), af::<F>(), af::<F>()], |n, s, x| f(vec![ar::add_mul::<F, _>(x.f(0), x.f(1), x.f(2), n, s)?]), move |x| is(vec![m(x[0] + x[1] * x[2])])),
        op("add_mul_public", vec![af::<F>(), af::<F>(), pf::<F>()], |_, _, x| f(vec![ar::add_mul_public::<F>(x.f(0), x.f(1), x.pf(2))]), move |x| is(vec![m(x[0] + x[1] * x[2])])),
        op("pow_public", vec![af::<F>(), pf::<F>()], |n, s, x| f(vec![ar::pow_public::<F, _>(x.f(0), x.pf(1), n, s)?]), move |x| is(vec![powm(x[0], x[1], p)])),
        op("pow_2_public", vec![af::<F>(), public(0..(k as u128).min(p))], |_, _, x| f(vec![ar::pow_2_public::<F>(x.f(0), x.pf(1))]), move |x| is(vec![m(x[0] * powm(2, x[1], p))])),
        op("arithmetic_xor", vec![a01::<F>(), a01::<F>(), a01::<F>()], |n, s, x| {
            let (a, b, c) = (x.f::<F>(0), x.f(1), x.f(2));
            let mut r = vec![ar::arithmetic_xor(a, b, n, s)?];
            r.extend(ar::arithmetic_xor_many(&[a, b, r[0]], &[b, c, c], n, s)?);
            r.extend(ar::arithmetic_xor_many::<F, _>(&[], &[], n, s)?);
            f(r)
        }, |x| is(vec![x[0] ^ x[1], x[0] ^ x[1], x[1] ^ x[2], x[0] ^ x[1] ^ x[2]])),
        op("rand", vec![], |n, s, _| {
            let r = ar::rand::<F>(s);
            let q = ar::mul(r, r, n, s)?;
            let (a, b) = (ar::open(r, n)?, ar::open(q, n)?);
            Ok(vec![vo((a * a == b) as u128), vf(r)])
        }, move |_| Want::Sat(vec![Box::new(|x| x == 1), Box::new(move |x| x < p)])),
        op("promote", vec![pf::<F>(), af::<F>()], |n, s, x| {
            let t = ar::promote_to_trivial_share::<F>(s.id, x.pf(0));
            f(vec![t, ar::mul(t, x.f(1), n, s)?])
        }, move |x| is(vec![x[0], m(x[0] * x[1])])),
        op("linear", vec![af::<F>(), af::<F>(), pf::<F>()], |_, s, x| {
            let (a, b, c) = (x.f::<F>(0), x.f::<F>(1), x.pf::<F>(2));
            let (mut d, mut e, mut g, mut h) = (a, a, a, a);
            ar::add_assign(&mut d, b);
            ar::sub_assign(&mut e, b);
            ar::add_assign_public(&mut g, c, s.id);
            ar::mul_assign_public(&mut h, c);
            let mut w = vec![a, b];
            ar::add_vec_assign(&mut w, &[b, b]);
            let mut u = vec![a, b];
            ar::sub_vec_assign(&mut u, &[b, a]);
            let mut r = vec![d, e, g, h, ar::add(a, b), ar::sub(a, b), ar::neg(a), ar::add_public(a, c, s.id), ar::mul_public(a, c), ar::sub_shared_by_public(a, c, s.id), ar::sub_public_by_shared(c, a, s.id)];
            r.extend(w);
            r.extend(u);
            f(r)
        }, move |x| {
            let (a, b, c) = (x[0], x[1], x[2]);
            let (add, sub) = (m(a + b), m(a + p - b));
            is(vec![add, sub, m(a + c), m(a * c), add, sub, m(p - a), m(a + c), m(a * c), m(a + p - c), m(c + p - a), add, m(2 * b), sub, m(b + p - a)])
        }),
    ];
    // A sharing kept by two parties is handed to all three again.
    for (r, id) in [PartyID::ID0, PartyID::ID1, PartyID::ID2].into_iter().enumerate() {
        v.push(op(&format!("reshare_from_2_to_3_parties-{r}"), vec![af::<F>(), af::<F>()], move |n, s, x| {
            let (a, b) = (x.f::<F>(0), x.f::<F>(1));
            let some = (s.id != id).then(|| vec![a, b, a]);
            let r = ar::reshare_from_2_to_3_parties(some, 3, id, n, s)?;
            let none = (s.id != id).then(Vec::new);
            let mut r2 = r.clone();
            r2.extend(ar::reshare_from_2_to_3_parties::<F, _>(none, 0, id, n, s)?);
            f(r2)
        }, |x| is(vec![x[0], x[1], x[0]])));
    }
    v.push(op("reshare_from_2_to_3_parties-without-input", vec![af::<F>()], |n, s, x| {
        let recipient = PartyID::ID0;
        let r = match s.id {
            PartyID::ID0 => eyre::bail!("the recipient has nothing to refuse"),
            PartyID::ID1 => ar::reshare_from_2_to_3_parties::<F, _>(None, 1, recipient, n, s)?,
            PartyID::ID2 => ar::reshare_from_2_to_3_parties(Some(vec![x.f::<F>(0)]), 2, recipient, n, s)?,
        };
        f(r)
    }, |_| Want::Refuse));
    v
}

pub fn compare_ops<F: FieldUint>() -> Vec<Op> {
    fn b(x: bool) -> u128 {
        x as u128
    }
    fn vbs<F: FieldUint>(v: Vec<US<F>>) -> Vec<V> {
        v.into_iter().map(vb).collect()
    }
    vec![
        op("lt", vec![af::<F>(), af::<F>()], |n, s, x| f(vec![ar::lt::<F, _>(x.f(0), x.f(1), n, s)?]), |x| is(vec![b(x[0] < x[1])])).conv(),
        op("le", vec![af::<F>(), af::<F>()], |n, s, x| f(vec![ar::le::<F, _>(x.f(0), x.f(1), n, s)?]), |x| is(vec![b(x[0] <= x[1])])).conv(),
        op("gt", vec![af::<F>(), af::<F>()], |n, s, x| f(vec![ar::gt::<F, _>(x.f(0), x.f(1), n, s)?]), |x| is(vec![b(x[0] > x[1])])).conv(),
        op("ge", vec![af::<F>(), af::<F>()], |n, s, x| {
            let g = ar::ge_bit::<F, _>(x.f(0), x.f(1), n, s)?;
            Ok(vec![vf(ar::ge::<F, _>(x.f(0), x.f(1), n, s)?), vb(g)])
        }, |x| is(vec![b(x[0] >= x[1]); 2])).conv(),
        op("lt_public", vec![af::<F>(), pf::<F>()], |n, s, x| f(vec![ar::lt_public::<F, _>(x.f(0), x.pf(1), n, s)?]), |x| is(vec![b(x[0] < x[1])])).conv(),
        op("le_public", vec![af::<F>(), pf::<F>()], |n, s, x| {
            let g = ar::le_public_bit::<F, _>(x.f(0), x.pf(1), n, s)?;
            Ok(vec![vf(ar::le_public::<F, _>(x.f(0), x.pf(1), n, s)?), vb(g)])
        }, |x| is(vec![b(x[0] <= x[1]); 2])).conv(),
        op("gt_public", vec![af::<F>(), pf::<F>()], |n, s, x| f(vec![ar::gt_public::<F, _>(x.f(0), x.pf(1), n, s)?]), |x| is(vec![b(x[0] > x[1])])).conv(),
        op("ge_public", vec![af::<F>(), pf::<F>()], |n, s, x| {
            let g = ar::ge_public_bit::<F, _>(x.f(0), x.pf(1), n, s)?;
            Ok(vec![vf(ar::ge_public::<F, _>(x.f(0), x.pf(1), n, s)?), vb(g)])
        }, |x| is(vec![b(x[0] >= x[1]); 2])).conv(),
        op("eq", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (a, c) = (x.f::<F>(0), x.f::<F>(1));
            let mut r = vec![vf(ar::eq(a, c, n, s)?), vb(ar::eq_bit(a, c, n, s)?), vf(ar::neq(a, c, n, s)?)];
            r.extend(ar::eq_many(&[a, a, c], &[c, a, a], n, s)?.into_iter().map(vf));
            r.extend(vbs(ar::eq_bit_many(&[a, c], &[c, c], n, s)?));
            r.extend(vbs(ar::eq_bit_many::<F, _>(&[], &[], n, s)?));
            Ok(r)
        }, |x| {
            let e = b(x[0] == x[1]);
            is(vec![e, e, 1 - e, e, 1, e, e, 1])
        }).conv(),
        op("eq_public", vec![af::<F>(), pf::<F>()], |n, s, x| {
            let (a, c) = (x.f::<F>(0), x.pf::<F>(1));
            let mut r = vec![vf(ar::eq_public(a, c, n, s)?), vb(ar::eq_bit_public(a, c, n, s)?), vf(ar::neq_public(a, c, n, s)?)];
            r.extend(ar::eq_public_many(&[a, a], &[c, F::zero()], n, s)?.into_iter().map(vf));
            r.extend(vbs(ar::eq_bit_public_many(&[a, a], &[F::one(), c], n, s)?));
            Ok(r)
        }, |x| {
            let e = b(x[0] == x[1]);
            is(vec![e, e, 1 - e, e, b(x[0] == 0), b(x[0] == 1), e])
        }).conv(),
        op("is_zero", vec![af::<F>()], |n, s, x| Ok(vec![vo(ar::is_zero::<F, _>(x.f(0), n, s)? as u128)]), |x| is(vec![b(x[0] == 0)])).conv(),
        op("eq-lengths", vec![af::<F>()], |n, s, x| {
            let a = x.f::<F>(0);
            if ar::eq_many(&[a, a], &[a], n, s).is_ok() || ar::eq_bit_many(&[a], &[a, a], n, s).is_ok() || ar::eq_public_many(&[a], &[], n, s).is_ok() {
                return Ok(vec![]);
            }
            f(vec![ar::eq_bit_public_many(&[], &[F::one()], n, s)?.into_iter().map(|_| a).next().unwrap_or(a)])
        }, |_| Want::Refuse).conv(),
    ]
}

fn c1<C: Tiny>(v: Vec<PS<C>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vc).collect())
}
pub fn point_ops<C: Tiny>() -> Vec<Op> {
    let p = pm::<C::ScalarField>();
    let m = move |x: u128| x % p;
    let pub_pt = || public(0..p);
    let g = |x: &Args, i: usize| C::nth(x.o(i) as u64);
    vec![
        op("point-scalar_mul", vec![pt::<C>(), af::<C::ScalarField>()], |n, s, x| c1::<C>(vec![pt::scalar_mul(&x.c(0), x.f(1), n, s)?]), move |x| is(vec![m(x[0] * x[1])])),
        op("point-scalar_mul_many", vec![pt::<C>(), af::<C::ScalarField>(), af::<C::ScalarField>()], |n, s, x| {
            let (a, b, d) = (x.c::<C>(0), x.f(1), x.f(2));
            let mut r = pt::scalar_mul_many(&[a, a, a], &[b, d, b], n, s)?;
            r.extend(pt::scalar_mul_many::<C, _>(&[], &[], n, s)?);
            c1(r)
        }, move |x| is(vec![m(x[0] * x[1]), m(x[0] * x[2]), m(x[0] * x[1])])),
        op("point-scalar_mul_local", vec![pt::<C>(), af::<C::ScalarField>()], |n, s, x| {
            let l = pt::scalar_mul_local(&x.c::<C>(0), x.f(1), s);
            Ok(vec![vo(pt::open_half_point(l, n)?.log() as u128)])
        }, move |x| is(vec![m(x[0] * x[1])])),
        op("point-open", vec![pt::<C>(), pt::<C>(), af::<C::ScalarField>()], |n, _, x| {
            let (a, b, d) = (x.c::<C>(0), x.c::<C>(1), x.f::<C::ScalarField>(2));
            let mut o = vec![pt::open_point(&a, n)?.log() as u128];
            o.extend(pt::open_point_many(&[a, b, a], n)?.iter().map(|x| x.log() as u128));
            o.extend(pt::open_point_many::<C, _>(&[], n)?.iter().map(|x| x.log() as u128));
            let (e, h) = pt::open_point_and_field(&b, &d, n)?;
            o.push(e.log() as u128);
            o.push(num(h));
            let (e, h) = pt::open_point_and_field_many(&[a, b], &[d], n)?;
            o.extend(e.iter().map(|x| x.log() as u128));
            o.extend(h.into_iter().map(num));
            Ok(o.into_iter().map(vo).collect())
        }, |x| is(vec![x[0], x[0], x[1], x[0], x[1], x[2], x[0], x[1], x[2]])),
        op("point-linear", vec![pt::<C>(), pt::<C>(), pub_pt(), pf::<C::ScalarField>()], move |_, s, x| {
            let (a, b, d, k) = (x.c::<C>(0), x.c::<C>(1), g(x, 2), x.pf::<C::ScalarField>(3));
            let (mut e, mut h, mut i, mut j) = (a, a, a, a);
            pt::add_assign(&mut e, &b);
            pt::sub_assign(&mut h, &b);
            pt::add_assign_public(&mut i, &d, s.id);
            pt::sub_assign_public(&mut j, &d, s.id);
            c1(vec![pt::add(&a, &b), pt::sub(&a, &b), e, h, i, j, pt::scalar_mul_public_scalar(&a, k), pt::promote_to_trivial_share(s.id, &d)])
        }, move |x| {
            let (add, sub) = (m(x[0] + x[1]), m(x[0] + p - x[1]));
            is(vec![add, sub, add, sub, m(x[0] + x[2]), m(x[0] + p - x[2]), m(x[0] * x[3]), x[2]])
        }),
        op("point-scalar_mul_public_point", vec![af::<C::ScalarField>(), pub_pt()], move |_, _, x| c1(vec![pt::scalar_mul_public_point(&g(x, 1), x.f(0))]), move |x| is(vec![m(x[0] * x[1])])),
    ]
}
pub fn msm_ops<S, C>() -> Vec<Op>
where
    C: Tiny + CurveGroup<Config = S, Affine = ark_ec::short_weierstrass::Affine<S>>,
    S: ark_ec::short_weierstrass::SWCurveConfig<ScalarField = C::ScalarField>,
{
    let p = pm::<C::ScalarField>();
    vec![
        op("point-msm", vec![af::<C::ScalarField>(), af::<C::ScalarField>(), public(0..p)], |_, _, x| {
            let pts: Vec<C::Affine> = [x.o(2) as u64, 1, 3].map(|i| C::nth(i).into_affine()).to_vec();
            let sc = [x.f(0), x.f(1), x.f(0)];
            c1::<C>(vec![pt::msm_public_points::<C, S>(&pts, &sc), pt::msm_public_points::<C, S>(&pts[..1], &sc[..1]), pt::msm_public_points::<C, S>(&[], &[])])
        }, move |x| is(vec![(x[0] * x[2] + x[1] + 3 * x[0]) % p, x[0] * x[2] % p, 0])),
    ]
}

/// Evaluation of a shared polynomial at a public point.
fn polys<F: FieldUint>(c: &Check, lens: &[usize]) {
    for &len in lens {
        let name = format!("poly-{len}-p{}", pm::<F>());
        if !c.selected(&name) || c.failed() {
            continue;
        }
        let p = pm::<F>();
        c.at(&name);
        c.no_panic(&name, || format!("polynomial with {len} coefficients"), || {
            let few = len <= 3;
            let n = if few { p.pow(len as u32) as u64 } else { 3 };
            for w in 0..n {
                let co: Vec<u128> = (0..len).map(|i| if few { w as u128 / p.pow(i as u32) % p } else { mix(w, i as u64, 5) as u128 % p }).collect();
                for at in 0..p {
                    let shares: Vec<[u128; 3]> = co.iter().enumerate().map(|(i, v)| parts(&af::<F>(), *v, 2, w, i as u64)).collect();
                    let got: Vec<V> = (0..3)
                        .map(|i| {
                            let s: Vec<FS<F>> = shares.iter().map(|s| { let h = hold(K::F(p), s, i); FS::new(fld(h.a), fld(h.b)) }).collect();
                            vf(poly::eval_poly(&s, fld(at)))
                        })
                        .collect();
                    let want = co.iter().rev().fold(0, |r, x| (r * at + x) % p);
                    let v = value([got[0], got[1], got[2]]);
                    if v != Ok(want) {
                        c.violation(&name, &format!("evaluates to {v:?} instead of {want} at {at}"), json!({"coefficients": co.iter().take(8).map(|x| *x as u64).collect::<Vec<_>>(), "point": at as u64}));
                        return;
                    }
                    c.count(1, 0);
                }
            }
        });
    }
}

/// Sharing and combining, and the compressed forms.
fn sharing<F: FieldUint>(c: &Check) {
    let p = pm::<F>();
    let name = format!("sharing-p{p}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let own = |s: &[FS<F>; 3]| value([vf(s[0]), vf(s[1]), vf(s[2])]);
    let ok = |what: &str, v: &[u128], good: bool| c.expect(good, &name, || format!("{what} of {v:?}"));
    for a in 0..p {
        // All randomness of the sharing of one element; every pair of parts once per value.
        let mut seen = BTreeMap::new();
        all_tapes(p as u64, 100_000, |rng| {
            let s = rep3::share_field_element::<F, _>(fld(a), rng);
            if rng.used().len() == 2 {
                *seen.entry((num(s[0].a), num(s[0].b))).or_insert(0) += 1;
            }
            ok("share_field_element", &[a], own(&s) == Ok(a) && rep3::combine_field_element(s[0], s[1], s[2]) == fld(a));
            let s = rep3::share_field_element_additive::<F, _>(fld(a), &mut ListRng::new(rng.used()));
            ok("share_field_element_additive", &[a], s.iter().sum::<F>() == fld(a));
            c.count(1, 0);
        });
        ok("share_field_element is not uniform: sharing", &[a], seen.len() == (p * p) as usize);
        for b in 0..p {
            for salt in 0..q(4, 50) {
                let vals: Vec<F> = vec![fld(a), fld(b), fld(a)];
                let rng = &mut rand_chacha_rng(salt);
                let w = [a, b, a];
                let combos: Vec<(&str, [Vec<FS<F>>; 3])> = vec![
                    ("share_field_elements", rep3::share_field_elements(&vals, rng)),
                    ("share_field_elements_seeded", rep3::share_field_elements_seeded::<F, _, rep3::SeedRng>(&vals, rng).map(|s| {
                        ok("length", &w, s.length().ok() == Some(3));
                        s.expand_vec().expect("expands")
                    })),
                    ("share_field_element_seeded", rep3::share_field_element_seeded::<F, _, rep3::SeedRng>(vals[0], rng).map(|s| {
                        let x = s.expand();
                        vec![x]
                    })),
                ];
                for (what, s) in combos {
                    for k in 0..s[0].len() {
                        ok(what, &w, own(&[s[0][k], s[1][k], s[2][k]]) == Ok(w[k]));
                    }
                    ok(what, &w, rep3::combine_field_elements(&s[0], &s[1], &s[2]) == vals[..s[0].len()]);
                }
                let s = rep3::share_field_elements_additive(&vals, rng);
                ok("share_field_elements_additive", &w, (0..3).all(|k| s[0][k] + s[1][k] + s[2][k] == vals[k]));
                let s = rep3::share_field_elements_additive_seeded::<F, _, rep3::SeedRng>(&vals, rng).map(|s| s.expand_vec());
                ok("share_field_elements_additive_seeded", &w, (0..3).all(|k| s[0][k] + s[1][k] + s[2][k] == vals[k]));
                let s = rep3::share_field_element_additive_seeded::<F, _, rep3::SeedRng>(vals[1], rng).map(|s| s.expand());
                ok("share_field_element_additive_seeded", &w, s[0] + s[1] + s[2] == vals[1]);
                let maybe = vec![Some(vals[0]), None, Some(vals[1])];
                let s = rep3::share_maybe_field_elements(&maybe, rng);
                ok("share_maybe_field_elements", &w, (0..3).all(|k| match (s[0][k], s[1][k], s[2][k]) {
                    (None, None, None) => k == 1,
                    (Some(x), Some(y), Some(z)) => k != 1 && own(&[x, y, z]) == Ok([a, 0, b][k]),
                    _ => false,
                }));
                let s = rep3::share_maybe_field_elements_additive(&maybe, rng);
                ok("share_maybe_field_elements_additive", &w, (0..3).all(|k| match (s[0][k], s[1][k], s[2][k]) {
                    (None, None, None) => k == 1,
                    (Some(x), Some(y), Some(z)) => k != 1 && num(x + y + z) == [a, 0, b][k],
                    _ => false,
                }));
                let s = rep3::share_binary::<F, _>(vals[0], rng);
                ok("share_binary", &w, value([vb(s[0]), vb(s[1]), vb(s[2])]) == Ok(a) && unum(&rep3::combine_binary_element(s[0], s[1], s[2])) == a);
                let t = rep3::share_binary::<F, _>(vals[1], rng);
                let o = rep3::combine_binary_elements(&[s[0], t[0]], &[s[1], t[1]], &[s[2], t[2]]);
                ok("combine_binary_elements", &w, o.iter().map(unum).collect::<Vec<_>>() == [a, b]);
                c.count(1, 0);
            }
        }
    }
}
fn sharing_points<C: Tiny>(c: &Check) {
    let p = pm::<C::ScalarField>();
    let name = format!("sharing-points-{p}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for a in 0..p {
        for salt in 0..q(20, 400) {
            let rng = &mut rand_chacha_rng(salt);
            let x = C::nth(a as u64);
            let s = rep3::share_curve_point(x, rng);
            c.expect(value([vc(s[0]), vc(s[1]), vc(s[2])]) == Ok(a) && rep3::combine_curve_point(s[0], s[1], s[2]) == x, &name, || format!("share_curve_point of {a}"));
            let s = rep3::share_curve_points(&[x, C::zero(), x], rng);
            c.expect(rep3::combine_curve_points(&s[0], &s[1], &s[2]) == [x, C::zero(), x], &name, || format!("share_curve_points of {a}"));
            c.count(2, 0);
        }
    }
}
pub fn rand_chacha_rng(salt: u64) -> rand_chacha::ChaCha12Rng {
    use rand::SeedableRng;
    let mut s = [3u8; 32];
    s[..8].copy_from_slice(&salt.to_le_bytes());
    rand_chacha::ChaCha12Rng::from_seed(s)
}

fn group(c: &Check, ops: Vec<Op>, label: String, salts: std::ops::Range<u64>, dev: u32) {
    parallel(c, ops, |c, o| exhaust(c, &o, &label, salts.clone(), 200, dev));
}
pub fn main() {
    let c = Check::new("R03");
    fn all<F: FieldUint>(c: &Check, salts: u64, dev: u32) {
        let mut o = field_ops::<F>();
        o.extend(compare_ops::<F>());
        group(c, o, format!("p{}", pm::<F>()), 0..salts, dev);
    }
    all::<F3>(&c, q(6, 40), 2);
    all::<F5>(&c, q(5, 40), 2);
    all::<F7>(&c, q(3, 30), q(0, 2));
    all::<F11>(&c, q(2, 20), 0);
    if thorough() {
        all::<F13>(&c, 10, 0);
        all::<F17>(&c, 10, 0);
    }
    fn points<C: Tiny>(c: &Check) {
        group(c, point_ops::<C>(), format!("group{}", pm::<C::ScalarField>()), 2..q(5, 30), 1);
    }
    points::<G5>(&c);
    points::<G7>(&c);
    group(&c, msm_ops::<E5, G5>(), "group5".into(), 2..q(5, 20), 0);
    group(&c, msm_ops::<E13, G13>(), "group13".into(), 2..q(3, 8), 0);
    polys::<F3>(&c, &[1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257]);
    polys::<F7>(&c, &[1, 2, 3, 16, 17, 100]);
    sharing::<F5>(&c);
    sharing::<F7>(&c);
    sharing_points::<G7>(&c);
    c.finish()
}
