//! R05: operations on binary shares and conversions between arithmetic, binary and Yao shares.
use crate::ops::*;
use mpc_core::protocols::rep3::{arithmetic as ar, binary as bi, conversion as cv, pointshare as pt};

fn b<F: FieldUint>(v: Vec<US<F>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vb).collect())
}
fn f<F: PrimeField>(v: Vec<FS<F>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vf).collect())
}

pub fn binary_ops<F: FieldUint>() -> Vec<Op> {
    let k = bits::<F>();
    let p = pm::<F>();
    let all = mask(k);
    let words = public(0..=all);
    let mut v = vec![
        op("and", vec![bw::<F>(), bw::<F>()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b::<F>(1));
            let mut r = vec![bi::and(&u, &w, n, s)?, bi::or(&u, &w, n, s)?, bi::xor(&u, &w), u ^ w];
            r.extend(bi::and_vec(&[u, w, u], &[w, w, u], n, s)?);
            r.extend(bi::and_vec::<F, _>(&[], &[], n, s)?);
            b(r)
        }, |x| is(vec![x[0] & x[1], x[0] | x[1], x[0] ^ x[1], x[0] ^ x[1], x[0] & x[1], x[1], x[0]])),
        op("and-of-results", vec![bw::<F>(), bw::<F>()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b::<F>(1));
            let a = bi::or(&u, &w, n, s)?;
            let c = bi::and(&a, &(a ^ u), n, s)?;
            b(vec![c, bi::and(&c, &w, n, s)?])
        }, |x| {
            let a = x[0] | x[1];
            let c = a & (a ^ x[0]);
            is(vec![c, c & x[1]])
        }),
        op("binary-public", vec![bw::<F>(), words.clone()], |_, s, x| {
            let (u, w) = (x.b::<F>(0), x.pu::<F>(1));
            let mut r = vec![bi::xor_public(&u, &w, s.id), bi::or_public(&u, &w, s.id), bi::and_with_public(&u, &w), bi::promote_to_trivial_share::<F>(s.id, &w)];
            r.extend(bi::xor_public_vec(&[u, r[1]], &[w, w], s.id));
            b(r)
        }, |x| is(vec![x[0] ^ x[1], x[0] | x[1], x[0] & x[1], x[1], x[0] ^ x[1], (x[0] | x[1]) ^ x[1]])),
        op("shift_r_public", vec![bw::<F>(), pf::<F>()], |_, _, x| b(vec![bi::shift_r_public::<F>(&x.b(0), x.pf(1))]), |x| is(vec![if x[1] > 127 { 0 } else { x[0] >> x[1] }])),
        op("shift_l_public", vec![bw::<F>(), public(0..(k as u128).min(p))], |_, _, x| b(vec![bi::shift_l_public::<F>(&x.b(0), x.pf(1))]), |x| is(vec![x[0] << x[1]])),
        op("binary-open", vec![bw::<F>()], |n, _, x| Ok(vec![ou(bi::open::<F, _>(&x.b(0), n)?)]), |x| is(vec![x[0]])),
        op("binary-cmux-bit", vec![b1(), b1(), b1()], |n, s, x| {
            let (c, u, w) = (x.b::<F>(0), x.b(1), x.b(2));
            let mut r = vec![bi::cmux(&c, &u, &w, n, s)?];
            r.extend(bi::cmux_many(&[c, u, c], &[u, w, w], &[w, c, u], n, s)?);
            r.extend(bi::cmux_many::<F, _>(&[], &[], &[], n, s)?);
            b(r)
        }, |x| {
            let m = |c: u128, t, f| if c == 1 { t } else { f };
            is(vec![m(x[0], x[1], x[2]), m(x[0], x[1], x[2]), m(x[1], x[2], x[0]), m(x[0], x[2], x[1])])
        }),
        op("binary-cmux-word", vec![In { k: K::B, vals: vec![0, all], bits: k }, bw::<F>(), bw::<F>()], |n, s, x| {
            let (c, u, w) = (x.b::<F>(0), x.b(1), x.b(2));
            let mut r = vec![bi::cmux(&c, &u, &w, n, s)?];
            r.extend(bi::cmux_many(&[c, c], &[u, w], &[w, u], n, s)?);
            b(r)
        }, |x| if x[0] == 0 { is(vec![x[2], x[2], x[1]]) } else { is(vec![x[1], x[1], x[2]]) }),
        op("binary-is_zero", vec![bw::<F>(), bw::<F>()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b(1));
            let mut r = vec![bi::is_zero(&u, n, s)?];
            r.extend(bi::is_zero_many(vec![u, w, u], n, s)?);
            r.extend(bi::is_zero_many::<F, _>(vec![], n, s)?);
            b(r)
        }, |x| is([x[0], x[0], x[1], x[0]].map(|x| (x == 0) as u128).to_vec())),
        op("shift_l_public_by_shared", vec![pf::<F>(), bp::<F>()], |n, s, x| f(vec![bi::shift_l_public_by_shared::<F, _>(x.pf(0), &x.b(1), n, s)?]), move |x| {
            is(vec![(0..x[1]).fold(x[0], |r, _| r * 2 % p)])
        }).conv(),
    ];
    for len in 1..=q(5, 9usize) {
        v.push(op(&format!("or_tree-{len}"), vec![b1(); len], |n, s, x| {
            let i = (0..x.s.len()).map(|i| x.b::<F>(i)).collect();
            b(vec![bi::or_tree(i, n, s)?])
        }, |x| is(vec![x.iter().fold(0, |a, b| a | b)])));
    }
    v
}

pub fn conversions<F: FieldUint>() -> Vec<Op> {
    vec![
        op("a2b", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (u, w) = (x.f::<F>(0), x.f(1));
            let mut r = vec![cv::a2b(u, n, s)?];
            r.extend(cv::a2b_many(&[u, w, u], n, s)?);
            r.extend(cv::a2b_many::<F, _>(&[], n, s)?);
            b(r)
        }, |x| is(vec![x[0], x[0], x[1], x[0]])),
        op("a2y2b", vec![af::<F>(), af::<F>()], |n, s, x| {
            let (u, w) = (x.f::<F>(0), x.f(1));
            let mut r = vec![cv::a2y2b(u, n, s)?, cv::a2y2b_streaming(w, n, s)?];
            r.extend(cv::a2y2b_many(&[u, w, u], n, s)?);
            b(r)
        }, |x| is(vec![x[0], x[1], x[0], x[1], x[0]])),
        op("b2a", vec![bp::<F>(), bp::<F>()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b(1));
            let mut r = vec![cv::b2a(&u, n, s)?];
            r.extend(cv::b2a_many(&[u, w, u], n, s)?);
            r.extend(cv::b2a_many::<F, _>(&[], n, s)?);
            f(r)
        }, |x| is(vec![x[0], x[0], x[1], x[0]])),
        op("b2y2a", vec![bp::<F>(), bp::<F>()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b(1));
            f(vec![cv::b2y2a(&u, n, s)?, cv::b2y2a_streaming(&w, n, s)?])
        }, |x| is(vec![x[0], x[1]])),
        op("selector", vec![af::<F>(), bp::<F>()], |n, s, x| Ok(vec![vb(cv::a2b_selector::<F, _>(x.f(0), n, s)?), vf(cv::b2a_selector::<F, _>(&x.b(1), n, s)?)]), |x| is(vec![x[0], x[1]])).conv(),
        op("bit_inject", vec![b1(), b1()], |n, s, x| {
            let (u, w) = (x.b::<F>(0), x.b::<F>(1));
            let mut r = vec![cv::bit_inject(&u, n, s)?, cv::bit_inject_from_bits((w.a.bit(0), w.b.bit(0)), n, s)?];
            r.extend(cv::bit_inject_many(&[u, w, u], n, s)?);
            r.extend(cv::bit_inject_many::<F, _>(&[], n, s)?);
            f(r)
        }, |x| is(vec![x[0], x[1], x[0], x[1], x[0]])),
        op("round-trips", vec![af::<F>(), bp::<F>()], |n, s, x| {
            let u = cv::a2b_selector::<F, _>(x.f(0), n, s)?;
            let w = cv::b2a_selector::<F, _>(&x.b(1), n, s)?;
            let m = ar::mul(cv::b2a_selector(&u, n, s)?, w, n, s)?;
            let o = bi::and(&u, &cv::a2b_selector(w, n, s)?, n, s)?;
            Ok(vec![vf(m), vb(o)])
        }, |x| is(vec![x[0] * x[1] % pm::<F>(), x[0] & x[1]])).conv(),
        op("yao-shared-delta", vec![af::<F>(), bp::<F>()], |n, s, x| {
            // Several values under one delta, in both directions.
            let delta = s.rngs.generate_random_garbler_delta(s.id);
            let y = cv::a2y::<F, _>(x.f(0), delta, n, s)?;
            let z = cv::b2y::<F, _>(&x.b(1), delta, n, s)?;
            let y2 = cv::a2y_streaming::<F, _>(x.f(0), delta, n, s)?;
            let ys = cv::a2y_many::<F, _>(&[x.f(0), x.f(0)], delta, n, s)?;
            let mut r = vec![vb(cv::y2b::<F, _>(y.clone(), n, s)?), vf(cv::y2a::<F, _>(z, delta, n, s)?), vf(cv::y2a_streaming::<F, _>(y2, delta, n, s)?), vf(cv::y2a::<F, _>(y, delta, n, s)?)];
            r.extend(cv::y2b_many::<F, _>(ys, n, s)?.into_iter().map(vb));
            Ok(r)
        }, |x| is(vec![x[0], x[1], x[0], x[0], x[0], x[0]])),
    ]
}

/// Points and their coordinates, on a real curve: the values listed, and pairs of them.
fn points<C>(jobs: &mut Vec<Job>, label: &'static str, salts: std::ops::Range<u64>)
where
    C: CurveGroup,
    C::BaseField: FieldUint + PrimeField,
{
    let nth = |i: u128| -> C {
        let m = (i / 2) as u64;
        let g = C::generator() * C::ScalarField::from(m);
        if i % 2 == 0 { g } else { -g }
    };
    // 0, G, -G, 2G, -2G, ...
    let vals: Vec<u128> = [0, 2, 3, 4, 5].into_iter().chain(q(vec![], vec![6, 7, 20, 41])).collect();
    let deal = move |x: C, salt: u64, i: usize| -> PS<C> {
        let (a, d) = (C::generator() * C::ScalarField::from(mix(salt, 1, 9)), C::generator() * C::ScalarField::from(mix(salt, 2, 9)));
        let p = [a, d, x - a - d];
        PS::new(p[i], p[(i + 2) % 3])
    };
    let held = |x: &FS<C::BaseField>| -> V { V { k: K::H, a: hash(&x.a), b: hash(&x.b) } };
    let xy = move |x: C| x.into_affine().xy().unwrap_or_default();
    let mut v = vec![];
    for salt in salts {
        v.push(op(&format!("point-to-coordinates-{label}-{salt}"), vec![public(vals.clone()), public(vals.clone())], move |n, s, x| {
            let i: usize = s.id.into();
            let w = [nth(x.o(0)), nth(x.o(1))];
            let sh = [deal(w[0], salt, i), deal(w[1], salt + 50, i)];
            let one = cv::point_share_to_fieldshares(sh[0], n, s)?;
            let many = cv::point_share_to_fieldshares_many(&[sh[0], sh[1]], n, s)?;
            let mut out = vec![];
            for (k, (px, py, inf)) in [(0, one), (0, (many.0[0], many.1[0], many.2[0])), (1, (many.0[1], many.1[1], many.2[1]))] {
                out.extend([held(&px), held(&py), held(&inf)]);
                let (ox, oy, oi) = (ar::open(px, n)?, ar::open(py, n)?, ar::open(inf, n)?);
                let z = w[k].is_zero();
                out.push(vo((oi == C::BaseField::from(z as u64) && (z || (ox, oy) == xy(w[k]))) as u128));
            }
            // is_zero of a point
            let z = pt::is_zero(sh[0], n, s)?;
            let zs = pt::is_zero_many(&[sh[0], sh[1]], n, s)?;
            for z in [z, zs[0], zs[1]] {
                out.push(vb::<F3>(US::new(uint(z.0 as u128), uint(z.1 as u128))));
            }
            Ok(out)
        }, |x| {
            let z = |i: usize| (x[i] / 2 == 0) as u128;
            is(vec![0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, z(0), z(0), z(1)])
        }));
        v.push(op(&format!("coordinates-to-point-{label}-{salt}"), vec![public(vals.clone()), public(vals.clone())], move |n, s, x| {
            let i: usize = s.id.into();
            let w = [nth(x.o(0)), nth(x.o(1))];
            let mut nr = 0;
            let mut sf = |v: C::BaseField| -> FS<C::BaseField> {
                nr += 1;
                let (a, d) = (C::BaseField::from(mix(salt, nr, 3)), C::BaseField::from(mix(salt, nr, 4)));
                let p = [a, d, v - a - d];
                FS::new(p[i], p[(i + 2) % 3])
            };
            let mut co = |w: C| {
                let (px, py) = xy(w);
                (sf(px), sf(py), sf(C::BaseField::from(w.is_zero() as u64)))
            };
            let (u, v) = (co(w[0]), co(w[1]));
            let mut r = vec![cv::fieldshares_to_pointshare::<C, _>(u.0, u.1, u.2, n, s)?];
            r.extend(cv::fieldshares_to_pointshare_many::<C, _>(&[u.0, v.0], &[u.1, v.1], &[u.2, v.2], n, s)?);
            let mut out = vec![];
            for (k, r) in [(0, r[0]), (0, r[1]), (1, r[2])] {
                out.push(V { k: K::H, a: hash(&r.a), b: hash(&r.b) });
                out.push(vo((pt::open_point(&r, n)? == w[k]) as u128));
            }
            Ok(out)
        }, |_| is(vec![0, 1, 0, 1, 0, 1])));
    }
    for o in v {
        jobs.push(Box::new(move |c| exhaust(c, &o, label, 2..3, 9, 0)));
    }
}
fn hash<T: ark_serialize::CanonicalSerialize>(x: &T) -> u128 {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    b.iter().fold(0, |h: u128, b| (h ^ *b as u128).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835).rotate_left(29))
}

pub type Job = Box<dyn FnOnce(&Check) + Send>;

pub fn main() {
    let c = Check::new("R05");
    fn all<F: FieldUint>(jobs: &mut Vec<Job>, salts: u64, dev: u32) {
        let label = format!("p{}", pm::<F>());
        let mut o = binary_ops::<F>();
        o.extend(conversions::<F>());
        for o in o {
            let label = label.clone();
            jobs.push(Box::new(move |c| exhaust(c, &o, &label, 0..salts, 100, dev)));
        }
    }
    // Wider words: every value of one input.
    fn wide<F: FieldUint>(jobs: &mut Vec<Job>, salts: u64) {
        let label = format!("p{}", pm::<F>());
        let some = |i: In| In { vals: i.vals.iter().copied().filter(|v| *v < 2 || v.count_ones() + 1 >= bits::<F>()).collect(), ..i };
        for mut o in conversions::<F>() {
            if o.ins.len() == 2 && (thorough() || !o.name.starts_with("yao-shared")) {
                o.ins[1] = some(o.ins[1].clone());
                let label = label.clone();
                jobs.push(Box::new(move |c| exhaust(c, &o, &label, 2..2 + salts, 100, 0)));
            }
        }
    }
    let mut jobs: Vec<Job> = vec![];
    wide::<F251>(&mut jobs, q(1, 8));
    wide::<F257>(&mut jobs, q(1, 8));
    all::<F17>(&mut jobs, q(2, 10), 0);
    all::<F13>(&mut jobs, q(3, 20), 0);
    all::<F11>(&mut jobs, q(3, 20), 0);
    all::<F7>(&mut jobs, q(4, 40), 0);
    points::<ark_bn254::G1Projective>(&mut jobs, "bn254", 2..q(4, 12));
    points::<ark_grumpkin::Projective>(&mut jobs, "grumpkin", 2..q(3, 12));
    all::<F5>(&mut jobs, q(4, 40), 2);
    all::<F3>(&mut jobs, q(5, 40), 2);
    parallel(&c, jobs, |c, j| j(c));
    c.finish()
}
