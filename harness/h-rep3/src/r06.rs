//! R06: arithmetic, binary operations, comparisons, conversions and casts of shares over rings
//! of integers modulo 2^k.
use crate::ops::*;
use crate::r05::Job;
use mpc_core::protocols::rep3_ring::{self as rr, arithmetic as ar, binary as bi, casts, conversion as cv};
use num_traits::AsPrimitive;
use rand::distributions::{Distribution, Standard};

fn r<T: Rt>(v: Vec<RS<T>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vr).collect())
}
fn x<T: Rt>(v: Vec<RS<T>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vx).collect())
}
fn o<T: Rt>(v: RingElement<T>) -> V {
    vo(v.0.to())
}
fn pe<T: Rt>(a: &Args, i: usize) -> RingElement<T> {
    RingElement(T::of(a.o(i)))
}

/// Every value of a byte or bit; the interesting ones of wider rings.
fn all<T: Rt>() -> Vec<u128> {
    if T::K <= 8 { (0..=mask(T::K as u32)).collect() } else { some::<T>() }
}
fn some<T: Rt>() -> Vec<u128> {
    let k = T::K as u32;
    if k == 1 {
        return vec![0, 1];
    }
    let m = mask(k);
    let mut v = vec![0, 1, 2, 3, m, m - 1, 1 << (k - 1), (1 << (k - 1)) - 1, m / 3, m / 3 * 2, (1 << (k / 2)) + 1];
    if crate::prelude::thorough() {
        v.extend([(1 << (k - 1)) + 1, m ^ (1 << (k / 2)), 5, 10, 1 << (k / 2), 1 << (k - 2), m / 5, m / 7]);
    }
    v.iter_mut().for_each(|x| *x &= m);
    v.sort();
    v.dedup();
    v
}

fn ops<T: Rt>() -> Vec<Op>
where
    Standard: Distribution<T>,
{
    let k = T::K as u32;
    let m = mask(k);
    let few = || ring::<T>(some::<T>());
    let fewx = || ringx::<T>(some::<T>());
    let any = || ring::<T>(all::<T>());
    let anyx = || ringx::<T>(all::<T>());
    let pubs = || public(some::<T>());
    let mul = move |a: u128, b: u128| a.wrapping_mul(b) & m;
    let add = move |a: u128, b: u128| a.wrapping_add(b) & m;
    let sub = move |a: u128, b: u128| a.wrapping_sub(b) & m;
    let mut v = vec![
        op("local", vec![few(), few(), pubs()], |_, s, a| {
            let (u, w, p) = (a.r::<T>(0), a.r::<T>(1), pe::<T>(a, 2));
            let (mut u2, mut u3, mut u4, mut u5, mut u6) = (u, u, u, vec![u, w], vec![u, w]);
            ar::add_assign(&mut u2, w);
            ar::sub_assign(&mut u3, w);
            ar::add_assign_public(&mut u4, p, s.id);
            ar::add_vec_assign(&mut u5, &[w, u]);
            ar::sub_vec_assign(&mut u6, &[w, u]);
            let mut u7 = u;
            ar::mul_assign_public(&mut u7, p);
            let mut u8_ = u;
            u8_.double();
            let mut res = vec![ar::add(u, w), ar::sub(u, w), ar::neg(u), u2, u3, ar::add_public(u, p, s.id), u4, ar::sub_shared_by_public(u, p, s.id), ar::sub_public_by_shared(p, u, s.id), ar::mul_public(u, p), u7,
                ar::add_mul_public(u, w, p), ar::promote_to_trivial_share(s.id, p), RS::promote_from_trivial(&p, s.id), u8_, &u + &w, &u - &w, -u, u * p];
            res.extend(u5);
            res.extend(u6);
            r(res)
        }, move |x| {
            let (u, w, p) = (x[0], x[1], x[2]);
            is(vec![add(u, w), sub(u, w), sub(0, u), add(u, w), sub(u, w), add(u, p), add(u, p), sub(u, p), sub(p, u), mul(u, p), mul(u, p), add(u, mul(w, p)), p, p, add(u, u), add(u, w), sub(u, w), sub(0, u), mul(u, p), add(u, w), add(u, w), sub(u, w), sub(w, u)])
        }),
        op("mul", vec![few(), few()], |n, s, a| {
            let (u, w) = (a.r::<T>(0), a.r::<T>(1));
            let mut res = vec![ar::mul(u, w, n, s)?, ar::add_mul(u, u, w, n, s)?];
            res.extend(ar::mul_vec(&[u, w, u], &[w, w, u], n, s)?);
            res.extend(ar::mul_vec::<T, _>(&[], &[], n, s)?);
            let l = ar::local_mul_vec(&[w, u], &[u, u], s);
            res.extend(ar::reshare_vec(l, n)?);
            let mut out = r(res)?;
            out.extend([o(ar::open(u, n)?), o(ar::mul_open(u, w, n, s)?)]);
            out.extend(ar::open_vec(&[u, w], n)?.into_iter().map(o));
            out.extend(ar::mul_open_vec(&[u, w], &[w, w], n, s)?.into_iter().map(o));
            Ok(out)
        }, move |x| {
            let (u, w) = (x[0], x[1]);
            let p = mul(u, w);
            is(vec![p, add(u, p), p, mul(w, w), mul(u, u), p, mul(u, u), u, p, u, w, p, mul(w, w)])
        }),
        op("product-of-results", vec![few(), few()], |n, s, a| {
            let (u, w) = (a.r::<T>(0), a.r::<T>(1));
            let c = ar::mul(ar::sub(ar::mul(u, w, n, s)?, u), w, n, s)?;
            let e = ar::rand::<T>(s);
            let f = ar::mul(ar::add(c, e), w, n, s)?;
            let g = ar::mul(e, w, n, s)?;
            Ok(vec![vr(c), o(ar::open(ar::sub(f, g), n)?)])
        }, move |x| {
            let c = mul(sub(mul(x[0], x[1]), x[0]), x[1]);
            is(vec![c, mul(c, x[1])])
        }),
        op("cmux", vec![ring::<T>(vec![0, 1]), few(), few()], |n, s, a| r(vec![ar::cmux(a.r::<T>(0), a.r(1), a.r(2), n, s)?]), |x| is(vec![if x[0] == 1 { x[1] } else { x[2] }])),
        op("arithmetic_xor", vec![ring::<T>(vec![0, 1]), ring::<T>(vec![0, 1])], |n, s, a| {
            let (u, w) = (a.r::<T>(0), a.r::<T>(1));
            let mut res = vec![ar::arithmetic_xor(u, w, n, s)?];
            res.extend(ar::arithmetic_xor_many(&[u, w, u], &[w, w, u], n, s)?);
            r(res)
        }, |x| is(vec![x[0] ^ x[1], x[0] ^ x[1], 0, 0])),
        op("pow_public", vec![few(), public(if k > 16 { vec![0, 1, 2, 3, 10, m & 0xff] } else { some::<T>() })], |n, s, a| r(vec![ar::pow_public(a.r::<T>(0), pe(a, 1), n, s)?]), move |x| {
            let (mut r, mut b, mut e) = (1 & m, x[0], x[1]);
            while e > 0 {
                if e & 1 == 1 {
                    r = mul(r, b);
                }
                b = mul(b, b);
                e >>= 1;
            }
            is(vec![r])
        }),
        op("shift", vec![any(), anyx(), public((0..k as u128).filter(|i| k < 32 || i % 7 == 0 || *i == k as u128 - 1))].into_iter().enumerate().map(|(i, mut a)| {
            if i < 2 && T::K == 8 {
                a.vals.retain(|v| v % 16 == 5 * i as u128 || v.count_ones() <= 1 || *v == 255);
            }
            a
        }).collect(), |_, s, a| {
            let (u, w, p) = (a.r::<T>(0), a.x::<T>(1), pe::<T>(a, 2));
            let _ = s;
            let n = a.o(2) as usize;
            Ok(vec![vr(ar::pow_2_public(u, p)), vx(bi::shift_l_public(&w, p)), vx(bi::shift_r_public(&w, p)), vx(w << n), vx(&w >> n), vx(RS::<T>::from_bit(w.get_bit(n)))])
        }, move |x| {
            let n = x[2] as u32;
            is(vec![(x[0] << n) & m, (x[1] << n) & m, x[1] >> n, (x[1] << n) & m, x[1] >> n, x[1] >> n & 1])
        }),
        op("binary", vec![fewx(), fewx(), pubs()], |n, s, a| {
            let (u, w, p) = (a.x::<T>(0), a.x::<T>(1), pe::<T>(a, 2));
            let mut q = u;
            q ^= w;
            q &= p;
            let mut res = vec![bi::xor(&u, &w), u ^ w, bi::xor_public(&u, &p, s.id), bi::or_public(&u, &p, s.id), bi::and_with_public(&u, &p), bi::promote_to_trivial_share(s.id, &p), q,
                bi::or(&u, &w, n, s)?, bi::and(&u, &w, n, s)?, bi::cmux(&u, &w, &u, n, s)?];
            res.extend(bi::and_vec(&[u, w, q], &[w, w, u], n, s)?);
            res.extend(bi::and_vec::<T, _>(&[], &[], n, s)?);
            let mut out = x(res)?;
            out.push(o(bi::open(&u, n)?));
            out.push(o(ar::open_bit(u, n)?));
            Ok(out)
        }, |x| {
            let (u, w, p) = (x[0], x[1], x[2]);
            let q = (u ^ w) & p;
            is(vec![u ^ w, u ^ w, u ^ p, u | p, u & p, p, q, u | w, u & w, (u & w) | (!u & u), u & w, w, q & u, u, u])
        }),
        op("binary-is_zero", vec![ringx::<T>(if k > 8 { (0..k as u128).map(|i| 1 << i).chain(some::<T>()).collect() } else { all::<T>() })], |n, s, a| x(vec![bi::is_zero(&a.x::<T>(0), n, s)?]), |x| is(vec![(x[0] == 0) as u128])),
    ];
    for len in 1..=5 {
        v.push(op(&format!("or_tree-{len}"), vec![ringx::<T>(vec![0, 1 & m, m]); len], |n, s, a| x(vec![bi::or_tree((0..a.s.len()).map(|i| a.x::<T>(i)).collect(), n, s)?]), |x| is(vec![x.iter().fold(0, |a, b| a | b)])));
    }
    v
}

/// Comparisons and conversions (rings of more than one bit).
fn compare<T: Rt>() -> Vec<Op>
where
    Standard: Distribution<T>,
{
    let few = || ring::<T>(some::<T>());
    let any = || ring::<T>(all::<T>());
    let anyx = || ringx::<T>(all::<T>());
    let b = |x: bool| x as u128;
    vec![
        op("compare", vec![few(), few()], |n, s, a| {
            let (u, w) = (a.r::<T>(0), a.r::<T>(1));
            let mut out = x(vec![ar::lt(u, w, n, s)?, ar::le(u, w, n, s)?, ar::gt(u, w, n, s)?, ar::ge(u, w, n, s)?, ar::eq(u, w, n, s)?, ar::neq(u, w, n, s)?])?;
            out.push(vo(ar::is_zero(u, n, s)? as u128));
            out.push(vo(ar::is_zero(ar::sub(u, w), n, s)? as u128));
            Ok(out)
        }, move |x| is(vec![b(x[0] < x[1]), b(x[0] <= x[1]), b(x[0] > x[1]), b(x[0] >= x[1]), b(x[0] == x[1]), b(x[0] != x[1]), b(x[0] == 0), b(x[0] == x[1])])),
        op("compare-public", vec![few(), public(some::<T>())], |n, s, a| {
            let (u, p) = (a.r::<T>(0), pe::<T>(a, 1));
            x(vec![ar::lt_public(u, p, n, s)?, ar::le_public(u, p, n, s)?, ar::gt_public(u, p, n, s)?, ar::ge_public(u, p, n, s)?, ar::eq_public(u, p, n, s)?, ar::neq_public(u, p, n, s)?])
        }, move |x| is(vec![b(x[0] < x[1]), b(x[0] <= x[1]), b(x[0] > x[1]), b(x[0] >= x[1]), b(x[0] == x[1]), b(x[0] != x[1])])),
        op("a2b", vec![any()], |n, s, a| {
            let u = a.r::<T>(0);
            let d = ar::add_public(ar::neg(u), RingElement(T::of(1)), s.id);
            let mut res = vec![cv::a2b(u, n, s)?];
            res.extend(cv::a2b_many(&[u, d], n, s)?);
            res.extend(cv::a2b_many::<T, _>(&[], n, s)?);
            x(res)
        }, |x| is(vec![x[0], x[0], 1u128.wrapping_sub(x[0]) & mask(T::K as u32)])),
        op("b2a", vec![anyx()], |n, s, a| {
            let u = a.x::<T>(0);
            let d = !u;
            let mut res = vec![cv::b2a(&u, n, s)?];
            res.extend(cv::b2a_many(&[u, u ^ RingElement(T::of(0))], n, s)?);
            res.extend(cv::b2a_many::<T, _>(&[], n, s)?);
            let _ = d;
            r(res)
        }, |x| is(vec![x[0]; 3])),
        op("yao", vec![few()], |n, s, a| {
            let u = a.r::<T>(0);
            Ok(vec![vx(cv::a2y2b(u, n, s)?), vx(cv::a2y2b_streaming(u, n, s)?)])
        }, |x| is(vec![x[0]; 2])),
        op("yao-b2a", vec![ringx::<T>(some::<T>())], |n, s, a| {
            let u = a.x::<T>(0);
            r(vec![cv::b2y2a(&u, n, s)?, cv::b2y2a_streaming(&u, n, s)?])
        }, |x| is(vec![x[0]; 2])),
        op("yao-shared-delta", vec![few(), ringx::<T>(vec![0, 1, mask(T::K as u32)])], |n, s, a| {
            let delta = s.rngs.generate_random_garbler_delta(s.id);
            let (u, w) = (a.r::<T>(0), a.x::<T>(1));
            let y = cv::a2y(u, delta, n, s)?;
            let z = cv::b2y(&w, delta, n, s)?;
            let y2 = cv::a2y_streaming(u, delta, n, s)?;
            let zs = cv::b2y_many(&[w, w], delta, n, s)?;
            let mut out = vec![vx(cv::y2b::<T, _>(y, n, s)?), vr(cv::y2a::<T, _>(z, delta, n, s)?), vr(cv::y2a_streaming::<T, _>(y2, delta, n, s)?)];
            out.extend(x(cv::y2b_many::<T, _>(zs, n, s)?)?);
            Ok(out)
        }, |x| is(vec![x[0], x[1], x[0], x[1], x[1]])),
        op("selector", vec![few(), ringx::<T>(some::<T>())], |n, s, a| {
            let u = cv::a2b_selector(a.r::<T>(0), n, s)?;
            let w = cv::b2a_selector(&a.x::<T>(1), n, s)?;
            Ok(vec![vx(u), vr(w), vr(ar::mul(cv::b2a_selector(&u, n, s)?, w, n, s)?)])
        }, |x| is(vec![x[0], x[1], x[0].wrapping_mul(x[1]) & mask(T::K as u32)])).conv(),
        op("bit_inject", vec![In { bits: 1, ..ringx::<T>(vec![0, 1]) }, ringx::<Bit>(vec![0, 1]), ringx::<Bit>(vec![0, 1])], |n, s, a| {
            let (w, c, d) = (a.x::<T>(0), a.x::<Bit>(1), a.x::<Bit>(2));
            let mut res = vec![cv::bit_inject(&w, n, s)?, cv::bit_inject_from_bit::<T, _>(&c, n, s)?];
            res.extend(cv::bit_inject_many(&[w, w], n, s)?);
            res.extend(cv::bit_inject_from_bits_many::<T, _>(&[c, d, c], n, s)?);
            res.extend(cv::bit_inject_many::<T, _>(&[], n, s)?);
            let mut out = r(res)?;
            out.extend(cv::bit_inject_from_bits_to_field_many::<F7, _>(&[c, d, d], n, s)?.into_iter().map(vf));
            Ok(out)
        }, |x| is(vec![x[0], x[1], x[0], x[0], x[1], x[2], x[1], x[1], x[2], x[2]])),
    ]
}

/// Parts of a bit sharing that are not kept to one bit: injecting only uses the lowest one.
fn cast<T: Rt + AsPrimitive<U>, U: Rt>() -> Vec<Op>
where
    Standard: Distribution<T> + Distribution<U>,
{
    let to = mask(U::K as u32);
    let name = format!("cast-{}-{}", T::K, U::K);
    let mut v = vec![op(&name, vec![ring::<T>(if T::K == 8 { all::<T>() } else { some::<T>() })], |n, s, a| {
        let u = a.r::<T>(0);
        let mut res = vec![casts::ring_cast_selector::<T, U, _>(u, n, s)?, casts::cast_a2b(u, n, s)?, casts::cast_gc(u, n, s)?];
        if T::K >= U::K {
            res.push(casts::downcast(u));
        } else {
            res.push(casts::upcast_a2b(u, n, s)?);
        }
        r(res)
    }, move |x| is(vec![x[0] & to; 4])).conv()];
    v.truncate(1);
    v
}

fn field_casts<T: Rt, F: FieldUint>(wide: bool) -> Vec<Op>
where
    Standard: Distribution<T>,
{
    let p = pm::<F>();
    let m = mask(T::K as u32);
    let fs: Vec<u128> = if p < 300 { (0..p).filter(|v| p < 20 || v % 5 == 0 || v.count_ones() < 2 || *v > p - 3).collect() } else { vec![0, 1, 2, 3, 127, 128, 255, 256, 257, p / 2, p / 2 + 1, p - 2, p - 1] };
    let mut rs: Vec<u128> = all::<T>();
    rs.retain(|v| *v < p && (T::K < 8 || v % 5 == 0 || v.count_ones() < 2 || *v + 3 > p.min(m)));
    let mut v = vec![
        op(&format!("field-to-ring-{}", T::K), vec![asome::<F>(&fs)], |n, s, a| {
            let u = a.f::<F>(0);
            let mut res = vec![casts::field_to_ring_a2b(u, n, s)?];
            res.extend(casts::field_to_ring_a2b_many(&[u, u], n, s)?);
            // (The garbled version asks for a ring that is not wider than the field.)
            if T::K as u32 <= bits::<F>() {
                res.push(casts::field_to_ring_selector::<F, T, _>(u, n, s)?);
                res.extend(rr::yao::field_to_ring_many(&[u, u], n, s)?);
            }
            r(res)
        }, move |x| is(vec![x[0] & m; if T::K as u32 <= bits::<F>() { 6 } else { 3 }])).conv(),
        op(&format!("ring-to-field-{}", T::K), vec![ring::<T>(rs.clone())], |n, s, a| {
            let u = a.r::<T>(0);
            let mut res: Vec<FS<F>> = vec![casts::ring_to_field_a2b(u, n, s)?];
            res.extend(casts::ring_to_field_a2b_many::<T, F, _>(&[u, u], n, s)?);
            if T::K as u32 <= bits::<F>() {
                res.push(casts::ring_to_field_selector(u, n, s)?);
                res.extend(rr::yao::ring_to_field_many::<T, F, _>(&[u, u], n, s)?);
            }
            Ok(res.into_iter().map(vf).collect())
        }, move |x| is(vec![x[0]; if T::K as u32 <= bits::<F>() { 6 } else { 3 }])).conv(),
    ];
    if wide {
        v.push(op(&format!("big-ring-to-field-{}", T::K), vec![ring::<T>(rs)], |n, s, a| {
            let u = a.r::<T>(0);
            let mut res: Vec<FS<F>> = vec![casts::ring_to_field_a2b_big_ring(u, n, s)?];
            res.extend(casts::ring_to_field_a2b_big_ring_many::<T, F, _>(&[u, u], n, s)?);
            Ok(res.into_iter().map(vf).collect())
        }, move |x| is(vec![x[0]; 3])));
    }
    v
}

fn sharing<T: Rt>(c: &Check)
where
    Standard: Distribution<T>,
{
    let name = format!("sharing-{}", T::K);
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    for a in all::<T>() {
        for salt in 0..q(6, 60) {
            let rng = &mut crate::r03::rand_chacha_rng(salt);
            let w = [a, a.wrapping_add(1) & mask(T::K as u32)];
            let e: Vec<RingElement<T>> = w.iter().map(|v| RingElement(T::of(*v))).collect();
            let s = rr::share_ring_element(e[0], rng);
            let t = rr::share_ring_elements(&e, rng);
            let u = rr::share_ring_element_binary(e[0], rng);
            let z = rr::share_ring_elements_binary(&e, rng);
            let ok = |what: &str, good: bool| c.expect(good, &name, || format!("{what} of {a}"));
            ok("share_ring_element", value([vr(s[0]), vr(s[1]), vr(s[2])]) == Ok(a));
            ok("combine_ring_element", rr::combine_ring_element(s[0], s[1], s[2]) == e[0]);
            ok("share_ring_elements", (0..2).all(|k| value([vr(t[0][k]), vr(t[1][k]), vr(t[2][k])]) == Ok(w[k])));
            ok("combine_ring_elements", rr::combine_ring_elements(&t[0], &t[1], &t[2]) == e);
            ok("share_ring_element_binary", value([vx(u[0]), vx(u[1]), vx(u[2])]) == Ok(a));
            ok("combine_ring_element_binary", rr::combine_ring_element_binary(u[0], u[1], u[2]) == e[0]);
            ok("share_ring_elements_binary", (0..2).all(|k| value([vx(z[0][k]), vx(z[1][k]), vx(z[2][k])]) == Ok(w[k])));
            c.count(1, 0);
        }
    }
}

/// A bit of a ring sharing as a sharing of that ring.
trait FromBit {
    fn from_bit(b: RS<Bit>) -> Self;
}
impl<T: Rt> FromBit for RS<T> {
    fn from_bit(b: RS<Bit>) -> Self {
        RS::new(T::of(b.a.0.to()), T::of(b.b.0.to()))
    }
}

pub fn main() {
    let c = Check::new("R06");
    let mut jobs: Vec<Job> = vec![];
    fn push(jobs: &mut Vec<Job>, o: Vec<Op>, label: &str, salts: std::ops::Range<u64>, dev: u32) {
        for o in o {
            let (label, salts) = (label.to_string(), salts.clone());
            jobs.push(Box::new(move |c| exhaust(c, &o, &label, salts, 64, dev)));
        }
    }
    fn ring_type<T: Rt>(jobs: &mut Vec<Job>, conv: bool, salts: std::ops::Range<u64>, dev: u32)
    where
        Standard: Distribution<T>,
    {
        let label = format!("k{}", T::K);
        push(jobs, ops::<T>(), &label, salts.clone(), dev);
        if conv {
            push(jobs, compare::<T>(), &label, salts, dev);
        }
        jobs.push(Box::new(|c| sharing::<T>(c)));
    }
    ring_type::<u128>(&mut jobs, true, 0..q(3, 12), 0);
    ring_type::<u64>(&mut jobs, true, 0..q(3, 12), 0);
    ring_type::<u32>(&mut jobs, true, 0..q(3, 20), 0);
    ring_type::<u16>(&mut jobs, true, 0..q(3, 20), 0);
    push(&mut jobs, field_casts::<u8, F251>(false), "p251", 1..q(4, 10), 0);
    push(&mut jobs, field_casts::<u8, F65537>(false), "p65537", 1..q(4, 10), 0);
    push(&mut jobs, field_casts::<u8, F13>(true), "p13", 1..q(4, 10), 0);
    push(&mut jobs, field_casts::<Bit, F7>(false), "p7", 0..q(6, 40), 0);
    push(&mut jobs, field_casts::<u32, F65537>(true), "p65537", 1..q(3, 10), 0);
    push(&mut jobs, field_casts::<u128, F257>(true), "p257", 1..q(3, 10), 0);
    push(&mut jobs, cast::<u8, u16>(), "", 1..q(3, 10), 0);
    push(&mut jobs, cast::<u8, u128>(), "", 1..q(3, 10), 0);
    push(&mut jobs, cast::<u16, u64>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<u64, u128>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<u32, u32>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<u64, u8>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<u16, u8>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<u128, Bit>(), "", 1..q(4, 10), 0);
    push(&mut jobs, cast::<Bit, u8>(), "", 0..q(6, 30), 0);
    push(&mut jobs, cast::<Bit, u128>(), "", 0..q(6, 30), 0);
    push(&mut jobs, cast::<Bit, Bit>(), "", 0..q(6, 30), 0);
    ring_type::<u8>(&mut jobs, true, 0..q(5, 40), 1);
    ring_type::<Bit>(&mut jobs, false, 0..q(8, 60), 1);
    parallel(&c, jobs, |c, j| j(c));
    c.finish()
}
