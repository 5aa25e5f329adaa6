//! R01: local operations on replicated shares. R02: the three-party network primitives.
use crate::prelude::*;
use crate::s07;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use mpc_core::protocols::rep3::id::PartyID;
use mpc_core::protocols::rep3::network::Rep3NetworkExt;
use mpc_core::protocols::rep3::{Rep3PointShare, Rep3PrimeFieldShare, Rep3UintShare};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, ring_impl::RingElement};
use mpc_core::uint::{FieldUint, UintBackend};
use std::sync::Arc;

type FS<F> = Rep3PrimeFieldShare<F>;
type PS<C> = Rep3PointShare<C>;
type US<F> = Rep3UintShare<F>;

/// What party i holds of the additive parts x: its own and the previous party's.
fn own<X: Copy>(x: &[X; 3], i: usize) -> (X, X) {
    (x[i], x[(i + 2) % 3])
}
const IDS: [PartyID; 3] = [PartyID::ID0, PartyID::ID1, PartyID::ID2];

fn triples<X: Copy>(e: &[X]) -> Vec<[X; 3]> {
    let mut v = vec![];
    for a in e {
        for b in e {
            for c in e {
                v.push([*a, *b, *c]);
            }
        }
    }
    v
}

struct J<'a> {
    c: &'a Check,
    name: &'a str,
}
impl J<'_> {
    fn fail(&self, what: &str, ctx: String) {
        if !self.c.failed() {
            self.c.violation(self.name, &format!("{what} for {ctx}"), json!({"operation": what, "input": ctx}));
        }
    }
    /// Three replicated results must be consistent and combine to the expected value.
    fn rep<X: Copy + PartialEq + std::fmt::Debug>(&self, what: &str, ctx: &dyn Fn() -> String, got: [(X, X); 3], combine: impl Fn([X; 3]) -> X, want: X) {
        for i in 0..3 {
            if got[i].1 != got[(i + 2) % 3].0 {
                return self.fail(&format!("{what}: parties {} and {i} hold different parts ({got:?})", (i + 2) % 3), ctx());
            }
        }
        let r = combine([got[0].0, got[1].0, got[2].0]);
        if r != want {
            self.fail(&format!("{what}: combines to {r:?}, expected {want:?}"), ctx());
        }
    }
    fn eq<X: PartialEq + std::fmt::Debug>(&self, what: &str, ctx: &dyn Fn() -> String, got: X, want: X) {
        if got != want {
            self.fail(&format!("{what}: {got:?}, expected {want:?}"), ctx());
        }
    }
}
fn each<X>(f: impl Fn(usize) -> X) -> [X; 3] {
    [f(0), f(1), f(2)]
}

fn field<F: PrimeField>(c: &Check, e: &[F], tag: &str) {
    let name = format!("field-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let j = J { c, name: &name };
    let add = |x: [F; 3]| x[0] + x[1] + x[2];
    let all = triples(e);
    for x in &all {
        let ctx = || format!("{x:?}");
        let xs = each(|i| {
            let (a, b) = own(x, i);
            FS::new(a, b)
        });
        let v = add(*x);
        j.rep("shares", &ctx, xs.map(|s| s.ab()), add, v);
        j.rep("negation", &ctx, xs.map(|s| (-s).ab()), add, -v);
        j.rep("double", &ctx, xs.map(|s| s.double().ab()), add, v + v);
        j.rep(
            "double_in_place",
            &ctx,
            xs.map(|mut s| {
                s.double_in_place();
                s.ab()
            }),
            add,
            v + v,
        );
        for k in e {
            j.rep("product with public", &ctx, xs.map(|s| (s * *k).ab()), add, v * k);
            j.rep("product of reference with public", &ctx, xs.map(|s| (&s * *k).ab()), add, v * k);
            j.rep(
                "product in place",
                &ctx,
                xs.map(|mut s| {
                    s *= *k;
                    s.ab()
                }),
                add,
                v * k,
            );
            j.rep("promoted", &|| format!("{k}"), IDS.map(|i| FS::promote_from_trivial(k, i).ab()), add, *k);
            j.rep("promoted with scalar", &|| format!("{k} and {}", x[0]), IDS.map(|i| FS::promote_from_trivial_with_scalar(k, &x[0], i).ab()), add, *k);
        }
        // A trivially promoted value lies with parties 0 and 1 alone.
        j.eq("promoted share of party 2", &ctx, FS::promote_from_trivial(&x[0], PartyID::ID2).ab(), (F::zero(), F::zero()));
        for y in &all {
            let ctx = || format!("{x:?} and {y:?}");
            let ys = each(|i| {
                let (a, b) = own(y, i);
                FS::new(a, b)
            });
            let w = add(*y);
            j.rep("sum", &ctx, each(|i| (xs[i] + ys[i]).ab()), add, v + w);
            j.rep("sum of references", &ctx, each(|i| (&xs[i] + &ys[i]).ab()), add, v + w);
            let mut s = xs;
            let mut t = xs;
            let mut d = xs;
            for i in 0..3 {
                s[i] += ys[i];
                t[i] += &ys[i];
                d[i] -= ys[i];
            }
            j.rep("sum in place", &ctx, s.map(|s| s.ab()), add, v + w);
            j.rep("sum in place by reference", &ctx, t.map(|s| s.ab()), add, v + w);
            j.rep("difference in place", &ctx, d.map(|s| s.ab()), add, v - w);
            j.rep("difference", &ctx, each(|i| (xs[i] - ys[i]).ab()), add, v - w);
            j.rep("difference of references", &ctx, each(|i| (&xs[i] - &ys[i]).ab()), add, v - w);
            j.eq("local product", &ctx, add(each(|i| xs[i] * ys[i])), v * w);
            j.eq("local product of references", &ctx, add(each(|i| &xs[i] * &ys[i])), v * w);
            j.eq("equality", &ctx, xs == ys, x == y);
        }
        c.count(1, all.len() as u64 * 9 + e.len() as u64 * 5 + 4);
        if c.failed() {
            return;
        }
    }
    let z = FS::<F>::zero_share();
    j.eq("zero share", &String::new, z.ab(), (F::zero(), F::zero()));
    j.eq("default", &String::new, FS::<F>::default(), z);
    j.eq("Zero::zero", &String::new, <FS<F> as Zero>::zero(), z);
    c.note(&name, json!({"sharings": all.len(), "pairs": all.len() * all.len()}));
}

fn point<C: Tiny + std::fmt::Debug>(c: &Check, tag: &str)
where
    C::ScalarField: PrimeField,
{
    let name = format!("point-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let j = J { c, name: &name };
    let r = modulus::<C::ScalarField>();
    let pts: Vec<C> = (0..r).map(|i| C::nth(i)).collect();
    let scal: Vec<C::ScalarField> = elems();
    let add = |x: [C; 3]| x[0] + x[1] + x[2];
    let fadd = |x: [C::ScalarField; 3]| x[0] + x[1] + x[2];
    let all = triples(&pts);
    // Second operands: all combinations of a few values (everything for the smallest group).
    let few = if r <= 5 || thorough() { pts.clone() } else { vec![pts[0], pts[1], pts[r as usize - 1]] };
    let fs = if r <= 5 || thorough() { scal.clone() } else { vec![scal[0], scal[2], scal[r as usize - 1]] };
    let second = triples(&few);
    let seconds = triples(&fs);
    let log = |x: &[C; 3]| x.map(|p| p.log());
    for x in &all {
        let ctx = || format!("{:?}", log(x));
        let xs = each(|i| {
            let (a, b) = own(x, i);
            PS::new(a, b)
        });
        let v = add(*x);
        j.rep("shares", &ctx, xs.map(|s| s.ab()), add, v);
        j.rep("negation", &ctx, xs.map(|s| (-s).ab()), add, -v);
        for k in &scal {
            j.rep("scalar product", &|| format!("{:?} times {k}", log(x)), xs.map(|s| (&s * *k).ab()), add, v * *k);
        }
        for y in &second {
            let ctx = || format!("{:?} and {:?}", log(x), log(y));
            let ys = each(|i| {
                let (a, b) = own(y, i);
                PS::new(a, b)
            });
            let w = add(*y);
            j.rep("sum", &ctx, each(|i| (xs[i] + ys[i]).ab()), add, v + w);
            j.rep("sum with reference", &ctx, each(|i| (xs[i] + &ys[i]).ab()), add, v + w);
            j.rep("sum of references", &ctx, each(|i| (&xs[i] + &ys[i]).ab()), add, v + w);
            j.rep("difference", &ctx, each(|i| (xs[i] - ys[i]).ab()), add, v - w);
            j.rep("difference with reference", &ctx, each(|i| (xs[i] - &ys[i]).ab()), add, v - w);
            j.rep("difference of references", &ctx, each(|i| (&xs[i] - &ys[i]).ab()), add, v - w);
            let mut s = xs;
            let mut d = xs;
            for i in 0..3 {
                s[i] += &ys[i];
                d[i] -= &ys[i];
            }
            j.rep("sum in place", &ctx, s.map(|s| s.ab()), add, v + w);
            j.rep("difference in place", &ctx, d.map(|s| s.ab()), add, v - w);
        }
        for y in &seconds {
            let ys = each(|i| {
                let (a, b) = own(y, i);
                FS::new(a, b)
            });
            j.eq("local product of shared scalar and point", &|| format!("{:?} and {y:?}", log(x)), add(each(|i| ys[i] * &xs[i])), v * fadd(*y));
        }
        c.count(1, (second.len() * 8 + seconds.len() + scal.len() + 2) as u64);
        if c.failed() {
            return;
        }
    }
    j.eq("zero share", &String::new, PS::<C>::zero_share().ab(), (C::zero(), C::zero()));
    j.eq("default", &String::new, PS::<C>::default().ab(), (C::zero(), C::zero()));
    c.note(&name, json!({"sharings": all.len(), "second operands": second.len()}));
}

/// Bitwise shares: all patterns of the bits at the given places.
fn binary<F: FieldUint>(c: &Check, places: &[usize], tag: &str) {
    let name = format!("binary-{tag}-{places:?}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let j = J { c, name: &name };
    type U<F> = <F as FieldUint>::Uint;
    let width = U::<F>::BITS;
    let pat = |m: u32| {
        let mut u = U::<F>::from(0u64);
        for (k, p) in places.iter().enumerate() {
            if m >> k & 1 == 1 {
                u.set_bit(*p, true);
            }
        }
        u
    };
    let vals: Vec<U<F>> = (0..1u32 << places.len()).map(pat).collect();
    let xor = |x: [U<F>; 3]| x[0] ^ x[1] ^ x[2];
    let all = triples(&vals);
    let bits = |u: &U<F>| -> Vec<usize> { (0..width).filter(|i| u.bit(*i)).collect() };
    let show = |x: &[U<F>; 3]| format!("{:?}", [bits(&x[0]), bits(&x[1]), bits(&x[2])]);
    // Shifting by moving every bit on its own.
    let shifted = |u: &U<F>, f: &dyn Fn(usize) -> Option<usize>| {
        let mut r = U::<F>::from(0u64);
        for i in bits(u) {
            if let Some(k) = f(i).filter(|k| *k < width) {
                r.set_bit(k, true);
            }
        }
        r
    };
    let amounts: BTreeSet<usize> = [0, 1, 2, 63, 64, 65, 127, 128, width - 1, width, width + 1].into_iter().chain(places.iter().map(|p| width - 1 - p)).chain(places.iter().copied()).collect();
    for x in &all {
        let ctx = || show(x);
        let xs = each(|i| {
            let (a, b) = own(x, i);
            US::<F>::new(a, b)
        });
        let v = xor(*x);
        j.rep("shares", &ctx, xs.map(|s| s.ab()), xor, v);
        for s in &amounts {
            let s = *s;
            let ctx = || format!("{} by {s}", show(x));
            let l = shifted(&v, &|i| i.checked_add(s));
            let r = shifted(&v, &|i| i.checked_sub(s));
            j.rep("left shift", &ctx, xs.map(|y| (y << s).ab()), xor, l);
            j.rep("left shift of reference", &ctx, xs.map(|y| (&y << s).ab()), xor, l);
            j.rep(
                "left shift in place",
                &ctx,
                xs.map(|mut y| {
                    y <<= s;
                    y.ab()
                }),
                xor,
                l,
            );
            j.rep("right shift", &ctx, xs.map(|y| (y >> s).ab()), xor, r);
            j.rep("right shift of reference", &ctx, xs.map(|y| (&y >> s).ab()), xor, r);
        }
        for m in &vals {
            let m = *m;
            let ctx = || format!("{} with mask {:?}", show(x), bits(&m));
            j.rep("xor_mask", &ctx, xs.map(|y| y.xor_mask(&m).ab()), xor, v ^ m);
            j.rep("and_mask", &ctx, xs.map(|y| y.and_mask(&m).ab()), xor, v & m);
            let (mut s, mut t) = (xs, xs);
            for i in 0..3 {
                s[i].xor_mask_assign(&m);
                t[i].and_mask_assign(&m);
            }
            j.rep("xor_mask_assign", &ctx, s.map(|y| y.ab()), xor, v ^ m);
            j.rep("and_mask_assign", &ctx, t.map(|y| y.ab()), xor, v & m);
        }
        for y in &all {
            let ctx = || format!("{} and {}", show(x), show(y));
            let ys = each(|i| {
                let (a, b) = own(y, i);
                US::<F>::new(a, b)
            });
            let w = xor(*y);
            j.rep("xor", &ctx, each(|i| (xs[i] ^ ys[i]).ab()), xor, v ^ w);
            j.rep("xor of references", &ctx, each(|i| (&xs[i] ^ &ys[i]).ab()), xor, v ^ w);
            let (mut s, mut t) = (xs, xs);
            for i in 0..3 {
                s[i] ^= ys[i];
                t[i] ^= &ys[i];
            }
            j.rep("xor in place", &ctx, s.map(|y| y.ab()), xor, v ^ w);
            j.rep("xor in place by reference", &ctx, t.map(|y| y.ab()), xor, v ^ w);
            j.eq("local and", &ctx, xor(each(|i| xs[i] & ys[i])), v & w);
            j.eq("local and of references", &ctx, xor(each(|i| &xs[i] & &ys[i])), v & w);
        }
        c.count(1, (all.len() * 6 + vals.len() * 4 + amounts.len() * 5) as u64);
        if c.failed() {
            return;
        }
    }
    j.eq("zero share", &String::new, US::<F>::zero_share().ab(), (U::<F>::from(0u64), U::<F>::from(0u64)));
    j.eq("default", &String::new, US::<F>::default().ab(), (U::<F>::from(0u64), U::<F>::from(0u64)));
    c.note(&name, json!({"sharings": all.len(), "pairs": all.len() * all.len()}));
}

pub fn main() {
    let c = Check::new("R01");
    type Job = Box<dyn Fn(&Check) + Send>;
    fn pick<F: PrimeField>() -> Vec<F> {
        vec![F::zero(), F::one(), -F::one(), -F::from(2u64).inverse().unwrap(), F::from(u64::MAX) * F::from(u64::MAX)]
    }
    let mut jobs: Vec<Job> = vec![
        Box::new(|c| field::<F7>(c, &elems()[..], "p7")),
        Box::new(|c| field::<F5>(c, &elems()[..], "p5")),
        Box::new(|c| field::<F3>(c, &elems()[..], "p3")),
        Box::new(|c| field::<ark_bn254::Fr>(c, &pick(), "bn254")),
        Box::new(|c| field::<ark_bls12_381::Fr>(c, &pick(), "bls12_381")),
        Box::new(|c| field::<F65537>(c, &pick(), "p65537")),
        Box::new(|c| point::<G5>(c, "5")),
        Box::new(|c| point::<G7>(c, "7")),
        Box::new(|c| point::<G13>(c, "13")),
        Box::new(|c| binary::<ark_bn254::Fr>(c, &[0, 64, 255], "bn254")),
        Box::new(|c| binary::<ark_bn254::Fr>(c, &[63, 254], "bn254")),
        Box::new(|c| binary::<ark_bls12_381::Fr>(c, &[127, 319], "bls12_381")),
        Box::new(|c| binary::<ark_bls12_381::Fq>(c, &[0, 383], "bls12_381-fq")),
    ];
    if thorough() {
        jobs.push(Box::new(|c| field::<F11>(c, &elems()[..], "p11")));
        jobs.push(Box::new(|c| binary::<ark_bls12_377::Fq>(c, &[0, 191, 383], "bls12_377-fq")));
        jobs.push(Box::new(|c| binary::<ark_bls12_381::Fr>(c, &[0, 255, 319], "bls12_381")));
    }
    parallel(&c, jobs, |c, f| f(c));
    c.finish()
}

// ---------------------------------------------------------------------------------------------

/// Elements that travel.
trait Elem: CanonicalSerialize + CanonicalDeserialize + Send + Clone + PartialEq + std::fmt::Debug + 'static {
    /// A different value for every small number.
    fn of(x: u64) -> Self;
}
impl Elem for F251 {
    fn of(x: u64) -> Self {
        F251::from(250 - x)
    }
}
impl Elem for ark_bn254::Fr {
    fn of(x: u64) -> Self {
        -ark_bn254::Fr::from(x)
    }
}
impl Elem for G13 {
    fn of(x: u64) -> Self {
        G13::nth(x % 13)
    }
}
impl Elem for RingElement<u16> {
    fn of(x: u64) -> Self {
        RingElement(0x8000 | (x as u16) * 257)
    }
}
impl Elem for RingElement<Bit> {
    fn of(x: u64) -> Self {
        RingElement(Bit::new(x % 2 == 1))
    }
}
impl Elem for Vec<F5> {
    fn of(x: u64) -> Self {
        (0..x % 3).map(|i| F5::from(x + i)).collect()
    }
}

/// A primitive: what party i with values v does, and what it must receive given all values.
struct Prim<X> {
    name: &'static str,
    /// Vectors of any length may be passed.
    many: bool,
    run: fn(&SimNet, &[X]) -> eyre::Result<Vec<Vec<X>>>,
    /// Whose vectors are received, in order.
    from: fn(usize) -> Vec<usize>,
}
fn prims<X: Elem>() -> Vec<Prim<X>> {
    let prev: fn(usize) -> Vec<usize> = |i| vec![(i + 2) % 3];
    let next: fn(usize) -> Vec<usize> = |i| vec![(i + 1) % 3];
    let both: fn(usize) -> Vec<usize> = |i| vec![(i + 2) % 3, (i + 1) % 3];
    fn id(n: &SimNet) -> PartyID {
        PartyID::try_from(n.id).unwrap()
    }
    vec![
        Prim { name: "reshare", many: false, run: |n, v| Ok(vec![vec![n.reshare(v[0].clone())?]]), from: prev },
        Prim { name: "reshare_many", many: true, run: |n, v| Ok(vec![n.reshare_many(v)?]), from: prev },
        Prim {
            name: "broadcast",
            many: false,
            run: |n, v| {
                let (a, b) = n.broadcast(v[0].clone())?;
                Ok(vec![vec![a], vec![b]])
            },
            from: both,
        },
        Prim {
            name: "broadcast_many",
            many: true,
            run: |n, v| {
                let (a, b) = n.broadcast_many(v)?;
                Ok(vec![a, b])
            },
            from: both,
        },
        Prim {
            name: "send_next-recv_prev",
            many: false,
            run: |n, v| {
                n.send_next(v[0].clone())?;
                Ok(vec![vec![n.recv_prev()?]])
            },
            from: prev,
        },
        Prim {
            name: "send_prev-recv_next",
            many: false,
            run: |n, v| {
                n.send_prev(v[0].clone())?;
                Ok(vec![vec![n.recv_next()?]])
            },
            from: next,
        },
        Prim {
            name: "send_next_many-recv_prev_many",
            many: true,
            run: |n, v| {
                n.send_next_many(v)?;
                Ok(vec![n.recv_prev_many()?])
            },
            from: prev,
        },
        Prim {
            name: "send_prev_many-recv_next_many",
            many: true,
            run: |n, v| {
                n.send_prev_many(v)?;
                Ok(vec![n.recv_next_many()?])
            },
            from: next,
        },
        Prim {
            name: "send_both_many-recv_many",
            many: true,
            run: |n, v| {
                n.send_both_many(v)?;
                Ok(vec![n.recv_many(id(n).prev())?, n.recv_many(id(n).next())?])
            },
            from: both,
        },
        Prim {
            name: "send_to-recv_from",
            many: false,
            run: |n, v| {
                n.send_to(id(n).prev(), v[0].clone())?;
                n.send_to(id(n).next(), v[0].clone())?;
                Ok(vec![vec![n.recv_from(id(n).next())?], vec![n.recv_from(id(n).prev())?]])
            },
            from: |i| vec![(i + 1) % 3, (i + 2) % 3],
        },
        Prim {
            name: "send_many-recv_many",
            many: true,
            run: |n, v| {
                n.send_many(id(n).next(), v)?;
                n.send_many(id(n).prev(), v)?;
                Ok(vec![n.recv_many(id(n).next())?, n.recv_many(id(n).prev())?])
            },
            from: |i| vec![(i + 1) % 3, (i + 2) % 3],
        },
        Prim { name: "send_and_recv-onward", many: false, run: |n, v| Ok(vec![vec![n.send_and_recv(id(n).next(), v[0].clone(), id(n).prev())?]]), from: prev },
        Prim { name: "send_and_recv-back", many: false, run: |n, v| Ok(vec![vec![n.send_and_recv(id(n).prev(), v[0].clone(), id(n).next())?]]), from: next },
        Prim { name: "send_and_recv_many-onward", many: true, run: |n, v| Ok(vec![n.send_and_recv_many(id(n).next(), v, id(n).prev())?]), from: prev },
        Prim { name: "send_and_recv_many-back", many: true, run: |n, v| Ok(vec![n.send_and_recv_many(id(n).prev(), v, id(n).next())?]), from: next },
        // Parties 0 and 1 swap; party 2 stays out.
        Prim {
            name: "send_and_recv-swap",
            many: false,
            run: |n, v| match n.id {
                0 => Ok(vec![vec![n.send_and_recv(PartyID::ID1, v[0].clone(), PartyID::ID1)?]]),
                1 => Ok(vec![vec![n.send_and_recv(PartyID::ID0, v[0].clone(), PartyID::ID0)?]]),
                _ => Ok(vec![]),
            },
            from: |i| if i < 2 { vec![1 - i] } else { vec![] },
        },
    ]
}
/// The values party i passes in step k.
fn mine<X: Elem>(i: usize, k: usize, len: usize) -> Vec<X> {
    (0..len).map(|e| X::of(1 + i as u64 + 3 * e as u64 + 4 * k as u64)).collect()
}

/// Every pair of primitives one after the other, under every schedule.
fn schedules<X: Elem>(c: &Check, tag: &str, cap: usize, dev: u32, pairs: bool) {
    let n = prims::<X>().len();
    for first in 0..n {
        let name = format!("{}-{tag}-cap{cap}", prims::<X>()[first].name);
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let mut e = explorer(dev, 60);
        e.bounds.max_executions = q(300_000, 3_000_000);
        let s = e.explore(move |out| {
            hub().cap = cap;
            let second = if pairs { mc::pick(n as u32 + 1, "second") as usize } else { n };
            let lens: Vec<usize> = [first, second]
                .iter()
                .map(|k| match prims::<X>().get(*k) {
                    Some(p) if p.many => mc::pick(4, "length") as usize,
                    _ => 1,
                })
                .collect();
            let steps: Vec<usize> = [first, second].into_iter().filter(|k| *k < n).collect();
            let (st, ln) = (steps.clone(), lens.clone());
            let res = run(3, move |i, net| -> eyre::Result<Vec<Vec<Vec<X>>>> {
                st.iter().enumerate().map(|(k, p)| (prims::<X>()[*p].run)(&net, &mine::<X>(i, k, ln[k]))).collect()
            });
            for (i, r) in res.into_iter().enumerate() {
                let got = match r {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) => return out.set(Err(format!("party {i}: {e:#}"))),
                    Err(e) => return out.set(Err(format!("party {i} panicked: {e}"))),
                };
                for (k, p) in steps.iter().enumerate() {
                    let p = &prims::<X>()[*p];
                    let want: Vec<Vec<X>> = (p.from)(i).into_iter().map(|f| mine::<X>(f, k, lens[k])).collect();
                    if got[k] != want {
                        return out.set(Err(format!("step {k} ({}): party {i} receives {:?}, expected {want:?}", p.name, got[k])));
                    }
                }
            }
            if undelivered() != 0 {
                return out.set(Err(format!("{} messages were never received", undelivered())));
            }
            out.set(Ok("delivered".into()))
        });
        c.explored(&name, &s);
    }
}

pub fn main_r02() {
    let c = Check::new("R02");
    let name = "ids";
    if c.selected(name) {
        c.at(name);
        let j = J { c: &c, name };
        for x in 0..=255u8 {
            let r = PartyID::try_from(x).ok().map(usize::from);
            j.eq("party id from u8", &|| format!("{x}"), r, (x < 3).then_some(x as usize));
        }
        for x in (0..1000usize).chain((0..64).flat_map(|k| [1usize << k, (1 << k) + 1, (1usize << k) + 2, (1usize << k) - 1])).chain([usize::MAX, usize::MAX - 1, usize::MAX - 2]) {
            let r = PartyID::try_from(x).ok().map(usize::from);
            j.eq("party id from usize", &|| format!("{x}"), r, (x < 3).then_some(x));
            c.count(1, 1);
        }
        for (i, id) in IDS.iter().enumerate() {
            let ctx = || format!("party {i}");
            j.eq("number", &ctx, usize::from(*id), i);
            j.eq("text", &ctx, id.to_string(), i.to_string());
            j.eq("next", &ctx, id.next(), IDS[(i + 1) % 3]);
            j.eq("previous", &ctx, id.prev(), IDS[(i + 2) % 3]);
            j.eq("next of previous", &ctx, id.prev().next(), *id);
            j.eq("previous of next", &ctx, id.next().prev(), *id);
        }
        // A party outside 0..3 cannot use the primitives.
        for id in [3usize, 4, 255, usize::MAX] {
            let net = SimNet { net: 0, id, n: 3 };
            let r = mc::catch(|| {
                [
                    net.reshare(F5::one()).is_err(),
                    net.reshare_many(&[F5::one()]).is_err(),
                    net.broadcast(F5::one()).is_err(),
                    net.broadcast_many(&[F5::one()]).is_err(),
                    net.send_next(F5::one()).is_err(),
                    net.send_prev(F5::one()).is_err(),
                    net.send_next_many(&[F5::one()]).is_err(),
                    net.send_prev_many(&[F5::one()]).is_err(),
                    net.send_both_many(&[F5::one()]).is_err(),
                    net.recv_next::<F5>().is_err(),
                    net.recv_prev::<F5>().is_err(),
                    net.recv_next_many::<F5>().is_err(),
                    net.recv_prev_many::<F5>().is_err(),
                ]
            });
            j.eq("primitives of a party with a wrong id", &|| format!("id {id}"), r, Ok([true; 13]));
        }
    }
    for cap in q(vec![0, 2], vec![0, 2, 3]) {
        schedules::<F251>(&c, "p251", cap, q(2, 3), true);
    }
    schedules::<F251>(&c, "p251-deep", 0, q(4, 6), false);
    schedules::<ark_bn254::Fr>(&c, "bn254", 0, q(0, 1), true);
    schedules::<G13>(&c, "point", 0, q(0, 1), true);
    schedules::<RingElement<u16>>(&c, "u16", 0, q(0, 1), true);
    schedules::<RingElement<Bit>>(&c, "bit", 0, q(0, 1), true);
    schedules::<Vec<F5>>(&c, "vector", 0, q(0, 1), true);
    // Damaged and missing messages.
    for k in 0..prims::<F251>().len() {
        let p = &prims::<F251>()[k];
        let name = format!("damage-{}", p.name);
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        // Vectors carry their own length, so only single elements can be of a wrong number.
        let ignore: &[usize] = if p.many { &[8, 9, 11] } else { &[] };
        let len = if p.many { 2 } else { 1 };
        s07::explore_but(&c, &name, 3, Arc::new(move |i, net| (prims::<F251>()[k].run)(&net, &mine(i, 0, len)).map(|_| ())), q(1, 3), ignore);
    }
    c.finish()
}
