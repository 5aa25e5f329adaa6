//! Operations of three parties with their plain meaning, on every input.
pub use crate::prelude::*;
pub use mpc_core::protocols::rep3::conversion::A2BType;
pub use mpc_core::protocols::rep3::id::PartyID;
pub use mpc_core::protocols::rep3::{Rep3PointShare, Rep3PrimeFieldShare, Rep3State, Rep3UintShare};
pub use mpc_core::protocols::rep3_ring::Rep3RingShare;
pub use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement};
pub use mpc_core::uint::{FieldUint, UintBackend};
use num_traits::AsPrimitive;

pub type FS<F> = Rep3PrimeFieldShare<F>;
pub type US<F> = Rep3UintShare<F>;
pub type PS<C> = Rep3PointShare<C>;
pub type RS<T> = Rep3RingShare<T>;

/// What a value is and how it is shared.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    /// Additive in a field with this modulus.
    F(u128),
    /// XOR of words.
    B,
    /// Additive, numbers of points of a group of this order.
    C(u128),
    /// Additive in the ring of 2^k.
    R(u32),
    /// XOR of words of k bits.
    X(u32),
    /// The same for every party.
    O,
    /// Hashes of the parts: only what two parties hold of the same part is compared.
    H,
}
/// What one party holds of a value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct V {
    pub k: K,
    pub a: u128,
    pub b: u128,
}

pub fn mask(k: u32) -> u128 {
    if k >= 128 { u128::MAX } else { (1 << k) - 1 }
}
pub fn num<F: PrimeField>(x: F) -> u128 {
    let l = x.into_bigint();
    let l = l.as_ref();
    l[0] as u128 | (l.get(1).copied().unwrap_or(0) as u128) << 64
}
pub fn fld<F: PrimeField>(x: u128) -> F {
    F::from(x)
}
pub fn unum<U: UintBackend>(x: &U) -> u128 {
    let l = x.as_limbs();
    // Shares fill the whole word (masks are full-width); fold the high part in linearly, so that a
    // secret with anything beyond bit 128 differs from the expected one.
    let mut r = 0;
    for (i, w) in l.chunks(2).enumerate() {
        r ^= (w[0] as u128 | (w.get(1).copied().unwrap_or(0) as u128) << 64).rotate_left(37 * i as u32);
    }
    r
}
pub fn uint<U: UintBackend>(x: u128) -> U {
    U::from_limbs_truncating(&[x as u64, (x >> 64) as u64])
}
pub trait Rt: IntRing2k {
    fn to(self) -> u128;
    fn of(x: u128) -> Self;
}
macro_rules! rt {
    ($($t:ty),*) => {$(
        impl Rt for $t {
            fn to(self) -> u128 { self as u128 }
            fn of(x: u128) -> Self { x as $t }
        }
    )*};
}
rt!(u8, u16, u32, u64, u128);
impl Rt for Bit {
    fn to(self) -> u128 {
        self.convert() as u128
    }
    fn of(x: u128) -> Self {
        Bit::new(x & 1 == 1)
    }
}
#[allow(unused)]
fn _as<T: AsPrimitive<u8>>() {}

pub fn pm<F: PrimeField>() -> u128 {
    let m = F::MODULUS;
    let l = m.as_ref();
    assert!(l[1..].iter().all(|x| *x == 0));
    l[0] as u128
}
pub fn vf<F: PrimeField>(s: FS<F>) -> V {
    V { k: K::F(pm::<F>()), a: num(s.a), b: num(s.b) }
}
pub fn vb<F: FieldUint>(s: US<F>) -> V {
    V { k: K::B, a: unum(&s.a), b: unum(&s.b) }
}
pub fn vc<C: Tiny>(s: PS<C>) -> V {
    V { k: K::C(pm::<C::ScalarField>()), a: s.a.log() as u128, b: s.b.log() as u128 }
}
pub fn vr<T: Rt>(s: RS<T>) -> V {
    V { k: K::R(T::K as u32), a: s.a.0.to(), b: s.b.0.to() }
}
pub fn vx<T: Rt>(s: RS<T>) -> V {
    V { k: K::X(T::K as u32), a: s.a.0.to(), b: s.b.0.to() }
}
pub fn vo(x: u128) -> V {
    V { k: K::O, a: x, b: x }
}
pub fn of<F: PrimeField>(x: F) -> V {
    vo(num(x))
}
pub fn ou<U: UintBackend>(x: U) -> V {
    vo(unum(&x))
}

/// One party's inputs.
#[derive(Clone)]
pub struct Args {
    pub s: Vec<V>,
}
impl Args {
    fn at(&self, i: usize, k: K) -> V {
        assert_eq!(self.s[i].k, k, "input {i}");
        self.s[i]
    }
    pub fn f<F: PrimeField>(&self, i: usize) -> FS<F> {
        let v = self.at(i, K::F(pm::<F>()));
        FS::new(fld(v.a), fld(v.b))
    }
    pub fn fs<F: PrimeField>(&self) -> Vec<FS<F>> {
        (0..self.s.len()).filter(|i| self.s[*i].k == K::F(pm::<F>())).map(|i| self.f(i)).collect()
    }
    pub fn b<F: FieldUint>(&self, i: usize) -> US<F> {
        let v = self.at(i, K::B);
        US::new(uint(v.a), uint(v.b))
    }
    pub fn c<C: Tiny>(&self, i: usize) -> PS<C> {
        let v = self.at(i, K::C(pm::<C::ScalarField>()));
        PS::new(C::nth(v.a as u64), C::nth(v.b as u64))
    }
    pub fn r<T: Rt>(&self, i: usize) -> RS<T> {
        let v = self.at(i, K::R(T::K as u32));
        RS::new(T::of(v.a), T::of(v.b))
    }
    pub fn x<T: Rt>(&self, i: usize) -> RS<T> {
        let v = self.at(i, K::X(T::K as u32));
        RS::new(T::of(v.a), T::of(v.b))
    }
    pub fn o(&self, i: usize) -> u128 {
        self.at(i, K::O).a
    }
    pub fn pf<F: PrimeField>(&self, i: usize) -> F {
        fld(self.o(i))
    }
    pub fn pu<F: FieldUint>(&self, i: usize) -> F::Uint {
        uint(self.o(i))
    }
}

/// An input: how it is shared and the values it takes.
#[derive(Clone, Debug)]
pub struct In {
    pub k: K,
    pub vals: Vec<u128>,
    /// Parts of XOR sharings use this many bits.
    pub bits: u32,
}
pub fn bits<F: PrimeField>() -> u32 {
    F::MODULUS_BIT_SIZE
}
/// Any field element.
pub fn af<F: PrimeField>() -> In {
    In { k: K::F(pm::<F>()), vals: (0..pm::<F>()).collect(), bits: 0 }
}
/// A field element that is 0 or 1.
pub fn a01<F: PrimeField>() -> In {
    In { k: K::F(pm::<F>()), vals: vec![0, 1], bits: 0 }
}
pub fn asome<F: PrimeField>(vals: &[u128]) -> In {
    In { k: K::F(pm::<F>()), vals: vals.to_vec(), bits: 0 }
}
/// Any word with as many bits as the modulus.
pub fn bw<F: PrimeField>() -> In {
    In { k: K::B, vals: (0..=mask(bits::<F>())).collect(), bits: bits::<F>() }
}
/// A word below the modulus.
pub fn bp<F: PrimeField>() -> In {
    In { k: K::B, vals: (0..pm::<F>()).collect(), bits: bits::<F>() }
}
/// A bit.
pub fn b1() -> In {
    In { k: K::B, vals: vec![0, 1], bits: 1 }
}
pub fn pt<C: Tiny>() -> In {
    In { k: K::C(pm::<C::ScalarField>()), vals: (0..pm::<C::ScalarField>()).collect(), bits: 0 }
}
pub fn ring<T: Rt>(vals: Vec<u128>) -> In {
    In { k: K::R(T::K as u32), vals, bits: 0 }
}
pub fn ringx<T: Rt>(vals: Vec<u128>) -> In {
    In { k: K::X(T::K as u32), vals, bits: T::K as u32 }
}
pub fn public(vals: impl IntoIterator<Item = u128>) -> In {
    In { k: K::O, vals: vals.into_iter().collect(), bits: 0 }
}
pub fn pf<F: PrimeField>() -> In {
    public(0..pm::<F>())
}

pub enum Want {
    /// These values.
    Is(Vec<u128>),
    /// All parties must report an error.
    Refuse,
    /// The result has this many values, which nothing is said about.
    Any(usize),
    /// Each result must satisfy its own condition.
    Sat(Vec<Box<dyn Fn(u128) -> bool>>),
}
pub fn is(v: Vec<u128>) -> Want {
    Want::Is(v)
}

pub type Run = std::rc::Rc<dyn Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>>>;
#[derive(Clone)]
pub struct Op {
    pub name: String,
    pub ins: Vec<In>,
    /// May fail if a random value happens to be unsuitable.
    pub lucky: bool,
    /// Depends on how arithmetic and binary shares are converted.
    pub conv: bool,
    pub run: std::sync::Arc<dyn Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>> + Send + Sync>,
    pub plain: std::sync::Arc<dyn Fn(&[u128]) -> Want + Send + Sync>,
}
pub fn op(
    name: &str,
    ins: Vec<In>,
    run: impl Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>> + Send + Sync + 'static,
    plain: impl Fn(&[u128]) -> Want + Send + Sync + 'static,
) -> Op {
    Op { name: name.into(), ins, lucky: false, conv: false, run: std::sync::Arc::new(run), plain: std::sync::Arc::new(plain) }
}
impl Op {
    pub fn lucky(mut self) -> Self {
        self.lucky = true;
        self
    }
    pub fn conv(mut self) -> Self {
        self.conv = true;
        self
    }
}

/// A fixed function of where a value is used.
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xd1342543de82ef95) ^ c.wrapping_mul(0xa24baed4963ee407);
    for _ in 0..3 {
        x ^= x >> 31;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 29;
    }
    x
}
fn wide(a: u64, b: u64, c: u64) -> u128 {
    mix(a, b, c) as u128 | (mix(a, b, c + 1000) as u128) << 64
}
/// The additive (or XOR) parts of a value.
pub fn parts(i: &In, v: u128, salt: u64, nr: u64, pos: u64) -> [u128; 3] {
    let (x, y) = match salt {
        0 => (0, 0),
        _ => (wide(salt, nr, 2 * pos), wide(salt, nr, 2 * pos + 1)),
    };
    match i.k {
        K::F(p) | K::C(p) => {
            let (x, y) = (x % p, y % p);
            [x, y, (v + 2 * p - x - y) % p]
        }
        K::B | K::X(_) => {
            let m = mask(i.bits);
            [x & m, y & m, v ^ (x & m) ^ (y & m)]
        }
        K::R(k) => {
            let m = mask(k);
            [x & m, y & m, v.wrapping_sub(x).wrapping_sub(y) & m]
        }
        K::O | K::H => [v; 3],
    }
}
pub fn hold(k: K, parts: &[u128; 3], i: usize) -> V {
    V { k, a: parts[i], b: parts[(i + 2) % 3] }
}
/// What the three parties' holdings stand for.
pub fn value(h: [V; 3]) -> Result<u128, String> {
    for i in 0..3 {
        if h[i].k != h[0].k {
            return Err(format!("of different kinds: {h:?}"));
        }
        if h[0].k == K::O {
            if h[i].a != h[0].a {
                return Err(format!("parties open different values: {} {} {}", h[0].a, h[1].a, h[2].a));
            }
        } else if h[i].b != h[(i + 2) % 3].a {
            return Err(format!("party {i} holds {} where party {} holds {}", h[i].b, (i + 2) % 3, h[(i + 2) % 3].a));
        }
    }
    let (x, y, z) = (h[0].a, h[1].a, h[2].a);
    Ok(match h[0].k {
        K::F(p) | K::C(p) => (x + y + z) % p,
        K::B | K::X(_) => x ^ y ^ z,
        K::R(k) => x.wrapping_add(y).wrapping_add(z) & mask(k),
        K::O => x,
        K::H => 0,
    })
}

/// Draws of the parties' generators: 0 = all zero, 1 = all one, else pseudo-random of full range.
pub fn script(salt: u64) {
    simrand::ctl::ctl().script = Some(Rc::new(move |seed, pos| match salt {
        0 => 0,
        1 => 1,
        _ => {
            let mut s = 0;
            for c in seed.chunks(8) {
                s = mix(s, u64::from_le_bytes(c.try_into().unwrap()), salt);
            }
            mix(s, pos, salt)
        }
    }));
}

/// All combinations of the inputs' values.
pub fn combos(ins: &[In]) -> Vec<Vec<u128>> {
    let mut out = vec![vec![]];
    for i in ins {
        out = out
            .into_iter()
            .flat_map(|c: Vec<u128>| {
                i.vals.iter().map(move |v| {
                    let mut c = c.clone();
                    c.push(*v);
                    c
                })
            })
            .collect();
    }
    out
}

/// Judges what the parties returned for one input. Ok(true) = the operation succeeded.
pub fn judge(op: &Op, input: &[u128], res: &[Result<Vec<V>, String>]) -> Result<bool, String> {
    let ctx = || format!("for {input:?}");
    let errs: Vec<_> = res.iter().enumerate().filter_map(|(i, r)| r.as_ref().err().map(|e| format!("party {i}: {e}"))).collect();
    let want = (op.plain)(input);
    if let Want::Refuse = want {
        return if errs.len() == 3 { Ok(false) } else { Err(format!("not every party refuses ({errs:?}) {}", ctx())) };
    }
    if errs.len() == 3 && op.lucky {
        return Ok(false);
    }
    if !errs.is_empty() {
        return Err(format!("{errs:?} {}", ctx()));
    }
    let got: Vec<&Vec<V>> = res.iter().map(|r| r.as_ref().unwrap()).collect();
    let n = match &want {
        Want::Is(w) => w.len(),
        Want::Any(n) => *n,
        Want::Sat(w) => w.len(),
        Want::Refuse => unreachable!(),
    };
    for (i, g) in got.iter().enumerate() {
        if g.len() != n {
            return Err(format!("party {i} has {} results instead of {n} {}", g.len(), ctx()));
        }
    }
    for k in 0..n {
        let v = value([got[0][k], got[1][k], got[2][k]]).map_err(|e| format!("result {k} is no sharing: {e} {}", ctx()))?;
        match &want {
            Want::Is(w) => {
                if w[k] != v {
                    return Err(format!("result {k} is {v} instead of {} {}", w[k], ctx()));
                }
            }
            Want::Sat(w) => {
                if !w[k](v) {
                    return Err(format!("result {k} is {v} {}", ctx()));
                }
            }
            _ => {}
        }
    }
    Ok(true)
}

/// One world: the operation on a batch of inputs, one after the other.
fn world(op: &Op, a2b: A2BType, salt: u64, batch: &[(u64, Vec<u128>)], cap: usize) -> Result<(u64, u64), String> {
    hub().cap = cap;
    script(salt);
    let (o, b) = (op.clone(), std::rc::Rc::new(batch.to_vec()));
    let b2 = b.clone();
    let res = run(3, move |i, net| -> Vec<Result<Vec<V>, String>> {
        let mut st = match Rep3State::new(&net, a2b) {
            Ok(s) => s,
            Err(e) => return b2.iter().map(|_| Err(format!("no state: {e}"))).collect(),
        };
        b2.iter()
            .map(|(nr, vals)| {
                let a = Args { s: o.ins.iter().zip(vals).enumerate().map(|(k, (d, v))| hold(d.k, &parts(d, *v, salt, *nr, k as u64), i)).collect() };
                (o.run)(&net, &mut st, &a).map_err(|e| format!("{e}"))
            })
            .collect()
    });
    let mut r = Vec::new();
    for (i, x) in res.into_iter().enumerate() {
        r.push(x.map_err(|e| format!("party {i} panicked: {e}; inputs {:?}", b.iter().map(|b| &b.1).take(5).collect::<Vec<_>>()))?);
    }
    let (mut ok, mut bad) = (0, 0);
    for (k, (_, input)) in b.iter().enumerate() {
        let one: Vec<_> = r.iter().map(|p| p[k].clone()).collect();
        if judge(op, input, &one).map_err(|e| format!("{e} (draws {salt}, {a2b:?})"))? {
            ok += 1;
        } else {
            bad += 1;
        }
    }
    if bad == 0 && undelivered() != 0 {
        return Err(format!("{} messages were never received", undelivered()));
    }
    Ok((ok, bad))
}

/// Runs the operation on every combination of inputs and every choice of random draws, and
/// explores the schedules of a few of them.
pub fn exhaust(c: &Check, op: &Op, label: &str, salts: std::ops::Range<u64>, batch: usize, deviations: u32) {
    let name = format!("{}-{label}", op.name);
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let all = combos(&op.ins);
    let types: &[A2BType] = if op.conv { &[A2BType::Direct, A2BType::Yao] } else { &[A2BType::Direct] };
    let (mut ok, mut total) = (0, 0);
    for a2b in types {
        for salt in salts.clone() {
            let mut todo: Vec<Vec<(u64, Vec<u128>)>> = vec![];
            for (i, v) in all.iter().enumerate() {
                let alone = op.lucky || matches!((op.plain)(v), Want::Refuse);
                match todo.last_mut() {
                    Some(b) if !alone && b.len() < batch => b.push((i as u64, v.clone())),
                    _ => todo.push(vec![(i as u64, v.clone())]),
                }
            }
            let n = todo.len();
            let todo = std::sync::Arc::new(todo);
            let (o2, a2, t2) = (op.clone(), *a2b, todo.clone());
            let good = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
            let g2 = good.clone();
            let mut e = explorer(0, 300);
            e.bounds.threads = 1;
            e.bounds.max_executions = u64::MAX;
            let s = e.explore(move |out| {
                let k = mc::pick(n as u32, "inputs") as usize;
                out.set(world(&o2, a2, salt, &t2[k], 0).map(|(ok, _)| {
                    g2.fetch_add(ok, std::sync::atomic::Ordering::Relaxed);
                    "done".to_string()
                }));
            });
            ok += good.load(std::sync::atomic::Ordering::Relaxed);
            total += all.len() as u64;
            c.explored(&name, &s);
            if s.violation.is_some() {
                return;
            }
        }
        // Schedules, with links that hold one message or any number.
        if deviations > 0 {
            let mid = [all.len() / 3, all.len() - 1];
            for (which, cap) in [(mid[0], 0usize), (mid[1], 1)] {
                let (o2, a2, v) = (op.clone(), *a2b, all[which].clone());
                let mut e = explorer(deviations, 300);
                e.bounds.threads = 1;
                e.bounds.max_executions = q(60, 5_000);
                let s = e.explore(move |out| {
                    out.set(world(&o2, a2, 7, &[(0, v.clone())], cap).map(|_| "done".to_string()));
                });
                if s.violation.is_some() {
                    c.explored(&name, &s);
                    return;
                }
                c.count(s.executions, s.transitions);
            }
        }
    }
    c.count(total, 0);
    c.expect(ok > 0 || all.iter().all(|v| matches!((op.plain)(v), Want::Refuse)), &name, || format!("never succeeds on {total} inputs"));
}
