//! R04: what one party sees does not depend on the others' secrets; correlated randomness.
//!
//! The party's inputs and every random value it holds are fixed (to several choices); every random
//! value that only the other two hold is enumerated completely, for every choice of secrets. The
//! distributions of the party's view must be equal for all secrets that lead to the same opened
//! results.
use crate::ops::*;
use mpc_core::protocols::rep3::{self, arithmetic as ar, binary as bi, conversion as cv, pointshare as pt};
use mpc_core::protocols::rep3_ring::{self as rr, arithmetic as rar, binary as rbi, conversion as rcv, gadgets::{lut_field as gf, ohv}};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

type Seed = [u8; 32];
type Key = (Seed, u64);

#[derive(Clone)]
pub struct View {
    pub name: String,
    pub ins: Vec<In>,
    /// Field elements are drawn modulo this.
    pub p: u64,
    /// Answers to 32-bit draws.
    pub dom32: Vec<u64>,
    pub max_draws: usize,
    pub run: Arc<dyn Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>> + Send + Sync>,
    /// What everyone may learn from the secrets.
    pub allowed: Arc<dyn Fn(&[u128]) -> Vec<u128> + Send + Sync>,
}

fn view<F: PrimeField>(
    name: &str,
    ins: Vec<In>,
    run: impl Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>> + Send + Sync + 'static,
    allowed: impl Fn(&[u128]) -> Vec<u128> + Send + Sync + 'static,
) -> View {
    View { name: format!("{name}-p{}", pm::<F>()), ins, p: pm::<F>() as u64, dom32: vec![], max_draws: 10, run: Arc::new(run), allowed: Arc::new(allowed) }
}
fn rview(
    name: &str,
    dom32: Vec<u64>,
    ins: Vec<In>,
    run: impl Fn(&SimNet, &mut Rep3State, &Args) -> eyre::Result<Vec<V>> + Send + Sync + 'static,
    allowed: impl Fn(&[u128]) -> Vec<u128> + Send + Sync + 'static,
) -> View {
    View { name: name.into(), ins, p: 3, dom32, max_draws: 10, run: Arc::new(run), allowed: Arc::new(allowed) }
}

/// How a draw is used.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Draw {
    /// A field element: drawn again when too large.
    Field,
    /// A word.
    Word,
    /// A 32-bit draw.
    Short,
    /// It has no effect (the upper limbs of a word).
    None,
}

struct Seen {
    /// Draws in order of their first use.
    keys: Vec<Key>,
    short: BTreeSet<Key>,
    holders: BTreeMap<Seed, BTreeSet<usize>>,
    /// Everything that happened.
    all: u64,
}

/// One run with fixed inputs, all draws given by `f`.
fn once(v: &View, secrets: &[u128], f: Arc<dyn Fn(&Key) -> Option<u64> + Send + Sync>) -> Result<Seen, String> {
    let out: Arc<Mutex<Option<Seen>>> = Default::default();
    let (o, v, x) = (out.clone(), v.clone(), secrets.to_vec());
    let mut e = explorer(0, 60);
    e.bounds.threads = 1;
    e.bounds.max_executions = 1;
    e.must_finish = false;
    let s = e.explore(move |res| {
        let keys = Rc::new(RefCell::new(vec![]));
        let short = Rc::new(RefCell::new(BTreeSet::new()));
        let (k2, f2, p) = (keys.clone(), f.clone(), v.p);
        let fixed = move |s: &Seed, pos: u64, m: u64| f2(&(*s, pos)).unwrap_or_else(|| mix(pos, u64::from_le_bytes(s[..8].try_into().unwrap()), 3) % m);
        let fixed2 = fixed.clone();
        simrand::ctl::ctl().script = Some(Rc::new(move |s, pos| {
            k2.borrow_mut().push((*s, pos));
            // Not zero, which operations might have to reject.
            fixed(s, pos, p - 1).wrapping_add(1)
        }));
        if !v.dom32.is_empty() {
            let (k3, s3, dom) = (keys.clone(), short.clone(), v.dom32.clone());
            simrand::ctl::ctl().script32 = Some(Rc::new(move |s, pos| {
                k3.borrow_mut().push((*s, pos));
                s3.borrow_mut().insert((*s, pos));
                dom[(fixed2(s, pos, dom.len() as u64) % dom.len() as u64) as usize]
            }));
        }
        let (v2, x) = (v.clone(), x.clone());
        let r = run(3, move |i, net| party(&v2, i, &net, 5, &x, 99));
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for i in 0..3 {
            see(i, &r, &mut h);
        }
        *o.lock().unwrap() = Some(Seen { keys: keys.borrow().clone(), short: short.borrow().clone(), holders: simrand::ctl::ctl().holders.clone(), all: h.finish() });
        res.set(Ok("done".into()));
    });
    if let Some(v) = s.violation {
        return Err(format!("{v:?}"));
    }
    out.lock().unwrap().take().ok_or("no run".into())
}

fn see(i: usize, r: &[Result<eyre::Result<Vec<V>>, String>], h: &mut impl Hasher) {
    if let Some(view) = hub().views.get(&i) {
        for (net, from, data) in view {
            (net, from, &data[..]).hash(h);
        }
    }
    match &r[i] {
        Ok(Ok(o)) => {
            for v in o {
                (v.a, v.b).hash(h);
            }
        }
        Ok(Err(_)) => 1u8.hash(h),
        Err(e) => e.hash(h),
    }
}

/// What party `i` does; the inputs are split such that party `known` holds parts given by `salt`.
fn party(v: &View, i: usize, net: &SimNet, salt: u64, secrets: &[u128], known: usize) -> eyre::Result<Vec<V>> {
    inline_rayon();
    let mut st = Rep3State::new(net, A2BType::Direct)?;
    simrand::ctl::ctl().armed.insert(i);
    let s = v
        .ins
        .iter()
        .zip(secrets)
        .enumerate()
        .map(|(k, (d, x))| {
            let mut q = parts(d, *x, salt, 0, k as u64);
            if known < 3 {
                // parts() puts the dependent part last: it goes to the one this party lacks.
                let free = [q[0], q[1]];
                q[(known + 1) % 3] = q[2];
                q[known] = free[0];
                q[(known + 2) % 3] = free[1];
            }
            hold(d.k, &q, i)
        })
        .collect();
    let r = (v.run)(net, &mut st, &Args { s });
    simrand::ctl::ctl().armed.remove(&i);
    r
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn explore(c: &Check, v: &View) {
    if !c.selected(&v.name) || c.failed() {
        return;
    }
    c.at(&v.name);
    let b = 64 - v.p.leading_zeros();
    let secrets = combos(&v.ins);
    let mut kinds: HashMap<Key, Draw> = HashMap::new();
    let mut holders = BTreeMap::new();
    for x in &secrets {
        let first = match once(v, x, Arc::new(|_| None)) {
            Ok(s) => s,
            Err(e) => {
                c.violation(&v.name, &e, json!({}));
                return;
            }
        };
        for k in &first.keys {
            let kind = kinds.entry(*k).or_insert(Draw::None);
            if *kind != Draw::None {
                continue;
            }
            if first.short.contains(k) {
                *kind = Draw::Short;
                continue;
            }
            for w in 0..1u64 << b {
                let k2 = *k;
                let Ok(s) = once(v, x, Arc::new(move |k| (*k == k2).then_some(w.wrapping_sub(1)))) else { continue };
                if w >= v.p && s.keys.len() > first.keys.len() {
                    *kind = Draw::Field;
                } else if s.all != first.all && *kind == Draw::None {
                    *kind = Draw::Word;
                }
            }
        }
        holders.extend(first.holders);
    }
    let kinds = Arc::new(kinds);
    let holders = Arc::new(holders);
    // Weights of the histories are multiples of 1 / unit^max_draws.
    let sizes = [v.p as u128, 1 << b, v.dom32.len().max(1) as u128];
    let unit = sizes.iter().fold(1u128, |l, s| l / gcd(l, *s) * s);
    for me in 0..3usize {
        let unknown = kinds.iter().filter(|(k, d)| **d != Draw::None && !holders[&k.0].contains(&me)).count();
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("{} party {me}: {unknown} unknown of {:?} draws", v.name, kinds.values().filter(|k| **k != Draw::None).count());
        }
        if unknown > v.max_draws {
            c.incomplete(format!("{}: {unknown} unknown draws", v.name));
            return;
        }
        for salt in 0..if unknown > 8 { 1 } else { q(2u64, 4) } {
            type Hist = HashMap<usize, HashMap<u64, u128>>;
            let hist: Arc<Mutex<Hist>> = Default::default();
            let failed: Arc<Mutex<Option<String>>> = Default::default();
            let strange = Arc::new(Mutex::new(None::<String>));
            let (st2, max_draws) = (strange.clone(), v.max_draws);
            let (h2, f2, v2, k2, sec) = (hist.clone(), failed.clone(), v.clone(), kinds.clone(), secrets.clone());
            let holders = holders.clone();
            let mut e = explorer(0, 600);
            e.bounds.threads = 1;
            e.bounds.max_executions = u64::MAX;
            let stats = e.explore(move |out| {
                let which = mc::pick(sec.len() as u32, "secrets") as usize;
                let (k3, ho, f3, s3, p) = (k2.clone(), holders.clone(), f2.clone(), st2.clone(), v2.p);
                let chosen: Rc<RefCell<(u128, usize)>> = Rc::new(RefCell::new((1, 0)));
                let ch = chosen.clone();
                // A fixed value for a draw this party knows, any value for the others.
                let draw = move |s: &Seed, pos: u64, word: u64, short: bool, dom: u64| -> u64 {
                    let mine = match ho.get(s) {
                        Some(h) => h.contains(&me),
                        None => {
                            f3.lock().unwrap().get_or_insert("a generator of unknown origin".into());
                            true
                        }
                    };
                    let kind = k3.get(&(*s, pos)).copied();
                    if mine || kind == Some(Draw::None) {
                        let m = if short { dom } else { p };
                        return mix(pos, u64::from_le_bytes(s[..8].try_into().unwrap()), salt) % m;
                    }
                    if kind.is_none() || ch.borrow().1 == max_draws {
                        s3.lock().unwrap().get_or_insert(format!("more draws than expected, at {pos}"));
                        assert!(pos < 10_000, "endless draws");
                        return 1;
                    }
                    let size = match kind {
                        _ if short => dom,
                        Some(Draw::Field) => p,
                        _ => word,
                    };
                    let mut c = ch.borrow_mut();
                    c.0 *= unit / size as u128;
                    c.1 += 1;
                    mc::pick(size as u32, "draw") as u64
                };
                let d2 = draw.clone();
                simrand::ctl::ctl().script = Some(Rc::new(move |s, pos| draw(s, pos, 1 << b, false, 1)));
                if !v2.dom32.is_empty() {
                    let dom = v2.dom32.clone();
                    simrand::ctl::ctl().script32 = Some(Rc::new(move |s, pos| dom[d2(s, pos, 1, true, dom.len() as u64) as usize]));
                }
                let (v3, x) = (v2.clone(), sec[which].clone());
                let res = run(3, move |i, net| party(&v3, i, &net, salt, &x, me));
                if let Err(e) = &res[me] {
                    f2.lock().unwrap().get_or_insert(format!("party {me} panicked: {e}"));
                }
                let weight = {
                    let c = chosen.borrow();
                    (c.1..max_draws).fold(c.0, |w, _| w * unit)
                };
                let mut h = std::collections::hash_map::DefaultHasher::new();
                see(me, &res, &mut h);
                *h2.lock().unwrap().entry(which).or_default().entry(h.finish()).or_default() += weight;
                out.set(Ok("view".into()));
            });
            c.explored(&v.name, &stats);
            if stats.capped {
                return;
            }
            if let Some(f) = failed.lock().unwrap().take() {
                c.violation(&v.name, &f, json!({"party": me}));
                return;
            }
            if let Some(s) = strange.lock().unwrap().take() {
                c.incomplete(format!("{}: {s}", v.name));
                return;
            }
            let hist = hist.lock().unwrap();
            let mut groups: BTreeMap<Vec<u128>, usize> = BTreeMap::new();
            for (i, s) in secrets.iter().enumerate() {
                let g = *groups.entry((v.allowed)(s)).or_insert(i);
                let (a, b) = (&hist[&g], &hist[&i]);
                if a != b {
                    let only = b.keys().filter(|k| !a.contains_key(k)).count();
                    c.violation(
                        &v.name,
                        &format!("the view of party {me} tells secrets {:?} and {:?} apart: {} and {} different views, {only} that occur only for the second", secrets[g], s, a.len(), b.len()),
                        json!({"party": me, "secrets": [format!("{:?}", secrets[g]), format!("{s:?}")], "draws": salt}),
                    );
                    return;
                }
            }
        }
    }
}

fn fs<F: PrimeField>(v: Vec<FS<F>>) -> eyre::Result<Vec<V>> {
    Ok(v.into_iter().map(vf).collect())
}
fn none(_: &[u128]) -> Vec<u128> {
    vec![]
}

/// Makes rayon run everything on this thread, inside the world.
pub fn inline_rayon() {
    thread_local! { static POOL: RefCell<Option<rayon::ThreadPool>> = const { RefCell::new(None) }; }
    POOL.with(|p| {
        p.borrow_mut().get_or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("a pool of this thread"));
    });
}

fn field_views<F: FieldUint>() -> Vec<View> {
    let p = pm::<F>();
    let a = || af::<F>();
    vec![
        view::<F>("mul", vec![a(), a()], |n, s, x| fs::<F>(vec![ar::mul(x.f(0), x.f(1), n, s)?]), none),
        view::<F>("mul_vec", vec![a(), a()], |n, s, x| fs::<F>(ar::mul_vec(&[x.f(0), x.f(1)], &[x.f(1), x.f(1)], n, s)?), none),
        view::<F>("local_mul_vec", vec![a(), a()], |n, s, x| {
            let l = ar::local_mul_vec::<F>(&[x.f(0), x.f(1)], &[x.f(1), x.f(1)], s);
            fs(ar::reshare_vec(l, n)?)
        }, none),
        view::<F>("mul-twice", vec![a(), a()], |n, s, x| {
            let m = ar::mul::<F, _>(x.f(0), x.f(1), n, s)?;
            fs(vec![ar::mul(m, x.f(0), n, s)?])
        }, none),
        view::<F>("mul_open", vec![a(), a()], |n, s, x| Ok(vec![of(ar::mul_open::<F, _>(x.f(0), x.f(1), n, s)?)]), move |x| vec![x[0] * x[1] % p]),
        view::<F>("mul_open_vec", vec![a(), a()], |n, s, x| Ok(ar::mul_open_vec::<F, _>(&[x.f(0), x.f(1)], &[x.f(1), x.f(1)], n, s)?.into_iter().map(of).collect()), move |x| vec![x[0] * x[1] % p, x[1] * x[1] % p]),
        view::<F>("mul-then-open", vec![a(), a()], |n, s, x| {
            let m = ar::mul::<F, _>(x.f(0), x.f(1), n, s)?;
            Ok(vec![of(ar::open(m, n)?)])
        }, move |x| vec![x[0] * x[1] % p]),
        view::<F>("open", vec![a(), a()], |n, _, x| Ok(vec![of(ar::open::<F, _>(x.f::<F>(0) + x.f(1), n)?)]), move |x| vec![(x[0] + x[1]) % p]),
        view::<F>("inv", vec![a()], |n, s, x| fs::<F>(vec![ar::inv(x.f(0), n, s)?]), |x| vec![(x[0] == 0) as u128]),
        view::<F>("inv_vec", vec![a(), a()], |n, s, x| fs::<F>(ar::inv_vec(&[x.f(0), x.f(1)], n, s)?), |x| vec![(x[0] == 0) as u128, (x[1] == 0) as u128]),
        view::<F>("div", vec![a(), a()], |n, s, x| fs::<F>(vec![ar::div(x.f(0), x.f(1), n, s)?]), |x| vec![(x[1] == 0) as u128]),
        view::<F>("sqrt", vec![a()], |n, s, x| fs::<F>(vec![ar::sqrt(x.f(0), n, s)?]), move |x| vec![(x[0] == 0) as u128, (1..p).any(|r| r * r % p == x[0]) as u128]),
        view::<F>("cmux", vec![a01::<F>(), a(), a()], |n, s, x| fs::<F>(vec![ar::cmux(x.f(0), x.f(1), x.f(2), n, s)?]), none),
        view::<F>("arithmetic_xor", vec![a01::<F>(), a01::<F>()], |n, s, x| fs::<F>(vec![ar::arithmetic_xor(x.f(0), x.f(1), n, s)?]), none),
        view::<F>("rand-open", vec![a()], |n, s, x| {
            let r = ar::rand::<F>(s);
            Ok(vec![of(ar::open(ar::add(x.f(0), r), n)?)])
        }, none),
        view::<F>("pow_public", vec![a()], |n, s, x| fs::<F>(vec![ar::pow_public(x.f(0), fld(3), n, s)?]), none),
        view::<F>("bit_inject", vec![b1()], |n, s, x| fs::<F>(vec![cv::bit_inject(&x.b(0), n, s)?]), none),
        view::<F>("bit_inject_many", vec![b1(), b1()], |n, s, x| fs::<F>(cv::bit_inject_many(&[x.b(0), x.b(1)], n, s)?), none),
        view::<F>("bit_inject_from_bits", vec![b1()], |n, s, x| {
            let w = x.b::<F>(0);
            fs::<F>(vec![cv::bit_inject_from_bits((unum(&w.a) & 1 == 1, unum(&w.b) & 1 == 1), n, s)?])
        }, none),
        view::<F>("and", vec![bw::<F>(), bw::<F>()], |n, s, x| Ok(vec![vb(bi::and::<F, _>(&x.b(0), &x.b(1), n, s)?)]), none),
        view::<F>("and_vec", vec![b1(), b1()], |n, s, x| Ok(bi::and_vec::<F, _>(&[x.b(0), x.b(1)], &[x.b(1), x.b(1)], n, s)?.into_iter().map(vb).collect()), none),
        view::<F>("or", vec![bw::<F>(), bw::<F>()], |n, s, x| Ok(vec![vb(bi::or::<F, _>(&x.b(0), &x.b(1), n, s)?)]), none),
        view::<F>("binary-open", vec![bw::<F>(), bw::<F>()], |n, _, x| Ok(vec![ou(bi::open::<F, _>(&bi::xor::<F>(&x.b(0), &x.b(1)), n)?)]), |x| vec![x[0] ^ x[1]]),
        view::<F>("binary-cmux", vec![b1(), bw::<F>(), bw::<F>()], |n, s, x| Ok(vec![vb(bi::cmux::<F, _>(&x.b(0), &x.b(1), &x.b(2), n, s)?)]), none),
        view::<F>("binary-is_zero", vec![bw::<F>()], |n, s, x| Ok(vec![vb(bi::is_zero::<F, _>(&x.b(0), n, s)?)]), none),
    ]
}

/// Ten unknown values and more: hundreds of thousands of runs each.
fn conversion_views<F: FieldUint>() -> Vec<View> {
    let a = || af::<F>();
    vec![
        view::<F>("a2b", vec![a()], |n, s, x| Ok(vec![vb(cv::a2b::<F, _>(x.f(0), n, s)?)]), none),
        view::<F>("b2a", vec![bp::<F>()], |n, s, x| fs::<F>(vec![cv::b2a(&x.b(0), n, s)?]), none),
    ]
}

fn point_views<C: Tiny>() -> Vec<View>
where
    C::ScalarField: FieldUint,
{
    let p = pm::<C::ScalarField>();
    vec![
        // Points are drawn by rejection and never zero: with groups this small, masking with them shows.
        view::<C::ScalarField>("open_point", vec![pt::<C>(), pt::<C>()], |n, _, x| Ok(vec![vo(pt::open_point::<C, _>(&(x.c::<C>(0) + x.c(1)), n)?.log() as u128)]), move |x| vec![(x[0] + x[1]) % p]),
    ]
}
use crate::ops::pt;

fn ring_views() -> Vec<View> {
    let bit = || vec![0u64, 1 << 31];
    let byte = || (0..256u64).collect::<Vec<_>>();
    let b = || ringx::<Bit>(vec![0, 1]);
    let some = || ring::<u8>(vec![0, 1, 128, 255]);
    let xs = || ringx::<u8>(vec![0, 1, 128, 255]);
    // Answers that cover both bits (the top bit) and k-bit numbers.
    let words = |k: u64| (0..1 << k).flat_map(|i| [i, i | 1 << 31]).collect::<Vec<u64>>();
    let at = |k: u32| In { bits: k, ..ringx::<u8>((0..1 << k).collect()) };
    vec![
        rview("bit-mul", bit(), vec![ring::<Bit>(vec![0, 1]), ring::<Bit>(vec![0, 1])], |n, s, x| Ok(vec![vr(rar::mul::<Bit, _>(x.r(0), x.r(1), n, s)?)]), none),
        rview("bit-and", bit(), vec![b(), b()], |n, s, x| Ok(vec![vx(rbi::and::<Bit, _>(&x.x(0), &x.x(1), n, s)?)]), none),
        rview("bit-and-twice", bit(), vec![b(), b(), b()], |n, s, x| {
            let a = rbi::and::<Bit, _>(&x.x(0), &x.x(1), n, s)?;
            Ok(vec![vx(rbi::and(&a, &x.x(2), n, s)?)])
        }, none),
        rview("bit-and-then-open", bit(), vec![b(), b()], |n, s, x| {
            let a = rbi::and::<Bit, _>(&x.x(0), &x.x(1), n, s)?;
            Ok(vec![vo(rbi::open(&a, n)?.0.to())])
        }, |x| vec![x[0] & x[1]]),
        rview("byte-mul", byte(), vec![some(), some()], |n, s, x| Ok(vec![vr(rar::mul::<u8, _>(x.r(0), x.r(1), n, s)?)]), none),
        rview("byte-mul_open", byte(), vec![some(), some()], |n, s, x| Ok(vec![vo(rar::mul_open::<u8, _>(x.r(0), x.r(1), n, s)?.0.to())]), |x| vec![x[0] * x[1] & 255]),
        rview("byte-and", byte(), vec![xs(), xs()], |n, s, x| Ok(vec![vx(rbi::and::<u8, _>(&x.x(0), &x.x(1), n, s)?)]), none),
        rview("byte-cmux", byte(), vec![ring::<u8>(vec![0, 1]), some(), some()], |n, s, x| Ok(vec![vr(rar::cmux::<u8, _>(x.r(0), x.r(1), x.r(2), n, s)?)]), none),
        rview("byte-open", vec![], vec![some(), some()], |n, _, x| Ok(vec![vo(rar::open::<u8, _>(x.r::<u8>(0) + x.r(1), n)?.0.to())]), |x| vec![(x[0] + x[1]) & 255]),
        rview("byte-inject", byte(), vec![In { bits: 1, ..ringx::<u8>(vec![0, 1]) }], |n, s, x| Ok(vec![vr(rcv::bit_inject::<u8, _>(&x.x(0), n, s)?)]), none),
        rview("bit-inject-to-p3", bit(), vec![b()], |n, s, x| fs::<F3>(rcv::bit_inject_from_bits_to_field_many(&[x.x(0)], n, s)?), none),
        rview("ohv-2", words(2), vec![In { bits: 2, ..ringx::<u8>((0..4).collect()) }], |n, s, x| Ok(ohv::ohv::<u8, _>(2, x.x(0), n, s)?.into_iter().map(vx).collect()), none),
        rview("ohv-3", words(4), vec![In { bits: 3, ..ringx::<u8>((0..8).collect()) }], |n, s, x| Ok(ohv::ohv::<u8, _>(3, x.x(0), n, s)?.into_iter().map(vx).collect()), none),
        rview("bit-a2b", bit(), vec![ring::<Bit>(vec![0, 1])], |n, s, x| Ok(vec![vx(rcv::a2b::<Bit, _>(x.r(0), n, s)?)]), none),
        rview("bit-b2a", bit(), vec![b()], |n, s, x| Ok(vec![vr(rcv::b2a::<Bit, _>(&x.x(0), n, s)?)]), none),
        rview("lut-read-public-2", words(1), vec![at(1)], |n, s, x| Ok(vec![vb(gf::read_public_lut::<F3, u8, _>(&[fld(2), fld(1)], x.x(0), n, s)?)]), none),
        rview("lut-read-public-4", words(2), vec![at(2)], |n, s, x| Ok(vec![vb(gf::read_public_lut::<F3, u8, _>(&[fld(2), fld(1), fld(0)], x.x(0), n, s)?)]), none),
        rview("lut-read-shared-2", words(1), vec![at(1), af::<F3>()], |n, s, x| Ok(vec![of(gf::read_shared_lut::<F3, u8, _>(&[x.f(1), x.f(1) + x.f(1)], x.x(0), n, s)?)]), none),
        rview("lut-write-2", words(1), vec![at(1), af::<F3>()], |n, s, x| {
            let mut lut = [x.f::<F3>(1), x.f::<F3>(1) + x.f(1)];
            gf::write_lut::<F3, u8, _>(&x.f(1), &mut lut, x.x(0), n, s)?;
            fs(lut.to_vec())
        }, none),
        rview("reshare-from-2-to-3", vec![], vec![af::<F3>(), af::<F3>()], |n, s, x| {
            let some = (s.id != PartyID::ID1).then(|| vec![x.f::<F3>(0), x.f(1)]);
            fs(ar::reshare_from_2_to_3_parties(some, 2, PartyID::ID1, n, s)?)
        }, none),
    ]
}

/// Everything one party does in a history: results of each action, by kind.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    /// Parts that add up to zero over the parties.
    ZeroSum(Vec<ark_bn254::Fr>),
    ZeroXor(Vec<u64>),
    ZeroRing(Vec<u64>),
    ZeroPoint(Vec<ark_bn254::G1Projective>),
    /// (own, previous party's).
    Pair(Vec<(u64, u64)>),
    /// The same at all parties.
    Same(u64),
    /// The same at the two garblers.
    Garblers(Option<u64>),
    /// Different at all parties.
    Own(u64),
    Nothing,
}
const ACTIONS: usize = 16;

fn act(a: usize, st: &mut Rep3State) -> Got {
    use ark_bn254::{Fr, G1Projective as G};
    use mpc_core::uint::U256;
    use rand::Rng;
    fn h<T: ark_serialize::CanonicalSerialize>(x: T) -> u64 {
        let mut v = vec![];
        x.serialize_uncompressed(&mut v).unwrap();
        v.chunks(8).enumerate().fold(0, |a, (i, c)| mix(a, i as u64, u64::from_le_bytes({ let mut b = [0; 8]; b[..c.len()].copy_from_slice(c); b })))
    }
    let id = st.id;
    let r = &mut st.rngs.rand;
    match a {
        0 => Got::ZeroSum(vec![r.masking_field_element()]),
        1 => Got::ZeroSum(r.masking_field_elements_vec(2)),
        2 => Got::ZeroRing(vec![r.masking_element::<RingElement<u64>>().0]),
        3 => Got::ZeroRing(r.masking_elements_vec::<RingElement<u64>>(2).into_iter().map(|x| x.0).collect()),
        4 => Got::ZeroPoint(vec![r.masking_ec_element::<G>()]),
        5 => {
            let (x, y) = r.random_fes::<Fr>();
            Got::Pair(vec![(h(x), h(y))])
        }
        6 => {
            let (x, y) = r.random_ecs::<G>();
            Got::Pair(vec![(h(x), h(y))])
        }
        7 => {
            let (x, y) = r.random_elements::<u64>();
            Got::Pair(vec![(x, y)])
        }
        8 => {
            let (x, y) = r.random_uint::<U256>(250);
            Got::Pair(vec![(h(x), h(y))])
        }
        9 => {
            let (x, y) = r.random_seeds();
            Got::Pair(vec![(h(x), h(y))])
        }
        10 => {
            // The single-sided draws, both sides.
            let (x, y) = (r.random_field_element_rng1::<Fr>(), r.random_field_element_rng2::<Fr>());
            let (u, v) = (r.random_element_rng1::<u64>(), r.random_element_rng2::<u64>());
            let (w, z) = (r.random_uint_rng1::<U256>(250), r.random_uint_rng2::<U256>(250));
            Got::Pair(vec![(h(x), h(y)), (u, v), (h(w), h(z))])
        }
        11 => {
            let (x, y) = r.random_perm((0..40u64).collect());
            Got::Pair(vec![(h(x), h(y))])
        }
        12 => Got::Same(st.rngs.generate_shared(id)),
        13 => Got::Garblers((id != PartyID::ID0).then(|| st.rngs.generate_garbler_randomness(id))),
        14 => Got::Own(st.rng.r#gen()),
        _ => Got::Nothing,
    }
}

/// All histories of draws and forks: the parties' draws fit together and never repeat.
fn histories(c: &Check, depth: usize) {
    let name = format!("histories-{depth}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let mut e = explorer(0, 600);
    e.bounds.max_executions = u64::MAX;
    let s = e.explore(move |out| {
        // Each step: an action on one of the states that exist, or forking one of them.
        let mut states = 1;
        let steps: Vec<(usize, usize)> = (0..depth)
            .map(|_| {
                let on = if states > 1 { mc::pick(states, "state") as usize } else { 0 };
                let a = mc::pick(ACTIONS as u32, "action") as usize;
                if a == ACTIONS - 1 {
                    states += 1;
                }
                (on, a)
            })
            .collect();
        let drawn: Rc<RefCell<Vec<(usize, Seed)>>> = Default::default();
        let now = Rc::new(RefCell::new(usize::MAX));
        let (d2, n2) = (drawn.clone(), now.clone());
        simrand::ctl::ctl().script = Some(Rc::new(move |s, pos| {
            d2.borrow_mut().push((*n2.borrow(), *s));
            let k = s.chunks(8).fold(0, |a, c| mix(a, 7, u64::from_le_bytes(c.try_into().unwrap())));
            mix(k, pos, 5)
        }));
        let (st2, n2) = (steps.clone(), now.clone());
        let res = run(3, move |_, net| -> eyre::Result<Vec<Got>> {
            let mut all = vec![Rep3State::new(&net, A2BType::Direct)?];
            let mut got = vec![];
            for (on, a) in &st2 {
                *n2.borrow_mut() = *a;
                if *a == ACTIONS - 1 {
                    let f = all[*on].fork(0)?;
                    all.push(f);
                    got.push(Got::Nothing);
                } else {
                    got.push(act(*a, &mut all[*on]));
                }
                *n2.borrow_mut() = usize::MAX;
            }
            // One more draw of every kind from every state.
            for s in &mut all {
                got.push(act(5, s));
                got.push(act(12, s));
                got.push(act(14, s));
                got.push(act(1, s));
            }
            Ok(got)
        });
        let judge = || -> Result<String, String> {
            let mut g = vec![];
            for (i, r) in res.into_iter().enumerate() {
                g.push(r.map_err(|e| format!("party {i} panicked: {e}"))?.map_err(|e| format!("party {i}: {e}"))?);
            }
            let mut fresh: BTreeSet<u64> = BTreeSet::new();
            let mut new = |x: u64, what: &str| if fresh.insert(x) { Ok(()) } else { Err(format!("{what}: a random value occurs twice")) };
            for k in 0..g[0].len() {
                match (&g[0][k], &g[1][k], &g[2][k]) {
                    (Got::Nothing, Got::Nothing, Got::Nothing) => {}
                    (Got::ZeroSum(a), Got::ZeroSum(b), Got::ZeroSum(d)) => {
                        for i in 0..a.len() {
                            if !(a[i] + b[i] + d[i]).is_zero() || a.len() != b.len() || b.len() != d.len() {
                                return Err("field masks do not add up to zero".into());
                            }
                            for x in [a[i], b[i], d[i]] {
                                new(x.into_bigint().0[0], "mask")?;
                            }
                        }
                    }
                    (Got::ZeroRing(a), Got::ZeroRing(b), Got::ZeroRing(d)) => {
                        for i in 0..a.len() {
                            if a[i].wrapping_add(b[i]).wrapping_add(d[i]) != 0 || a.len() != b.len() || b.len() != d.len() {
                                return Err("ring masks do not add up to zero".into());
                            }
                            for x in [a[i], b[i], d[i]] {
                                new(x, "ring mask")?;
                            }
                        }
                    }
                    (Got::ZeroPoint(a), Got::ZeroPoint(b), Got::ZeroPoint(d)) => {
                        if !(a[0] + b[0] + d[0]).is_zero() || a[0].is_zero() || a[0] == b[0] {
                            return Err("point masks do not add up to zero, or are no masks".into());
                        }
                    }
                    (Got::Pair(a), Got::Pair(b), Got::Pair(d)) => {
                        for i in 0..a.len() {
                            if a[i].1 != d[i].0 || b[i].1 != a[i].0 || d[i].1 != b[i].0 {
                                return Err(format!("pairs do not fit together: {:?} {:?} {:?}", a[i], b[i], d[i]));
                            }
                            for x in [a[i].0, b[i].0, d[i].0] {
                                new(x, "pair")?;
                            }
                        }
                    }
                    (Got::Same(a), Got::Same(b), Got::Same(d)) => {
                        if a != b || b != d {
                            return Err(format!("shared values differ: {a} {b} {d}"));
                        }
                        new(*a, "shared value")?;
                    }
                    (Got::Garblers(None), Got::Garblers(Some(a)), Got::Garblers(Some(b))) => {
                        if a != b {
                            return Err("the garblers' values differ".into());
                        }
                        new(*a, "garblers' value")?;
                    }
                    (Got::Own(a), Got::Own(b), Got::Own(d)) => {
                        for x in [a, b, d] {
                            new(*x, "own value")?;
                        }
                    }
                    x => return Err(format!("parties disagree about what happened: {x:?}")),
                }
            }
            // Who could have drawn them.
            for (a, seed) in drawn.borrow().iter() {
                let n = simrand::ctl::ctl().holders.get(seed).map_or(0, |h| h.len());
                let want = match a {
                    0..=11 | 13 => 2,
                    12 => 3,
                    14 => 1,
                    _ => continue,
                };
                if n != want {
                    return Err(format!("a generator of action {a} is held by {n} parties instead of {want}"));
                }
            }
            Ok("consistent".into())
        };
        out.set(judge().map_err(|e| format!("{e}; history (state, action) {steps:?}")));
    });
    c.explored(&name, &s);
}

/// What each party gets when a value is shared is the same for every value.
fn dealing(c: &Check) {
    fn uniform(c: &Check, name: &str, p: u64, values: u64, deal: impl Fn(u64, &mut TapeRng) -> [Vec<u64>; 3]) {
        let name = format!("dealing-{name}");
        if !c.selected(&name) || c.failed() {
            return;
        }
        c.at(&name);
        let mut first: Option<Vec<BTreeMap<Vec<u64>, u64>>> = None;
        for x in 0..values {
            let mut h = vec![BTreeMap::new(); 3];
            all_tapes(p, 1_000_000, |rng| {
                let d = deal(x, rng);
                for i in 0..3 {
                    *h[i].entry(d[i].clone()).or_insert(0u64) += 1;
                }
                c.count(1, 0);
            });
            let first = first.get_or_insert_with(|| h.clone());
            for i in 0..3 {
                let m: BTreeSet<u64> = h[i].values().copied().collect();
                c.expect(h[i] == first[i] && m.len() == 1, &name, || format!("the shares of party {i} tell value {x} from 0: {} and {} different ones", first[i].len(), h[i].len()));
            }
        }
    }
    fn two<F: PrimeField>(s: [Vec<FS<F>>; 3]) -> [Vec<u64>; 3] {
        s.map(|v| v.iter().flat_map(|s| [small(s.a), small(s.b)]).collect())
    }
    uniform(c, "field", 7, 7, |x, r| two(rep3::share_field_element::<F7, _>(F7::from(x), r).map(|s| vec![s])));
    uniform(c, "field-additive", 7, 7, |x, r| rep3::share_field_element_additive::<F7, _>(F7::from(x), r).map(|s| vec![small(s)]));
    uniform(c, "fields", 3, 9, |x, r| two(rep3::share_field_elements::<F3, _>(&[F3::from(x % 3), F3::from(x / 3)], r)));
    uniform(c, "fields-additive", 3, 9, |x, r| rep3::share_field_elements_additive::<F3, _>(&[F3::from(x % 3), F3::from(x / 3)], r).map(|s| s.into_iter().map(small).collect()));
    uniform(c, "maybe-fields", 3, 9, |x, r| two(rep3::share_maybe_field_elements::<F3, _>(&[Some(F3::from(x % 3)), None, Some(F3::from(x / 3))], r).map(|v| v.into_iter().flatten().collect())));
    uniform(c, "maybe-fields-additive", 3, 9, |x, r| rep3::share_maybe_field_elements_additive::<F3, _>(&[Some(F3::from(x % 3)), None, Some(F3::from(x / 3))], r).map(|s| s.into_iter().flatten().map(small).collect()));
    uniform(c, "bit", 2, 2, |x, r| rr::share_ring_element::<Bit, _>(RingElement(Bit::new(x == 1)), r).map(|s| vec![s.a.0.to() as u64, s.b.0.to() as u64]));
    uniform(c, "bit-binary", 2, 2, |x, r| rr::share_ring_element_binary::<Bit, _>(RingElement(Bit::new(x == 1)), r).map(|s| vec![s.a.0.to() as u64, s.b.0.to() as u64]));
    uniform(c, "bits", 2, 4, |x, r| rr::share_ring_elements::<Bit, _>(&[RingElement(Bit::new(x & 1 == 1)), RingElement(Bit::new(x & 2 == 2))], r).map(|s| s.iter().flat_map(|s| [s.a.0.to() as u64, s.b.0.to() as u64]).collect()));
    uniform(c, "bits-binary", 2, 4, |x, r| rr::share_ring_elements_binary::<Bit, _>(&[RingElement(Bit::new(x & 1 == 1)), RingElement(Bit::new(x & 2 == 2))], r).map(|s| s.iter().flat_map(|s| [s.a.0.to() as u64, s.b.0.to() as u64]).collect()));
    uniform(c, "bitwise", 4, 3, |x, r| rep3::share_binary::<F3, _>(F3::from(x), r).map(|s| vec![s.a.as_limbs()[0], s.b.as_limbs()[0]]));
    // Seeds: fresh for every part and every call, and no party gets all.
    let name = "dealing-seeds";
    if c.selected(name) {
        let mut rng = crate::r03::rand_chacha_rng(1);
        let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
        for round in 0..4 {
            for k in 0..4 {
                let v: Vec<F7> = (0..3).map(|i| F7::from(round + i)).collect();
                fn seeds<T: serde::Serialize>(x: T) -> Vec<Vec<u8>> {
                    fn walk(v: &serde_json::Value, out: &mut Vec<Vec<u8>>) {
                        match v {
                            serde_json::Value::Object(o) => {
                                for (k, v) in o {
                                    if k == "Seed" {
                                        out.push(v[0].to_string().into_bytes());
                                    } else {
                                        walk(v, out);
                                    }
                                }
                            }
                            serde_json::Value::Array(a) => a.iter().for_each(|v| walk(v, out)),
                            _ => {}
                        }
                    }
                    let mut out = vec![];
                    walk(&serde_json::to_value(x).unwrap(), &mut out);
                    out
                }
                let held: [Vec<Vec<u8>>; 3] = match k {
                    0 => rep3::share_field_elements_seeded::<F7, _, rep3::SeedRng>(&v, &mut rng).map(|s| [seeds(&s.a), seeds(&s.b)].concat()),
                    1 => rep3::share_field_elements_additive_seeded::<F7, _, rep3::SeedRng>(&v, &mut rng).map(seeds),
                    2 => rep3::share_field_element_seeded::<F7, _, rep3::SeedRng>(v[0], &mut rng).map(|s| [seeds(&s.a), seeds(&s.b)].concat()),
                    _ => rep3::share_field_element_additive_seeded::<F7, _, rep3::SeedRng>(v[0], &mut rng).map(seeds),
                };
                let all: BTreeSet<Vec<u8>> = held.iter().flatten().cloned().collect();
                c.count(1, 0);
                c.expect(all.len() == 2, name, || format!("{} different seeds instead of two", all.len()));
                for s in all {
                    c.expect(seen.insert(s), name, || "a seed is used for two sharings".into());
                }
            }
        }
    }
}

pub fn main() {
    let c = Check::new("R04");
    dealing(&c);
    for d in 0..=q(3, 4) {
        histories(&c, d);
    }
    let mut jobs: Vec<View> = field_views::<F3>();
    jobs.extend(field_views::<F5>());
    jobs.extend(point_views::<G5>());
    jobs.extend(ring_views());
    if thorough() {
        jobs.extend(conversion_views::<F3>());
    }
    parallel(&c, jobs, |c, v| explore(c, &v));
    c.assume("a seed is as good as the random values derived from it; draws of one generator are independent and uniform");
    c.finish()
}
