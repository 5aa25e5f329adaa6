//! Z01: serialised shares. Every value of small types, every truncation and every damaged byte.
use crate::pairing::{T17, T97, Toy};
use crate::prelude::*;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use co_circom_types::{BatchedWitness, Compression, ShamirInputType, ShamirSharedInput, SharedWitness};
use mpc_core::protocols::rep3::{Rep3PointShare, Rep3PrimeFieldShare, Rep3UintShare};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement};
use mpc_core::serde_compat::{ark_de, ark_se};
use mpc_core::uint::{FieldUint, U512, U1024, UintBackend};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::fmt::Debug;

/// What is serialised by way of the bridge.
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
struct Bridge<A: CanonicalSerialize + CanonicalDeserialize>(#[serde(serialize_with = "ark_se", deserialize_with = "ark_de")] A);
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
struct Named<A: CanonicalSerialize + CanonicalDeserialize> {
    #[serde(serialize_with = "ark_se", deserialize_with = "ark_de")]
    first: A,
    #[serde(serialize_with = "ark_se", deserialize_with = "ark_de")]
    second: A,
}

trait Value: PartialEq + Debug + Clone + Send + Sync {
    /// Whether the value is one a party may hold (canonical elements, points in the group).
    fn valid(&self) -> bool;
    /// The lengths of all vectors in it.
    fn lens(&self) -> Vec<usize> {
        vec![]
    }
    /// Whether unequal encodings of the same value exist (points at infinity).
    const AMBIGUOUS: bool = false;
}

struct Codec<T> {
    name: &'static str,
    text: bool,
    checked: bool,
    enc: fn(&T) -> Result<Vec<u8>, String>,
    dec: fn(&[u8]) -> Result<T, String>,
}
fn s<X, E: Debug>(r: Result<X, E>) -> Result<X, String> {
    r.map_err(|e| format!("{e:?}"))
}
fn ark<T: CanonicalSerialize + CanonicalDeserialize>() -> Vec<Codec<T>> {
    vec![
        Codec {
            name: "compressed",
            text: false,
            checked: true,
            enc: |v| {
                let mut b = vec![];
                s(v.serialize_compressed(&mut b))?;
                if b.len() != v.compressed_size() {
                    return Err(format!("{} bytes, announced {}", b.len(), v.compressed_size()));
                }
                Ok(b)
            },
            dec: |mut b| s(T::deserialize_compressed(&mut b)),
        },
        Codec {
            name: "uncompressed",
            text: false,
            checked: true,
            enc: |v| {
                let mut b = vec![];
                s(v.serialize_uncompressed(&mut b))?;
                if b.len() != v.uncompressed_size() {
                    return Err(format!("{} bytes, announced {}", b.len(), v.uncompressed_size()));
                }
                Ok(b)
            },
            dec: |mut b| s(T::deserialize_uncompressed(&mut b)),
        },
        Codec {
            name: "wire",
            text: false,
            checked: false,
            enc: |v| {
                let mut b = vec![];
                s(std::slice::from_ref(v).serialize_uncompressed(&mut b))?;
                Ok(b)
            },
            dec: |b| {
                let mut v = s(Vec::<T>::deserialize_uncompressed_unchecked(b))?;
                if v.len() == 1 { Ok(v.pop().unwrap()) } else { Err("number of values".into()) }
            },
        },
        Codec { name: "bridge-binary", text: false, checked: true, enc: |v| s(bincode::serialize(&BridgeRef(v))), dec: |b| s(bincode::deserialize::<Bridge<T>>(b)).map(|x| x.0) },
        Codec { name: "bridge-text", text: true, checked: true, enc: |v| s(serde_json::to_vec(&BridgeRef(v))), dec: |b| s(serde_json::from_slice::<Bridge<T>>(b)).map(|x| x.0) },
    ]
}
#[derive(Serialize)]
#[serde(bound = "")]
struct BridgeRef<'a, A: CanonicalSerialize>(#[serde(serialize_with = "refs")] &'a A);
fn refs<A: CanonicalSerialize, S: serde::Serializer>(a: &&A, s: S) -> Result<S::Ok, S::Error> {
    ark_se(*a, s)
}
fn native<T: Serialize + DeserializeOwned>() -> Vec<Codec<T>> {
    vec![
        Codec { name: "binary", text: false, checked: true, enc: |v| s(bincode::serialize(v)), dec: |b| s(bincode::deserialize(b)) },
        Codec { name: "text", text: true, checked: true, enc: |v| s(serde_json::to_vec(v)), dec: |b| s(serde_json::from_slice(b)) },
    ]
}

struct Tally {
    values: u64,
    damaged: u64,
    refused: u64,
}

fn same_text<T>(codec: &Codec<T>, w: &T, b: &[u8]) -> bool {
    let Ok(a) = (codec.enc)(w) else { return false };
    serde_json::from_slice::<serde_json::Value>(&a).ok() == serde_json::from_slice::<serde_json::Value>(b).ok()
}

/// Decoding of damaged bytes: an error or the valid value which these bytes encode. A character
/// of a text may split or join numbers and so leave surplus bytes (loose).
fn damaged<T: Value>(codec: &Codec<T>, v: &T, b: &[u8], loose: bool, t: &mut Tally) -> Result<(), String> {
    t.damaged += 1;
    match mc::catch(|| (codec.dec)(b)).map_err(|e| format!("panic: {e}"))? {
        Err(_) => t.refused += 1,
        Ok(w) => {
            if !codec.checked {
                return Ok(());
            }
            if !w.valid() {
                return Err(format!("accepted as the invalid {w:?}"));
            }
            let same = if codec.text { same_text(codec, &w, b) } else { (codec.enc)(&w)? == b };
            // A shorter vector within the same bytes is a different, well-formed encoding.
            if !same && !T::AMBIGUOUS && !loose && w.lens() == v.lens() {
                return Err(format!("accepted as {w:?}, which is not what it encodes"));
            }
        }
    }
    Ok(())
}

fn value<T: Value>(codec: &Codec<T>, v: &T, deep: bool, t: &mut Tally) -> Result<Vec<u8>, String> {
    let b = mc::catch(|| (codec.enc)(v)).map_err(|e| format!("encoding panics: {e}"))?.map_err(|e| format!("encoding: {e}"))?;
    t.values += 1;
    match mc::catch(|| (codec.dec)(&b)).map_err(|e| format!("decoding panics: {e}"))? {
        Ok(w) if w == *v => {}
        r => return Err(format!("read back as {r:?}")),
    }
    // Every truncation.
    for n in 0..b.len() {
        t.damaged += 1;
        match mc::catch(|| (codec.dec)(&b[..n])) {
            Err(e) => return Err(format!("the first {n} of {} bytes panic: {e}", b.len())),
            // The beginning of a number is a number.
            Ok(Ok(_)) if codec.text && b[0].is_ascii_digit() => {}
            Ok(Ok(w)) => return Err(format!("the first {n} of {} bytes are accepted as {w:?}", b.len())),
            Ok(Err(_)) => t.refused += 1,
        }
    }
    // Every other byte at every place.
    let others: Vec<u8> = if deep {
        (0..=255).collect()
    } else if codec.text {
        b"0123456789,-[]{}\":.e nA".to_vec()
    } else {
        (0..8).flat_map(|k| [1u8 << k, !(1 << k)]).chain([0, 255, 3, 16, 17, 96, 97]).collect()
    };
    let mut d = b.clone();
    for i in 0..b.len() {
        for o in &others {
            if *o != b[i] {
                d[i] = *o;
                damaged(codec, v, &d, codec.text, t).map_err(|e| format!("byte {i} of {} set to {o}: {e}", b.len()))?;
            }
        }
        d[i] = b[i];
    }
    // Every number of a text.
    if codec.text {
        let text = String::from_utf8(b.clone()).map_err(|e| e.to_string())?;
        let mut at = 0;
        while at < text.len() {
            let n = text[at..].bytes().take_while(|c| c.is_ascii_digit()).count();
            if n > 0 {
                let others: Vec<u32> = if deep { (0..=256).collect() } else { vec![0, 1, 2, 3, 16, 17, 127, 128, 254, 255, 256] };
                for o in others {
                    let d = format!("{}{o}{}", &text[..at], &text[at + n..]);
                    if d != text {
                        damaged(codec, v, d.as_bytes(), false, t).map_err(|e| format!("{d}: {e}"))?;
                    }
                }
            }
            at += n.max(text[at..].chars().next().map_or(1, |c| c.len_utf8()));
        }
    }
    Ok(b)
}

type Job = Box<dyn FnOnce(&Check) + Send>;

/// All values, all codecs.
fn all<T: Value + 'static>(c: &Check, name: &str, codecs: Vec<Codec<T>>, values: Vec<T>, deep: usize) {
    for codec in codecs {
        let name = format!("{name}-{}", codec.name);
        if !c.selected(&name) || c.failed() {
            continue;
        }
        c.at(&name);
        let mut t = Tally { values: 0, damaged: 0, refused: 0 };
        let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        let every = (values.len() / deep.max(1)).max(1);
        for (i, v) in values.iter().enumerate() {
            match value(&codec, v, i % every == 0, &mut t) {
                Ok(b) => {
                    if let Some(j) = seen.insert(b, i) {
                        c.expect(values[j] == *v, &name, || format!("{v:?} and {:?} have the same encoding", values[j]));
                    }
                }
                Err(e) => {
                    c.expect(false, &name, || format!("{v:?}: {e}"));
                    return;
                }
            }
        }
        c.count(t.values, t.damaged);
        c.note(&name, json!({"values": t.values, "damaged encodings": t.damaged, "refused": t.refused}));
        c.tick();
    }
}

/// Two values one after the other are read one after the other.
fn streams<T: Value + CanonicalSerialize + CanonicalDeserialize>(c: &Check, name: &str, values: &[T]) {
    let name = format!("{name}-streams");
    if !c.selected(&name) || c.failed() {
        return;
    }
    let mut n = 0;
    for v in values {
        for w in values {
            n += 1;
            let r = mc::catch(|| -> Result<bool, String> {
                let mut b = vec![];
                s(v.serialize_compressed(&mut b))?;
                s(w.serialize_uncompressed(&mut b))?;
                s(v.serialize_uncompressed(&mut b))?;
                let mut r = &b[..];
                let x = s(T::deserialize_compressed(&mut r))?;
                let y = s(T::deserialize_uncompressed(&mut r))?;
                let z = s(T::deserialize_uncompressed_unchecked(&mut r))?;
                let pair = s(bincode::serialize(&Named { first: v.clone(), second: w.clone() }))?;
                let pair: Named<T> = s(bincode::deserialize(&pair))?;
                let text = s(serde_json::to_string(&Named { first: v.clone(), second: w.clone() }))?;
                let text: Named<T> = s(serde_json::from_str(&text))?;
                Ok(x == *v && y == *w && z == *v && r.is_empty() && pair.first == *v && pair.second == *w && text.first == *v && text.second == *w)
            });
            if !c.expect(r == Ok(Ok(true)), &name, || format!("{v:?}, {w:?}: {r:?}")) {
                return;
            }
        }
    }
    c.count(n, n);
}

// ---- the types
fn canonical<F: PrimeField>(x: &F) -> bool {
    x.into_bigint() < F::MODULUS
}
impl<F: PrimeField> Value for Sh<F> {
    fn valid(&self) -> bool {
        canonical(&self.a)
    }
}
impl<F: PrimeField> Value for Rep3PrimeFieldShare<F> {
    fn valid(&self) -> bool {
        canonical(&self.a) && canonical(&self.b)
    }
}
impl<T: Value> Value for Vec<T> {
    fn valid(&self) -> bool {
        self.iter().all(|x| x.valid())
    }
    fn lens(&self) -> Vec<usize> {
        std::iter::once(self.len()).chain(self.iter().flat_map(|x| x.lens())).collect()
    }
    const AMBIGUOUS: bool = T::AMBIGUOUS;
}
impl<P: SWCurveConfig> Value for ShamirPointShare<Projective<P>> {
    fn valid(&self) -> bool {
        in_group(&self.a)
    }
    const AMBIGUOUS: bool = true;
}
impl<P: SWCurveConfig> Value for Rep3PointShare<Projective<P>> {
    fn valid(&self) -> bool {
        in_group(&self.a) && in_group(&self.b)
    }
    const AMBIGUOUS: bool = true;
}
fn in_group<P: SWCurveConfig>(p: &Projective<P>) -> bool {
    let a = p.into_affine();
    // By the definition of the group, not by the curve's shortcut.
    a.is_on_curve() && a.mul_bigint(P::ScalarField::MODULUS).is_zero()
}
impl<T: IntRing2k> Value for RingElement<T> {
    fn valid(&self) -> bool {
        true
    }
}
impl<F: FieldUint> Value for Rep3UintShare<F> {
    fn valid(&self) -> bool {
        true
    }
}
impl<F: PrimeField> Value for ShamirInputType<F> {
    fn valid(&self) -> bool {
        match self {
            ShamirInputType::Public(x) => canonical(x),
            ShamirInputType::Shared(x) => x.valid(),
        }
    }
}
impl<F: PrimeField> Value for ShamirSharedInput<F> {
    fn valid(&self) -> bool {
        self.values().all(|x| x.valid())
    }
    // Names come in any order.
    const AMBIGUOUS: bool = true;
    fn lens(&self) -> Vec<usize> {
        vec![self.len()]
    }
}
/// Plain elements.
#[derive(Clone, Copy, Debug, PartialEq, CanonicalSerialize, CanonicalDeserialize)]
struct El<F: PrimeField>(F);
impl<F: PrimeField> Value for El<F> {
    fn valid(&self) -> bool {
        canonical(&self.0)
    }
}
impl<P, S> Value for SharedWitness<P, S>
where
    P: Value + CanonicalSerialize + CanonicalDeserialize,
    S: Value + CanonicalSerialize + CanonicalDeserialize,
{
    fn valid(&self) -> bool {
        self.public_inputs.valid() && self.witness.valid()
    }
    fn lens(&self) -> Vec<usize> {
        let mut v = self.public_inputs.lens();
        v.extend(self.witness.lens());
        v
    }
}
impl Value for Compression {
    fn valid(&self) -> bool {
        true
    }
}

fn spread<F: PrimeField>(k: usize) -> Vec<F> {
    let p = F::MODULUS;
    let half = F::from_bigint(F::MODULUS_MINUS_ONE_DIV_TWO).unwrap();
    let mut v = vec![F::zero(), F::one(), -F::one(), half, half + F::one()];
    // Bytes and limbs at their limits.
    for i in (0..F::MODULUS_BIT_SIZE as usize - 1).step_by(8) {
        let x = F::from(2u64).pow([i as u64]);
        v.push(x);
        v.push(x - F::one());
        v.push(-x);
    }
    let _ = p;
    v.push(F::from(0x0123_4567_89ab_cdefu64).pow([7]));
    v.dedup();
    let every = (v.len() / k).max(1);
    v.into_iter().step_by(every).collect()
}

fn of_fields<F: PrimeField>(c: &Check, tag: &str, vals: Vec<F>, pairs: Vec<(F, F)>, deep: usize) {
    let v: Vec<Sh<F>> = vals.iter().map(|x| Sh::new(*x)).collect();
    streams(c, &format!("share-{tag}"), &v[..v.len().min(40)]);
    all(c, &format!("share-{tag}"), ark(), v, deep);
    let v: Vec<_> = pairs.iter().map(|(a, b)| Rep3PrimeFieldShare::new(*a, *b)).collect();
    streams(c, &format!("rep3-{tag}"), &v[..v.len().min(40)]);
    all(c, &format!("rep3-{tag}"), ark(), v.clone(), deep);
    all(c, &format!("rep3-{tag}"), native(), v, deep);
    let v: Vec<_> = vals.iter().flat_map(|x| [ShamirInputType::Public(*x), ShamirInputType::Shared(Sh::new(*x))]).collect();
    if c.selected(&format!("input-{tag}-kind")) {
        for x in &vals {
            for (shared, i) in [(false, ShamirInputType::Public(*x)), (true, ShamirInputType::Shared(Sh::new(*x)))] {
                let ok = i.is_public() != shared && i.as_public() == (!shared).then_some(*x) && i.as_shared() == shared.then_some(Sh::new(*x)) && i == if shared { ShamirInputType::from(Sh::new(*x)) } else { ShamirInputType::from(*x) };
                c.expect(ok, &format!("input-{tag}-kind"), || format!("{i:?}: {} {:?} {:?}", i.is_public(), i.as_public(), i.as_shared()));
            }
        }
    }
    all(c, &format!("input-{tag}"), native(), v, deep);
}

fn vectors<F: PrimeField>(c: &Check, tag: &str, vecs: Vec<Vec<F>>, deep: usize) {
    all(c, &format!("shares-{tag}"), ark(), vecs.iter().map(|v| v.iter().map(|x| Sh::new(*x)).collect::<Vec<Sh<F>>>()).collect(), deep);
    let w: Vec<SharedWitness<El<F>, Sh<F>>> = vecs
        .iter()
        .flat_map(|v| (0..=v.len()).map(|k| SharedWitness { public_inputs: v[..k].iter().map(|x| El(*x)).collect(), witness: v[k..].iter().map(|x| Sh::new(*x)).collect() }).collect::<Vec<_>>())
        .collect();
    all(c, &format!("witness-{tag}"), native(), w, deep);
    let w: Vec<SharedWitness<El<F>, Rep3PrimeFieldShare<F>>> = vecs
        .iter()
        .map(|v| SharedWitness { public_inputs: v.iter().map(|x| El(*x)).collect(), witness: v.iter().map(|x| Rep3PrimeFieldShare::new(*x, *x + F::one())).collect() })
        .collect();
    all(c, &format!("witness-rep3-{tag}"), native(), w, deep);
    let w: Vec<BatchedWitness<El<F>, Sh<F>>> = vecs
        .iter()
        .flat_map(|v| {
            (0..=v.len())
                .map(|k| SharedWitness {
                    public_inputs: vec![v[..k].iter().map(|x| El(*x)).collect(), v[k..].iter().map(|x| El(*x)).collect()],
                    witness: v.iter().map(|x| vec![Sh::new(*x); k]).collect(),
                })
                .collect::<Vec<_>>()
        })
        .collect();
    all(c, &format!("batch-{tag}"), native(), w, deep);
    let names = ["", "a", "in[0]", "x y", "\"\\", "ä€"];
    let w: Vec<ShamirSharedInput<F>> = vecs
        .iter()
        .enumerate()
        .map(|(i, v)| v.iter().enumerate().map(|(j, x)| (names[(i + j) % names.len()].to_string(), if (i + j) % 2 == 0 { ShamirInputType::Public(*x) } else { ShamirInputType::Shared(Sh::new(*x)) })).collect())
        .collect();
    all(c, &format!("inputs-{tag}"), native_map(), w, deep);
}
/// Names may be damaged into others: only errors, validity and panics are looked at.
fn native_map<F: PrimeField>() -> Vec<Codec<ShamirSharedInput<F>>> {
    native()
}

fn points<P: SWCurveConfig>(c: &Check, tag: &str, pts: Vec<Projective<P>>, pairs: usize, deep: usize) {
    let v: Vec<_> = pts.iter().map(|p| ShamirPointShare::new(*p)).collect();
    streams(c, &format!("point-{tag}"), &v[..v.len().min(20)]);
    all(c, &format!("point-{tag}"), ark(), v.clone(), deep);
    all(c, &format!("points-{tag}"), ark(), (0..pairs).map(|i| (0..i % 4).map(|k| v[(i * 5 + k * 3) % v.len()]).collect::<Vec<_>>()).collect(), deep);
    let v: Vec<_> = (0..pairs).map(|i| Rep3PointShare::new(pts[i % pts.len()], pts[(i / pts.len() * 3 + i) % pts.len()])).collect();
    all(c, &format!("rep3-point-{tag}"), ark(), v, deep);
}

/// Points that are not on the curve or not in the group, alone and among others.
fn invalid<P: SWCurveConfig>(c: &Check, tag: &str, xs: Vec<P::BaseField>) {
    let name = format!("invalid-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let good = Projective::<P>::from(P::GENERATOR);
    let (mut off, mut outside, mut inside) = (0u64, 0u64, 0u64);
    let mut cands: Vec<Affine<P>> = vec![];
    for x in &xs {
        for greatest in [false, true] {
            cands.extend(Affine::<P>::get_point_from_x_unchecked(*x, greatest));
        }
        // Not on the curve, unless by chance.
        for y in xs.iter().take(4) {
            cands.push(Affine::new_unchecked(*x, *y));
        }
    }
    for p in cands {
        let on = p.is_on_curve();
        let ok = in_group(&p.into_group());
        match (on, ok) {
            (false, _) => off += 1,
            (true, false) => outside += 1,
            (true, true) => inside += 1,
        }
        let ok = on && ok;
        let judge = |what: &str, r: Result<Result<bool, String>, String>| {
            c.expect(r.as_ref().is_ok_and(|r| if ok { *r == Ok(true) } else { r.is_err() }), &name, || {
                format!("{what}: {r:?} for {p:?}, which is {}", if ok { "valid" } else if on { "outside the group" } else { "not on the curve" })
            })
        };
        let sh = ShamirPointShare::new(p.into_group());
        let pair = [Rep3PointShare::new(good, p.into_group()), Rep3PointShare::new(p.into_group(), good)];
        let vecs: Vec<Vec<ShamirPointShare<Projective<P>>>> = (0..3).map(|k| (0..3).map(|i| if i == k { sh } else { ShamirPointShare::new(good) }).collect()).collect();
        // What is compressed has lost y: only those on the curve.
        let modes: Vec<usize> = if on { (0..5).collect() } else { vec![1] };
        fn back<T: Value + CanonicalSerialize + CanonicalDeserialize>(m: usize, v: &T) -> Result<Result<bool, String>, String> {
            let codecs = ark::<T>();
            let k = [0, 1, 1, 3, 4][m];
            mc::catch(|| {
                let b = (codecs[k].enc)(v)?;
                (codecs[k].dec)(&b).map(|w| w == *v)
            })
        }
        for m in modes {
            judge("a point share", back(m, &sh));
            for (i, v) in pair.iter().enumerate() {
                judge(&format!("replicated share, point {}", 1 - i), back(m, v));
            }
            for (i, v) in vecs.iter().enumerate() {
                judge(&format!("point {i} of three shares"), back(m, v));
            }
        }
        c.count(1, 6);
        if c.failed() {
            return;
        }
    }
    c.note(&name, json!({"points in the group": inside, "outside the group": outside, "not on the curve": off}));
    c.tick();
}

/// Numbers that are not below the modulus.
fn too_large<F: PrimeField>(c: &Check, tag: &str) {
    let name = format!("too-large-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    let p: num_bigint::BigUint = F::MODULUS.into();
    let len = El(F::zero()).compressed_size();
    let top = num_bigint::BigUint::from(1u32) << (8 * len);
    let mut n = 0u64;
    let mut cands = vec![];
    for d in 0..q(300u32, 3000) {
        cands.push(&p + d);
        cands.push(&p + &p + d);
        cands.push(&top - 1u32 - d.min(200));
    }
    for x in cands.into_iter().filter(|x| *x < top && *x >= p) {
        let mut b = x.to_bytes_le();
        b.resize(len, 0);
        let r = |v: Vec<u8>| -> [bool; 4] {
            let one = [1u64.to_le_bytes().as_slice(), &v].concat();
            let json = serde_json::to_vec(&v).unwrap();
            [
                Sh::<F>::deserialize_compressed(&v[..]).is_err(),
                Vec::<Sh<F>>::deserialize_uncompressed_unchecked(&one[..]).is_err(),
                serde_json::from_slice::<Bridge<Sh<F>>>(&json).is_err(),
                serde_json::from_str::<ShamirInputType<F>>(&format!("{{\"Public\":{}}}", String::from_utf8(json.clone()).unwrap())).is_err(),
            ]
        };
        let got = mc::catch(|| r(b.clone()));
        n += 1;
        if !c.expect(got == Ok([true; 4]), &name, || format!("{x} is accepted for the modulus {p}: {got:?}")) {
            return;
        }
    }
    c.count(n, n * 4);
    c.note(&name, json!({"numbers": n}));
}

fn ring<T: IntRing2k>(c: &Check, tag: &str, vals: Vec<T>, deep: usize) {
    let v: Vec<_> = vals.into_iter().map(RingElement).collect();
    streams(c, &format!("ring-{tag}"), &v[..v.len().min(40)]);
    all(c, &format!("ring-{tag}"), ark(), v.clone(), deep);
    all(c, &format!("ring-{tag}"), native(), v.clone(), deep);
    all(c, &format!("rings-{tag}"), ark(), (0..12).map(|i| (0..i % 4).map(|k| v[(i * 7 + k * 5) % v.len()]).collect::<Vec<_>>()).collect(), deep);
}
/// Numbers of so many bits with single bits, runs and all bits set.
fn patterns<T: IntRing2k>() -> Vec<T> {
    let one = T::one();
    let mut v = vec![T::zero(), !T::zero()];
    for i in 0..T::K {
        if i < 16 || i % 8 < 2 || i % 64 == 63 {
            v.push(one << i);
            v.push(!(one << i));
        }
    }
    let mut x = T::zero();
    for i in 0..T::K {
        if (i * i + i / 3) % 5 < 2 {
            x |= one << i;
        }
    }
    v.push(x);
    v
}
fn uint<F: FieldUint>(c: &Check, tag: &str)
where
    F::Uint: UintBackend,
{
    let one = F::Uint::from(1u64);
    let mut v = vec![];
    for i in (0..F::MODULUS_BIT_SIZE as usize).step_by(7) {
        let a = one << i;
        let b = F::random_below(i);
        v.push(Rep3UintShare::<F>::new(a, b));
    }
    streams(c, &format!("uint-{tag}"), &v[..10]);
    all(c, &format!("uint-{tag}"), ark(), v, 2);
}
trait RandomBelow: FieldUint {
    fn random_below(i: usize) -> Self::Uint;
}
impl<F: FieldUint> RandomBelow for F {
    fn random_below(i: usize) -> F::Uint {
        let mut x = F::Uint::from(i as u64 * 0x9e37_79b9 + 1);
        for k in 0..8 {
            x = x ^ (F::Uint::from(0x1234_5678_9abc_def1u64 ^ (i * k) as u64) << (k * 37));
        }
        x
    }
}

pub fn main() {
    use crate::fields::*;
    let c = Check::new("Z01");
    c.assume("an encoding is read with the codec it was written with; surplus bytes after a complete encoding are outside the claim");
    let mut jobs: Vec<Job> = vec![];
    fn grid<F: PrimeField>() -> (Vec<F>, Vec<(F, F)>) {
        let v = elems::<F>();
        let p = v.iter().flat_map(|a| v.iter().map(|b| (*a, *b)).collect::<Vec<_>>()).collect();
        (v, p)
    }
    fn few<F: PrimeField>(k: usize) -> (Vec<F>, Vec<(F, F)>) {
        let v = spread::<F>(k);
        let n = v.len();
        let p = (0..n).map(|i| (v[i], v[(i * 3 + 1) % n])).collect();
        (v, p)
    }
    fn small_vecs<F: PrimeField>(all: usize) -> Vec<Vec<F>> {
        let p = modulus::<F>();
        let mut v: Vec<Vec<F>> = vec![];
        for len in 0..=all {
            v.extend(words(p, len).map(|w| w.into_iter().map(F::from).collect::<Vec<F>>()));
        }
        for len in all + 1..=6 {
            for k in 0..6u64 {
                v.push((0..len as u64).map(|i| F::from(i * i * k + k + i * 3)).collect());
            }
        }
        v
    }
    jobs.push(Box::new(|c| { let (v, p) = grid::<F17>(); of_fields(c, "p17", v, p, q(8, 100)) }));
    jobs.push(Box::new(|c| { let (v, p) = grid::<F3>(); of_fields(c, "p3", v, p, 20) }));
    jobs.push(Box::new(|c| { let (v, mut p) = grid::<F257>(); let e = q(101, 3); p = p.into_iter().step_by(e).collect(); of_fields(c, "p257", v, p, q(8, 60)) }));
    jobs.push(Box::new(|c| { let (v, p) = few::<F65537>(40); of_fields(c, "p65537", v, p, q(8, 40)) }));
    jobs.push(Box::new(|c| { let (v, p) = few::<ark_bn254::Fr>(q(9, 60)); of_fields(c, "bn254", v, p, q(1, 10)) }));
    jobs.push(Box::new(|c| { let (v, p) = few::<ark_bls12_381::Fr>(q(9, 60)); of_fields(c, "bls12_381", v, p, q(1, 10)) }));
    jobs.push(Box::new(|c| { let (v, p) = few::<ark_bls12_381::Fq>(q(5, 60)); of_fields(c, "bls12_381-fq", v, p, q(1, 10)) }));
    jobs.push(Box::new(|c| vectors::<F3>(c, "p3", small_vecs(q(3, 5)), q(6, 40))));
    jobs.push(Box::new(|c| vectors::<F17>(c, "p17", small_vecs(q(1, 2)), q(4, 20))));
    jobs.push(Box::new(|c| vectors::<F257>(c, "p257", small_vecs(0), q(4, 20))));
    jobs.push(Box::new(|c| vectors::<ark_bn254::Fr>(c, "bn254", (0..q(4, 8)).map(|n| spread::<ark_bn254::Fr>(60)[n..2 * n].to_vec()).collect(), 1)));
    jobs.push(Box::new(|c| { too_large::<F3>(c, "p3"); too_large::<F17>(c, "p17"); too_large::<F257>(c, "p257"); too_large::<F65537>(c, "p65537"); too_large::<ark_bn254::Fr>(c, "bn254"); too_large::<ark_bls12_381::Fr>(c, "bls12_381"); too_large::<ark_bls12_381::Fq>(c, "bls12_381-fq"); }));
    fn multiples<P: SWCurveConfig>(n: u64) -> Vec<Projective<P>> {
        let g = Projective::<P>::from(P::GENERATOR);
        (0..n).map(|i| g * P::ScalarField::from(i)).chain([-g]).collect()
    }
    jobs.push(Box::new(|c| points::<<T17 as Toy>::A>(c, "g17a", multiples(16), 17 * 17, q(20, 400))));
    jobs.push(Box::new(|c| points::<<T17 as Toy>::B>(c, "g17b", multiples(16), 17 * 17, q(20, 400))));
    jobs.push(Box::new(|c| points::<<T97 as Toy>::A>(c, "g97a", multiples(96), q(97, 97 * 97), q(10, 400))));
    jobs.push(Box::new(|c| points::<ark_bn254::g1::Config>(c, "bn254-g1", multiples(q(3, 20)), q(3, 20), 0)));
    jobs.push(Box::new(|c| points::<ark_bls12_381::g1::Config>(c, "bls12_381-g1", multiples(q(1, 10)), q(1, 10), 0)));
    if thorough() {
        jobs.push(Box::new(|c| points::<ark_bn254::g2::Config>(c, "bn254-g2", multiples(4), 4, 0)));
        jobs.push(Box::new(|c| points::<ark_bls12_381::g2::Config>(c, "bls12_381-g2", multiples(3), 3, 0)));
    }
    fn counting<F: Field>(n: u64) -> Vec<F> {
        (0..n).map(F::from).collect()
    }
    jobs.push(Box::new(|c| invalid::<<T17 as Toy>::A>(c, "g17a", elems())));
    jobs.push(Box::new(|c| invalid::<<T97 as Toy>::B>(c, "g97b", elems())));
    jobs.push(Box::new(|c| invalid::<ark_bn254::g1::Config>(c, "bn254-g1", counting(q(6, 60)))));
    jobs.push(Box::new(|c| invalid::<ark_bn254::g2::Config>(c, "bn254-g2", counting(q(6, 60)))));
    jobs.push(Box::new(|c| invalid::<ark_bls12_381::g1::Config>(c, "bls12_381-g1", counting(q(6, 60)))));
    jobs.push(Box::new(|c| invalid::<ark_bls12_381::g2::Config>(c, "bls12_381-g2", counting(q(6, 60)))));
    jobs.push(Box::new(|c| {
        ring::<Bit>(c, "bit", vec![Bit::new(false), Bit::new(true)], 2);
        ring::<u8>(c, "u8", (0..=255).collect(), q(16, 256));
        ring::<u16>(c, "u16", (0..=65535u16).step_by(q(97, 7)).collect(), q(4, 40));
        ring::<u32>(c, "u32", patterns(), q(4, 40));
    }));
    jobs.push(Box::new(|c| {
        ring::<u64>(c, "u64", patterns(), q(2, 40));
        ring::<u128>(c, "u128", patterns(), q(2, 20));
    }));
    jobs.push(Box::new(|c| ring::<U512>(c, "u512", patterns().into_iter().step_by(q(11, 1)).collect(), 1)));
    jobs.push(Box::new(|c| ring::<U1024>(c, "u1024", patterns().into_iter().step_by(q(37, 2)).collect(), 1)));
    jobs.push(Box::new(|c| {
        uint::<ark_bn254::Fr>(c, "bn254");
        uint::<ark_bls12_381::Fr>(c, "bls12_381");
        uint::<ark_bls12_381::Fq>(c, "bls12_381-fq");
    }));
    jobs.push(Box::new(|c| all(c, "compression", native(), vec![Compression::None, Compression::HalfShares, Compression::SeededShares, Compression::SeededHalfShares], 9)));
    parallel(&c, jobs, |c, j| j(c));
    c.finish()
}
