//! U01 and U02: ring elements and fixed-width integers against exact integers.
use crate::prelude::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement};
use mpc_core::uint::{FieldUint, RUint, U256, U320, U384, U512, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};

fn two(k: usize) -> BigUint {
    BigUint::from(1u8) << k
}
fn full(k: usize) -> BigUint {
    two(k) - 1u8
}
fn low(x: &BigUint, k: usize) -> BigUint {
    x & full(k)
}
/// Little-endian limbs, exactly n of them.
fn limbs(x: &BigUint, n: usize) -> Vec<u64> {
    let mut d = x.to_u64_digits();
    assert!(d.len() <= n);
    d.resize(n, 0);
    d
}
fn from_limbs(l: &[u64]) -> BigUint {
    l.iter().rev().fold(BigUint::from(0u8), |a, d| (a << 64) + *d)
}
fn bytes_le(x: &BigUint, n: usize) -> Vec<u8> {
    let mut d = x.to_bytes_le();
    d.resize(n, 0);
    d
}

/// A type under test and its exact value.
trait Exact: Copy + std::fmt::Debug + PartialEq + 'static {
    const W: usize;
    const SIZE: usize;
    fn of(x: &BigUint) -> Self;
    fn val(&self) -> BigUint;
    fn text(x: &BigUint) -> String {
        x.to_string()
    }
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Exact for $t {
            const W: usize = <$t>::BITS as usize;
            const SIZE: usize = Self::W / 8;
            fn of(x: &BigUint) -> Self { <$t>::try_from(x).unwrap() }
            fn val(&self) -> BigUint { BigUint::from(*self) }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128);
impl Exact for Bit {
    const W: usize = 1;
    const SIZE: usize = 1;
    fn of(x: &BigUint) -> Self {
        Bit::new(*x == BigUint::from(1u8))
    }
    fn val(&self) -> BigUint {
        BigUint::from(self.convert() as u8)
    }
}
impl<const B: usize, const L: usize> Exact for RUint<B, L> {
    const W: usize = B;
    const SIZE: usize = L * 8;
    fn of(x: &BigUint) -> Self {
        RUint(ruint::Uint::from_limbs(limbs(x, L).try_into().unwrap()))
    }
    fn val(&self) -> BigUint {
        from_limbs(self.0.as_limbs())
    }
    fn text(x: &BigUint) -> String {
        format!("0x{:0>w$}", format!("{x:x}"), w = B / 4)
    }
}

/// Values at which carries, borrows and limb boundaries show, up to all values for small widths.
fn grid(w: usize, fine: bool) -> Vec<BigUint> {
    if w <= 8 || (w <= 16 && fine) {
        return (0..1u32 << w).map(BigUint::from).collect();
    }
    let mut s = BTreeSet::new();
    let marks: Vec<usize> = (0..w).filter(|i| fine || *i < 3 || *i + 3 > w || [7, 8, 15, 16, 31, 32, 33].contains(i) || i % 64 == 0 || i % 64 == 63 || i % 64 == 1).collect();
    for i in marks {
        let p = two(i);
        for v in [p.clone(), &p - 1u8, &p + 1u8, full(w) - &p, low(&(full(w) - &p + 1u8), w), low(&(full(w) - &p + 2u8), w)] {
            s.insert(low(&v, w));
        }
    }
    // Patterns with all digits different or repeated.
    let mut pat = BigUint::from(0u8);
    for i in 0..w / 8 {
        pat += BigUint::from((i as u64 * 37 + 11) & 0xff) << (8 * i);
    }
    s.insert(full(w) - &pat);
    s.insert(pat);
    s.insert(full(w) / 3u8);
    s.insert(full(w) / 5u8);
    s.insert(full(w) / 3u8 * 2u8);
    s.insert(full(w));
    s.insert(BigUint::from(0u8));
    s.into_iter().collect()
}
fn shifts(w: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..w + 3).collect();
    v.extend([2 * w, 2 * w + 1, 255, 256, 257, 65536, usize::MAX - 1, usize::MAX, 1 << 63, 1 << 32]);
    v.sort();
    v.dedup();
    v
}

/// One comparison; the message is only built on failure.
struct Cmp<'a> {
    c: &'a Check,
    name: &'a str,
}
impl Cmp<'_> {
    fn eq<X: PartialEq + std::fmt::Debug>(&self, got: X, want: X, what: impl Fn() -> String) {
        if got != want && !self.c.failed() {
            self.c.violation(self.name, &format!("{}: {got:?}, expected {want:?}", what()), json!({"operation": what()}));
        }
    }
    fn ok(&self, cond: bool, what: impl Fn() -> String) {
        if !cond && !self.c.failed() {
            self.c.violation(self.name, &what(), json!({"operation": what()}));
        }
    }
    fn run(&self, what: &str, f: impl FnOnce()) {
        if let Err(e) = mc::catch(f) {
            self.c.violation(self.name, &format!("panics {what}: {e}"), json!({"operation": what}));
        }
    }
}

/// Serialised forms of one value: exact bytes, read back, every shorter input rejected.
fn coded<T>(m: &Cmp, v: T, want: &[u8], what: &dyn Fn() -> String)
where
    T: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq + std::fmt::Debug + Copy,
{
    for (mode, tag) in [(Compress::No, "plain"), (Compress::Yes, "compressed")] {
        // A writer with too little room.
        for room in 0..want.len() {
            let mut b = vec![0u8; room];
            m.ok(v.serialize_with_mode(&mut b[..], mode).is_err(), || format!("serialising {} ({tag}) into {room} bytes succeeds", what()));
        }
        let mut b = vec![];
        let r = v.serialize_with_mode(&mut b, mode);
        m.ok(r.is_ok(), || format!("serialising {} ({tag}) fails", what()));
        m.eq(&b[..], want, || format!("serialising {} ({tag})", what()));
        m.eq(v.serialized_size(mode), want.len(), || format!("serialized size of {}", what()));
        for validate in [Validate::Yes, Validate::No] {
            let back = T::deserialize_with_mode(&b[..], mode, validate).ok();
            m.eq(back, Some(v), || format!("reading back {} ({tag})", what()));
        }
        for cut in 0..b.len() {
            m.ok(T::deserialize_with_mode(&b[..cut], mode, Validate::Yes).is_err(), || format!("{} cut to {cut} bytes is accepted ({tag})", what()));
        }
        // Nothing after the element is consumed.
        let mut two = b.clone();
        two.extend_from_slice(&b);
        let mut r = &two[..];
        let _ = T::deserialize_with_mode(&mut r, mode, Validate::Yes);
        m.eq(r.len(), b.len(), || format!("bytes left after reading {} ({tag})", what()));
        let mut vec = vec![];
        let _ = vec![v, v, v].serialize_with_mode(&mut vec, mode);
        m.eq(Vec::<T>::deserialize_with_mode(&vec[..], mode, Validate::Yes).ok(), Some(vec![v, v, v]), || format!("vector of {} ({tag})", what()));
    }
    let b = bincode::serialize(&v).expect("bincode");
    m.eq(bincode::deserialize::<T>(&b).ok(), Some(v), || format!("bincode of {}", what()));
    for cut in 0..b.len() {
        m.ok(bincode::deserialize::<T>(&b[..cut]).is_err(), || format!("bincode of {} cut to {cut} bytes is accepted", what()));
    }
    let j = serde_json::to_string(&v).expect("json");
    m.eq(serde_json::from_str::<T>(&j).ok(), Some(v), || format!("json of {}", what()));
}

fn ring_unary<T: IntRing2k + Exact>(m: &Cmp, x: &BigUint)
where
    RingElement<T>: serde::Serialize,
{
    let k = T::W;
    let t = T::of(x);
    let r = RingElement(t);
    let w = |o: &'static str| move || format!("{o} of {x} in {k} bits");
    m.eq(T::K, k, || "ring width".into());
    m.eq(T::BYTES, T::SIZE, || "ring bytes".into());
    let neg = low(&(two(k) - x), k);
    m.eq((-r).0.val(), neg.clone(), w("negation"));
    m.eq(WrappingNeg::wrapping_neg(&t).val(), neg.clone(), w("wrapping_neg"));
    let mut y = t;
    y.wrapping_neg_inplace();
    m.eq(y.val(), neg, w("wrapping_neg_inplace"));
    let inv = full(k) - x;
    m.eq((!r).0.val(), inv.clone(), w("not"));
    m.eq((!&r).0.val(), inv.clone(), w("not by reference"));
    m.eq((!t).val(), inv, w("not of the integer"));
    m.eq(r.bits(), x.bits() as usize, w("bits"));
    m.eq(t.bits(), x.bits() as usize, w("bits of the integer"));
    m.eq(r.convert().val(), x.clone(), w("convert"));
    m.eq(RingElement::from(t), r, w("from"));
    m.eq(format!("{r}"), T::text(x), w("display"));
    m.eq(format!("{t}"), T::text(x), w("display of the integer"));
    m.eq(r.is_zero(), *x == BigUint::from(0u8), w("is_zero"));
    m.eq(t.is_zero(), *x == BigUint::from(0u8), w("is_zero of the integer"));
    m.eq(r == RingElement::<T>::one(), *x == BigUint::from(1u8), w("is one"));
    m.eq(r.is_one(), *x == BigUint::from(1u8), w("is_one"));
    for i in 0..k {
        m.eq(r.get_bit(i).0.val(), BigUint::from(x.bit(i as u64) as u8), || format!("bit {i} of {x} in {k} bits"));
    }
    for s in shifts(k) {
        let l = if s >= k { BigUint::from(0u8) } else { low(&(x << s), k) };
        let h = if s >= k { BigUint::from(0u8) } else { x >> s };
        m.eq((r << s).0.val(), l.clone(), || format!("{x} << {s} in {k} bits"));
        m.eq((r >> s).0.val(), h.clone(), || format!("{x} >> {s} in {k} bits"));
        let mut y = r;
        y <<= s;
        m.eq(y.0.val(), l.clone(), || format!("{x} <<= {s} in {k} bits"));
        let mut y = r;
        y >>= s;
        m.eq(y.0.val(), h.clone(), || format!("{x} >>= {s} in {k} bits"));
        if s < k {
            m.eq((t << s).val(), l, || format!("integer {x} << {s} in {k} bits"));
            m.eq((t >> s).val(), h, || format!("integer {x} >> {s} in {k} bits"));
        }
    }
    // Conversions to and from other widths keep the low bits.
    macro_rules! casts {
        ($($u:ty),*) => {$(
            let n = <$u as Exact>::W;
            let c: $u = t.cast_to_uint();
            m.eq(c.val(), low(x, n), || format!("{x} in {k} bits cast to {n} bits"));
            // The same pattern repeated up to the width of the other type.
            let mut y = low(x, n.min(k));
            for i in (k..n).step_by(k) {
                y = low(&(y + ((x ^ BigUint::from(i as u64 & 1)) << i)), n);
            }
            m.eq(T::cast_from_uint(&<$u>::of(&y)).val(), low(&y, k), || format!("{y} in {n} bits cast to {k} bits"));
            let c: $u = (!t).cast_to_uint();
            m.eq(c.val(), low(&(full(k) - x), n), || format!("inverse of {x} in {k} bits cast to {n} bits"));
        )*};
    }
    casts!(U256, U320, U384, U512, U1024);
    let fits = *x <= BigUint::from(usize::MAX);
    let u: Option<usize> = t.try_into().ok();
    m.eq(u, fits.then(|| usize::try_from(x).unwrap()), w("conversion to usize"));
    if x.bits() <= 64 {
        m.eq(T::try_from(u64::try_from(x).unwrap()).ok().map(|v| v.val()), Some(x.clone()), w("conversion from u64"));
    }
    if x.bits() <= 128 {
        m.eq(T::try_from(u128::try_from(x).unwrap()).ok().map(|v| v.val()), Some(x.clone()), w("conversion from u128"));
    }
    let own = bytes_le(x, T::SIZE);
    let mut b = vec![];
    let _ = t.write(&mut b);
    m.eq(&b[..], &own[..], w("write"));
    m.eq(T::from_reader(&own[..]).ok(), Some(t), w("from_reader"));
    for cut in 0..own.len() {
        m.ok(T::from_reader(&own[..cut]).is_err(), || format!("reading {x} cut to {cut} bytes succeeds"));
    }
    coded(m, r, &own, &|| format!("{x} in {k} bits"));
    m.eq(RingElement::convert_slice_rev(&[t, T::of(&BigUint::from(1u8))]).iter().map(|r| r.0.val()).collect::<Vec<_>>(), vec![x.clone(), BigUint::from(1u8)], w("slice conversion"));
}

fn ring_binary<T: IntRing2k + Exact>(m: &Cmp, x: &BigUint, y: &BigUint) {
    let k = T::W;
    let (s, t) = (T::of(x), T::of(y));
    let (a, b) = (RingElement(s), RingElement(t));
    let sum = low(&(x + y), k);
    let dif = low(&(x + two(k) - y), k);
    let prod = low(&(x * y), k);
    let (xor, or, and) = (T::of(&(x ^ y)), T::of(&(x | y)), T::of(&(x & y)));
    let (sum, dif, prod) = (T::of(&sum), T::of(&dif), T::of(&prod));
    macro_rules! forms {
        ($op:tt, $assign:tt, $want:expr) => {{
            let want = $want;
            let w = |f: &'static str| move || format!("{x} {} {y} in {k} bits{f}", stringify!($op));
            m.eq((a $op b).0, want, w(""));
            m.eq((a $op &b).0, want, w(" by reference"));
            let mut z = a; z $assign b;
            m.eq(z.0, want, w(" in place"));
            let mut z = a; z $assign &b;
            m.eq(z.0, want, w(" in place by reference"));
        }};
    }
    forms!(+, +=, sum);
    forms!(-, -=, dif);
    forms!(*, *=, prod);
    forms!(^, ^=, xor);
    forms!(|, |=, or);
    forms!(&, &=, and);
    let w = |f: &'static str| move || format!("{f} of {x} and {y} in {k} bits");
    m.eq((a * t).0, prod, w("product with an integer"));
    m.eq((a * &t).0, prod, w("product with an integer by reference"));
    let mut z = a;
    z *= t;
    m.eq(z.0, prod, w("product with an integer in place"));
    let mut z = a;
    z *= &t;
    m.eq(z.0, prod, w("product with an integer in place by reference"));
    m.eq(s.wrapping_add(&t), sum, w("wrapping_add"));
    m.eq(s.wrapping_sub(&t), dif, w("wrapping_sub"));
    m.eq(s.wrapping_mul(&t), prod, w("wrapping_mul"));
    let mut z = s;
    z.wrapping_add_assign(&t);
    m.eq(z, sum, w("wrapping_add_assign"));
    let mut z = s;
    z.wrapping_sub_assign(&t);
    m.eq(z, dif, w("wrapping_sub_assign"));
    let mut z = s;
    z.wrapping_mul_assign(&t);
    m.eq(z, prod, w("wrapping_mul_assign"));
    m.eq(s ^ t, xor, w("xor"));
    m.eq(s | t, or, w("or"));
    m.eq(s & t, and, w("and"));
    let mut z = s;
    z ^= t;
    m.eq(z, xor, w("xor in place"));
    let mut z = s;
    z |= t;
    m.eq(z, or, w("or in place"));
    let mut z = s;
    z &= t;
    m.eq(z, and, w("and in place"));
    m.eq(a.partial_cmp(&b), x.partial_cmp(y), w("order"));
    m.eq(s.partial_cmp(&t), x.partial_cmp(y), w("order of the integers"));
    m.eq(a == b, x == y, w("equality"));
}

fn ring<T: IntRing2k + Exact>(c: &Check) {
    let k = T::W;
    let name = format!("ring-{k}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let m = Cmp { c, name: &name };
    let one = grid(k, k <= 256 || thorough());
    let pair = grid(k, k <= 8 || (thorough() && k <= 128 && k != 16));
    m.run("on constants", || {
        m.eq(RingElement::<T>::zero().0.val(), BigUint::from(0u8), || "zero".into());
        m.eq(RingElement::<T>::one().0.val(), BigUint::from(1u8), || "one".into());
        m.eq(T::from(true).val(), BigUint::from(1u8), || "from true".into());
        m.eq(T::from(false).val(), BigUint::from(0u8), || "from false".into());
        for len in 0..5usize {
            let v: Vec<T> = (0..len).map(|i| T::of(&low(&BigUint::from(i * 3 + 1), k))).collect();
            let mut spare = Vec::with_capacity(len + 7);
            spare.extend(v.iter().copied());
            m.eq(RingElement::convert_vec_rev(spare).into_iter().map(|r| r.0).collect::<Vec<_>>(), v.clone(), || format!("vector of {len}"));
            m.eq(RingElement::convert_slice_rev(&v).len(), len, || format!("slice of {len}"));
        }
        // Integers that do not fit are rejected, not cut.
        for i in k..=128 {
            for d in [0u128, 1] {
                let Some(v) = 1u128.checked_shl(i as u32).filter(|_| i < 128).map(|p| p + d) else { continue };
                m.ok(T::try_from(v).is_err(), || format!("{v} accepted as a {k}-bit element"));
                if i < 64 {
                    m.ok(T::try_from(v as u64).is_err(), || format!("{v} accepted as a {k}-bit element"));
                }
            }
        }
    });
    for x in &one {
        m.run(&format!("on {x}"), || ring_unary::<T>(&m, x));
        c.count(1, 60 + shifts(k).len() as u64 * 6);
        if c.failed() {
            return;
        }
    }
    for x in &pair {
        for y in &pair {
            m.run(&format!("on {x} and {y}"), || ring_binary::<T>(&m, x, y));
        }
        c.count(pair.len() as u64, 40 * pair.len() as u64);
        if c.failed() {
            return;
        }
    }
    c.note(&name, json!({"values": one.len(), "pairs": pair.len() * pair.len()}));
}
fn bits(c: &Check) {
    let name = "bit";
    if !c.selected(name) || c.failed() {
        return;
    }
    c.at(name);
    let m = Cmp { c, name };
    m.run("on bits", || {
        for x in [false, true] {
            let b = Bit::new(x);
            m.eq(bool::from(b), x, || format!("bool of {x}"));
            m.eq(Bit::from(x), b, || format!("bit of {x}"));
            m.eq(u8::from(b), x as u8, || format!("u8 of {x}"));
            m.eq(u128::from(b), x as u128, || format!("u128 of {x}"));
            m.eq(*b.as_ref(), b, || format!("as_ref of {x}"));
            m.eq(-b, b, || format!("negation of {x}"));
            let bb: bool = b.as_();
            m.eq(bb, x, || format!("as bool of {x}"));
            let bb: Bit = b.as_();
            m.eq(bb, b, || format!("as bit of {x}"));
            for y in [false, true] {
                let d = Bit::new(y);
                let w = |o: &'static str| move || format!("{x} {o} {y}");
                m.eq([b + d, b + &d, b - d, b - &d, b ^ d, b ^ &d].map(|r| r.convert()), [x ^ y; 6], w("+"));
                m.eq([b * d, b * &d, b & d, b & &d].map(|r| r.convert()), [x & y; 4], w("*"));
                m.eq([b | d, b | &d].map(|r| r.convert()), [x | y; 2], w("|"));
                let (mut e, mut f, mut g) = (b, b, b);
                e ^= &d;
                f &= &d;
                g |= &d;
                m.eq([e, f, g].map(|r| r.convert()), [x ^ y, x & y, x | y], w("in place"));
                m.eq(b.cmp(&d), x.cmp(&y), w("order"));
                c.count(1, 18);
            }
        }
        macro_rules! ints {
            ($($t:ty),*) => {$(
                for i in 0..<$t>::BITS {
                    for v in [1 as $t << i, (1 as $t << i) - 1, (1 as $t << i).wrapping_add(1), <$t>::MAX - (1 as $t << i)] {
                        let b: Bit = AsPrimitive::<Bit>::as_(v);
                        m.eq(b.convert(), v & 1 == 1, || format!("low bit of {v}"));
                        m.eq(Bit::try_from(v).ok().map(|b| b.convert()), match v { 0 => Some(false), 1 => Some(true), _ => None }, || format!("bit from {v}"));
                        c.count(1, 2);
                    }
                }
                for x in [false, true] {
                    let v: $t = AsPrimitive::<$t>::as_(Bit::new(x));
                    m.eq(v, x as $t, || format!("integer of {x}"));
                }
            )*};
        }
        ints!(u8, u16, u32, u64, u128);
        for v in 0..1000usize {
            m.eq(Bit::try_from(v).ok().map(|b| b.convert()), match v { 0 => Some(false), 1 => Some(true), _ => None }, || format!("bit from usize {v}"));
        }
        for v in 0..=255u8 {
            let want = match v {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            };
            m.eq(Bit::from_reader(&[v][..]).ok().map(|b| b.convert()), want, || format!("bit from byte {v}"));
            m.eq(RingElement::<Bit>::deserialize_uncompressed(&[v][..]).ok().map(|b| b.0.convert()), want, || format!("ring bit from byte {v}"));
        }
        for len in 0..9usize {
            for w in 0..1u32 << len {
                let v: Vec<bool> = (0..len).map(|i| w >> i & 1 == 1).collect();
                m.eq(Bit::convert_slice_rev(&v).iter().map(|b| b.convert()).collect::<Vec<_>>(), v.clone(), || format!("slice {v:?}"));
                m.eq(Bit::convert_vec_rev(v.clone()).iter().map(|b| b.convert()).collect::<Vec<_>>(), v.clone(), || format!("vector {v:?}"));
                c.count(1, 2);
            }
        }
    });
}

pub fn main() {
    let c = Check::new("U01");
    bits(&c);
    ring::<Bit>(&c);
    ring::<u8>(&c);
    let jobs: Vec<fn(&Check)> = vec![ring::<u128>, ring::<u64>, ring::<u32>, ring::<u16>, ring::<U256>, ring::<U512>, ring::<U1024>];
    parallel(&c, jobs, |c, f| f(c));
    c.finish()
}

// ---------------------------------------------------------------------------------------------

fn uint_unary<const B: usize, const L: usize>(m: &Cmp, x: &BigUint) {
    type R<const B: usize, const L: usize> = RUint<B, L>;
    let t = R::<B, L>::of(x);
    let w = |o: &'static str| move || format!("{o} of {x} in {B} bits");
    m.eq((!t).val(), full(B) - x, w("not"));
    m.eq((-t).val(), low(&(two(B) - x), B), w("negation"));
    m.eq(t.wrapping_neg().val(), low(&(two(B) - x), B), w("wrapping_neg"));
    m.eq(t.bit_len(), x.bits() as usize, w("bit_len"));
    m.eq(t.is_zero(), *x == BigUint::from(0u8), w("is_zero"));
    m.eq(t.is_one(), *x == BigUint::from(1u8), w("is_one"));
    m.eq(t.to_string(), <R<B, L> as Exact>::text(x), w("display"));
    m.eq(UintBackend::as_limbs(&t), &limbs(x, L)[..], w("as_limbs"));
    m.eq(BigUint::from(t), x.clone(), w("big integer"));
    m.eq(BigUint::from(&t), x.clone(), w("big integer by reference"));
    m.eq(R::<B, L>::try_from(x).ok(), Some(t), w("from big integer"));
    m.ok(R::<B, L>::try_from(&(x + two(B))).is_err(), || format!("{x} + 2^{B} accepted in {B} bits"));
    m.ok(R::<B, L>::try_from(&((x << 64) + two(B + 70))).is_err(), || format!("a {}-bit integer accepted in {B} bits", B + 71));
    let fits = *x <= BigUint::from(usize::MAX);
    let us = fits.then(|| usize::try_from(x).unwrap());
    m.eq(t.try_to_usize(), us, w("try_to_usize"));
    m.eq(usize::try_from(t).ok(), us, w("usize"));
    m.eq(BigUint::from(t.to_u64_truncating()), low(x, 64), w("to_u64_truncating"));
    macro_rules! down {
        ($($t:ty),*) => {$(
            let v: $t = AsPrimitive::<$t>::as_(t);
            m.eq(BigUint::from(v), low(x, <$t>::BITS as usize), || format!("{x} as {}", stringify!($t)));
            let v = <$t>::try_from(&low(x, <$t>::BITS as usize)).unwrap();
            let u: R<B, L> = AsPrimitive::<R<B, L>>::as_(v);
            m.eq(u.val(), BigUint::from(v), || format!("{v} as {B} bits"));
        )*};
    }
    down!(u8, u16, u32, u64, u128);
    let own: R<B, L> = t.as_();
    m.eq(own, t, w("as itself"));
    let v: Bit = AsPrimitive::<Bit>::as_(t);
    m.eq(v.convert(), x.bit(0), w("low bit"));
    let u: R<B, L> = AsPrimitive::<R<B, L>>::as_(Bit::new(x.bit(0)));
    m.eq(u.val(), BigUint::from(x.bit(0) as u8), w("bit widened"));
    m.eq(R::<B, L>::from(u64::try_from(low(x, 64)).unwrap()).val(), low(x, 64), w("from u64"));
    m.eq(R::<B, L>::from(u128::try_from(low(x, 128)).unwrap()).val(), low(x, 128), w("from u128"));
    for i in (0..B + 2).chain([2 * B, usize::MAX]) {
        let have = i < B && x.bit(i as u64);
        m.eq(t.bit(i), have, || format!("bit {i} of {x} in {B} bits"));
        if i < B {
            for to in [false, true] {
                let mut y = t;
                y.set_bit(i, to);
                let want = match (have, to) {
                    (false, true) => x + two(i),
                    (true, false) => x - two(i),
                    _ => x.clone(),
                };
                m.eq(y.val(), want, || format!("bit {i} of {x} set to {to} in {B} bits"));
            }
        }
    }
    for s in shifts(B) {
        let l = if s >= B { BigUint::from(0u8) } else { low(&(x << s), B) };
        let h = if s >= B { BigUint::from(0u8) } else { x >> s };
        m.eq((t << s).val(), l.clone(), || format!("{x} << {s} in {B} bits"));
        m.eq((t >> s).val(), h.clone(), || format!("{x} >> {s} in {B} bits"));
        let (mut y, mut z) = (t, t);
        y <<= s;
        z >>= s;
        m.eq(y.val(), l, || format!("{x} <<= {s} in {B} bits"));
        m.eq(z.val(), h, || format!("{x} >>= {s} in {B} bits"));
    }
    // Fewer or more limbs than the width.
    let all = limbs(x, L);
    for n in 0..L + 3 {
        let l: Vec<u64> = (0..n).map(|i| if i < L { all[i] } else { 0xfeed_0000 + i as u64 }).collect();
        m.eq(R::<B, L>::from_limbs_truncating(&l).val(), low(&from_limbs(&l), B), || format!("{n} limbs of {x} in {B} bits"));
    }
    let by = bytes_le(x, B / 8);
    let mut out = vec![0xaau8; B / 8];
    t.to_le_bytes_into(&mut out);
    m.eq(&out[..], &by[..], w("bytes"));
    m.eq(<R<B, L> as UintBackend>::from_le_bytes(&by), t, w("from bytes"));
    coded(m, t, &by, &|| format!("{x} in {B} bits"));
    let j: serde_json::Value = json!(limbs(x, L));
    m.eq(serde_json::from_value::<R<B, L>>(j).ok(), Some(t), w("from limbs in json"));
    let big: ark_ff::BigInt<L> = t.into();
    m.eq(big.0.to_vec(), all.clone(), w("field integer"));
    m.eq(R::<B, L>::from(ark_ff::BigInt::<L>(all.clone().try_into().unwrap())), t, w("from field integer"));
    // Random values of a given length take the generator's bits as they come.
    for len in [0, 1, 2, 63, 64, 65, B - 1, B] {
        let mut g = ListRng::new(all.clone());
        m.eq(R::<B, L>::random_bits(&mut g, len).val(), low(x, len), || format!("{len} random bits from {x} in {B} bits"));
    }
    let mut g = ListRng::new(all.clone());
    m.eq(rand::Rng::r#gen::<R<B, L>>(&mut g).val(), x.clone(), w("random value"));
}

fn uint_binary<const B: usize, const L: usize>(m: &Cmp, x: &BigUint, y: &BigUint) {
    let (s, t) = (RUint::<B, L>::of(x), RUint::<B, L>::of(y));
    let w = |o: &'static str| move || format!("{x} {o} {y} in {B} bits");
    macro_rules! forms {
        ($op:tt, $assign:tt, $want:expr) => {{
            let want = RUint::<B, L>::of(&$want);
            m.eq(s $op t, want, w(stringify!($op)));
            let mut z = s; z $assign t;
            m.eq(z, want, w(stringify!($assign)));
        }};
    }
    forms!(^, ^=, x ^ y);
    forms!(|, |=, x | y);
    forms!(&, &=, x & y);
    forms!(+, +=, low(&(x + y), B));
    forms!(-, -=, low(&(x + two(B) - y), B));
    if *y != BigUint::from(0u8) {
        forms!(/, /=, x / y);
        forms!(%, %=, x % y);
    }
    let prod = RUint::<B, L>::of(&low(&(x * y), B));
    m.eq(s * t, prod, w("*"));
    m.eq(s.wrapping_mul(&t), prod, w("wrapping_mul"));
    m.eq(s.wrapping_add(&t), s + t, w("wrapping_add"));
    m.eq(s.wrapping_sub(&t), s - t, w("wrapping_sub"));
    m.eq(s.cmp(&t), x.cmp(y), w("compared with"));
    m.eq(s == t, x == y, w("=="));
}

fn uint<const B: usize, const L: usize>(c: &Check) {
    let name = format!("uint-{B}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let m = Cmp { c, name: &name };
    type R<const B: usize, const L: usize> = RUint<B, L>;
    m.run("on constants", || {
        m.eq(<R<B, L> as UintBackend>::BITS, B, || "BITS".into());
        m.eq(<R<B, L> as UintBackend>::LIMBS, L, || "LIMBS".into());
        m.eq(<R<B, L> as UintBackend>::BYTES, B / 8, || "BYTES".into());
        m.eq(R::<B, L>::zero().val(), BigUint::from(0u8), || "zero".into());
        m.eq(R::<B, L>::one().val(), BigUint::from(1u8), || "one".into());
        m.eq(R::<B, L>::default().val(), BigUint::from(0u8), || "default".into());
        for k in 0..=B {
            m.eq(R::<B, L>::mask(k).val(), full(k), || format!("mask {k} in {B} bits"));
        }
        m.ok(mc::catch(|| R::<B, L>::mask(B + 1)).is_err(), || format!("mask of {} in {B} bits", B + 1));
        m.ok(mc::catch(|| <R<B, L> as UintBackend>::from_le_bytes(&vec![0; B / 8 - 1])).is_err(), || format!("too few bytes in {B} bits"));
        m.ok(mc::catch(|| <R<B, L> as UintBackend>::from_le_bytes(&vec![0; B / 8 + 1])).is_err(), || format!("too many bytes in {B} bits"));
        m.eq(<R<B, L> as From<bool>>::from(true).val(), BigUint::from(1u8), || "from true".into());
        m.eq(<R<B, L> as From<bool>>::from(false).val(), BigUint::from(0u8), || "from false".into());
        for n in 0..L {
            let short: Vec<u64> = vec![1; n];
            m.ok(serde_json::from_value::<R<B, L>>(json!(short)).is_err(), || format!("{n} limbs accepted in {B} bits"));
        }
        m.ok(serde_json::from_value::<R<B, L>>(json!(vec![1u64; L + 1])).is_err(), || format!("{} limbs accepted in {B} bits", L + 1));
    });
    let one = grid(B, B <= 384 || thorough());
    let pair = grid(B, thorough() && B <= 512);
    for x in &one {
        m.run(&format!("on {x}"), || uint_unary::<B, L>(&m, x));
        c.count(1, 60 + 8 * B as u64);
        if c.failed() {
            return;
        }
    }
    for x in &pair {
        for y in &pair {
            m.run(&format!("on {x} and {y}"), || uint_binary::<B, L>(&m, x, y));
        }
        c.count(pair.len() as u64, 20 * pair.len() as u64);
        if c.failed() {
            return;
        }
    }
    c.note(&name, json!({"values": one.len(), "pairs": pair.len() * pair.len()}));
}

/// Field elements and integers.
fn field<F: FieldUint>(c: &Check, tag: &str)
where
    F::Uint: Exact,
{
    let name = format!("field-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let m = Cmp { c, name: &name };
    let p: BigUint = F::MODULUS.into();
    let b = <F::Uint as Exact>::W;
    m.eq(F::modulus_uint().val(), p.clone(), || "modulus".into());
    m.ok(b >= F::MODULUS_BIT_SIZE as usize + 2, || "two spare bits".into());
    let mut vals: BTreeSet<BigUint> = grid(b, true).into_iter().collect();
    // Around multiples of the modulus.
    let max = full(b) / &p;
    for k in (0u32..6).map(BigUint::from).chain((0u32..3).map(|i| &max - i.min(1))).chain([&max / 2u8]) {
        for d in 0..4u32 {
            vals.insert(low(&(&k * &p + d), b));
            if &k * &p >= BigUint::from(d) {
                vals.insert(low(&(&k * &p - d), b));
            }
        }
    }
    for i in 0..p.bits() {
        vals.insert(&p - two(i as usize));
        vals.insert(&p + two(i as usize));
    }
    for v in &vals {
        m.run(&format!("on {v}"), || {
            let u = <F::Uint as Exact>::of(v);
            let want: BigUint = v % &p;
            let r = F::from_uint_reduced(&u);
            let got: BigUint = r.into_bigint().into();
            m.eq(got, want.clone(), || format!("{v} reduced"));
            let f = F::from(want.clone());
            m.eq(r, f, || format!("{v} reduced as an element"));
            m.eq(f.to_uint().val(), want.clone(), || format!("{want} as an integer"));
            let small = <F::Uint as Exact>::of(&want);
            m.eq(F::from_uint_unchecked(&small), f, || format!("{want} unchecked"));
            m.eq(F::from_uint_reduced(&f.to_uint()), f, || format!("{want} there and back"));
            // An integer that is not reduced is never taken for another element silently where
            // the documentation promises a panic.
            if *v >= p && v.bits() <= F::BigInt::NUM_LIMBS as u64 * 64 {
                m.ok(mc::catch(|| F::from_uint_unchecked(&u)).is_err(), || format!("{v} taken unchecked"));
            }
        });
        c.count(1, 6);
        if c.failed() {
            return;
        }
    }
    c.note(&name, vals.len());
}
use ark_ff::BigInteger;

fn bridge<P: ark_ff::FpConfig<L>, const B: usize, const L: usize>(c: &Check, tag: &str, _: ark_ff::Fp<P, L>) {
    let name = format!("bridge-{tag}");
    if !c.selected(&name) || c.failed() {
        return;
    }
    c.at(&name);
    let m = Cmp { c, name: &name };
    let p: BigUint = ark_ff::Fp::<P, L>::MODULUS.into();
    let mut vals: BTreeSet<BigUint> = grid(B, true).into_iter().collect();
    for d in 0..4u8 {
        vals.insert(&p + d);
        vals.insert(&p - d);
    }
    for v in vals {
        m.run(&format!("on {v}"), || {
            let u = RUint::<B, L>::of(&v);
            let r = ark_ff::Fp::<P, L>::try_from(u).ok();
            m.eq(r.is_some(), v < p, || format!("{v} accepted as an element"));
            if let Some(f) = r {
                let back: BigUint = f.into_bigint().into();
                m.eq(back, v.clone(), || format!("{v} as an element"));
                m.eq(RUint::<B, L>::from(f), u, || format!("{v} there and back"));
            }
        });
        c.count(1, 2);
    }
}

pub fn main_u02() {
    let c = Check::new("U02");
    let jobs: Vec<fn(&Check)> = vec![
        uint::<1024, 16>,
        uint::<512, 8>,
        uint::<384, 6>,
        uint::<320, 5>,
        uint::<256, 4>,
        uint::<192, 3>,
        uint::<128, 2>,
        |c| field::<ark_bn254::Fr>(c, "bn254-fr"),
        |c| field::<ark_bn254::Fq>(c, "bn254-fq"),
        |c| field::<ark_bls12_377::Fr>(c, "bls12_377-fr"),
        |c| field::<ark_bls12_377::Fq>(c, "bls12_377-fq"),
        |c| field::<ark_bls12_381::Fr>(c, "bls12_381-fr"),
        |c| field::<ark_bls12_381::Fq>(c, "bls12_381-fq"),
        |c| bridge::<_, 256, 4>(c, "bn254-fr", ark_bn254::Fr::zero()),
        |c| bridge::<_, 256, 4>(c, "bls12_381-fr", ark_bls12_381::Fr::zero()),
        |c| bridge::<_, 384, 6>(c, "bls12_381-fq", ark_bls12_381::Fq::zero()),
    ];
    parallel(&c, jobs, |c, f| f(c));
    c.finish()
}
