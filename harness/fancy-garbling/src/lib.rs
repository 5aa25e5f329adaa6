//! Stand-in for swanky's `fancy-garbling`: what mpc-core uses of it (labels of the boolean case, the
//! circuit traits and the bundle type) with the same meaning. The hash is a fixed mixing function.
use rand::{CryptoRng, Rng};
pub use scuttlebutt::Block;
use std::fmt::{self, Debug, Display};
use subtle::{Choice, ConditionallySelectable};

pub mod errors {
    use super::*;
    #[derive(Debug)]
    pub enum FancyError {
        InvalidArg(String),
        UninitializedValue,
    }
    impl Display for FancyError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for FancyError {}
    macro_rules! kind {
        ($n:ident, $($v:ident),*) => {
            #[derive(Debug)]
            pub enum $n {
                CommunicationError(String),
                FancyError(FancyError),
                $($v),*
            }
            impl Display for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, "{self:?}")
                }
            }
            impl std::error::Error for $n {}
            impl From<FancyError> for $n {
                fn from(e: FancyError) -> Self {
                    $n::FancyError(e)
                }
            }
        };
    }
    kind!(GarblerError, DeltaRetrieval, TruthTableRequired);
    kind!(EvaluatorError, DecodingFailed);
}
pub use errors::FancyError;

pub mod util {
    use super::Block;
    pub fn tweak(i: usize) -> Block {
        tweak2(i as u64, 1)
    }
    pub fn tweak2(i: u64, j: u64) -> Block {
        Block::from_u128(((i as u128) << 64) | j as u128)
    }
    pub fn output_tweak(i: usize, k: u16) -> Block {
        Block::from_u128(((i as u128) << 64) | ((k as u128) << 32) | (1 << 63))
    }
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
fn digest(label: Block, tweak: Block) -> Block {
    let (l, t) = (label.to_u128(), tweak.to_u128());
    let mut s = [l as u64, (l >> 64) as u64, t as u64, (t >> 64) as u64];
    for r in 0..4u64 {
        for i in 0..4 {
            s[i] = mix(s[i].wrapping_add(s[(i + 1) % 4].rotate_left(17)).wrapping_add(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(4 * r + i as u64 + 1)));
        }
    }
    Block::from_u128((s[0] as u128) << 64 | s[2] as u128)
}

pub trait HasModulus {
    fn modulus(&self) -> u16;
}

pub trait WireLabel: Clone + HasModulus + Debug + PartialEq + Default {
    fn color(&self) -> u16;
    fn as_block(&self) -> Block;
    fn from_block(inp: Block, q: u16) -> Self;
    fn zero(q: u16) -> Self;
    fn rand<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self;
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self;
    fn hash_to_mod(hash: Block, q: u16) -> Self;
    fn hash(&self, tweak: Block) -> Block {
        digest(self.as_block(), tweak)
    }
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self;
    fn cmul_eq(&mut self, c: u16) -> &mut Self;
    fn negate_eq(&mut self) -> &mut Self;
    fn plus(&self, other: &Self) -> Self {
        self.clone().plus_mov(other)
    }
    fn plus_mov(mut self, other: &Self) -> Self {
        self.plus_eq(other);
        self
    }
    fn minus(&self, other: &Self) -> Self {
        self.plus(&other.negate())
    }
    fn negate(&self) -> Self {
        let mut s = self.clone();
        s.negate_eq();
        s
    }
    fn cmul(&self, c: u16) -> Self {
        let mut s = self.clone();
        s.cmul_eq(c);
        s
    }
}

pub fn hash_wires<const Q: usize, W: WireLabel>(wires: [&W; Q], tweak: Block) -> [Block; Q] {
    wires.map(|w| w.hash(tweak))
}

#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
pub struct WireMod2 {
    val: Block,
}
impl HasModulus for WireMod2 {
    fn modulus(&self) -> u16 {
        2
    }
}
impl ConditionallySelectable for WireMod2 {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        WireMod2 { val: Block::conditional_select(&a.val, &b.val, choice) }
    }
}
impl WireLabel for WireMod2 {
    fn color(&self) -> u16 {
        (self.val.to_u128() & 1) as u16
    }
    fn as_block(&self) -> Block {
        self.val
    }
    fn from_block(val: Block, q: u16) -> Self {
        assert_eq!(q, 2);
        WireMod2 { val }
    }
    fn zero(q: u16) -> Self {
        assert_eq!(q, 2);
        Self::default()
    }
    fn rand<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self {
        assert_eq!(q, 2);
        WireMod2 { val: rng.r#gen() }
    }
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self {
        assert_eq!(q, 2);
        let v: Block = rng.r#gen();
        WireMod2 { val: Block::from_u128(v.to_u128() | 1) }
    }
    fn hash_to_mod(hash: Block, q: u16) -> Self {
        Self::from_block(hash, q)
    }
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self {
        self.val ^= other.val;
        self
    }
    fn cmul_eq(&mut self, c: u16) -> &mut Self {
        if c & 1 == 0 {
            self.val = Block::default();
        }
        self
    }
    fn negate_eq(&mut self) -> &mut Self {
        self
    }
}

/// A list of wires.
#[derive(Clone, Debug, PartialEq)]
pub struct Bundle<W>(Vec<W>);
impl<W: Clone> Bundle<W> {
    pub fn new(ws: Vec<W>) -> Self {
        Bundle(ws)
    }
    pub fn wires(&self) -> &[W] {
        &self.0
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, W> {
        self.0.iter()
    }
}

/// Wires of a binary number, least significant first.
#[derive(Clone, Debug, PartialEq)]
pub struct BinaryBundle<W>(Vec<W>);
impl<W: Clone> BinaryBundle<W> {
    pub fn new(ws: Vec<W>) -> Self {
        BinaryBundle(ws)
    }
    pub fn extract(self) -> Bundle<W> {
        Bundle(self.0)
    }
    pub fn wires(&self) -> &[W] {
        &self.0
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, W> {
        self.0.iter()
    }
}

pub trait Fancy {
    type Item: Clone + HasModulus;
    type Error: Debug + Display + From<FancyError>;
    fn constant(&mut self, x: u16, q: u16) -> Result<Self::Item, Self::Error>;
    fn output(&mut self, x: &Self::Item) -> Result<Option<u16>, Self::Error>;
    fn outputs(&mut self, xs: &[Self::Item]) -> Result<Option<Vec<u16>>, Self::Error> {
        let mut all = Some(Vec::with_capacity(xs.len()));
        for x in xs {
            match (self.output(x)?, &mut all) {
                (Some(v), Some(a)) => a.push(v),
                _ => all = None,
            }
        }
        Ok(all)
    }
}

pub trait FancyBinary: Fancy {
    fn xor(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn and(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn negate(&mut self, x: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn or(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let nx = self.negate(x)?;
        let ny = self.negate(y)?;
        let z = self.and(&nx, &ny)?;
        self.negate(&z)
    }
    /// `x` if `b` is 0, else `y`.
    fn mux(&mut self, b: &Self::Item, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let d = self.xor(x, y)?;
        let m = self.and(b, &d)?;
        self.xor(&m, x)
    }
}
