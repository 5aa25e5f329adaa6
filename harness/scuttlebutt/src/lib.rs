//! Stand-in for swanky's `scuttlebutt`, of which mpc-core uses the 128-bit block only.
use rand::Rng;
use rand::distributions::{Distribution, Standard};
use subtle::{Choice, ConditionallySelectable};

#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Block(pub [u8; 16]);

impl Block {
    pub fn from_u128(v: u128) -> Self {
        Block(v.to_le_bytes())
    }
    pub fn to_u128(self) -> u128 {
        u128::from_le_bytes(self.0)
    }
}
impl AsRef<[u8]> for Block {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Block {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<u128> for Block {
    fn from(v: u128) -> Self {
        Self::from_u128(v)
    }
}
impl From<[u8; 16]> for Block {
    fn from(v: [u8; 16]) -> Self {
        Block(v)
    }
}
impl From<Block> for [u8; 16] {
    fn from(v: Block) -> Self {
        v.0
    }
}
impl std::ops::BitXor for Block {
    type Output = Block;
    fn bitxor(self, o: Block) -> Block {
        Self::from_u128(self.to_u128() ^ o.to_u128())
    }
}
impl std::ops::BitXorAssign for Block {
    fn bitxor_assign(&mut self, o: Block) {
        *self = *self ^ o;
    }
}
impl std::ops::BitAnd for Block {
    type Output = Block;
    fn bitand(self, o: Block) -> Block {
        Self::from_u128(self.to_u128() & o.to_u128())
    }
}
impl ConditionallySelectable for Block {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if bool::from(choice) { *b } else { *a }
    }
}
impl Distribution<Block> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Block {
        Block::from_u128(rng.r#gen())
    }
}
