pub use crate::fields::*;
pub use crate::net::*;
pub use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
pub use ark_ff::{Field, One, PrimeField, Zero};
pub use mc::explore::{Bounds, Explorer, Out};
pub use mc::report::{Check, thorough};
pub use mpc_core::MpcState;
pub use mpc_core::protocols::shamir::{self, ShamirPointShare, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
pub use mpc_net::Network;
pub use serde_json::json;
pub use std::cell::RefCell;
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::rc::Rc;
pub use std::time::Duration;

pub type Sh<F> = ShamirPrimeFieldShare<F>;

/// Quick or thorough bound.
pub fn q<X>(quick: X, deep: X) -> X {
    if thorough() { deep } else { quick }
}

pub fn explorer(dev: u32, secs: u64) -> Explorer {
    let mut e = Explorer::default();
    e.bounds.deviations = dev;
    e.cfg.delay_bounded = true;
    e.cfg.max_steps = 2_000_000;
    e.bounds.wall = Duration::from_secs(if thorough() { secs * 20 } else { secs });
    e
}

/// A generator whose 64-bit draws are the given values (then zero).
pub struct ListRng {
    pub vals: Vec<u64>,
    pub pos: usize,
}
impl ListRng {
    pub fn new(vals: Vec<u64>) -> Self {
        ListRng { vals, pos: 0 }
    }
}
impl rand::RngCore for ListRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        self.vals.get(self.pos - 1).copied().unwrap_or(0)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for ListRng {}

/// All vectors of length k over 0..m.
pub fn words(m: u64, k: usize) -> impl Iterator<Item = Vec<u64>> {
    let total = m.checked_pow(k as u32).expect("too many words");
    (0..total).map(move |mut x| {
        (0..k)
            .map(|_| {
                let d = x % m;
                x /= m;
                d
            })
            .collect()
    })
}

/// All subsets of 0..n with exactly k elements, ascending.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n)
        .filter(|m| m.count_ones() as usize == k)
        .map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect())
        .collect()
}
/// All orders of the given elements.
pub fn orders(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x);
            out.push(o);
        }
    }
    out
}

/// Draws of the parties' generators are enumerated: each draw of a field with modulus p is 0,
/// or - as long as the budget lasts - any other value.
pub fn script_budget(p: u64, budget: u32) {
    let left = Rc::new(RefCell::new(budget));
    simrand::ctl::ctl().script = Some(Rc::new(move |_, _| {
        if *left.borrow() == 0 {
            return 0;
        }
        let v = mc::pick(p as u32, "draw") as u64;
        if v != 0 {
            *left.borrow_mut() -= 1;
        }
        v
    }));
}
/// Draws are fixed pseudo-random values below p.
pub fn script_fixed(p: u64, salt: u64) {
    simrand::ctl::ctl().script = Some(Rc::new(move |seed, pos| {
        let mut x = salt.wrapping_mul(0x9e3779b97f4a7c15) ^ pos.wrapping_mul(0xd1342543de82ef95);
        for c in seed.chunks(8) {
            x ^= u64::from_le_bytes(c.try_into().unwrap());
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 29;
        }
        x % p
    }));
}

/// A generator whose draws are enumerated: 64-bit draws below p, 32-bit draws between two values.
pub struct TapeRng {
    p: u64,
    tape: Vec<(u64, u64)>,
    pos: usize,
}
impl TapeRng {
    fn draw(&mut self, radix: u64) -> u64 {
        if self.pos == self.tape.len() {
            assert!(self.pos < 64, "too many draws");
            self.tape.push((0, radix));
        }
        self.pos += 1;
        self.tape[self.pos - 1].0
    }
    pub fn used(&self) -> Vec<u64> {
        self.tape[..self.pos].iter().map(|d| d.0).collect()
    }
}
impl rand::RngCore for TapeRng {
    fn next_u32(&mut self) -> u32 {
        (self.draw(2) as u32) << 31
    }
    fn next_u64(&mut self) -> u64 {
        let p = self.p;
        self.draw(p)
    }
    fn fill_bytes(&mut self, _dest: &mut [u8]) {
        panic!("bytes drawn where field elements were expected")
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for TapeRng {}

/// Runs f for every sequence of draws (of any length it asks for), with the number of sequences
/// of `norm` draws that each stands for. At most `max` runs; false if that was not all.
pub fn all_tapes(p: u64, max: u64, mut f: impl FnMut(&mut TapeRng)) -> bool {
    let mut tape: Vec<(u64, u64)> = vec![];
    for _ in 0..max {
        let mut r = TapeRng { p, tape: std::mem::take(&mut tape), pos: 0 };
        f(&mut r);
        tape = r.tape;
        tape.truncate(r.pos);
        loop {
            match tape.pop() {
                None => return true,
                Some((v, radix)) if v + 1 < radix => {
                    tape.push((v + 1, radix));
                    break;
                }
                _ => {}
            }
        }
    }
    false
}

/// Runs the jobs on all cores, stopping early once a violation has been found.
pub fn parallel<J: Send>(c: &Check, jobs: Vec<J>, f: impl Fn(&Check, J) + Sync) {
    let q = std::sync::Mutex::new(jobs.into_iter().rev().collect::<Vec<_>>());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let j = q.lock().unwrap().pop();
                    let Some(j) = j else { break };
                    if c.failed() {
                        break;
                    }
                    f(c, j);
                }
            });
        }
    });
}
