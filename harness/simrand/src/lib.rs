//! `rand` 0.8 with its sources of entropy under the checker's control.
//!
//! Everything is `rand`'s own, except `thread_rng` (and, in `simchacha`, `ChaCha12Rng`): entropy
//! is a deterministic function of who asks and how often, and in a world with a script every
//! 64-bit draw (what field elements are sampled from) is answered by the script, once per seed and
//! position, so that all holders of a seed see the same values.
pub use real::*;

pub mod rngs {
    pub use real::rngs::*;
    pub type ThreadRng = crate::ctl::SimRng;
}

/// A generator with fresh entropy.
pub fn thread_rng() -> ctl::SimRng {
    use real::SeedableRng;
    ctl::SimRng::from_entropy()
}

pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().r#gen()
}

pub mod ctl {
    use chacha::ChaCha12Rng;
    use real::{CryptoRng, Error, RngCore, SeedableRng};
    use std::cell::Cell;
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    use std::rc::Rc;
    use std::sync::atomic::{AtomicU64, Ordering};

    pub type Seed = [u8; 32];
    pub type Script = Rc<dyn Fn(&Seed, u64) -> u64>;

    #[derive(Default)]
    pub struct Ctl {
        pub script: Option<Script>,
        /// The same for 32-bit draws, of parties that are listed in `armed`.
        pub script32: Option<Script>,
        pub armed: BTreeSet<usize>,
        /// Answers given so far.
        pub memo: HashMap<(Seed, u64), u64>,
        /// Which parties hold a generator with this seed.
        pub holders: BTreeMap<Seed, BTreeSet<usize>>,
        /// How often each party (or task without a party) has asked for entropy.
        pub asked: BTreeMap<usize, u64>,
        /// The party a task belongs to.
        pub party: BTreeMap<usize, usize>,
        /// How many scripted draws each party has made.
        pub drawn: BTreeMap<usize, u64>,
    }
    pub fn ctl() -> &'static mut Ctl {
        mc::slot::<Ctl>("simrand")
    }
    pub const NOBODY: usize = usize::MAX;
    pub fn me() -> usize {
        if mc::in_world() { ctl().party.get(&mc::current()).copied().unwrap_or(NOBODY) } else { NOBODY }
    }
    pub fn i_am(party: usize) {
        ctl().party.insert(mc::current(), party);
    }

    thread_local! { static OUTSIDE: Cell<Option<u64>> = const { Cell::new(None) }; }
    static GLOBAL: AtomicU64 = AtomicU64::new(1);
    /// Entropy handed out on this OS thread outside of worlds continues from here.
    pub fn set_outside(n: u64) {
        OUTSIDE.with(|o| o.set(Some(n)));
    }

    fn entropy() -> Seed {
        let (who, n) = if mc::in_world() {
            let who = me();
            let c = ctl().asked.entry(who).or_default();
            *c += 1;
            (who as u64, *c)
        } else {
            let n = OUTSIDE.with(|o| match o.get() {
                Some(n) => {
                    o.set(Some(n + 1));
                    n
                }
                None => GLOBAL.fetch_add(1, Ordering::Relaxed) | 1 << 60,
            });
            (1 << 40, n)
        };
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&who.to_le_bytes());
        s[8..16].copy_from_slice(&n.to_le_bytes());
        s[16] = 0x5e;
        let mut seed = [0u8; 32];
        ChaCha12Rng::from_seed(s).fill_bytes(&mut seed);
        seed
    }

    #[derive(Clone, Debug)]
    pub struct SimRng {
        seed: Seed,
        pos: u64,
        inner: ChaCha12Rng,
    }
    impl PartialEq for SimRng {
        fn eq(&self, o: &Self) -> bool {
            self.seed == o.seed && self.pos == o.pos && self.inner == o.inner
        }
    }
    impl Eq for SimRng {}
    impl Default for SimRng {
        fn default() -> Self {
            Self::from_entropy()
        }
    }
    impl SimRng {
        fn scripted(&mut self, script: Script) -> u64 {
            let k = (self.seed, self.pos);
            self.pos += 1;
            *ctl().drawn.entry(me()).or_default() += 1;
            if let Some(v) = ctl().memo.get(&k) {
                return *v;
            }
            let v = script(&k.0, k.1);
            ctl().memo.insert(k, v);
            v
        }
        pub fn get_seed(&self) -> Seed {
            self.seed
        }
        pub fn get_word_pos(&self) -> u128 {
            self.inner.get_word_pos() + 2 * self.pos as u128
        }
    }
    impl SeedableRng for SimRng {
        type Seed = Seed;
        fn from_seed(seed: Seed) -> Self {
            if mc::in_world() {
                let me = me();
                ctl().holders.entry(seed).or_default().insert(me);
            }
            SimRng { seed, pos: 0, inner: ChaCha12Rng::from_seed(seed) }
        }
        fn from_entropy() -> Self {
            Self::from_seed(entropy())
        }
    }
    impl RngCore for SimRng {
        fn next_u32(&mut self) -> u32 {
            if mc::in_world() && ctl().script32.is_some() && ctl().armed.contains(&me()) {
                return self.scripted(ctl().script32.clone().unwrap()) as u32;
            }
            self.inner.next_u32()
        }
        fn next_u64(&mut self) -> u64 {
            if mc::in_world() && ctl().script.is_some() {
                return self.scripted(ctl().script.clone().unwrap());
            }
            self.inner.next_u64()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            self.inner.fill_bytes(dest)
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.inner.fill_bytes(dest);
            Ok(())
        }
    }
    impl CryptoRng for SimRng {}
}
