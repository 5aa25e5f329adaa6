//! A network of parties that are tasks of one world: every message and every interleaving is
//! under the checker's control.
use mpc_net::{ConnectionStats, Network, bytes::Bytes};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

/// Changes message number `seq` of link from -> to; None closes the link instead.
pub type Tamper = Rc<dyn Fn(usize, usize, usize, usize, Bytes) -> Option<Bytes>>;

#[derive(Default)]
pub struct Hub {
    pub cap: usize,
    links: BTreeMap<(usize, usize, usize), VecDeque<Bytes>>,
    seq: BTreeMap<(usize, usize, usize), usize>,
    cut: BTreeMap<(usize, usize, usize), bool>,
    /// Parties that have ended (nothing more comes from them).
    ended: BTreeMap<usize, bool>,
    /// What each party has received, in its order: (net, from, data).
    pub views: BTreeMap<usize, Vec<(usize, usize, Bytes)>>,
    pub messages: u64,
    pub tamper: Option<Tamper>,
    /// The message (net, from, to, seq) whose send fails.
    pub refuse: Option<(usize, usize, usize, usize)>,
}
pub fn hub() -> &'static mut Hub {
    mc::slot::<Hub>("hub")
}

#[derive(Clone, Copy, Debug)]
pub struct SimNet {
    pub net: usize,
    pub id: usize,
    pub n: usize,
}

impl Network for SimNet {
    fn id(&self) -> usize {
        self.id
    }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
        if to >= self.n || to == self.id {
            eyre::bail!("no such peer {to}");
        }
        let key = (self.net, self.id, to);
        mc::point();
        if hub().cap != 0 {
            let cap = hub().cap;
            mc::block("send", None, move || {
                hub().ended.contains_key(&to) || hub().links.get(&key).map_or(0, |l| l.len()) < cap
            });
        }
        let h = hub();
        let s = h.seq.entry(key).or_default();
        let seq = *s;
        *s += 1;
        if h.refuse == Some((self.net, self.id, to, seq)) {
            h.cut.insert(key, true);
        }
        if h.cut.contains_key(&key) {
            eyre::bail!("link is down");
        }
        let data = match h.tamper.clone() {
            Some(t) => t(self.net, self.id, to, seq, data),
            None => Some(data),
        };
        match data {
            Some(d) => {
                h.messages += 1;
                h.links.entry(key).or_default().push_back(d);
            }
            None => {
                h.cut.insert(key, true);
            }
        }
        if h.ended.contains_key(&to) {
            eyre::bail!("peer {to} has gone");
        }
        Ok(())
    }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> {
        if from >= self.n || from == self.id {
            eyre::bail!("no such peer {from}");
        }
        let key = (self.net, from, self.id);
        mc::point();
        mc::block("recv", None, move || {
            let h = hub();
            h.links.get(&key).is_some_and(|l| !l.is_empty()) || h.ended.contains_key(&from) || h.cut.contains_key(&key)
        });
        let h = hub();
        match h.links.get_mut(&key).and_then(|l| l.pop_front()) {
            Some(d) => {
                h.views.entry(self.id).or_default().push((self.net, from, d.clone()));
                Ok(d)
            }
            None => eyre::bail!("connection to {from} is closed"),
        }
    }
    fn get_connection_stats(&self) -> ConnectionStats {
        ConnectionStats::new(self.id, BTreeMap::new())
    }
}

/// Runs one task per party and returns what each returned (or its panic).
pub fn run<R: 'static>(n: usize, f: impl Fn(usize, SimNet) -> R + Clone + 'static) -> Vec<Result<R, String>> {
    let out: Rc<std::cell::RefCell<Vec<Option<R>>>> = Rc::new(std::cell::RefCell::new((0..n).map(|_| None).collect()));
    let ids: Vec<_> = (0..n)
        .map(|i| {
            let f = f.clone();
            let out = out.clone();
            mc::spawn_named(format!("party{i}"), move || {
                struct Ended(usize);
                impl Drop for Ended {
                    fn drop(&mut self) {
                        if !mc::tearing_down() {
                            hub().ended.insert(self.0, true);
                        }
                    }
                }
                let _e = Ended(i);
                simrand::ctl::i_am(i);
                let r = f(i, SimNet { net: 0, id: i, n });
                out.borrow_mut()[i] = Some(r);
            })
        })
        .collect();
    for id in &ids {
        mc::join(*id);
    }
    let mut o = out.borrow_mut();
    ids.iter()
        .enumerate()
        .map(|(i, id)| match o[i].take() {
            Some(r) => Ok(r),
            None => Err(mc::panic_of(*id).unwrap_or_else(|| "no result".into())),
        })
        .collect()
}

/// Messages still in flight when all parties have ended.
pub fn undelivered() -> usize {
    hub().links.values().map(|l| l.len()).sum()
}
