//! S07: one damaged or missing message, at every position of every protocol.
use crate::prelude::*;
use crate::proto::{self, Space, script, state};
use crate::s08;
use mpc_net::bytes::Bytes;
use std::sync::{Arc, Mutex};

type F = F251;

/// One party's run; Ok and Err are all that matters.
pub type Run = Arc<dyn Fn(usize, SimNet) -> eyre::Result<()> + Send + Sync>;

pub const DAMAGE: [&str; 14] =
    ["cut", "empty", "last byte missing", "half", "one byte", "seven bytes", "all ones", "elements all ones", "one element more", "one element less", "length too large", "length too small", "length enormous", "refused by the network"];

/// The damaged message, or None if this kind of damage does not apply.
/// `seed`: any bytes are valid elements.
pub fn damage(kind: usize, d: &[u8], seed: bool) -> Option<Option<Vec<u8>>> {
    let prefix = |d: &[u8]| -> Option<u64> { d.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) };
    // A vector of k elements of `es` bytes each.
    let vec = prefix(d).filter(|k| *k > 0 && *k < 1000 && (d.len() - 8) % *k as usize == 0);
    let some = |v: Vec<u8>| if v == d { None } else { Some(Some(v)) };
    match kind {
        0 => Some(None),
        1 => some(vec![]),
        2 => some(d[..d.len().saturating_sub(1)].to_vec()),
        3 => some(d[..d.len() / 2].to_vec()),
        4 => some(d.get(..1)?.to_vec()),
        5 if d.len() > 7 => some(d[..7].to_vec()),
        6 => some(vec![0xff; d.len()]),
        7 if !seed => {
            vec?;
            let mut v = d.to_vec();
            v[8..].fill(0xff);
            some(v)
        }
        8 => {
            let k = vec?;
            let es = (d.len() - 8) / k as usize;
            let mut v = (k + 1).to_le_bytes().to_vec();
            v.extend(&d[8..]);
            v.extend(&d[d.len() - es..]);
            some(v)
        }
        9 => {
            let k = vec?;
            let es = (d.len() - 8) / k as usize;
            let mut v = (k - 1).to_le_bytes().to_vec();
            v.extend(&d[8..d.len() - es]);
            some(v)
        }
        10 => {
            let mut v = (vec? + 1).to_le_bytes().to_vec();
            v.extend(&d[8..]);
            some(v)
        }
        11 => {
            let mut v = (vec? - 1).to_le_bytes().to_vec();
            v.extend(&d[8..]);
            some(v)
        }
        12 => {
            vec?;
            let mut v = u64::MAX.to_le_bytes().to_vec();
            v.extend(&d[8..]);
            some(v)
        }
        _ => None,
    }
}

type Msg = (usize, usize, usize, usize, usize);

/// The messages of an undisturbed run: (net, from, to, seq, length).
pub fn messages(n: usize, r: Run) -> Vec<Msg> {
    let out: Arc<Mutex<Vec<Msg>>> = Default::default();
    let o2 = out.clone();
    let mut e = explorer(0, 60);
    e.bounds.threads = 1;
    e.bounds.max_executions = 1;
    let s = e.explore(move |res| {
        o2.lock().unwrap().clear();
        let o3 = o2.clone();
        hub().tamper = Some(Rc::new(move |net, from, to, seq, d: Bytes| {
            o3.lock().unwrap().push((net, from, to, seq, d.len()));
            Some(d)
        }));
        script::<F>(1, 0);
        let r = r.clone();
        let all = run(n, move |i, net| r(i, net));
        for (i, r) in all.into_iter().enumerate() {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return res.set(Err(format!("undisturbed party {i}: {e:#}"))),
                Err(e) => return res.set(Err(format!("undisturbed party {i} panicked: {e}"))),
            }
        }
        res.set(Ok("ok".into()));
    });
    assert!(s.violation.is_none(), "{:?}", s.violation);
    let m = out.lock().unwrap().clone();
    m
}

pub fn explore(c: &Check, name: &str, n: usize, r: Run, dev: u32) {
    explore_but(c, name, n, r, dev, &[])
}
/// The same without some kinds of damage.
pub fn explore_but(c: &Check, name: &str, n: usize, r: Run, dev: u32, ignore: &'static [usize]) {
    let msgs = Arc::new(messages(n, r.clone()));
    let mut e = explorer(dev, 60);
    e.bounds.max_executions = q(200_000, 4_000_000);
    let s = e.explore(move |out| {
        let which = msgs[mc::pick(msgs.len() as u32, "message") as usize];
        let kind = mc::pick(DAMAGE.len() as u32, "damage") as usize;
        let (wn, from, to, seq, len) = which;
        if ignore.contains(&kind) {
            return out.set(Ok("not applicable".into()));
        }
        let hit = Rc::new(RefCell::new(false));
        let h2 = hit.clone();
        if kind == 13 {
            hub().refuse = Some((wn, from, to, seq));
            *hit.borrow_mut() = true;
        }
        // Seeds are the only messages whose elements are 32 arbitrary bytes here.
        let seed = len == 40;
        hub().tamper = Some(Rc::new(move |net, f, t, s, d: Bytes| {
            if (net, f, t, s) == (wn, from, to, seq)
                && let Some(x) = damage(kind, &d, seed)
            {
                *h2.borrow_mut() = true;
                return x.map(Bytes::from);
            }
            Some(d)
        }));
        script::<F>(1, 0);
        let r = r.clone();
        let all = run(n, move |i, net| r(i, net));
        if !*hit.borrow() {
            return out.set(Ok("not applicable".into()));
        }
        let ctx = format!("message {seq} from {from} to {to} ({len} bytes): {}", DAMAGE[kind]);
        for (i, r) in all.into_iter().enumerate() {
            match r {
                Err(p) => return out.set(Err(format!("{ctx}: party {i} panicked: {p}"))),
                Ok(Ok(())) if i == to => return out.set(Err(format!("{ctx}: the receiver does not notice"))),
                Ok(Ok(())) if i == from && kind == 13 => return out.set(Err(format!("{ctx}: the sender does not notice"))),
                _ => {}
            }
        }
        out.set(Ok("noticed".into()));
    });
    c.explored(name, &s);
}

pub fn main() {
    let c = Check::new("S07");
    for (n, t, dev) in q(vec![(3, 1, 1), (4, 1, 1), (5, 2, 0), (2, 0, 2)], vec![(3, 1, 2), (4, 1, 1), (5, 2, 1), (5, 1, 1), (2, 0, 3), (6, 2, 1)]) {
        let sp = Space { n, t, pairs: 6, budget: 0, tapes: 1, polys: 0, cap: 0 };
        // Field operations.
        for op in proto::ops::<F251>().into_iter().filter(|o| o.net && o.name != "send_and_recv") {
            let name = format!("{}-n{n}-t{t}", op.name);
            if !c.selected(&name) || c.failed() {
                continue;
            }
            c.at(&name);
            let shares: Vec<Vec<F251>> = (0..op.ins as u64)
                .map(|k| {
                    let mut poly = vec![F251::from(2 + 3 * k)];
                    poly.extend((0..t as u64).map(|i| F251::from(3 * i + 1 + k)));
                    proto::deal(&poly, n)
                })
                .collect();
            explore(
                &c,
                &name,
                n,
                Arc::new(move |i, net| {
                    let mine: Vec<Sh<F251>> = shares.iter().map(|s| Sh::new(s[i])).collect();
                    let mut st = state::<F251>(&net, sp)?;
                    (op.run)(&net, &mut st, &mine, &[F251::from(4)]).map(|_| ())
                }),
                dev,
            );
        }
        // Point operations.
        for op in s08::ops::<G7, _>().into_iter().filter(|o| o.net) {
            let name = format!("point-{}-n{n}-t{t}", op.name);
            if !c.selected(&name) || c.failed() {
                continue;
            }
            c.at(&name);
            let deal = move |k: u64| {
                let mut poly = vec![F7::from(2 + 3 * k)];
                poly.extend((0..t as u64).map(|i| F7::from(3 * i + 1 + k)));
                proto::deal(&poly, n)
            };
            explore(
                &c,
                &name,
                n,
                Arc::new(move |i, net| {
                    let p: Vec<_> = (0..op.ins[0] as u64).map(|k| ShamirPointShare::new(G7::generator() * deal(k)[i])).collect();
                    let f: Vec<_> = (0..op.ins[1] as u64).map(|k| Sh::new(deal(k + 5)[i])).collect();
                    let mut st = state::<F7>(&net, sp)?;
                    (op.run)(&net, &mut st, s08::In { p: &p, f: &f, pp: &[], pf: &[] }).map(|_| ())
                }),
                dev,
            );
        }
    }
    c.finish()
}
