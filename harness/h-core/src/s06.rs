//! S06: every schedule of the parties gives the same result and ends.
use crate::prelude::*;
use crate::proto::{self, Got, Op, Space, judge, script, state};
use mpc_core::protocols::shamir::arithmetic as ar;

type F = F251;

fn world(op: Op<F>, sp: Space, out: Out) {
    hub().cap = sp.cap;
    script::<F>(3, 0);
    let vals: Vec<F> = (0..op.ins as u64).map(|i| F::from(2 + 3 * i)).collect();
    let pubs: Vec<F> = (0..op.pubs as u64).map(|i| F::from(4 + i)).collect();
    let shares: Vec<Vec<F>> = vals
        .iter()
        .enumerate()
        .map(|(k, v)| {
            let mut poly = vec![*v];
            poly.extend((0..sp.t as u64).map(|i| F::from(3 * i + 1 + k as u64)));
            proto::deal(&poly, sp.n)
        })
        .collect();
    let p2 = pubs.clone();
    let seen: Rc<RefCell<BTreeMap<usize, String>>> = Default::default();
    let s2 = seen.clone();
    let res = run(sp.n, move |i, net| {
        let mine: Vec<Sh<F>> = shares.iter().map(|s| Sh::new(s[i])).collect();
        let mut st = state::<F>(&net, sp)?;
        let r = (op.run)(&net, &mut st, &mine, &p2);
        s2.borrow_mut().insert(i, r.as_ref().map_or("error".into(), |g: &Got<F>| format!("{:?} {:?}", g.shares.iter().map(|x| small(*x)).collect::<Vec<_>>(), g.opened.iter().map(|x| small(*x)).collect::<Vec<_>>())));
        r
    });
    // The parties' shares themselves must not depend on the schedule either.
    out.set(judge(&op, sp, &vals, &pubs, res, false).map(|_| format!("{:?}", seen.borrow())));
}

/// Two legs at once on two networks with forked states, as the provers do.
fn legs(sp: Space, out: Out) {
    hub().cap = sp.cap;
    script::<F>(3, 0);
    let x = proto::deal(&[F::from(3), F::from(2), F::from(5)][..=sp.t], sp.n);
    let y = proto::deal(&[F::from(6), F::from(4), F::from(1)][..=sp.t], sp.n);
    let res = run(sp.n, move |i, net| -> eyre::Result<(F, Vec<F>, F)> {
        let net1 = SimNet { net: 1, ..net };
        let mut st0 = state::<F>(&net, sp)?;
        let mut st1 = st0.fork(2)?;
        let (x, y) = (Sh::new(x[i]), Sh::new(y[i]));
        let (a, b) = mpc_net::join(|| ar::mul(x, y, &net, &mut st0), || ar::mul_vec(&[x, y], &[x, x], &net1, &mut st1));
        let (a, b) = (a?, b?);
        let (c, d) = mpc_net::join(|| ar::open(a, &net, &mut st0), || ar::open_vec(&b, &net1, &mut st1));
        Ok((c?, d?, a.a))
    });
    let mut all = vec![];
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok((c, d, a))) => {
                if c != F::from(18) || d != vec![F::from(9), F::from(18)] {
                    return out.set(Err(format!("party {i} opens {c} and {d:?}")));
                }
                all.push(small(a));
            }
            Ok(Err(e)) => return out.set(Err(format!("party {i}: {e:#}"))),
            Err(e) => return out.set(Err(format!("party {i} panicked: {e}"))),
        }
    }
    if undelivered() != 0 {
        return out.set(Err(format!("{} messages were never received", undelivered())));
    }
    out.set(Ok(format!("{all:?}")))
}

pub fn main() {
    let c = Check::new("S06");
    let sizes: Vec<(usize, usize, u32)> = q(vec![(3, 1, 3), (2, 0, 4), (4, 1, 2), (5, 2, 1)], vec![(3, 1, 4), (2, 0, 6), (4, 1, 3), (5, 2, 3), (5, 1, 3), (6, 2, 2), (7, 3, 2)]);
    for (n, t, dev) in sizes {
        for cap in q(vec![0, 2], vec![0, 2, 3]) {
            let ops: Vec<Op<F>> = proto::ops::<F>().into_iter().filter(|o| o.net).collect();
            for op in ops {
                let name = format!("{}-n{n}-t{t}-cap{cap}", op.name);
                if !c.selected(&name) || c.failed() {
                    continue;
                }
                c.at(&name);
                let sp = Space { n, t, pairs: 6, budget: 0, tapes: 1, polys: 0, cap };
                let mut e = explorer(dev, 60);
                e.bounds.max_executions = q(400_000, 4_000_000);
                let s = e.explore(move |out| world(op, sp, out));
                if s.violation.is_none() && !s.capped {
                    c.expect(s.outcomes.len() == 1, &name, || format!("the result depends on the schedule: {:?}", s.outcomes));
                }
                c.explored(&name, &s);
            }
            let name = format!("legs-n{n}-t{t}-cap{cap}");
            if !c.selected(&name) || c.failed() {
                continue;
            }
            c.at(&name);
            let sp = Space { n, t, pairs: 4, budget: 0, tapes: 1, polys: 0, cap };
            let mut e = explorer(if n == 5 { dev } else { dev - 1 }, 60);
            e.bounds.max_executions = q(400_000, 4_000_000);
            let s = e.explore(move |out| legs(sp, out));
            if s.violation.is_none() && !s.capped {
                c.expect(s.outcomes.len() == 1, &name, || format!("the result depends on the schedule: {:?}", s.outcomes));
            }
            c.explored(&name, &s);
        }
    }
    c.finish()
}
