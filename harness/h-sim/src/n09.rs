//! N09: the parallel runners.
use crate::prelude::*;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Shared {
    started: Vec<usize>,
    finished: Vec<usize>,
}
type S = Arc<Mutex<Shared>>;
/// What closure `i` does: start, wait for those before it, finish with its own value.
fn work(s: S, i: usize, after: Vec<usize>) -> u64 {
    s.lock().unwrap().started.push(i);
    let s2 = s.clone();
    mc::block("waiting for another closure", None, move || {
        let g = s2.lock().unwrap();
        after.iter().all(|a| g.finished.contains(a))
    });
    mc::point();
    s.lock().unwrap().finished.push(i);
    1000 + i as u64
}
/// Runs `k` closures, closure `i` finishing only after those in `after[i]`.
fn run(k: usize, after: &[Vec<usize>]) -> (Vec<u64>, Shared) {
    let s: S = Arc::default();
    macro_rules! c {
        ($($i:literal),*) => { ($({ let (s, a) = (s.clone(), after.get($i).cloned().unwrap_or_default()); move || W::<$i>(work(s, $i, a)) }),*) };
    }
    let r = match k {
        2 => { let (a, b) = c!(0, 1); let r = mpc_net::join(a, b); vec![r.0.0, r.1.0] }
        3 => { let (a, b, c) = c!(0, 1, 2); let r = mpc_net::join3(a, b, c); vec![r.0.0, r.1.0, r.2.0] }
        4 => { let (a, b, c, d) = c!(0, 1, 2, 3); let r = mpc_net::join4(a, b, c, d); vec![r.0.0, r.1.0, r.2.0, r.3.0] }
        5 => { let (a, b, c, d, e) = c!(0, 1, 2, 3, 4); let r = mpc_net::join5(a, b, c, d, e); vec![r.0.0, r.1.0, r.2.0, r.3.0, r.4.0] }
        6 => { let (a, b, c, d, e, f) = c!(0, 1, 2, 3, 4, 5); let r = mpc_net::join6(a, b, c, d, e, f); vec![r.0.0, r.1.0, r.2.0, r.3.0, r.4.0, r.5.0] }
        7 => { let (a, b, c, d, e, f, g) = c!(0, 1, 2, 3, 4, 5, 6); let r = mpc_net::join7(a, b, c, d, e, f, g); vec![r.0.0, r.1.0, r.2.0, r.3.0, r.4.0, r.5.0, r.6.0] }
        8 => { let (a, b, c, d, e, f, g, h) = c!(0, 1, 2, 3, 4, 5, 6, 7); let r = mpc_net::join8(a, b, c, d, e, f, g, h); vec![r.0.0, r.1.0, r.2.0, r.3.0, r.4.0, r.5.0, r.6.0, r.7.0] }
        _ => unreachable!(),
    };
    let s = std::mem::take(&mut *s.lock().unwrap());
    (r, s)
}
/// Result of closure `I` only: the types of the results differ.
struct W<const I: usize>(u64);

fn verdict(k: usize, r: &[u64], s: &Shared, f: &Fails, ctx: &str) {
    let want: Vec<u64> = (0..k as u64).map(|i| 1000 + i).collect();
    f.check(r == want, || format!("{ctx}: results {r:?}, expected {want:?}"));
    let mut st = s.started.clone();
    st.sort();
    f.check(st == (0..k).collect::<Vec<_>>(), || format!("{ctx}: closures run: {:?}", s.started));
}

/// The closures can only finish in the order of one permutation (all of them are tried).
fn orders(k: usize, out: Out) {
    let mut left: Vec<usize> = (0..k).collect();
    let mut order = vec![];
    while !left.is_empty() {
        order.push(left.remove(mc::pick(left.len() as u32, "next") as usize));
    }
    let after: Vec<Vec<usize>> = (0..k)
        .map(|i| {
            let p = order.iter().position(|&x| x == i).unwrap();
            if p == 0 { vec![] } else { vec![order[p - 1]] }
        })
        .collect();
    let f = Fails::default();
    let (r, s) = run(k, &after);
    verdict(k, &r, &s, &f, &format!("finishing order {order:?}"));
    f.check(s.finished == order, || format!("finished in order {:?}, should be {order:?}", s.finished));
    out.set(f.verdict("ordered"));
}
/// Independent closures under every schedule within the bound.
fn free(k: usize, out: Out) {
    let f = Fails::default();
    let (r, s) = run(k, &[]);
    verdict(k, &r, &s, &f, "independent closures");
    out.set(f.verdict("ordered"));
}
/// All closures exchange messages with the closures of the other parties, each over its own
/// network, in both nesting directions.
fn protocol(t: T, k: usize, out: Out) {
    let nets = connect(t, 2, k, &Opts::default());
    let f = Fails::default();
    let tasks = nets
        .into_iter()
        .enumerate()
        .map(|(me, v)| {
            let f = f.clone();
            Box::new(move || {
                let v: Arc<Vec<Net>> = Arc::new(v);
                let job = |i: usize| {
                    let v = v.clone();
                    move || -> Result<(), String> {
                        for s in 0..2 {
                            // One side of every second sub-protocol waits first.
                            if (me + i) % 2 == 0 {
                                v[i].send(1 - me, payload(i, me, 1 - me, s, 9)).map_err(|e| e.to_string())?;
                            }
                            let b = v[i].recv(1 - me).map_err(|e| e.to_string())?;
                            if b != payload(i, 1 - me, me, s, 9) {
                                return Err(format!("sub-protocol {i}: {}", show(&b)));
                            }
                            if (me + i) % 2 == 1 {
                                v[i].send(1 - me, payload(i, me, 1 - me, s, 9)).map_err(|e| e.to_string())?;
                            }
                        }
                        Ok(())
                    }
                };
                let rs = match k {
                    2 => {
                        let r = mpc_net::join(job(0), job(1));
                        vec![r.0, r.1]
                    }
                    _ => {
                        // Nested.
                        let (r, r2) = mpc_net::join(|| mpc_net::join(job(0), job(1)), job(2));
                        vec![r.0, r.1, r2]
                    }
                };
                for r in rs {
                    if let Err(e) = r {
                        f.add(format!("party {me}: {e}"));
                    }
                }
                keep(v);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    out.set(f.verdict("exchanged"));
}

pub fn main() {
    let c = Check::new("N09");
    let go = |name: String, dev: u32, body: Box<dyn Fn(Out) + Send + Sync>| {
        if !c.selected(&name) {
            return;
        }
        c.at(&name);
        let body = Arc::new(body);
        let s = explorer(dev, 60).explore(move |out| body(out));
        c.explored(&name, &s);
    };
    for k in 2..=8 {
        go(format!("orders-{k}"), if k < 5 { 1 } else { 0 }, Box::new(move |o| orders(k, o)));
        go(format!("free-{k}"), q(if k < 5 { 3 } else { 2 }, if k < 5 { 5 } else { 3 }), Box::new(move |o| free(k, o)));
    }
    for t in CHEAP {
        go(format!("{t:?}-protocols"), q(2, 3), Box::new(move |o| protocol(t, 2, o)));
        go(format!("{t:?}-nested"), q(2, 3), Box::new(move |o| protocol(t, 3, o)));
    }
    c.finish()
}
