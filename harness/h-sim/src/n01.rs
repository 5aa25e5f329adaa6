//! N01: delivery in order, exactly once, intact, to the right party.
use crate::prelude::*;
use std::sync::Arc;

/// Every party sends `lens` to every other on every network and receives what it is owed.
/// `style` varies how the party orders its sends and receives.
fn exchange(t: T, n: usize, k: usize, lens: Vec<usize>, style: u32, out: Out) {
    let nets = connect(t, n, k, &Opts::default());
    let f = Fails::default();
    let tasks = nets
        .into_iter()
        .enumerate()
        .map(|(me, nets)| {
            let (f, lens) = (f.clone(), lens.clone());
            Box::new(move || {
                let send = |net: usize, to: usize, s: usize| {
                    if let Err(e) = nets[net].send(to, payload(net, me, to, s, lens[s])) {
                        f.add(format!("party {me} net {net}: send {s} to {to} failed: {e:#}"));
                    }
                };
                let recv = |net: usize, from: usize, s: usize| match nets[net].recv(from) {
                    Ok(b) => f.check(b == payload(net, from, me, s, lens[s]), || {
                        format!("party {me} net {net}: message {s} from {from} is {} (expected length {})", show(&b), lens[s])
                    }),
                    Err(e) => f.add(format!("party {me} net {net}: recv {s} from {from} failed: {e:#}")),
                };
                let mut peers: Vec<usize> = (0..n).filter(|&p| p != me).collect();
                if style & 1 == 1 {
                    peers.reverse();
                }
                let mut order: Vec<usize> = (0..k).collect();
                if style & 2 == 2 && me % 2 == 1 {
                    order.reverse();
                }
                if style & 4 == 0 {
                    // All sends, then all receives, networks crossed.
                    for s in 0..lens.len() {
                        for &net in &order {
                            peers.iter().for_each(|&p| send(net, p, s));
                        }
                    }
                    for &net in order.iter().rev() {
                        for &p in &peers {
                            (0..lens.len()).for_each(|s| recv(net, p, s));
                        }
                    }
                } else {
                    // Ping-pong.
                    for s in 0..lens.len() {
                        for &net in &order {
                            peers.iter().for_each(|&p| send(net, p, s));
                        }
                        for &net in &order {
                            peers.iter().for_each(|&p| recv(net, p, s));
                        }
                    }
                }
                // Nothing else arrives and the stated identity is kept.
                for x in &nets {
                    f.check(x.id() == me, || format!("party {me} reports id {}", x.id()));
                    if let Err(e) = x.flush() {
                        f.add(format!("party {me}: flush failed: {e:#}"));
                    }
                }
                // Dropping sends nothing more; surplus data would be seen by recv below.
                keep(nets);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    out.set(f.verdict("delivered"));
}

/// After the exchange a further receive finds nothing (no duplicated message).
fn no_duplicates(t: T, out: Out) {
    let o = Opts { timeout: Some(ms(500)), ..Default::default() };
    let nets = connect(t, 2, 1, &o);
    let f = Fails::default();
    let count = 1 + mc::pick(3, "count") as usize;
    for s in 0..count {
        nets[0][0].send(1, payload(0, 0, 1, s, 5)).unwrap();
    }
    for s in 0..count {
        let b = nets[1][0].recv(0);
        f.check(matches!(&b, Ok(b) if *b == payload(0, 0, 1, s, 5)), || format!("message {s}: {b:?}"));
    }
    let extra = nets[1][0].recv(0);
    f.check(extra.is_err(), || format!("an extra message arrived: {extra:?}"));
    let back = nets[0][0].recv(1);
    f.check(back.is_err(), || format!("the sender received something: {back:?}"));
    out.set(f.verdict("once"));
    keep(nets);
}

/// More messages than the queues hold, receiver late; small queues make the limits near.
fn saturate(t: T, cap: Option<usize>, count: usize, pipe: usize, both: bool, out: Out) {
    if cap.is_some() {
        mc::slot::<simcrossbeam::CapOverride>("crossbeam.cap").0 = cap;
        mc::slot::<simtokio::sync::mpsc::CapOverride>("mpsc.cap").0 = cap;
    }
    let nets = connect(t, 2, 1, &Opts::default());
    simstd::net::cfg().pipe_cap = pipe;
    let f = Fails::default();
    let lens = [3usize, 0, 9, 30, 1];
    let tasks = nets
        .into_iter()
        .enumerate()
        .map(|(me, mut nets)| {
            let f = f.clone();
            let net = Arc::new(nets.remove(0));
            Box::new(move || {
                let sender = {
                    let (net, f) = (net.clone(), f.clone());
                    mc::spawn_named(format!("sender{me}"), move || {
                        if me == 0 || both {
                            for s in 0..count {
                                if let Err(e) = net.send(1 - me, payload(0, me, 1 - me, s, lens[s % 5])) {
                                    f.add(format!("send {s} failed: {e:#}"));
                                }
                            }
                        }
                    })
                };
                if me == 1 || both {
                    for s in 0..count {
                        match net.recv(1 - me) {
                            Ok(b) => f.check(b == payload(0, 1 - me, me, s, lens[s % 5]), || {
                                format!("party {me}: message {s} is {}", show(&b))
                            }),
                            Err(e) => f.add(format!("recv {s} failed: {e:#}")),
                        }
                    }
                }
                mc::join(sender);
                keep(net);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    out.set(f.verdict("delivered"));
}

/// One network used by several threads of each party at once: one sender and one receiver
/// thread per peer.
fn threads(t: T, out: Out) {
    let n = 3;
    let nets = connect(t, n, 1, &Opts::default());
    let f = Fails::default();
    let mut ids = vec![];
    for (me, mut v) in nets.into_iter().enumerate() {
        let net = Arc::new(v.remove(0));
        for p in (0..n).filter(|&p| p != me) {
            let (a, g) = (net.clone(), f.clone());
            ids.push(mc::spawn_named(format!("send{me}to{p}"), move || {
                for s in 0..2 {
                    if let Err(e) = a.send(p, payload(0, me, p, s, 4 + s)) {
                        g.add(format!("send failed: {e:#}"));
                    }
                }
                keep(a);
            }));
            let (a, g) = (net.clone(), f.clone());
            ids.push(mc::spawn_named(format!("recv{me}from{p}"), move || {
                for s in 0..2 {
                    let b = a.recv(p);
                    g.check(matches!(&b, Ok(b) if *b == payload(0, p, me, s, 4 + s)), || {
                        format!("party {me}: message {s} from {p}: {b:?}")
                    });
                }
                keep(a);
            }));
        }
        keep(net);
    }
    for i in ids {
        mc::join(i);
    }
    out.set(f.verdict("delivered"));
}

pub fn main() {
    let c = Check::new("N01");
    c.assume("simulated sockets behave as TCP: reliable ordered byte streams with bounded buffers");
    let tier = q(0, 1);
    for t in ALL {
        let cheap = t != T::Tls;
        // All sequences of three lengths around the framing boundaries, all styles.
        c.at(format!("{t:?} lengths"));
        let lens = [0usize, 1, 8, 9, 300];
        let e = explorer_for(t, 0, 30);
        let s = e.explore(move |out| {
            let m = if cheap { 3 } else { 2 };
            let v: Vec<usize> = (0..m).map(|_| lens[mc::pick(5, "len") as usize]).collect();
            let style = if cheap { mc::pick(8, "style") } else { [0, 4][mc::pick(2, "style") as usize] };
            exchange(t, 2, if cheap { 2 } else { 1 }, v, style, out)
        });
        c.explored(&format!("{t:?}-lengths"), &s);
        // Interleavings.
        let dev = if t == T::Local { q(4, 6) } else if cheap { q(3, 4) } else { q(1, 2) };
        c.at(format!("{t:?} two parties"));
        let s = explorer_for(t, dev, 12).explore(move |out| {
            let style = [0, 4][mc::pick(2, "style") as usize];
            exchange(t, 2, 1, vec![2, 0, 5], style, out)
        });
        c.explored(&format!("{t:?}-2parties"), &s);
        c.at(format!("{t:?} three parties"));
        let s = explorer_for(t, if cheap { q(1, 2) } else { q(0, 1) }, 12).explore(move |out| {
            let style = if cheap { mc::pick(8, "style") } else { 0 };
            exchange(t, 3, if cheap { 2 } else { 1 }, vec![4, 1], style, out)
        });
        c.explored(&format!("{t:?}-3parties-2networks"), &s);
        if tier == 1 || cheap {
            c.at(format!("{t:?} four parties"));
            let s = explorer_for(t, if cheap { q(1, 2) } else { 0 }, 10).explore(move |out| exchange(t, 4, 1, vec![4, 6], 0, out));
            c.explored(&format!("{t:?}-4parties"), &s);
        }
        c.at(format!("{t:?} three networks"));
        let s = explorer_for(t, 0, 10).explore(move |out| exchange(t, 3, 3, vec![4, 1], mc::pick(4, "style"), out));
        c.explored(&format!("{t:?}-3networks"), &s);
        // Large messages around the size of a read, through a small pipe.
        c.at(format!("{t:?} large"));
        let s = explorer_for(t, 0, 20).explore(move |out| {
            let base = 64 * 1024;
            let ls = [base - 9, base - 8, base - 7, base - 1, base, base + 1, 2 * base - 8, 3 * base + 5];
            let l = ls[mc::pick(ls.len() as u32, "len") as usize];
            if t != T::Local {
                simstd::net::cfg().pipe_cap = [1 << 20, 65536, 5000][mc::pick(3, "pipe") as usize];
            }
            exchange(t, 2, 1, vec![3, l, 5, l - 1], 4, out)
        });
        c.explored(&format!("{t:?}-large"), &s);
        c.at(format!("{t:?} duplicates"));
        let s = explorer_for(t, if cheap { 2 } else { 0 }, 10).explore(move |out| no_duplicates(t, out));
        c.explored(&format!("{t:?}-exactly-once"), &s);
        // Full queues.
        c.at(format!("{t:?} saturation"));
        let s = explorer_for(t, 0, 10).explore(move |out| {
            let both = mc::pick(2, "both") == 1;
            saturate(t, None, 80, 64, both, out)
        });
        c.explored(&format!("{t:?}-saturated"), &s);
        if cheap {
            let s = explorer_for(t, q(2, 3), 10).explore(move |out| {
                let both = mc::pick(2, "both") == 1;
                saturate(t, Some(1), 5, 10, both, out)
            });
            c.explored(&format!("{t:?}-small-queues"), &s);
            c.at(format!("{t:?} threads"));
            let s = explorer_for(t, q(1, 2), 12).explore(move |out| threads(t, out));
            c.explored(&format!("{t:?}-threads"), &s);
        }
    }
    c.finish()
}
