//! N07: flush and drop deliver what was queued.
use crate::prelude::*;
use std::sync::Arc;

const COUNTS: [usize; 9] = [0, 1, 2, 31, 32, 33, 34, 40, 90];

/// Party 0 sends to its peers and goes at once; the peers read all of it, late and slowly.
fn dropped(t: T, n: usize, counts: &[usize], flush_timeout: Option<Duration>, pipes: &[usize], out: Out) {
    let m: Vec<usize> = (1..n).map(|_| counts[mc::pick(counts.len() as u32, "count") as usize]).collect();
    let flush = mc::pick(2, "flush") == 1;
    let late: Vec<u64> = (1..n).map(|_| [0u64, 10_000][mc::pick(2, "late") as usize]).collect();
    let pipe = pipes[mc::pick(pipes.len() as u32, "pipe") as usize];
    let mut nets = connect(t, n, 1, &Opts { flush_timeout, ..Default::default() });
    if t != T::Local {
        simstd::net::cfg().pipe_cap = pipe;
    }
    let f = Fails::default();
    let ctx = format!("{m:?} messages, flush {flush}, readers start after {late:?} ms");
    let a = nets[0].remove(0);
    let (f0, c0, m0) = (f.clone(), ctx.clone(), m.clone());
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![Box::new(move || {
        // Round robin, so that all queues are in use when it ends.
        for s in 0..m0.iter().copied().max().unwrap() {
            for p in 1..n {
                if s < m0[p - 1] {
                    if let Err(e) = a.send(p, payload(0, 0, p, s, 3 + s)) {
                        f0.add(format!("{c0}: send {s} to {p}: {e:#}"));
                    }
                }
            }
        }
        if flush {
            let r = a.flush();
            f0.check(r.is_ok() || flush_timeout.is_some(), || format!("{c0}: flush failed: {r:?}"));
        }
        drop(a);
    })];
    for p in 1..n {
        let (b, f, ctx, m, late) = (nets[p].remove(0), f.clone(), ctx.clone(), m[p - 1], late[p - 1]);
        tasks.push(Box::new(move || {
            if late > 0 {
                mc::sleep(ms(late));
            }
            for s in 0..m {
                match b.recv(0) {
                    Ok(x) => f.check(x == payload(0, 0, p, s, 3 + s), || format!("{ctx}: party {p}: message {s} is {}", show(&x))),
                    Err(e) => {
                        f.add(format!("{ctx}: party {p}: message {s} of {m} was lost: {e:#}"));
                        return;
                    }
                }
            }
            let r = b.recv(0);
            f.check(r.is_err(), || format!("{ctx}: party {p}: got {r:?} after the last message"));
            keep(b);
        }));
    }
    all(tasks);
    out.set(f.verdict("delivered"));
}

/// After a successful flush nothing is left to write: the network of the sending side stops
/// taking data at that moment, and still everything arrives.
fn handed_over(t: T, n: usize, counts: &[usize], ft: Option<Duration>, by_drop: bool, out: Out) {
    let rounds = mc::pick(2, "rounds") as usize + 1;
    let m: Vec<usize> = (1..n).map(|_| counts[mc::pick(counts.len() as u32, "count") as usize]).collect();
    let mut nets = connect(t, n, 1, &Opts { flush_timeout: ft, ..Default::default() });
    let f = Fails::default();
    let ctx = format!("{rounds} x {m:?} messages");
    let mut a = Some(nets[0].remove(0));
    for r in 0..rounds {
        let net = a.as_ref().unwrap();
        for s in 0..m.iter().copied().max().unwrap() {
            for p in 1..n {
                if s < m[p - 1] {
                    if let Err(e) = net.send(p, payload(r, 0, p, s, 3 + s)) {
                        f.add(format!("{ctx}: send {s} to {p}: {e:#}"));
                    }
                }
            }
        }
        if by_drop && r + 1 == rounds {
            drop(a.take());
        } else if let Err(e) = net.flush() {
            f.add(format!("{ctx}: flush: {e:#}"));
        }
    }
    if t != T::Local {
        simstd::net::set_pipe_cap(0);
    }
    for p in 1..n {
        let b = nets[p].remove(0);
        let (f, ctx, m) = (f.clone(), ctx.clone(), m[p - 1]);
        mc::spawn_named(format!("party{p}"), move || {
            for r in 0..rounds {
                for s in 0..m {
                    match b.recv(0) {
                        Ok(x) => {
                            f.check(x == payload(r, 0, p, s, 3 + s), || format!("{ctx}: party {p}: message {s} is {}", show(&x)));
                            *mc::slot::<usize>("got") += 1;
                        }
                        Err(e) => f.add(format!("{ctx}: party {p}: message {s}: {e:#}")),
                    }
                }
            }
            keep(b);
        });
    }
    mc::quiesce();
    let (got, want) = (*mc::slot::<usize>("got"), rounds * m.iter().sum::<usize>());
    f.check(got == want, || format!("{ctx}: only {got} of {want} messages had left when {} returned", if by_drop { "drop" } else { "flush" }));
    if let Some(a) = a {
        keep(a);
    }
    out.set(f.verdict("handed over"));
}

/// One task sends and flushes, another one too (to another peer).
fn concurrent(t: T, out: Out) {
    let mut nets = connect(t, 3, 1, &Opts::default());
    let f = Fails::default();
    let a: Arc<Net> = Arc::new(nets[0].remove(0));
    let done = Rc::new(RefCell::new(0usize));
    let count = [1usize, 2, 34][mc::pick(3, "count") as usize];
    for p in 1..3usize {
        let (b, f, done) = (nets[p].remove(0), f.clone(), done.clone());
        mc::spawn_named(format!("party{p}"), move || {
            for s in 0..count {
                match b.recv(0) {
                    Ok(x) => f.check(x == payload(0, 0, p, s, 3), || format!("party {p}: message {s} is {}", show(&x))),
                    Err(e) => f.add(format!("party {p}: message {s}: {e:#}")),
                }
                *done.borrow_mut() += 1;
            }
            keep(b);
        });
    }
    let tasks = (1..3usize)
        .map(|p| {
            let (a, f) = (a.clone(), f.clone());
            Box::new(move || {
                for s in 0..count {
                    if let Err(e) = a.send(p, payload(0, 0, p, s, 3)) {
                        f.add(format!("send {s} to {p}: {e:#}"));
                    }
                }
                if let Err(e) = a.flush() {
                    f.add(format!("flush after sending to {p}: {e:#}"));
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    if t != T::Local {
        simstd::net::set_pipe_cap(0);
    }
    mc::quiesce();
    f.check(*done.borrow() == 2 * count, || format!("only {} of {} messages had left after both flushes", done.borrow(), 2 * count));
    keep(a);
    out.set(f.verdict("handed over"));
}

/// Nobody reads, and nothing more fits into the connection: flush gives up in time, and so
/// does drop.
fn stalled(t: T, n: usize, out: Out) {
    let limit = ms(500);
    let count = [0usize, 1, 2, 31, 32, 33][mc::pick(6, "count") as usize];
    let who = mc::pick(n as u32 - 1, "stalled") as usize + 1;
    let resume = mc::pick(2, "resume") == 1;
    let mut nets = connect(t, n, 1, &Opts { flush_timeout: Some(limit), ..Default::default() });
    simstd::net::set_pipe_cap(0);
    let f = Fails::default();
    let ctx = format!("{count} messages to party {who}");
    let a = nets[0].remove(0);
    let start = mc::now();
    for s in 0..count {
        if let Err(e) = a.send(who, payload(0, 0, who, s, 3 + s)) {
            f.add(format!("{ctx}: send {s}: {e:#}"));
        }
    }
    f.check(mc::now() == start, || format!("{ctx}: queueing took {:?}", mc::now() - start));
    let bound = limit * 2 * (n as u32 - 1);
    let r = a.flush();
    let took = mc::now() - start;
    f.check(r.is_err() || count == 0, || format!("{ctx}: flush succeeded although nothing left"));
    f.check(took <= bound, || format!("{ctx}: flush took {took:?} with a time-out of {limit:?}"));
    if !resume {
        let start = mc::now();
        drop(a);
        let took = mc::now() - start;
        f.check(took <= bound, || format!("{ctx}: drop took {took:?} with a time-out of {limit:?}"));
    } else {
        // The peer reads again: nothing is lost.
        simstd::net::set_pipe_cap(1 << 20);
        let b = nets[who].remove(0);
        for s in 0..count {
            match b.recv(0) {
                Ok(x) => f.check(x == payload(0, 0, who, s, 3 + s), || format!("{ctx}: message {s} is {}", show(&x))),
                Err(e) => f.add(format!("{ctx}: message {s} lost after the failed flush: {e:#}")),
            }
        }
        let r = a.flush();
        f.check(r.is_ok(), || format!("{ctx}: flush after the peer resumed: {r:?}"));
        keep((a, b));
    }
    keep(nets);
    out.set(f.verdict("bounded"));
}

/// A peer goes while messages for it are queued; flush and drop return, the others get
/// their messages.
fn gone(t: T, ft: Option<Duration>, out: Out) {
    let count = [0usize, 1, 3, 33][mc::pick(4, "count") as usize];
    let flush = mc::pick(2, "flush") == 1;
    let when = mc::pick(3, "when");
    let mut nets = connect(t, 3, 1, &Opts { flush_timeout: ft, ..Default::default() });
    if t != T::Local {
        simstd::net::cfg().pipe_cap = [1 << 20, 16][mc::pick(2, "pipe") as usize];
    }
    let f = Fails::default();
    let ctx = format!("{count} messages, peer gone ({when})");
    let (a, b, c) = (nets[0].remove(0), nets[1].remove(0), nets[2].remove(0));
    let mut b = Some(b);
    if when == 0 {
        drop(b.take());
        mc::quiesce();
    }
    let (f0, f2, c0, c2) = (f.clone(), f.clone(), ctx.clone(), ctx);
    all(vec![
        Box::new(move || {
            for s in 0..count {
                if let Err(e) = a.send(2, payload(0, 0, 2, s, 20)) {
                    f0.add(format!("{c0}: send {s} to the remaining peer: {e:#}"));
                }
                let _ = a.send(1, payload(0, 0, 1, s, 20));
            }
            if flush {
                let _ = a.flush();
            }
            drop(a);
        }),
        Box::new(move || {
            if let (2, Some(b)) = (when, b.as_ref()) {
                let _ = b.recv(0);
            }
            drop(b);
        }),
        Box::new(move || {
            for s in 0..count {
                match c.recv(0) {
                    Ok(x) => f2.check(x == payload(0, 0, 2, s, 20), || format!("{c2}: message {s} is {}", show(&x))),
                    Err(e) => {
                        f2.add(format!("{c2}: message {s} for the remaining peer was lost: {e:#}"));
                        break;
                    }
                }
            }
            keep(c);
        }),
    ]);
    out.set(f.verdict("returned"));
}

pub fn main() {
    let c = Check::new("N07");
    c.assume("handed to the transport means accepted by the simulated socket");
    for t in ALL {
        let tls = t == T::Tls;
        let run = |name: &str, dev: u32, body: Box<dyn Fn(Out) + Send + Sync>| {
            let name = format!("{t:?}-{name}");
            if !c.selected(&name) {
                return;
            }
            c.at(&name);
            let body = Arc::new(body);
            let s = explorer_for(t, dev, 30).explore(move |out| body(out));
            c.explored(&name, &s);
        };
        let limit = Some(ms(500));
        run("drop", if tls { 0 } else { q(1, 2) }, Box::new(move |o| dropped(t, 2, &[0, 1, 2, 3], None, &[1 << 20, 7], o)));
        run("drop-counts", 0, Box::new(move |o| dropped(t, 2, &COUNTS, None, &[1 << 20, 64], o)));
        run("drop-peers", if tls { 0 } else { q(0, 1) }, Box::new(move |o| dropped(t, 3, &[0, 1, 2, 40], None, &[1 << 20, 64], o)));
        run("drop-4", 0, Box::new(move |o| dropped(t, 4, &[0, 3, 34], None, &[64], o)));
        run("drop-limited", if tls { 0 } else { q(0, 1) }, Box::new(move |o| dropped(t, 3, &[0, 1, 33], limit, &[1 << 20, 64], o)));
        for (k, ft) in [("", None), ("-limited", limit)] {
            run(&format!("flushed{k}"), if tls { 0 } else { q(2, 3) }, Box::new(move |o| handed_over(t, 2, &[0, 1, 2], ft, false, o)));
            run(&format!("flushed-counts{k}"), 0, Box::new(move |o| handed_over(t, 2, if t == T::Local { &COUNTS[..3] } else { &COUNTS }, ft, false, o)));
            run(&format!("flushed-peers{k}"), if tls { 0 } else { q(1, 2) }, Box::new(move |o| handed_over(t, 3, &[0, 1, 3], ft, false, o)));
            run(&format!("flushed-4{k}"), 0, Box::new(move |o| handed_over(t, 4, if t == T::Local { &[0, 1, 16] } else { &[0, 1, 33] }, ft, false, o)));
            if t != T::Local {
                run(&format!("drop-waits{k}"), if tls { 0 } else { q(2, 3) }, Box::new(move |o| handed_over(t, 2, &[0, 1, 2], ft, true, o)));
                run(&format!("drop-waits-peers{k}"), if tls { 0 } else { q(1, 2) }, Box::new(move |o| handed_over(t, 3, &[0, 1, 33], ft, true, o)));
            }
            run(&format!("gone{k}"), if tls { 0 } else { q(1, 2) }, Box::new(move |o| gone(t, ft, o)));
        }
        run("concurrent", if tls { 0 } else { q(1, 2) }, Box::new(move |o| concurrent(t, o)));
        if t != T::Local {
            run("stalled", if tls { 0 } else { q(1, 2) }, Box::new(move |o| stalled(t, 2, o)));
            run("stalled-peers", 0, Box::new(move |o| stalled(t, 3, o)));
        }
    }
    c.finish()
}
