//! N06: a failed or silent peer is reported, and nothing already delivered is lost.
use crate::prelude::*;
use std::sync::Arc;

/// Expects messages `0..m` of `from` on `net`, then errors for ever.
fn all_then_errors(net: &Net, me: usize, from: usize, m: usize, f: &Fails, ctx: &str) {
    for s in 0..m {
        match net.recv(from) {
            Ok(b) => f.check(b == payload(0, from, me, s, 3 + s), || format!("{ctx}: party {me}: message {s} from {from} is {}", show(&b))),
            Err(e) => {
                f.add(format!("{ctx}: party {me}: message {s} of {m} from {from} was lost: {e:#}"));
                return;
            }
        }
    }
    for i in 0..3 {
        if let Ok(b) = net.recv(from) {
            f.add(format!("{ctx}: party {me}: receive {i} after the end of party {from} returned {}", show(&b)));
        }
    }
}
fn send_n(net: &Net, me: usize, to: usize, m: usize, f: &Fails, ctx: &str) {
    for s in 0..m {
        if let Err(e) = net.send(to, payload(0, me, to, s, 3 + s)) {
            f.add(format!("{ctx}: party {me}: send {s} to {to}: {e:#}"));
        }
    }
}

/// Party 0 sends `m`, receives `r` of the `k` messages of party 1, and goes.
fn goes(t: T, counts: &[usize], timeout: Option<Duration>, out: Out) {
    let m = counts[mc::pick(counts.len() as u32, "sent") as usize];
    let k = [0usize, 1, 3][mc::pick(3, "back") as usize];
    let r = mc::pick(k as u32 + 1, "received") as usize;
    let nets = connect(t, 2, 1, &Opts { timeout, ..Default::default() });
    let f = Fails::default();
    let ctx = format!("{m} sent, {r} of {k} received before the end");
    let mut it = nets.into_iter();
    let (a, b) = (it.next().unwrap().remove(0), it.next().unwrap().remove(0));
    let (f0, f1, c0, c1) = (f.clone(), f.clone(), ctx.clone(), ctx);
    all(vec![
        Box::new(move || {
            send_n(&a, 0, 1, m, &f0, &c0);
            for s in 0..r {
                match a.recv(1) {
                    Ok(b) => f0.check(b == payload(0, 1, 0, s, 3 + s), || format!("{c0}: party 0: message {s} is {}", show(&b))),
                    Err(e) => f0.add(format!("{c0}: party 0: message {s}: {e:#}")),
                }
            }
            drop(a);
        }),
        Box::new(move || {
            // Sends to a peer that may be gone: they return.
            for s in 0..k {
                let _ = b.send(0, payload(0, 1, 0, s, 3 + s));
            }
            all_then_errors(&b, 1, 0, m, &f1, &c1);
            for s in 0..40 {
                let _ = b.send(0, payload(0, 1, 0, s, 3));
            }
            let _ = b.flush();
            drop(b);
        }),
    ]);
    out.set(f.verdict("reported"));
}

/// The connection of two parties is reset or closed by the network after `m` messages arrived.
fn cut(t: T, out: Out) {
    let (a, b, links) = connect_mitm(t, &Opts::default());
    let f = Fails::default();
    let m = mc::pick(4, "messages") as usize;
    let msgs: Vec<Bytes> = (0..m).map(|s| payload(0, 0, 1, s, 3 + s)).collect();
    let (bytes, l) = if m > 0 { crate::n02::capture(&a, &links, &msgs) } else { (vec![], 0) };
    if m > 0 {
        use std::io::Write as _;
        let mut w = links[l].facing(1);
        w.write_all(&bytes).unwrap();
        mc::quiesce();
    }
    let how = mc::pick(3, "how");
    let blocked = mc::pick(2, "blocked") == 1;
    let end = move |links: Vec<Link>| match how {
        0 => links.iter().for_each(|x| {
            x.dialler.reset();
            x.acceptor.reset();
        }),
        1 => drop(links),
        _ => {
            links.iter().for_each(|x| {
                let _ = x.dialler.shutdown(std::net::Shutdown::Write);
                let _ = x.acceptor.shutdown(std::net::Shutdown::Write);
            });
            keep(links)
        }
    };
    let ctx = format!("{m} messages, then the network fails ({})", ["reset", "closed", "half closed"][how as usize]);
    let (f0, f1, c0, c1) = (f.clone(), f.clone(), ctx.clone(), ctx);
    let mut links = Some(links);
    if !blocked {
        end(links.take().unwrap());
    }
    let t0 = mc::spawn_named("party0".into(), move || {
        all_then_errors(&a, 0, 1, 0, &f0, &c0);
        for _ in 0..40 {
            if how < 2 {
                let _ = a.send(1, Bytes::from_static(b"xyz"));
            }
        }
        drop(a);
    });
    let t1 = mc::spawn_named("party1".into(), move || {
        all_then_errors(&b, 1, 0, m, &f1, &c1);
        drop(b);
    });
    if let Some(links) = links {
        mc::quiesce();
        end(links);
    }
    mc::join(t0);
    mc::join(t1);
    out.set(f.verdict("reported"));
}

/// One of `n` parties goes after `j` rounds; the others go on.
fn others(t: T, n: usize, out: Out) {
    let rounds = 3;
    let gone = mc::pick(n as u32, "gone") as usize;
    let after = mc::pick(rounds as u32 + 1, "after") as usize;
    let nets = connect(t, n, 1, &Opts::default());
    let f = Fails::default();
    let tasks = nets
        .into_iter()
        .enumerate()
        .map(|(me, mut v)| {
            let (f, net) = (f.clone(), v.remove(0));
            Box::new(move || {
                let mine = if me == gone { after } else { rounds };
                for s in 0..mine {
                    for p in (0..n).filter(|&p| p != me) {
                        let r = net.send(p, payload(0, me, p, s, 3 + s));
                        if p != gone {
                            f.check(r.is_ok(), || format!("party {gone} gone after {after}: party {me}: send {s} to {p}: {r:?}"));
                        }
                    }
                    for p in (0..n).filter(|&p| p != me) {
                        let r = net.recv(p);
                        if p != gone || s < after {
                            f.check(matches!(&r, Ok(b) if *b == payload(0, p, me, s, 3 + s)), || {
                                format!("party {gone} gone after {after}: party {me}: message {s} from {p}: {r:?}")
                            });
                        } else {
                            f.check(r.is_err(), || format!("party {gone} gone after {after}: party {me}: got {r:?} from it in round {s}"));
                        }
                    }
                }
                if me == gone {
                    drop(net)
                } else {
                    // Both remaining ends stay until all is received.
                    keep(net)
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    out.set(f.verdict("undisturbed"));
}

/// Receive time-outs: exact, repeatable, and without losing what comes late.
fn silence(t: T, out: Out) {
    let limit = ms(500);
    let nets = connect(t, 3, 1, &Opts { timeout: Some(limit), ..Default::default() });
    let f = Fails::default();
    // Party 1 speaks at these times; party 0 listens all the time.
    let gaps: Vec<u64> = (0..3).map(|_| [100u64, 400, 600, 1300][mc::pick(4, "gap") as usize]).collect();
    let mut it = nets.into_iter().map(|mut v| v.remove(0));
    let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    let (fa, ga) = (f.clone(), gaps.clone());
    let mut at = 0;
    let times: Vec<u64> = gaps
        .iter()
        .map(|g| {
            at += g;
            at
        })
        .collect();
    all(vec![
        Box::new(move || {
            let begin = mc::now();
            let mut got = 0;
            while got < times.len() {
                let start = mc::now();
                match a.recv(1) {
                    Ok(x) => {
                        fa.check(x == payload(0, 1, 0, got, 4), || format!("gaps {ga:?}: message {got} is {}", show(&x)));
                        fa.check(mc::now() - begin >= ms(times[got]), || "message from the future".into());
                        got += 1;
                    }
                    Err(_) => {
                        let took = mc::now() - start;
                        fa.check(took == limit, || format!("gaps {ga:?}: receive gave up after {took:?}, configured {limit:?}"));
                        // Nothing was there to be had.
                        fa.check(ms(times[got]) >= mc::now() - begin, || format!("gaps {ga:?}: message {got} was there but receive timed out"));
                        if mc::now() - begin > Duration::from_secs(10) {
                            fa.add(format!("gaps {ga:?}: message {got} never arrived"));
                            break;
                        }
                        // The other peer is not affected.
                        if got < 2 {
                            let _ = a.send(2, payload(0, 0, 2, 0, 4));
                            let r = a.recv(2);
                            fa.check(matches!(&r, Ok(x) if x[..] == *b"hello"), || format!("exchange with party 2: {r:?}"));
                        }
                    }
                }
            }
            keep(a);
        }),
        Box::new(move || {
            for (s, g) in gaps.iter().enumerate() {
                mc::sleep(ms(*g));
                b.send(0, payload(0, 1, 0, s, 4)).unwrap();
            }
            keep(b);
        }),
        Box::new(move || {
            for _ in 0..12 {
                c.send(0, Bytes::from_static(b"hello")).unwrap();
            }
            keep(c);
        }),
    ]);
    out.set(f.verdict("timed out"));
}

/// The peer is there but reads nothing; a time-out is configured. No call hangs.
fn not_reading(t: T, out: Out) {
    let limit = ms(500);
    let o = Opts { timeout: Some(limit), flush_timeout: Some(limit), ..Default::default() };
    let f = Fails::default();
    let big = mc::pick(2, "size") == 1;
    let count = [1usize, 33, 34, 35, 70, 140][mc::pick(6, "count") as usize];
    let (a, rest): (Net, Box<dyn std::any::Any>) = if t == T::Local {
        let mut v = connect(t, 2, 1, &o);
        let b = v[1].remove(0);
        (v[0].remove(0), Box::new(b))
    } else {
        let (a, b, links) = connect_mitm(t, &o);
        simstd::net::cfg().pipe_cap = 100;
        (a, Box::new((b, links)))
    };
    let mut failed = 0;
    for s in 0..count {
        let start = mc::now();
        if a.send(1, payload(0, 0, 1, s, if big { 150 } else { 5 })).is_err() {
            failed += 1;
        }
        let took = mc::now() - start;
        f.check(took <= limit * if t == T::Tls { 5 } else { 2 }, || format!("{count} messages: send {s} took {took:?} with a time-out of {limit:?}"));
    }
    if count >= 70 && (big || t == T::Local) {
        f.check(failed > 0, || format!("{count} messages were accepted although nobody reads"));
    }
    let start = mc::now();
    f.check(a.recv(1).is_err(), || "received something from a silent peer".into());
    let took = mc::now() - start;
    f.check(took <= limit, || format!("receive took {took:?} with a time-out of {limit:?}"));
    if t == T::Local {
        drop(a);
    } else {
        keep(a);
    }
    keep(rest);
    out.set(f.verdict("bounded"));
}

/// A peer fails during set-up: the others report it.
fn set_up(t: T, out: Out) {
    use std::io::{Read as _, Write as _};
    let limit = ms(1000);
    let o = Opts { connect_timeout: Some(limit), ..Default::default() };
    let f = Fails::default();
    let case = mc::pick(4, "case");
    let start = mc::now();
    match case {
        0 => {
            // A peer that never comes.
            let me = mc::pick(2, "me") as usize;
            let r = party(t, me, 2, 1, &o);
            f.check(r.is_err(), || format!("party {me}: set-up without a peer succeeded"));
            let took = mc::now() - start;
            f.check(took <= limit * 3, || format!("party {me}: set-up without a peer took {took:?}"));
        }
        1 | 2 => {
            // A dialler that ends, or announces nonsense, within its header.
            let len = mc::pick(17, "bytes") as usize;
            let header: [u64; 2] = if case == 1 { [0, 0] } else { [[0, 0], [1, 0], [0, 1], [0, 7], [9, 9], [u64::MAX, u64::MAX], [0, u64::MAX]][mc::pick(7, "header") as usize] };
            let bytes: Vec<u8> = header.iter().flat_map(|x| x.to_be_bytes()).take(if case == 1 { len } else { 16 }).collect();
            if (case == 1 && len == 16 || case == 2 && header == [0, 0]) || (case == 2 && len > 0) {
                out.set(Ok("skipped".into()));
                return;
            }
            let b2 = bytes.clone();
            let d = mc::spawn_named("dialler".into(), move || {
                let mut s = loop {
                    match simstd::net::TcpStream::connect(addr(1)) {
                        Ok(s) => break s,
                        Err(_) => mc::sleep(ms(10)),
                    }
                };
                let _ = s.write_all(&b2);
                if case == 2 {
                    keep(s);
                }
            });
            let r = party(t, 1, 2, 1, &o);
            mc::join(d);
            f.check(r.is_err(), || format!("set-up with a peer that sent {bytes:?} succeeded"));
        }
        _ => {
            // An acceptor that closes after some bytes of the header, or at once.
            let len = mc::pick(17, "bytes") as usize;
            let l = simstd::net::TcpListener::bind(addr(1)).unwrap();
            let a = mc::spawn_named("acceptor".into(), move || {
                let Ok((mut s, _)) = l.accept() else { return };
                let mut b = vec![0; len];
                let _ = s.read_exact(&mut b);
            });
            let r = party(t, 0, 2, 1, &o);
            mc::join(a);
            if let Ok(mut v) = r {
                let n = v.remove(0);
                all_then_errors(&n, 0, 1, 0, &f, "peer closed during set-up");
                drop(n);
            }
        }
    }
    out.set(f.verdict("reported"));
}

/// A dialler that connects and then says nothing.
fn silent_set_up(t: T, out: Out) {
    use std::io::Write as _;
    let limit = ms(1000);
    let o = Opts { connect_timeout: Some(limit), ..Default::default() };
    let f = Fails::default();
    let len = [0usize, 1, 8, 15][mc::pick(4, "bytes") as usize];
    let start = mc::now();
    let d = mc::spawn_named("dialler".into(), move || {
        let mut s = loop {
            match simstd::net::TcpStream::connect(addr(1)) {
                Ok(s) => break s,
                Err(_) => mc::sleep(ms(10)),
            }
        };
        let _ = s.write_all(&vec![0u8; len]);
        keep(s);
    });
    let r = party(t, 1, 2, 1, &o);
    mc::join(d);
    f.check(r.is_err(), || "set-up with a silent peer succeeded".into());
    let took = mc::now() - start;
    f.check(took <= limit * 3, || format!("set-up with a silent peer took {took:?} with a time-out of {limit:?}"));
    out.set(f.verdict("reported"));
}

pub fn main() {
    let c = Check::new("N06");
    c.assume("a closed simulated socket ends its stream after the data already written; a reset one fails at once");
    for t in ALL {
        let tls = t == T::Tls;
        let run = |name: &str, dev: u32, body: Box<dyn Fn(Out) + Send + Sync>| {
            let name = format!("{t:?}-{name}");
            if !c.selected(&name) {
                return;
            }
            c.at(&name);
            let body = Arc::new(body);
            let s = explorer_for(t, dev, 40).explore(move |out| body(out));
            c.explored(&name, &s);
        };
        run("goes", if tls { q(0, 1) } else { q(2, 3) }, Box::new(move |o| goes(t, &[0, 1, 3], None, o)));
        run("goes-timeout", if tls { 0 } else { q(1, 2) }, Box::new(move |o| goes(t, &[0, 2], Some(ms(500)), o)));
        run("goes-many", 0, Box::new(move |o| goes(t, &[31, 32, 33, 34, 65, 66, 100], None, o)));
        if t != T::Local {
            run("cut", if tls { 0 } else { q(1, 2) }, Box::new(move |o| cut(t, o)));
        }
        run("others", if tls { q(0, 1) } else { q(1, 2) }, Box::new(move |o| others(t, 3, o)));
        if !tls {
            run("others-4", q(0, 1), Box::new(move |o| others(t, 4, o)));
        }
        run("silence", if tls { 0 } else { q(1, 2) }, Box::new(move |o| silence(t, o)));
        run("not-reading", 0, Box::new(move |o| not_reading(t, o)));
        if matches!(t, T::Tcp | T::Tls) {
            run("set-up", if tls { 0 } else { q(1, 2) }, Box::new(move |o| set_up(t, o)));
            run("set-up-silent", 0, Box::new(move |o| silent_set_up(t, o)));
        }
    }
    c.finish()
}
