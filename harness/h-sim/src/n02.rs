//! N02: message boundaries survive every fragmentation of the byte stream.
use crate::prelude::*;
use std::io::{Read, Write};

/// Reads everything that `from` has received so far.
pub fn take(from: &simstd::net::TcpStream) -> Vec<u8> {
    let n = from.incoming().1;
    let mut v = vec![0u8; n];
    let mut from = from;
    if n > 0 {
        from.read_exact(&mut v).unwrap();
    }
    v
}
/// What party 0's transport writes for `msgs`, and the link it uses.
pub fn capture(net: &Net, links: &[Link], msgs: &[Bytes]) -> (Vec<u8>, usize) {
    mc::set_quiet(true);
    for m in msgs {
        net.send(1, m.clone()).expect("send");
    }
    mc::quiesce();
    net.flush().expect("flush");
    mc::quiesce();
    let busy: Vec<usize> = (0..links.len()).filter(|&i| links[i].facing(0).incoming().1 > 0).collect();
    assert_eq!(busy.len(), 1, "one connection carries the data of one direction");
    let v = take(links[busy[0]].facing(0));
    mc::set_quiet(false);
    (v, busy[0])
}
fn put(to: &simstd::net::TcpStream, b: &[u8]) {
    let mut to = to;
    let _ = to.write_all(b);
}
fn msgs(lens: &[usize]) -> Vec<Bytes> {
    lens.iter().enumerate().map(|(s, &l)| payload(0, 0, 1, s, l)).collect()
}
/// Receives until an error; checks that what came is a prefix of `want` of length `n`.
fn drain(net: &Net, want: &[Bytes], f: &Fails, expect: usize, ctx: &str) {
    let mut got = 0;
    loop {
        match net.recv(0) {
            Ok(b) => {
                if got >= want.len() || b != want[got] {
                    f.add(format!("{ctx}: message {got} is {}, not one that was sent", show(&b)));
                    return;
                }
                got += 1;
            }
            Err(_) => break,
        }
    }
    f.check(got == expect, || format!("{ctx}: {got} messages received, {expect} were complete"));
    // Still an error, never anything invented.
    let again = net.recv(0);
    f.check(again.is_err(), || format!("{ctx}: after the error another message came: {again:?}"));
}

/// The stream of `lens` delivered in the pieces given by `cuts`.
fn pieces(t: T, lens: &[usize], cuts: impl Fn(usize) -> Vec<usize>, eintr: bool, out: Out) {
    let (a, b, links) = connect_mitm(t, &Opts::default());
    let m = msgs(lens);
    let (bytes, l) = capture(&a, &links, &m);
    let cuts = cuts(bytes.len());
    simstd::net::cfg().eintr = eintr;
    let f = Fails::default();
    let (f2, m2, c2) = (f.clone(), m.clone(), format!("{t:?} lengths {lens:?} cut at {cuts:?}"));
    let reader = mc::spawn_named("reader".into(), move || {
        for (i, w) in m2.iter().enumerate() {
            match b.recv(0) {
                Ok(x) => f2.check(x == *w, || format!("{c2}: message {i} is {}", show(&x))),
                Err(e) => {
                    f2.add(format!("{c2}: recv {i} failed: {e:#}"));
                    break;
                }
            }
        }
        keep(b);
    });
    let mut at = 0;
    for c in cuts.iter().copied().chain([bytes.len()]) {
        put(links[l].facing(1), &bytes[at..c]);
        at = c;
        mc::quiesce();
    }
    mc::join(reader);
    keep((a, links));
    out.set(f.verdict("all messages"));
}

/// The stream cut off after every number of bytes, by an orderly end or a reset.
fn truncated(t: T, lens: &[usize], cut_too: bool, out: Out) {
    let (a, b, links) = connect_mitm(t, &Opts::default());
    let m = msgs(lens);
    let (bytes, l) = capture(&a, &links, &m);
    let n = mc::pick(bytes.len() as u32 + 1, "truncate") as usize;
    let reset = mc::pick(2, "reset") == 1;
    let cut = if cut_too && n > 1 { 1 + mc::pick(n as u32 - 1, "cut") as usize } else { n };
    // How many messages are complete: measured from what the same transport writes for a prefix
    // of the messages (no knowledge of the format).
    let ctx = format!("{t:?} lengths {lens:?}: {n} of {} bytes, then {}", bytes.len(), if reset { "reset" } else { "end" });
    let s = links[l].facing(1);
    put(s, &bytes[..cut]);
    mc::quiesce();
    put(s, &bytes[cut..n]);
    if reset {
        mc::quiesce(); // what was delivered before the reset has been read
        s.reset();
    } else {
        s.shutdown(std::net::Shutdown::Write).unwrap();
    }
    let f = Fails::default();
    let per: Vec<usize> = lens.to_vec();
    let overhead = (bytes.len() - per.iter().sum::<usize>()) / per.len();
    let mut complete = 0;
    let mut used = 0;
    for p in &per {
        used += overhead + p;
        if used <= n {
            complete += 1;
        }
    }
    drain(&b, &m, &f, complete, &ctx);
    keep((a, b, links));
    out.set(f.verdict("complete messages, then errors"));
}

/// What the sender writes through a tight or interrupted pipe is what it writes freely.
fn writer(t: T, lens: &[usize], cap: usize, short: bool, eintr: bool, out: Out) {
    let (a, b, links) = connect_mitm(t, &Opts::default());
    let m = msgs(lens);
    let f = Fails::default();
    simstd::net::cfg().pipe_cap = cap;
    simstd::net::cfg().short_writes = short;
    simstd::net::cfg().eintr = eintr;
    let (f2, m2) = (f.clone(), m.clone());
    let flush = mc::pick(2, "flush") == 1;
    let sender = mc::spawn_named("sender".into(), move || {
        for x in m2 {
            if let Err(e) = a.send(1, x) {
                f2.add(format!("send failed: {e:#}"));
            }
        }
        if flush {
            if let Err(e) = a.flush() {
                f2.add(format!("flush failed: {e:#}"));
            }
        }
        keep(a);
    });
    // Forward by single reads; the receiving transport is the judge.
    let link = Rc::new(links);
    for l in 0..link.len() {
        let k = link.clone();
        mc::spawn_named("forward".into(), move || {
            let (from, to) = (k[l].facing(0), k[l].facing(1));
            let mut buf = [0u8; 16];
            let (mut from, mut to) = (from, to);
            loop {
                match from.read(&mut buf) {
                    Ok(0) => return,
                    Ok(n) => to.write_all(&buf[..n]).unwrap(),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => return,
                }
            }
        });
    }
    for (i, w) in m.iter().enumerate() {
        match b.recv(0) {
            Ok(x) => f.check(x == *w, || format!("pipe {cap}: message {i} is {}", show(&x))),
            Err(e) => {
                f.add(format!("pipe {cap}: recv {i} failed: {e:#}"));
                break;
            }
        }
    }
    mc::join(sender);
    keep((b, link));
    out.set(f.verdict("all messages"));
}

pub fn main() {
    let c = Check::new("N02");
    c.assume("a connection is a reliable ordered byte stream; reads and writes may be short or interrupted");
    for t in STREAMS {
        let tls = t == T::Tls;
        let run = |name: &str, e: Explorer, s: Box<dyn Fn(Out) + Send + Sync>| {
            c.at(format!("{t:?} {name}"));
            let s: std::sync::Arc<dyn Fn(Out) + Send + Sync> = s.into();
            let st = e.explore(move |out| s(out));
            c.explored(&format!("{t:?}-{name}"), &st);
        };
        if !tls {
            // Every way to cut a short stream.
            for lens in [&[1usize][..], &[0, 0][..], &[0, 1][..]] {
                run(&format!("all-cuts-{lens:?}"), explorer_for(t, 0, 40), Box::new(move |out| {
                    pieces(t, lens, |n| {
                        let mask = mc::pick(1 << (n - 1), "cuts");
                        (1..n).filter(|i| mask >> (i - 1) & 1 == 1).collect()
                    }, false, out)
                }));
            }
        }
        // Up to two (three) cuts anywhere in a longer stream.
        let k = if tls { q(1, 2) } else { q(3, 4) };
        run("cuts", explorer_for(t, 0, 40), Box::new(move |out| {
            pieces(t, &[5, 0, 9, 1], |n| {
                let mut v = vec![];
                for _ in 0..k {
                    let from = v.last().copied().unwrap_or(0);
                    if from + 1 >= n {
                        break;
                    }
                    let x = from + mc::pick((n - from) as u32, "cut") as usize;
                    if x == from {
                        break;
                    }
                    v.push(x);
                }
                v
            }, false, out)
        }));
        run("bytewise", explorer_for(t, 0, 20), Box::new(move |out| {
            let step = 1 + mc::pick(20, "step") as usize;
            pieces(t, &[5, 0, 9, 300, 1], |n| (1..n).filter(|i| i % step == 0).collect(), false, out)
        }));
        // Around the size of a single read.
        run("large-cuts", explorer_for(t, 0, 30), Box::new(move |out| {
            let chunk = 65536usize;
            pieces(t, &[3, 2 * chunk - 3, 7, chunk - 8], |n| {
                let c = [1usize, 8, 11, 12, 18, 19, 20, chunk - 1, chunk, chunk + 1, 2 * chunk + 15, 2 * chunk + 16, 2 * chunk + 20, n - 1];
                let x = c[mc::pick(c.len() as u32, "cut") as usize];
                let y = c[mc::pick(c.len() as u32, "cut") as usize];
                if x < y { vec![x, y] } else { vec![x] }
            }, false, out)
        }));
        // Interrupted reads and writes.
        run("interrupted-reads", explorer_for(t, q(2, 4), 20), Box::new(move |out| {
            let at = mc::pick(3, "cut");
            pieces(t, &[5, 2], |n| vec![[3, 8, n - 1][at as usize]], true, out)
        }));
        if !tls {
            run("truncated", explorer_for(t, 0, 30), Box::new(move |out| truncated(t, &[2, 0, 5], true, out)));
            run("truncated-schedules", explorer_for(t, q(2, 4), 30), Box::new(move |out| truncated(t, &[2, 5], false, out)));
        }
        run("tight-pipe", explorer_for(t, 0, 30), Box::new(move |out| {
            let cap = 1 + mc::pick(40, "cap") as usize;
            writer(t, &[5, 0, 9, 1], cap, false, false, out)
        }));
        run("short-writes", explorer_for(t, if tls { q(1, 2) } else { q(2, 4) }, 30), Box::new(move |out| writer(t, &[5, 0, 9], 1 << 20, true, false, out)));
        run("interrupted-writes", explorer_for(t, if tls { q(1, 2) } else { q(2, 4) }, 30), Box::new(move |out| writer(t, &[5, 9], 1 << 20, false, true, out)));
    }
    c.finish()
}
