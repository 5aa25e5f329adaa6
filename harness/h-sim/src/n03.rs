//! N03: the configured maximum message size is enforced exactly, on both sides.
use crate::n02::capture;
use crate::prelude::*;
use std::io::Write;

/// Messages around the limit: those within it arrive, the others are refused at the sender.
fn around(t: T, limit: usize, out: Out) {
    let o = Opts { max_frame: Some(limit), ..Default::default() };
    let nets = connect(t, 2, 1, &o);
    let f = Fails::default();
    let cand = [0, 1, limit.saturating_sub(1), limit, limit + 1, limit + 2, 2 * limit + 9];
    let n = 3;
    let lens: Vec<usize> = (0..n).map(|_| cand[mc::pick(cand.len() as u32, "len") as usize]).collect();
    let dir = mc::pick(2, "direction") as usize;
    let (s, r) = (&nets[dir][0], &nets[1 - dir][0]);
    let mut sent = vec![];
    for (k, &l) in lens.iter().enumerate() {
        let m = payload(0, dir, 1 - dir, k, l);
        match s.send(1 - dir, m.clone()) {
            Ok(()) => {
                f.check(l <= limit, || format!("limit {limit}: a message of {l} was accepted"));
                sent.push(m);
            }
            Err(e) => f.check(l > limit, || format!("limit {limit}: a message of {l} was refused: {e:#}")),
        }
    }
    // A marker shows that refused messages leave no trace.
    let marker = payload(0, dir, 1 - dir, 9, limit.min(4));
    s.send(1 - dir, marker.clone()).unwrap_or_else(|e| f.add(format!("limit {limit}: marker refused: {e:#}")));
    sent.push(marker);
    for (k, m) in sent.iter().enumerate() {
        match r.recv(dir) {
            Ok(b) => f.check(b == *m, || format!("limit {limit} lengths {lens:?}: message {k} is {}", show(&b))),
            Err(e) => {
                f.add(format!("limit {limit} lengths {lens:?}: message {k} of {} bytes not delivered: {e:#}", m.len()));
                break;
            }
        }
    }
    keep(nets);
    out.set(f.verdict("exact"));
}

/// The receiver's own limit is smaller than the sender's.
fn receiver_limit(t: T, limit: usize, out: Out) {
    let o = Opts { max_frames: vec![1 << 20, limit], ..Default::default() };
    let nets = connect(t, 2, 1, &o);
    let f = Fails::default();
    let cand = [0, limit.saturating_sub(1), limit, limit + 1, limit + 2, 2 * limit + 70_000];
    let lens: Vec<usize> = (0..3).map(|_| cand[mc::pick(cand.len() as u32, "len") as usize]).collect();
    for (k, &l) in lens.iter().enumerate() {
        if let Err(e) = nets[0][0].send(1, payload(0, 0, 1, k, l)) {
            f.add(format!("sender limit not exceeded but {l} refused: {e:#}"));
        }
    }
    let good = lens.iter().take_while(|&&l| l <= limit).count();
    for (k, &l) in lens.iter().enumerate() {
        match nets[1][0].recv(0) {
            Ok(b) => f.check(k < good && b == payload(0, 0, 1, k, l), || {
                format!("receiver limit {limit}, lengths {lens:?}: recv {k} gave {}", show(&b))
            }),
            Err(e) => f.check(k >= good, || format!("receiver limit {limit}: message {k} of {l} failed: {e:#}")),
        }
    }
    // The other direction keeps working: only this receive side has failed.
    if good == 3 {
        let back = payload(0, 1, 0, 0, limit);
        nets[1][0].send(0, back.clone()).unwrap_or_else(|e| f.add(format!("send back: {e:#}")));
        let b = nets[0][0].recv(1);
        f.check(matches!(&b, Ok(x) if *x == back), || format!("message back: {b:?}"));
    }
    keep(nets);
    out.set(f.verdict("exact"));
}

/// A peer announces `len` and sends `after` bytes of body.
fn announced(t: T, limit: usize, lens: Vec<u64>, out: Out) {
    let o = Opts { max_frame: Some(limit), ..Default::default() };
    let (a, b, links) = connect_mitm(t, &o);
    let f = Fails::default();
    let first = payload(0, 0, 1, 0, limit.min(5));
    let (bytes, l) = capture(&a, &links, &[first.clone()]);
    let mut want = (first.len() as u64).to_be_bytes().to_vec();
    want.extend_from_slice(&first);
    if bytes != want {
        // Another encoding of the length: this scenario does not know how to forge it.
        out.set(Ok("format not known".into()));
        keep((a, b, links));
        return;
    }
    let len = lens[mc::pick(lens.len() as u32, "announced") as usize];
    let before = mc::pick(2, "before") == 1;
    let after = [0usize, 1, 20][mc::pick(3, "after") as usize];
    let mut s = links[l].facing(1);
    if before {
        s.write_all(&bytes).unwrap();
        mc::quiesce();
        let x = b.recv(0);
        f.check(matches!(&x, Ok(x) if *x == first), || format!("first message: {x:?}"));
    }
    largest_allocation();
    s.write_all(&len.to_be_bytes()).unwrap();
    s.write_all(&vec![7u8; after]).unwrap();
    s.write_all(&bytes).unwrap(); // a well-formed message must not be found behind it
    mc::quiesce();
    for _ in 0..2 {
        // Must fail without waiting for more (nothing more ever comes).
        let x = b.recv(0);
        f.check(x.is_err(), || format!("limit {limit}, announced {len}: recv gave {x:?}"));
    }
    let top = largest_allocation();
    f.check(top < (1 << 20), || format!("limit {limit}, announced {len}: {top} bytes were allocated at once"));
    keep((a, b, links));
    out.set(f.verdict("refused"));
}

/// Without a configured limit the default applies.
fn default_limit(t: T, out: Out) {
    let nets = connect(t, 2, 1, &Opts::default());
    simstd::net::cfg().pipe_cap = 1 << 27;
    let f = Fails::default();
    let d = mpc_net::DEFAULT_MAX_FRAME_LENGTH;
    let r = nets[0][0].send(1, Bytes::from(vec![1u8; d + 1]));
    f.check(r.is_err(), || "a message above the default limit was accepted".into());
    let m = Bytes::from(vec![3u8; d]);
    nets[0][0].send(1, m.clone()).unwrap_or_else(|e| f.add(format!("default limit refused: {e:#}")));
    match nets[1][0].recv(0) {
        Ok(b) => f.check(b == m, || format!("message at the default limit is {}", show(&b))),
        Err(e) => f.add(format!("message at the default limit not delivered: {e:#}")),
    }
    keep(nets);
    out.set(f.verdict("delivered"));
}

pub fn main() {
    let c = Check::new("N03");
    c.assume("simulated sockets behave as TCP; in-process networks have no limit and are not covered");
    let chunk = 65536usize;
    for t in STREAMS {
        let tls = t == T::Tls;
        let mut limits = vec![0, 1, 2, 7, 8, 9, 100, 255, 256, chunk - 9, chunk - 8, chunk - 7, chunk];
        if tls && !thorough() {
            limits = vec![0, 1, 8, 100, chunk - 8];
        }
        for &l in &limits {
            c.at(format!("{t:?} limit {l}"));
            let s = explorer_for(t, 0, 30).explore(move |out| around(t, l, out));
            c.explored(&format!("{t:?}-around-{l}"), &s);
            let s = explorer_for(t, 0, 30).explore(move |out| receiver_limit(t, l, out));
            c.explored(&format!("{t:?}-receiver-{l}"), &s);
        }
        c.at(format!("{t:?} schedules"));
        let s = explorer_for(t, if tls { q(0, 1) } else { q(1, 2) }, 30).explore(move |out| around(t, 2, out));
        c.explored(&format!("{t:?}-around-2-schedules"), &s);
        if !tls {
            for &l in &[0usize, 1, 8, 100, 1000] {
                let l64 = l as u64;
                let mut lens: Vec<u64> = vec![l64 + 1, l64 + 2, l64 + 8, l64 + 256, l64 << 8 | 0xffff];
                for p in [16, 24, 31, 32, 33, 47, 48, 63] {
                    lens.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1, (1 << p) + l64]);
                }
                lens.extend((0..20).map(|k| u64::MAX - k));
                lens.retain(|&x| x > l64);
                c.at(format!("{t:?} announced, limit {l}"));
                let s = explorer_for(t, 0, 30).explore(move |out| announced(t, l, lens.clone(), out));
                c.explored(&format!("{t:?}-announced-{l}"), &s);
            }
        }
        c.at(format!("{t:?} default"));
        let mut e = explorer_for(t, 0, 60);
        e.bounds.threads = 1;
        let s = e.explore(move |out| default_limit(t, out));
        c.explored(&format!("{t:?}-default"), &s);
    }
    c.finish()
}
