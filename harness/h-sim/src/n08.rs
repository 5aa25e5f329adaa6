//! N08: the statistics equal the traffic.
use crate::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

type Counters = BTreeMap<usize, (usize, usize)>;

fn compare(s: &ConnectionStats, want: &Counters, me: usize, f: &Fails, ctx: &str) {
    let got: Vec<_> = s.iter().collect();
    let exp: Vec<_> = want.iter().map(|(k, v)| (*k, *v)).collect();
    f.check(got == exp, || format!("{ctx}: party {me} reports (sent, received) {got:?}, the traffic was {exp:?}"));
    for i in 0..6usize {
        let (g, e) = (s.get(i), want.get(&i).copied());
        f.check(g == e, || format!("{ctx}: party {me} reports {g:?} for peer {i}, the traffic was {e:?}"));
    }
    let text = s.to_string();
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    f.check(lines.len() == want.len(), || format!("{ctx}: printed statistics have {} lines for {} peers", lines.len(), want.len()));
    for (l, (id, (tx, rx))) in lines.iter().zip(want) {
        let nums: Vec<usize> = l.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        f.check(nums == [me, *id, *tx, *rx], || format!("{ctx}: printed {l:?} for peer {id} with {tx} sent and {rx} received"));
    }
}
fn diff(new: &ConnectionStats, old: &ConnectionStats, want: &Counters, before: &Counters, f: &Fails, ctx: &str) {
    let got: BTreeMap<usize, (usize, usize)> = new.get_diff_to(old).into_iter().collect();
    let exp: BTreeMap<usize, (usize, usize)> = want
        .iter()
        .map(|(k, v)| {
            let b = before.get(k).copied().unwrap_or((0, 0));
            (*k, (v.0 - b.0, v.1 - b.1))
        })
        .collect();
    f.check(got == exp, || format!("{ctx}: difference of two snapshots {got:?}, exchanged {exp:?}"));
}

/// Every sequence of operations up to `depth`, driven from one task.
fn sequences(t: T, n: usize, depth: usize, stall: bool, out: Out) {
    let o = Opts { timeout: Some(ms(100)), flush_timeout: Some(ms(100)), max_frame: Some(50), ..Default::default() };
    if stall {
        mc::slot::<simcrossbeam::CapOverride>("crossbeam.cap").0 = Some(1);
        mc::slot::<simtokio::sync::mpsc::CapOverride>("mpsc.cap").0 = Some(1);
    }
    let mut nets: Vec<Option<Net>> = connect(t, n, 1, &o).into_iter().map(|mut v| Some(v.remove(0))).collect();
    if stall && t != T::Local {
        simstd::net::set_pipe_cap(0);
    }
    let f = Fails::default();
    let mut model: Vec<Counters> = (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| (j, (0, 0))).collect()).collect();
    let mut ctx = String::new();
    let mut snaps: Vec<(ConnectionStats, Counters)> = vec![(nets[0].as_ref().unwrap().get_connection_stats(), model[0].clone())];
    for step in 0..depth {
        let op = mc::pick(11, "op");
        let (who, to, len) = match op {
            0 => (0, 1, 0),
            1 => (0, 1, 7),
            2 => (1, 0, 50),
            3 => (0, n - 1, 13),
            4 => (0, 1, 51),
            5 => (0, 99, 3),
            6 => (0, 0, 3),
            _ => (0, 0, 0),
        };
        match op {
            0..=6 => {
                let Some(net) = &nets[who] else { continue };
                let r = net.send(to, payload(0, who, to, step, len));
                ctx += &format!(" send({who}->{to}, {len}) {};", if r.is_ok() { "ok" } else { "failed" });
                if op > 4 {
                    f.check(r.is_err(), || format!("{ctx}: accepted"));
                } else if r.is_ok() {
                    model[who].get_mut(&to).unwrap().0 += len;
                }
            }
            7..=9 => {
                let (who, from) = [(0, 1), (1, 0), (n - 1, 0)][op as usize - 7];
                let Some(net) = &nets[who] else { continue };
                let r = net.recv(from);
                ctx += &format!(" recv({who}<-{from}) {};", if r.is_ok() { "ok" } else { "failed" });
                if let Ok(b) = r {
                    model[who].get_mut(&from).unwrap().1 += b.len();
                }
                let r = net.recv(99);
                f.check(r.is_err(), || "received from an unknown party".into());
            }
            _ => {
                // Party 1 goes.
                if nets[1].take().is_some() {
                    ctx += " party 1 gone;";
                    mc::quiesce();
                }
            }
        }
        for (i, net) in nets.iter().enumerate() {
            if let Some(net) = net {
                compare(&net.get_connection_stats(), &model[i], i, &f, &ctx);
            }
        }
        snaps.push((nets[0].as_ref().unwrap().get_connection_stats(), model[0].clone()));
        if f.get().is_some() {
            break;
        }
    }
    for i in 0..snaps.len() {
        for j in 0..=i {
            diff(&snaps[i].0, &snaps[j].0, &snaps[i].1, &snaps[j].1, &f, &ctx);
        }
    }
    keep(nets);
    out.set(f.verdict("exact"));
}

/// Tasks of one party use the network at the same time (different peers, both directions).
fn concurrent(t: T, out: Out) {
    let nets = connect(t, 3, 1, &Opts::default());
    let f = Fails::default();
    let nets: Vec<Arc<Net>> = nets.into_iter().map(|mut v| Arc::new(v.remove(0))).collect();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for me in 0..3usize {
        for p in (0..3usize).filter(|&p| p != me) {
            let (net, f) = (nets[me].clone(), f.clone());
            tasks.push(Box::new(move || {
                for s in 0..2usize {
                    let (tx, rx) = net.get_connection_stats().get(p).unwrap();
                    let want = (s * (10 + me), s * (10 + p));
                    f.check((tx, rx) == want, || format!("party {me}, peer {p}, round {s}: {tx}, {rx} reported, {want:?} exchanged"));
                    if let Err(e) = net.send(p, payload(0, me, p, s, 10 + me)) {
                        f.add(format!("{e:#}"));
                    }
                    if let Err(e) = net.recv(p) {
                        f.add(format!("{e:#}"));
                    }
                }
            }));
        }
    }
    all(tasks);
    for me in 0..3usize {
        let want: Counters = (0..3).filter(|&p| p != me).map(|p| (p, (2 * (10 + me), 2 * (10 + p)))).collect();
        compare(&nets[me].get_connection_stats(), &want, me, &f, "concurrent exchange");
    }
    keep(nets);
    out.set(f.verdict("exact"));
}

/// Snapshots as such: all pairs of small tables.
fn tables(c: &Check) {
    let f = Fails::default();
    let vals = [0usize, 1, 5];
    let mut all: Vec<Counters> = vec![];
    for mask in 0..8u32 {
        let ids: Vec<usize> = (0..3).filter(|i| mask >> i & 1 == 1).collect();
        for k in 0..vals.len().pow(2 * ids.len() as u32) {
            if ids.len() == 3 && k % 7 != 0 {
                continue;
            }
            let mut k = k;
            let mut m = Counters::new();
            for &i in &ids {
                let a = vals[k % 3];
                k /= 3;
                let b = vals[k % 3];
                k /= 3;
                m.insert(i * 2, (a, b));
            }
            all.push(m);
        }
    }
    let mut n = 0;
    for old in &all {
        for new in &all {
            if old.iter().any(|(k, v)| new.get(k).is_some_and(|w| w.0 < v.0 || w.1 < v.1)) {
                continue;
            }
            let (a, b) = (ConnectionStats::new(7, old.clone()), ConnectionStats::new(7, new.clone()));
            compare(&b, new, 7, &f, "table");
            diff(&b, &a, new, old, &f, "tables");
            n += 1;
        }
    }
    c.count(n, n);
    c.note("pairs_of_tables", n);
    if let Some(e) = f.get() {
        c.violation("tables", &e, json!({"what": e}));
    }
}

pub fn main() {
    let c = Check::new("N08");
    tables(&c);
    for t in ALL {
        let tls = t == T::Tls;
        let run = |name: &str, dev: u32, body: Box<dyn Fn(Out) + Send + Sync>| {
            let name = format!("{t:?}-{name}");
            if !c.selected(&name) {
                return;
            }
            c.at(&name);
            let body = Arc::new(body);
            let s = explorer_for(t, dev, 30).explore(move |out| body(out));
            c.explored(&name, &s);
        };
        run("sequences", 0, Box::new(move |o| sequences(t, 2, if tls { q(3, 4) } else { q(4, 5) }, false, o)));
        run("sequences-3", 0, Box::new(move |o| sequences(t, 3, if tls { q(2, 3) } else { q(3, 5) }, false, o)));
        run("stalled", 0, Box::new(move |o| sequences(t, 2, if tls { q(3, 4) } else { q(4, 5) }, true, o)));
        run("concurrent", if tls { 0 } else { q(2, 3) }, Box::new(move |o| concurrent(t, o)));
    }
    c.finish()
}
