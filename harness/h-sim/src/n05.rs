//! N05: sessions are paired for every order of requests, arrivals and retries.
use crate::prelude::*;
use std::sync::Arc;

#[derive(Clone)]
enum H {
    B(mpc_net::tcp_session_blocking::TcpNetworkHandler),
    A(mpc_net::tcp_session::TcpNetworkHandler, Option<Duration>),
}
impl H {
    fn open(&self, session: u128) -> Result<Net, String> {
        match self {
            H::B(h) => h.init_session(session).map(|n| Box::new(n) as Net).map_err(|e| format!("{e:#}")),
            H::A(h, limit) => {
                let (h, limit) = (h.clone(), *limit);
                block_on(async move {
                    let r = match limit {
                        Some(d) => simtokio::time::timeout(d, h.init_session(session)).await.map_err(|_| "timed out".to_string())?,
                        None => h.init_session(session).await,
                    };
                    r.map(|n| Box::new(n) as Net).map_err(|e| format!("{e:#}"))
                })
            }
        }
    }
}
/// Handlers of `n` parties (not part of the explored space).
fn handlers(t: T, n: usize, limit: Option<Duration>, idle: Duration) -> Vec<H> {
    mc::set_quiet(true);
    let o = Opts::default();
    let r = (0..n)
        .map(|id| match t {
            T::SessB => H::B(sess_b(id, n, &o, limit, idle).unwrap()),
            T::SessA => {
                let o = o.clone();
                H::A(block_on(async move { sess_a(id, n, &o, idle).await.unwrap() }), limit)
            }
            _ => unreachable!(),
        })
        .collect();
    mc::quiesce();
    mc::set_quiet(false);
    r
}
/// Greets everybody in the session and checks the greetings.
fn greet(net: &Net, n: usize, tag: usize, f: &Fails) {
    let me = net.id();
    for p in (0..n).filter(|&p| p != me) {
        if let Err(e) = net.send(p, payload(tag, me, p, 0, 7)) {
            f.add(format!("session {tag}: party {me}: send to {p}: {e:#}"));
        }
    }
    for p in (0..n).filter(|&p| p != me) {
        match net.recv(p) {
            Ok(b) => f.check(b == payload(tag, p, me, 0, 7), || format!("session {tag}: party {me}: from {p} came {}", show(&b))),
            Err(e) => f.add(format!("session {tag}: party {me}: recv from {p}: {e:#}")),
        }
    }
}
fn task(name: String, g: impl FnOnce() + 'static) -> mc::TaskId {
    mc::spawn_named(name, g)
}
/// Party `me` opens session `id` (tagged) after `at` and greets.
fn opener(h: &H, me: usize, n: usize, id: u128, tag: usize, at: u64, f: &Fails) -> mc::TaskId {
    let (h, f) = (h.clone(), f.clone());
    task(format!("p{me}s{tag}"), move || {
        if at > 0 {
            mc::sleep(ms(at));
        }
        match h.open(id) {
            Ok(net) => {
                f.check(net.id() == me, || format!("party {me} reports id {}", net.id()));
                greet(&net, n, tag, &f);
                keep(net);
            }
            Err(e) => f.add(format!("session {tag}: party {me} could not open: {e}")),
        }
    })
}
/// Ids that agree in their low, high or middle parts.
const IDS: [u128; 5] = [1, (1 << 64) | 1, (1 << 127) | 1, u128::MAX, 0];

/// All parties open all sessions, each in a thread of its own.
fn concurrent(t: T, n: usize, k: usize, out: Out) {
    let hs = handlers(t, n, None, Duration::from_secs(30));
    let f = Fails::default();
    let mut ids = vec![];
    for s in 0..k {
        for (me, h) in hs.iter().enumerate() {
            ids.push(opener(h, me, n, IDS[s], s, 0, &f));
        }
    }
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    keep(hs);
    out.set(f.verdict("paired"));
}
/// Every combination of opening times.
fn grid(t: T, n: usize, k: usize, times: &[u64], limit: Option<Duration>, out: Out) {
    let hs = handlers(t, n, limit, Duration::from_secs(30));
    let f = Fails::default();
    let mut ids = vec![];
    let mut plan = vec![];
    for s in 0..k {
        for (me, h) in hs.iter().enumerate() {
            let at = times[mc::pick(times.len() as u32, "at") as usize];
            plan.push(at);
            ids.push(opener(h, me, n, IDS[s], s, at, &f));
        }
    }
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    keep(hs);
    out.set(f.verdict("paired").map_err(|e| format!("opening times {plan:?}: {e}")));
}
/// Party 0 gives up waiting; later both open the session.
fn retry_after_timeout(t: T, out: Out) {
    let limit = ms(100);
    let hs = handlers(t, 2, Some(limit), Duration::from_secs(30));
    let f = Fails::default();
    let attempts = 1 + mc::pick(2, "attempts");
    for _ in 0..attempts {
        let start = mc::now();
        match hs[0].open(5) {
            Ok(_) => f.add("a session opened without its peer"),
            Err(_) => f.check(mc::now() - start == limit, || format!("gave up after {:?} instead of {limit:?}", mc::now() - start)),
        }
    }
    let at0 = [5, 20, 60][mc::pick(3, "at0") as usize];
    let at1 = [5, 20, 60][mc::pick(3, "at1") as usize];
    let a = opener(&hs[0], 0, 2, 5, 0, at0, &f);
    let b = opener(&hs[1], 1, 2, 5, 0, at1, &f);
    mc::join(a);
    mc::join(b);
    keep(hs);
    out.set(f.verdict("paired").map_err(|e| format!("{attempts} abandoned attempts, then opened after {at0} and {at1} ms: {e}")));
}
/// Party 1's first attempt is dropped before party 0 asks for the session.
fn retry_by_dialler(t: T, out: Out) {
    let hs = handlers(t, 2, None, Duration::from_secs(30));
    let f = Fails::default();
    let attempts = 1 + mc::pick(2, "attempts");
    for i in 0..attempts {
        match hs[1].open(5) {
            Ok(n) => {
                if mc::pick(2, "used") == 1 {
                    let _ = n.send(0, payload(9, 1, 0, i as usize, 3));
                }
                drop(n)
            }
            Err(e) => f.add(format!("party 1 could not open: {e}")),
        }
        mc::sleep(ms(10));
    }
    let at0 = [0, 30][mc::pick(2, "at0") as usize];
    let at1 = 20;
    let b = opener(&hs[1], 1, 2, 5, 0, at1, &f);
    let a = if at0 > at1 { Some(opener(&hs[0], 0, 2, 5, 0, at0, &f)) } else { None };
    if let Some(a) = a {
        mc::join(a);
    } else {
        mc::sleep(ms(50));
        let a = opener(&hs[0], 0, 2, 5, 0, 0, &f);
        mc::join(a);
    }
    mc::join(b);
    keep(hs);
    out.set(f.verdict("paired"));
}
/// The same id is used for one session after another.
fn reuse(t: T, n: usize, rounds: usize, out: Out) {
    let hs = handlers(t, n, None, Duration::from_secs(30));
    let f = Fails::default();
    let ids: Vec<_> = hs
        .iter()
        .enumerate()
        .map(|(me, h)| {
            let (h, f) = (h.clone(), f.clone());
            task(format!("p{me}"), move || {
                for r in 0..rounds {
                    match h.open(7) {
                        Ok(net) => greet(&net, n, r, &f),
                        Err(e) => f.add(format!("round {r}: party {me} could not open: {e}")),
                    }
                }
            })
        })
        .collect();
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    keep(hs);
    out.set(f.verdict("paired"));
}
/// Two requests for one session at one party: the newer one gets the connection, the older
/// one ends with an error.
fn two_requests(t: T, limit: Option<Duration>, out: Out) {
    let hs = handlers(t, 2, limit, Duration::from_secs(30));
    let f = Fails::default();
    let old = Rc::new(RefCell::new(None));
    let (h, o2) = (hs[0].clone(), old.clone());
    let a = task("old".into(), move || {
        let r = h.open(5);
        *o2.borrow_mut() = Some(r.map(keep));
    });
    mc::sleep(ms(10));
    let b = opener(&hs[0], 0, 2, 5, 0, 0, &f);
    mc::sleep(ms(10));
    let c = opener(&hs[1], 1, 2, 5, 0, 0, &f);
    mc::join(b);
    mc::join(c);
    mc::join(a);
    f.check(matches!(&*old.borrow(), Some(Err(_))), || "both requests for the session succeeded".into());
    keep(hs);
    out.set(f.verdict("paired"));
}
/// Three parties, one of them never opens the session.
fn incomplete(t: T, out: Out) {
    let limit = ms(100);
    let hs = handlers(t, 3, Some(limit), Duration::from_secs(30));
    let f = Fails::default();
    let missing = mc::pick(3, "missing") as usize;
    let mut ids = vec![];
    for me in (0..3).filter(|&p| p != missing) {
        let (h, f) = (hs[me].clone(), f.clone());
        let delay = [0u64, 40][mc::pick(2, "delay") as usize];
        ids.push(task(format!("p{me}"), move || {
            mc::sleep(ms(delay));
            let start = mc::now();
            let r = h.open(5);
            let took = mc::now() - start;
            // Waiting for a higher id is bounded per peer; dialling a lower one never waits.
            if missing > me {
                f.check(r.is_err(), || format!("party {me} opened a session without party {missing}"));
                let most = limit * (2 - me as u32);
                f.check(took >= limit && took <= most, || format!("party {me} gave up on party {missing} after {took:?}, not {limit:?}"));
            } else {
                f.check(r.is_ok(), || format!("party {me}: {:?}", r.as_ref().err()));
                if let Ok(net) = &r {
                    f.check(net.get_connection_stats().iter().count() == 2, || "wrong number of peers".into());
                }
            }
            keep(r);
        }));
    }
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    // Another session is not affected.
    let ids: Vec<_> = (0..3).map(|me| opener(&hs[me], me, 3, 6, 1, 0, &f)).collect();
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    keep(hs);
    out.set(f.verdict("reported"));
}
/// A request that waits longer than connections may stay unclaimed.
fn patient(t: T, limit: Option<Duration>, out: Out) {
    let idle = Duration::from_secs(1);
    let hs = handlers(t, 2, limit, idle);
    let f = Fails::default();
    let at = [300u64, 900, 1500, 2500, 4200, 9000][mc::pick(6, "at") as usize];
    let a = opener(&hs[0], 0, 2, 5, 0, [0, 1100][mc::pick(2, "offset") as usize], &f);
    let b = opener(&hs[1], 1, 2, 5, 0, at, &f);
    mc::join(a);
    mc::join(b);
    keep(hs);
    out.set(f.verdict("paired").map_err(|e| format!("peer came after {at} ms: {e}")));
}
/// A connection that is not claimed is kept for the idle time and then closed.
fn unclaimed(t: T, out: Out) {
    let idle = Duration::from_secs(1);
    let hs = handlers(t, 2, Some(Duration::from_secs(20)), idle);
    let f = Fails::default();
    mc::sleep(ms([0, 500, 1500, 1900][mc::pick(4, "phase") as usize]));
    let claim = mc::pick(2, "claim") == 1;
    let first = hs[1].open(5);
    let Ok(first) = first else {
        out.set(Err(format!("party 1 could not open: {:?}", first.err())));
        return;
    };
    if claim {
        mc::sleep(ms([100, 500, 950][mc::pick(3, "after") as usize]));
        let a = opener(&hs[0], 0, 2, 5, 0, 0, &f);
        greet(&first, 2, 0, &f);
        mc::join(a);
        keep(first);
    } else {
        // Within three idle times at the latest the connection is gone.
        let start = mc::now();
        let r = first.recv(0);
        f.check(r.is_err(), || "something was received from nobody".into());
        let took = mc::now() - start;
        f.check(took >= idle && took <= idle * 4, || format!("an unclaimed connection was closed after {took:?} (idle time {idle:?})"));
        keep(first);
        let a = opener(&hs[0], 0, 2, 5, 1, 0, &f);
        let b = opener(&hs[1], 1, 2, 5, 1, 30, &f);
        mc::join(a);
        mc::join(b);
    }
    keep(hs);
    out.set(f.verdict("ok"));
}
/// Connections that end within or right after their header do not disturb anybody.
fn garbage(t: T, out: Out) {
    use std::io::Write as _;
    let hs = handlers(t, 2, None, Duration::from_secs(30));
    let f = Fails::default();
    let len = mc::pick(26, "bytes") as usize;
    let fill = [0u8, 0xff, 5][mc::pick(3, "fill") as usize];
    {
        let mut s = simstd::net::TcpStream::connect(addr(0)).unwrap();
        let _ = s.write_all(&vec![fill; len]);
        if mc::pick(2, "end") == 1 {
            s.reset();
        }
    }
    let a = opener(&hs[0], 0, 2, 5, 0, [0, 10][mc::pick(2, "at0") as usize], &f);
    let b = opener(&hs[1], 1, 2, 5, 0, [0, 10][mc::pick(2, "at1") as usize], &f);
    mc::join(a);
    mc::join(b);
    keep(hs);
    out.set(f.verdict("paired"));
}
/// A connection that stays open and silent.
fn silent(t: T, out: Out) {
    let hs = handlers(t, 2, None, Duration::from_secs(30));
    let f = Fails::default();
    keep(simstd::net::TcpStream::connect(addr(0)).unwrap());
    mc::sleep(ms(10));
    let a = opener(&hs[0], 0, 2, 5, 0, 0, &f);
    let b = opener(&hs[1], 1, 2, 5, 0, 0, &f);
    mc::join(a);
    mc::join(b);
    keep(hs);
    out.set(f.verdict("paired"));
}

/// Every history of requests at party 0 and dials of party 1 for one session, an event every
/// 40 ms (`slots` of them). The newest request and the newest connection count; a request that
/// is replaced or times out fails; whatever is paired carries messages, also after a long time.
fn histories(t: T, slots: usize, limit: Option<Duration>, gap: u64, out: Out) {
    let hs = handlers(t, 2, limit, Duration::from_secs(3000));
    let f = Fails::default();
    let plan: Vec<u32> = (0..slots).map(|_| mc::pick(3, "event")).collect();
    let describe = || format!("events every {gap} ms, limit {limit:?}: {}", plan.iter().map(|e| ["-", "request", "dial"][*e as usize]).collect::<Vec<_>>().join(", "));
    // What must come of each request: the dial it is paired with and when, or its failure.
    let mut want: Vec<(u64, Result<usize, ()>)> = vec![];
    let (mut stored, mut waiter): (Option<usize>, Option<(usize, u64)>) = (None, None);
    let mut dials = 0;
    let lim = limit.map(|l| l.as_millis() as u64);
    let mut events: Vec<u32> = plan.clone();
    events.extend([2, 0, 1, 2, 0, 2]); // the last request is always answered, one way or the other
    for (k, e) in events.iter().enumerate() {
        let now = k as u64 * gap;
        if let (Some((r, since)), Some(l)) = (waiter, lim) {
            if since + l <= now {
                want[r] = (since + l, Err(()));
                waiter = None;
            }
        }
        match e {
            1 => {
                want.push((now, Err(())));
                let me = want.len() - 1;
                if let Some(d) = stored.take() {
                    want[me] = (now, Ok(d));
                } else {
                    if let Some((old, _)) = waiter {
                        want[old] = (now, Err(()));
                    }
                    waiter = Some((me, now));
                }
            }
            2 => {
                if let Some((r, _)) = waiter.take() {
                    want[r] = (now, Ok(dials));
                } else {
                    stored = Some(dials);
                }
                dials += 1;
            }
            _ => {}
        }
    }
    let got: Rc<RefCell<Vec<Option<(u64, Result<Net, String>)>>>> = Rc::new(RefCell::new((0..want.len()).map(|_| None).collect()));
    let dialled: Rc<RefCell<Vec<Net>>> = Rc::default();
    let begin = mc::now();
    let mut requests = 0;
    let mut ids = vec![];
    for (k, e) in events.iter().enumerate() {
        let at = begin + ms(k as u64 * gap);
        match e {
            1 => {
                let (h, got, i) = (hs[0].clone(), got.clone(), requests);
                requests += 1;
                ids.push(task(format!("request{i}"), move || {
                    mc::sleep(at - mc::now());
                    let r = h.open(5);
                    got.borrow_mut()[i] = Some(((mc::now() - begin).as_millis() as u64, r));
                }));
            }
            2 => {
                let (h, dialled, f) = (hs[1].clone(), dialled.clone(), f.clone());
                ids.push(task("dial".into(), move || {
                    mc::sleep(at - mc::now());
                    match h.open(5) {
                        Ok(n) => {
                            let i = dialled.borrow().len();
                            let _ = n.send(0, payload(i, 1, 0, 0, 5));
                            dialled.borrow_mut().push(n)
                        }
                        Err(e) => f.add(format!("party 1 could not dial: {e}")),
                    }
                }));
            }
            _ => {}
        }
    }
    ids.into_iter().for_each(|i| {
        mc::join(i);
    });
    for round in 0..2 {
        for (i, (at, w)) in want.iter().enumerate() {
            let g = got.borrow();
            let Some((when, r)) = &g[i] else {
                f.add(format!("{}: request {i} crashed", describe()));
                continue;
            };
            f.check(when == at, || format!("{}: request {i} ended after {when} ms with {:?}, expected {w:?} after {at} ms", describe(), r.as_ref().map(|_| "a network")));
            match (w, r) {
                (Err(()), Err(_)) => {}
                (Ok(d), Ok(net)) => {
                    let b = net.recv(1);
                    f.check(matches!(&b, Ok(x) if *x == payload(*d, 1, 0, round, 5)), || format!("{}: request {i}, message {round}: {b:?} instead of that of dial {d}", describe()));
                    let d = &dialled.borrow()[*d];
                    let back = net.send(1, payload(i, 0, 1, round, 5)).and_then(|_| d.recv(0));
                    f.check(matches!(&back, Ok(x) if *x == payload(i, 0, 1, round, 5)), || format!("{}: answer of request {i}: {back:?}", describe()));
                }
                (w, r) => f.add(format!("{}: request {i}: {:?}, expected {w:?} (dial)", describe(), r.as_ref().map(|_| "a network"))),
            }
        }
        if round == 0 {
            // Nothing that was set for the time of the set-up applies to the session itself.
            mc::sleep(Duration::from_secs(1000));
            for (i, d) in dialled.borrow().iter().enumerate() {
                let _ = d.send(0, payload(i, 1, 0, 1, 5));
            }
        }
        if f.get().is_some() {
            break;
        }
    }
    keep((hs, got, dialled));
    out.set(f.verdict("newest wins"));
}

pub fn main() {
    let c = Check::new("N05");
    c.assume("simulated sockets and time; a dialler whose network exists counts as having opened the session");
    for t in [T::SessB, T::SessA] {
        let run = |name: String, dev: u32, body: Box<dyn Fn(Out) + Send + Sync>| {
            let name = format!("{t:?}-{name}");
            if !c.selected(&name) {
                return;
            }
            c.at(&name);
            let body = Arc::new(body);
            let s = explorer_for(t, dev, 40).explore(move |out| body(out));
            c.explored(&name, &s);
        };
        run("1session".into(), q(3, 5), Box::new(move |o| concurrent(t, 2, 1, o)));
        run("2sessions".into(), q(2, 3), Box::new(move |o| concurrent(t, 2, 2, o)));
        run("3parties-2sessions".into(), q(1, 2), Box::new(move |o| concurrent(t, 3, 2, o)));
        run("5sessions".into(), q(1, 2), Box::new(move |o| concurrent(t, 2, 5, o)));
        run("4parties-3sessions".into(), q(0, 1), Box::new(move |o| concurrent(t, 4, 3, o)));
        run("opening-times-2parties-3sessions".into(), 0, Box::new(move |o| grid(t, 2, 3, &[0, 10, 20], None, o)));
        run("opening-times-3parties".into(), 0, Box::new(move |o| grid(t, 3, 2, &[0, 10, 20], Some(ms(1000)), o)));
        run("opening-times-schedules".into(), q(1, 2), Box::new(move |o| grid(t, 2, 2, &[0, 10], None, o)));
        run("retry-after-timeout".into(), q(1, 2), Box::new(move |o| retry_after_timeout(t, o)));
        run("retry-by-dialler".into(), q(2, 3), Box::new(move |o| retry_by_dialler(t, o)));
        run("reuse".into(), q(2, 3), Box::new(move |o| reuse(t, 2, 3, o)));
        run("reuse-3parties".into(), q(1, 2), Box::new(move |o| reuse(t, 3, 3, o)));
        run("two-requests".into(), q(2, 3), Box::new(move |o| two_requests(t, None, o)));
        run("incomplete".into(), q(1, 2), Box::new(move |o| incomplete(t, o)));
        run("patient".into(), q(1, 2), Box::new(move |o| patient(t, None, o)));
        run("patient-limited".into(), 0, Box::new(move |o| patient(t, Some(Duration::from_secs(12)), o)));
        run("unclaimed".into(), q(1, 2), Box::new(move |o| unclaimed(t, o)));
        run("histories".into(), 0, Box::new(move |o| histories(t, q(8, 10), None, 40, o)));
        run("histories-limited".into(), 0, Box::new(move |o| histories(t, q(8, 10), Some(ms(100)), 40, o)));
        run("histories-tight".into(), 0, Box::new(move |o| histories(t, q(7, 9), Some(ms(30)), 40, o)));
        run("histories-schedules".into(), q(1, 2), Box::new(move |o| histories(t, 3, Some(ms(100)), 40, o)));
        run("two-requests-limited".into(), q(2, 3), Box::new(move |o| two_requests(t, Some(ms(1000)), o)));
        run("garbage-connection".into(), q(0, 1), Box::new(move |o| garbage(t, o)));
        run("silent-connection".into(), 0, Box::new(move |o| silent(t, o)));
    }
    c.finish()
}
