//! N04: connection set-up gives every party the right peer, whatever the order.
use crate::prelude::*;

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}

/// Everybody greets everybody on every network; then addresses that do not exist are tried.
fn greet(nets: Vec<Vec<Net>>, n: usize, f: &Fails) {
    for (me, v) in nets.iter().enumerate() {
        for (k, x) in v.iter().enumerate() {
            f.check(x.id() == me, || format!("party {me} network {k} reports id {}", x.id()));
            for p in (0..n).filter(|&p| p != me) {
                if let Err(e) = x.send(p, payload(k, me, p, 0, 6)) {
                    f.add(format!("party {me} network {k}: send to {p}: {e:#}"));
                }
            }
        }
    }
    for (me, v) in nets.iter().enumerate() {
        for (k, x) in v.iter().enumerate() {
            for p in (0..n).filter(|&p| p != me) {
                match x.recv(p) {
                    Ok(b) => f.check(b == payload(k, p, me, 0, 6), || {
                        format!("party {me} network {k}: from {p} came {}", show(&b))
                    }),
                    Err(e) => f.add(format!("party {me} network {k}: recv from {p}: {e:#}")),
                }
            }
            for p in [me, n, n + 1, 1000, usize::MAX] {
                f.check(x.send(p, Bytes::from_static(b"x")).is_err(), || format!("party {me} of {n}: send to {p} succeeded"));
                f.check(x.recv(p).is_err(), || format!("party {me} of {n}: recv from {p} succeeded"));
            }
            let peers: Vec<usize> = x.get_connection_stats().iter().map(|x| x.0).collect();
            let want: Vec<usize> = (0..n).filter(|&p| p != me).collect();
            f.check(peers == want, || format!("party {me} of {n} lists the peers {peers:?}"));
        }
    }
    keep(nets);
}

struct Plan {
    n: usize,
    k: usize,
    /// One order per party, or the same for all.
    free_orders: bool,
    orders: bool,
    delays: &'static [u64],
    connect_timeout: Option<Duration>,
    idle: bool,
}
fn set_up(t: T, p: &Plan, out: Out) {
    let perms = permutations(p.n);
    let orders: Vec<Vec<usize>> = if !p.orders {
        vec![]
    } else if p.free_orders {
        (0..p.n).map(|_| perms[mc::pick(perms.len() as u32, "order") as usize].clone()).collect()
    } else {
        vec![perms[mc::pick(perms.len() as u32, "order") as usize].clone(); p.n]
    };
    let delays: Vec<u64> = (0..p.n).map(|_| p.delays[mc::pick(p.delays.len() as u32, "delay") as usize]).collect();
    let o = Opts { orders: orders.clone(), connect_timeout: p.connect_timeout, ..Default::default() };
    let slots: Rc<RefCell<Vec<Option<eyre::Result<Vec<Net>>>>>> = Rc::new(RefCell::new((0..p.n).map(|_| None).collect()));
    let (n, k) = (p.n, p.k);
    let f = Fails::default();
    let tasks = (0..n)
        .map(|id| {
            let (slots, o, d) = (slots.clone(), o.clone(), delays[id]);
            Box::new(move || {
                if d > 0 {
                    mc::sleep(ms(d));
                }
                let r = party(t, id, n, k, &o);
                slots.borrow_mut()[id] = Some(r);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    let mut nets = vec![];
    for (i, x) in slots.borrow_mut().iter_mut().enumerate() {
        match x.take() {
            Some(Ok(v)) => nets.push(v),
            Some(Err(e)) => f.add(format!("orders {orders:?}, delays {delays:?}: set-up of party {i} failed: {e:#}")),
            None => f.add(format!("orders {orders:?}, delays {delays:?}: set-up of party {i} crashed")),
        }
    }
    if nets.len() == n {
        mc::set_quiet(true);
        if p.idle {
            mc::sleep(Duration::from_secs(600));
        }
        greet(nets, n, &f);
    }
    out.set(f.verdict("connected"));
}

pub fn main() {
    let c = Check::new("N04");
    c.assume("simulated sockets and name resolution of literal addresses; set-up of sessions starts when all handlers listen");
    for n in 1..=4 {
        let s = explorer_for(T::Local, 0, 10).explore(move |out| {
            let f = Fails::default();
            greet(connect(T::Local, n, 2, &Opts::default()), n, &f);
            out.set(f.verdict("connected"));
        });
        c.explored(&format!("Local-{n}"), &s);
    }
    for t in STREAMS {
        let sess = matches!(t, T::SessA | T::SessB);
        let tls = t == T::Tls;
        let mut run = |name: &str, dev: u32, p: Plan| {
            let name = format!("{t:?}-{name}");
            if !c.selected(&name) {
                return;
            }
            c.at(&name);
            let p = std::sync::Arc::new(p);
            let s = explorer_for(t, dev, 40).explore(move |out| set_up(t, &p, out));
            c.explored(&name, &s);
        };
        let base = || Plan { n: 3, k: 1, free_orders: false, orders: !sess, delays: &[0], connect_timeout: None, idle: false };
        run("1party", 0, Plan { n: 1, ..base() });
        run("2parties-schedules", if tls { q(1, 2) } else { q(3, 4) }, Plan { n: 2, ..base() });
        run("2parties-2networks-schedules", if tls { q(0, 1) } else { q(2, 3) }, Plan { n: 2, k: 2, ..base() });
        run("3parties-schedules", if tls { q(0, 1) } else { q(1, 2) }, Plan { k: if tls { 1 } else { 2 }, ..base() });
        run("3parties-orders-delays", 0, Plan { free_orders: !tls && !sess, delays: if tls { &[0, 250] } else { &[0, 50, 250] }, ..base() });
        run("3parties-timeout-idle", 0, Plan { k: 2, delays: &[0, 120, 700], connect_timeout: Some(ms(1000)), idle: true, ..base() });
        run("3parties-3networks", 0, Plan { k: 3, delays: if tls { &[0] } else { &[0, 50, 130] }, ..base() });
        run("4parties", 0, Plan { n: 4, k: 2, delays: if tls && !thorough() { &[0] } else { &[0, 150] }, ..base() });
        if thorough() {
            run("4parties-schedules", if tls { 0 } else { 1 }, Plan { n: 4, k: 2, ..base() });
            run("5parties", 0, Plan { n: 5, orders: false, delays: &[0, 150], ..base() });
        }
    }
    c.finish()
}
