//! Building the project's networks inside a world.
use crate::prelude::*;
use mpc_net::config::{Address, NetworkConfig, NetworkParty, TlsConfig};
use mpc_net::{local, tcp, tcp_session, tcp_session_blocking, tls};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use std::net::SocketAddr;
use std::sync::OnceLock;

pub type Net = Box<dyn Network>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum T {
    Local,
    Tcp,
    Tls,
    /// Blocking TCP sessions.
    SessB,
    /// Asynchronous TCP sessions.
    SessA,
}
pub const ALL: [T; 5] = [T::Local, T::Tcp, T::SessB, T::SessA, T::Tls];
/// Transports over byte streams.
pub const STREAMS: [T; 4] = [T::Tcp, T::SessB, T::SessA, T::Tls];
/// Cheap to set up (no cryptography).
pub const CHEAP: [T; 4] = [T::Local, T::Tcp, T::SessB, T::SessA];

struct Cert {
    key: Vec<u8>,
    cert: Vec<u8>,
}
static CERTS: OnceLock<Vec<Cert>> = OnceLock::new();
pub fn init() {
    let _ = rustls::crypto::aws_lc_rs::default_provider().install_default();
    CERTS.get_or_init(|| {
        (0..5)
            .map(|_| {
                let c = rcgen::generate_simple_self_signed(vec!["127.0.0.1".to_string()]).unwrap();
                Cert { key: c.key_pair.serialize_der(), cert: c.cert.der().to_vec() }
            })
            .collect()
    });
}
pub fn tls_config(id: usize, n: usize) -> TlsConfig {
    let c = CERTS.get().unwrap();
    TlsConfig::new(
        PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(c[id].key.clone())),
        c[..n].iter().map(|x| CertificateDer::from(x.cert.clone())).collect(),
    )
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub timeout: Option<Duration>,
    pub connect_timeout: Option<Duration>,
    pub flush_timeout: Option<Duration>,
    pub max_frame: Option<usize>,
    pub order: Option<Vec<usize>>,
    /// Added to the port under which parties know each other (a proxy sits there).
    pub via: u16,
    /// Different limits per party.
    pub max_frames: Vec<usize>,
    /// Different orders of the party list per party.
    pub orders: Vec<Vec<usize>>,
}
pub const MAX: usize = 64 * 1024 * 1024;

pub fn addr(id: usize) -> SocketAddr {
    format!("127.0.0.1:{}", 10000 + id).parse().unwrap()
}
pub fn config(id: usize, n: usize, o: &Opts, with_tls: bool) -> NetworkConfig {
    let order = o.order.clone().unwrap_or_else(|| (0..n).collect());
    NetworkConfig {
        parties: order
            .iter()
            .map(|&i| NetworkParty::new(i, Address::new("127.0.0.1".into(), 10000 + i as u16 + if i == id { 0 } else { o.via })))
            .collect(),
        my_id: id,
        bind_addr: addr(id),
        tls: with_tls.then(|| tls_config(id, n)),
        timeout: o.timeout,
        connect_timeout: o.connect_timeout,
        flush_timeout: o.flush_timeout,
        max_frame_length: o.max_frame,
    }
}
fn boxed<N: Network + 'static, const K: usize>(x: eyre::Result<[N; K]>) -> eyre::Result<Vec<Net>> {
    Ok(x?.into_iter().map(|n| Box::new(n) as Net).collect())
}
/// `k` networks of party `id`, through the transport's own set-up.
pub fn tcp_nets(id: usize, n: usize, k: usize, o: &Opts) -> eyre::Result<Vec<Net>> {
    let c = config(id, n, o, false);
    match k {
        1 => Ok(vec![Box::new(tcp::TcpNetwork::new(c)?)]),
        2 => boxed(tcp::TcpNetwork::networks::<2>(c)),
        3 => boxed(tcp::TcpNetwork::networks::<3>(c)),
        _ => unreachable!(),
    }
}
pub fn tls_nets(id: usize, n: usize, k: usize, o: &Opts) -> eyre::Result<Vec<Net>> {
    let c = config(id, n, o, true);
    match k {
        1 => Ok(vec![Box::new(tls::TlsNetwork::new(c)?)]),
        2 => boxed(tls::TlsNetwork::networks::<2>(c)),
        3 => boxed(tls::TlsNetwork::networks::<3>(c)),
        _ => unreachable!(),
    }
}
fn peers(id: usize, n: usize, o: &Opts) -> Vec<String> {
    (0..n).map(|i| format!("127.0.0.1:{}", 10000 + i as u16 + if i == id { 0 } else { o.via })).collect()
}
pub fn sess_b(id: usize, n: usize, o: &Opts, init: Option<Duration>, idle: Duration) -> eyre::Result<tcp_session_blocking::TcpNetworkHandler> {
    tcp_session_blocking::TcpNetworkHandler::new(tcp_session_blocking::NetworkConfig {
        party_id: id,
        bind_addr: addr(id),
        node_addrs: peers(id, n, o),
        init_session_timeout: init,
        timeout: o.timeout,
        flush_timeout: o.flush_timeout,
        time_to_idle: idle,
        max_frame_length: o.max_frame.unwrap_or(MAX),
    })
}
pub async fn sess_a(id: usize, n: usize, o: &Opts, idle: Duration) -> eyre::Result<tcp_session::TcpNetworkHandler> {
    tcp_session::TcpNetworkHandler::new(tcp_session::NetworkConfig {
        party_id: id,
        bind_addr: addr(id),
        node_addrs: peers(id, n, o),
        init_session_timeout: None,
        timeout: o.timeout,
        flush_timeout: o.flush_timeout,
        time_to_idle: idle,
        max_frame_length: o.max_frame.unwrap_or(MAX),
    })
    .await
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    simtokio::runtime::Runtime::new().unwrap().block_on(f)
}
/// All handlers listen before anybody opens a session.
pub fn rendezvous(n: usize) {
    #[derive(Default)]
    struct Up(usize);
    mc::slot::<Up>("up").0 += 1;
    mc::block("rendezvous", None, move || mc::slot::<Up>("up").0 >= n);
}

/// Sets up `k` networks between `n` parties (not part of the explored space).
/// Result: [party][network].
pub fn connect(t: T, n: usize, k: usize, o: &Opts) -> Vec<Vec<Net>> {
    mc::set_quiet(true);
    let r = connect_explored(t, n, k, o);
    mc::quiesce();
    mc::set_quiet(false);
    r
}
pub fn connect_explored(t: T, n: usize, k: usize, o: &Opts) -> Vec<Vec<Net>> {
    if t == T::Local {
        let mut r: Vec<Vec<Net>> = (0..n).map(|_| vec![]).collect();
        for _ in 0..k {
            for (i, x) in local::LocalNetwork::new_with_timeout(n, o.timeout).into_iter().enumerate() {
                r[i].push(Box::new(x));
            }
        }
        return r;
    }
    let slots: Rc<RefCell<Vec<Option<eyre::Result<Vec<Net>>>>>> = Rc::new(RefCell::new((0..n).map(|_| None).collect()));
    let tasks = (0..n)
        .map(|id| {
            let (slots, o) = (slots.clone(), o.clone());
            Box::new(move || {
                let r = party(t, id, n, k, &o);
                slots.borrow_mut()[id] = Some(r);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    all(tasks);
    let mut v = slots.borrow_mut();
    v.iter_mut()
        .enumerate()
        .map(|(i, x)| match x.take() {
            Some(Ok(v)) => v,
            Some(Err(e)) => panic!("set-up of party {i} failed: {e:#}"),
            None => panic!("set-up of party {i} did not finish"),
        })
        .collect()
}
/// One party's set-up.
pub fn party(t: T, id: usize, n: usize, k: usize, o: &Opts) -> eyre::Result<Vec<Net>> {
    let mut o = o.clone();
    if let Some(&m) = o.max_frames.get(id) {
        o.max_frame = Some(m);
    }
    if let Some(v) = o.orders.get(id) {
        o.order = Some(v.clone());
    }
    let o = &o;
    match t {
        T::Local => unreachable!(),
        T::Tcp => tcp_nets(id, n, k, o),
        T::Tls => tls_nets(id, n, k, o),
        T::SessB => {
            let h = sess_b(id, n, o, o.connect_timeout, Duration::from_secs(30))?;
            rendezvous(n);
            (0..k).map(|s| Ok(Box::new(h.init_session(1000 + s as u128)?) as Net)).collect()
        }
        T::SessA => {
            let o2 = o.clone();
            let h = block_on(async move { sess_a(id, n, &o2, Duration::from_secs(30)).await })?;
            rendezvous(n);
            block_on(async move {
                let mut v = vec![];
                for s in 0..k {
                    v.push(Box::new(h.init_session(1000 + s as u128).await?) as Net);
                }
                Ok(v)
            })
        }
    }
}

/// A connection that passes through the harness.
pub struct Link {
    /// The end facing the party that dialled, and the one facing the party that accepted.
    pub dialler: Rc<simstd::net::TcpStream>,
    pub acceptor: Rc<simstd::net::TcpStream>,
    pub acceptor_id: usize,
}
impl Link {
    /// The end facing `party` (of two parties).
    pub fn facing(&self, party: usize) -> &simstd::net::TcpStream {
        if party == self.acceptor_id { &self.acceptor } else { &self.dialler }
    }
}
#[derive(Default)]
struct Proxy {
    stop: bool,
    links: Vec<Link>,
}
fn pump(from: Rc<simstd::net::TcpStream>, to: Rc<simstd::net::TcpStream>) {
    use std::io::{Read, Write};
    let mut buf = vec![0u8; 4096];
    loop {
        let f = from.clone();
        mc::block("proxy", None, move || {
            mc::slot::<Proxy>("proxy").stop || f.incoming().1 > 0 || f.incoming_eof()
        });
        if mc::slot::<Proxy>("proxy").stop || mc::tearing_down() {
            return;
        }
        match (&*from).read(&mut buf) {
            Ok(n) if n > 0 => {
                if (&*to).write_all(&buf[..n]).is_err() {
                    return;
                }
            }
            _ => return,
        }
    }
}
/// Two parties whose connections pass through the harness; set-up is forwarded, afterwards
/// the harness holds the bytes.
pub fn connect_mitm(t: T, o: &Opts) -> (Net, Net, Vec<Link>) {
    mc::set_quiet(true);
    let o = Opts { via: 10000, ..o.clone() };
    for id in 0..2usize {
        let l = simstd::net::TcpListener::bind(format!("127.0.0.1:{}", 20000 + id)).unwrap();
        mc::spawn_named(format!("proxy{id}"), move || {
            loop {
                let Ok((s, _)) = l.accept() else { return };
                // Whoever dials keeps trying until the other side listens; so does the proxy.
                let d = loop {
                    match simstd::net::TcpStream::connect(addr(id)) {
                        Ok(d) => break d,
                        Err(_) => mc::sleep(ms(1)),
                    }
                };
                let (a, b) = (Rc::new(s), Rc::new(d));
                mc::slot::<Proxy>("proxy").links.push(Link { dialler: a.clone(), acceptor: b.clone(), acceptor_id: id });
                let (a2, b2) = (a.clone(), b.clone());
                mc::spawn_named("pump".into(), move || pump(a, b));
                mc::spawn_named("pump".into(), move || pump(b2, a2));
            }
        });
    }
    let mut v = connect_explored(t, 2, 1, &o);
    mc::quiesce();
    let p = mc::slot::<Proxy>("proxy");
    p.stop = true;
    mc::quiesce();
    mc::set_quiet(false);
    let b = v[1].remove(0);
    let a = v[0].remove(0);
    (a, b, std::mem::take(&mut p.links))
}
