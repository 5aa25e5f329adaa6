//! Simulated TCP: per-world listeners and byte pipes.
pub use ::std::net::*;
use ::std::cell::{Cell, RefCell};
use ::std::collections::{BTreeMap, VecDeque};
use ::std::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};
use ::std::sync::Arc;
use ::std::task::{Context, Poll, Waker};
use ::std::time::Duration;

/// Environment behaviour of the simulated network in the current world.
pub struct NetCfg {
    /// Bytes a connection buffers per direction.
    pub pipe_cap: usize,
    /// Reads may return fewer bytes than available (deviation).
    pub short_reads: bool,
    /// Writes may accept fewer bytes than offered (deviation).
    pub short_writes: bool,
    /// Reads and writes may be interrupted (deviation).
    pub eintr: bool,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { pipe_cap: 1 << 20, short_reads: false, short_writes: false, eintr: false }
    }
}
pub fn cfg() -> &'static mut NetCfg {
    mc::slot::<NetCfg>("simnet.cfg")
}

/// Asynchronous writers waiting for room.
#[derive(Default)]
struct Full(Vec<Waker>);
/// Harness: changes the room of all connections in use.
pub fn set_pipe_cap(cap: usize) {
    cfg().pipe_cap = cap;
    for w in std::mem::take(&mut mc::slot::<Full>("simnet.full").0) {
        w.wake();
    }
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    eof: bool,
    reader_gone: bool,
    reset: bool,
    wakers: Vec<Waker>,
    /// Total bytes ever written.
    total: u64,
    /// The reader side stopped taking data (scripted stall).
    frozen: bool,
}
impl Pipe {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
}
struct Conn {
    pipes: [RefCell<Pipe>; 2],
    addrs: [SocketAddr; 2],
}
/// One side of a connection; the side closes when its last handle goes.
struct End {
    conn: Arc<Conn>,
    side: usize,
}
unsafe impl Send for End {}
unsafe impl Sync for End {}
impl Drop for End {
    fn drop(&mut self) {
        let mut o = self.conn.pipes[self.side].borrow_mut();
        o.eof = true;
        o.wake();
        drop(o);
        let mut i = self.conn.pipes[1 - self.side].borrow_mut();
        i.reader_gone = true;
        i.wake();
    }
}

pub struct TcpStream {
    end: Arc<End>,
    opts: Arc<Opts>,
}
#[derive(Default)]
struct Opts {
    read_timeout: Cell<Option<Duration>>,
    write_timeout: Cell<Option<Duration>>,
    nodelay: Cell<bool>,
    nonblocking: Cell<bool>,
}
unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}
impl ::std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "TcpStream({} -> {})", self.end.conn.addrs[self.end.side], self.end.conn.addrs[1 - self.end.side])
    }
}

#[derive(Default)]
struct Listening {
    backlog: VecDeque<(TcpStream, SocketAddr)>,
    wakers: Vec<Waker>,
}
#[derive(Default)]
struct Net {
    listeners: BTreeMap<u16, Listening>,
    next_port: u16,
}
fn net() -> &'static mut Net {
    let n = mc::slot::<Net>("simnet.net");
    if n.next_port == 0 {
        n.next_port = 40000;
    }
    n
}

fn torn() -> io::Error {
    io::Error::other("world torn down")
}
fn resolve(addr: impl ToSocketAddrs) -> io::Result<SocketAddr> {
    addr.to_socket_addrs()?.next().ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "could not resolve to any addresses"))
}
fn bad_timeout(d: Option<Duration>) -> io::Result<()> {
    if d == Some(Duration::ZERO) {
        return Err(io::Error::new(ErrorKind::InvalidInput, "cannot set a 0 duration timeout"));
    }
    Ok(())
}

/// A connected pair of streams without a listener.
pub fn pair() -> (TcpStream, TcpStream) {
    let a0: SocketAddr = "127.0.0.1:1".parse().unwrap();
    let a1: SocketAddr = "127.0.0.1:2".parse().unwrap();
    let conn = Arc::new(Conn { pipes: Default::default(), addrs: [a0, a1] });
    let mk = |side| TcpStream { end: Arc::new(End { conn: conn.clone(), side }), opts: Arc::default() };
    (mk(0), mk(1))
}

impl TcpStream {
    pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let a = resolve(addr)?;
        if mc::tearing_down() {
            return Err(torn());
        }
        mc::point();
        let n = net();
        n.next_port += 1;
        let me = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), n.next_port);
        let Some(l) = n.listeners.get_mut(&a.port()) else {
            return Err(io::Error::from(ErrorKind::ConnectionRefused));
        };
        let conn = Arc::new(Conn { pipes: Default::default(), addrs: [me, a] });
        let client = TcpStream { end: Arc::new(End { conn: conn.clone(), side: 0 }), opts: Arc::default() };
        let server = TcpStream { end: Arc::new(End { conn, side: 1 }), opts: Arc::default() };
        l.backlog.push_back((server, me));
        for w in l.wakers.drain(..) {
            w.wake();
        }
        mc::log(|| format!("connect {me} -> {a}"));
        Ok(client)
    }
    pub fn connect_timeout(addr: &SocketAddr, d: Duration) -> io::Result<TcpStream> {
        if d == Duration::ZERO {
            return Err(io::Error::new(ErrorKind::InvalidInput, "cannot set a 0 duration timeout"));
        }
        Self::connect(addr)
    }
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        Ok(TcpStream { end: self.end.clone(), opts: self.opts.clone() })
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.end.conn.addrs[1 - self.end.side])
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.end.conn.addrs[self.end.side])
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        self.opts.nodelay.set(v);
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(self.opts.nodelay.get())
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        self.opts.nonblocking.set(v);
        Ok(())
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        bad_timeout(d)?;
        self.opts.read_timeout.set(d);
        Ok(())
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        bad_timeout(d)?;
        self.opts.write_timeout.set(d);
        Ok(())
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.opts.read_timeout.get())
    }
    pub fn write_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.opts.write_timeout.get())
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        if matches!(how, Shutdown::Write | Shutdown::Both) {
            let mut p = self.end.conn.pipes[self.end.side].borrow_mut();
            p.eof = true;
            p.wake();
        }
        if matches!(how, Shutdown::Read | Shutdown::Both) {
            let mut p = self.end.conn.pipes[1 - self.end.side].borrow_mut();
            p.eof = true;
            p.wake();
        }
        Ok(())
    }
    /// Harness: abort the connection (both directions fail with a reset).
    pub fn reset(&self) {
        for p in &self.end.conn.pipes {
            let mut p = p.borrow_mut();
            p.reset = true;
            p.wake();
        }
    }
    /// Harness: stop or resume accepting data the other side writes to us.
    pub fn freeze(&self, on: bool) {
        let mut p = self.end.conn.pipes[1 - self.end.side].borrow_mut();
        p.frozen = on;
        p.wake();
    }
    /// Harness: bytes the other side has written so far and those not yet read.
    pub fn incoming(&self) -> (u64, usize) {
        let p = self.end.conn.pipes[1 - self.end.side].borrow();
        (p.total, p.buf.len())
    }
    /// Harness: has the other side finished writing (EOF queued)?
    pub fn incoming_eof(&self) -> bool {
        self.end.conn.pipes[1 - self.end.side].borrow().eof
    }

    fn out(&self) -> &RefCell<Pipe> {
        &self.end.conn.pipes[self.end.side]
    }
    fn inc(&self) -> &RefCell<Pipe> {
        &self.end.conn.pipes[1 - self.end.side]
    }
    fn readable(p: &Pipe) -> bool {
        p.reset || p.eof || !p.buf.is_empty()
    }
    fn writable(p: &Pipe, cap: usize) -> bool {
        p.reset || p.eof || p.reader_gone || (!p.frozen && p.buf.len() < cap)
    }
    fn do_read(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        let c = cfg();
        let avail = self.inc().borrow().buf.len();
        if self.inc().borrow().reset {
            return Err(io::Error::from(ErrorKind::ConnectionReset));
        }
        if avail == 0 || want == 0 {
            return Ok(0); // end of stream (or an empty buffer)
        }
        let n = avail.min(want);
        let mut opts: Vec<Option<usize>> = vec![Some(n)];
        if c.short_reads {
            for k in [1, n / 2, n - 1] {
                if k >= 1 && k < n && !opts.contains(&Some(k)) {
                    opts.push(Some(k));
                }
            }
        }
        if c.eintr {
            opts.push(None);
        }
        let k = mc::choose(opts.len() as u32, "read") as usize;
        let Some(n) = opts[k] else { return Err(io::Error::from(ErrorKind::Interrupted)) };
        let mut p = self.inc().borrow_mut();
        let mut left = n;
        for b in bufs.iter_mut() {
            let m = left.min(b.len());
            let (x, y) = p.buf.as_slices();
            let k = m.min(x.len());
            b[..k].copy_from_slice(&x[..k]);
            b[k..m].copy_from_slice(&y[..m - k]);
            p.buf.drain(..m);
            left -= m;
        }
        p.wake();
        mc::log(|| format!("read {n} of {avail} by {self:?}"));
        Ok(n)
    }
    fn do_write(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let c = cfg();
        let offered: usize = bufs.iter().map(|b| b.len()).sum();
        {
            let p = self.out().borrow();
            if p.reset {
                return Err(io::Error::from(ErrorKind::ConnectionReset));
            }
            if p.eof || p.reader_gone {
                return Err(io::Error::from(ErrorKind::BrokenPipe));
            }
        }
        let room = c.pipe_cap.saturating_sub(self.out().borrow().buf.len());
        let n = offered.min(room);
        if n == 0 {
            return Ok(0);
        }
        let mut opts: Vec<Option<usize>> = vec![Some(n)];
        if c.short_writes {
            for k in [1, 7, 8, 9, n / 2, n - 1] {
                if k >= 1 && k < n && !opts.contains(&Some(k)) {
                    opts.push(Some(k));
                }
            }
        }
        if c.eintr {
            opts.push(None);
        }
        let k = mc::choose(opts.len() as u32, "write") as usize;
        let Some(n) = opts[k] else { return Err(io::Error::from(ErrorKind::Interrupted)) };
        let mut p = self.out().borrow_mut();
        let mut left = n;
        for b in bufs {
            let m = left.min(b.len());
            p.buf.extend(&b[..m]);
            left -= m;
        }
        p.total += n as u64;
        p.wake();
        mc::log(|| format!("write {n} of {offered} by {self:?}"));
        Ok(n)
    }
    fn read_blocking(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        if mc::tearing_down() {
            return Err(torn());
        }
        mc::point();
        if !Self::readable(&self.inc().borrow()) {
            if self.opts.nonblocking.get() {
                return Err(io::Error::from(ErrorKind::WouldBlock));
            }
            let e = self.end.clone();
            let ok = mc::block("socket read", self.opts.read_timeout.get(), move || {
                Self::readable(&e.conn.pipes[1 - e.side].borrow())
            });
            if mc::tearing_down() {
                return Err(torn());
            }
            if !ok {
                return Err(io::Error::from(ErrorKind::WouldBlock));
            }
        }
        self.do_read(bufs)
    }
    fn write_blocking(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if mc::tearing_down() {
            return Err(torn());
        }
        mc::point();
        if bufs.iter().all(|b| b.is_empty()) {
            return Ok(0);
        }
        let cap = cfg().pipe_cap;
        if !Self::writable(&self.out().borrow(), cap) {
            if self.opts.nonblocking.get() {
                return Err(io::Error::from(ErrorKind::WouldBlock));
            }
            let e = self.end.clone();
            let ok = mc::block("socket write", self.opts.write_timeout.get(), move || {
                Self::writable(&e.conn.pipes[e.side].borrow(), cfg().pipe_cap)
            });
            if mc::tearing_down() {
                return Err(torn());
            }
            if !ok {
                return Err(io::Error::from(ErrorKind::WouldBlock));
            }
        }
        self.do_write(bufs)
    }

    // Asynchronous access (used by the simulated tokio).
    pub fn poll_read_sim(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if mc::tearing_down() {
            return Poll::Ready(Err(torn()));
        }
        if !Self::readable(&self.inc().borrow()) {
            self.inc().borrow_mut().wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        match self.do_read(&mut [IoSliceMut::new(buf)]) {
            Err(e) if e.kind() == ErrorKind::Interrupted => {
                cx.waker().wake_by_ref(); // async sockets never surface an interruption
                Poll::Pending
            }
            r => Poll::Ready(r),
        }
    }
    pub fn poll_write_sim(&self, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        if mc::tearing_down() {
            return Poll::Ready(Err(torn()));
        }
        if bufs.iter().all(|b| b.is_empty()) {
            return Poll::Ready(Ok(0));
        }
        if !Self::writable(&self.out().borrow(), cfg().pipe_cap) {
            self.out().borrow_mut().wakers.push(cx.waker().clone());
            mc::slot::<Full>("simnet.full").0.push(cx.waker().clone());
            return Poll::Pending;
        }
        match self.do_write(bufs) {
            Err(e) if e.kind() == ErrorKind::Interrupted => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            r => Poll::Ready(r),
        }
    }
}
impl Read for TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_blocking(&mut [IoSliceMut::new(buf)])
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        self.read_blocking(bufs)
    }
}
impl Read for &TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_blocking(&mut [IoSliceMut::new(buf)])
    }
}
impl Write for TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_blocking(&[IoSlice::new(buf)])
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        self.write_blocking(bufs)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_blocking(&[IoSlice::new(buf)])
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        self.write_blocking(bufs)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct TcpListener {
    addr: SocketAddr,
    accept_timeout: Cell<Option<Duration>>,
}
unsafe impl Sync for TcpListener {}
impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let mut a = resolve(addr)?;
        if mc::tearing_down() {
            return Err(torn());
        }
        mc::point();
        let n = net();
        if a.port() == 0 {
            n.next_port += 1;
            a.set_port(n.next_port);
        }
        if n.listeners.contains_key(&a.port()) {
            return Err(io::Error::from(ErrorKind::AddrInUse));
        }
        n.listeners.insert(a.port(), Listening::default());
        Ok(TcpListener { addr: a, accept_timeout: Cell::new(None) })
    }
    /// As SO_RCVTIMEO on a listening socket.
    pub fn set_accept_timeout(&self, d: Option<Duration>) {
        self.accept_timeout.set(d);
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn set_nonblocking(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        if mc::tearing_down() {
            return Err(torn());
        }
        mc::point();
        let port = self.addr.port();
        if net().listeners[&port].backlog.is_empty() {
            let ok = mc::block("accept", self.accept_timeout.get(), move || !net().listeners[&port].backlog.is_empty());
            if mc::tearing_down() {
                return Err(torn());
            }
            if !ok {
                return Err(io::Error::from(ErrorKind::WouldBlock));
            }
        }
        let (s, a) = net().listeners.get_mut(&port).unwrap().backlog.pop_front().unwrap();
        // Linux: an accepted socket inherits SO_RCVTIMEO of the listening socket.
        s.opts.read_timeout.set(self.accept_timeout.get());
        Ok((s, a))
    }
    pub fn incoming(&self) -> impl Iterator<Item = io::Result<TcpStream>> + '_ {
        ::std::iter::from_fn(|| Some(self.accept().map(|x| x.0)))
    }
    pub fn poll_accept_sim(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        if mc::tearing_down() {
            return Poll::Ready(Err(torn()));
        }
        let l = net().listeners.get_mut(&self.addr.port()).unwrap();
        match l.backlog.pop_front() {
            Some(x) => Poll::Ready(Ok(x)),
            None => {
                l.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        if !mc::tearing_down() {
            net().listeners.remove(&self.addr.port());
        }
    }
}
