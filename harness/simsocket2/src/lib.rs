//! The part of `socket2` the code under exploration uses, on simulated sockets.
use simstd::net::{SocketAddr, TcpListener, TcpStream};
use std::cell::RefCell;
use std::io;
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Domain;
impl Domain {
    pub const IPV4: Domain = Domain;
    pub const IPV6: Domain = Domain;
    pub fn for_address(_: SocketAddr) -> Self {
        Domain
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Type;
impl Type {
    pub const STREAM: Type = Type;
}
#[derive(Clone, Copy, Debug)]
pub struct Protocol;
impl Protocol {
    pub const TCP: Protocol = Protocol;
}
#[derive(Clone, Debug, Default)]
pub struct TcpKeepalive;
impl TcpKeepalive {
    pub fn new() -> Self {
        Self
    }
    pub fn with_interval(self, _: Duration) -> Self {
        self
    }
    pub fn with_time(self, _: Duration) -> Self {
        self
    }
    pub fn with_retries(self, _: u32) -> Self {
        self
    }
}
pub struct SockAddr(SocketAddr);
impl From<SocketAddr> for SockAddr {
    fn from(a: SocketAddr) -> Self {
        SockAddr(a)
    }
}
enum Kind {
    Fresh,
    Listener(TcpListener),
    Stream(TcpStream),
}
pub struct Socket {
    kind: RefCell<Kind>,
    read_timeout: RefCell<Option<Duration>>,
}
impl Socket {
    pub fn new(_: Domain, _: Type, _: Option<Protocol>) -> io::Result<Socket> {
        Ok(Socket { kind: RefCell::new(Kind::Fresh), read_timeout: RefCell::new(None) })
    }
    pub fn set_reuse_address(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuse_port(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_only_v6(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nonblocking(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_tcp_keepalive(&self, _: &TcpKeepalive) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        if let Kind::Stream(s) = &*self.kind.borrow() { s.set_nodelay(v) } else { Ok(()) }
    }
    pub fn set_tcp_nodelay(&self, v: bool) -> io::Result<()> {
        self.set_nodelay(v)
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        *self.read_timeout.borrow_mut() = d;
        match &*self.kind.borrow() {
            Kind::Stream(s) => s.set_read_timeout(d),
            Kind::Listener(l) => {
                l.set_accept_timeout(d);
                Ok(())
            }
            Kind::Fresh => Ok(()),
        }
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        if let Kind::Stream(s) = &*self.kind.borrow() { s.set_write_timeout(d) } else { Ok(()) }
    }
    pub fn bind(&self, a: &SockAddr) -> io::Result<()> {
        let l = TcpListener::bind(a.0)?;
        l.set_accept_timeout(*self.read_timeout.borrow());
        *self.kind.borrow_mut() = Kind::Listener(l);
        Ok(())
    }
    pub fn listen(&self, _: i32) -> io::Result<()> {
        Ok(())
    }
}
impl From<Socket> for TcpListener {
    fn from(s: Socket) -> Self {
        match s.kind.into_inner() {
            Kind::Listener(l) => l,
            _ => panic!("not a listening socket"),
        }
    }
}
impl From<Socket> for TcpStream {
    fn from(s: Socket) -> Self {
        match s.kind.into_inner() {
            Kind::Stream(l) => l,
            _ => panic!("not a connected socket"),
        }
    }
}
impl From<TcpStream> for Socket {
    fn from(s: TcpStream) -> Self {
        let t = s.read_timeout().ok().flatten();
        Socket { kind: RefCell::new(Kind::Stream(s)), read_timeout: RefCell::new(t) }
    }
}
