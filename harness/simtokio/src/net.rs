use simstd::net as sim;
pub use simstd::net::ToSocketAddrs;
use std::future::poll_fn;
use std::io::{self, IoSlice};
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct TcpStream(sim::TcpStream);
impl TcpStream {
    pub async fn connect<A: sim::ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        sim::TcpStream::connect(a).map(TcpStream)
    }
    pub fn from_std(s: sim::TcpStream) -> io::Result<TcpStream> {
        Ok(TcpStream(s))
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        self.0.set_nodelay(v)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.0.peer_addr()
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.0.local_addr()
    }
    /// Harness access to the simulated socket.
    pub fn sim(&self) -> &sim::TcpStream {
        &self.0
    }
}
impl real_tokio::io::AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut real_tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut tmp = vec![0u8; buf.remaining()];
        match self.0.poll_read_sim(cx, &mut tmp) {
            Poll::Ready(Ok(n)) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl real_tokio::io::AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.poll_write_sim(cx, &[IoSlice::new(buf)])
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        self.0.poll_write_sim(cx, bufs)
    }
    fn is_write_vectored(&self) -> bool {
        true
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.0.shutdown(std::net::Shutdown::Write))
    }
}
#[derive(Debug)]
pub struct TcpListener(sim::TcpListener);
impl TcpListener {
    pub async fn bind<A: sim::ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        sim::TcpListener::bind(a).map(TcpListener)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::preemption().await;
        poll_fn(|cx| self.0.poll_accept_sim(cx)).await.map(|(s, a)| (TcpStream(s), a))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.0.local_addr()
    }
}
