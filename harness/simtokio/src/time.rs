pub use simstd::time::Instant;
pub use std::time::Duration;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub struct Sleep(Duration);
pub fn sleep(d: Duration) -> Sleep {
    Sleep(mc::now().saturating_add(d))
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if mc::now() >= self.0 {
            Poll::Ready(())
        } else {
            crate::register_timer(self.0);
            Poll::Pending
        }
    }
}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    let mut s = sleep(d);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut s).poll(cx).map(|_| Err(error::Elapsed(())))
    })
    .await
}
pub struct Interval {
    next: Duration,
    period: Duration,
}
pub fn interval(p: Duration) -> Interval {
    assert!(p > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: mc::now(), period: p }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        Sleep(self.next).await;
        self.next = mc::now() + self.period;
        Instant::now()
    }
}
