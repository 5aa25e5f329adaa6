pub use real_tokio::sync::{MutexGuard, Notify, OwnedSemaphorePermit, Semaphore, SemaphorePermit, broadcast, watch};
use std::fmt;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(real_tokio::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex(real_tokio::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        crate::preemption().await;
        self.0.lock().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, real_tokio::sync::TryLockError> {
        self.0.try_lock()
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        crate::blocking(self.0.lock(), "blocking_lock").expect("torn down")
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}

pub mod mpsc {
    pub use real_tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender, error, unbounded_channel};
    use real_tokio::sync::mpsc as real;
    use std::fmt;
    use std::ops::{Deref, DerefMut};
    pub struct Sender<T>(real::Sender<T>);
    pub struct Receiver<T>(real::Receiver<T>);
    #[derive(Default)]
    pub struct CapOverride(pub Option<usize>);
    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        let cap = if cap > 1 && mc::in_world() { mc::slot::<CapOverride>("mpsc.cap").0.unwrap_or(cap) } else { cap };
        let (a, b) = real::channel(cap);
        (Sender(a), Receiver(b))
    }
    impl<T> Sender<T> {
        pub async fn send(&self, t: T) -> Result<(), error::SendError<T>> {
            crate::preemption().await;
            self.0.send(t).await
        }
        pub fn blocking_send(&self, t: T) -> Result<(), error::SendError<T>> {
            if !mc::tearing_down() {
                mc::point();
            }
            let mut t = Some(t);
            // The value must come back when the world is torn down.
            match crate::blocking(self.0.reserve(), "blocking_send") {
                Some(Ok(p)) => {
                    p.send(t.take().unwrap());
                    Ok(())
                }
                _ => Err(error::SendError(t.take().unwrap())),
            }
        }
    }
    impl<T> Receiver<T> {
        pub async fn recv(&mut self) -> Option<T> {
            crate::preemption().await;
            self.0.recv().await
        }
        pub fn blocking_recv(&mut self) -> Option<T> {
            if !mc::tearing_down() {
                mc::point();
            }
            crate::blocking(self.0.recv(), "blocking_recv").flatten()
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Deref for Sender<T> {
        type Target = real::Sender<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> Deref for Receiver<T> {
        type Target = real::Receiver<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> DerefMut for Receiver<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
}

pub mod oneshot {
    pub use real_tokio::sync::oneshot::{Sender, error};
    use real_tokio::sync::oneshot as real;
    use std::future::Future;
    use std::ops::{Deref, DerefMut};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Debug)]
    pub struct Receiver<T>(real::Receiver<T>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (a, b) = real::channel();
        (a, Receiver(b))
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
    impl<T> Receiver<T> {
        pub fn blocking_recv(self) -> Result<T, error::RecvError> {
            match crate::blocking(self.0, "blocking_recv") {
                Some(r) => r,
                None => {
                    let (tx, mut rx) = real::channel::<T>();
                    drop(tx);
                    Err(match rx.try_recv() {
                        Err(_) => futures_recv_error(rx),
                        Ok(_) => unreachable!(),
                    })
                }
            }
        }
    }
    fn futures_recv_error<T>(rx: real::Receiver<T>) -> error::RecvError {
        let mut rx = std::pin::pin!(rx);
        let w = std::task::Waker::noop();
        match rx.as_mut().poll(&mut Context::from_waker(w)) {
            Poll::Ready(Err(e)) => e,
            _ => unreachable!(),
        }
    }
    impl<T> Deref for Receiver<T> {
        type Target = real::Receiver<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> DerefMut for Receiver<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
}
