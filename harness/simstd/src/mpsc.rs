//! Multi-producer channels on the model checker.
use super::{Arc, Condvar, Mutex};
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::collections::VecDeque;
use ::std::time::Duration;

struct State<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
}
struct Chan<T> {
    st: Mutex<State<T>>,
    cv: Condvar,
    cap: Option<usize>,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
fn mk<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan { st: Mutex::new(State { q: VecDeque::new(), senders: 1, receiver: true }), cv: Condvar::new(), cap })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = mk(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = mk(Some(n.max(1)));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.st.lock().unwrap();
        loop {
            if !g.receiver || mc::tearing_down() {
                return Err(SendError(t));
            }
            if self.cap.is_none_or(|c| g.q.len() < c) {
                g.q.push_back(t);
                self.cv.notify_all();
                return Ok(());
            }
            g = self.cv.wait(g).unwrap();
        }
    }
}
macro_rules! sender {
    ($s:ident) => {
        impl<T> $s<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                self.0.st.lock().unwrap().senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                self.0.st.lock().unwrap().senders -= 1;
                self.0.cv.notify_all();
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.st.lock().unwrap();
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if self.0.cap.is_none_or(|c| g.q.len() < c) {
            g.q.push_back(t);
            self.0.cv.notify_all();
            Ok(())
        } else {
            Err(TrySendError::Full(t))
        }
    }
}
impl<T> Receiver<T> {
    fn get(&self, d: Option<Duration>) -> Result<T, RecvTimeoutError> {
        let until = d.map(|d| mc::now() + d);
        let mut g = self.0.st.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 || mc::tearing_down() {
                return Err(RecvTimeoutError::Disconnected);
            }
            match until {
                None => g = self.0.cv.wait(g).unwrap(),
                Some(u) => {
                    let now = mc::now();
                    if now >= u {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    g = self.0.cv.wait_timeout(g, u - now).unwrap().0;
                }
            }
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.get(None).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.get(Some(d))
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.st.lock().unwrap();
        match g.q.pop_front() {
            Some(t) => {
                self.0.cv.notify_all();
                Ok(t)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(|| self.try_recv().ok())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut g = self.0.st.lock().unwrap();
            g.receiver = false;
            ::std::mem::take(&mut g.q)
        };
        self.0.cv.notify_all();
        drop(q);
    }
}
