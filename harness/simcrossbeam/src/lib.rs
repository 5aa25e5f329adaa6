//! `crossbeam_channel` on the model checker's tasks.
pub use crossbeam_channel::{RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryRecvError, TrySendError};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;

struct State<T> {
    q: VecDeque<T>,
    senders: usize,
    receivers: usize,
    /// Messages taken so far (for rendezvous channels).
    taken: u64,
    put: u64,
}
struct Chan<T> {
    cap: Option<usize>,
    st: RefCell<State<T>>,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        cap,
        st: RefCell::new(State { q: VecDeque::new(), senders: 1, receivers: 1, taken: 0, put: 0 }),
    });
    (Sender(c.clone()), Receiver(c))
}
/// A factor by which scenarios shrink channel capacities (0 = unchanged).
#[derive(Default)]
pub struct CapOverride(pub Option<usize>);
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let cap = if cap > 1 && mc::in_world() { mc::slot::<CapOverride>("crossbeam.cap").0.unwrap_or(cap) } else { cap };
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}

impl<T> Chan<T> {
    fn has_room(&self) -> bool {
        let s = self.st.borrow();
        s.receivers == 0 || self.cap.is_none_or(|c| s.q.len() < c.max(1))
    }
    fn served(&self, ticket: u64) -> bool {
        let s = self.st.borrow();
        s.taken >= ticket || s.receivers == 0
    }
    fn readable(&self) -> bool {
        let s = self.st.borrow();
        !s.q.is_empty() || s.senders == 0
    }
}

impl<T> Sender<T> {
    fn send_inner(&self, t: T, d: Option<Duration>) -> Result<(), SendTimeoutError<T>> {
        if mc::tearing_down() {
            return Err(SendTimeoutError::Disconnected(t));
        }
        mc::point();
        if !self.0.has_room() {
            let p: *const Chan<T> = &*self.0;
            let p = p as usize;
            let ok = mc::block("channel send", d, move || unsafe { (*(p as *const Chan<T>)).has_room() });
            if mc::tearing_down() {
                return Err(SendTimeoutError::Disconnected(t));
            }
            if !ok {
                return Err(SendTimeoutError::Timeout(t));
            }
        }
        let ticket = {
            let mut s = self.0.st.borrow_mut();
            if s.receivers == 0 {
                return Err(SendTimeoutError::Disconnected(t));
            }
            s.q.push_back(t);
            s.put += 1;
            s.put
        };
        if self.0.cap == Some(0) {
            let c = self.0.clone();
            let p: *const Chan<T> = &*c;
            let p = p as usize;
            let ok = mc::block("rendezvous", d, move || unsafe { (*(p as *const Chan<T>)).served(ticket) });
            let mut s = c.st.borrow_mut();
            if s.taken < ticket {
                if let Some(t) = s.q.pop_back() {
                    s.put -= 1;
                    return Err(if ok { SendTimeoutError::Disconnected(t) } else { SendTimeoutError::Timeout(t) });
                }
            }
        }
        Ok(())
    }
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.send_inner(t, None).map_err(|e| SendError(e.into_inner()))
    }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        self.send_inner(t, Some(d))
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        if mc::tearing_down() {
            return Err(TrySendError::Disconnected(t));
        }
        mc::point();
        let mut s = self.0.st.borrow_mut();
        if s.receivers == 0 {
            return Err(TrySendError::Disconnected(t));
        }
        if self.0.cap.is_some_and(|c| s.q.len() >= c) {
            return Err(TrySendError::Full(t));
        }
        s.q.push_back(t);
        s.put += 1;
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.0.st.borrow().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap.is_some_and(|c| self.len() >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
}
impl<T> Receiver<T> {
    fn take(&self) -> Option<T> {
        let mut s = self.0.st.borrow_mut();
        let r = s.q.pop_front();
        if r.is_some() {
            s.taken += 1;
        }
        r
    }
    fn recv_inner(&self, d: Option<Duration>) -> Result<T, RecvTimeoutError> {
        if mc::tearing_down() {
            return Err(RecvTimeoutError::Disconnected);
        }
        mc::point();
        if !self.0.readable() {
            let p: *const Chan<T> = &*self.0;
            let p = p as usize;
            let ok = mc::block("channel recv", d, move || unsafe { (*(p as *const Chan<T>)).readable() });
            if mc::tearing_down() {
                return Err(RecvTimeoutError::Disconnected);
            }
            if !ok {
                return Err(RecvTimeoutError::Timeout);
            }
        }
        self.take().ok_or(RecvTimeoutError::Disconnected)
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.recv_inner(None).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.recv_inner(Some(d))
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if mc::tearing_down() {
            return Err(TryRecvError::Disconnected);
        }
        mc::point();
        let dead = self.0.st.borrow().senders == 0;
        self.take().ok_or(if dead { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.try_recv().ok())
    }
    pub fn len(&self) -> usize {
        self.0.st.borrow().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.st.borrow_mut().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.st.borrow_mut().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.st.borrow_mut().senders -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut s = self.0.st.borrow_mut();
        s.receivers -= 1;
        if s.receivers == 0 {
            // As crossbeam does: the last receiver discards what is queued.
            let q = std::mem::take(&mut s.q);
            drop(s);
            drop(q);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
