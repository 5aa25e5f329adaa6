use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Waker};

struct Slot<T> {
    value: RefCell<Option<Result<T, JoinError>>>,
    wakers: RefCell<Vec<Waker>>,
    done: AtomicBool,
}
unsafe impl<T> Send for Slot<T> {}
unsafe impl<T> Sync for Slot<T> {}
#[derive(Debug)]
pub struct JoinError(String);
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task failed: {}", self.0)
    }
}
impl std::error::Error for JoinError {}
pub struct JoinHandle<T> {
    slot: Arc<Slot<T>>,
    cancel: Arc<AtomicBool>,
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.cancel.store(true, Ordering::Relaxed);
    }
    pub fn is_finished(&self) -> bool {
        self.slot.done.load(Ordering::Relaxed)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(v) = self.slot.value.borrow_mut().take() {
            return Poll::Ready(v);
        }
        self.slot.wakers.borrow_mut().push(cx.waker().clone());
        Poll::Pending
    }
}
struct Finish<T>(Arc<Slot<T>>);
impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
        self.0.done.store(true, Ordering::Relaxed);
        if self.0.value.borrow().is_none() {
            *self.0.value.borrow_mut() = Some(Err(JoinError("cancelled or panicked".into())));
        }
        for w in self.0.wakers.borrow_mut().drain(..) {
            w.wake();
        }
    }
}
pub(crate) fn start<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = Arc::new(Slot { value: RefCell::new(None), wakers: RefCell::default(), done: AtomicBool::new(false) });
    let cancel = Arc::new(AtomicBool::new(false));
    let (s2, c2) = (slot.clone(), cancel.clone());
    mc::spawn_named("tokio-task".into(), move || {
        let fin = Finish(s2);
        if let Some(v) = crate::drive(f, true, Some(c2)) {
            *fin.0.value.borrow_mut() = Some(Ok(v));
        }
    });
    mc::point();
    JoinHandle { slot, cancel }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    assert!(crate::in_context() || mc::tearing_down(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    start(f)
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let slot = Arc::new(Slot { value: RefCell::new(None), wakers: RefCell::default(), done: AtomicBool::new(false) });
    let s2 = slot.clone();
    mc::spawn_named("tokio-blocking".into(), move || {
        let fin = Finish(s2);
        let v = f();
        *fin.0.value.borrow_mut() = Some(Ok(v));
    });
    JoinHandle { slot, cancel: Arc::default() }
}
pub async fn yield_now() {
    crate::preemption().await
}
