//! `tokio` on the model checker: real I/O traits, codecs and synchronisation primitives;
//! tasks, timers and sockets are simulated.
pub use real_tokio::{io, join, pin, try_join};
pub mod net;
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;

/// Branch order is fixed (first ready branch wins) instead of random.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
    ($($t:tt)*) => { $crate::__real::select! { biased; $($t)* } };
}
#[doc(hidden)]
pub use real_tokio as __real;

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::future::Future;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}

thread_local! {
    /// Earliest timer registered by the poll in progress.
    static NEXT: Cell<Option<Duration>> = const { Cell::new(None) };
}
pub(crate) fn register_timer(at: Duration) {
    NEXT.with(|n| n.set(Some(n.get().map_or(at, |x| x.min(at)))));
}

#[derive(Default)]
struct Ctx(RefCell<BTreeSet<mc::TaskId>>);
fn ctx() -> &'static Ctx {
    mc::slot::<Ctx>("tokio.ctx")
}
/// Is the current task inside an asynchronous execution context?
pub(crate) fn in_context() -> bool {
    !mc::tearing_down() && ctx().0.borrow().contains(&mc::current())
}
struct Entered(Option<mc::TaskId>);
fn enter() -> Entered {
    let me = mc::current();
    Entered(ctx().0.borrow_mut().insert(me).then_some(me))
}
impl Drop for Entered {
    fn drop(&mut self) {
        if let (Some(t), false) = (self.0, mc::tearing_down()) {
            ctx().0.borrow_mut().remove(&t);
        }
    }
}

/// Drives `f` on the current task. `None` when the world is torn down or `cancel` is set.
pub(crate) fn drive<F: Future>(f: F, async_ctx: bool, cancel: Option<Arc<AtomicBool>>) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        if mc::tearing_down() || cancel.as_ref().is_some_and(|c| c.load(Ordering::Relaxed)) {
            return None;
        }
        flag.0.store(false, Ordering::Relaxed);
        let old = NEXT.with(|n| n.replace(None));
        let r = {
            let _e = async_ctx.then(enter);
            f.as_mut().poll(&mut cx)
        };
        let timer = NEXT.with(|n| n.replace(old));
        match r {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                if mc::tearing_down() {
                    return None;
                }
                let (fl, ca) = (flag.clone(), cancel.clone());
                let d = timer.map(|t| t.saturating_sub(mc::now()));
                mc::block("future", d, move || {
                    fl.0.load(Ordering::Relaxed) || ca.as_ref().is_some_and(|c| c.load(Ordering::Relaxed))
                });
            }
        }
    }
}

/// A blocking wait from synchronous code (panics in async context, as tokio does).
pub(crate) fn blocking<F: Future>(f: F, what: &str) -> Option<F::Output> {
    if in_context() {
        panic!("Cannot block the current thread from within a runtime ({what})");
    }
    drive(f, false, None)
}

/// A scheduling point inside asynchronous code.
pub(crate) async fn preemption() {
    mc::point();
}
