use ::std::cell::UnsafeCell;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::sync::Arc;
pub use ::std::thread::{AccessError, LocalKey, Result, ThreadId, available_parallelism, current, panicking};
use ::std::time::Duration;

struct Packet<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

pub struct JoinHandle<T> {
    id: mc::TaskId,
    packet: Arc<Packet<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

fn take<T>(id: mc::TaskId, p: &Packet<T>) -> Result<T> {
    match unsafe { (*p.0.get()).take() } {
        Some(v) => Ok(v),
        None => Err(Box::new(if mc::tearing_down() {
            "torn down".to_string()
        } else {
            mc::panic_of(id).unwrap_or_else(|| "no result".into())
        })),
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        mc::join(self.id);
        take(self.id, &self.packet)
    }
    pub fn is_finished(&self) -> bool {
        mc::is_done(self.id)
    }
}

fn start<'a, F, T>(name: String, f: F) -> (mc::TaskId, Arc<Packet<T>>)
where
    F: FnOnce() -> T + 'a,
    T: 'a,
{
    let packet = Arc::new(Packet(UnsafeCell::new(None)));
    let p2 = packet.clone();
    let body: Box<dyn FnOnce() + 'a> = Box::new(move || {
        let v = f();
        unsafe { *p2.0.get() = Some(v) };
    });
    // Scoped tasks are joined before their scope ends; worlds tear tasks down newest first.
    let body: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(body) };
    let id = mc::spawn_named(name, body);
    mc::point();
    (id, packet)
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let (id, packet) = start("thread".into(), f);
    JoinHandle { id, packet }
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (id, packet) = start(self.name.unwrap_or_else(|| "thread".into()), f);
        Ok(JoinHandle { id, packet })
    }
}

pub fn sleep(d: Duration) {
    mc::sleep(d)
}
pub fn yield_now() {
    mc::point()
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: UnsafeCell<Vec<mc::TaskId>>,
    failed: UnsafeCell<bool>,
    _s: PhantomData<&'scope mut &'scope ()>,
    _e: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    id: mc::TaskId,
    packet: Arc<Packet<T>>,
    _s: PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        mc::join(self.id);
        take(self.id, &self.packet)
    }
    pub fn is_finished(&self) -> bool {
        mc::is_done(self.id)
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let (id, packet) = start("scoped".into(), f);
        unsafe { (*self.ids.get()).push(id) };
        ScopedJoinHandle { id, packet, _s: PhantomData }
    }
}
struct Wait(*const Vec<mc::TaskId>);
impl Drop for Wait {
    fn drop(&mut self) {
        if !mc::tearing_down() {
            for &i in unsafe { &*self.0 } {
                mc::join(i);
            }
        }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { ids: UnsafeCell::new(vec![]), failed: UnsafeCell::new(false), _s: PhantomData, _e: PhantomData };
    let _ = &s.failed;
    let w = Wait(s.ids.get());
    let r = f(&s);
    drop(w);
    r
}
