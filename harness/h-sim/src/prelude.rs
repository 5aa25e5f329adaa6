pub use crate::net::*;
pub use mc::explore::{Bounds, Explorer, Out};
pub use mc::report::{Check, thorough};
pub use mpc_net::{ConnectionStats, Network, bytes::Bytes};
pub use serde_json::json;
pub use std::cell::RefCell;
pub use std::rc::Rc;
pub use std::time::Duration;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
/// The system allocator, noting the largest request made by the current OS thread.
pub struct Watched;
unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|x| x.set(x.get().max(l.size())));
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|x| x.set(x.get().max(l.size())));
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LARGEST.try_with(|x| x.set(x.get().max(n)));
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
/// Largest single allocation of this thread since the last call.
pub fn largest_allocation() -> usize {
    LARGEST.with(|x| x.replace(0))
}

pub fn ms(x: u64) -> Duration {
    Duration::from_millis(x)
}

/// Collects failures of the tasks of one world (the first one counts).
#[derive(Clone, Default)]
pub struct Fails(Rc<RefCell<Option<String>>>);
impl Fails {
    pub fn add(&self, s: impl Into<String>) {
        let mut b = self.0.borrow_mut();
        if b.is_none() {
            *b = Some(s.into());
        }
    }
    pub fn check(&self, ok: bool, s: impl FnOnce() -> String) {
        if !ok {
            self.add(s());
        }
    }
    pub fn get(&self) -> Option<String> {
        self.0.borrow().clone()
    }
    pub fn verdict(&self, ok: &str) -> Result<String, String> {
        match self.get() {
            Some(e) => Err(e),
            None => Ok(ok.into()),
        }
    }
}

/// Runs the closures as tasks and waits for all.
pub fn all(tasks: Vec<Box<dyn FnOnce()>>) {
    let ids: Vec<_> = tasks.into_iter().enumerate().map(|(i, f)| mc::spawn_named(format!("party{i}"), f)).collect();
    for i in ids {
        mc::join(i);
    }
}

/// Payload that identifies sender, receiver, network, sequence number and length.
pub fn payload(net: usize, from: usize, to: usize, seq: usize, len: usize) -> Bytes {
    let tag = [net as u8, from as u8, to as u8, seq as u8];
    let mut x: u32 = 0x9e37 ^ ((net * 31 + from) as u32 * 131 + to as u32 * 17 + seq as u32 * 7 + len as u32);
    let v: Vec<u8> = (0..len)
        .map(|i| {
            if i < 4 {
                tag[i]
            } else {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (x >> 24) as u8
            }
        })
        .collect();
    Bytes::from(v)
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 24 { format!("{b:?}") } else { format!("{} bytes starting {:?}", b.len(), &b[..24]) }
}

/// Default explorer with `dev` deviations and a wall-clock cap.
pub fn explorer(dev: u32, secs: u64) -> Explorer {
    let mut e = Explorer::default();
    e.bounds.deviations = dev;
    e.cfg.delay_bounded = true;
    e.bounds.wall = Duration::from_secs(if thorough() { secs * 20 } else { secs });
    e
}
pub fn explorer_for(t: T, dev: u32, secs: u64) -> Explorer {
    let mut e = explorer(dev, secs);
    if t == T::Tls {
        e.cfg.stack_size = 2 << 20;
        e.cfg.max_steps = 2_000_000;
    }
    e
}
/// Quick or thorough bound.
pub fn q<X>(quick: X, deep: X) -> X {
    if thorough() { deep } else { quick }
}

/// Keeps a value alive until the world is torn down (so that dropping it is not part of the
/// scenario).
pub fn keep<X: 'static>(x: X) {
    #[derive(Default)]
    struct Kept(Vec<Box<dyn std::any::Any>>);
    mc::slot::<Kept>("kept").0.push(Box::new(x));
}
