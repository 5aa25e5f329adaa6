//! `parking_lot` on simulated locks.
use simstd::sync::{self, MutexGuard as G};
use std::fmt;
pub type MutexGuard<'a, T> = G<'a, T>;
#[derive(Default)]
pub struct Mutex<T: ?Sized>(sync::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> G<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn try_lock(&self) -> Option<G<'_, T>> {
        self.0.try_lock().ok()
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
#[derive(Default)]
pub struct RwLock<T: ?Sized>(sync::Mutex<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(sync::Mutex::new(t))
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> G<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn write(&self) -> G<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
