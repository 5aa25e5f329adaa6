pub use ::std::sync::*;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::time::Duration;

#[derive(Default)]
struct Flag {
    locked: bool,
    poisoned: bool,
}

pub struct Mutex<T: ?Sized> {
    flag: UnsafeCell<Flag>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { flag: UnsafeCell::new(Flag { locked: false, poisoned: false }), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let f = self.flag.get();
        if !mc::tearing_down() {
            mc::point();
            if unsafe { (*f).locked } {
                let p = f as usize;
                mc::block("mutex", None, move || unsafe { !(*(p as *const Flag)).locked });
            }
        }
        unsafe { (*f).locked = true };
        let g = MutexGuard { m: self };
        if unsafe { (*f).poisoned } { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mc::point();
        let f = self.flag.get();
        if unsafe { (*f).locked } {
            return Err(TryLockError::WouldBlock);
        }
        unsafe { (*f).locked = true };
        Ok(MutexGuard { m: self })
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        unsafe { (*self.flag.get()).poisoned }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        let f = self.m.flag.get();
        unsafe {
            (*f).locked = false;
            if ::std::thread::panicking() && !mc::tearing_down() {
                (*f).poisoned = true;
            }
        }
    }
}

#[derive(Default, Debug)]
pub struct Condvar {
    // Generation counters: wake-ups handed out and waiters.
    st: UnsafeCell<(u64, Vec<u64>)>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { st: UnsafeCell::new((0, Vec::new())) }
    }
    fn wait_inner<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Option<Duration>) -> (MutexGuard<'a, T>, bool) {
        let m = g.m;
        let st = self.st.get();
        let me = unsafe {
            (*st).0 += 1;
            let me = (*st).0;
            (*st).1.push(me);
            me
        };
        drop(g);
        let p = st as usize;
        let woken = mc::block("condvar", d, move || unsafe { !(*(p as *const (u64, Vec<u64>))).1.contains(&me) });
        unsafe { (*st).1.retain(|&x| x != me) };
        let g = m.lock().unwrap_or_else(|e| e.into_inner());
        (g, !woken)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        Ok(self.wait_inner(g, None).0)
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait_inner(g, None).0;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        unsafe {
            if !(*self.st.get()).1.is_empty() {
                (*self.st.get()).1.remove(0);
            }
        }
        mc::point();
    }
    pub fn notify_all(&self) {
        unsafe { (*self.st.get()).1.clear() };
        mc::point();
    }
}

/// Readers share, writers exclude.
pub struct RwLock<T: ?Sized> {
    /// Number of readers, or -1 for a writer.
    st: UnsafeCell<isize>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { st: UnsafeCell::new(0), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if !mc::tearing_down() {
            mc::point();
            let p = self.st.get() as usize;
            if unsafe { *(p as *const isize) } < 0 {
                mc::block("rwlock read", None, move || unsafe { *(p as *const isize) >= 0 });
            }
        }
        unsafe { *self.st.get() += 1 };
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if !mc::tearing_down() {
            mc::point();
            let p = self.st.get() as usize;
            if unsafe { *(p as *const isize) } != 0 {
                mc::block("rwlock write", None, move || unsafe { *(p as *const isize) == 0 });
            }
        }
        unsafe { *self.st.get() = -1 };
        Ok(RwLockWriteGuard(self))
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { *self.0.st.get() -= 1 };
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { *self.0.st.get() = 0 };
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

/// As std's; only whether the wait ended by time.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, t) = self.wait_inner(g, Some(d));
        Ok((g, WaitTimeoutResult(t)))
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let until = mc::now() + d;
        while c(&mut *g) {
            let now = mc::now();
            if now >= until {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_inner(g, Some(until - now)).0;
        }
        Ok((g, WaitTimeoutResult(false)))
    }
}

#[derive(Debug)]
pub struct Barrier {
    n: usize,
    st: Mutex<(usize, u64)>,
    cv: Condvar,
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, st: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> bool {
        let mut g = self.st.lock().unwrap();
        let era = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            *g = (0, era + 1);
            drop(g);
            self.cv.notify_all();
            return true;
        }
        while g.1 == era && !mc::tearing_down() {
            g = self.cv.wait(g).unwrap();
        }
        false
    }
}

#[path = "mpsc.rs"]
pub mod mpsc;

/// Atomics; reading and overwriting are scheduling points (read-modify-write operations are
/// indivisible and those used here commute, so they need none).
pub mod atomic {
    pub use ::std::sync::atomic::*;
    macro_rules! atomic {
        ($n:ident, $t:ty, [$($op:ident)*]) => {
            #[derive(Default, Debug)]
            pub struct $n(::std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(::std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    if mc::in_world() { mc::point(); }
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    if mc::in_world() { mc::point(); }
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    if mc::in_world() { mc::point(); }
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    if mc::in_world() { mc::point(); }
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    self.0.fetch_update(s, f, g)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                    self.0.$op(v, o)
                })*
            }
        };
    }
    atomic!(AtomicUsize, usize, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
    atomic!(AtomicU64, u64, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
    atomic!(AtomicU32, u32, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
    atomic!(AtomicIsize, isize, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
    atomic!(AtomicI64, i64, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min]);
    atomic!(AtomicBool, bool, [fetch_and fetch_or fetch_xor]);
}
