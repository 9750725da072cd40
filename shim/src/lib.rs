//! The standard library with its synchronisation (other than reference counts) replaced by loom's, so that loom controls every interleaving of the code compiled against it.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub use loom::sync::{Notify, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use super::mutex::{Condvar, Mutex, MutexGuard};
    pub mod atomic { pub use loom::sync::atomic::*; }
    pub mod mpsc { pub use loom::sync::mpsc::*; }
}
pub mod thread { pub use loom::thread::*; }
pub mod cell { pub use ::std::cell::*; }

/// loom's mutex does not preempt between acquisition and release (nothing another `lock` does can tell), but `try_lock` can tell: that the mutex is held is a variable of its own here.
mod mutex {
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use loom::sync::atomic::{AtomicBool, Ordering::SeqCst};
    #[derive(Debug)]
    pub struct Mutex<T> { m: loom::sync::Mutex<T>, held: AtomicBool }
    pub struct MutexGuard<'a, T> { g: Option<loom::sync::MutexGuard<'a, T>>, held: &'a AtomicBool }
    impl<T> Mutex<T> {
        pub fn new(x: T) -> Self { Self { m: loom::sync::Mutex::new(x), held: AtomicBool::new(false) } }
        fn guard<'a>(&'a self, g: loom::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> { self.held.store(true, SeqCst); MutexGuard { g: Some(g), held: &self.held } }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            match self.m.lock() { Ok(g) => Ok(self.guard(g)), Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))) }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if self.held.load(SeqCst) { return Err(TryLockError::WouldBlock); }
            self.lock().map_err(TryLockError::Poisoned)
        }
        pub fn into_inner(self) -> LockResult<T> { self.m.into_inner() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.m.get_mut() }
    }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
    impl<T> From<T> for Mutex<T> { fn from(x: T) -> Self { Self::new(x) } }
    impl<'a, T> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
    impl<'a, T> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } }
    impl<'a, T> Drop for MutexGuard<'a, T> { fn drop(&mut self) { if self.g.is_some() { self.held.store(false, SeqCst); } } }
    #[derive(Debug, Default)]
    pub struct Condvar(loom::sync::Condvar);
    impl Condvar {
        pub fn new() -> Self { Self(loom::sync::Condvar::new()) }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let held = g.held;
            let inner = g.g.take().unwrap();
            held.store(false, SeqCst);
            let make = |x| { held.store(true, SeqCst); MutexGuard { g: Some(x), held } };
            match self.0.wait(inner) { Ok(x) => Ok(make(x)), Err(e) => Err(PoisonError::new(make(e.into_inner()))) }
        }
        pub fn notify_one(&self) { self.0.notify_one() }
        pub fn notify_all(&self) { self.0.notify_all() }
    }
}
