use rayon_core::control::{active, block, point, wake};
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult, WaitTimeoutResult};
use std::time::Duration;

fn key<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    guard: ManuallyDrop<std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(x: T) -> Self {
        Mutex(std::sync::Mutex::new(x))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, guard: ManuallyDrop::new(guard) }
    }
    fn result<'a>(&'a self, r: LockResult<std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(self.guard(g)),
            Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !active() || std::thread::panicking() {
            return self.result(self.0.lock());
        }
        point();
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(self.guard(g)),
                Err(TryLockError::Poisoned(e)) => return self.result(Err(e)),
                Err(TryLockError::WouldBlock) => block(key(self)),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        match self.0.try_lock() {
            Ok(g) => Ok(self.guard(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(x: T) -> Self {
        Mutex::new(x)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.guard
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.guard
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.guard) };
        wake(key(self.lock));
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(x: T) -> Self {
        RwLock(std::sync::RwLock::new(x))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

macro_rules! rw {
    ($guard:ident, $op:ident, $try:ident) => {
        pub struct $guard<'a, T: ?Sized + 'a> {
            lock: &'a RwLock<T>,
            guard: ManuallyDrop<std::sync::$guard<'a, T>>,
        }
        impl<T: ?Sized> RwLock<T> {
            pub fn $op(&self) -> LockResult<$guard<'_, T>> {
                let guard = |guard| $guard { lock: self, guard: ManuallyDrop::new(guard) };
                if !active() || std::thread::panicking() {
                    return match self.0.$op() {
                        Ok(g) => Ok(guard(g)),
                        Err(e) => Err(PoisonError::new(guard(e.into_inner()))),
                    };
                }
                point();
                loop {
                    match self.0.$try() {
                        Ok(g) => return Ok(guard(g)),
                        Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(guard(e.into_inner()))),
                        Err(TryLockError::WouldBlock) => block(key(self)),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                let guard = |guard| $guard { lock: self, guard: ManuallyDrop::new(guard) };
                point();
                match self.0.$try() {
                    Ok(g) => Ok(guard(g)),
                    Err(TryLockError::Poisoned(e)) => {
                        Err(TryLockError::Poisoned(PoisonError::new(guard(e.into_inner()))))
                    }
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        }
        impl<T: ?Sized> Deref for $guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.guard
            }
        }
        impl<T: ?Sized> Drop for $guard<'_, T> {
            fn drop(&mut self) {
                unsafe { ManuallyDrop::drop(&mut self.guard) };
                wake(key(self.lock));
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rw!(RwLockReadGuard, read, try_read);
rw!(RwLockWriteGuard, write, try_write);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.guard
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(x: T) -> Self {
        RwLock::new(x)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

/// Waits may end for nothing, as those of `std` may.
#[derive(Default, Debug)]
pub struct Condvar(std::sync::Condvar);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(std::sync::Condvar::new())
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        if !active() {
            let mut guard = ManuallyDrop::new(guard);
            let inner = unsafe { ManuallyDrop::take(&mut guard.guard) };
            return lock.result(self.0.wait(inner));
        }
        // No other thread goes on between the two.
        drop(guard);
        block(key(self));
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut guard: MutexGuard<'a, T>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        guard: MutexGuard<'a, T>,
        time: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let lock = guard.lock;
        let active = active();
        let mut guard = ManuallyDrop::new(guard);
        let inner = unsafe { ManuallyDrop::take(&mut guard.guard) };
        if active {
            wake(key(lock));
            rayon_core::control::yield_now();
        }
        // Under control: the time is over at once.
        match self.0.wait_timeout(inner, if active { Duration::from_micros(1) } else { time }) {
            Ok((g, t)) => Ok((lock.guard(g), t)),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((lock.guard(g), t)))
            }
        }
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        point();
        self.0.notify_all();
        wake(key(self));
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}

pub struct OnceLock<T> {
    value: std::sync::OnceLock<T>,
    lock: Mutex<()>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { value: std::sync::OnceLock::new(), lock: Mutex::new(()) }
    }
    pub fn get(&self) -> Option<&T> {
        point();
        self.value.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut()
    }
    pub fn set(&self, x: T) -> Result<(), T> {
        point();
        let _lock = self.lock.lock();
        self.value.set(x)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(x) = self.get() {
            return x;
        }
        let _lock = self.lock.lock();
        if self.value.get().is_none() {
            let _ = self.value.set(f());
        }
        self.value.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.value.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { value: self.value.clone(), lock: Mutex::new(()) }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value.fmt(f)
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    value: OnceLock<T>,
    init: std::sync::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { value: OnceLock::new(), init: std::sync::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.value.get_or_init(|| {
            let f = this.init.lock().unwrap().take().expect("LazyLock poisoned");
            f()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
