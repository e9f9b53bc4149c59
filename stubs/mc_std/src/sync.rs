pub use std::sync::*;
use mc_env::sched;
use std::fmt;
use std::ops::{Deref, DerefMut};

fn addr<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    g: Option<std::sync::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::point("mutex.lock");
        if !sched::managed() {
            return match self.0.lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
                Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self })),
            };
        }
        loop {
            match self.try_inner() {
                Err(TryLockError::WouldBlock) => sched::block(addr(self)),
                Err(TryLockError::Poisoned(p)) => return Err(p),
                Ok(g) => return Ok(g),
            }
        }
    }
    fn try_inner(&self) -> TryLockResult<MutexGuard<'_, T>> {
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self })))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point("mutex.try_lock");
        self.try_inner()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        self.g = None;
        sched::wake(addr(self.m));
    }
}

// ------------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    a: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    a: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $tryin:ident, $guard:ident, $name:expr) => {
        pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
            sched::point($name);
            let a = addr(self);
            if !sched::managed() {
                return match self.0.$lock() {
                    Ok(g) => Ok($guard { g: Some(g), a }),
                    Err(e) => Err(PoisonError::new($guard { g: Some(e.into_inner()), a })),
                };
            }
            loop {
                match self.$tryin() {
                    Err(TryLockError::WouldBlock) => sched::block(a),
                    Err(TryLockError::Poisoned(p)) => return Err(p),
                    Ok(g) => return Ok(g),
                }
            }
        }
        fn $tryin(&self) -> TryLockResult<$guard<'_, T>> {
            let a = addr(self);
            match self.0.$try() {
                Ok(g) => Ok($guard { g: Some(g), a }),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(e.into_inner()), a })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            sched::point($name);
            self.$tryin()
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, try_read_inner, RwLockReadGuard, "rwlock.read");
    rw!(write, try_write, try_write_inner, RwLockWriteGuard, "rwlock.write");
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! guard {
    ($guard:ident) => {
        impl<'a, T: ?Sized> Deref for $guard<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.g.as_ref().unwrap()
            }
        }
        impl<'a, T: ?Sized> Drop for $guard<'a, T> {
            fn drop(&mut self) {
                self.g = None;
                sched::wake(self.a);
            }
        }
    };
}
guard!(RwLockReadGuard);
guard!(RwLockWriteGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}

// ------------------------------------------------------------------ Condvar
pub struct Condvar(std::sync::Condvar);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(std::sync::Condvar::new())
    }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = guard.m;
        if sched::managed() {
            drop(guard);
            sched::block(addr(self));
            return m.lock();
        }
        let inner = guard.g.take().unwrap();
        match self.0.wait(inner) {
            Ok(g) => Ok(MutexGuard { g: Some(g), m }),
            Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m })),
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut guard: MutexGuard<'a, T>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        sched::wake_one(addr(self));
        self.0.notify_one()
    }
    pub fn notify_all(&self) {
        sched::wake(addr(self));
        self.0.notify_all()
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}

// ------------------------------------------------------------------ atomics
pub mod atomic {
    use mc_env::sched::point;
    pub use std::sync::atomic::*;
    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(std::sync::atomic::$name::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point("atomic.load");
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point("atomic.store");
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point("atomic.swap");
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point("atomic.cas");
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point("atomic.cas");
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! arith {
        ($name:ident, $t:ty) => {
            atomic!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    point("atomic.add");
                    self.0.fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    point("atomic.sub");
                    self.0.fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    point("atomic.max");
                    self.0.fetch_max(v, o)
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    point("atomic.min");
                    self.0.fetch_min(v, o)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                    point("atomic.update");
                    self.0.fetch_update(o, p, f)
                }
            }
        };
    }
    atomic!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            point("atomic.or");
            self.0.fetch_or(v, o)
        }
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            point("atomic.and");
            self.0.fetch_and(v, o)
        }
    }
    arith!(AtomicUsize, usize);
    arith!(AtomicIsize, isize);
    arith!(AtomicU64, u64);
    arith!(AtomicI64, i64);
    arith!(AtomicU32, u32);
    arith!(AtomicI32, i32);
}
