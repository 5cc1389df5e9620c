//! Synchronisation primitives that announce each of their operations to a scheduler, before it takes place.
//! A thread that has to wait gives its turn away. Outside of scheduled threads they are the real ones.
#![forbid(unsafe_code)]
use std::cell::Cell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{self as real, LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

pub trait Scheduler: Sync {
    /// Thread `t` is about to perform an operation.
    fn point(&self, t: usize);
    /// Thread `t` can only go on after an operation of another thread.
    fn blocked(&self, t: usize);
}

thread_local! {
    static ME: Cell<Option<(&'static dyn Scheduler, usize)>> = const { Cell::new(None) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
}

/// Puts the calling thread under control of a scheduler.
pub fn enter(s: &'static dyn Scheduler, t: usize) {
    ME.set(Some((s, t)));
}
pub fn leave() {
    ME.set(None);
}
/// The number of operations of the calling thread so far.
pub fn points() -> u64 {
    POINTS.get()
}
fn point() {
    // A thread on its way out has none of this any more.
    let _ = POINTS.try_with(|p| p.set(p.get() + 1));
    if let Ok(Some((s, t))) = ME.try_with(Cell::get) {
        s.point(t);
    }
}
/// True if another thread had its turn, false if the caller must wait by itself.
fn blocked() -> bool {
    match ME.try_with(Cell::get) {
        Ok(Some((s, t))) => {
            s.blocked(t);
            true
        }
        _ => false,
    }
}
pub fn yield_now() {
    if !blocked() {
        std::thread::yield_now();
    }
}
pub fn sleep(d: Duration) {
    if !blocked() {
        std::thread::sleep(d);
    }
}
pub fn spin_loop() {
    if !blocked() {
        std::hint::spin_loop();
    }
}

pub mod atomic {
    use super::point;
    use std::fmt;
    use std::sync::atomic::{self as real, Ordering};
    macro_rules! atomic {
        ($n:ident, $t:ty, [$($op:ident)*]) => {
            #[derive(Default)]
            pub struct $n(real::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(real::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                    point();
                    #[allow(deprecated)]
                    self.0.fetch_update(o, p, f)
                }
                pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                    self.fetch_update(o, p, f)
                }
                $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.$op(v, o)
                })*
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl fmt::Debug for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    atomic!(AtomicBool, bool, [fetch_and fetch_or fetch_xor fetch_nand]);
    impl AtomicBool {
        pub fn fetch_not(&self, o: Ordering) -> bool {
            point();
            self.0.fetch_not(o)
        }
    }
    macro_rules! ints {
        ($($n:ident $t:ty),*) => {
            $(atomic!($n, $t, [fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min]);)*
        };
    }
    ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize);
    ints!(AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
}

fn wrap<G, H>(r: LockResult<G>, f: impl Fn(G) -> H) -> LockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}
fn try_wrap<G, H>(r: TryLockResult<G>, f: impl Fn(G) -> H) -> TryLockResult<H> {
    match r {
        Ok(g) => Ok(f(g)),
        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
}
/// Takes a lock by trying, with other threads having their turns in between.
fn take<G>(attempt: impl Fn() -> TryLockResult<G>, wait: impl Fn() -> LockResult<G>) -> LockResult<G> {
    point();
    loop {
        match attempt() {
            Ok(g) => return Ok(g),
            Err(TryLockError::Poisoned(e)) => return Err(e),
            Err(TryLockError::WouldBlock) => {
                if !blocked() {
                    return wait();
                }
            }
        }
    }
}

macro_rules! guard {
    ($n:ident, $l:ident $($mutable:ident)?) => {
        pub struct $n<'a, T: ?Sized>(real::$n<'a, T>, &'a $l<T>);
        impl<T: ?Sized> Deref for $n<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        $(impl<T: ?Sized> DerefMut for $n<'_, T> {
            fn deref_mut(&$mutable self) -> &mut T {
                &mut self.0
            }
        })?
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
macro_rules! lock {
    ($n:ident) => {
        #[derive(Default)]
        pub struct $n<T: ?Sized>(real::$n<T>);
        impl<T> $n<T> {
            pub const fn new(v: T) -> Self {
                Self(real::$n::new(v))
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.0.into_inner()
            }
        }
        impl<T: ?Sized> $n<T> {
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.0.get_mut()
            }
            pub fn is_poisoned(&self) -> bool {
                point();
                self.0.is_poisoned()
            }
            pub fn clear_poison(&self) {
                point();
                self.0.clear_poison()
            }
        }
        impl<T> From<T> for $n<T> {
            fn from(v: T) -> Self {
                Self::new(v)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}
lock!(Mutex);
guard!(MutexGuard, Mutex mut);
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        wrap(take(|| self.0.try_lock(), || self.0.lock()), |g| MutexGuard(g, self))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        try_wrap(self.0.try_lock(), |g| MutexGuard(g, self))
    }
}
lock!(RwLock);
guard!(RwLockReadGuard, RwLock);
guard!(RwLockWriteGuard, RwLock mut);
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        wrap(take(|| self.0.try_read(), || self.0.read()), |g| RwLockReadGuard(g, self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        wrap(take(|| self.0.try_write(), || self.0.write()), |g| RwLockWriteGuard(g, self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point();
        try_wrap(self.0.try_read(), |g| RwLockReadGuard(g, self))
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point();
        try_wrap(self.0.try_write(), |g| RwLockWriteGuard(g, self))
    }
}

/// Waits wake up at any time, which they may.
#[derive(Default, Debug)]
pub struct Condvar(real::Condvar);
impl Condvar {
    pub const fn new() -> Self {
        Self(real::Condvar::new())
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let MutexGuard(g, m) = g;
        if ME.get().is_none() {
            return wrap(self.0.wait(g), |g| MutexGuard(g, m));
        }
        drop(g);
        blocked();
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        point();
        self.0.notify_one()
    }
    pub fn notify_all(&self) {
        point();
        self.0.notify_all()
    }
}

pub struct OnceLock<T> {
    cell: real::OnceLock<T>,
    busy: Mutex<()>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        Self { cell: real::OnceLock::new(), busy: Mutex::new(()) }
    }
    pub fn get(&self) -> Option<&T> {
        point();
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let _busy = self.busy.lock().unwrap_or_else(PoisonError::into_inner);
        self.cell.set(v)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        point();
        if let Some(v) = self.cell.get() {
            return v;
        }
        let _busy = self.busy.lock().unwrap_or_else(PoisonError::into_inner);
        if self.cell.get().is_none() {
            let _ = self.cell.set(f());
        }
        self.cell.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    value: OnceLock<T>,
    init: real::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        Self { value: OnceLock::new(), init: real::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.value.get_or_init(|| {
            let f = this.init.lock().unwrap_or_else(PoisonError::into_inner).take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value.fmt(f)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Self(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
