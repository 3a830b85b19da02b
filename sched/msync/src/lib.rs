//! Stands in for `std::sync` where a scheduler is in control.
pub use shuttle::sync::*;
pub use shuttle::{thread, thread_local};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::Deref;

/// `std::sync::OnceLock`
pub struct OnceLock<T> {
    once: Once,
    cell: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock {
            once: Once::new(),
            cell: UnsafeCell::new(None),
        }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            unsafe { (*self.cell.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.once.call_once(|| unsafe { *self.cell.get() = v.take() });
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once(|| {
            let v = f();
            unsafe { *self.cell.get() = Some(v) }
        });
        unsafe { (*self.cell.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}

/// `std::sync::LazyLock`
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock {
            cell: OnceLock::new(),
            init: UnsafeCell::new(Some(f)),
        }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| unsafe { (*this.init.get()).take() }.expect("poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
