//! Stands in for `parking_lot`.
#![allow(dead_code)]
use sched_rt::lock::{RawLock, Waiters};
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

macro_rules! guard {
    ($g:ident, $m:ident, $unlock:ident, mutable: $mutable:tt) => {
        pub struct $g<'a, T: ?Sized>(&'a $m<T>, PhantomData<*const ()>);
        impl<'a, T: ?Sized> Deref for $g<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
        guard!(@$mutable $g);
        impl<'a, T: ?Sized> Drop for $g<'a, T> {
            fn drop(&mut self) {
                self.0.raw.$unlock();
            }
        }
    };
    (@yes $g:ident) => {
        impl<'a, T: ?Sized> DerefMut for $g<'a, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.0.v.get() }
            }
        }
    };
    (@no $g:ident) => {};
}
macro_rules! lockable {
    ($m:ident) => {
        pub struct $m<T: ?Sized> {
            raw: RawLock,
            v: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for $m<T> {}
        impl<T> $m<T> {
            pub const fn new(v: T) -> Self {
                $m { raw: RawLock::new(), v: UnsafeCell::new(v) }
            }
            pub fn into_inner(self) -> T {
                self.v.into_inner()
            }
        }
        impl<T: ?Sized> $m<T> {
            pub fn get_mut(&mut self) -> &mut T {
                self.v.get_mut()
            }
        }
        impl<T> From<T> for $m<T> {
            fn from(v: T) -> Self {
                $m::new(v)
            }
        }
        impl<T: Default> Default for $m<T> {
            fn default() -> Self {
                $m::new(T::default())
            }
        }
        impl<T: ?Sized> std::fmt::Debug for $m<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($m))
            }
        }
    };
}
lockable!(Mutex);
lockable!(FairMutex);
lockable!(ReentrantMutex);
lockable!(RwLock);
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for FairMutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for ReentrantMutex<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
guard!(MutexGuard, Mutex, unlock, mutable: yes);
guard!(FairMutexGuard, FairMutex, unlock, mutable: yes);
guard!(ReentrantMutexGuard, ReentrantMutex, unlock, mutable: no);
guard!(RwLockReadGuard, RwLock, unlock_shared, mutable: no);
guard!(RwLockWriteGuard, RwLock, unlock, mutable: yes);

macro_rules! mutex_api {
    ($m:ident, $g:ident) => {
        impl<T: ?Sized> $m<T> {
            pub fn lock(&self) -> $g<'_, T> {
                self.raw.lock();
                $g(self, PhantomData)
            }
            pub fn try_lock(&self) -> Option<$g<'_, T>> {
                self.raw.try_lock().then(|| $g(self, PhantomData))
            }
            pub fn try_lock_for(&self, _: Duration) -> Option<$g<'_, T>> {
                self.try_lock()
            }
            pub fn is_locked(&self) -> bool {
                self.raw.is_locked()
            }
            pub unsafe fn force_unlock(&self) {
                self.raw.unlock()
            }
            pub fn data_ptr(&self) -> *mut T {
                self.v.get()
            }
        }
    };
}
mutex_api!(Mutex, MutexGuard);
mutex_api!(FairMutex, FairMutexGuard);
impl<T: ?Sized> ReentrantMutex<T> {
    pub fn lock(&self) -> ReentrantMutexGuard<'_, T> {
        self.raw.lock_reentrant();
        ReentrantMutexGuard(self, PhantomData)
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock_shared();
        RwLockReadGuard(self, PhantomData)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.lock();
        RwLockWriteGuard(self, PhantomData)
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_lock().then(|| RwLockWriteGuard(self, PhantomData))
    }
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
pub const fn const_reentrant_mutex<T>(v: T) -> ReentrantMutex<T> {
    ReentrantMutex::new(v)
}

#[derive(Default)]
pub struct Condvar {
    w: Waiters,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { w: Waiters::new() }
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.w.enqueue(true);
        g.0.raw.unlock();
        self.w.block();
        g.0.raw.lock();
    }
    pub fn notify_one(&self) -> bool {
        self.w.wake(false);
        true
    }
    pub fn notify_all(&self) -> usize {
        self.w.wake(true);
        0
    }
}
