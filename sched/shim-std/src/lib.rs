//! Stands in for `std` in the code under test: everything is std's own except threads and synchronisation.
#![allow(clippy::all, deprecated, dead_code, unused)]
pub use ::std::*;

pub mod thread {
    pub use ::std::thread::*;
    use sched_rt as rt;
    use ::std::io;
    use ::std::sync::{Arc, Mutex};

    pub fn yield_now() {
        rt::yield_now()
    }
    pub fn sleep(_: ::std::time::Duration) {
        rt::yield_now()
    }
    pub fn sleep_ms(_: u32) {
        rt::yield_now()
    }

    /// Two threads that run the same function on bitwise equal captures are interchangeable.
    fn class_of<F>(f: &F) -> u64 {
        use ::std::hash::{Hash, Hasher};
        let mut h = ::std::collections::hash_map::DefaultHasher::new();
        ::std::any::type_name::<F>().hash(&mut h);
        let n = ::std::mem::size_of::<F>();
        let p = f as *const F as *const u8;
        for i in 0..n {
            unsafe { ::std::ptr::read_volatile(p.add(i)) }.hash(&mut h);
        }
        h.finish() | 1
    }

    type Slot<T> = Arc<Mutex<Option<::std::thread::Result<T>>>>;

    pub struct JoinHandle<T> {
        inner: ::std::thread::JoinHandle<()>,
        slot: Slot<T>,
        tid: Option<usize>,
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            if let Some(t) = self.tid {
                rt::join_threads(&[t]);
            }
            let _ = self.inner.join();
            let r = self.slot.lock().unwrap().take().unwrap();
            r
        }
        pub fn is_finished(&self) -> bool {
            rt::yield_now();
            self.tid.map(rt::is_finished).unwrap_or_else(|| self.inner.is_finished())
        }
        pub fn thread(&self) -> &Thread {
            self.inner.thread()
        }
    }

    fn body<T>(tid: Option<usize>, slot: Slot<T>, f: impl FnOnce() -> T) {
        let r = match tid {
            Some(t) => rt::run_thread(t, f),
            None => ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)),
        };
        *slot.lock().unwrap() = Some(r);
    }

    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let tid = rt::register_child(class_of(&f));
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let inner = ::std::thread::spawn(move || body(tid, s2, f));
        JoinHandle { inner, slot, tid }
    }

    pub struct Scope<'scope, 'env: 'scope> {
        inner: &'scope ::std::thread::Scope<'scope, 'env>,
        children: Mutex<Vec<usize>>,
        panicked: Arc<::std::sync::atomic::AtomicBool>,
    }
    pub struct ScopedJoinHandle<'scope, T> {
        inner: ::std::thread::ScopedJoinHandle<'scope, ()>,
        slot: Slot<T>,
        tid: Option<usize>,
        joined: Arc<::std::sync::atomic::AtomicBool>,
    }
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> Result<T> {
            if let Some(t) = self.tid {
                rt::join_threads(&[t]);
            }
            self.joined.store(true, ::std::sync::atomic::Ordering::SeqCst);
            let _ = self.inner.join();
            let r = self.slot.lock().unwrap().take().unwrap();
            r
        }
        pub fn is_finished(&self) -> bool {
            rt::yield_now();
            self.tid.map(rt::is_finished).unwrap_or_else(|| self.inner.is_finished())
        }
        pub fn thread(&self) -> &Thread {
            self.inner.thread()
        }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            let tid = rt::register_child(class_of(&f));
            if let Some(t) = tid {
                self.children.lock().unwrap().push(t);
            }
            let slot: Slot<T> = Arc::new(Mutex::new(None));
            let joined = Arc::new(::std::sync::atomic::AtomicBool::new(false));
            let (s2, j2, p2) = (slot.clone(), joined.clone(), self.panicked.clone());
            let inner = self.inner.spawn(move || {
                body(tid, s2.clone(), f);
                // an unjoined panic makes the scope panic
                let failed = matches!(&*s2.lock().unwrap(), Some(Err(_)));
                if failed && !j2.load(::std::sync::atomic::Ordering::SeqCst) {
                    p2.store(true, ::std::sync::atomic::Ordering::SeqCst);
                }
            });
            ScopedJoinHandle { inner, slot, tid, joined }
        }
    }

    pub fn scope<'env, F, T>(f: F) -> T
    where
        F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
    {
        let panicked = Arc::new(::std::sync::atomic::AtomicBool::new(false));
        let r = ::std::thread::scope(|s| {
            let sc = Box::into_raw(Box::new(Scope { inner: unsafe { ::std::mem::transmute(s) }, children: Mutex::new(vec![]), panicked: panicked.clone() }));
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(unsafe { &*sc })));
            let children = unsafe { (*sc).children.lock().unwrap().clone() };
            if !rt::aborting() {
                rt::join_threads(&children);
            }
            r
        });
        match r {
            Err(e) => ::std::panic::resume_unwind(e),
            Ok(_) if panicked.load(::std::sync::atomic::Ordering::SeqCst) => panic!("a scoped thread panicked"),
            Ok(v) => v,
        }
    }

    #[derive(Debug)]
    pub struct Builder {}
    impl Builder {
        pub fn new() -> Builder {
            Builder {}
        }
        pub fn name(self, _: String) -> Builder {
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
        pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            Ok(s.spawn(f))
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        sched_rt::yield_now()
    }
}

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        sched_rt::exit(code)
    }
}

pub mod cell {
    pub use ::std::cell::*;
    use sched_rt as rt;

    pub struct UnsafeCell<T: ?Sized> {
        id: rt::Obj,
        inner: ::std::cell::UnsafeCell<T>,
    }
    impl<T> UnsafeCell<T> {
        pub const fn new(v: T) -> Self {
            UnsafeCell { id: rt::Obj::new(), inner: ::std::cell::UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> UnsafeCell<T> {
        pub fn get(&self) -> *mut T {
            rt::cell_access(&self.id, "cell");
            self.inner.get()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for UnsafeCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for UnsafeCell<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use sched_rt as rt;
    use ::std::cell::UnsafeCell as Raw;
    use ::std::ops::{Deref, DerefMut};

    // ---- Mutex --------------------------------------------------------------------------------------------
    pub struct Mutex<T: ?Sized> {
        raw: rt::lock::RawLock,
        poisoned: ::std::sync::atomic::AtomicBool,
        v: Raw<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        was: bool,
    }
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex { raw: rt::lock::RawLock::new(), poisoned: ::std::sync::atomic::AtomicBool::new(false), v: Raw::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard { m: self, was: ::std::thread::panicking() };
            if self.poisoned.load(::std::sync::atomic::Ordering::SeqCst) {
                Err(PoisonError::new(g))
            } else {
                Ok(g)
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.raw.lock();
            self.guard()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if self.raw.try_lock() {
                Ok(self.guard()?)
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            self.poisoned.load(::std::sync::atomic::Ordering::SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poisoned.store(false, ::std::sync::atomic::Ordering::SeqCst)
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.v.get() }
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.m.v.get() }
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if !self.was && ::std::thread::panicking() {
                self.m.poisoned.store(true, ::std::sync::atomic::Ordering::SeqCst);
            }
            self.m.raw.unlock();
        }
    }

    // ---- Condvar ------------------------------------------------------------------------------------------
    #[derive(Default)]
    pub struct Condvar {
        w: rt::lock::Waiters,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { w: rt::lock::Waiters::new() }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            if !rt::controlled() {
                panic!("condition variable used outside the scheduler");
            }
            self.w.enqueue(true);
            drop(g);
            self.w.block();
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        /// May time out or be woken: the wait ends at any moment, which is a wake-up that was not asked for.
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, Timeout)> {
            let m = g.m;
            drop(g);
            rt::yield_now();
            match m.lock() {
                Ok(g) => Ok((g, Timeout(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), Timeout(true)))),
            }
        }
        pub fn notify_one(&self) {
            self.w.wake(false);
        }
        pub fn notify_all(&self) {
            self.w.wake(true);
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Timeout(bool);
    impl Timeout {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }

    // ---- OnceLock -----------------------------------------------------------------------------------------
    pub struct OnceLock<T> {
        m: Mutex<()>,
        v: Raw<Option<T>>,
    }
    unsafe impl<T: Send> Send for OnceLock<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { m: Mutex::new(()), v: Raw::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            let _g = self.m.lock();
            unsafe { (*self.v.get()).as_ref() }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let _g = self.m.lock();
            let v = unsafe { &mut *self.v.get() };
            if v.is_some() {
                return Err(t);
            }
            *v = Some(t);
            Ok(())
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            let _g = self.m.lock();
            let v = unsafe { &mut *self.v.get() };
            if v.is_none() {
                *v = Some(f());
            }
            unsafe { (*self.v.get()).as_ref().unwrap() }
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.get_mut().take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            OnceLock::new()
        }
    }

    // ---- Barrier ------------------------------------------------------------------------------------------
    pub struct Barrier {
        n: usize,
        m: Mutex<(usize, usize)>,
        c: Condvar,
    }
    pub struct BarrierWaitResult(bool);
    impl BarrierWaitResult {
        pub fn is_leader(&self) -> bool {
            self.0
        }
    }
    impl Barrier {
        pub const fn new(n: usize) -> Self {
            Barrier { n, m: Mutex::new((0, 0)), c: Condvar::new() }
        }
        pub fn wait(&self) -> BarrierWaitResult {
            let mut g = self.m.lock().unwrap();
            let round = g.1;
            g.0 += 1;
            if g.0 >= self.n {
                g.0 = 0;
                g.1 += 1;
                self.c.notify_all();
                return BarrierWaitResult(true);
            }
            while g.1 == round {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        }
    }

    // ---- RwLock -------------------------------------------------------------------------------------------
    pub struct RwLock<T: ?Sized> {
        raw: rt::lock::RawLock,
        v: Raw<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock { raw: rt::lock::RawLock::new(), v: Raw::new(v) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.raw.lock_shared();
            Ok(RwLockReadGuard(self))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.raw.lock();
            Ok(RwLockWriteGuard(self))
        }
    }
    impl<T> RwLock<T> {
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if self.raw.try_lock() {
                Ok(RwLockWriteGuard(self))
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized> ::std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
        fn drop(&mut self) {
            self.0.raw.unlock_shared();
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
        fn drop(&mut self) {
            self.0.raw.unlock();
        }
    }

    // ---- mpsc ---------------------------------------------------------------------------------------------
    pub mod mpsc {
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use sched_rt::chan::{self, Chan, Fail};
        use ::std::sync::Arc;

        pub struct Sender<T>(Arc<Chan<T>>);
        pub struct SyncSender<T>(Arc<Chan<T>>);
        pub struct Receiver<T>(Arc<Chan<T>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(Chan::new(None));
            (Sender(c.clone()), Receiver(c))
        }
        pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
            let c = Arc::new(Chan::new(Some(n)));
            (SyncSender(c.clone()), Receiver(c))
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t).map_err(SendError)
            }
        }
        impl<T> SyncSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t).map_err(SendError)
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                self.0.try_send(t).map_err(|(f, t)| if f == Fail::Disconnected { TrySendError::Disconnected(t) } else { TrySendError::Full(t) })
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                Sender(self.0.clone())
            }
        }
        impl<T> Clone for SyncSender<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                SyncSender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.drop_sender()
            }
        }
        impl<T> Drop for SyncSender<T> {
            fn drop(&mut self) {
                self.0.drop_sender()
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.drop_receiver()
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                self.0.recv().map_err(|_| RecvError)
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                self.0.try_recv().map_err(|f| if f == Fail::Disconnected { TryRecvError::Disconnected } else { TryRecvError::Empty })
            }
            pub fn recv_timeout(&self, _: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
                self.0.recv_timeout().map_err(|f| if f == Fail::Disconnected { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter(self)
            }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for Iter<'a, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        impl<'a, T> IntoIterator for &'a Receiver<T> {
            type Item = T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                Iter(self)
            }
        }
        #[allow(unused_imports)]
        use chan as _;
    }

    // ---- atomics ------------------------------------------------------------------------------------------
    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;
        use ::std::sync::atomic as real;
        use sched_rt as rt;
        use rt::Acc;
        use Ordering::*;

        pub fn fence(o: Ordering) {
            rt::sync_fence(matches!(o, Acquire | AcqRel | SeqCst), matches!(o, Release | AcqRel | SeqCst));
        }
        pub fn compiler_fence(_: Ordering) {}

        fn acq(o: Ordering) -> bool {
            matches!(o, Acquire | AcqRel | SeqCst)
        }
        fn rel(o: Ordering) -> bool {
            matches!(o, Release | AcqRel | SeqCst)
        }

        macro_rules! atomic {
            ($name:ident, $t:ty $(, $g:ident)?) => {
                pub struct $name $(<$g>)? {
                    pub id: rt::Obj,
                    v: real::$name $(<$g>)?,
                }
                impl $(<$g>)? $name $(<$g>)? {
                    pub const fn new(v: $t) -> Self {
                        Self { id: rt::Obj::new(), v: real::$name::new(v) }
                    }
                    /// The value, without a visible operation.
                    pub fn peek(&self) -> $t {
                        self.v.load(SeqCst)
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        rt::point(&self.id, Acc::Read, "load", None);
                        rt::sync_atomic(&self.id, true, false, acq(o), false);
                        self.v.load(SeqCst)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        rt::point(&self.id, Acc::Write, "store", None);
                        rt::sync_atomic(&self.id, false, true, false, rel(o));
                        self.v.store(v, SeqCst)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        rt::point(&self.id, Acc::Write, "swap", None);
                        rt::sync_atomic(&self.id, true, true, acq(o), rel(o));
                        self.v.swap(v, SeqCst)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        rt::point(&self.id, Acc::Write, "compare-exchange", None);
                        let r = self.v.compare_exchange(a, b, SeqCst, SeqCst);
                        match r {
                            Ok(_) => {
                                rt::progress();
                                rt::sync_atomic(&self.id, true, true, acq(s), rel(s))
                            }
                            Err(_) => rt::sync_atomic(&self.id, true, false, acq(f), false),
                        }
                        r
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        rt::point(&self.id, Acc::Write, "fetch-update", None);
                        rt::sync_atomic(&self.id, true, true, acq(s) || acq(f), rel(s));
                        self.v.fetch_update(SeqCst, SeqCst, |x| g(x))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.v.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.v.into_inner()
                    }
                }
                impl $(<$g>)? ::std::fmt::Debug for $name $(<$g>)? {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.v.fmt(f)
                    }
                }
                impl $(<$g>)? From<$t> for $name $(<$g>)? {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! rmw {
            ($name:ident, $t:ty: $($f:ident)*) => {
                impl $name {
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        rt::point(&self.id, Acc::Write, stringify!($f), None);
                        rt::sync_atomic(&self.id, true, true, acq(o), rel(o));
                        self.v.$f(v, SeqCst)
                    })*
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => { $(atomic!($name, $t); rmw!($name, $t: fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);)* };
        }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        atomic!(AtomicBool, bool);
        rmw!(AtomicBool, bool: fetch_and fetch_or fetch_xor fetch_nand);
        atomic!(AtomicPtr, *mut T, T);
    }
}
