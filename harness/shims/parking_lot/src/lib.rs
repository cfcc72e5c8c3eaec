//! Locks with the interface of parking_lot, under the control of the model checker's scheduler when
//! the calling thread is. As in parking_lot, a writer that waits keeps new readers out (also those
//! that already read), and locks are not reentrant.

use lock_api as api;
use std::sync::{Condvar, Mutex as StdMutex, MutexGuard as StdGuard};

#[derive(Default)]
struct State {
    readers: usize,
    /// A writer has the lock or waits for the readers to leave
    writer: bool,
}

pub struct RawRwLock {
    state: StdMutex<State>,
    changed: Condvar,
}

impl RawRwLock {
    fn state(&self) -> StdGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn at(addr: usize) -> &'static RawRwLock {
        unsafe { &*(addr as *const RawRwLock) }
    }

    fn addr(&self) -> usize {
        self as *const Self as usize
    }

    fn no_writer(addr: usize) -> bool {
        !Self::at(addr).state().writer
    }

    fn no_reader(addr: usize) -> bool {
        Self::at(addr).state().readers == 0
    }
}

unsafe impl api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock {
        state: StdMutex::new(State {
            readers: 0,
            writer: false,
        }),
        changed: Condvar::new(),
    };
    type GuardMarker = api::GuardNoSend;

    fn lock_shared(&self) {
        mcsched::point(mcsched::POINT_LOCK);
        loop {
            if Self::no_writer(self.addr()) || !mcsched::block_until(Self::no_writer, self.addr()) {
                break;
            }
        }
        let mut s = self.state();
        while s.writer {
            s = self.changed.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s.readers += 1;
    }

    fn try_lock_shared(&self) -> bool {
        mcsched::point(mcsched::POINT_LOCK);
        let mut s = self.state();
        if s.writer {
            return false;
        }
        s.readers += 1;
        true
    }

    unsafe fn unlock_shared(&self) {
        {
            let mut s = self.state();
            s.readers -= 1;
        }
        self.changed.notify_all();
        mcsched::point(mcsched::POINT_LOCK);
    }

    fn lock_exclusive(&self) {
        mcsched::point(mcsched::POINT_LOCK);
        loop {
            if Self::no_writer(self.addr()) || !mcsched::block_until(Self::no_writer, self.addr()) {
                break;
            }
        }
        {
            let mut s = self.state();
            while s.writer {
                s = self.changed.wait(s).unwrap_or_else(|e| e.into_inner());
            }
            s.writer = true;
        }
        if !Self::no_reader(self.addr()) {
            mcsched::block_until(Self::no_reader, self.addr());
        }
        let mut s = self.state();
        while s.readers > 0 {
            s = self.changed.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn try_lock_exclusive(&self) -> bool {
        mcsched::point(mcsched::POINT_LOCK);
        let mut s = self.state();
        if s.writer || s.readers > 0 {
            return false;
        }
        s.writer = true;
        true
    }

    unsafe fn unlock_exclusive(&self) {
        self.state().writer = false;
        self.changed.notify_all();
        mcsched::point(mcsched::POINT_LOCK);
    }
}

unsafe impl api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        {
            let mut s = self.state();
            s.writer = false;
            s.readers += 1;
        }
        self.changed.notify_all();
        mcsched::point(mcsched::POINT_LOCK);
    }
}

pub struct RawMutex {
    held: StdMutex<bool>,
    changed: Condvar,
}

impl RawMutex {
    fn held(&self) -> StdGuard<'_, bool> {
        self.held.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn is_free(addr: usize) -> bool {
        !*unsafe { &*(addr as *const RawMutex) }.held()
    }

    fn addr(&self) -> usize {
        self as *const Self as usize
    }
}

unsafe impl api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex {
        held: StdMutex::new(false),
        changed: Condvar::new(),
    };
    type GuardMarker = api::GuardNoSend;

    fn lock(&self) {
        mcsched::point(mcsched::POINT_LOCK);
        loop {
            if Self::is_free(self.addr()) || !mcsched::block_until(Self::is_free, self.addr()) {
                break;
            }
        }
        let mut h = self.held();
        while *h {
            h = self.changed.wait(h).unwrap_or_else(|e| e.into_inner());
        }
        *h = true;
    }

    fn try_lock(&self) -> bool {
        mcsched::point(mcsched::POINT_LOCK);
        let mut h = self.held();
        !std::mem::replace(&mut *h, true)
    }

    unsafe fn unlock(&self) {
        *self.held() = false;
        self.changed.notify_all();
        mcsched::point(mcsched::POINT_LOCK);
    }
}

pub type RwLock<T> = api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = api::MappedMutexGuard<'a, RawMutex, T>;

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    api::RwLock::const_new(<RawRwLock as api::RawRwLock>::INIT, val)
}

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    api::Mutex::const_new(<RawMutex as api::RawMutex>::INIT, val)
}
