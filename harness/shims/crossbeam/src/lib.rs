//! The parts of crossbeam, with scoped threads under the control of the model checker's scheduler.
//! Threads of callers that are not under control behave as those of the original.

pub use crossbeam_channel as channel;
pub use crossbeam_channel::select;
pub use crossbeam_deque as deque;
pub use crossbeam_epoch as epoch;
pub use crossbeam_queue as queue;
pub use crossbeam_utils as utils;
pub use crossbeam_utils::{atomic, sync};
pub use thread::scope;

pub mod thread {
    use crossbeam_utils::thread as real;
    use std::io;
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    pub use std::thread::Result;

    #[repr(transparent)]
    #[derive(Debug)]
    pub struct Scope<'env>(real::Scope<'env>);

    fn wrap<'a, 'env>(scope: &'a real::Scope<'env>) -> &'a Scope<'env> {
        // Scope is a transparent wrapper
        unsafe { &*(scope as *const real::Scope<'env> as *const Scope<'env>) }
    }

    pub fn scope<'env, F, R>(f: F) -> Result<R>
    where
        F: FnOnce(&Scope<'env>) -> R,
    {
        let mark = mcsched::mark();
        real::scope(|s| {
            let r = catch_unwind(AssertUnwindSafe(|| f(wrap(s))));
            // The original waits for all threads here
            mcsched::join_descendants(mark);
            match r {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            }
        })
    }

    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce(&Scope<'env>) -> T,
            F: Send + 'env,
            T: Send + 'env,
        {
            self.builder()
                .spawn(f)
                .expect("failed to spawn scoped thread")
        }

        pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> {
            ScopedThreadBuilder(self.0.builder())
        }
    }

    #[derive(Debug)]
    pub struct ScopedThreadBuilder<'scope, 'env>(real::ScopedThreadBuilder<'scope, 'env>);

    impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
        pub fn name(self, name: String) -> Self {
            Self(self.0.name(name))
        }

        pub fn stack_size(self, size: usize) -> Self {
            Self(self.0.stack_size(size))
        }

        pub fn spawn<F, T>(self, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
        where
            F: FnOnce(&Scope<'env>) -> T,
            F: Send + 'env,
            T: Send + 'env,
        {
            let id = mcsched::pre_spawn();
            let inner = self.0.spawn(move |s| {
                let _registered = mcsched::enter(id);
                f(wrap(s))
            })?;
            mcsched::spawned();
            Ok(ScopedJoinHandle { inner, id })
        }
    }

    #[derive(Debug)]
    pub struct ScopedJoinHandle<'scope, T> {
        inner: real::ScopedJoinHandle<'scope, T>,
        id: Option<usize>,
    }

    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> Result<T> {
            mcsched::join(self.id);
            self.inner.join()
        }

        pub fn thread(&self) -> &std::thread::Thread {
            self.inner.thread()
        }
    }
}
