//! A `std` whose locks and atomics are scheduling points of the shuttle scheduler.  A crate that
//! says `extern crate perturb as std;` compiles unmodified sources against it; whatever is not
//! overridden here is the real std.
pub use ::std::*;
pub mod thread { pub use ::std::thread::*; pub use shuttle::thread::{spawn, yield_now}; }
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, Condvar};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::fence;
        macro_rules! int { ($($n:ident $t:ty),*) => { $(
            #[derive(Debug, Default)]
            pub struct $n(shuttle::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self { Self(shuttle::sync::atomic::$n::new(v)) }
                pub fn try_update(&self, a: Ordering, b: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.0.fetch_update(a, b, f) }
                pub fn update(&self, a: Ordering, b: Ordering, mut f: impl FnMut($t) -> $t) -> $t { self.0.fetch_update(a, b, |x| Some(f(x))).unwrap() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
            impl ::std::ops::Deref for $n { type Target = shuttle::sync::atomic::$n; fn deref(&self) -> &Self::Target { &self.0 } }
            impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
            impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serde::Serialize::serialize(&self.0.load(Ordering::SeqCst), s) } }
        )* } }
        int!(AtomicIsize isize, AtomicUsize usize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32);
        pub use shuttle::sync::atomic::AtomicBool;
    }
}
