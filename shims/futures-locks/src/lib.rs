//! Offline stand-in for futures-locks 0.7 (RwLock and Mutex): owned guards, locks that are taken
//! when `read()`/`write()` is called if they are free, readers that are not held up by waiting
//! writers, and writers served before readers when a writer unlocks.
use futures_channel::oneshot;
use futures_core::ready;
use std::{cell::UnsafeCell, collections::VecDeque, fmt, future::Future, ops::{Deref, DerefMut}, pin::Pin, sync::{Arc, Mutex as SMutex},
          task::{Context, Poll}};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct TryLockError;
impl fmt::Display for TryLockError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("try_lock would block") } }
impl std::error::Error for TryLockError {}

#[derive(Default)]
struct State { readers: u32, exclusive: bool, rq: VecDeque<oneshot::Sender<()>>, wq: VecDeque<oneshot::Sender<()>> }
struct Inner<T: ?Sized> { st: SMutex<State>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Inner<T> {}
impl<T: ?Sized> Inner<T> {
    fn unlock_reader(&self) {
        let mut s = self.st.lock().unwrap();
        assert!(s.readers > 0 && !s.exclusive);
        s.readers -= 1;
        if s.readers == 0 {
            while let Some(tx) = s.wq.pop_front() {
                s.exclusive = true;
                if tx.send(()).is_ok() { return; }
                s.exclusive = false;
            }
        }
    }
    fn unlock_writer(&self) {
        let mut s = self.st.lock().unwrap();
        assert!(s.readers == 0 && s.exclusive);
        while let Some(tx) = s.wq.pop_front() { if tx.send(()).is_ok() { return; } }
        s.exclusive = false;
        let q = std::mem::take(&mut s.rq);
        s.readers += q.len() as u32;
        for tx in q { if tx.send(()).is_err() { s.readers -= 1; } }
    }
}

pub struct RwLock<T: ?Sized> { inner: Arc<Inner<T>> }
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { RwLock { inner: self.inner.clone() } } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock { .. }") } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }
pub struct RwLockReadGuard<T: ?Sized> { l: RwLock<T> }
pub struct RwLockWriteGuard<T: ?Sized> { l: RwLock<T> }
impl<T: ?Sized> Deref for RwLockReadGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.inner.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.inner.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.inner.data.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<T> { fn drop(&mut self) { self.l.inner.unlock_reader() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<T> { fn drop(&mut self) { self.l.inner.unlock_writer() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

enum FutState { Acquired, Pending(oneshot::Receiver<()>), Done }
macro_rules! fut { ($n:ident, $g:ident, $unlock:ident) => {
    pub struct $n<T: ?Sized> { st: FutState, l: RwLock<T> }
    impl<T: ?Sized> Future for $n<T> {
        type Output = $g<T>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            match &mut self.st {
                FutState::Acquired => {}
                FutState::Pending(rx) => { ready!(Pin::new(rx).poll(cx)).expect("futures-locks: sender dropped"); }
                FutState::Done => panic!("future polled after completion"),
            }
            self.st = FutState::Done;
            Poll::Ready($g { l: self.l.clone() })
        }
    }
    impl<T: ?Sized> Drop for $n<T> {
        fn drop(&mut self) {
            match &mut self.st {
                FutState::Acquired => self.l.inner.$unlock(),
                FutState::Pending(rx) => { rx.close(); if let Ok(Some(())) = rx.try_recv() { self.l.inner.$unlock() } }
                FutState::Done => {}
            }
        }
    }
    impl<T: ?Sized> fmt::Debug for $n<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($n)) } }
}}
fut!{RwLockReadFut, RwLockReadGuard, unlock_reader}
fut!{RwLockWriteFut, RwLockWriteGuard, unlock_writer}

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self { RwLock { inner: Arc::new(Inner { st: SMutex::default(), data: UnsafeCell::new(t) }) } }
    pub fn try_unwrap(self) -> Result<T, RwLock<T>> {
        Arc::try_unwrap(self.inner).map(|i| i.data.into_inner()).map_err(|inner| RwLock { inner })
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { Arc::get_mut(&mut self.inner).map(|i| i.data.get_mut()) }
    pub fn read(&self) -> RwLockReadFut<T> {
        let mut s = self.inner.st.lock().unwrap();
        let st = if s.exclusive { let (tx, rx) = oneshot::channel(); s.rq.push_back(tx); FutState::Pending(rx) }
                 else { s.readers += 1; FutState::Acquired };
        RwLockReadFut { st, l: self.clone() }
    }
    pub fn write(&self) -> RwLockWriteFut<T> {
        let mut s = self.inner.st.lock().unwrap();
        let st = if s.exclusive || s.readers > 0 { let (tx, rx) = oneshot::channel(); s.wq.push_back(tx); FutState::Pending(rx) }
                 else { s.exclusive = true; FutState::Acquired };
        RwLockWriteFut { st, l: self.clone() }
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.exclusive { Err(TryLockError) } else { s.readers += 1; Ok(RwLockReadGuard { l: self.clone() }) }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.exclusive || s.readers > 0 { Err(TryLockError) } else { s.exclusive = true; Ok(RwLockWriteGuard { l: self.clone() }) }
    }
}
impl<T: 'static + ?Sized> RwLock<T> {
    pub fn with_read<B: Future, F: FnOnce(RwLockReadGuard<T>) -> B>(&self, f: F) -> impl Future<Output = B::Output> + use<T, B, F> {
        let g = self.read(); async move { f(g.await).await }
    }
    pub fn with_write<B: Future, F: FnOnce(RwLockWriteGuard<T>) -> B>(&self, f: F) -> impl Future<Output = B::Output> + use<T, B, F> {
        let g = self.write(); async move { f(g.await).await }
    }
}
