//! Offline stand-in for tokio-file 0.11, and the harness's I/O monitor point.
//!
//! Each operation is submitted when its future is first polled and is carried out, with
//! pread/pwrite, when it completes: at a later poll, after a number of self-wakes that the
//! device's policy picks.  A registered device records every submission and completion, and
//! its policy may refuse, fail, delay or (for power-fail tests) swallow an operation.
use std::{future::Future, io, marker::PhantomData, os::fd::{AsFd, AsRawFd, RawFd}, pin::Pin, sync::Arc, task::{Context, Poll}};

pub mod monitor {
    /// What is mounted, as far as anybody here knows
    pub mod mounts {
        use std::{any::Any, collections::BTreeMap, sync::{Arc, Mutex}};
        pub struct Mounted { pub fs: Arc<dyn Any + Send + Sync>, pub busy: bool }
        pub static TABLE: Mutex<BTreeMap<String, Mounted>> = Mutex::new(BTreeMap::new());
        /// The errno of the next mount
        pub static FAIL: Mutex<Option<i32>> = Mutex::new(None);
    }
    use std::{collections::HashMap, io, os::{fd::RawFd, unix::fs::MetadataExt}, path::Path,
              sync::{Arc, Mutex, RwLock, atomic::{AtomicBool, AtomicU64, Ordering}, OnceLock}};

    #[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
    pub enum Kind { Read, Write, Sync, Erase }
    #[derive(Clone, Copy, Debug)]
    pub struct Op { pub id: u64, pub kind: Kind, pub off: u64, pub len: u64, /** buffers in it */ pub iovs: usize }
    /// What becomes of an operation
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub enum Action {
        /// Carry it out after being polled this many more times
        Go(u32),
        /// Fail with this errno after this many more polls.  EAGAIN and no polls: the kernel does not take it now,
        /// but it may be polled again, and is then submitted again.
        Fail(i32, u32),
        /// Report success after this many more polls, having done nothing
        Swallow(u32),
    }
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub enum Phase { Submit, Complete }
    #[derive(Clone, Debug)]
    pub struct Event { pub seq: u64, pub phase: Phase, pub op: Op, pub errno: i32, pub data: Option<Arc<Vec<u8>>> }
    pub type Policy = dyn Fn(&Op) -> Action + Send + Sync;

    pub struct Device {
        pub log: Mutex<Vec<Event>>,
        policy: RwLock<Option<Arc<Policy>>>,
        pub keep_events: AtomicBool,
        pub keep_data: AtomicBool,
        pub reads: AtomicU64, pub writes: AtomicU64, pub syncs: AtomicU64, pub erases: AtomicU64,
        pub failures: AtomicU64, pub inflight: AtomicU64, pub max_inflight: AtomicU64,
    }
    impl Device {
        pub fn set_policy<F: Fn(&Op) -> Action + Send + Sync + 'static>(&self, f: F) { *self.policy.write().unwrap() = Some(Arc::new(f)); }
        pub fn clear_policy(&self) { *self.policy.write().unwrap() = None; }
        pub fn take_log(&self) -> Vec<Event> { std::mem::take(&mut *self.log.lock().unwrap()) }
        pub fn ops(&self) -> u64 { self.reads.load(Ordering::Relaxed) + self.writes.load(Ordering::Relaxed) + self.syncs.load(Ordering::Relaxed) }
        pub(crate) fn submit(&self, op: &Op) -> Action {
            let p = self.policy.read().unwrap().clone();
            match op.kind { Kind::Read => &self.reads, Kind::Write => &self.writes, Kind::Sync => &self.syncs, Kind::Erase => &self.erases }
                .fetch_add(1, Ordering::Relaxed);
            let a = p.map(|p| p(op)).unwrap_or(Action::Go(1));
            let n = self.inflight.fetch_add(1, Ordering::Relaxed) + 1;
            self.max_inflight.fetch_max(n, Ordering::Relaxed);
            self.push(Phase::Submit, op, 0, None);
            a
        }
        pub(crate) fn complete(&self, op: &Op, errno: i32, data: Option<Arc<Vec<u8>>>) {
            self.inflight.fetch_sub(1, Ordering::Relaxed);
            if errno != 0 { self.failures.fetch_add(1, Ordering::Relaxed); }
            self.push(Phase::Complete, op, errno, data);
        }
        fn push(&self, phase: Phase, op: &Op, errno: i32, data: Option<Arc<Vec<u8>>>) {
            if self.keep_events.load(Ordering::Relaxed) {
                let mut l = self.log.lock().unwrap();
                l.push(Event { seq: SEQ.fetch_add(1, Ordering::SeqCst), phase, op: *op, errno, data });
            }
        }
        pub(crate) fn keeps_data(&self) -> bool { self.keep_events.load(Ordering::Relaxed) && self.keep_data.load(Ordering::Relaxed) }
    }
    pub static SEQ: AtomicU64 = AtomicU64::new(1);
    static OPID: AtomicU64 = AtomicU64::new(1);
    pub(crate) fn opid() -> u64 { OPID.fetch_add(1, Ordering::Relaxed) }
    fn reg() -> &'static RwLock<HashMap<(u64, u64), Arc<Device>>> { static R: OnceLock<RwLock<HashMap<(u64, u64), Arc<Device>>>> = OnceLock::new(); R.get_or_init(Default::default) }

    /// Watch the device at `path`
    pub fn register(path: &Path) -> io::Result<Arc<Device>> {
        let md = std::fs::metadata(path)?;
        let d = Arc::new(Device { log: Mutex::default(), policy: RwLock::new(None), keep_events: AtomicBool::new(false), keep_data: AtomicBool::new(false),
            reads: 0.into(), writes: 0.into(), syncs: 0.into(), erases: 0.into(), failures: 0.into(), inflight: 0.into(), max_inflight: 0.into() });
        reg().write().unwrap().insert((md.dev(), md.ino()), d.clone());
        Ok(d)
    }
    pub fn unregister(path: &Path) {
        if let Ok(md) = std::fs::metadata(path) { reg().write().unwrap().remove(&(md.dev(), md.ino())); }
    }
    pub(crate) fn lookup(fd: RawFd) -> Option<Arc<Device>> {
        let r = reg().read().unwrap();
        if r.is_empty() { return None; }
        let mut st = std::mem::MaybeUninit::<libc::stat>::uninit();
        if unsafe { libc::fstat(fd, st.as_mut_ptr()) } != 0 { return None; }
        let st = unsafe { st.assume_init() };
        r.get(&(st.st_dev, st.st_ino)).cloned()
    }
    pub const POISON: u8 = 0xdb;
    /// Hole punching: with no registered device, "not supported by this file".
    pub fn erase(fd: RawFd, off: u64, len: u64) -> Result<(), i32> {
        let Some(dev) = lookup(fd) else { return Err(libc::ENODEV) };
        let op = Op { id: opid(), kind: Kind::Erase, off, len, iovs: 0 };
        let r = match dev.submit(&op) {
            Action::Fail(e, _) => Err(e),
            Action::Swallow(_) => Ok(()),
            Action::Go(_) => {
                // Overwrite rather than punch: stale data must not look like zeros.
                let chunk = vec![POISON; 1 << 16];
                let (mut o, end) = (off, off + len);
                // Do not grow the file
                let mut st = std::mem::MaybeUninit::<libc::stat>::uninit();
                let size = if unsafe { libc::fstat(fd, st.as_mut_ptr()) } == 0 { unsafe { st.assume_init() }.st_size as u64 } else { 0 };
                let end = end.min(size);
                while o < end {
                    let n = (end - o).min(chunk.len() as u64) as usize;
                    unsafe { libc::pwrite(fd, chunk.as_ptr().cast(), n, o as i64) };
                    o += n as u64;
                }
                Ok(())
            }
        };
        dev.complete(&op, r.err().unwrap_or(0), None);
        r
    }
}
use monitor::{Action, Device, Kind, Op};

struct Buf { ptr: *mut u8, len: usize }
unsafe impl Send for Buf {}
unsafe impl Sync for Buf {}
enum St { Init, Wait(Action), Done }
struct Core { fd: RawFd, kind: Kind, off: u64, bufs: Vec<Buf>, st: St, dev: Option<Arc<Device>>, op: Op }
impl Core {
    fn new(fd: RawFd, kind: Kind, off: u64, bufs: Vec<Buf>) -> Core {
        let len = bufs.iter().map(|b| b.len as u64).sum();
        let iovs = bufs.len();
        Core { fd, kind, off, bufs, st: St::Init, dev: None, op: Op { id: monitor::opid(), kind, off, len, iovs } }
    }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        if let St::Init = self.st {
            self.dev = monitor::lookup(self.fd);
            let a = match &self.dev { Some(d) => d.submit(&self.op), None => Action::Go(1) };
            if let Action::Fail(libc::EAGAIN, 0) = a {
                if let Some(d) = self.dev.take() { d.complete(&self.op, libc::EAGAIN, None); }
                return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EAGAIN)));
            }
            self.st = St::Wait(a);
        }
        match &mut self.st {
            St::Wait(Action::Go(n) | Action::Fail(_, n) | Action::Swallow(n)) if *n > 0 => { *n -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
            St::Wait(_) => {}
            _ => panic!("polled after completion"),
        }
        let St::Wait(a) = std::mem::replace(&mut self.st, St::Done) else { unreachable!() };
        let r = match a {
            Action::Fail(e, _) => Err(io::Error::from_raw_os_error(e)),
            Action::Swallow(_) => Ok(self.op.len as usize),
            Action::Go(_) => self.go(),
        };
        if let Some(d) = self.dev.take() {
            let data = if self.kind == Kind::Write && r.is_ok() && !matches!(a, Action::Swallow(_)) && d.keeps_data() {
                let mut v = Vec::with_capacity(self.op.len as usize);
                for b in &self.bufs { v.extend_from_slice(unsafe { std::slice::from_raw_parts(b.ptr, b.len) }); }
                Some(Arc::new(v))
            } else { None };
            d.complete(&self.op, r.as_ref().err().and_then(|e| e.raw_os_error()).unwrap_or(0), data);
        }
        Poll::Ready(r)
    }
    fn go(&mut self) -> io::Result<usize> {
        let mut off = self.off; let mut total = 0;
        for b in &self.bufs {
            let mut done = 0;
            while done < b.len {
                let n = unsafe { match self.kind {
                    Kind::Read => libc::pread(self.fd, b.ptr.add(done).cast(), b.len - done, off as i64),
                    _ => libc::pwrite(self.fd, b.ptr.add(done).cast(), b.len - done, off as i64),
                } };
                if n < 0 { return Err(io::Error::last_os_error()); }
                if n == 0 { // end of file
                    unsafe { std::ptr::write_bytes(b.ptr.add(done), 0, b.len - done) };
                    off += (b.len - done) as u64; break;
                }
                done += n as usize; off += n as u64; total += n as usize;
            }
        }
        Ok(total)
    }
}
impl Drop for Core {
    fn drop(&mut self) {
        // Dropped between submission and completion: the kernel would cancel or finish it.
        if let Some(d) = self.dev.take() { d.complete(&self.op, libc::ECANCELED, None); }
    }
}
macro_rules! fut { ($($n:ident -> $o:ty, $m:expr;)*) => { $(
    pub struct $n<'a>(Core, PhantomData<&'a mut [u8]>);
    impl Future for $n<'_> { type Output = io::Result<$o>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { self.0.poll(cx).map(|r| r.map($m)) } }
    impl std::fmt::Debug for $n<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($n)) } }
)* } }
fut! { ReadAt -> usize, |n| n; ReadvAt -> usize, |n| n; WriteAt -> usize, |n| n; WritevAt -> usize, |n| n; SyncAll -> (), |_| (); }

pub trait AioFileExt: AsFd {
    fn read_at<'a>(&self, buf: &'a mut [u8], offset: u64) -> io::Result<ReadAt<'a>> {
        Ok(ReadAt(Core::new(self.as_fd().as_raw_fd(), Kind::Read, offset, vec![Buf { ptr: buf.as_mut_ptr(), len: buf.len() }]), PhantomData))
    }
    fn readv_at<'a>(&self, bufs: &mut [io::IoSliceMut<'a>], offset: u64) -> io::Result<ReadvAt<'a>> {
        let b = bufs.iter_mut().map(|b| Buf { ptr: b.as_mut_ptr(), len: b.len() }).collect();
        Ok(ReadvAt(Core::new(self.as_fd().as_raw_fd(), Kind::Read, offset, b), PhantomData))
    }
    fn write_at<'a>(&self, buf: &'a [u8], offset: u64) -> io::Result<WriteAt<'a>> {
        Ok(WriteAt(Core::new(self.as_fd().as_raw_fd(), Kind::Write, offset, vec![Buf { ptr: buf.as_ptr() as *mut u8, len: buf.len() }]), PhantomData))
    }
    fn writev_at<'a>(&self, bufs: &[io::IoSlice<'a>], offset: u64) -> io::Result<WritevAt<'a>> {
        let b = bufs.iter().map(|b| Buf { ptr: b.as_ptr() as *mut u8, len: b.len() }).collect();
        Ok(WritevAt(Core::new(self.as_fd().as_raw_fd(), Kind::Write, offset, b), PhantomData))
    }
    fn sync_all(&self) -> io::Result<SyncAll<'static>> {
        Ok(SyncAll(Core::new(self.as_fd().as_raw_fd(), Kind::Sync, 0, vec![]), PhantomData))
    }
}
impl<T: AsFd> AioFileExt for T {}
