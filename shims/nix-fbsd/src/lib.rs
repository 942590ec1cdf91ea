//! nix 0.29 plus the FreeBSD-only calls bfffs-core makes.
pub use real::*;
pub mod mount {
    pub use real::mount::MntFlags;
    /// Nothing is ever mounted here, but in the monitor's table
    pub fn unmount(path: &str, flags: MntFlags) -> real::Result<()> {
        let mut t = tokio_file::monitor::mounts::TABLE.lock().unwrap();
        match t.get(path) {
            None => Err(real::Error::EINVAL),
            Some(m) if m.busy && !flags.contains(MntFlags::MNT_FORCE) => Err(real::Error::EBUSY),
            Some(_) => { let m = t.remove(path); drop(t); drop(m); Ok(()) }
        }
    }
}
/// The server's user is whom the monitor says it is
pub mod unistd {
    pub use real::unistd::*;
    static EUID: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    pub fn monitor_euid(u: u32) { EUID.store(u, std::sync::atomic::Ordering::SeqCst); }
    pub fn geteuid() -> Uid { Uid::from_raw(EUID.load(std::sync::atomic::Ordering::SeqCst)) }
    pub fn getuid() -> Uid { geteuid() }
}
pub mod fcntl {
    pub use real::fcntl::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct OFlag(i32);
    impl OFlag { pub const O_EXLOCK: OFlag = OFlag(0); pub const O_RDWR: OFlag = OFlag(2); pub const O_CREAT: OFlag = OFlag(0o100); }
    impl std::ops::BitOr for OFlag { type Output = OFlag; fn bitor(self, o: OFlag) -> OFlag { OFlag(self.0 | o.0) } }
    pub fn open(path: &std::path::Path, f: OFlag, m: real::sys::stat::Mode) -> real::Result<std::os::fd::RawFd> { real::fcntl::open(path, real::fcntl::OFlag::from_bits_truncate(f.0), m) }
    /// FreeBSD's hole punching.  The harness records it and scribbles over the range, so that
    /// any later read of a range that was erased is seen.
    pub fn fspacectl_all(fd: std::os::fd::RawFd, off: i64, len: i64) -> real::Result<()> {
        tokio_file::monitor::erase(fd, off as u64, len as u64).map_err(real::Error::from_raw)
    }
}
