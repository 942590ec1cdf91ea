//! Stand-in for the crate `fuse3`: the interface between a FUSE server and its session, as of FreeBSD, without any session.
//! The monitor plays the kernel.
use std::{fmt, time::Duration};
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Errno(pub i32);
impl From<i32> for Errno { fn from(e: i32) -> Self { Errno(e) } }
impl From<Errno> for i32 { fn from(e: Errno) -> i32 { e.0 } }
impl fmt::Debug for Errno { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "errno {}", self.0) } }
impl fmt::Display for Errno { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "errno {}", self.0) } }
impl std::error::Error for Errno {}
impl Errno { pub fn is_exist(&self) -> bool { self.0 == 17 } pub fn is_not_exist(&self) -> bool { self.0 == 2 } }
pub type Result<T> = std::result::Result<T, Errno>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FileType { NamedPipe, CharDevice, BlockDevice, Directory, RegularFile, Symlink, Socket }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Timestamp { pub sec: i64, pub nsec: u32 }
impl Timestamp { pub fn new(sec: i64, nsec: u32) -> Self { Timestamp { sec, nsec } } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct SetAttr { pub mode: Option<u16>, pub uid: Option<u32>, pub gid: Option<u32>, pub size: Option<u64>, pub lock_owner: Option<u64>, pub atime: Option<Timestamp>, pub mtime: Option<Timestamp>, pub ctime: Option<Timestamp> }
#[derive(Clone, Debug, Default)]
pub struct MountOptions { pub custom: Vec<std::ffi::OsString>, pub flags: std::collections::BTreeSet<&'static str> }
impl MountOptions {
    fn flag(&mut self, n: &'static str, on: bool) -> &mut Self { if on { self.flags.insert(n); } else { self.flags.remove(n); } self }
    pub fn fs_name(&mut self, _: impl Into<String>) -> &mut Self { self }
    pub fn allow_other(&mut self, b: bool) -> &mut Self { self.flag("allow_other", b) }
    pub fn default_permissions(&mut self, b: bool) -> &mut Self { self.flag("default_permissions", b) }
    pub fn no_open_support(&mut self, b: bool) -> &mut Self { self.flag("no_open_support", b) }
    pub fn no_open_dir_support(&mut self, b: bool) -> &mut Self { self.flag("no_open_dir_support", b) }
    pub fn custom_options(&mut self, o: impl Into<std::ffi::OsString>) -> &mut Self { self.custom.push(o.into()); self }
}
pub mod raw {
    use super::*;
    use futures::Stream;
    use std::{ffi::OsStr, future::Future};
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Request { pub unique: u64, pub uid: u32, pub gid: u32, pub pid: u32 }
    pub mod reply {
        use super::super::*;
        use bytes::Bytes;
        use std::{ffi::OsString, num::NonZeroU32};
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct FileAttr { pub ino: u64, pub size: u64, pub blocks: u64, pub atime: Timestamp, pub mtime: Timestamp, pub ctime: Timestamp, pub kind: FileType, pub perm: u16, pub nlink: u32, pub uid: u32, pub gid: u32, pub rdev: u32, pub blksize: u32 }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyInit { pub max_write: NonZeroU32 }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyEntry { pub ttl: Duration, pub attr: FileAttr, pub generation: u64 }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyAttr { pub ttl: Duration, pub attr: FileAttr }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyCreated { pub ttl: Duration, pub attr: FileAttr, pub generation: u64, pub fh: u64, pub flags: u32 }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ReplyData { pub data: Bytes }
        impl From<Bytes> for ReplyData { fn from(data: Bytes) -> Self { ReplyData { data } } }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct DirectoryEntry { pub inode: u64, pub kind: FileType, pub name: OsString, pub offset: i64 }
        pub struct ReplyDirectory<S> { pub entries: S }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyLSeek { pub offset: u64 }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyStatFs { pub blocks: u64, pub bfree: u64, pub bavail: u64, pub files: u64, pub ffree: u64, pub bsize: u32, pub namelen: u32, pub frsize: u32 }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyWrite { pub written: u32 }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum ReplyXAttr { Size(u32), Data(Bytes) }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct ReplyOpen { pub fh: u64, pub flags: u32 }
    }
    use reply::*;
    /// Mounts into the monitor's table
    pub struct Session { opts: MountOptions }
    /// As the real one does, dropping it unmounts
    #[derive(Debug)]
    pub struct MountHandle(String);
    impl Drop for MountHandle { fn drop(&mut self) { tokio_file::monitor::mounts::TABLE.lock().unwrap().remove(&self.0); } }
    impl Session {
        pub fn new(opts: MountOptions) -> Self { Session { opts } }
        pub fn mount<F: Filesystem + Send + Sync + 'static>(self, fs: F, at: impl AsRef<std::path::Path>) -> impl Future<Output = std::io::Result<MountHandle>> + Send {
            use tokio_file::monitor::mounts;
            let at = at.as_ref().to_str().unwrap().to_string(); let _ = self.opts;
            async move {
                if let Some(e) = mounts::FAIL.lock().unwrap().take() { return Err(std::io::Error::from_raw_os_error(e)); }
                let mut t = mounts::TABLE.lock().unwrap();
                if t.contains_key(&at) { return Err(std::io::Error::from_raw_os_error(16)); }
                t.insert(at.clone(), mounts::Mounted { fs: std::sync::Arc::new(fs), busy: false });
                Ok(MountHandle(at))
            }
        }
    }
    /// What a server answers to the kernel's requests
    #[allow(unused_variables)]
    pub trait Filesystem {
        fn init(&self, req: Request) -> impl Future<Output = Result<ReplyInit>> + Send;
        fn destroy(&self, req: Request) -> impl Future<Output = ()> + Send;
        fn lookup(&self, req: Request, parent: u64, name: &OsStr) -> impl Future<Output = Result<ReplyEntry>> + Send;
        fn forget(&self, req: Request, inode: u64, nlookup: u64) -> impl Future<Output = ()> + Send;
        fn getattr(&self, req: Request, inode: u64, fh: Option<u64>, flags: u32) -> impl Future<Output = Result<ReplyAttr>> + Send;
        fn setattr(&self, req: Request, inode: u64, fh: Option<u64>, set_attr: SetAttr) -> impl Future<Output = Result<ReplyAttr>> + Send;
        fn readlink(&self, req: Request, inode: u64) -> impl Future<Output = Result<ReplyData>> + Send;
        fn symlink(&self, req: Request, parent: u64, name: &OsStr, link: &OsStr) -> impl Future<Output = Result<ReplyEntry>> + Send;
        fn mknod(&self, req: Request, parent: u64, name: &OsStr, mode: u32, rdev: u32) -> impl Future<Output = Result<ReplyEntry>> + Send;
        fn mkdir(&self, req: Request, parent: u64, name: &OsStr, mode: u32, umask: u32) -> impl Future<Output = Result<ReplyEntry>> + Send;
        fn unlink(&self, req: Request, parent: u64, name: &OsStr) -> impl Future<Output = Result<()>> + Send;
        fn rmdir(&self, req: Request, parent: u64, name: &OsStr) -> impl Future<Output = Result<()>> + Send;
        fn rename(&self, req: Request, origin_parent: u64, origin_name: &OsStr, parent: u64, name: &OsStr) -> impl Future<Output = Result<()>> + Send;
        fn link(&self, req: Request, inode: u64, new_parent: u64, new_name: &OsStr) -> impl Future<Output = Result<ReplyEntry>> + Send;
        fn open(&self, req: Request, inode: u64, flags: u32) -> impl Future<Output = Result<ReplyOpen>> + Send { async { Err(78.into()) } }
        fn read(&self, req: Request, inode: u64, fh: u64, offset: u64, size: u32) -> impl Future<Output = Result<ReplyData>> + Send;
        fn write(&self, req: Request, inode: u64, fh: u64, offset: u64, data: &[u8], write_flags: u32, flags: u32) -> impl Future<Output = Result<ReplyWrite>> + Send;
        fn statfs(&self, req: Request, inode: u64) -> impl Future<Output = Result<ReplyStatFs>> + Send;
        fn release(&self, req: Request, inode: u64, fh: u64, flags: u32, lock_owner: u64, flush: bool) -> impl Future<Output = Result<()>> + Send { async { Ok(()) } }
        fn fsync(&self, req: Request, inode: u64, fh: u64, datasync: bool) -> impl Future<Output = Result<()>> + Send;
        fn setxattr(&self, req: Request, inode: u64, name: &OsStr, value: &[u8], flags: u32, position: u32) -> impl Future<Output = Result<()>> + Send;
        fn getxattr(&self, req: Request, inode: u64, name: &OsStr, size: u32) -> impl Future<Output = Result<ReplyXAttr>> + Send;
        fn listxattr(&self, req: Request, inode: u64, size: u32) -> impl Future<Output = Result<ReplyXAttr>> + Send;
        fn removexattr(&self, req: Request, inode: u64, name: &OsStr) -> impl Future<Output = Result<()>> + Send;
        fn flush(&self, req: Request, inode: u64, fh: u64, lock_owner: u64) -> impl Future<Output = Result<()>> + Send { async { Err(78.into()) } }
        fn opendir(&self, req: Request, inode: u64, flags: u32) -> impl Future<Output = Result<ReplyOpen>> + Send { async { Err(78.into()) } }
        fn readdir<'a>(&'a self, req: Request, parent: u64, fh: u64, offset: i64) -> impl Future<Output = Result<ReplyDirectory<impl Stream<Item = Result<DirectoryEntry>> + Send + 'a>>> + Send;
        fn access(&self, req: Request, inode: u64, mask: u32) -> impl Future<Output = Result<()>> + Send { async { Err(78.into()) } }
        fn create(&self, req: Request, parent: u64, name: &OsStr, mode: u32, flags: u32) -> impl Future<Output = Result<ReplyCreated>> + Send;
        fn fallocate(&self, req: Request, inode: u64, fh: u64, offset: u64, length: u64, mode: u32) -> impl Future<Output = Result<()>> + Send;
        fn lseek(&self, req: Request, inode: u64, fh: u64, offset: u64, whence: u32) -> impl Future<Output = Result<ReplyLSeek>> + Send;
    }
}
