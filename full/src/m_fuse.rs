//! The FUSE server under a kernel: vnodes with lookup counts, a name cache, locks as a kernel takes them, several
//! processes' system calls at once, files forgotten in the background.
use crate::{env::*, m_fs::{ensure, opts, Opts, R}};
use bfffs_core::{database::{Database, TreeID}, fs::Fs, property::Property};
use fuse3::{raw::{reply::*, Filesystem, Request}, Errno, FileType, SetAttr, Timestamp};
use futures::{future::join_all, StreamExt};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, ffi::OsStr, os::unix::ffi::OsStrExt, sync::{Arc, Mutex}};
use tokio::sync::{OwnedRwLockReadGuard, OwnedRwLockWriteGuard, RwLock};
use crate::fs::FuseFs;

type Name = Vec<u8>;
#[derive(Clone, Debug)]
struct Node { kind: FileType, perm: u16, uid: u32, gid: u32, rdev: u32, nlink: u32, data: Vec<u8>, link: Vec<u8>, x: BTreeMap<Name, Vec<u8>>, ents: BTreeMap<Name, u64>, parent: u64, mtime: Option<Timestamp>, atime: Option<Timestamp> }
impl Node { fn new(kind: FileType, perm: u16, q: &Request, parent: u64) -> Node { Node { kind, perm, uid: q.uid, gid: q.gid, rdev: 0, nlink: if kind == FileType::Directory { 2 } else { 1 }, data: vec![], link: vec![], x: BTreeMap::new(), ents: BTreeMap::new(), parent, mtime: None, atime: None } } }
#[derive(Default)]
struct Vn { nlookup: u64, refs: usize, lock: Arc<RwLock<()>> }
#[derive(Default)]
struct St { nodes: BTreeMap<u64, Node>, vn: BTreeMap<u64, Vn>, nc: BTreeMap<(u64, Name), u64>, open: Vec<u64>, leaving: BTreeSet<u64>, moving: BTreeSet<u64>, dead: BTreeSet<u64>, n: BTreeMap<&'static str, u64>, log: VecDeque<String>, lost: Vec<String>, running: u64, overlaps: u64 }
struct Kernel { ff: Option<FuseFs>, st: Mutex<St>, mv: tokio::sync::Mutex<()>, names: Vec<Name>, xnames: Vec<Name>, atime: bool, recsize: u8 }
/// Keeps a vnode in memory
struct Ref<'a> { k: &'a Kernel, ino: u64 }
impl Drop for Ref<'_> { fn drop(&mut self) { if let Ok(mut s) = self.k.st.lock() { if let Some(v) = s.vn.get_mut(&self.ino) { v.refs -= 1; } } } }
struct Moved<'a>(&'a Kernel, u64);
impl Drop for Moved<'_> { fn drop(&mut self) { if let Ok(mut s) = self.0.st.lock() { s.moving.remove(&self.1); } } }
const DIR: FileType = FileType::Directory;
const ENOENT: Errno = Errno(libc::ENOENT);
fn os(n: &[u8]) -> &OsStr { OsStr::from_bytes(n) }
fn show(n: &[u8]) -> String { String::from_utf8_lossy(n).into_owned() }
macro_rules! ok { ($key:expr, $r:expr, $($f:tt)*) => { match $r { Ok(x) => x, Err(e) => return Err(("fuse", $key.to_string(), format!("{:?} for {}", e, format!($($f)*)))) } } }
macro_rules! good { ($key:expr, $c:expr, $($f:tt)*) => { ensure!("fuse", $key, $c, $($f)*) } }
impl Kernel {
    fn ff(&self) -> &FuseFs { self.ff.as_ref().unwrap() }
    fn note(&self, what: &'static str, s: String) { if std::env::var("MON_LOG").is_ok() { println!("{what} {s}"); } let mut st = self.st.lock().unwrap(); *st.n.entry(what).or_default() += 1; if st.log.len() > 120 { st.log.pop_front(); } st.log.push_back(format!("{what} {s}")); }
    fn node(&self, ino: u64) -> Option<Node> { self.st.lock().unwrap().nodes.get(&ino).cloned() }
    fn change<T>(&self, ino: u64, f: impl FnOnce(&mut Node) -> T) -> Option<T> { self.st.lock().unwrap().nodes.get_mut(&ino).map(f) }
    fn is_dir(&self, ino: u64) -> bool { self.st.lock().unwrap().nodes.get(&ino).is_some_and(|n| n.kind == DIR) }
    fn lock_of(&self, ino: u64) -> Arc<RwLock<()>> { self.st.lock().unwrap().vn[&ino].lock.clone() }
    async fn sh(&self, r: &Ref<'_>) -> OwnedRwLockReadGuard<()> { self.lock_of(r.ino).read_owned().await }
    async fn ex(&self, r: &Ref<'_>) -> OwnedRwLockWriteGuard<()> { self.lock_of(r.ino).write_owned().await }
    fn get(&self, ino: u64) -> Option<Ref<'_>> { let mut s = self.st.lock().unwrap(); s.vn.get_mut(&ino).map(|v| v.refs += 1)?; Some(Ref { k: self, ino }) }
    /// The kernel has been told of an inode
    fn enter(&self, ino: u64, at: Option<(u64, &[u8])>) -> Ref<'_> {
        let mut s = self.st.lock().unwrap();
        let v = s.vn.entry(ino).or_default(); v.nlookup += 1; v.refs += 1;
        if let Some((d, n)) = at { s.nc.insert((d, n.to_vec()), ino); }
        Ref { k: self, ino }
    }
    /// Compare with what is known for sure while the vnode is locked
    fn same(&self, what: &str, a: &FileAttr, ino: u64) -> R<()> {
        let n = match self.node(ino) { Some(n) => n, None => return Ok(()) };
        good!("an attribute is wrong", (a.ino, a.kind, a.perm, a.uid, a.gid, a.nlink) == (ino, n.kind, n.perm, n.uid, n.gid, n.nlink), "{what}: {a:?} instead of {} {:?} {:o} {}:{} {} links", ino, n.kind, n.perm, n.uid, n.gid, n.nlink);
        if n.kind == FileType::RegularFile { good!("a file has the wrong size", a.size == n.data.len() as u64, "{what}: {} instead of {}", a.size, n.data.len()); }
        if matches!(n.kind, FileType::CharDevice | FileType::BlockDevice) { good!("an attribute is wrong", a.rdev == n.rdev, "{what}: device {} instead of {}", a.rdev, n.rdev); }
        if let Some(t) = n.mtime { good!("a time is wrong", a.mtime == t, "{what}: mtime {:?} instead of {t:?}", a.mtime); }
        if let Some(t) = n.atime { good!("a time is wrong", a.atime == t, "{what}: atime {:?} instead of {t:?}", a.atime); }
        Ok(())
    }
    /// A component of a path, in a locked directory
    async fn find(&self, d: u64, name: &[u8]) -> R<Option<Ref<'_>>> {
        { let mut s = self.st.lock().unwrap(); if let Some(i) = s.nc.get(&(d, name.to_vec())).copied() { if let Some(v) = s.vn.get_mut(&i) { v.refs += 1; drop(s); return Ok(Some(Ref { k: self, ino: i })); } } }
        *self.st.lock().unwrap().n.entry("lookup").or_default() += 1;
        let r = self.ff().lookup(req(0), d, os(name)).await;
        let want = self.st.lock().unwrap().nodes.get(&d).and_then(|n| n.ents.get(name).copied());
        match r {
            Ok(e) => { good!("a name leads to another file", want == Some(e.attr.ino), "{} in {d}: {} instead of {want:?}", show(name), e.attr.ino); let k = self.node(e.attr.ino).map(|n| n.kind);
                good!("an attribute is wrong", k == Some(e.attr.kind), "lookup of {} in {d}: {:?} instead of {k:?}", show(name), e.attr.kind); Ok(Some(self.enter(e.attr.ino, Some((d, name))))) }
            Err(e) => { good!("a name is not found", e == ENOENT && want.is_none(), "{} in {d}: {e:?}, should be {want:?}", show(name)); Ok(None) }
        }
    }
    /// Go down from the root, to a directory or to any file
    async fn walk(&self, r: &Rng, dir: bool) -> R<Ref<'_>> {
        let mut at = self.get(1).unwrap();
        loop {
            if dir && r.chance(2, 5) { return Ok(at); }
            let l = self.sh(&at).await;
            let kids: Vec<Name> = match self.node(at.ino) { Some(n) => n.ents.iter().filter(|(_, i)| !dir || self.is_dir(**i)).map(|(n, _)| n.clone()).collect(), None => { drop(l); at = self.get(1).unwrap(); continue; } };
            if kids.is_empty() { return Ok(at); }
            let n = r.pick(&kids).clone();
            let Some(next) = self.find(at.ino, &n).await? else { return Ok(at) };
            drop(l); at = next;
            if !self.is_dir(at.ino) { return Ok(at); }
        }
    }
    /// Go down from the root to that directory
    async fn reach(&self, ino: u64) -> R<Ref<'_>> {
        let way: Vec<u64> = { let s = self.st.lock().unwrap(); let mut v = vec![]; let mut i = ino; while i != 1 { v.push(i); match s.nodes.get(&i) { Some(n) => i = n.parent, None => { v.clear(); break; } } } v };
        let mut at = self.get(1).unwrap();
        for i in way.iter().rev() {
            let l = self.sh(&at).await;
            let Some(n) = self.node(at.ino).and_then(|n| n.ents.iter().find(|e| e.1 == i).map(|e| e.0.clone())) else { drop(l); return Ok(at) };
            let Some(next) = self.find(at.ino, &n).await? else { drop(l); return Ok(at) };
            drop(l); at = next;
        }
        Ok(at)
    }
    async fn mk(&self, r: &Rng) -> R<()> {
        let d = self.walk(r, true).await?; let name = r.pick(&self.names).clone();
        let _l = self.ex(&d).await; if !self.is_dir(d.ino) { return Ok(()); }
        if self.find(d.ino, &name).await?.is_some() { return Ok(()); }
        let q = req(r.below(3) as u32 * 100); let perm = r.below(if r.chance(1, 3) { 0o10000 } else { 0o1000 }) as u16; let m = perm as u32; let n = os(&name);
        let (what, kind) = [("create", FileType::RegularFile), ("create", FileType::RegularFile), ("create", FileType::RegularFile), ("mkdir", DIR), ("mkdir", DIR), ("symlink", FileType::Symlink), ("mknod", FileType::NamedPipe), ("mknod", FileType::Socket), ("mknod", FileType::CharDevice), ("mknod", FileType::BlockDevice)][r.usize(10)];
        let mut node = Node::new(kind, perm, &q, d.ino);
        self.note(what, format!("{} in {}, {kind:?} {perm:o}", show(&name), d.ino));
        let a = match kind {
            FileType::RegularFile => ok!("create", self.ff().create(q, d.ino, n, m | libc::S_IFREG as u32, 2).await, "{} in {}", show(&name), d.ino).attr,
            FileType::Directory => ok!("mkdir", self.ff().mkdir(q, d.ino, n, m, 0o22).await, "{} in {}", show(&name), d.ino).attr,
            FileType::Symlink => { node.perm = 0o755; let len = 1 + r.usize(300); node.link = r.bytes(len).iter().map(|b| b'a' + b % 26).collect(); ok!("symlink", self.ff().symlink(q, d.ino, n, os(&node.link)).await, "{} in {}", show(&name), d.ino).attr }
            k => { let t = match k { FileType::NamedPipe => libc::S_IFIFO, FileType::Socket => libc::S_IFSOCK, FileType::CharDevice => libc::S_IFCHR, _ => libc::S_IFBLK } as u32; let dev = if t == libc::S_IFCHR as u32 || t == libc::S_IFBLK as u32 { r.below(1 << 16) as u32 } else { 0 }; node.rdev = dev; ok!("mknod", self.ff().mknod(q, d.ino, n, t | m, dev).await, "{} in {}", show(&name), d.ino).attr }
        };
        good!("an inode number was used before", self.node(a.ino).is_none() && self.get(a.ino).is_none(), "{} for {} in {}", a.ino, show(&name), d.ino);
        { let mut s = self.st.lock().unwrap(); s.nodes.insert(a.ino, node); let p = s.nodes.get_mut(&d.ino).unwrap(); p.ents.insert(name.clone(), a.ino); p.mtime = None; if kind == DIR { p.nlink += 1; } }
        let me = self.enter(a.ino, Some((d.ino, &name)));
        self.same(what, &a, a.ino)?;
        if kind == FileType::RegularFile && r.chance(1, 3) { self.open(me); }
        Ok(())
    }
    fn open(&self, r: Ref<'_>) { self.st.lock().unwrap().open.push(r.ino); std::mem::forget(r); }
    fn close(&self, r: &Rng) -> Option<()> { let mut s = self.st.lock().unwrap(); if s.open.is_empty() { return None; } let i = r.usize(s.open.len()); let ino = s.open.swap_remove(i); if let Some(v) = s.vn.get_mut(&ino) { v.refs -= 1; } Some(()) }
    async fn link(&self, r: &Rng) -> R<()> {
        let f = self.walk(r, false).await?; if self.is_dir(f.ino) { return Ok(()); }
        let d = self.walk(r, true).await?; let name = r.pick(&self.names).clone();
        let _l = self.ex(&d).await; let _m = self.ex(&f).await;
        if !self.is_dir(d.ino) || self.node(f.ino).is_none_or(|n| n.nlink == 0) || self.find(d.ino, &name).await?.is_some() { return Ok(()); }
        self.note("link", format!("{} to {} in {}", f.ino, show(&name), d.ino));
        let e = ok!("link", self.ff().link(req(0), f.ino, d.ino, os(&name)).await, "{} to {} in {}", f.ino, show(&name), d.ino);
        { let mut s = self.st.lock().unwrap(); s.nodes.get_mut(&f.ino).unwrap().nlink += 1; let p = s.nodes.get_mut(&d.ino).unwrap(); p.ents.insert(name.clone(), f.ino); p.mtime = None; if r.chance(1, 2) { s.nc.insert((d.ino, name), f.ino); } }
        self.same("link", &e.attr, f.ino)
    }
    /// A name is no more
    fn gone(&self, d: u64, name: &[u8], ino: u64) { let mut s = self.st.lock().unwrap(); s.nc.remove(&(d, name.to_vec())); let p = s.nodes.get_mut(&d).unwrap(); if p.ents.get(name) == Some(&ino) { p.ents.remove(name); } p.mtime = None; let c = s.nodes.get_mut(&ino).unwrap(); if c.kind == DIR { s.nodes.remove(&ino); s.nodes.get_mut(&d).unwrap().nlink -= 1; s.nc.retain(|k, _| k.0 != ino); } else { c.nlink -= 1; } }
    async fn rm(&self, r: &Rng) -> R<()> {
        let d = self.walk(r, true).await?;
        let _l = self.ex(&d).await;
        let Some(dn) = self.node(d.ino) else { return Ok(()) };
        let name = if dn.ents.is_empty() || r.chance(1, 5) { r.pick(&self.names).clone() } else { let v: Vec<_> = dn.ents.keys().collect(); (*r.pick(&v)).clone() };
        let Some(c) = self.find(d.ino, &name).await? else { return Ok(()) };
        let _m = self.ex(&c).await;
        let Some(cn) = self.node(c.ino) else { return Ok(()) };
        let dir = cn.kind == DIR;
        self.note(if dir { "rmdir" } else { "unlink" }, format!("{} in {}, {}, used by {}", show(&name), d.ino, c.ino, self.st.lock().unwrap().vn[&c.ino].refs - 1));
        let x = if dir { self.ff().rmdir(req(0), d.ino, os(&name)).await } else { self.ff().unlink(req(0), d.ino, os(&name)).await };
        if dir && !cn.ents.is_empty() { good!("rmdir", x == Err(Errno(libc::ENOTEMPTY)), "{x:?} of {} in {}, which is not empty", show(&name), d.ino); return Ok(()); }
        good!("a name cannot be removed", x == Ok(()), "{x:?} for {} in {}", show(&name), d.ino);
        self.gone(d.ino, &name, c.ino); Ok(())
    }
    async fn rename(&self, r: &Rng) -> R<()> {
        // a process may be at work in a directory whose ancestors are not in memory
        let far = if r.chance(1, 3) { self.vget(r, true).await? } else { None };
        let mut top = None;
        let (a, b) = match far {
            Some(b) => {
                let up: Vec<u64> = { let s = self.st.lock().unwrap(); let mut v = vec![]; let mut i = b.ino; while let Some(n) = s.nodes.get(&i) { if i == 1 { break; } i = n.parent; v.push(i); } v };
                let k = r.usize(up.len().max(1)); if up.len() > 1 { top = Some(up[k.min(up.len() - 2)]); }
                let a = match top { Some(t) => { let p = self.node(t).map(|n| n.parent); match p { Some(p) => self.reach(p).await?, None => return Ok(()) } }, None => self.walk(r, true).await? }; (a, b)
            }
            None => (self.walk(r, true).await?, self.walk(r, true).await?),
        };
        let _mv = self.mv.lock().await;
        let depth = |mut i: u64| { let s = self.st.lock().unwrap(); let mut n = 0; while i != 1 { i = s.nodes.get(&i)?.parent; n += 1; } Some(n) };
        let (Some(da), Some(db)) = (depth(a.ino), depth(b.ino)) else { return Ok(()) };
        let first = if (da, a.ino) <= (db, b.ino) { &a } else { &b }; let second = if (da, a.ino) <= (db, b.ino) { &b } else { &a };
        let _l = self.ex(first).await; let _m = if a.ino != b.ino { Some(self.ex(second).await) } else { None };
        let (Some(an), Some(bn)) = (self.node(a.ino), self.node(b.ino)) else { return Ok(()) };
        if an.ents.is_empty() { return Ok(()); }
        let name = match top.and_then(|t| an.ents.iter().find(|e| *e.1 == t)) { Some(e) => e.0.clone(), None => { let v: Vec<_> = an.ents.keys().collect(); (*r.pick(&v)).clone() } };
        let new = if bn.ents.is_empty() || r.chance(1, 2) { r.pick(&self.names).clone() } else { let v: Vec<_> = bn.ents.keys().collect(); (*r.pick(&v)).clone() };
        let Some(src) = self.find(a.ino, &name).await? else { return Ok(()) };
        let dst = self.find(b.ino, &new).await?;
        // what a kernel sees to itself
        if src.ino == b.ino || dst.as_ref().is_some_and(|x| x.ino == src.ino || self.is_dir(x.ino) != self.is_dir(src.ino)) { return Ok(()); }
        let held = match &dst { Some(x) if x.ino != a.ino && x.ino != b.ino => match self.lock_of(x.ino).try_write_owned() { Ok(g) => Some(g), Err(_) => return Ok(()) }, _ => None };
        let cycle = { let s = self.st.lock().unwrap(); let mut i = b.ino; loop { if i == src.ino { break true; } if i == 1 { break false; } i = s.nodes[&i].parent; } };
        let full = dst.as_ref().is_some_and(|x| self.node(x.ino).is_some_and(|n| !n.ents.is_empty()));
        let used = dst.as_ref().map(|x| self.st.lock().unwrap().vn[&x.ino].refs - 1);
        self.note("rename", format!("{} in {} ({}) to {} in {} ({:?}, used by {used:?})", show(&name), a.ino, src.ino, show(&new), b.ino, dst.as_ref().map(|x| x.ino)));
        self.st.lock().unwrap().moving.insert(src.ino);
        let x = self.ff().rename(req(0), a.ino, os(&name), b.ino, os(&new)).await;
        let _moved = Moved(self, src.ino);
        if cycle { *self.st.lock().unwrap().n.entry("renames into themselves").or_default() += 1; }
        if cycle || full { good!("rename", x == Err(Errno(libc::EINVAL)) && cycle || x == Err(Errno(libc::ENOTEMPTY)) && full, "{x:?}: {}", if cycle { "a directory into itself" } else { "over a directory that is not empty" }); return Ok(()); }
        good!("rename", x == Ok(()), "{x:?}: {} in {} to {} in {}", show(&name), a.ino, show(&new), b.ino);
        if let Some(t) = &dst { self.gone(b.ino, &new, t.ino); }
        { let mut s = self.st.lock().unwrap(); s.nc.remove(&(a.ino, name.clone())); let dir = s.nodes[&src.ino].kind == DIR;
            let p = s.nodes.get_mut(&a.ino).unwrap(); p.ents.remove(&name); p.mtime = None; if dir { p.nlink -= 1; }
            let p = s.nodes.get_mut(&b.ino).unwrap(); p.ents.insert(new.clone(), src.ino); p.mtime = None; if dir { p.nlink += 1; }
            s.nodes.get_mut(&src.ino).unwrap().parent = b.ino; if r.chance(1, 2) { s.nc.insert((b.ino, new.clone()), src.ino); } }
        if let Some(t) = &dst { if self.node(t.ino).is_some_and(|n| n.nlink == 0) {
            // somebody still uses it: see known-findings.txt
            let e = self.ff().getattr(req(0), t.ino, None, 0).await.map(|x| x.attr.size);
            let want = self.node(t.ino).unwrap().data.len() as u64;
            let reg = self.node(t.ino).unwrap().kind == FileType::RegularFile;
            if e == Err(ENOENT) { let mut s = self.st.lock().unwrap(); s.nodes.remove(&t.ino); if used > Some(0) { s.lost.push(format!("{e:?} instead of its size, {want}: {} was renamed to {} over it", show(&name), show(&new))); } }
            else if reg { good!("an attribute is wrong", e == Ok(want), "{e:?} instead of size {want}, of a file that was renamed over"); }
        } }
        drop(held); Ok(())
    }
    /// An open file, or one found by its name
    async fn some(&self, r: &Rng) -> R<Ref<'_>> { let o = { let s = self.st.lock().unwrap(); if s.open.is_empty() || r.chance(1, 2) { None } else { Some(*r.pick(&s.open)) } }; match o.and_then(|o| self.get(o)) { Some(x) => Ok(x), None => self.walk(r, false).await } }
    async fn look(&self, f: &Ref<'_>) -> R<()> { let a = ok!("getattr", self.ff().getattr(req(0), f.ino, None, 0).await, "{}", f.ino); self.same("getattr", &a.attr, f.ino) }
    async fn io(&self, r: &Rng) -> R<()> {
        let f = self.some(r).await?; let Some(kind) = self.node(f.ino).map(|n| n.kind) else { return Ok(()) };
        if kind == FileType::Symlink { let _l = self.sh(&f).await; let Some(n) = self.node(f.ino) else { return Ok(()) }; let t = ok!("readlink", self.ff().readlink(req(0), f.ino).await, "{}", f.ino); good!("a symbolic link leads elsewhere", t.data[..] == n.link[..], "{} instead of {}", show(&t.data), show(&n.link)); return Ok(()); }
        if kind != FileType::RegularFile { return Ok(()); }
        let max = 200_000u64; let offs = if r.chance(1, 2) { r.below(max) } else { r.below(50) << 12 }; let len = if r.chance(1, 2) { 1 + r.below(30_000) } else { (1 + r.below(8)) << 12 };
        match r.below(12) {
            0..=3 => {
                let _l = self.ex(&f).await; if self.node(f.ino).is_none() { return Ok(()); }
                // a full file system is not what this is about
                let s = ok!("statfs", self.ff().statfs(req(0), 1).await, "1"); if s.bavail * 2 < s.blocks { *self.st.lock().unwrap().n.entry("writes left out for want of space").or_default() += 1; return Ok(()); }
                let len = if r.chance(1, 12) { ((150 + r.below(300)) << self.recsize).min(1 << 20) } else { len };
                let d = r.bytes(len as usize); self.note("write", format!("{} at {offs} of {}", len, f.ino));
                if r.chance(1, 20) { let _ = self.ff().getattr(req(0), f.ino, None, 0).await; }
                let w = ok!("write", self.ff().write(req(0), f.ino, 0, offs, &d, 0, 2).await, "{}", f.ino); good!("write", w.written as u64 == len, "{} of {len} bytes", w.written);
                self.change(f.ino, |n| { let e = (offs + len) as usize; if n.data.len() < e { n.data.resize(e, 0); } n.data[offs as usize..e].copy_from_slice(&d); n.mtime = None; });
                if r.chance(1, 3) { self.look(&f).await?; }
            }
            4..=7 => {
                let _l = self.sh(&f).await; let Some(n) = self.node(f.ino) else { return Ok(()) };
                self.note("read", format!("{len} at {offs} of {}", f.ino)); if self.atime { self.change(f.ino, |n| n.atime = None); }
                let got = ok!("read", self.ff().read(req(0), f.ino, 0, offs, len as u32).await, "{}", f.ino).data;
                let size = n.data.len(); let want = &n.data[(offs as usize).min(size)..((offs + len) as usize).min(size)];
                good!("a file reads back differently", got[..] == *want, "{} bytes at {offs} of {}, of size {size}: {} bytes, first difference at {:?}", len, f.ino, got.len(), got.iter().zip(want).position(|(a, b)| a != b));
            }
            8 => {
                let _l = self.ex(&f).await; let Some(n) = self.node(f.ino) else { return Ok(()) };
                if r.chance(1, 4) { let x = self.ff().fallocate(req(0), f.ino, 0, offs, len, *r.pick(&[0u32, 1, 2, 0x10])).await; good!("fallocate", x == Err(Errno(libc::EOPNOTSUPP)), "{x:?}"); return Ok(()); }
                self.note("punch", format!("{len} at {offs} of {}", f.ino));
                ok!("fallocate", self.ff().fallocate(req(0), f.ino, 0, offs, len, 3).await, "{} bytes at {offs} of {}, of size {}", len, f.ino, n.data.len());
                self.change(f.ino, |n| { let s = n.data.len(); let (a, b) = ((offs as usize).min(s), ((offs + len) as usize).min(s)); n.data[a..b].fill(0); n.mtime = None; });
                self.look(&f).await?;
            }
            9 | 10 => {
                let _l = self.sh(&f).await; let Some(n) = self.node(f.ino) else { return Ok(()) };
                let hole = r.chance(1, 2); let x = self.ff().lseek(req(0), f.ino, 0, offs, if hole { libc::SEEK_HOLE } else { libc::SEEK_DATA } as u32).await; let size = n.data.len() as u64;
                *self.st.lock().unwrap().n.entry("lseek").or_default() += 1;
                match x {
                    Ok(p) if hole => good!("lseek", offs <= size && p.offset >= offs && p.offset <= size && (p.offset == size || n.data[p.offset as usize] == 0), "hole after {offs} at {}, size {size}", p.offset),
                    Ok(p) => good!("lseek", p.offset >= offs && p.offset < size && n.data[offs as usize..p.offset as usize].iter().all(|b| *b == 0), "data after {offs} at {}, size {size}", p.offset),
                    Err(e) => good!("lseek", e == Errno(libc::ENXIO) && (offs >= size || !hole && n.data[offs as usize..].iter().all(|b| *b == 0)), "{e:?} at {offs} of {size}, for {}", if hole { "a hole" } else { "data" }),
                }
            }
            _ => { if self.get(f.ino).is_some() && r.chance(1, 2) { self.note("open", f.ino.to_string()); let l = self.sh(&f).await; if self.node(f.ino).is_some() { drop(l); self.open(f); } } else { self.note("fsync", f.ino.to_string()); ok!("fsync", self.ff().fsync(req(0), f.ino, 0, false).await, "{}", f.ino); } }
        }
        Ok(())
    }
    async fn attrs(&self, r: &Rng) -> R<()> {
        let f = self.some(r).await?;
        if r.chance(1, 2) { let _l = self.sh(&f).await; if self.node(f.ino).is_some() { *self.st.lock().unwrap().n.entry("getattr").or_default() += 1; self.look(&f).await?; } return Ok(()); }
        let _l = self.ex(&f).await; let Some(n) = self.node(f.ino) else { return Ok(()) };
        let ts = |r: &Rng| Timestamp::new(r.below(2_000_000_000) as i64 - 1000, r.below(1_000_000_000) as u32);
        let mut a = SetAttr::default();
        if r.chance(1, 3) { a.mode = Some(r.below(if r.chance(1, 3) { 0o10000 } else { 0o1000 }) as u16 | if r.chance(1, 2) { libc::S_IFREG as u16 } else { 0 }); }
        if r.chance(1, 4) { a.uid = Some(r.below(1 << 31) as u32); } if r.chance(1, 4) { a.gid = Some(r.below(1 << 31) as u32); }
        if r.chance(1, 4) { a.mtime = Some(ts(r)); } if r.chance(1, 4) { a.atime = Some(ts(r)); }
        if n.kind == FileType::RegularFile && r.chance(1, 3) { a.size = Some(r.below(200_000)); }
        self.note("setattr", format!("{} {a:?}", f.ino));
        let x = ok!("setattr", self.ff().setattr(req(0), f.ino, None, a).await, "{} {a:?}", f.ino);
        self.change(f.ino, |n| { if let Some(m) = a.mode { n.perm = m & 0o7777; } if let Some(u) = a.uid { n.uid = u; } if let Some(g) = a.gid { n.gid = g; }
            if let Some(s) = a.size { n.data.resize(s as usize, 0); n.mtime = None; } if a.mtime.is_some() { n.mtime = a.mtime; } if a.atime.is_some() { n.atime = a.atime; } });
        self.same("setattr", &x.attr, f.ino)
    }
    async fn xattrs(&self, r: &Rng) -> R<()> {
        let f = self.some(r).await?; let name = r.pick(&self.xnames).clone(); let n = os(&name);
        match r.below(8) {
            0..=2 => { let _l = self.ex(&f).await; if self.node(f.ino).is_none() { return Ok(()); } let len = *r.pick(&[0usize, 1, 30, 300, 3000, 9000]); let v = r.bytes(len);
                self.note("setxattr", format!("{} of {}, {} bytes", show(&name), f.ino, v.len()));
                ok!("setxattr", self.ff().setxattr(req(0), f.ino, n, &v, 0, 0).await, "{} of {}", show(&name), f.ino); self.change(f.ino, |m| m.x.insert(name.clone(), v)); }
            3 => { let _l = self.ex(&f).await; let Some(m) = self.node(f.ino) else { return Ok(()) }; self.note("removexattr", format!("{} of {}", show(&name), f.ino)); let x = self.ff().removexattr(req(0), f.ino, n).await;
                let want = if m.x.contains_key(&name) { Ok(()) } else { Err(Errno(libc::ENOATTR)) }; good!("removexattr", x == want, "{} of {}: {x:?} instead of {want:?}", show(&name), f.ino); self.change(f.ino, |m| m.x.remove(&name)); }
            4..=5 => { let _l = self.sh(&f).await; let Some(m) = self.node(f.ino) else { return Ok(()) }; let size = *r.pick(&[0u32, 1, 29, 30, 3000, 65536]); let x = self.ff().getxattr(req(0), f.ino, n, size).await;
                *self.st.lock().unwrap().n.entry("getxattr").or_default() += 1;
                let want = match m.x.get(&name) { None => Err(Errno(libc::ENOATTR)), Some(v) if size == 0 => Ok(ReplyXAttr::Size(v.len() as u32)), Some(v) if v.len() > size as usize => Err(Errno(libc::ERANGE)), Some(v) => Ok(ReplyXAttr::Data(v.clone().into())) };
                good!("an extended attribute has another value", x == want, "{} of {}, size {size}: {} instead of {}", show(&name), f.ino, cut(&x), cut(&want)); }
            _ => { let _l = self.sh(&f).await; self.list(&f, r).await?; }
        }
        Ok(())
    }
    async fn list(&self, f: &Ref<'_>, r: &Rng) -> R<()> {
        let Some(m) = self.node(f.ino) else { return Ok(()) }; let len: usize = m.x.keys().map(|k| k.len() + 1).sum();
        *self.st.lock().unwrap().n.entry("listxattr").or_default() += 1;
        let s = ok!("listxattr", self.ff().listxattr(req(0), f.ino, 0).await, "{}", f.ino); good!("the list of extended attributes is wrong", s == ReplyXAttr::Size(len as u32), "{s:?} instead of {len} bytes");
        if len == 0 { return Ok(()); }
        if r.chance(1, 4) { let x = self.ff().listxattr(req(0), f.ino, len as u32 - 1).await; good!("the list of extended attributes is wrong", x == Err(Errno(libc::ERANGE)), "{} with too little room", cut(&x)); }
        match ok!("listxattr", self.ff().listxattr(req(0), f.ino, len as u32 + r.below(3) as u32).await, "{}", f.ino) {
            ReplyXAttr::Data(b) => { let mut got: Vec<&[u8]> = b.split(|c| *c == 0).collect(); good!("the list of extended attributes is wrong", got.pop() == Some(&[][..]), "not terminated"); got.sort(); let want: Vec<&[u8]> = m.x.keys().map(|k| &k[..]).collect();
                good!("the list of extended attributes is wrong", got == want, "{:?} instead of {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>(), want.iter().map(|x| show(x)).collect::<Vec<_>>()); }
            x => return Err(("fuse", "the list of extended attributes is wrong".into(), format!("{x:?}"))),
        }
        Ok(())
    }
    /// All of a directory, some entries at a time
    async fn dir(&self, d: &Ref<'_>, r: &Rng) -> R<()> {
        let Some(n) = self.node(d.ino) else { return Ok(()) }; if n.kind != DIR { return Ok(()); }
        *self.st.lock().unwrap().n.entry("readdir").or_default() += 1;
        let moving = || { let s = self.st.lock().unwrap(); (s.moving.contains(&d.ino), s.nodes.get(&d.ino).map(|n| n.parent)) }; let m0 = moving();
        let step = *r.pick(&[1usize, 2, 5, 1000]); let mut offs = 0; let mut got: Vec<(Name, u64, FileType)> = vec![];
        loop {
            let rd = ok!("readdir", self.ff().readdir(req(0), d.ino, 0, offs).await, "{}", d.ino); let mut es = Box::pin(rd.entries); let mut k = 0;
            while k < step { match es.next().await { None => break, Some(e) => { let e = ok!("readdir", e, "{}", d.ino); offs = e.offset; got.push((e.name.as_bytes().to_vec(), e.inode, e.kind)); k += 1; } } }
            if k < step || got.len() > 5000 { break; }
        }
        got.sort_by(|a, b| a.0.cmp(&b.0));
        let mut want: Vec<(Name, u64, FileType)> = n.ents.iter().map(|(n, i)| (n.clone(), *i, self.node(*i).map(|n| n.kind).unwrap_or(DIR))).collect();
        want.push((b".".to_vec(), d.ino, DIR)); want.push((b"..".to_vec(), n.parent, DIR)); want.sort_by(|a, b| a.0.cmp(&b.0));
        let m1 = moving();
        if d.ino == 1 || m0.0 || m1.0 || m0.1 != m1.1 { for v in [&mut got, &mut want] { for e in v.iter_mut() { if e.0 == b".." { e.1 = 1; } } } }
        let sh = |v: &[(Name, u64, FileType)]| v.iter().map(|e| format!("{} {} {:?}", show(&e.0), e.1, e.2)).collect::<Vec<_>>();
        good!("a directory's listing is wrong", got == want, "{} by {step}: {:?} instead of {:?}", d.ino, sh(&got), sh(&want)); Ok(())
    }
    /// The space a file is said to use is what its data regions cover
    async fn extents(&self, i: u64) -> R<()> {
        let (mut at, mut sum) = (0, 0); let size = self.node(i).map(|n| n.data.len()).unwrap_or(0) as u64;
        for _ in 0..5000 {
            let Ok(d) = self.ff().lseek(req(0), i, 0, at, libc::SEEK_DATA as u32).await else { break };
            let e = ok!("lseek", self.ff().lseek(req(0), i, 0, d.offset, libc::SEEK_HOLE as u32).await, "{i}"); good!("lseek", e.offset > d.offset && e.offset <= size, "hole after {} at {}, size {size}", d.offset, e.offset);
            sum += e.offset - d.offset; at = e.offset; if at == size { break; }
        }
        let a = ok!("getattr", self.ff().getattr(req(0), i, None, 0).await, "{i}").attr;
        good!("a file is charged for other than its data", a.blocks == sum.div_ceil(512), "{i}: {} blocks of 512 bytes for {sum} bytes", a.blocks); Ok(())
    }
    /// Let go of a vnode nobody uses; true if there was one
    async fn forget(&self, r: &Rng, all: bool) -> R<bool> {
        let (ino, nl) = {
            let mut s = self.st.lock().unwrap();
            let fathers: BTreeSet<u64> = s.vn.keys().filter_map(|i| s.nodes.get(i).filter(|n| n.kind == DIR).map(|n| n.parent)).chain(s.nc.keys().map(|k| k.0)).collect();
            let v: Vec<u64> = s.vn.iter().filter(|(i, v)| v.refs == 0 && **i != 1 && !fathers.contains(i)).map(|(i, _)| *i).collect();
            if v.is_empty() { return Ok(false); }
            // files without a name go soon
            let dead: Vec<u64> = v.iter().copied().filter(|i| s.nodes.get(i).is_none_or(|n| n.nlink == 0)).collect();
            let ino = if !dead.is_empty() && !all { dead[0] } else { *r.pick(&v) };
            let nl = s.vn.remove(&ino).unwrap().nlookup; s.nc.retain(|_, i| *i != ino); s.leaving.insert(ino);
            if s.nodes.get(&ino).is_some_and(|n| n.nlink == 0) { s.nodes.remove(&ino); s.dead.insert(ino); }
            (ino, nl)
        };
        self.note("forget", format!("{ino} x{nl}"));
        self.ff().forget(req(0), ino, nl).await;
        self.st.lock().unwrap().leaving.remove(&ino);
        Ok(true)
    }
    /// A file server asks for an inode by its number
    async fn vget(&self, r: &Rng, dir: bool) -> R<Option<Ref<'_>>> {
        let ino = { let s = self.st.lock().unwrap(); let v: Vec<u64> = s.nodes.iter().filter(|(i, n)| n.nlink > 0 && (!dir || n.kind == DIR) && !s.vn.contains_key(i) && !s.leaving.contains(i)).map(|x| *x.0).collect(); if v.is_empty() { return Ok(None); } *r.pick(&v) };
        // nobody else gets at it while its number is being looked up, for that takes a name
        let alone = { let s = self.st.lock().unwrap(); s.running == 1 }; if !alone { return Ok(None); }
        self.note("vget", ino.to_string());
        let e = ok!("lookup by number", self.ff().lookup(req(0), ino, os(b".")).await, "{ino}");
        let f = self.enter(ino, None); self.same("vget", &e.attr, ino)?; Ok(Some(f))
    }
    /// Files without a name that nobody uses any more are gone
    async fn dead(&self) -> R<()> {
        let d = std::mem::take(&mut self.st.lock().unwrap().dead);
        for i in d { *self.st.lock().unwrap().n.entry("removed files gone").or_default() += 1; let x = self.ff().lookup(req(0), i, os(b".")).await.map(|e| e.attr); good!("a removed file that nobody uses any more is still there", x == Err(ENOENT), "{i}: {x:?}"); }
        Ok(())
    }
    async fn step(&self, seed: u64) -> R<()> {
        let r = &Rng::new(seed);
        for _ in 0..r.usize(4) { tokio::task::yield_now().await; }
        { let mut s = self.st.lock().unwrap(); s.running += 1; if s.running > 1 { s.overlaps += 1; } }
        let x = match r.below(100) {
            0..=19 => self.mk(r).await, 20..=26 => self.link(r).await, 27..=37 => self.rm(r).await, 38..=48 => self.rename(r).await,
            49..=62 => self.io(r).await, 63..=70 => self.attrs(r).await, 71..=76 => self.xattrs(r).await,
            77..=82 => { let d = self.walk(r, true).await; match d { Ok(d) => { let _l = self.sh(&d).await; self.dir(&d, r).await } Err(e) => Err(e) } }
            83..=94 => self.forget(r, false).await.map(drop), 95 | 96 => { self.close(r); Ok(()) } 97 | 98 => self.vget(r, false).await.map(drop),
            _ => { match self.ff().statfs(req(0), 1).await { Ok(s) => if s.bfree <= s.blocks && s.bavail <= s.bfree && s.bsize > 0 && s.namelen == 255 { Ok(()) } else { Err(("fuse", "statfs".into(), format!("{s:?}"))) }, Err(e) => Err(("fuse", "statfs".into(), format!("{e:?}"))) } }
        };
        self.st.lock().unwrap().running -= 1; x
    }
    /// Look at everything there is
    async fn everything(&self, r: &Rng) -> R<()> {
        self.note("look at everything", String::new());
        let mut todo = vec![1u64];
        while let Some(d) = todo.pop() {
            let d = self.get(d).unwrap(); self.dir(&d, r).await?; self.look(&d).await?; self.list(&d, r).await?;
            for (n, i) in self.node(d.ino).unwrap().ents {
                let Some(f) = self.find(d.ino, &n).await? else { return Err(("fuse", "a name is not found".into(), show(&n))) };
                good!("a name leads to another file", f.ino == i, "{} in {}: {} instead of {i}", show(&n), d.ino, f.ino);
                self.look(&f).await?; self.list(&f, r).await?;
                let m = self.node(i).unwrap();
                for (x, v) in &m.x { let g = self.ff().getxattr(req(0), i, os(x), 65536).await; good!("an extended attribute has another value", g == Ok(ReplyXAttr::Data(v.clone().into())), "{} of {i}: {}", show(x), cut(&g)); }
                match m.kind {
                    FileType::Directory => todo.push(i),
                    FileType::RegularFile => { if self.atime { self.change(i, |n| n.atime = None); } let got = ok!("read", self.ff().read(req(0), i, 0, 0, m.data.len() as u32 + 10).await, "{i}").data; good!("a file reads back differently", got[..] == m.data[..], "all of {i}"); self.extents(i).await?; }
                    FileType::Symlink => { let t = ok!("readlink", self.ff().readlink(req(0), i).await, "{i}"); good!("a symbolic link leads elsewhere", t.data[..] == m.link[..], "{i}"); }
                    _ => (),
                }
            }
        }
        Ok(())
    }
}
fn req(uid: u32) -> Request { Request { unique: 0, uid, gid: uid / 2, pid: 1 } }
fn cut<T: std::fmt::Debug>(x: &T) -> String { let s = format!("{x:?}"); s.chars().take(120).collect() }
fn fins<T>(x: Option<R<T>>) -> R<T> { match x { Some(r) => r, None => Err(("hang", "a request is never answered".into(), "nothing was left to run but timers for an hour of virtual time".into())) } }
async fn history(k: &mut Kernel, r: &Rng, o: &Opts, disks: &Disks) -> R<()> {
    let mut db = Arc::new(disks.database(o.cache));
    db.create_fs(None, "").await.unwrap();
    let (fs, tree): (Fs, TreeID) = root_fs(&db).await;
    fs.set_prop(Property::RecordSize(o.recsize)).await.unwrap(); fs.set_prop(Property::Atime(o.atime)).await.unwrap();
    let a = fs.root(); let a = fs.getattr(&a.handle()).await.unwrap();
    let root = Node { perm: a.mode.perm(), uid: a.uid, gid: a.gid, nlink: a.nlink as u32, ..Node::new(DIR, 0, &req(0), 1) };
    { let mut s = k.st.lock().unwrap(); s.nodes.insert(1, root); }
    let mut fs = Arc::new(fs);
    for session in 0..3 {
        if session > 0 { fs = Arc::new(Fs::new(db.clone(), tree).await); }
        k.ff = Some(FuseFs::new(fs.clone()));
        { let mut s = k.st.lock().unwrap(); s.vn.insert(1, Vn { nlookup: 1, refs: 1, ..Default::default() }); s.n.entry("mount").and_modify(|x| *x += 1).or_insert(1); }
        let i = k.ff().init(req(0)).await; good!("init", i.is_ok(), "{i:?}");
        if session > 0 { fins(finishes(k.everything(r)).await)?; }
        for b in 0..20 + r.usize(40) {
            let n = if r.chance(1, 4) { 1 } else { 2 + r.usize(7) };
            let kk = &*k; let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
            let bg = if r.chance(1, 8) { let d = db.clone(); let c = r.chance(1, 2); Some(tokio::spawn(async move { if c { let rx = d.clean(); let _ = rx.await; } else { let _ = d.sync_transaction().await; } })) } else { None };
            if r.chance(1, 6) { db.drop_cache(); }
            let rs: R<()> = fins(finishes(async { join_all(seeds.iter().map(|s| kk.step(*s))).await.into_iter().collect() }).await); rs?;
            if let Some(b) = bg { fins(finishes(async { let _ = b.await; Ok(()) }).await)?; }
            if r.chance(1, 4) { fins(finishes(k.dead()).await)?; }
            if b % 16 == 15 { fins(finishes(k.everything(r)).await)?; }
        }
        fins(finishes(k.everything(r)).await)?;
        // unmount: everything is let go
        while k.close(r).is_some() {}
        if r.chance(2, 3) { while fins(finishes(k.forget(r, true)).await)? {} }
        fins(finishes(k.dead()).await)?;
        fins(finishes(async { k.ff().destroy(req(0)).await; Ok(()) }).await)?;
        k.ff = None; drop(std::mem::replace(&mut fs, Arc::new(Fs::new(db.clone(), tree).await)));
        { let mut s = k.st.lock().unwrap(); s.vn.clear(); s.nc.clear(); s.open.clear(); s.nodes.retain(|_, n| n.nlink > 0); }
        let c = fins(finishes(async { Ok(db.check().await) }).await)?; good!("the database's own check fails", matches!(c, Ok(true)), "{c:?}");
        if r.chance(1, 2) {
            k.note("import again", String::new());
            drop(fs);
            fins(finishes(async { db.sync_transaction().await.map_err(|e| ("fuse", "sync".to_string(), format!("{e:?}"))) }).await)?;
            let x = match finishes(close(db)).await { Some(x) => x, None => return Err(("hang", "shutdown".into(), String::new())) }; good!("shutdown", x.is_ok(), "{x:?}");
            let d: Database = match finishes(disks.import(o.cache, o.wb)).await { Some(Ok(d)) => d, x => return Err(("fuse", "the pool cannot be imported".into(), format!("{:?}", x.map(|x| x.map(drop))))) };
            db = Arc::new(d); fs = Arc::new(Fs::new(db.clone(), tree).await);
        }
    }
    drop(fs); k.ff = None;
    let x = match finishes(close(db)).await { Some(x) => x, None => return Err(("hang", "shutdown".into(), String::new())) }; good!("shutdown", x.is_ok(), "{x:?}");
    Ok(())
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "model_conformance", "one evaluation = one file system used through the FUSE server by a random history of system calls of several processes, over several mounts; distinct = distinct end states");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0xf05e, case);
        let o = opts(&r, "fuse");
        // a node of the tree has to fit into a zone, and into the cache
        let o = Opts { shape: Shape { zone: o.shape.zone.max(256), ..o.shape.clone() }.sized(*r.pick(&[160u64, 256]) << 20), recsize: o.recsize.min(14), cache: o.cache.max(4_000_000), ..o };
        let setup = format!("{o:?}");
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let mut names: Vec<Name> = [&b"a"[..], b"b", b"c", b"dir", b"\xff\xfe", b"a b", b"..."].iter().map(|x| x.to_vec()).collect();
        names.push(vec![b'n'; 255]); names.extend(crate::collide::names(&r).into_iter().take(4));
        let mut xnames: Vec<Name> = [&b"user.a"[..], b"system.a", b"user.a.b", b"user.x", b"system.md5"].iter().map(|x| x.to_vec()).collect();
        xnames.extend(crate::collide::xnames(1, &r).into_iter().take(3).map(|x| [b"user.", &x[..]].concat()));
        let mut k = Kernel { ff: None, st: Mutex::new(St::default()), mv: tokio::sync::Mutex::new(()), names, xnames, atime: o.atime, recsize: o.recsize };
        let res = mon::guard(|| {
            let disks = Disks::new(&o.shape); disks.jitter(r.next(), o.jitter);
            let rt = rt(); let out = rt.block_on(history(&mut k, &r, &o, &disks)); k.ff = None; drop(rt); out
        });
        let st = match k.st.lock() { Ok(s) => s, Err(p) => p.into_inner() };
        ck.eval(); for (n, x) in &st.n { ck.count(n, *x); } ck.count("requests begun while another was under way", st.overlaps);
        ck.distinct(mon::hash(&st.nodes.iter().map(|(i, n)| (*i, n.ents.clone(), n.data.clone(), n.x.clone(), n.perm)).collect::<Vec<_>>()));
        for l in st.lost.iter().take(1) { ck.violation("a file that another one is renamed over is lost to those who have it open", &json!({"case": case, "what": l, "history": st.log.iter().collect::<Vec<_>>(), "setup": setup})); }
        let repo_panics: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.iter().filter(|p| crate::in_repo(p)).cloned().collect()).unwrap_or_default();
        let say = |what: &str| if std::env::var("MON_V").is_ok() { println!("{case} {what} {setup}\n{}", st.log.iter().rev().take(15).rev().cloned().collect::<Vec<_>>().join("\n")); };
        match res {
            Ok(Ok(())) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "files at the end": st.nodes.len(), "last system calls": st.log.iter().rev().take(8).collect::<Vec<_>>()})); },
            Ok(Err(b)) => { say(&format!("{b:?}")); match repo_panics.first() { Some(p) => crate::panicked(&mut ck, "fuse", p, case, &st.log, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": st.log.iter().collect::<Vec<_>>(), "setup": setup})) } }
            Err(p) => { let p = crate::first_panic(before, p); say(&p); crate::panicked(&mut ck, "fuse", &p, case, &st.log, &setup); }
        }
        for p in repo_panics { crate::panicked(&mut ck, "fuse", &p, case, &st.log, &setup); }
    }
    ck.assume("the kernel keeps a directory in memory as long as anything in it, locks vnodes as VOP_* ask for, and looks a name up before it creates, removes or renames it");
    cleanup();
    ck.finish()
}
