//! One client of a file system against a model of it.
use crate::{collide, env::*};
use bfffs_core::{database::{Database, TreeID}, fs::*, fs_tree::{ExtAttrNamespace, ObjKey, Timespec}, property::*};
use futures::{StreamExt, TryStreamExt};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, ffi::{OsStr, OsString}, os::unix::ffi::{OsStrExt, OsStringExt}, sync::Arc, time::Duration};

pub type Name = Vec<u8>;
pub fn os(n: &[u8]) -> &OsStr { OsStr::from_bytes(n) }

// ---------------------------------------------------------------- the model
const PG: u64 = 512;
/// A sparse file: what is not there is zero
#[derive(Clone, Default, Eq, PartialEq)]
pub struct Sparse { pub pages: BTreeMap<u64, Box<[u8; PG as usize]>>, pub size: u64 }
impl Sparse {
    pub fn write(&mut self, off: u64, d: &[u8]) {
        let mut o = off; let mut d = d;
        while !d.is_empty() {
            let p = o / PG; let i = (o % PG) as usize; let n = d.len().min(PG as usize - i);
            self.pages.entry(p).or_insert_with(|| Box::new([0; PG as usize]))[i..i + n].copy_from_slice(&d[..n]);
            o += n as u64; d = &d[n..];
        }
        self.size = self.size.max(off.max(o));
    }
    pub fn zero(&mut self, a: u64, b: u64) {
        if a >= b { return; }
        let ps: Vec<u64> = self.pages.range(a / PG..=(b - 1) / PG).map(|x| *x.0).collect();
        for p in ps {
            let (s, e) = (a.max(p * PG), b.min((p + 1) * PG));
            if s == p * PG && e == (p + 1) * PG { self.pages.remove(&p); } else { self.pages.get_mut(&p).unwrap()[(s - p * PG) as usize..(e - p * PG) as usize].fill(0); }
        }
    }
    pub fn truncate(&mut self, n: u64) { if n < self.size { self.zero(n, self.size); } self.size = n; }
    pub fn read(&self, off: u64, len: u64) -> Vec<u8> {
        let end = (off.saturating_add(len)).min(self.size);
        if off >= end { return vec![]; }
        let mut v = vec![0; (end - off) as usize];
        for (p, d) in self.pages.range(off / PG..=(end - 1) / PG) {
            let (s, e) = (off.max(p * PG), end.min((p + 1) * PG));
            v[(s - off) as usize..(e - off) as usize].copy_from_slice(&d[(s - p * PG) as usize..(e - p * PG) as usize]);
        }
        v
    }
    /// Is anything but zero in [a, b)?
    pub fn nonzero(&self, a: u64, b: u64) -> bool {
        if a >= b { return false; }
        self.pages.range(a / PG..=(b - 1) / PG).any(|(p, d)| { let (s, e) = (a.max(p * PG), b.min((p + 1) * PG)); d[(s - p * PG) as usize..(e - p * PG) as usize].iter().any(|x| *x != 0) })
    }
}
#[derive(Clone, PartialEq)]
pub enum Kind { Reg, Dir(BTreeMap<Name, u64>), Link(Name), Fifo, Sock, Char(u32), Block(u32) }
impl Kind {
    pub fn mode(&self) -> u16 { match self { Kind::Reg => libc::S_IFREG as u16, Kind::Dir(_) => libc::S_IFDIR as u16, Kind::Link(_) => libc::S_IFLNK as u16, Kind::Fifo => libc::S_IFIFO as u16, Kind::Sock => libc::S_IFSOCK as u16, Kind::Char(_) => libc::S_IFCHR as u16, Kind::Block(_) => libc::S_IFBLK as u16 } }
    pub fn dtype(&self) -> u8 { (self.mode() >> 12) as u8 }
}
#[derive(Clone)]
pub struct Node {
    pub kind: Kind, pub parent: u64, pub nlink: u64, pub perm: u16, pub uid: u32, pub gid: u32, pub flags: u64, pub data: Sparse, pub rs: u64,
    pub x: BTreeMap<(u8, Name), Vec<u8>>, pub at: Timespec, pub mt: Timespec, pub ct: Timespec, pub bt: Timespec,
    /// unlinked but still in use
    pub dead: bool,
}
#[derive(Clone, Default)]
pub struct Model { pub nodes: BTreeMap<u64, Node> }
impl Model {
    pub fn dirs(&self) -> Vec<u64> { self.nodes.iter().filter(|x| matches!(x.1.kind, Kind::Dir(_)) && !x.1.dead).map(|x| *x.0).collect() }
    pub fn of(&self, f: impl Fn(&Node) -> bool) -> Vec<u64> { self.nodes.iter().filter(|x| f(x.1)).map(|x| *x.0).collect() }
    pub fn ents(&self, d: u64) -> &BTreeMap<Name, u64> { match &self.nodes[&d].kind { Kind::Dir(e) => e, _ => panic!() } }
    pub fn ents_mut(&mut self, d: u64) -> &mut BTreeMap<Name, u64> { match &mut self.nodes.get_mut(&d).unwrap().kind { Kind::Dir(e) => e, _ => panic!() } }
    pub fn is_dir(&self, i: u64) -> bool { matches!(self.nodes[&i].kind, Kind::Dir(_)) }
    /// Is `d` at or below `top`?
    pub fn below(&self, mut d: u64, top: u64) -> bool { loop { if d == top { return true; } if d == 1 { return false; } d = self.nodes[&d].parent; } }
    pub fn hash(&self) -> u64 { mon::hash(&self.nodes.iter().map(|(i, n)| (*i, n.nlink, n.data.size, n.data.pages.len(), n.x.len(), match &n.kind { Kind::Dir(e) => e.len(), _ => 0 })).collect::<Vec<_>>()) }
}
fn ns(x: u8) -> ExtAttrNamespace { if x == 0 { ExtAttrNamespace::User } else { ExtAttrNamespace::System } }
fn now() -> Timespec { let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap(); Timespec { sec: d.as_secs() as i64, nsec: d.subsec_nanos() } }
fn ts_le(a: &Timespec, b: &Timespec) -> bool { (a.sec, a.nsec) <= (b.sec, b.nsec) }

// ---------------------------------------------------------------- the client
/// What went wrong: which property's business it is, a name, an explanation
pub type Bad = (&'static str, String, String);
pub type R<T> = Result<T, Bad>;
macro_rules! ensure { ($area:expr, $key:expr, $c:expr, $($f:tt)*) => { if !$c { return Err(($area, $key.to_string(), format!($($f)*))); } } }
pub(crate) use ensure;

#[derive(Clone, Debug)]
pub struct Opts { pub shape: Shape, pub cache: usize, pub wb: Option<usize>, pub recsize: u8, pub atime: bool, pub jitter: u64, pub focus: &'static str, pub big: bool }
pub struct Client {
    pub r: Rng, pub o: Opts, pub disks: Arc<Disks>, pub db: Option<Arc<Database>>, pub fs: Option<Arc<Fs>>, pub tree: TreeID,
    pub m: Model, pub fds: BTreeMap<u64, FileDataMut>, pub log: VecDeque<String>, pub fam: Vec<Name>, pub xfam: [Vec<Name>; 2],
    pub n: BTreeMap<&'static str, u64>, pub counter: u64, pub pre: Option<Timespec>, pub area: &'static str, pub bg: Vec<tokio::task::JoinHandle<()>>,
    /// the disks to import from, if not all
    pub there: Option<Vec<std::path::PathBuf>>,
    /// If the client's tree is not the whole file system: its top directory and the directory above it. The model calls it 1
    pub top: Option<FileDataMut>, pub above: u64,
}
/// Await with a bound on virtual time
macro_rules! w { ($s:expr, $f:expr) => { match finishes($f).await { Some(x) => x, None => return Err(("hang", format!("{} does not finish", $s.area), "nothing was left to run but timers for an hour of virtual time".into())) } } }
pub(crate) use w;

/// For debugging: print every step as it begins
static VERBOSE: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("MON_LOG").is_ok());
impl Client {
    pub async fn new(seed: u64, o: Opts) -> R<Client> {
        let r = Rng::new(seed);
        let disks = Arc::new(Disks::new(&o.shape));
        disks.jitter(seed, o.jitter);
        let db = Arc::new(disks.database(o.cache));
        let mut c = Client::blank(r, o, disks, db);
        let tree = w!(c, c.db().create_fs(None, "")).map_err(|e| ("setup", "create_fs".to_string(), format!("{e:?}")))?;
        c.tree = tree;
        let fs = Arc::new(w!(c, Fs::new(c.db().clone(), tree)));
        let (rs, at) = (c.o.recsize, c.o.atime);
        w!(c, fs.set_prop(Property::RecordSize(rs))).unwrap();
        w!(c, fs.set_prop(Property::Atime(at))).unwrap();
        c.fs = Some(fs);
        c.root_as_found().await?;
        Ok(c)
    }
    pub fn blank(r: Rng, o: Opts, disks: Arc<Disks>, db: Arc<Database>) -> Client {
        let fam = collide::names(&r); let xfam = [collide::xnames(1, &r), collide::xnames(2, &r)];
        Client { r, o, disks, db: Some(db), fs: None, tree: TreeID(0), m: Model::default(), fds: BTreeMap::new(), log: VecDeque::new(), fam, xfam, n: BTreeMap::new(), counter: 0, pre: None, area: "setup", bg: vec![], there: None, top: None, above: 1 }
    }
    /// The attributes of the client's root are what they are
    pub async fn root_as_found(&mut self) -> R<()> {
        let a = match w!(self, self.fs().getattr(&self.h(1))) { Ok(a) => a, Err(e) => return Err(("names", "a file system has no root".into(), format!("errno {e}"))) };
        self.m.nodes.insert(1, Node { kind: Kind::Dir(BTreeMap::new()), parent: 1, nlink: if self.top.is_some() { 2 } else { 1 }, perm: 0o755, uid: 0, gid: 0, flags: 0, data: Sparse::default(), rs: 0, x: BTreeMap::new(), at: a.atime, mt: a.mtime, ct: a.ctime, bt: a.birthtime, dead: false });
        self.attrs(1, "").await
    }
    /// What bfffs calls `ino`
    pub fn real(&self, ino: u64) -> u64 { match &self.top { Some(t) if ino == 1 => t.ino(), _ => ino } }
    pub fn db(&self) -> &Arc<Database> { self.db.as_ref().unwrap() }
    pub fn fs(&self) -> Arc<Fs> { self.fs.as_ref().unwrap().clone() }
    pub fn h(&self, ino: u64) -> FileData { if ino == 1 { match &self.top { Some(t) => t.handle(), None => self.fs().root().handle() } } else { self.fds[&ino].handle() } }
    pub fn note(&mut self, what: &'static str, s: String) { if *VERBOSE { println!("{what} {s}"); } *self.n.entry(what).or_default() += 1; if self.log.len() > 80 { self.log.pop_front(); } self.log.push_back(format!("{what} {s}")); }
    /// Make sure the client has looked `ino` up
    pub async fn held(&mut self, d: u64, name: &[u8], ino: u64) -> R<()> {
        if ino == 1 || self.fds.contains_key(&ino) { return Ok(()); }
        let gp = if d == 1 { None } else { Some(self.h(self.m.nodes[&d].parent)) };
        let _ = gp;
        let fd = match w!(self, self.fs().lookup(None, &self.h(d), os(name))) { Ok(f) => f, Err(e) => return Err(("names", "an entry is missing".into(), format!("lookup of {:?} in {d} gives errno {e}", os(name)))) };
        ensure!("names", "lookup finds another file", fd.ino() == ino, "{:?} in {d} is {} instead of {ino}", os(name), fd.ino());
        self.fds.insert(ino, fd); Ok(())
    }
    /// Hold the directory `d` and all above it
    pub async fn hold_dir(&mut self, d: u64) -> R<()> {
        let mut path = vec![]; let mut x = d;
        while x != 1 { path.push(x); x = self.m.nodes[&x].parent; }
        for x in path.into_iter().rev() {
            if self.fds.contains_key(&x) { continue; }
            let p = self.m.nodes[&x].parent;
            let name = self.m.ents(p).iter().find(|e| *e.1 == x).unwrap().0.clone();
            self.held(p, &name, x).await?;
        }
        Ok(())
    }
    /// Some name of `ino`
    pub fn name_of(&self, ino: u64) -> Option<(u64, Name)> {
        for d in self.m.dirs() { if let Some(e) = self.m.ents(d).iter().find(|e| *e.1 == ino) { return Some((d, e.0.clone())); } }
        None
    }
    pub async fn hold(&mut self, ino: u64) -> R<()> {
        if ino == 1 || self.fds.contains_key(&ino) { return Ok(()); }
        let Some((d, n)) = self.name_of(ino) else { panic!("model: {ino} has no name") };
        self.hold_dir(d).await?;
        self.held(d, &n, ino).await
    }
    pub fn fresh_name(&mut self, d: u64) -> Option<Name> {
        for _ in 0..8 {
            let n = match self.r.below(12) {
                0..=3 => self.r.pick(&["a", "b", "c", "dd", "e f", "g.txt", "h", "i"]).as_bytes().to_vec(),
                4..=6 if !self.fam.is_empty() => self.r.pick(&self.fam).clone(),
                7 => self.r.pick(&["HsxUh682JQ", "4FatHJ8I6H"]).as_bytes().to_vec(),
                8 => { let mut v = self.r.bytes(1 + self.r.usize(60)); for b in &mut v { if *b == 0 || *b == b'/' { *b = b'_'; } } v }
                9 => { self.counter += 1; let mut v = format!("long{}-", self.counter).into_bytes(); v.resize(*self.r.pick(&[255usize, 254, 128, 200]), b'x'); v }
                _ => { self.counter += 1; format!("n{}", self.counter).into_bytes() }
            };
            if n.is_empty() || n == b"." || n == b".." || self.m.ents(d).contains_key(&n) { continue; }
            return Some(n);
        }
        None
    }
    /// Compare one inode's attributes; times in `touched` ("amcb") must lie between self.pre and now, others be unchanged
    pub async fn attrs(&mut self, ino: u64, touched: &str) -> R<()> {
        let before = self.pre.unwrap_or_default_ts();
        let a = match w!(self, self.fs().getattr(&self.h(ino))) { Ok(a) => a, Err(e) => return Err(("names", "the inode of a file is gone".into(), format!("getattr({ino}) gives errno {e}"))) };
        let t = now();
        let n = self.m.nodes.get_mut(&ino).unwrap();
        let real = self.top.as_ref().filter(|_| ino == 1).map_or(ino, |t| t.ino());
        ensure!("names", "getattr of another file", a.ino == real, "{} instead of {ino}", a.ino);
        ensure!("names", "wrong link count", a.nlink == n.nlink, "inode {ino}: {} instead of {}", a.nlink, n.nlink);
        ensure!("names", "wrong file type", a.mode.file_type() == n.kind.mode(), "inode {ino}: {:o} instead of {:o}", a.mode.file_type(), n.kind.mode());
        ensure!("attrs", "wrong permissions", a.mode.perm() == n.perm, "inode {ino}: {:o} instead of {:o}", a.mode.perm(), n.perm);
        ensure!("attrs", "wrong owner", (a.uid, a.gid) == (n.uid, n.gid), "inode {ino}: {:?} instead of {:?}", (a.uid, a.gid), (n.uid, n.gid));
        ensure!("attrs", "wrong flags", a.flags == n.flags, "inode {ino}: {} instead of {}", a.flags, n.flags);
        if let Kind::Char(d) | Kind::Block(d) = n.kind { ensure!("attrs", "wrong device number", a.rdev as u64 == d as u64, "inode {ino}: {} instead of {d}", a.rdev); }
        if n.kind == Kind::Reg {
            ensure!("data", "wrong size", a.size == n.data.size, "inode {ino}: {} instead of {}", a.size, n.data.size);
            ensure!("attrs", "wrong block size", a.blksize as u64 == n.rs, "inode {ino}: {} instead of {}", a.blksize, n.rs);
        }
        for (c, got, want) in [('a', a.atime, &mut n.at), ('m', a.mtime, &mut n.mt), ('c', a.ctime, &mut n.ct), ('b', a.birthtime, &mut n.bt)] {
            if touched.contains(c) {
                ensure!("attrs", "a time stamp was not updated", ts_le(&before, &got) && ts_le(&got, &t), "inode {ino}: {c}time is {got:?}, but it was changed between {before:?} and {t:?}");
                *want = got;
            } else {
                ensure!("attrs", "a time stamp changed", got == *want, "inode {ino}: {c}time is {got:?} instead of {want:?}");
            }
        }
        Ok(())
    }
    fn begin(&mut self, area: &'static str) { self.area = area; self.pre = Some(now()); }

    // ------------------------------------------------ names
    pub async fn op_create(&mut self) -> R<()> {
        self.begin("names");
        let dirs = self.m.dirs(); let d = if self.r.chance(1, 3) { 1 } else { *self.r.pick(&dirs) };
        let k = match self.r.below(12) { 0..=5 => Kind::Reg, 6..=8 => Kind::Dir(BTreeMap::new()), 9 => Kind::Link(self.r.bytes(1 + self.r.usize(300))), 10 => if self.r.chance(1, 2) { Kind::Fifo } else { Kind::Sock }, _ => if self.r.chance(1, 2) { Kind::Char(self.r.next() as u32) } else { Kind::Block(self.r.next() as u32) } };
        self.create(d, k).await.map(drop)
    }
    pub async fn create(&mut self, d: u64, k: Kind) -> R<Option<u64>> {
        let Some(name) = self.fresh_name(d) else { return Ok(None) };
        self.hold_dir(d).await?;
        self.pre = Some(now());
        let (perm, uid, gid) = ((self.r.next() & 0xfff) as u16, self.r.next() as u32, self.r.next() as u32);
        self.note("create", format!("{:o} {:?} in {d}", k.mode(), os(&name)));
        let fs = self.fs(); let h = self.h(d); let o = os(&name);
        let res = match &k {
            Kind::Reg => w!(self, fs.create(&h, o, perm, uid, gid)), Kind::Dir(_) => w!(self, fs.mkdir(&h, o, perm, uid, gid)),
            Kind::Link(t) => w!(self, fs.symlink(&h, o, perm, uid, gid, os(t))), Kind::Fifo => w!(self, fs.mkfifo(&h, o, perm, uid, gid)),
            Kind::Sock => w!(self, fs.mksock(&h, o, perm, uid, gid)), Kind::Char(x) => w!(self, fs.mkchar(&h, o, perm, uid, gid, *x as _)), Kind::Block(x) => w!(self, fs.mkblock(&h, o, perm, uid, gid, *x as _)),
        };
        let fd = match res { Ok(f) => f, Err(e) => return Err(("names", "a file cannot be created".into(), format!("errno {e} for {:?} in {d}", os(&name)))) };
        let ino = fd.ino();
        ensure!("names", "an inode number was reused", !self.m.nodes.contains_key(&ino), "{ino}");
        let isdir = matches!(k, Kind::Dir(_));
        if isdir { ensure!("names", "a new directory does not know its parent", fd.parent() == Some(self.real(d)), "{:?} instead of {d}", fd.parent()); }
        self.fds.insert(ino, fd);
        let z = Timespec { sec: 0, nsec: 0 };
        self.m.nodes.insert(ino, Node { kind: k, parent: if isdir { d } else { 0 }, nlink: if isdir { 2 } else { 1 }, perm, uid, gid, flags: 0, data: Sparse::default(), rs: 1 << self.o.recsize, x: BTreeMap::new(), at: z, mt: z, ct: z, bt: z, dead: false });
        self.m.ents_mut(d).insert(name, ino);
        if isdir { self.m.nodes.get_mut(&d).unwrap().nlink += 1; }
        self.attrs(ino, "amcb").await?;
        self.attrs(d, "mc").await?;
        Ok(Some(ino))
    }
    pub async fn op_link(&mut self) -> R<()> {
        self.begin("names");
        let c = self.m.of(|n| !n.dead && !matches!(n.kind, Kind::Dir(_))); if c.is_empty() { return Ok(()); }
        let ino = *self.r.pick(&c); let d = *self.r.pick(&self.m.dirs());
        let Some(name) = self.fresh_name(d) else { return Ok(()) };
        self.hold(ino).await?; self.hold_dir(d).await?;
        self.pre = Some(now());
        self.note("link", format!("{ino} as {:?} in {d}", os(&name)));
        if let Err(e) = w!(self, self.fs().link(&self.h(d), &self.h(ino), os(&name))) { return Err(("names", "a link cannot be made".into(), format!("errno {e}"))); }
        self.m.ents_mut(d).insert(name, ino); self.m.nodes.get_mut(&ino).unwrap().nlink += 1;
        self.attrs(ino, "c").await?; self.attrs(d, "mc").await
    }
    fn gone(&mut self, ino: u64, active: bool) {
        let n = self.m.nodes.get_mut(&ino).unwrap(); n.nlink -= 1;
        if n.nlink == 0 { if active { n.dead = true; } else { self.m.nodes.remove(&ino); self.fds.remove(&ino); } }
    }
    pub async fn op_unlink(&mut self) -> R<()> {
        self.begin("names");
        let d = *self.r.pick(&self.m.dirs());
        if self.r.chance(1, 10) {
            // a name that is not there, perhaps one that collides with one that is
            let Some(name) = self.fresh_name(d) else { return Ok(()) };
            self.hold_dir(d).await?;
            self.note("unlink", format!("{:?} (absent) in {d}", os(&name)));
            let e = w!(self, self.fs().unlink(&self.h(d), None, os(&name)));
            ensure!("names", "unlink of an absent name", e == Err(libc::ENOENT), "{e:?} for {:?} in {d}", os(&name));
            return self.attrs(d, "").await;
        }
        let c: Vec<(Name, u64)> = self.m.ents(d).iter().filter(|e| !self.m.is_dir(*e.1)).map(|e| (e.0.clone(), *e.1)).collect();
        if c.is_empty() { return Ok(()); }
        let (name, ino) = self.r.pick(&c).clone();
        self.unlink(d, &name, ino).await
    }
    pub async fn unlink(&mut self, d: u64, name: &[u8], ino: u64) -> R<()> {
        self.hold_dir(d).await?;
        let active = self.fds.contains_key(&ino);
        self.pre = Some(now());
        self.note("unlink", format!("{:?} ({ino}{}) in {d}", os(name), if active { ", in use" } else { "" }));
        let fh = if active { Some(self.h(ino)) } else { None };
        if let Err(e) = w!(self, self.fs().unlink(&self.h(d), fh.as_ref(), os(name))) { return Err(("names", "a file cannot be unlinked".into(), format!("errno {e} for {:?} in {d}", os(name)))); }
        self.m.ents_mut(d).remove(name); self.gone(ino, active);
        self.attrs(d, "mc").await?;
        if self.m.nodes.contains_key(&ino) { let t = self.pre; self.hold(ino).await?; self.pre = t; self.attrs(ino, "c").await?; }
        else if !self.m.nodes.contains_key(&ino) { self.is_gone(ino).await?; }
        Ok(())
    }
    pub async fn is_gone(&mut self, ino: u64) -> R<()> {
        let a = w!(self, self.fs().igetattr(ino));
        ensure!("names", "a deleted file is still there", a.is_err(), "inode {ino}: {a:?}"); Ok(())
    }
    pub async fn op_rmdir(&mut self) -> R<()> {
        self.begin("names");
        let c: Vec<u64> = self.m.dirs().into_iter().filter(|d| *d != 1).collect(); if c.is_empty() { return Ok(()); }
        let ino = *self.r.pick(&c); let d = self.m.nodes[&ino].parent;
        let name = self.m.ents(d).iter().find(|e| *e.1 == ino).unwrap().0.clone();
        self.rmdir(d, &name, ino).await
    }
    pub async fn rmdir(&mut self, d: u64, name: &[u8], ino: u64) -> R<()> {
        self.hold_dir(d).await?;
        self.pre = Some(now());
        let full = !self.m.ents(ino).is_empty();
        self.note("rmdir", format!("{:?} ({ino}{}) in {d}", os(name), if full { ", not empty" } else { "" }));
        let e = w!(self, self.fs().rmdir(&self.h(d), os(name)));
        if full {
            ensure!("names", "rmdir of a full directory", e == Err(libc::ENOTEMPTY), "{e:?} for {ino}");
            return self.attrs(d, "").await;
        }
        ensure!("names", "rmdir of an empty directory", e == Ok(()), "{e:?} for {ino}");
        self.m.ents_mut(d).remove(name); self.m.nodes.get_mut(&d).unwrap().nlink -= 1; self.m.nodes.remove(&ino); self.fds.remove(&ino);
        self.attrs(d, "mc").await?; self.is_gone(ino).await
    }
    pub async fn op_rename(&mut self) -> R<()> {
        self.begin("names");
        let d = *self.r.pick(&self.m.dirs());
        let c: Vec<(Name, u64)> = self.m.ents(d).iter().map(|e| (e.0.clone(), *e.1)).collect(); if c.is_empty() { return Ok(()); }
        let (name, ino) = self.r.pick(&c).clone();
        let isdir = self.m.is_dir(ino);
        let c: Vec<u64> = self.m.dirs().into_iter().filter(|t| !isdir || !self.m.below(*t, ino)).collect();
        let d2 = if self.r.chance(1, 3) && c.contains(&d) { d } else { *self.r.pick(&c) };
        // over something of the same sort, or to a new name
        let over: Vec<(Name, u64)> = self.m.ents(d2).iter().filter(|e| self.m.is_dir(*e.1) == isdir && *e.1 != ino).map(|e| (e.0.clone(), *e.1)).collect();
        let (name2, dst) = if !over.is_empty() && self.r.chance(1, 2) { let x = self.r.pick(&over).clone(); (x.0, Some(x.1)) } else { match self.fresh_name(d2) { Some(n) => (n, None), None => return Ok(()) } };
        if let Some(x) = dst { if isdir && self.m.below(d, x) && !self.m.ents(x).is_empty() { /* an ancestor: refused as not empty */ } }
        self.hold_dir(d).await?; self.hold_dir(d2).await?; self.held(d, &name, ino).await?;
        if let Some(x) = dst { self.held(d2, &name2, x).await?; }
        self.pre = Some(now());
        self.note("rename", format!("{:?} ({ino}) in {d} to {:?} ({dst:?}) in {d2}", os(&name), os(&name2)));
        let e = w!(self, self.fs().rename(&self.h(d), &self.h(ino), os(&name), &self.h(d2), dst, os(&name2)));
        if let Some(x) = dst { if isdir && !self.m.ents(x).is_empty() {
            ensure!("names", "rename over a full directory", e == Err(libc::ENOTEMPTY), "{e:?}");
            self.attrs(d, "").await?; return self.attrs(d2, "").await;
        } }
        ensure!("names", "rename fails", e == Ok(ino), "{e:?} instead of {ino}");
        self.m.ents_mut(d).remove(&name); self.m.ents_mut(d2).insert(name2, ino);
        if isdir {
            if d != d2 || dst.is_some() { self.m.nodes.get_mut(&d).unwrap().nlink -= 1; }
            if d != d2 && dst.is_none() { self.m.nodes.get_mut(&d2).unwrap().nlink += 1; }
            self.m.nodes.get_mut(&ino).unwrap().parent = d2;
            let p = self.real(d2); self.fds.get_mut(&ino).unwrap().reparent(p);
        }
        if let Some(x) = dst {
            if isdir { self.m.nodes.remove(&x); self.fds.remove(&x); } else { self.gone(x, false); }
            if self.m.nodes.contains_key(&x) { self.attrs(x, "c").await?; } else { self.is_gone(x).await?; }
        }
        self.attrs(d, "mc").await?; if d2 != d { self.attrs(d2, "mc").await?; }
        let fd = w!(self, self.fs().lookup(None, &self.h(d2), os(&self.m.ents(d2).iter().find(|e| *e.1 == ino).unwrap().0.clone())));
        ensure!("names", "a renamed file is not where it went", fd.as_ref().map(|f| f.ino()) == Ok(ino), "{fd:?} instead of {ino}");
        Ok(())
    }
    pub async fn op_lookup(&mut self) -> R<()> {
        self.begin("names");
        let d = *self.r.pick(&self.m.dirs()); self.hold_dir(d).await?;
        if self.r.chance(1, 2) {
            let Some(name) = self.fresh_name(d) else { return Ok(()) };
            self.note("lookup", format!("{:?} (absent) in {d}", os(&name)));
            let e = w!(self, self.fs().lookup(None, &self.h(d), os(&name))).map(|f| f.ino());
            ensure!("names", "lookup of an absent name", e == Err(libc::ENOENT), "{e:?} for {:?} in {d}", os(&name));
        } else {
            let c: Vec<(Name, u64)> = self.m.ents(d).iter().map(|e| (e.0.clone(), *e.1)).collect(); if c.is_empty() { return Ok(()); }
            let (name, ino) = self.r.pick(&c).clone();
            self.note("lookup", format!("{:?} ({ino}) in {d}", os(&name)));
            let f = w!(self, self.fs().lookup(None, &self.h(d), os(&name)));
            let got = f.as_ref().map(|f| f.ino());
            ensure!("names", "lookup", got == Ok(ino), "{got:?} instead of {ino} for {:?} in {d}", os(&name));
            let isdir = self.m.is_dir(ino);
            let p = f.unwrap().parent();
            ensure!("names", "lookup finds the wrong parent", p == if isdir { Some(self.real(d)) } else { None }, "{p:?} for {ino} in {d}");
            // the way back, by number
            let f = w!(self, self.fs().ilookup(ino)).map(|f| (f.ino(), f.parent()));
            ensure!("names", "ilookup", f == Ok((ino, if isdir { Some(self.real(d)) } else { None })), "{f:?} for {ino} in {d}");
            if let Kind::Link(t) = self.m.nodes[&ino].kind.clone() { self.held(d, &name, ino).await?; let l = w!(self, self.fs().readlink(&self.h(ino))); ensure!("names", "readlink", l.as_ref().map(|x| x.as_bytes()) == Ok(&t[..]), "{l:?} for {ino}"); }
        }
        Ok(())
    }
    /// Read the directory: all of it, then resumed at cookies, then with changes in between
    pub async fn op_readdir(&mut self) -> R<()> {
        let dirs = self.m.dirs();
        let d = if self.r.chance(1, 2) { *dirs.iter().max_by_key(|d| self.m.ents(**d).len()).unwrap() } else { *self.r.pick(&dirs) };
        self.readdir(d, self.r.chance(1, 2)).await
    }
    pub async fn readdir(&mut self, d: u64, changes: bool) -> R<()> {
        self.begin("names"); self.hold_dir(d).await?;
        self.note("readdir", format!("{d}"));
        let fs = self.fs(); let h = self.h(d);
        let all = match w!(self, fs.readdir(&h, 0).try_collect::<Vec<_>>()) { Ok(v) => v, Err(e) => return Err(("names", "readdir fails".into(), format!("errno {e}"))) };
        let nm = |e: &libc::dirent| -> Name { e.d_name[..e.d_namlen as usize].iter().map(|c| *c as u8).collect() };
        let mut want: BTreeMap<Name, (u64, u8)> = self.m.ents(d).iter().map(|(n, i)| (n.clone(), (*i, self.m.nodes[i].kind.dtype()))).collect();
        want.insert(b".".to_vec(), (self.real(d), libc::DT_DIR)); want.insert(b"..".to_vec(), (if d == 1 { self.above } else { self.real(self.m.nodes[&d].parent) }, libc::DT_DIR));
        let mut got = BTreeMap::new();
        for e in &all { let dup = got.insert(nm(e), (e.d_fileno as u64, e.d_type)); ensure!("names", "readdir lists an entry twice", dup.is_none(), "{:?} in {d}", os(&nm(e))); }
        if got != want {
            let miss: Vec<_> = want.iter().filter(|x| got.get(x.0) != Some(x.1)).map(|x| (OsString::from_vec(x.0.clone()), x.1)).collect();
            let more: Vec<_> = got.iter().filter(|x| want.get(x.0) != Some(x.1)).map(|x| (OsString::from_vec(x.0.clone()), x.1)).collect();
            return Err(("names", "readdir does not list what is there".into(), format!("directory {d}: missing {miss:?}, listed instead {more:?}")));
        }
        // resume from some cookies
        for _ in 0..3.min(all.len()) {
            let i = self.r.usize(all.len());
            let rest = match w!(self, fs.readdir(&h, all[i].d_off).try_collect::<Vec<_>>()) { Ok(v) => v, Err(e) => return Err(("names", "readdir fails".into(), format!("errno {e}"))) };
            let a: Vec<Name> = rest.iter().map(nm).collect(); let b: Vec<Name> = all[i + 1..].iter().map(nm).collect();
            ensure!("names", "readdir does not resume where it stopped", a == b, "directory {d}: after entry {i} of {} it lists {:?} instead of {:?}", all.len(), a.iter().map(|n| os(n)).collect::<Vec<_>>(), b.iter().map(|n| os(n)).collect::<Vec<_>>());
        }
        // in small steps, each a new call, as a server without state would
        let mut offs = 0; let mut seen: Vec<Name> = vec![]; let step = 1 + self.r.usize(3);
        let mut removed: BTreeSet<Name> = BTreeSet::new(); let mut added: BTreeSet<Name> = BTreeSet::new();
        if all.len() <= 200 { for i in 0.. {
            ensure!("names", "readdir never ends", i < 1000, "directory {d}");
            let part = w!(self, fs.readdir(&h, offs).take(step).try_collect::<Vec<_>>()).map_err(|e| ("names", "readdir fails".to_string(), format!("errno {e}")))?;
            if part.is_empty() { break; }
            for e in &part { seen.push(nm(e)); offs = e.d_off; }
            if changes && i < 20 && self.r.chance(1, 3) {
                if self.r.chance(1, 2) {
                    // remove an entry that has been listed or not
                    let c: Vec<(Name, u64)> = self.m.ents(d).iter().filter(|e| !self.m.is_dir(*e.1) && !collides(e.0, self.m.ents(d))).map(|e| (e.0.clone(), *e.1)).collect();
                    if !c.is_empty() { let (n, ino) = self.r.pick(&c).clone(); self.unlink(d, &n, ino).await?; removed.insert(n); }
                } else if let Some(ino) = self.create(d, Kind::Reg).await? { let n = self.m.ents(d).iter().find(|e| *e.1 == ino).unwrap().0.clone(); added.insert(n); }
            }
        }
        let fam_changed: BTreeSet<u64> = added.iter().map(|n| ObjKey::dir_entry(os(n)).offset()).collect();
        let mut c: BTreeMap<&Name, u32> = BTreeMap::new(); for n in &seen { *c.entry(n).or_default() += 1; }
        for n in want.keys() {
            // what was there all the time is listed once; in a bucket that changed under the reader, order is not promised
            if removed.contains(n) || added.contains(n) || fam_changed.contains(&ObjKey::dir_entry(os(n)).offset()) { continue; }
            ensure!("names", "readdir in steps misses or repeats an entry", c.get(n) == Some(&1), "directory {d}: {:?} was listed {} times, {} at a time", os(n), c.get(n).unwrap_or(&0), step);
        } }
        Ok(())
    }

    // ------------------------------------------------ data
    fn some_file(&mut self) -> Option<u64> { let c = self.m.of(|n| n.kind == Kind::Reg); if c.is_empty() { None } else { Some(*self.r.pick(&c)) } }
    fn offset(&mut self, ino: u64) -> u64 {
        let rs = self.m.nodes[&ino].rs; let sz = self.m.nodes[&ino].data.size;
        match self.r.below(12) {
            0..=2 => self.r.below(8) * rs, 3 => self.r.below(8) * rs + 1, 4 => (1 + self.r.below(8)) * rs - 1, 5..=7 => self.r.below(8 * rs), 8 => sz, 9 => sz.saturating_sub(self.r.below(rs + 2)),
            10 => sz + self.r.below(3 * rs), _ => if self.o.big { 1u64 << self.r.range(20, 45) } else { self.r.below(40 * rs) },
        }
    }
    fn length(&mut self, ino: u64) -> u64 { let rs = self.m.nodes[&ino].rs; match self.r.below(8) { 0 => rs, 1 => 2 * rs, 2 => rs - 1, 3 => rs + 1, 4 => 1 + self.r.below(16), 5 => 3 * rs + self.r.below(rs), _ => 1 + self.r.below(rs) } }
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        match self.r.below(4) { 0 => vec![self.r.next() as u8 | 1; n], 1 => { let mut v = self.r.bytes(n); for c in v.chunks_mut(64) { if self.r.chance(1, 2) { c.fill(0); } } v } _ => self.r.bytes(n) }
    }
    pub async fn op_write(&mut self) -> R<()> {
        let Some(ino) = self.some_file() else { return Ok(()) };
        let off = self.offset(ino); let n = self.length(ino) as usize;
        self.write(ino, off, n).await
    }
    pub async fn write(&mut self, ino: u64, off: u64, n: usize) -> R<()> {
        self.begin("data"); self.hold(ino).await?; self.pre = Some(now());
        let d = self.content(n);
        self.note("write", format!("{n} at {off} of {ino}"));
        let x = w!(self, self.fs().write(&self.h(ino), off, &d[..], 0));
        ensure!("data", "write fails", x == Ok(n as u32), "{x:?} for {n} bytes at {off}");
        self.m.nodes.get_mut(&ino).unwrap().data.write(off, &d);
        self.attrs(ino, "mc").await?;
        if self.r.chance(1, 3) { self.verify(ino, off.saturating_sub(100), n as u64 + 200).await?; }
        Ok(())
    }
    pub async fn verify(&mut self, ino: u64, off: u64, len: u64) -> R<()> {
        self.begin("data");
        let sg = match w!(self, self.fs().read(&self.h(ino), off, len as usize)) { Ok(s) => s, Err(e) => return Err(("data", "read fails".into(), format!("errno {e} for {len} bytes at {off} of {ino}"))) };
        let mut got = vec![]; for b in sg.iter() { got.extend_from_slice(&b[..]); }
        let want = self.m.nodes[&ino].data.read(off, len);
        ensure!("data", "a read returns the wrong amount", got.len() == want.len(), "{} instead of {} bytes for {len} at {off} of {ino} (size {})", got.len(), want.len(), self.m.nodes[&ino].data.size);
        if got != want { let i = got.iter().zip(&want).position(|x| x.0 != x.1).unwrap(); return Err(("data", "a read returns what was not written".into(), format!("file {ino}: byte {} is {:#x} instead of {:#x} (read of {len} at {off})", off + i as u64, got[i], want[i]))); }
        let t = if self.o.atime { "a" } else { "" };
        self.attrs(ino, t).await
    }
    pub async fn op_read(&mut self) -> R<()> {
        self.begin("data");
        let Some(ino) = self.some_file() else { return Ok(()) }; self.hold(ino).await?;
        let (o, n) = if self.r.chance(1, 4) && self.m.nodes[&ino].data.size < 4 << 20 { (0, self.m.nodes[&ino].data.size + 7) } else { (self.offset(ino), self.length(ino) * if self.r.chance(1, 8) { 5 } else { 1 }) };
        self.note("read", format!("{n} at {o} of {ino}"));
        self.verify(ino, o, n).await
    }
    pub async fn op_truncate(&mut self) -> R<()> {
        self.begin("data");
        let Some(ino) = self.some_file() else { return Ok(()) }; self.hold(ino).await?; self.pre = Some(now());
        let sz = if self.r.chance(1, 8) { 0 } else { self.offset(ino) };
        self.note("truncate", format!("{ino} from {} to {sz}", self.m.nodes[&ino].data.size));
        let e = w!(self, self.fs().setattr(&self.h(ino), SetAttr { size: Some(sz), ..Default::default() }));
        ensure!("data", "truncate fails", e == Ok(()), "{e:?}");
        self.m.nodes.get_mut(&ino).unwrap().data.truncate(sz);
        self.attrs(ino, "mc").await?;
        let rs = self.m.nodes[&ino].rs; self.verify(ino, sz.saturating_sub(rs), 3 * rs).await
    }
    pub async fn op_dealloc(&mut self) -> R<()> {
        self.begin("data");
        let Some(ino) = self.some_file() else { return Ok(()) }; self.hold(ino).await?; self.pre = Some(now());
        let (o, n) = (self.offset(ino), if self.r.chance(1, 10) { u64::MAX / 4 } else { self.length(ino) * (1 + self.r.below(3)) });
        let sz = self.m.nodes[&ino].data.size;
        self.note("deallocate", format!("{n} at {o} of {ino} (size {sz})"));
        let e = w!(self, self.fs().deallocate(&self.h(ino), o, n));
        ensure!("data", "deallocate fails", e == Ok(()), "{e:?}");
        let end = o.saturating_add(n).min(sz);
        self.m.nodes.get_mut(&ino).unwrap().data.zero(o.min(end), end);
        self.attrs(ino, if o < sz { "mc" } else { "" }).await?;
        let rs = self.m.nodes[&ino].rs; self.verify(ino, o.saturating_sub(rs), 5 * rs).await?;
        self.extents(ino).await
    }
    /// Walk a file's data and holes; the space it is said to use is what its data regions cover
    pub async fn extents(&mut self, ino: u64) -> R<()> {
        self.begin("data"); self.hold(ino).await?;
        self.note("lseek", format!("{ino}"));
        let fs = self.fs(); let h = self.h(ino); let data = &self.m.nodes[&ino].data.clone();
        let mut p = 0; let mut sum = 0u64; let mut steps = 0;
        loop {
            steps += 1; if steps > 500 { return Ok(()); }
            match w!(self, fs.lseek(&h, p, SeekWhence::Data)) {
                Ok(s) => {
                    ensure!("data", "lseek goes backwards", s >= p, "{s} for data from {p} of {ino}");
                    ensure!("data", "lseek skips data", !data.nonzero(p, s), "from {p} to {s} of {ino}, but there is data between");
                    ensure!("data", "data beyond the end of file", s < data.size, "data at {s} of {ino}, of size {}", data.size);
                    let e = match w!(self, fs.lseek(&h, s, SeekWhence::Hole)) { Ok(e) => e, Err(e) => return Err(("data", "lseek fails".into(), format!("errno {e}"))) };
                    ensure!("data", "lseek does not move", e > s && e <= data.size, "hole at {e} from data at {s} of {ino}, of size {}", data.size);
                    sum += e - s; p = e;
                    if e == data.size { break; }
                }
                Err(e) => {
                    ensure!("data", "lseek fails", e == libc::ENXIO, "errno {e} from {p} of {ino}");
                    ensure!("data", "lseek skips data", !data.nonzero(p, data.size), "no data from {p} of {ino}, but there is some"); break;
                }
            }
        }
        let a = w!(self, fs.getattr(&h)).unwrap();
        ensure!("data", "a file is charged for other than its data", a.bytes == sum, "file {ino} is charged {} bytes; its data regions cover {sum}", a.bytes);
        Ok(())
    }
    pub async fn op_lseek(&mut self) -> R<()> {
        let Some(ino) = self.some_file() else { return Ok(()) };
        self.extents(ino).await?;
        let o = self.offset(ino); let sz = self.m.nodes[&ino].data.size;
        let a = w!(self, self.fs().lseek(&self.h(ino), o, SeekWhence::Hole));
        if o > sz { ensure!("data", "lseek past the end", a == Err(libc::ENXIO), "{a:?} from {o} of {ino}, of size {sz}"); return Ok(()); }
        match a { Ok(p) => { ensure!("data", "lseek finds no hole", p >= o && p <= sz, "{p} from {o} of {ino}, of size {sz}");
            let rs = self.m.nodes[&ino].rs; let e = ((p / rs + 1) * rs).min(sz);
            ensure!("data", "lseek finds a hole that is data", !self.m.nodes[&ino].data.nonzero(p, e), "hole at {p} of {ino}, but there is data before {e}"); Ok(()) }
            Err(e) => Err(("data", "lseek fails".into(), format!("errno {e} from {o} of {ino}"))) }
    }

    // ------------------------------------------------ attributes
    pub async fn op_setattr(&mut self) -> R<()> {
        self.begin("attrs");
        let c: Vec<u64> = self.m.nodes.keys().copied().filter(|i| !self.m.nodes[i].dead || self.fds.contains_key(i)).collect();
        let ino = *self.r.pick(&c); if self.m.is_dir(ino) { self.hold_dir(ino).await?; } else { self.hold(ino).await?; }
        self.pre = Some(now());
        let mut a = SetAttr::default(); let mut touched = "c".to_string();
        let t = |r: &Rng| Timespec { sec: r.next() as i32 as i64, nsec: r.below(1_000_000_000) as u32 };
        { let r = &self.r; let n = self.m.nodes.get_mut(&ino).unwrap();
          if r.chance(1, 3) { n.perm = (r.next() & 0xfff) as u16; a.perm = Some(n.perm); }
          if r.chance(1, 3) { n.uid = r.next() as u32; a.uid = Some(n.uid); }
          if r.chance(1, 3) { n.gid = r.next() as u32; a.gid = Some(n.gid); }
          if r.chance(1, 3) { n.flags = r.next(); a.flags = Some(n.flags); }
          if r.chance(1, 3) { n.at = t(r); a.atime = Some(n.at); }
          if r.chance(1, 3) { n.mt = t(r); a.mtime = Some(n.mt); }
          if r.chance(1, 3) { n.bt = t(r); a.birthtime = Some(n.bt); }
          if r.chance(1, 4) { n.ct = t(r); a.ctime = Some(n.ct); touched.clear(); } }
        self.note("setattr", format!("{ino} {a:?}"));
        let e = w!(self, self.fs().setattr(&self.h(ino), a));
        ensure!("attrs", "setattr fails", e == Ok(()), "{e:?}");
        self.attrs(ino, &touched).await
    }
    fn xname(&mut self) -> (u8, Name) {
        let s = self.r.below(2) as u8;
        let n = match self.r.below(6) { 0..=2 if !self.xfam[s as usize].is_empty() => self.r.pick(&self.xfam[s as usize]).clone(), 3 => self.r.pick(&["BWCdLQkApB", "D6tLLI4mys"]).as_bytes().to_vec(), 4 => { let mut v = b"user.".to_vec(); v.resize(6 + self.r.usize(240), b'y'); v } _ => self.r.pick(&["x", "y", "comment", "acl"]).as_bytes().to_vec() };
        (s, n)
    }
    pub async fn op_xattr(&mut self) -> R<()> {
        self.begin("attrs");
        let c: Vec<u64> = self.m.nodes.keys().copied().collect();
        let ino = if self.r.chance(1, 2) { c[0.max(self.r.usize(c.len().min(3)))] } else { *self.r.pick(&c) };
        if self.m.nodes[&ino].dead && !self.fds.contains_key(&ino) { return Ok(()); }
        if self.m.is_dir(ino) { self.hold_dir(ino).await?; } else { self.hold(ino).await?; }
        let k = if self.r.chance(1, 2) && !self.m.nodes[&ino].x.is_empty() { let v: Vec<_> = self.m.nodes[&ino].x.keys().cloned().collect(); self.r.pick(&v).clone() } else { self.xname() };
        let (s, name) = k.clone(); let h = self.h(ino); let fs = self.fs();
        match self.r.below(5) {
            0 | 1 => {
                let n = match self.r.below(6) { 0 => 0, 1 => 1 + self.r.usize(100), 2 => *self.r.pick(&[1023usize, 1024, 1025]), 3 => 4096 + self.r.usize(9000), _ => self.r.usize(3000) };
                let v = self.content(n);
                self.note("setextattr", format!("{s}:{:?} of {ino}: {n} bytes", os(&name)));
                let e = w!(self, fs.setextattr(&h, ns(s), os(&name), &v)); ensure!("attrs", "setextattr fails", e == Ok(()), "{e:?}");
                self.m.nodes.get_mut(&ino).unwrap().x.insert(k.clone(), v);
            }
            2 => {
                self.note("deleteextattr", format!("{s}:{:?} of {ino}", os(&name)));
                let e = w!(self, fs.deleteextattr(&h, ns(s), os(&name)));
                let had = self.m.nodes.get_mut(&ino).unwrap().x.remove(&k).is_some();
                ensure!("attrs", "deleteextattr", e == if had { Ok(()) } else { Err(libc::ENOATTR) }, "{e:?} for {s}:{:?} of {ino}, which is {}", os(&name), if had { "there" } else { "absent" });
            }
            _ => { self.note("getextattr", format!("{s}:{:?} of {ino}", os(&name))); }
        }
        self.xget(ino, &k).await?;
        if self.r.chance(1, 3) { self.xlist(ino).await?; }
        Ok(())
    }
    pub async fn xget(&mut self, ino: u64, k: &(u8, Name)) -> R<()> {
        let h = self.h(ino); let fs = self.fs();
        let got = w!(self, fs.getextattr(&h, ns(k.0), os(&k.1))).map(|b| b[..].to_vec());
        let len = w!(self, fs.getextattrlen(&h, ns(k.0), os(&k.1)));
        match self.m.nodes[&ino].x.get(k) {
            Some(v) => {
                ensure!("attrs", "an extended attribute has the wrong value", got.as_ref() == Ok(v), "{}:{:?} of {ino}: {:?} instead of {} bytes {}", k.0, os(&k.1), got.as_ref().map(|g| mon::hex(g)), v.len(), mon::hex(v));
                ensure!("attrs", "an extended attribute has the wrong length", len == Ok(v.len() as u32), "{}:{:?} of {ino}: {len:?} instead of {}", k.0, os(&k.1), v.len());
            }
            None => { ensure!("attrs", "an absent extended attribute", got.as_ref().err() == Some(&libc::ENOATTR) && len == Err(libc::ENOATTR), "{}:{:?} of {ino}: {:?} {len:?}", k.0, os(&k.1), got.as_ref().map(|g| g.len())); }
        }
        Ok(())
    }
    pub async fn xlist(&mut self, ino: u64) -> R<()> {
        let fs = self.fs(); let h = self.h(ino);
        for s in 0..2u8 {
            self.note("listextattr", format!("{ino}"));
            let n0 = ns(s);
            let v = w!(self, fs.listextattr(&h, 64, move |b, x| if x.namespace() == n0 { let n = x.name().as_bytes(); b.extend_from_slice(&(n.len() as u16).to_le_bytes()); b.extend_from_slice(n); }));
            let l = w!(self, fs.listextattrlen(&h, move |x| if x.namespace() == n0 { 2 + x.name().len() as u32 } else { 0 }));
            let v = match v { Ok(v) => v, Err(e) => return Err(("attrs", "listextattr fails".into(), format!("errno {e}"))) };
            ensure!("attrs", "listextattrlen", l == Ok(v.len() as u32), "{l:?} instead of {} for {ino}", v.len());
            let mut got = vec![]; let mut p = &v[..];
            while !p.is_empty() { let n = u16::from_le_bytes([p[0], p[1]]) as usize; got.push(p[2..2 + n].to_vec()); p = &p[2 + n..]; }
            got.sort();
            let want: Vec<Name> = self.m.nodes[&ino].x.keys().filter(|k| k.0 == s).map(|k| k.1.clone()).collect();
            ensure!("attrs", "listextattr does not list what is there", got == want, "name space {s} of {ino}: {:?} instead of {:?}", got.iter().map(|n| os(n)).collect::<Vec<_>>(), want.iter().map(|n| os(n)).collect::<Vec<_>>());
        }
        Ok(())
    }

    // ------------------------------------------------ everything
    pub async fn op_sync(&mut self) -> R<()> {
        self.begin("persist");
        if self.o.focus != "crash" && self.r.chance(1, 3) {
            self.note("sync", "in the background".into());
            let fs = self.fs().clone(); self.bg.push(tokio::spawn(async move { fs.sync().await })); return Ok(());
        }
        self.note("sync", String::new()); w!(self, self.fs().sync()); Ok(())
    }
    /// Wait for everything that was started in the background
    pub async fn settle(&mut self) -> R<()> { for j in std::mem::take(&mut self.bg) { let _ = w!(self, j); } Ok(()) }
    pub async fn op_pause(&mut self) -> R<()> { self.begin("persist"); let ms = *self.r.pick(&[150u64, 300, 6000]); self.note("pause", format!("{ms} ms")); tokio::time::sleep(Duration::from_millis(ms)).await; Ok(()) }
    pub async fn op_dropcache(&mut self) -> R<()> { self.begin("persist"); self.note("dropcache", String::new()); self.db().drop_cache(); Ok(()) }
    pub async fn op_clean(&mut self) -> R<()> {
        self.begin("space");
        let bg = self.r.chance(1, 2);
        self.note("clean", if bg { "in the background".into() } else { String::new() });
        let rx = self.db().clean();
        if bg { self.bg.push(tokio::spawn(async move { let _ = rx.await; })); } else { let _ = w!(self, rx); }
        Ok(())
    }
    pub async fn op_check(&mut self) -> R<()> {
        self.begin("space"); self.note("check", String::new()); self.settle().await?;
        let x = w!(self, self.db().check());
        ensure!("space", "the database's own check fails", matches!(x, Ok(true)), "{x:?}"); Ok(())
    }
    pub async fn op_inactive(&mut self) -> R<()> {
        self.begin("names");
        // directories above something held stay held
        let c: Vec<u64> = self.fds.keys().copied().filter(|i| !self.m.is_dir(*i) ).collect(); if c.is_empty() { return Ok(()); }
        let ino = *self.r.pick(&c); self.inactive(ino).await
    }
    pub async fn inactive(&mut self, ino: u64) -> R<()> {
        let fd = self.fds.remove(&ino).unwrap(); let dead = self.m.nodes[&ino].dead;
        self.note("inactive", format!("{ino}{}", if dead { " (unlinked)" } else { "" }));
        w!(self, self.fs().inactive(fd));
        if dead { self.m.nodes.remove(&ino); self.is_gone(ino).await?; }
        Ok(())
    }
    /// Remove everything; nearly all space must come back, and zones must become usable again
    pub async fn wipe(&mut self) -> R<()> {
        self.settle().await?;
        loop {
            let e: Vec<(u64, Name, u64)> = self.m.dirs().into_iter().flat_map(|d| self.m.ents(d).iter().map(|x| (d, x.0.clone(), *x.1)).collect::<Vec<_>>()).collect();
            if e.is_empty() { break; }
            for (d, n, i) in e {
                if !self.m.is_dir(i) { self.begin("space"); self.unlink(d, &n, i).await?; }
                else if self.m.ents(i).is_empty() { self.begin("space"); self.rmdir(d, &n, i).await?; }
            }
        }
        let k: Vec<u64> = self.fds.keys().copied().collect();
        for i in k { if !self.m.is_dir(i) { self.inactive(i).await?; } else { let fd = self.fds.remove(&i).unwrap(); w!(self, self.fs().inactive(fd)); } }
        let xs: Vec<_> = self.m.nodes[&1].x.keys().cloned().collect();
        for k in xs { let r = w!(self, self.fs().deleteextattr(&self.fs().root().handle(), ns(k.0), os(&k.1))); ensure!("attrs", "deleteextattr", r == Ok(()), "{r:?}"); self.m.nodes.get_mut(&1).unwrap().x.remove(&k); }
        self.area = "space";
        self.note("wipe", String::new());
        for _ in 0..3 { w!(self, self.fs().sync()); let rx = self.db().clean(); let _ = w!(self, rx); }
        w!(self, self.fs().sync());
        let x = w!(self, self.db().check());
        ensure!("space", "the database's own check fails", matches!(x, Ok(true)), "{x:?} after everything was removed");
        let st = w!(self, self.db().stat());
        let (st, dump) = (w!(self, self.db().stat()), self.db().dump_fsm().await.join("\n"));
        ensure!("space", "space is not given back", st.used <= 8, "{} blocks are in use with everything removed\n{dump}", st.used);
        // "FreeSpaceMap: 25 Zones: 24 Empty, 1 Open, 0 Closed, 0 Dead", once per cluster
        for l in dump.lines().filter(|l| l.contains(" Zones: ")) {
            let n: Vec<u64> = l.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            ensure!("space", "zones are not given back", n[1] + 3 >= n[0], "{l}\n{dump}");
        }
        Ok(())
    }
    /// Unmount and import again, perhaps having forgotten to tell the file system which files are not in use any more
    pub async fn op_reopen(&mut self) -> R<()> {
        self.begin("persist");
        let clean = self.r.chance(1, 2);
        if clean { let k: Vec<u64> = self.fds.keys().copied().collect(); for i in k { if !self.m.is_dir(i) { self.inactive(i).await?; } else { let fd = self.fds.remove(&i).unwrap(); w!(self, self.fs().inactive(fd)); } } }
        w!(self, self.fs().sync());
        self.area = "persist";
        self.note("reopen", format!("{}", if clean { "after a clean unmount" } else { "with files in use" }));
        self.fds.clear();
        let dead = self.m.of(|n| n.dead); for d in &dead { self.m.nodes.remove(d); }
        self.close().await?;
        let cache = *self.r.pick(&[1_000_000usize, 4_000_000, 30_000_000]);
        let (disks, wb) = (self.disks.clone(), self.o.wb);
        let there = self.there.clone().unwrap_or_else(|| disks.paths.clone());
        let db = match w!(self, import_from(&there, cache, wb)) { Ok(d) => Arc::new(d), Err(e) => return Err(("persist", "the pool cannot be imported".into(), format!("{e:?}"))) };
        self.db = Some(db);
        let t = w!(self, self.db().lookup_fs(""));
        ensure!("persist", "the root file system is gone", t == Ok((None, Some(self.tree))), "{t:?}");
        let fs = w!(self, Fs::new(self.db().clone(), self.tree));
        let p = w!(self, fs.get_prop(PropertyName::RecordSize)); ensure!("persist", "a property is lost", p.as_ref().map(|x| x.0.clone()).ok() == Some(Property::RecordSize(self.o.recsize)), "{p:?}");
        let p = w!(self, fs.get_prop(PropertyName::Atime)); ensure!("persist", "a property is lost", p.as_ref().map(|x| x.0.clone()).ok() == Some(Property::Atime(self.o.atime)), "{p:?}");
        self.fs = Some(Arc::new(fs));
        for d in dead { let a = w!(self, self.fs().igetattr(d)); ensure!("persist", "an unlinked file outlives the mount", a.is_err(), "inode {d}: {a:?}"); }
        // everything must be as it was
        self.everything().await.map_err(|b| (match b.0 { "names" => "persist/names", "data" => "persist/data", "attrs" => "persist/attrs", x => x }, format!("after a sync and a new import: {}", b.1), b.2))
    }
    pub async fn close(&mut self) -> R<()> {
        self.settle().await?;
        self.fs = None;
        let db = self.db.take().unwrap();
        match finishes(close(db)).await { Some(Ok(())) => Ok(()), Some(Err(e)) => Err(("persist", "the database cannot be closed".into(), e)), None => Err(("hang", "shutdown does not finish".into(), String::new())) }
    }
    /// Compare everything
    pub async fn everything(&mut self) -> R<()> {
        let mut todo = vec![1u64]; let mut seen = BTreeSet::new();
        while let Some(d) = todo.pop() {
            self.readdir(d, false).await?;
            let e: Vec<(Name, u64)> = self.m.ents(d).iter().map(|x| (x.0.clone(), *x.1)).collect();
            for (n, i) in e { if self.m.is_dir(i) { todo.push(i); } if seen.insert(i) { self.held(d, &n, i).await?; } }
        }
        let all: Vec<u64> = self.m.nodes.keys().copied().collect();
        for i in all {
            if i != 1 && !self.fds.contains_key(&i) { continue; }
            self.attrs(i, "").await?;
            if self.m.nodes[&i].kind == Kind::Reg {
                let sz = self.m.nodes[&i].data.size;
                if sz < 1 << 20 { self.verify(i, 0, sz + 10).await?; } else {
                    let ps: Vec<u64> = self.m.nodes[&i].data.pages.keys().copied().collect(); let mut last = 0;
                    for p in ps { let o = p * PG; if o + PG <= last { continue; } let s = o.saturating_sub(5000).max(last); self.verify(i, s, 100_000).await?; last = s + 100_000; }
                }
                self.extents(i).await?;
            }
            if let Kind::Link(t) = self.m.nodes[&i].kind.clone() { let l = w!(self, self.fs().readlink(&self.h(i))); ensure!("names", "readlink", l.as_ref().map(|x| x.as_bytes()) == Ok(&t[..]), "{l:?} for {i}"); }
            let ks: Vec<_> = self.m.nodes[&i].x.keys().cloned().collect();
            for k in ks { self.xget(i, &k).await?; }
            self.xlist(i).await?;
        }
        Ok(())
    }
    /// One random operation
    pub async fn step(&mut self) -> R<()> {
            let w: &[(u64, u8)] = match self.o.focus {
            "names" => &[(30, 0), (10, 1), (12, 2), (8, 3), (16, 4), (10, 5), (8, 6), (4, 7), (1, 8), (2, 12), (3, 13), (1, 14), (1, 15), (4, 17), (1, 18)],
            "data" => &[(6, 0), (1, 1), (3, 2), (40, 7), (16, 8), (12, 9), (14, 10), (8, 11), (3, 13), (2, 14), (2, 15), (2, 17), (1, 18)],
            "attrs" => &[(12, 0), (2, 1), (4, 2), (1, 3), (2, 4), (4, 7), (2, 9), (18, 12), (50, 16), (3, 13), (2, 14), (2, 15), (1, 18)],
            "degrade" => &[(12, 0), (2, 1), (6, 2), (2, 3), (4, 4), (34, 7), (8, 8), (6, 9), (4, 10), (4, 12), (8, 16), (8, 13), (6, 14), (3, 15), (2, 17), (5, 19), (2, 20)],
            "multi" => &[(12, 0), (4, 1), (8, 2), (4, 3), (8, 4), (3, 5), (4, 6), (20, 7), (10, 8), (6, 9), (6, 10), (3, 11), (5, 12), (8, 16), (3, 13), (3, 14), (3, 15), (5, 17), (2, 19)],
            "multi-io" => &[(6, 0), (5, 2), (24, 7), (34, 8), (5, 9), (4, 10), (2, 12), (3, 16), (10, 13), (3, 14), (12, 15), (2, 17), (10, 19)],
            "crash" => &[(3, 19), (14, 0), (5, 1), (8, 2), (4, 3), (8, 4), (16, 7), (6, 9), (4, 10), (5, 12), (8, 16), (3, 15), (4, 17)],
            "persist" => &[(14, 0), (5, 1), (8, 2), (4, 3), (8, 4), (1, 6), (16, 7), (4, 8), (4, 9), (4, 10), (5, 12), (10, 16), (5, 13), (4, 14), (3, 15), (4, 17), (6, 18)],
            _ => &[(12, 0), (2, 1), (14, 2), (4, 3), (8, 4), (30, 7), (6, 8), (8, 9), (8, 10), (6, 16), (8, 13), (3, 14), (4, 15), (6, 17), (2, 18), (6, 19), (3, 20)],
        };
        let mut x = self.r.below(w.iter().map(|p| p.0).sum());
        let op = w.iter().find(|p| if x < p.0 { true } else { x -= p.0; false }).unwrap().1;
        // keep the tree small enough to look at often
        let op = if op == 0 && self.m.nodes.len() > 60 { 2 } else { op };
        match op {
            0 => self.op_create().await, 1 => self.op_link().await, 2 => self.op_unlink().await, 3 => self.op_rmdir().await, 4 => self.op_rename().await, 5 => self.op_lookup().await, 6 => self.op_readdir().await,
            7 => self.op_write().await, 8 => self.op_read().await, 9 => self.op_truncate().await, 10 => self.op_dealloc().await, 11 => self.op_lseek().await, 12 => self.op_setattr().await,
            13 => self.op_sync().await, 14 => self.op_pause().await, 15 => self.op_dropcache().await, 16 => self.op_xattr().await, 17 => self.op_inactive().await, 18 => self.op_reopen().await,
            19 => self.op_clean().await, _ => self.op_check().await,
        }
    }
}
trait TsOr { fn unwrap_or_default_ts(self) -> Timespec; }
impl TsOr for Option<Timespec> { fn unwrap_or_default_ts(self) -> Timespec { self.unwrap_or(Timespec { sec: 0, nsec: 0 }) } }
fn collides(n: &[u8], e: &BTreeMap<Name, u64>) -> bool { let k = ObjKey::dir_entry(os(n)).offset(); e.keys().any(|x| x != n && ObjKey::dir_entry(os(x)).offset() == k) }

pub fn opts(r: &Rng, focus: &'static str) -> Opts {
    Opts { shape: Shape::random(r), cache: *r.pick(&[1_000_000usize, 2_000_000, 8_000_000, 64_000_000]), wb: if r.chance(1, 2) { Some(*r.pick(&[64usize << 20, 200 << 20])) } else { None },
        recsize: *r.pick(&[9u8, 12, 12, 13, 14, 17]), atime: r.chance(1, 2), jitter: *r.pick(&[0u64, 1, 3, 9]), focus, big: r.chance(1, 2) }
}
/// Report `bad` if it is this property's business
pub fn report(ck: &mut Check, mine: &[&str], bad: Bad, case: u64, log: &VecDeque<String>, o: &str) -> bool {
    let (area, key, text) = bad;
    if area.split('/').any(|a| mine.contains(&a)) || area == "hang" || area == "panic" { ck.violation(&key, &json!({"case": case, "area": area, "what": text, "history": log.iter().collect::<Vec<_>>(), "setup": o})); true }
    else { if std::env::var("MON_V").is_ok() { println!("OTHER {area} {key} {text} case {case}\n{o}\n{}", log.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("\n")); } ck.count(&format!("seen, but another property's: {area}"), 1); false }
}
pub fn run(focus: &'static str, mine: &[&'static str]) {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "model_conformance", "one case = one random history of operations of one client on a file system on a fresh pool, compared with a model after each; distinct = distinct end states");
    let cases = ck.n(500, 6000); 
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let steps = if case % 8 == 7 { 600 } else { 160 };
        let r = Rng::case(ck.seed ^ mon::hash(focus), case);
        let o = opts(&r, focus);
        let log = Arc::new(std::sync::Mutex::new((VecDeque::new(), "setup", String::new())));
        let l2 = log.clone(); let o2 = o.clone();
        let seed = r.next();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(async move {
            let mut c = match Client::new(seed, o2).await { Ok(c) => c, Err(b) => return (Err(b), BTreeMap::new(), 0, 0) };
            let mut out = Ok(());
            for s in 0..steps {
                let r = c.step().await;
                { let mut l = l2.lock().unwrap(); l.0 = c.log.clone(); l.1 = c.area; }
                if let Err(b) = r { out = Err(b); break; }
                if s % 40 == 39 { if let Err(b) = c.everything().await { out = Err(b); break; } }
            }
            if out.is_ok() { out = c.everything().await; }
            if out.is_ok() { out = c.op_reopen().await; }
            let h = c.m.hash(); if out.is_ok() && focus == "space" { out = c.wipe().await; }
            let ops = c.disks.ops();
            { let mut l = l2.lock().unwrap(); l.0 = c.log.clone(); }
            let n = c.n.clone();
            c.fds.clear();
            if out.is_ok() { out = c.close().await; }
            (out, n, h, ops)
        }));
        let (lg, area) = { let l = log.lock().unwrap(); (l.0.clone(), l.1) };
        match res {
            Ok((out, n, h, ops)) => {
                for (k, v) in n { ck.count(k, v); ck.evals(v); }
                ck.count("disk operations", ops); ck.distinct(h);
                if let Err(b) = out { report(&mut ck, mine, b, case, &lg, &format!("{o:?}")); }
                else if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "last operations": lg.iter().rev().take(8).collect::<Vec<_>>()})); }
            }
            Err(p) => { ck.eval(); ck.distinct(case); let p = crate::first_panic(before, p); crate::panicked(&mut ck, area, &p, case, &lg, &format!("{o:?}")); }
        }
        let ps: Vec<String> = mon::ALL_PANICS.lock().unwrap()[before.min(100)..].to_vec();
        for p in ps { if crate::in_repo(&p) { crate::panicked(&mut ck, area, &p, case, &lg, &format!("{o:?}")); } }
    }
    ck.assume("the client keeps to what bfffs asks of its callers: it looks names up before it creates or renames over them, makes no directory loops, hands in handles of files in use");
    cleanup();
    ck.finish()
}
