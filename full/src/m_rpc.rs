//! The server of bfffsd and the client library, connected by sockets of this process: commands of clients who may and
//! may not give them, against a model.
use crate::{env::*, m_fs::{ensure, w, R}};
use bfffs_core::{controller::TreeID, property::*, rpc::{fs::DsInfo, pool::PoolStatus}, vdev::Health, Error, Uuid};
use client::{Bfffs, Device};
use fuse3::raw::{Filesystem, Request};
use futures::{future::join_all, StreamExt, TryStreamExt};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, ffi::OsStr, os::unix::fs::PermissionsExt, path::{Path, PathBuf}, sync::{Arc, Mutex}, time::Duration};
use tokio_file::monitor::{self as disk, mounts};
use tokio_seqpacket::UnixSeqpacket;

#[path = "/repo/bfffs/src/lib.rs"]
#[allow(dead_code)]
mod client;
#[allow(dead_code, unused_imports)]
pub mod daemon {
    include!("/repo/bfffs/src/bin/bfffsd/main.rs");
    pub mod monitored {
        use super::*;
        pub use super::fs::FuseFs;
        /// What main does, but for its end
        pub async fn serve(args: Vec<String>) -> impl std::future::Future<Output = ()> + Send {
            let cli = Cli::try_parse_from(args).unwrap();
            let sock = Socket::new(&cli.sock);
            let d = Arc::new(Bfffsd::new(cli).await);
            d.run(sock)
        }
    }
}
use daemon::monitored::{serve, FuseFs};

type Res<T> = Result<T, client::Error>;
#[derive(Clone, Default)]
struct Set { id: u64, atime: Option<bool>, recsize: Option<u8>, mp: Option<String>, tokens: BTreeSet<String> }
#[derive(Clone, Debug)]
enum Op { Create(String, Vec<Property>), Destroy(String), List(String, Vec<PropertyName>, usize, Option<usize>), Set(String, Vec<Property>), Mount(String), Unmount(String, bool), Clean(String), Status(String), Pools(Option<String>), Drop, Fault(String, Uuid, Option<PathBuf>), Attach(String, Uuid, Option<PathBuf>, PathBuf) }
enum Out { Id(Res<TreeID>), Unit(Res<()>), List(Res<Vec<DsInfo>>, Option<Res<Vec<DsInfo>>>), Status(Res<PoolStatus>), Pools(Res<Vec<String>>) }
struct Client { uid: u32, c: Bfffs }
struct Rpc { r: Rng, o: super::m_fs::Opts, disks: Disks, sock: PathBuf, me: u32, clients: Vec<Client>, m: BTreeMap<String, Set>, mounted: BTreeMap<String, String>, gone: BTreeSet<String>, n: BTreeMap<&'static str, u64>, log: Arc<Mutex<VecDeque<String>>>, area: &'static str, seen: BTreeSet<u64>, counter: u64, status: Option<PoolStatus>, sick: Option<Uuid>, last: bool }
const NAMES: [&str; 10] = ["a", "b", "c", "home", "usr", "a b", "résumé", "A", "testpool", "ab"];
const PROPS: [PropertyName; 4] = [PropertyName::Name, PropertyName::Mountpoint, PropertyName::Atime, PropertyName::RecordSize];
fn parent(n: &str) -> Option<&str> { n.rsplit_once('/').map(|x| x.0) }
fn opname(o: &Op) -> &'static str { match o { Op::Create(..) => "create", Op::Destroy(_) => "destroy", Op::List(..) => "list", Op::Set(..) => "set", Op::Mount(_) => "mount", Op::Unmount(..) => "unmount", Op::Clean(_) => "clean", Op::Status(_) => "status", Op::Pools(_) => "pools", Op::Drop => "drop cache", Op::Fault(..) => "fault", Op::Attach(..) => "attach" } }
fn changes(o: &Op) -> bool { !matches!(o, Op::List(..) | Op::Status(_) | Op::Pools(_)) }
/// The part of the pool that a command is about: None is all of it
fn domain(o: &Op) -> Option<String> {
    match o { Op::Create(n, _) | Op::Destroy(n) | Op::List(n, ..) | Op::Set(n, _) | Op::Mount(n) | Op::Unmount(n, _) => n.split('/').nth(1).map(|x| x.to_string()), Op::Clean(_) | Op::Pools(_) | Op::Drop => Some("/".into()), _ => None }
}
fn errno(e: &client::Error) -> Option<Error> { match e { client::Error::Other(e) => Some(*e), _ => None } }
fn ok<T>(r: &Res<T>) -> Result<(), String> { match r { Ok(_) => Ok(()), Err(e) => Err(errno(e).map(|e| format!("{e:?}")).unwrap_or_else(|| format!("{e:?}"))) } }
async fn exec(c: &Bfffs, o: &Op) -> Out {
    match o {
        Op::Create(n, p) => Out::Id(c.fs_create(n.clone(), p.clone()).await),
        Op::Destroy(n) => Out::Unit(c.fs_destroy(n.clone()).await),
        Op::List(n, p, depth, None) => Out::List(c.fs_list(n.clone(), p.clone(), None, *depth).try_collect().await, None),
        Op::List(n, p, depth, Some(k)) => {
            let a: Res<Vec<DsInfo>> = c.fs_list(n.clone(), p.clone(), None, *depth).take(1 + k).try_collect().await;
            let at = match &a { Ok(v) if v.len() == 1 + k && *k > 0 => Some(v[*k].offset), Ok(_) => None, Err(_) => return Out::List(a, None) };
            Out::List(a, Some(c.fs_list(n.clone(), p.clone(), at, *depth).try_collect().await))
        }
        Op::Set(n, p) => Out::Unit(c.fs_set(n.clone(), p.clone()).await),
        Op::Mount(n) => Out::Unit(c.fs_mount(n.clone()).await),
        Op::Unmount(n, f) => Out::Unit(c.fs_unmount(n, *f).await),
        Op::Clean(p) => Out::Unit(c.pool_clean(p.clone()).await),
        Op::Status(p) => Out::Status(c.pool_status(p.clone()).await),
        Op::Pools(p) => Out::Pools(c.pool_list(p.clone(), None).map_ok(|p| p.name).try_collect().await),
        Op::Drop => Out::Unit(c.drop_cache().await),
        Op::Fault(p, u, None) => Out::Unit(c.pool_fault(p.clone(), *u).await),
        Op::Fault(p, _, Some(path)) => Out::Unit(c.pool_fault(p.clone(), path.clone()).await),
        Op::Attach(p, u, None, leaf) => Out::Unit(c.pool_attach(p.clone(), Device::from(*u), leaf.clone()).await),
        Op::Attach(p, _, Some(to), leaf) => Out::Unit(c.pool_attach(p.clone(), to.clone(), leaf.clone()).await),
    }
}
impl Rpc {
    fn note(&mut self, s: String) { if std::env::var("MON_LOG").is_ok() { println!("{s}"); } let mut l = self.log.lock().unwrap(); if l.len() > 100 { l.pop_front(); } l.push_back(s); }
    fn kids(&self, n: &str) -> Vec<String> { self.m.keys().filter(|k| parent(k) == Some(n)).cloned().collect() }
    fn value(&self, n: &str, p: PropertyName) -> (Property, PropertySource) {
        if p == PropertyName::Name { return (Property::Name(n.into()), PropertySource::None); }
        let mut x = Some(n); let mut level = 0;
        while let Some(y) = x {
            let s = &self.m[y];
            let v = match p { PropertyName::Atime => s.atime.map(Property::Atime), PropertyName::RecordSize => s.recsize.map(Property::RecordSize), _ => s.mp.clone().map(|m| Property::Mountpoint(if level == 0 { m } else { format!("{m}/{}", &n[y.len() + 1..]) })) };
            if let Some(v) = v { return (v, PropertySource::Set(level)); }
            x = parent(y); level += 1;
        }
        (match p { PropertyName::Atime => Property::Atime(true), PropertyName::RecordSize => Property::RecordSize(17), _ => Property::Mountpoint(format!("/{n}")) }, PropertySource::Default)
    }
    fn mp(&self, n: &str) -> String { self.value(n, PropertyName::Mountpoint).0.as_str().to_string() }
    fn some(&self) -> String { if self.m.is_empty() { return NAME.into(); } let v: Vec<&String> = self.m.keys().collect(); (*self.r.pick(&v)).clone() }
    fn name(&mut self) -> String {
        match self.r.below(12) {
            0..=4 => self.some(),
            5 if !self.gone.is_empty() => { let v: Vec<_> = self.gone.iter().cloned().collect(); self.r.pick(&v).clone() }
            6 => self.r.pick(&["", "pool", "testpoo", "testpool2/a", "testpoolb", "other/a", "/a"]).to_string(),
            7 => format!("{}/nosuch/{}", self.some(), self.r.pick(&NAMES)),
            8 => { self.counter += 1; let mut x = format!("{}/long{}", self.some(), self.counter); x.extend(std::iter::repeat('x').take(self.r.usize(200))); x }
            _ => format!("{}/{}", self.some(), self.r.pick(&NAMES)),
        }
    }
    /// Some of the properties of `n` that may be set, each at most once
    fn props(&self, n: &str, most: usize) -> Vec<Property> {
        let mut v = vec![];
        for p in [0, 1, 2] { if v.len() < most && self.r.chance(1, 2) { v.push(match p { 0 => Property::Atime(self.r.chance(1, 2)), 1 => Property::RecordSize(12 + self.r.below(9) as u8),
            // to move a mounted file system is a defect of its own (C26)
            _ if self.mounted.keys().any(|m| m == n || m.starts_with(&format!("{n}/"))) => continue,
            _ => Property::mountpoint(*self.r.pick(&["/mnt", "/usr/home", "/x y", "/a/b/c"])) }); } }
        v
    }
    fn pool_name(&self) -> String { if self.r.chance(1, 5) { self.r.pick(&["", "nopool", "testpoo", "testpool/"]).to_string() } else { NAME.into() } }
    fn leaf(&self) -> (Uuid, Option<PathBuf>) {
        let all: Vec<(Uuid, PathBuf)> = self.status.iter().flat_map(|s| s.clusters.iter()).flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()).map(|l| (l.uuid, l.path.clone())).collect();
        if all.is_empty() { return (Uuid::default(), None); }
        let (u, p) = self.r.pick(&all).clone(); (u, if self.r.chance(1, 2) { Some(p) } else { None })
    }
    fn op(&mut self) -> Op {
        if self.m.is_empty() && self.r.chance(2, 3) { return Op::Create(NAME.into(), vec![]); }
        match self.r.below(100) {
            0..=19 => { let p = self.some(); let n = if p.matches('/').count() > 5 || self.m.len() > 250 || self.r.chance(1, 3) { self.name() } else if self.r.chance(1, 2) { format!("{p}/{}", self.r.pick(&NAMES)) } else { self.counter += 1; format!("{p}/{}{}", self.r.pick(&NAMES), self.counter) };
                // to set a mount point that is none after all has the file system created without it
                let v = if self.r.chance(1, 15) { vec![Property::mountpoint("relative")] } else { self.props(&n, 3) }; Op::Create(n, v) }
            20..=31 => Op::Destroy(if self.r.chance(1, 2) { self.name() } else { let v: Vec<String> = self.m.keys().filter(|k| self.kids(k).is_empty() && !self.mounted.contains_key(*k)).cloned().collect(); if v.is_empty() { self.some() } else { self.r.pick(&v).clone() } }),
            32..=49 => { let n = if self.r.chance(1, 6) { self.name() } else { self.some() }; let mut p: Vec<PropertyName> = PROPS.to_vec(); self.r.shuffle(&mut p); p.truncate(self.r.usize(5)); let depth = *self.r.pick(&[0, 1, 1, 2, 3, usize::MAX]); Op::List(n, p, depth, if depth == 1 && self.r.chance(1, 3) { Some(self.r.usize(6)) } else { None }) }
            50..=63 => { let n = if self.r.chance(1, 8) { self.name() } else { self.some() }; let v = if self.r.chance(1, 10) && !self.mounted.contains_key(&n) { vec![Property::mountpoint(*self.r.pick(&["relative", "", "none"]))] } else { self.props(&n, 3) }; Op::Set(n, v) }
            64..=71 => Op::Mount(if self.r.chance(1, 6) { self.name() } else { self.some() }),
            72..=79 => { let v: Vec<String> = self.mounted.keys().cloned().collect(); let n = if v.is_empty() || self.r.chance(1, 4) { self.name() } else { self.r.pick(&v).clone() }; Op::Unmount(n, self.r.chance(1, 2)) }
            80..=82 => Op::Clean(self.pool_name()), 83..=87 => Op::Status(self.pool_name()),
            88..=90 => Op::Pools(match self.r.below(3) { 0 => None, _ => Some(self.pool_name()) }),
            91..=93 => Op::Drop,
            94..=96 => { let p = self.pool_name(); match self.r.below(3) { 0 => Op::Fault(p, Uuid::new_v4(), None), 1 => Op::Fault(p, Uuid::default(), Some(PathBuf::from("/dev/nosuch"))), _ => { let (u, path) = self.leaf(); Op::Fault(p, u, path) } } }
            _ => { let p = self.pool_name(); let (u, path) = self.leaf(); match self.r.below(2) { 0 => Op::Attach(p, Uuid::new_v4(), None, self.disks.paths[0].clone()), _ => Op::Attach(p, u, path, PathBuf::from("/dev/nosuch")) } }
        }
    }
    /// May this disk be taken out of service, now?
    fn spare(&self) -> bool { self.last && self.sick.is_none() && (self.o.shape.m > 1 || self.o.shape.f > 0) }
    fn judge(&mut self, o: &Op, out: Out, uid: u32, others: usize) -> R<()> {
        *self.n.entry(opname(o)).or_default() += 1;
        let with = format!(" by user {uid} of a server of user {}{}", self.me, if others > 0 { format!(", with {others} others under way") } else { String::new() });
        macro_rules! say { ($key:expr, $c:expr, $($f:tt)*) => { ensure!("rpc", $key, $c, "{}{with}", format!($($f)*)) } }
        let allowed = uid == self.me;
        let got: Result<(), String> = match &out { Out::Id(r) => ok(r), Out::Unit(r) => ok(r), Out::List(r, _) => ok(r), Out::Status(r) => ok(r), Out::Pools(r) => ok(r) };
        self.seen.insert(mon::hash(&(opname(o), format!("{got:?}"), allowed, others.min(3))));
        if changes(o) && !allowed {
            *self.n.entry("commands of somebody else").or_default() += 1;
            // the client itself looks for the disk
            let look = matches!(o, Op::Fault(p, _, Some(path)) | Op::Attach(p, _, Some(path), _) if p != NAME || path.starts_with("/dev"));
            say!("somebody else's command is not refused", got == Err("EPERM".into()) || look && got.is_err(), "{o:?}: {got:?}");
            return Ok(());
        }
        let want = |e: Option<Error>| match e { None => Ok(()), Some(e) => Err(format!("{e:?}")) };
        match (o, out) {
            (Op::Create(n, props), Out::Id(r)) => {
                let hollow = n.starts_with(&format!("{NAME}/")) && n.split('/').any(|c| c.is_empty());
                let e = if hollow { Some(Error::EINVAL) } else if self.m.contains_key(n) { Some(Error::EEXIST) } else if n == NAME || parent(n).is_some_and(|p| self.m.contains_key(p)) { None } else { Some(Error::ENOENT) };
                let bad = e.is_none() && props.iter().any(|p| matches!(p, Property::Mountpoint(m) if !m.starts_with('/')));
                if bad { say!("create", got.is_err(), "{o:?}: {got:?}"); self.m.insert(n.clone(), Set { id: u64::MAX, ..Default::default() }); self.gone.remove(n); }
                else {
                    say!("create", got == want(e), "{o:?}: {got:?} instead of {e:?}");
                    if let Ok(id) = r {
                        let mut s = Set { id: id.0, ..Default::default() };
                        for p in props { match p { Property::Atime(b) => s.atime = Some(*b), Property::RecordSize(x) => s.recsize = Some(*x), Property::Mountpoint(m) => s.mp = Some(m.clone()), _ => () } }
                        self.m.insert(n.clone(), s); self.gone.remove(n);
                    }
                }
            }
            (Op::Destroy(n), _) => {
                let e = if !self.m.contains_key(n) { Some(Error::ENOENT) } else if self.mounted.contains_key(n) || !self.kids(n).is_empty() { Some(Error::EBUSY) } else { None };
                say!("destroy", got == want(e), "{o:?}: {got:?} instead of {e:?}");
                if got.is_ok() { self.m.remove(n); self.gone.insert(n.clone()); }
            }
            (Op::Set(n, props), _) => {
                let e = if props.is_empty() && got.is_ok() { None } else if !self.m.contains_key(n) { Some(Error::ENOENT) } else if props.iter().any(|p| matches!(p, Property::Mountpoint(m) if !m.starts_with('/'))) { Some(Error::EINVAL) } else { None };
                say!("set", got == want(e), "{o:?}: {got:?} instead of {e:?}");
                if got.is_ok() { if let Some(s) = self.m.get_mut(n) { for p in props { match p { Property::Atime(b) => s.atime = Some(*b), Property::RecordSize(x) => s.recsize = Some(*x), Property::Mountpoint(m) => s.mp = Some(m.clone()), _ => () } } } }
            }
            (Op::Mount(n), _) => {
                let injected = mounts::FAIL.lock().unwrap().take();
                let e = if !self.m.contains_key(n) { Some(Error::ENOENT) } else if self.mounted.contains_key(n) || self.mounted.values().any(|m| *m == self.mp(n)) { Some(Error::EBUSY) } else { None };
                // the failure may have been used by this one, or there was no use for it
                let hit = injected.is_none() && self.area == "a mount that fails";
                if hit { say!("a mount fails, but its caller isn't told", got.is_err(), "{o:?}: {got:?}"); }
                else { say!("mount", got == want(e), "{o:?}: {got:?} instead of {e:?}"); }
                if got.is_ok() {
                    let at = self.mp(n);
                    say!("mounted elsewhere", mounts::TABLE.lock().unwrap().contains_key(&at), "{o:?} at {at:?}: {:?}", mounts::TABLE.lock().unwrap().keys());
                    self.mounted.insert(n.clone(), at);
                }
            }
            (Op::Unmount(n, force), _) => {
                let busy = self.mounted.get(n).is_some_and(|m| mounts::TABLE.lock().unwrap().get(m).is_some_and(|x| x.busy));
                let still = self.mounted.get(n).is_some_and(|m| mounts::TABLE.lock().unwrap().contains_key(m));
                if !self.mounted.contains_key(n) { say!("unmount", got.is_err() && (self.m.contains_key(n) || got == Err("ENOENT".into())), "{o:?}: {got:?}, but it is not mounted"); }
                else if busy && !force { say!("unmount", got == Err("EBUSY".into()) && still, "{o:?}: {got:?}, but it is busy"); }
                else { say!("unmount", got.is_ok(), "{o:?}: {got:?}"); say!("unmounted, but still mounted", !still, "{o:?}"); self.mounted.remove(n); }
            }
            (Op::Clean(p), _) => say!("clean", got == want(if p == NAME { None } else { Some(Error::ENOENT) }), "{o:?}: {got:?}"),
            (Op::Drop, _) => say!("drop cache", got.is_ok(), "{got:?}"),
            (Op::Pools(p), Out::Pools(r)) => {
                let e = if p.as_ref().is_none_or(|p| p == NAME) { None } else { Some(Error::ENOENT) };
                say!("pools", got == want(e), "{o:?}: {got:?}"); if let Ok(v) = r { say!("pools", v == [NAME], "{o:?}: {v:?}"); }
            }
            (Op::Status(p), Out::Status(r)) => {
                say!("status", got == want(if p == NAME { None } else { Some(Error::ENOENT) }), "{o:?}: {got:?}");
                if let Ok(s) = r {
                    let leaves: Vec<&PathBuf> = s.clusters.iter().flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()).map(|l| &l.path).collect();
                    let mut a: Vec<&PathBuf> = leaves.clone(); a.sort(); let mut b: Vec<&PathBuf> = self.disks.paths.iter().collect(); b.sort();
                    let sh = &self.o.shape;
                    say!("the status of another pool", a == b && s.name == NAME && s.clusters.len() == sh.clusters && s.clusters.iter().all(|c| c.mirrors.len() == sh.n && c.mirrors.iter().all(|m| m.leaves.len() == sh.m)), "{s:?}");
                    for l in s.clusters.iter().flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()) {
                        if let Some(old) = &self.status { say!("a disk of another identity", old.clusters.iter().flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()).any(|x| x.path == l.path && x.uuid == l.uuid), "{:?} {:?}", l, old); }
                        say!("the health of a disk is wrong", (l.health == Health::Online) == (self.sick != Some(l.uuid)), "{l:?}, {:?} was faulted", self.sick);
                    }
                    say!("the health of the pool is wrong", (s.health == Health::Online) == self.sick.is_none() && !s.health.is_faulted(), "{:?}, {:?} was faulted", s.health, self.sick);
                    if self.sick.is_none() { if let Some(old) = &self.status { say!("the status of another pool", *old == s, "{s:?} instead of {old:?}"); } else { self.status = Some(s); } }
                }
            }
            (Op::Fault(p, u, path), _) => {
                let known = self.status.iter().flat_map(|s| s.clusters.iter()).flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()).any(|l| l.uuid == *u && path.as_ref().is_none_or(|x| *x == l.path));
                if p == NAME && known { say!("fault", got.is_ok(), "{o:?}: {got:?}"); self.sick = Some(*u); }
                else { say!("fault", got.is_err() && (got == Err("ENOENT".into()) || p == NAME && path.is_some() && got == Err("NoDevice".into())), "{o:?}: {got:?}"); }
            }
            (Op::Attach(..), _) => say!("attach", got.is_err(), "{o:?}: {got:?}"),
            (Op::List(n, props, depth, cut), Out::List(r, more)) => {
                say!("list", got == want(if self.m.contains_key(n) { None } else { Some(Error::ENOENT) }), "{o:?}: {got:?}");
                let Ok(v) = r else { return Ok(()) };
                let deep = |k: &str| k[n.len()..].matches('/').count();
                let below: BTreeSet<&String> = self.m.keys().filter(|k| *k == n || k.starts_with(&format!("{n}/")) && deep(k) <= *depth).collect();
                let mut all: Vec<&DsInfo> = v.iter().collect();
                say!("list", all.first().is_some_and(|d| d.name == *n), "{o:?}: the file system itself is not the first: {:?}", all.first());
                if let Some(m) = &more {
                    let m = match m { Ok(m) => m, Err(e) => return Err(("rpc", "list".into(), format!("{o:?}: {e:?}{with}"))) };
                    say!("list", m.first().is_some_and(|d| d.name == *n), "{o:?}: the file system itself is not the first: {:?}", m.first());
                    if cut.is_some_and(|k| k > 0 && v.len() == 1 + k) { all.extend(&m[1..]); } else { all = m.iter().collect(); }
                }
                let names: Vec<&String> = all.iter().map(|d| &d.name).collect();
                let once: BTreeSet<&String> = names.iter().cloned().collect();
                say!("a file system is listed twice", once.len() == names.len(), "{o:?}: {} of {} {:?}", names.len() - once.len(), names.len(), names.iter().filter(|x| names.iter().filter(|y| y == x).count() > 1).take(5).collect::<Vec<_>>());
                say!("a list is not of what there is", once == below, "{o:?}: without {:?}, but with {:?}", below.difference(&once).take(5).collect::<Vec<_>>(), once.difference(&below).take(5).collect::<Vec<_>>());
                for d in &all {
                    let w: Vec<(Property, PropertySource)> = props.iter().map(|p| self.value(&d.name, *p)).collect();
                    let same = d.props.len() == w.len() && d.props.iter().zip(&w).all(|(a, b)| a == b || matches!((a, b), ((Property::Mountpoint(x), s), (Property::Mountpoint(y), t)) if Path::new(x) == Path::new(y) && s == t));
                    say!("a property has the wrong value", same, "{o:?}: {:?} has {:?} instead of {w:?}", d.name, d.props);
                }
                *self.n.entry("file systems listed").or_default() += all.len() as u64;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    async fn connect(&mut self, uid: u32) -> R<Client> {
        tokio_seqpacket::monitor::next_is(uid, uid.wrapping_add(7));
        match w!(self, Bfffs::new(&self.sock)) { Ok(c) => Ok(Client { uid, c }), Err(e) => Err(("rpc", "the server does not take clients".into(), format!("{e:?}"))) }
    }
    /// Somebody who does not speak the language, or leaves without waiting for an answer
    async fn noise(&mut self) -> R<()> {
        self.area = "noise";
        let uid = self.other();
        tokio_seqpacket::monitor::next_is(uid, 7);
        let s = match w!(self, UnixSeqpacket::connect(&self.sock)) { Ok(s) => s, Err(e) => return Err(("rpc", "the server does not take clients".into(), format!("{e:?}"))) };
        use speedy::Writable;
        let good = bfffs_core::rpc::fs::list(self.some(), PROPS.to_vec(), None).write_to_vec().unwrap();
        let packet = match self.r.below(6) { 0 => { let n = 1 + self.r.usize(300); self.r.bytes(n) } 1 => good[..self.r.usize(good.len())].to_vec(), 2 => { let mut g = good.clone(); let i = self.r.usize(g.len()); g[i] ^= 1 << self.r.below(8); g } 3 => vec![0xff; 4096 + self.r.usize(3000)], 4 => { let mut g = good.clone(); g.extend(self.r.bytes(9)); g } _ => good.clone() };
        let what = format!("{} bytes of noise, {}", packet.len(), if self.r.chance(1, 2) { "waiting" } else { "leaving" }); let wait = what.ends_with("waiting");
        self.note(what.clone()); *self.n.entry("noise").or_default() += 1;
        let _ = s.send(&packet).await;
        if wait { let mut b = vec![0; 8192]; let r = w!(self, s.recv(&mut b)); self.seen.insert(mon::hash(&("noise", packet.len().min(4096) / 512, format!("{:?}", r.map(|n| n.min(2)))))); }
        else { for _ in 0..self.r.usize(4) { tokio::task::yield_now().await; } }
        drop(s);
        Ok(())
    }
    fn other(&self) -> u32 { loop { let u = *self.r.pick(&[0u32, 1, 1000, 1001, 1008, 65534, u32::MAX]); if u != self.me { return u; } } }
    async fn batch(&mut self) -> R<()> {
        if self.r.chance(1, 15) { self.noise().await?; }
        if self.r.chance(1, 10) { let i = self.r.usize(self.clients.len()); let uid = if i == 0 || self.r.chance(1, 2) { self.me } else { self.other() }; let c = self.connect(uid).await?; self.clients[i] = c; }
        if let Some(m) = { let v: Vec<String> = self.mounted.values().cloned().collect(); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } } { let b = self.r.chance(1, 3); if let Some(x) = mounts::TABLE.lock().unwrap().get_mut(&m) { x.busy = b; } }
        let k = if self.r.chance(1, 2) { 1 } else { 2 + self.r.usize(self.clients.len() - 1) };
        let mut order: Vec<usize> = (0..self.clients.len()).collect(); self.r.shuffle(&mut order);
        let mut ops: Vec<(usize, Op)> = vec![];
        let mut fails = false;
        for who in order.into_iter().take(k) {
            for _ in 0..6 {
                let o = self.op(); let mine = self.clients[who].uid == self.me;
                if mine && matches!(&o, Op::Fault(p, u, path) if p == NAME && *u != Uuid::default() && self.status.iter().flat_map(|s| s.clusters.iter()).flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()).any(|l| l.uuid == *u) && path.as_ref().is_none_or(|p| !p.starts_with("/dev/nosuch"))) && !self.spare() { continue; }
                let does = |o: &Op, mine: bool| changes(o) && mine;
                let meets = ops.iter().any(|(j, p)| { let theirs = self.clients[*j].uid == self.me; (does(&o, mine) || does(p, theirs)) && (domain(&o).is_none() || domain(p).is_none() || domain(&o) == domain(p)) });
                // two mounts could be for one place
                if meets || matches!(o, Op::Mount(_)) && ops.iter().any(|(_, p)| matches!(p, Op::Mount(_) | Op::Unmount(..))) || matches!(o, Op::Unmount(..)) && ops.iter().any(|(_, p)| matches!(p, Op::Mount(_))) { continue; }
                ops.push((who, o)); break;
            }
        }
        self.area = "commands";
        if let [(_, Op::Mount(_))] = &ops[..] { if self.r.chance(1, 5) { fails = true; self.area = "a mount that fails"; *mounts::FAIL.lock().unwrap() = Some(*self.r.pick(&[libc::EIO, libc::ENOENT, libc::EPERM])); } }
        for (i, o) in &ops { let u = self.clients[*i].uid; self.note(format!("user {u}: {o:?}{}{}", if ops.len() > 1 { format!(" (one of {})", ops.len()) } else { String::new() }, if fails { ", fails" } else { "" })); }
        let outs = { let s = &*self; match finishes(join_all(ops.iter().enumerate().map(|(j, (i, o))| { let c = &s.clients[*i].c; let y = s.r.usize(5) * j.min(1); async move { for _ in 0..y { tokio::task::yield_now().await; } exec(c, o).await } }))).await { Some(x) => x, None => return Err(("hang", "commands are not answered".into(), format!("{ops:?}"))) } };
        if ops.len() > 1 { *self.n.entry("commands at once").or_default() += ops.len() as u64; }
        let others = ops.len().saturating_sub(1);
        for ((i, o), x) in ops.iter().zip(outs) { let u = self.clients[*i].uid; self.judge(o, x, u, others)?; }
        *mounts::FAIL.lock().unwrap() = None;
        let mut ids: Vec<u64> = self.m.values().map(|s| s.id).filter(|i| *i != u64::MAX).collect(); let all = ids.len(); ids.sort(); ids.dedup();
        ensure!("rpc", "two file systems of one identity", ids.len() == all, "{:?} after {ops:?}", self.m.iter().map(|(n, s)| (n, s.id)).collect::<Vec<_>>());
        // nothing is mounted that was not asked for
        let t: BTreeSet<String> = mounts::TABLE.lock().unwrap().keys().cloned().collect(); let want: BTreeSet<String> = self.mounted.values().cloned().collect();
        ensure!("rpc", "something else is mounted", t == want, "{t:?} instead of {want:?} after {ops:?}");
        if self.r.chance(1, 6) { self.visit().await?; }
        Ok(())
    }
    /// Use what is mounted: it must be the file system that was named
    async fn visit(&mut self) -> R<()> {
        self.area = "use";
        let v: Vec<(String, String)> = self.mounted.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); if v.is_empty() { return Ok(()); }
        let (n, at) = self.r.pick(&v).clone();
        let ff: Arc<dyn std::any::Any + Send + Sync> = match mounts::TABLE.lock().unwrap().get(&at) { Some(m) => m.fs.clone(), None => return Ok(()) };
        let ff = ff.downcast_ref::<FuseFs>().unwrap();
        let q = Request { unique: 1, uid: 0, gid: 0, pid: 1 };
        if !self.n.contains_key("init") { }
        for t in self.m[&n].tokens.clone() { let e = w!(self, ff.lookup(q, 1, OsStr::new(&t))); ensure!("rpc", "another file system is mounted", e.is_ok(), "{n:?} at {at:?} lacks {t}: {:?}", e.err()); let i = e.unwrap().attr.ino; w!(self, ff.forget(q, i, 1)); }
        self.counter += 1; let t = format!("token{}", self.counter);
        let e = w!(self, ff.lookup(q, 1, OsStr::new(&t))); ensure!("rpc", "another file system is mounted", e.is_err(), "{n:?} at {at:?} has {t} already");
        let e = w!(self, ff.mkdir(q, 1, OsStr::new(&t), 0o755, 0)); ensure!("rpc", "a mounted file system cannot be used", e.is_ok(), "{n:?}: {:?}", e.err());
        let i = e.unwrap().attr.ino; w!(self, ff.forget(q, i, 1));
        self.note(format!("{t} is made in {n:?}")); *self.n.entry("use").or_default() += 1;
        self.m.get_mut(&n).unwrap().tokens.insert(t);
        Ok(())
    }
    async fn one(&mut self, o: Op) -> R<()> { let u = self.clients[0].uid; self.note(format!("user {u}: {o:?}")); self.area = "commands"; let x = match finishes(exec(&self.clients[0].c, &o)).await { Some(x) => x, None => return Err(("hang", "a command is not answered".into(), format!("{o:?}"))) }; self.judge(&o, x, u, 0) }
    async fn everything(&mut self) -> R<()> {
        self.one(Op::List(NAME.into(), PROPS.to_vec(), usize::MAX, None)).await?;
        let gone: Vec<String> = self.gone.iter().take(5).cloned().collect();
        for n in gone { self.one(Op::List(n, vec![], 0, None)).await?; }
        self.one(Op::Status(NAME.into())).await
    }
    async fn session(&mut self, i: usize) -> R<()> {
        self.area = "setup"; self.last = i == 2;
        if i == 0 { let db = self.disks.database(self.o.cache); w!(self, db.sync_transaction()).map_err(|e| ("rpc", "sync".to_string(), format!("{e:?}")))?; w!(self, db.shutdown()); }
        if self.r.chance(1, 3) { std::fs::write(&self.sock, b"").unwrap(); } // left behind by a server that crashed
        nix::unistd::monitor_euid(self.me);
        let mut args: Vec<String> = vec!["bfffsd".into(), "--sock".into(), self.sock.display().to_string(), "-o".into(), format!("cache_size={}", self.o.cache)];
        if let Some(w) = self.o.wb { args.push(format!("-owriteback_size={w}")); }
        args.push(NAME.into());
        let mut p: Vec<String> = self.disks.paths.iter().map(|p| p.display().to_string()).collect(); self.r.shuffle(&mut p);
        if self.r.chance(1, 3) { p.insert(self.r.usize(p.len()), "/dev/nosuch".into()); }
        if self.r.chance(1, 3) { let b = self.disks.dir.0.join("blank"); std::fs::File::create(&b).unwrap().set_len(4 << 20).unwrap(); p.insert(self.r.usize(p.len()), b.display().to_string()); }
        args.extend(p);
        let f = w!(self, serve(args));
        let _server = tokio::spawn(f);
        let mode = std::fs::metadata(&self.sock).map(|m| m.permissions().mode() & 0o777).unwrap_or(0);
        ensure!("rpc", "not everybody can reach the server", mode == 0o666, "{mode:o}");
        self.clients.clear();
        for k in 0..2 + self.r.usize(4) { let uid = if k == 0 || k > 1 && self.r.chance(1, 2) { self.me } else { self.other() }; let c = self.connect(uid).await?; self.clients.push(c); }
        self.note(format!("a server of user {}, clients {:?}", self.me, self.clients.iter().map(|c| c.uid).collect::<Vec<_>>()));
        self.one(Op::Status(NAME.into())).await?;
        if i == 0 { self.one(Op::Create(NAME.into(), vec![])).await?; } else { self.everything().await?; }
        if i == 0 && self.r.chance(1, 3) {
            // more than fit into one answer
            let p = format!("{NAME}/many"); self.one(Op::Create(p.clone(), vec![])).await?;
            let l = self.r.usize(120);
            for k in 0..40 + self.r.usize(120) { let mut n = format!("{p}/{k}"); n.extend(std::iter::repeat('y').take(self.r.usize(l + 1))); self.one(Op::Create(n, vec![])).await?; }
            self.everything().await?;
        }
        for i in 0..20 + self.r.usize(60) { self.batch().await?; if i % 30 == 29 { self.everything().await?; } }
        self.everything().await?;
        for n in self.mounted.keys().cloned().collect::<Vec<_>>() { self.one(Op::Unmount(n, true)).await?; }
        // the server syncs by itself
        tokio::time::sleep(Duration::from_secs(20)).await;
        self.clients.clear();
        Ok(())
    }
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "model_conformance", "one evaluation = one pool administered through three servers in turn by a random history of commands of clients of several users, some given at the same time; distinct = distinct (command, answer, allowed, how many others were under way)");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x59c0, case);
        let o = super::m_fs::opts(&r, "rpc");
        let o = super::m_fs::Opts { shape: o.shape.clone().sized(96 << 20), ..o };
        let setup = format!("{o:?}");
        let log = Arc::new(Mutex::new(VecDeque::new())); let l2 = log.clone();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| {
            let disks = Disks::new(&o.shape); disks.jitter(r.next(), o.jitter);
            let sock = disks.dir.0.join("bfffsd.sock");
            let me = *r.pick(&[0u32, 1001]);
            let mut s = Rpc { r: Rng::new(r.next()), o: o.clone(), disks, sock, me, clients: vec![], m: BTreeMap::new(), mounted: BTreeMap::new(), gone: BTreeSet::new(), n: BTreeMap::new(), log: l2, area: "", seen: BTreeSet::new(), counter: 0, status: None, sick: None, last: false };
            let mut out = Ok(());
            for i in 0..3 {
                let rt = rt(); out = rt.block_on(s.session(i)); s.clients.clear(); s.mounted.clear(); mounts::TABLE.lock().unwrap().clear(); *mounts::FAIL.lock().unwrap() = None; drop(rt);
                if out.is_err() { break; }
                if s.sock.exists() { out = Err(("rpc", "the server leaves its socket behind".into(), String::new())); break; }
            }
            (out, s.n, s.seen, s.m.len())
        });
        mounts::TABLE.lock().unwrap().clear(); *mounts::FAIL.lock().unwrap() = None;
        let lg = log.lock().unwrap().clone();
        ck.eval();
        let repo_panics: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.iter().filter(|p| crate::in_repo(p)).cloned().collect()).unwrap_or_default();
        match res {
            Ok((out, n, seen, sets)) => {
                for (k, v) in n { ck.count(k, v); } for h in seen { ck.distinct(h); }
                match out { Ok(()) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "file systems at the end": sets, "last commands": lg.iter().rev().take(8).collect::<Vec<_>>()})); },
                    Err(b) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}\n{}", lg.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("\n")); } match repo_panics.first() { Some(p) => crate::panicked(&mut ck, "rpc", p, case, &lg, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})) } } }
            }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}\n{}", lg.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("\n")); } crate::panicked(&mut ck, "rpc", &p, case, &lg, &setup); }
        }
        for p in repo_panics { crate::panicked(&mut ck, "rpc", &p, case, &lg, &setup); }
    }
    cleanup();
    ck.finish()
}
