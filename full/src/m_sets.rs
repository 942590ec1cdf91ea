//! Datasets and their properties, through the controller, against a model; one command at a time and several at once.
use crate::{env::*, m_fs::{ensure, w, R}};
use bfffs_core::{Error, controller::{Controller, FsDirent, TreeID}, database::Database, fs::{Fs, SetAttr}, property::*};
use futures::{FutureExt, StreamExt, TryStreamExt, future::join_all};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, ffi::OsString, path::Path, sync::{Arc, Mutex}};

#[derive(Clone, Default)]
struct Set { id: u64, atime: Option<bool>, recsize: Option<u8>, mp: Option<String>, files: BTreeMap<String, (Vec<u8>, u8)> }
/// A mounted file system, and the properties it goes by
struct Mounted { fs: Arc<Fs>, atime: bool, recsize: u8 }
#[derive(Clone, Debug)]
enum Op { Create(String), Destroy(String), Put(String, Property), Get(String, PropertyName), Mount(String), List(String, Vec<usize>), File(String, String, usize), Check, Sync, Clean, Drop }
enum Out { Id(Result<TreeID, Error>), Unit(Result<(), Error>), Prop(Result<(Property, PropertySource), Error>), Fs(Result<Arc<Fs>, Error>), List(Result<Vec<FsDirent>, Error>), Bool(Result<bool, Error>), File(Result<(), String>) }
struct Sets { r: Rng, o: super::m_fs::Opts, disks: Arc<Disks>, ctl: Option<Controller>, m: BTreeMap<String, Set>, mounted: BTreeMap<String, Mounted>, gone: BTreeSet<String>, n: BTreeMap<&'static str, u64>, log: Arc<Mutex<VecDeque<String>>>, area: &'static str, seen: BTreeSet<u64>, counter: u64, alike: Vec<String> }
const NAMES: [&str; 14] = ["a", "b", "c", "home", "usr", "a b", "résumé", "a.b", "A", "ab", "-", "testpool", ".", ".."];
/// As found by collide::short
const ALIKE: [[&str; 3]; 4] = [["ifogifk\"", "B$n-UZH~", "X*[%}%q9"], ["_G]BNbI2", "mid`ael.", "-C|6*<#w"], ["B7&5u%8K", "enebhhb,", "R+Li&ewS"], ["n`nhfnb\"", "\"BmRYO)Q", "{PYMG*.W"]];
fn parent(n: &str) -> Option<&str> { n.rsplit_once('/').map(|x| x.0) }
fn opname(o: &Op) -> &'static str { match o { Op::Create(_) => "create", Op::Destroy(_) => "destroy", Op::Put(..) => "set", Op::Get(..) => "get", Op::Mount(_) => "mount", Op::List(..) => "list", Op::File(..) => "use", Op::Check => "check", Op::Sync => "sync", Op::Clean => "clean", Op::Drop => "drop cache" } }
/// What a command needs to stay as it is, and what it changes
fn footprint(o: &Op) -> (Vec<String>, Vec<String>) {
    let up = |n: &str| -> Vec<String> { let mut v = vec![]; let mut x = Some(n); while let Some(y) = x { v.push(y.to_string()); x = parent(y); } v };
    let key = |p: PropertyName| match p { PropertyName::Atime => "a", PropertyName::RecordSize => "r", _ => "m" };
    let alike = |n: &String| parent(n).filter(|p| ALIKE.iter().any(|row| row.contains(&&n[p.len() + 1..]))).map(|p| format!("{p}#alike"));
    match o {
        Op::Create(n) => (parent(n).map(|p| p.to_string()).into_iter().collect(), [n.clone(), format!("{}#new", parent(n).unwrap_or(""))].into_iter().chain(alike(n)).collect()),
        Op::Destroy(n) => (vec![format!("{n}#new"), format!("{n}#gone")], [n.clone(), format!("{}#gone", parent(n).unwrap_or("")), format!("{n}#mount")].into_iter().chain(alike(n)).collect()),
        Op::Put(n, p) => (vec![n.clone(), format!("{n}#mount")], vec![format!("{n}#{}", key(p.name()))]),
        Op::Get(n, p) => (up(n).into_iter().flat_map(|x| [format!("{x}#{}", key(*p)), x]).collect(), vec![]),
        Op::Mount(n) => (up(n).into_iter().flat_map(|x| [format!("{x}#a"), format!("{x}#r"), x]).collect(), vec![format!("{n}#mount")]),
        Op::List(n, _) => (vec![n.clone(), format!("{n}#new"), format!("{n}#gone")], vec![]),
        Op::File(n, f, _) => (vec![n.clone(), format!("{n}#mount"), format!("{n}#a"), format!("{n}#r")], vec![format!("{n}#file#{f}")]),
        // the database's own check is of a database that does not change
        Op::Check => (vec!["#quiet".into()], vec![]),
        Op::Sync | Op::Clean => (vec![], vec!["#quiet".into()]), Op::Drop => (vec![], vec![]),
    }
}
fn clash(a: &(Vec<String>, Vec<String>), b: &(Vec<String>, Vec<String>)) -> bool {
    // two creations in one directory do not get in each other's way, nor do two removals
    let free = |x: &String| x.ends_with("#new") || x.ends_with("#gone") || x == "#quiet";
    a.1.iter().any(|x| b.0.contains(x) || !free(x) && b.1.contains(x)) || b.1.iter().any(|x| a.0.contains(x))
        || a.0.contains(&"#quiet".to_string()) && !b.1.is_empty() || b.0.contains(&"#quiet".to_string()) && !a.1.is_empty()
}
async fn exec(ctl: &Controller, o: &Op, fs: Option<Arc<Fs>>) -> Out {
    match o {
        Op::Create(n) => Out::Id(ctl.create_fs(n).await),
        Op::Destroy(n) => Out::Unit(ctl.destroy_fs(n).await),
        Op::Put(n, p) => Out::Unit(ctl.set_prop(n, p.clone()).await),
        Op::Get(n, p) => Out::Prop(ctl.get_prop(n.clone(), *p).await),
        Op::Mount(n) => Out::Fs(ctl.new_fs(n).await),
        Op::List(n, chunks) => {
            let mut all: Vec<FsDirent> = vec![]; let mut offs = None;
            if chunks.is_empty() { return Out::List(ctl.list_fs(n, None).try_collect().await); }
            for c in chunks.iter().cycle() {
                let part: Vec<FsDirent> = match ctl.list_fs(n, offs).take(*c).try_collect().await { Ok(p) => p, Err(e) => return Out::List(Err(e)) };
                if part.is_empty() || all.len() > 500 { break; }
                offs = Some(part.last().unwrap().offs); all.extend(part);
            }
            Out::List(Ok(all))
        }
        Op::File(_, f, n) => Out::File(file(&fs.unwrap(), f, *n).await),
        Op::Check => Out::Bool(ctl.check().await),
        Op::Sync => Out::Unit(ctl.sync_transaction().await),
        Op::Clean => { if let Ok(rx) = ctl.clean(NAME) { let _ = rx.await; } Out::Unit(Ok(())) }
        Op::Drop => { ctl.drop_cache(); Out::Unit(Ok(())) }
    }
}
fn content(f: &str, n: usize) -> Vec<u8> { let r = Rng::new(mon::hash(f)); r.bytes(n) }
async fn file(fs: &Arc<Fs>, f: &str, n: usize) -> Result<(), String> {
    let root = fs.root(); let d = root.handle();
    let fd = fs.create(&d, &OsString::from(f), 0o644, 0, 0).await.map_err(|e| format!("create: errno {e}"))?;
    let x = fs.write(&fd.handle(), 0, &content(f, n)[..], 0).await.map_err(|e| format!("write: errno {e}"))?;
    if x as usize != n { return Err(format!("write: {x} of {n} bytes")); }
    fs.inactive(fd).await; Ok(())
}
impl Sets {
    fn note(&mut self, s: String) { if std::env::var("MON_LOG").is_ok() { println!("{s}"); } let mut l = self.log.lock().unwrap(); if l.len() > 120 { l.pop_front(); } l.push_back(s); }
    fn ctl(&self) -> &Controller { self.ctl.as_ref().unwrap() }
    fn kids(&self, n: &str) -> Vec<String> { self.m.keys().filter(|k| parent(k) == Some(n)).cloned().collect() }
    fn value(&self, n: &str, p: PropertyName) -> (Property, PropertySource) {
        let mut x = Some(n); let mut level = 0;
        while let Some(y) = x {
            let s = &self.m[y];
            let v = match p { PropertyName::Atime => s.atime.map(Property::Atime), PropertyName::RecordSize => s.recsize.map(Property::RecordSize), _ => s.mp.clone().map(|m| Property::Mountpoint(if level == 0 { m } else { format!("{m}/{}", &n[y.len() + 1..]) })) };
            if let Some(v) = v { return (v, PropertySource::Set(level)); }
            x = parent(y); level += 1;
        }
        (match p { PropertyName::Atime => Property::Atime(true), PropertyName::RecordSize => Property::RecordSize(17), _ => Property::Mountpoint(format!("/{n}")) }, PropertySource::Default)
    }
    fn some(&self) -> String { if self.m.is_empty() { return NAME.into(); } let v: Vec<&String> = self.m.keys().collect(); (*self.r.pick(&v)).clone() }
    fn name(&mut self) -> String {
        // one that is there, was there, might be there, or cannot
        match self.r.below(14) {
            0..=3 => self.some(),
            4 if !self.gone.is_empty() => { let v: Vec<_> = self.gone.iter().cloned().collect(); self.r.pick(&v).clone() }
            5 => { let s = self.some(); format!("{NAME}{}", s.strip_prefix(NAME).unwrap().trim_start_matches('/')) } // as if the pool's name went on
            6 => self.r.pick(&["", "pool", "testpoo", "testpool2/a", "testpoolb", "other/a", "/a"]).to_string(),
            7 => format!("{}/nosuch/{}", self.some(), self.r.pick(&NAMES)),
            8 if self.r.chance(1, 2) => { let s = self.some(); match self.r.below(3) { 0 => format!("{s}//{}", self.r.pick(&NAMES)), 1 => format!("{NAME}/{}", s.strip_prefix(NAME).unwrap()) + if s == NAME { "/x" } else { "" }, _ => if s == NAME { format!("{s}/{}/", self.r.pick(&NAMES)) } else { format!("{s}/") } } }
            9 => { let s = if self.r.chance(1, 2) { NAME.to_string() } else { self.some() }; format!("{s}/{}", self.r.pick(&self.alike)) }
            8 => { self.counter += 1; let mut x = format!("{}/long{}", self.some(), self.counter); x.extend(std::iter::repeat('x').take(self.r.usize(240))); x }
            _ => format!("{}/{}", self.some(), self.r.pick(&NAMES)),
        }
    }
    fn op(&mut self) -> Op {
        if self.m.is_empty() && self.r.chance(2, 3) { return Op::Create(NAME.into()); }
        match self.r.below(100) {
            0..=21 => Op::Create(if self.m.len() > 25 { self.name() } else { let p = self.some(); if p.matches('/').count() > 6 || self.r.chance(1, 3) { self.name() } else { format!("{p}/{}", self.r.pick(&NAMES)) } }),
            22..=37 => Op::Destroy(if self.r.chance(1, 2) { self.name() } else { let v: Vec<String> = self.m.keys().filter(|k| self.kids(k).is_empty() && !self.mounted.contains_key(*k)).cloned().collect(); if v.is_empty() { self.some() } else { self.r.pick(&v).clone() } }),
            38..=53 => { let n = if self.r.chance(1, 8) { self.name() } else { self.some() };
                Op::Put(n.clone(), match self.r.below(5) { 0 | 1 => Property::Atime(self.r.chance(1, 2)), 2 | 3 => Property::RecordSize(12 + self.r.below(9) as u8),
                    // to set the mount point of a mounted file system is a defect of its own
                    _ if self.mounted.contains_key(&n) => Property::Atime(false),
                    _ => Property::mountpoint(*self.r.pick(&["/mnt", "/usr/home", "/", "/x y", "/a/b/c", "relative", "", "none"])) }) }
            54..=67 => { let n = if self.r.chance(1, 6) { self.name() } else { self.some() }; Op::Get(n, *self.r.pick(&[PropertyName::Atime, PropertyName::RecordSize, PropertyName::Mountpoint])) }
            68..=76 => Op::Mount(if self.r.chance(1, 6) { self.name() } else { self.some() }),
            77..=85 => { let n = if self.r.chance(1, 6) { self.name() } else { self.some() }; Op::List(n, (0..self.r.usize(3)).map(|_| 1 + self.r.usize(4)).collect()) }
            86..=92 => { let v: Vec<String> = self.mounted.keys().cloned().collect(); if v.is_empty() { return Op::Sync; } self.counter += 1; Op::File(self.r.pick(&v).clone(), format!("f{}", self.counter), 1 + self.r.usize(20000)) }
            93 => Op::Check, 94 | 95 => Op::Sync, 96 => Op::Clean, _ => Op::Drop,
        }
    }
    /// Judge what a command said by what was so before it, and note what it changed
    async fn judge(&mut self, o: &Op, out: Out, others: usize) -> R<()> {
        *self.n.entry(opname(o)).or_default() += 1;
        let with = if others > 0 { format!(", with {others} other commands under way") } else { String::new() };
        macro_rules! sets { ($key:expr, $c:expr, $($f:tt)*) => { ensure!("sets", $key, $c, "{}{with}", format!($($f)*)) } }
        let said;
        match (o, out) {
            (Op::Create(n), Out::Id(r)) => {
                let hollow = n.starts_with(&format!("{NAME}/")) && n.split('/').any(|c| c.is_empty());
                // the forest keeps names by their hashes, and has room for one of each
                let alike = parent(n).is_some_and(|p| { let l = &n[p.len() + 1..]; self.alike.iter().any(|a| a == l) && self.alike.iter().any(|a| a != l && self.m.contains_key(&format!("{p}/{a}"))) });
                let want = if hollow { Err(Error::EINVAL) } else if self.m.contains_key(n) || alike { Err(Error::EEXIST) } else if n == NAME || parent(n).is_some_and(|p| self.m.contains_key(p)) { Ok(()) } else { Err(Error::ENOENT) };
                said = format!("{:?}", r.map(drop));
                match (r, want) {
                    (Ok(id), Ok(())) => {
                        self.m.insert(n.clone(), Set { id: id.0, ..Default::default() }); self.gone.remove(n);
                    }
                    (r, want) => sets!("create", r.map(drop) == want, "{n:?}: {r:?} instead of {want:?}"),
                }
            }
            (Op::Destroy(n), Out::Unit(r)) => {
                let want = if !self.m.contains_key(n) { Err(Error::ENOENT) } else if self.mounted.contains_key(n) || !self.kids(n).is_empty() { Err(Error::EBUSY) } else { Ok(()) };
                sets!("destroy", r == want, "{n:?}: {r:?} instead of {want:?}"); said = format!("{r:?}");
                if r.is_ok() { self.m.remove(n); self.gone.insert(n.clone()); }
            }
            (Op::Put(n, p), Out::Unit(r)) => {
                let want = if !self.m.contains_key(n) { Err(Error::ENOENT) } else { match p { Property::Mountpoint(m) if !m.starts_with('/') => Err(Error::EINVAL), _ => Ok(()) } };
                sets!("set", r == want, "{p:?} of {n:?}: {r:?} instead of {want:?}"); said = format!("{r:?} {:?}", p.name());
                if r.is_ok() {
                    let s = self.m.get_mut(n).unwrap(); let mo = self.mounted.get_mut(n);
                    match p { Property::Atime(b) => { s.atime = Some(*b); if let Some(mo) = mo { mo.atime = *b; } } Property::RecordSize(x) => { s.recsize = Some(*x); if let Some(mo) = mo { mo.recsize = *x; } } Property::Mountpoint(m) => s.mp = Some(m.clone()), _ => () }
                }
            }
            (Op::Get(n, p), Out::Prop(r)) => {
                let want = if !self.m.contains_key(n) { Err(Error::ENOENT) } else { Ok(self.value(n, *p)) };
                said = format!("{:?}", r.as_ref().map(|x| (x.1, self.mounted.contains_key(n))));
                let same = match (&r, &want) { (Ok((Property::Mountpoint(a), s)), Ok((Property::Mountpoint(b), t))) => Path::new(a) == Path::new(b) && s == t, (a, b) => a == b };
                sets!("a property has the wrong value", same, "{p:?} of {n:?}: {r:?} instead of {want:?}");
            }
            (Op::Mount(n), Out::Fs(r)) => {
                let want = if !self.m.contains_key(n) { Err(Error::ENOENT) } else if self.mounted.contains_key(n) { Err(Error::EBUSY) } else { Ok(()) };
                said = format!("{:?}", r.as_ref().map(drop));
                match (r, want) {
                    (Ok(fs), Ok(())) => {
                        let m = Mounted { fs, atime: self.value(n, PropertyName::Atime).0.as_bool(), recsize: self.value(n, PropertyName::RecordSize).0.as_u8() };
                        self.mounted.insert(n.clone(), m);
                    }
                    (r, want) => sets!("mount", r.as_ref().map(drop) == want.as_ref().map(drop), "{n:?}: {:?} instead of {want:?}", r.map(drop)),
                }
            }
            (Op::List(n, c), Out::List(r)) => {
                said = format!("{:?} by {:?}", r.as_ref().map(|v| v.len()), c);
                if !self.m.contains_key(n) { let e = r.map(|v| v.len()); sets!("list", e == Err(Error::ENOENT), "{n:?}: {e:?} instead of ENOENT"); }
                else {
                    let v = match r { Ok(v) => v, Err(e) => return Err(("sets", "list".into(), format!("{n:?}: {e:?}{with}"))) };
                    let mut got: Vec<(String, u64)> = v.into_iter().map(|d| (d.name, d.id.0)).collect(); got.sort();
                    let mut want: Vec<(String, u64)> = self.kids(n).into_iter().map(|k| { let i = self.m[&k].id; (k, i) }).collect(); want.sort();
                    sets!("list", got == want, "{n:?}, {c:?} at a time: {got:?} instead of {want:?}");
                }
            }
            (Op::File(n, f, len), Out::File(r)) => {
                said = "file".into();
                sets!("a mounted file system cannot be used", r.is_ok(), "{n:?}: {r:?}");
                let rs = self.mounted[n].recsize; self.m.get_mut(n).unwrap().files.insert(f.clone(), (content(f, *len), rs));
                self.use_it(n, Some(f)).await?;
            }
            (Op::Check, Out::Bool(r)) => { sets!("the database's own check fails", r == Ok(true), "{r:?}"); said = String::new(); }
            (_, Out::Unit(r)) => { sets!("a command fails", r.is_ok(), "{o:?}: {r:?}"); said = String::new(); }
            _ => unreachable!(),
        }
        self.seen.insert(mon::hash(&(opname(o), said, others.min(3))));
        Ok(())
    }
    /// Look at one or all of the files of a mounted file system
    async fn use_it(&mut self, n: &str, only: Option<&str>) -> R<()> {
        self.area = "use";
        let (fs, atime, recsize) = { let m = &self.mounted[n]; (m.fs.clone(), m.atime, m.recsize) }; let root = fs.root();
        let _ = recsize;
        let files = self.m[n].files.clone();
        for (f, (want, rs)) in files {
            if only.is_some_and(|o| o != f) { continue; }
            let fd = match w!(self, fs.lookup(None, &root.handle(), &OsString::from(&f))) { Ok(f) => f, Err(e) => return Err(("sets", "a file is missing".into(), format!("{f} of {n:?}: errno {e}"))) };
            let h = fd.handle();
            let old = bfffs_core::fs_tree::Timespec { sec: 5, nsec: 0 };
            let e = w!(self, fs.setattr(&h, SetAttr { atime: Some(old), ..Default::default() })); ensure!("sets", "a mounted file system cannot be used", e == Ok(()), "{n:?}: {e:?}");
            let got = match w!(self, fs.read(&h, 0, want.len() + 10)) { Ok(sg) => { let mut v = vec![]; for b in sg.iter() { v.extend_from_slice(&b[..]); } v } Err(e) => return Err(("sets", "a file cannot be read".into(), format!("{f} of {n:?}: errno {e}"))) };
            ensure!("sets", "a file of another content", got == want, "{f} of {n:?}");
            let a = match w!(self, fs.getattr(&h)) { Ok(a) => a, Err(e) => return Err(("sets", "a file cannot be looked at".into(), format!("{f} of {n:?}: errno {e}"))) };
            ensure!("sets", "a file's records are not of the size that was set", a.blksize as u64 == 1 << rs, "{f} of {n:?}: {} instead of {}", a.blksize, 1u64 << rs);
            ensure!("sets", "access times are not kept as was set", (a.atime != old) == atime, "{f} of {n:?}: the access time is {:?} after a read, with atime {atime}", a.atime);
            w!(self, fs.inactive(fd));
        }
        // and nothing else
        let all = match w!(self, fs.readdir(&root.handle(), 0).try_collect::<Vec<_>>()) { Ok(v) => v, Err(e) => return Err(("sets", "readdir".into(), format!("{n:?}: errno {e}"))) };
        let mut got: Vec<String> = all.iter().map(|e| e.d_name[..e.d_namlen as usize].iter().map(|c| *c as u8 as char).collect::<String>()).filter(|x| x != "." && x != "..").collect(); got.sort();
        let want: Vec<String> = { let mut v: Vec<String> = self.m[n].files.keys().cloned().collect(); v.sort(); v };
        if only.is_none() { ensure!("sets", "a file system has other files than were put there", got == want, "{n:?}: {got:?} instead of {want:?}"); }
        Ok(())
    }
    fn unmount(&mut self, n: &str) { self.note(format!("unmount {n}")); *self.n.entry("unmount").or_default() += 1; self.mounted.remove(n); }
    async fn batch(&mut self) -> R<()> {
        if !self.mounted.is_empty() && self.r.chance(1, 12) { let v: Vec<String> = self.mounted.keys().cloned().collect(); let n = self.r.pick(&v).clone(); if self.r.chance(1, 3) { self.use_it(&n, None).await?; } self.unmount(&n); }
        let k = if self.r.chance(1, 2) { 1 } else { 2 + self.r.usize(6) };
        let mut ops: Vec<Op> = vec![]; let mut feet: Vec<(Vec<String>, Vec<String>)> = vec![];
        for _ in 0..k * 3 { if ops.len() == k { break; }
            let mut o = self.op();
            // sorts of commands that meet
            if !ops.is_empty() && self.r.chance(1, 2) { for _ in 0..20 { if opname(&o) == opname(&ops[0]) { break; } o = self.op(); } }
            let f = footprint(&o); if feet.iter().any(|g| clash(g, &f)) { continue; } ops.push(o); feet.push(f); }
        for o in &ops { self.note(format!("{o:?}{}", if ops.len() > 1 { format!(" (one of {})", ops.len()) } else { String::new() })); }
        self.area = "commands";
        let outs = { let s = &*self; let ops = &ops; match finishes(join_all(ops.iter().enumerate().map(|(i, o)| { let fs = match o { Op::File(n, ..) => Some(s.mounted[n].fs.clone()), _ => None }; let y = s.r.usize(6) * (i.min(1)); async move { for _ in 0..y { tokio::task::yield_now().await; } exec(s.ctl(), o, fs).await } }))).await { Some(x) => x, None => return Err(("hang", "commands do not finish".into(), format!("{ops:?}"))) } };
        if ops.len() > 1 { *self.n.entry("commands at once").or_default() += ops.len() as u64; }
        let others = ops.len() - 1;
        for (o, x) in ops.iter().zip(outs) { self.judge(o, x, others).await?; }
        let ids: BTreeMap<u64, &String> = self.m.iter().map(|(n, s)| (s.id, n)).collect();
        ensure!("sets", "two file systems of one identity", ids.len() == self.m.len(), "{:?} after {ops:?}", self.m.iter().map(|(n, s)| (n, s.id)).collect::<Vec<_>>());
        Ok(())
    }
    /// Look at everything; several commands at once are judged by this, too
    async fn everything(&mut self) -> R<()> {
        self.note("look at everything".into());
        let all: Vec<String> = self.m.keys().cloned().collect();
        for n in &all {
            for p in [PropertyName::Atime, PropertyName::RecordSize, PropertyName::Mountpoint] { let o = Op::Get(n.clone(), p); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?; }
            let o = Op::List(n.clone(), if self.r.chance(1, 2) { vec![] } else { vec![1 + self.r.usize(3)] }); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?;
            if self.mounted.contains_key(n) { self.use_it(n, None).await?; }
            else if self.r.chance(1, 3) { let o = Op::Mount(n.clone()); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?; self.use_it(n, None).await?; self.unmount(n); }
        }
        let gone: Vec<String> = self.gone.iter().cloned().collect();
        for n in gone { let o = Op::Get(n, PropertyName::Atime); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?; }
        let o = Op::Check; let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await
    }
    /// A defect of its own: see known-findings.txt
    async fn probe(&mut self) -> Option<String> {
        let n = match self.mounted.keys().next() { Some(n) => n.clone(), None => return None };
        let p = mon::ALL_PANICS.lock().unwrap().len();
        let x = finishes(std::panic::AssertUnwindSafe(self.ctl().set_prop(&n, Property::mountpoint("/probe"))).catch_unwind()).await;
        let what = { let mut a = mon::ALL_PANICS.lock().unwrap(); let w = a.get(p..).map(|x| x.join("; ")); a.truncate(p); w };
        match x { Some(Ok(Ok(()))) => { self.m.get_mut(&n).unwrap().mp = Some("/probe".into()); None } Some(Ok(Err(_))) => None, x => Some(format!("{:?} {what:?}", x.map(|_| "panic"))) }
    }
    /// Destroy all file systems, and see what is left of them
    async fn wipe(&mut self) -> R<()> {
        self.note("wipe".into());
        self.mounted.clear();
        let mut all: Vec<String> = self.m.keys().cloned().collect(); all.sort_by_key(|n| (std::cmp::Reverse(n.matches('/').count()), n.clone()));
        for n in all { let o = Op::Destroy(n); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?; }
        for _ in 0..3 { for o in [Op::Sync, Op::Clean] { let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?; } }
        let o = Op::Check; let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?;
        w!(self, self.ctl().sync_transaction()).map_err(|e| ("sets", "sync".to_string(), format!("{e:?}")))
    }
    async fn vacant(&mut self) -> R<()> {
        let db = match w!(self, self.disks.import(self.o.cache, self.o.wb)) { Ok(d) => d, Err(e) => return Err(("sets", "the pool cannot be imported".into(), format!("{e:?}"))) };
        let t = w!(self, db.lookup_fs("")); ensure!("sets", "a destroyed file system is still there", t == Ok((None, None)), "{t:?}");
        let st = w!(self, db.stat()); ensure!("sets", "space is not given back", st.used <= 8, "{} blocks are in use with all file systems destroyed", st.used);
        Ok(())
    }
    async fn session(&mut self, first: bool) -> R<()> {
        self.area = "setup";
        let db: Database = if first { self.disks.database(self.o.cache) } else {
            match w!(self, self.disks.import(self.o.cache, self.o.wb)) { Ok(d) => d, Err(e) => return Err(("sets", "the pool cannot be imported".into(), format!("{e:?}"))) } };
        self.ctl = Some(Controller::new(db));
        if first {
            let o = Op::Get(NAME.into(), PropertyName::Atime); let x = exec(self.ctl(), &o, None).await; self.judge(&o, x, 0).await?;
            let id = match w!(self, self.ctl().create_fs(NAME)) { Ok(i) => i, Err(e) => return Err(("sets", "create".into(), format!("{e:?} for the pool's root file system"))) };
            self.m.insert(NAME.into(), Set { id: id.0, ..Default::default() });
        } else if self.r.chance(1, 2) { self.everything().await?; }
        for i in 0..20 + self.r.usize(60) { self.batch().await?; if i % 25 == 24 { self.everything().await?; } }
        self.everything().await?;
        self.mounted.clear();
        w!(self, self.ctl().sync_transaction()).map_err(|e| ("sets", "sync".to_string(), format!("{e:?}")))?;
        self.note("import again".into());
        Ok(())
    }
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "model_conformance", "one evaluation = one pool administered by a random history of commands, some given at the same time, over several imports; distinct = distinct (command, answer, how many others were under way)");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x5e75, case);
        let o = super::m_fs::opts(&r, "sets");
        let o = super::m_fs::Opts { shape: o.shape.clone().sized(96 << 20), ..o };
        let setup = format!("{o:?}");
        let log = Arc::new(Mutex::new(VecDeque::new())); let l2 = log.clone();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| {
            let disks = Arc::new(Disks::new(&o.shape)); disks.jitter(r.next(), o.jitter);
            let alike = r.pick(&ALIKE).iter().map(|x| x.to_string()).collect();
            let mut s = Sets { r: Rng::new(r.next()), o: o.clone(), disks, ctl: None, m: BTreeMap::new(), mounted: BTreeMap::new(), gone: BTreeSet::new(), n: BTreeMap::new(), log: l2, area: "", seen: BTreeSet::new(), counter: 0, alike };
            let mut out = Ok(());
            let sessions = 3; let wipe = r.chance(1, 2); let mut probe = None;
            for i in 0..sessions {
                // nothing of one import is left when the next begins
                let rt = rt(); out = rt.block_on(s.session(i == 0));
                if out.is_ok() && i == sessions - 1 { if wipe { out = rt.block_on(s.wipe()); } else if r.chance(1, 4) { rt.block_on(async { let _ = exec(s.ctl(), &Op::Sync, None).await; }); let n = s.some(); if s.m.contains_key(&n) { if let Some(Out::Fs(Ok(fs))) = Some(rt.block_on(exec(s.ctl(), &Op::Mount(n.clone()), None))) { s.mounted.insert(n, Mounted { fs, atime: true, recsize: 17 }); } } probe = rt.block_on(s.probe()); } }
                s.mounted.clear(); let c = s.ctl.take(); rt.block_on(async move { drop(c); }); drop(rt);
                if out.is_err() { break; }
            }
            if out.is_ok() && wipe { let rt = rt(); out = rt.block_on(s.vacant()); }
            (out, s.n, s.seen, s.m.len(), probe)
        });
        let lg = log.lock().unwrap().clone();
        ck.eval();
        let repo_panics: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.iter().filter(|p| crate::in_repo(p)).cloned().collect()).unwrap_or_default();
        match res {
            Ok((out, n, seen, sets, probe)) => {
                if let Some(p) = probe { ck.violation("the mount point of a mounted file system cannot be set", &json!({"case": case, "what": p, "setup": setup})); }
                for (k, v) in n { ck.count(k, v); } for h in seen { ck.distinct(h); }
                match out { Ok(()) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "file systems at the end": sets, "last commands": lg.iter().rev().take(8).collect::<Vec<_>>()})); },
                    Err(b) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}\n{}", lg.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("\n")); } match repo_panics.first() { Some(p) => crate::panicked(&mut ck, "sets", p, case, &lg, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})) } } }
            }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}\n{}", lg.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("\n")); } crate::panicked(&mut ck, "sets", &p, case, &lg, &setup); }
        }
        for p in repo_panics { crate::panicked(&mut ck, "sets", &p, case, &lg, &setup); }
    }
    cleanup();
    ck.finish()
}
