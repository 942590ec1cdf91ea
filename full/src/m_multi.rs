//! Several clients at once: on their own file systems of one pool, and in their own directories of a shared one.
use crate::{env::*, m_fs::*};
use bfffs_core::{database::TreeID, fs::*, property::*};
use futures::future::join_all;
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, VecDeque}, ffi::OsString, sync::{Arc, Mutex}};

/// Where a client lives
#[derive(Clone, Debug)]
enum Home { /// the file system of this name, all of it
    Own(String), /// a directory of the pool's root file system
    Dir(OsString) }
struct Multi { r: Rng, o: Opts, disks: Arc<Disks>, cs: Vec<Client>, homes: Vec<Home>, log: Arc<Mutex<VecDeque<String>>>, overlaps: u64 }
impl Multi {
    async fn new(seed: u64, o: Opts) -> R<Multi> {
        let first = Client::new(seed, o.clone()).await?;
        let r = Rng::new(seed ^ 0x3317);
        let (db, fs, disks, root) = (first.db().clone(), first.fs(), first.disks.clone(), first.tree);
        first_policy(&disks, seed, &r, o.jitter);
        let mut cs = vec![]; let mut homes = vec![];
        let nc = 2 + r.usize(4);
        for i in 0..nc {
            let mut c = Client::blank(Rng::new(seed ^ mon::mix(i as u64 + 1)), Opts { atime: o.atime, ..o.clone() }, disks.clone(), db.clone());
            if r.chance(1, 2) {
                let name = format!("child{i}");
                let t = match w!(c, db.create_fs(Some(root), name.clone())) { Ok(t) => t, Err(e) => return Err(("setup", "create_fs".into(), format!("{e:?}"))) };
                c.tree = t;
                let f = Arc::new(w!(c, Fs::new(db.clone(), t)));
                w!(c, f.set_prop(Property::RecordSize(o.recsize))).unwrap(); w!(c, f.set_prop(Property::Atime(o.atime))).unwrap();
                c.fs = Some(f); homes.push(Home::Own(name));
            } else {
                let name = OsString::from(format!("home{i}"));
                c.tree = root; c.fs = Some(fs.clone());
                c.top = Some(match w!(c, fs.mkdir(&fs.root().handle(), &name, 0o755, 0, 0)) { Ok(t) => t, Err(e) => return Err(("setup", "mkdir".into(), format!("{e}"))) });
                homes.push(Home::Dir(name));
            }
            c.root_as_found().await?;
            cs.push(c);
        }
        drop(first);
        Ok(Multi { r, o, disks, cs, homes, log: Default::default(), overlaps: 0 })
    }
    /// Let every client take `n` steps, all at once
    async fn together(&mut self, n: usize) -> R<()> {
        let log = self.log.clone();
        // how many are in the middle of something, and how often that was more than one
        let inside = std::cell::Cell::new(0u32); let overlaps = std::cell::Cell::new(0u64);
        let (inside, over) = (&inside, &overlaps);
        let homes = &self.homes;
        let rs = join_all(self.cs.iter_mut().enumerate().map(|(i, c)| { let log = log.clone(); async move {
            for _ in 0..n {
                for _ in 0..c.r.usize(4) { tokio::task::yield_now().await; }
                inside.set(inside.get() + 1); if inside.get() > 1 { over.set(over.get() + 1); }
                // unmounting one file system while others are in use
                let x = if matches!(homes[i], Home::Own(_)) && c.r.chance(1, 60) { remount(c).await } else { c.step().await };
                inside.set(inside.get() - 1);
                { let mut l = log.lock().unwrap(); if l.len() > 160 { l.pop_front(); } l.push_back(format!("client {i}: {}", c.log.back().cloned().unwrap_or_default())); }
                x.map_err(|b| (b.0, b.1, format!("client {i}: {}", b.2)))?;
            }
            Ok(())
        } })).await;
        self.overlaps += overlaps.get();
        rs.into_iter().collect()
    }
    /// Make the trees several nodes deep
    async fn fill(&mut self) -> R<()> {
        let n = 50 + self.r.usize(150);
        let rs = join_all(self.cs.iter_mut().map(|c| async move {
            for _ in 0..n { c.area = "names"; let d = *c.r.pick(&c.m.dirs()); if let Some(i) = c.create(d, if c.r.chance(1, 20) { Kind::Dir(BTreeMap::new()) } else { Kind::Reg }).await? { if !c.m.is_dir(i) && c.r.chance(1, 2) { let rs = c.m.nodes[&i].rs; let (o, l) = (c.r.below(4) * rs, 1 + c.r.usize(2 * rs as usize)); c.write(i, o, l).await?; } if c.r.chance(1, 2) { if c.m.is_dir(i) { continue; } c.inactive(i).await?; } } }
            Ok(())
        })).await;
        rs.into_iter().collect()
    }
    /// At a quiet moment
    async fn quiet(&mut self) -> R<()> {
        for c in &mut self.cs { c.settle().await?; }
        let c = &mut self.cs[0]; c.area = "space";
        let x = w!(c, c.db().check());
        ensure!("space", "the database's own check fails", matches!(x, Ok(true)), "{x:?} after clients worked at the same time");
        // looking at everything at once, too
        let rs = join_all(self.cs.iter_mut().map(|c| c.everything())).await;
        rs.into_iter().enumerate().map(|(i, r)| r.map_err(|b| (b.0, b.1, format!("client {i}: {}", b.2)))).collect()
    }
    async fn reopen(&mut self) -> R<()> {
        for c in &mut self.cs { c.settle().await?; put_down(c).await?; }
        { let c = &mut self.cs[0]; w!(c, c.fs().sync()); }
        self.log.lock().unwrap().push_back("reopen".into());
        let db = self.cs[0].db().clone();
        for c in &mut self.cs { c.fs = None; c.db = None; c.top = None; }
        let c = &mut self.cs[0]; c.area = "persist";
        match w!(c, close(db)) { Ok(()) => (), Err(e) => return Err(("persist", "the database cannot be closed".into(), e)) }
        let (disks, wb) = (self.disks.clone(), self.o.wb);
        let cache = *self.r.pick(&[1_000_000usize, 4_000_000, 30_000_000]);
        let db = match w!(c, import_from(&disks.paths, cache, wb)) { Ok(d) => Arc::new(d), Err(e) => return Err(("persist", "the pool cannot be imported".into(), format!("{e:?}"))) };
        let t = w!(c, db.lookup_fs(""));
        ensure!("persist", "the root file system is gone", t == Ok((None, Some(TreeID(0)))), "{t:?}");
        let root = Arc::new(w!(c, Fs::new(db.clone(), TreeID(0))));
        // everybody mounts at once
        let homes = &self.homes; let db = &db; let root = &root;
        let rs: R<Vec<()>> = join_all(self.cs.iter_mut().enumerate().map(|(i, c)| async move {
            c.db = Some(db.clone()); c.area = "persist";
            match &homes[i] {
                Home::Own(n) => {
                    let t = w!(c, db.lookup_fs(n));
                    ensure!("persist", "a file system is gone", t == Ok((Some(TreeID(0)), Some(c.tree))), "{t:?} for {n}, which was {:?}", c.tree);
                    c.fs = Some(Arc::new(w!(c, Fs::new(db.clone(), c.tree))));
                }
                Home::Dir(n) => {
                    c.fs = Some(root.clone());
                    c.top = match w!(c, root.lookup(None, &root.root().handle(), n)) { Ok(t) => Some(t), Err(e) => return Err(("persist", "a directory is gone".into(), format!("errno {e} for {n:?}"))) };
                }
            }
            Ok(())
        })).await.into_iter().collect();
        rs?;
        let rs = join_all(self.cs.iter_mut().map(|c| c.everything())).await;
        rs.into_iter().enumerate().map(|(i, r)| r.map_err(|b| (b.0, format!("after a sync and a new import: {}", b.1), format!("client {i}: {}", b.2)))).collect()
    }
}
/// Most operations of a disk take about as long as the others; some take much longer
fn first_policy(d: &Disks, seed: u64, r: &Rng, max: u64) {
    let slow = r.chance(1, 2);
    for (i, dev) in d.devs.iter().enumerate() {
        let s = mon::mix(seed ^ 0x510 ^ (i as u64) << 32); let n = std::sync::atomic::AtomicU64::new(0);
        dev.set_policy(move |_| { let x = mon::mix(s.wrapping_add(n.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
            tokio_file::monitor::Action::Go(if slow && x % 97 == 0 { 200 + (x >> 32) % 3000 } else { (x >> 32) % (max + 1) } as u32) });
    }
}
/// Tell the file system that nothing is in use any more
async fn put_down(c: &mut Client) -> R<()> {
    let k: Vec<u64> = c.fds.keys().copied().collect();
    for i in k { if !c.m.is_dir(i) { c.inactive(i).await?; } else { let fd = c.fds.remove(&i).unwrap(); w!(c, c.fs().inactive(fd)); } }
    Ok(())
}
async fn remount(c: &mut Client) -> R<()> {
    c.settle().await?;
    put_down(c).await?;
    c.note("remount", String::new());
    c.area = "persist";
    c.fs = None;
    c.fs = Some(Arc::new(w!(c, Fs::new(c.db().clone(), c.tree))));
    Ok(())
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "model_conformance", "one evaluation = one pool on which 2 to 5 clients work at the same time, each compared with its own model after every operation; distinct = distinct (end state of a client, its neighbours)");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x3317, case);
        let o = opts(&r, if r.chance(1, 3) { "multi-io" } else { "multi" });
        // room for everybody
        let o = Opts { shape: o.shape.clone().sized(*r.pick(&[160u64, 256]) << 20), recsize: o.recsize.min(14), ..o };
        let log = Arc::new(Mutex::new((Arc::new(Mutex::new(VecDeque::new())), "setup")));
        let l2 = log.clone(); let o2 = o.clone(); let seed = r.next();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(async move {
            let mut p = match Multi::new(seed, o2).await { Ok(c) => c, Err(b) => return (Err(b), BTreeMap::new(), vec![], 0) };
            l2.lock().unwrap().0 = p.log.clone();
            let mut out = Ok(());
            if p.r.chance(1, 3) { out = p.fill().await; }
            for _ in 0..3 {
                if out.is_err() { break; }
                let n = 20 + p.r.usize(60);
                out = p.together(n).await; if out.is_err() { break; }
                out = p.quiet().await; if out.is_err() { break; }
                if p.r.chance(1, 2) { out = p.reopen().await; if out.is_err() { break; } }
            }
            let mut n: BTreeMap<&'static str, u64> = BTreeMap::new(); for c in &p.cs { for (k, v) in &c.n { *n.entry(k).or_default() += v; } }
            n.insert("operations begun while another was under way", p.overlaps);
            let hs: Vec<u64> = p.cs.iter().map(|c| c.m.hash()).collect();
            let ops = p.disks.ops();
            for c in &mut p.cs { c.fds.clear(); c.top = None; c.fs = None; }
            if out.is_ok() { let db = p.cs[0].db().clone(); for c in &mut p.cs { c.db = None; } out = match finishes(close(db)).await { Some(Ok(())) => Ok(()), x => Err(("hang", "shutdown".to_string(), format!("{x:?}"))) }; }
            (out, n, hs, ops)
        }));
        let lg = { let l = log.lock().unwrap(); let l = l.0.lock().unwrap().clone(); l };
        let setup = format!("{o:?}");
        ck.eval();
        let repo_panics: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.iter().filter(|p| crate::in_repo(p)).cloned().collect()).unwrap_or_default();
        match res {
            Ok((out, n, hs, ops)) => {
                for (k, v) in n { ck.count(k, v); } ck.count("disk operations", ops);
                for h in &hs { ck.distinct(mon::hash(&(h, &hs))); }
                match out { Ok(()) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "clients": hs.len(), "last operations": lg.iter().rev().take(8).collect::<Vec<_>>()})); },
                    Err(b) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}"); } match repo_panics.first() { Some(p) => crate::panicked(&mut ck, "multi", p, case, &lg, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})) } } }
            }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, "multi", &p, case, &lg, &setup); }
        }
        for p in repo_panics { crate::panicked(&mut ck, "multi", &p, case, &lg, &setup); }
    }
    ck.assume("each client keeps to what bfffs asks of its callers, as for C16 to C20, and no two of them use the same file or directory at once, as a kernel's vnode locks would see to");
    cleanup();
    ck.finish()
}
