//! A pool that loses disks, gets them back, reads garbage and rebuilds, under a client that must not notice.
use crate::{env::*, m_fs::*};
use bfffs_core::{types::Uuid, vdev::Health};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, VecDeque}, os::unix::fs::FileExt, path::PathBuf, sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}}, time::Duration};
use tokio_file::monitor::{self, Action, Device, Kind as K};

#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Ok, /** not there at the last import, or never to come back */ Missing, Faulted, Rebuilding }
struct Leaf { path: PathBuf, dev: Arc<Device>, uuid: Uuid, st: St, /** rebuilt, and nothing was synced since */ fresh: bool, sick: Arc<Mutex<Option<(u64, u64)>>> }
/// A mirror: the unit that RAID can lose
struct Col { cl: usize, leaves: Vec<Leaf>, /** missed something as a whole: its disks may not return */ lost: bool }
struct Pool { c: Client, cols: Vec<Col>, f: usize, ndisk: usize, seen: std::collections::BTreeSet<u64>, idle: Arc<Mutex<bool>> }

fn shape(r: &Rng) -> Shape {
    let (m, n, k, f, clusters) = *r.pick(&[(2, 1, 1, 0, 1), (2, 1, 1, 0, 1), (3, 1, 1, 0, 1), (2, 1, 1, 0, 2), (1, 3, 3, 1, 1), (1, 5, 3, 1, 1), (1, 5, 4, 2, 1), (2, 3, 3, 1, 1), (1, 3, 2, 1, 2), (1, 7, 5, 3, 1), (2, 2, 2, 1, 1)]);
    let cs = if n > 1 { Some(*r.pick(&[1u64, 2, 4, 7, 16])) } else { None };
    Shape { m, n, k, f, clusters, cs, zone: *r.pick(&[64u64, 128, 256, 512]), fsize: 0 }.sized(*r.pick(&[24u64, 48]) << 20)
}
impl Pool {
    async fn new(seed: u64, o: Opts, idle: Arc<Mutex<bool>>) -> R<Pool> {
        let sh = o.shape.clone();
        let c = Client::new(seed, o).await?;
        let n = sh.disks();
        let mut p = Pool { cols: vec![], f: sh.f as usize, ndisk: n, seen: Default::default(), idle, c };
        let at: Vec<(PathBuf, Arc<Device>)> = p.c.disks.paths.iter().cloned().zip(p.c.disks.devs.iter().cloned()).collect();
        for (i, x) in at.chunks(sh.m).enumerate() {
            let leaves = x.iter().map(|(path, dev)| { let sick = Arc::new(Mutex::new(None)); p.policy(path, dev, &sick); Leaf { path: path.clone(), dev: dev.clone(), uuid: Uuid::default(), st: St::Ok, fresh: false, sick } }).collect();
            p.cols.push(Col { cl: i / sh.n, leaves, lost: false });
        }
        p.names().await;
        Ok(p)
    }
    fn policy(&self, path: &PathBuf, dev: &Arc<Device>, sick: &Arc<Mutex<Option<(u64, u64)>>>) {
        let s = mon::hash(path) ^ self.c.o.jitter; let n = AtomicU64::new(0); let max = self.c.o.jitter; let sick = sick.clone();
        dev.set_policy(move |op| {
            let d = (mon::mix(s.wrapping_add(n.fetch_add(1, Ordering::Relaxed))) % (max + 1)) as u32;
            match *sick.lock().unwrap() { Some((a, b)) if op.kind == K::Read && op.off < b && op.off + op.len > a => Action::Fail(5, d), _ => Action::Go(d) }
        });
    }
    fn note(&mut self, k: &'static str, t: String) { self.c.note(k, t); let k = mon::hash(&(k, self.state(), &self.c.o.shape.n, &self.c.o.shape.m)); self.seen.insert(k); }
    fn state(&self) -> Vec<Vec<u8>> { self.cols.iter().map(|c| c.leaves.iter().map(|l| l.st as u8).collect()).collect() }
    fn text(&self) -> String { format!("{:?}", self.cols.iter().map(|c| c.leaves.iter().map(|l| l.st).collect::<Vec<_>>()).collect::<Vec<_>>()) }
    fn present(&self, c: usize) -> bool { self.cols[c].leaves.iter().any(|l| l.st == St::Ok) }
    fn absent(&self, cl: usize) -> usize { (0..self.cols.len()).filter(|c| self.cols[*c].cl == cl && !self.present(*c)).count() }
    fn enough(&self) -> bool { self.cols.iter().all(|c| self.absent(c.cl) <= self.f) }
    fn rebuilding(&self) -> bool { self.cols.iter().any(|c| c.leaves.iter().any(|l| l.st == St::Rebuilding)) }
    /// What bfffs says about its disks: who is who, which are rebuilt by now
    async fn names(&mut self) -> bfffs_core::pool::Status {
        let s = self.c.db().status().await;
        for l in s.clusters.iter().flat_map(|c| c.mirrors.iter()).flat_map(|m| m.leaves.iter()) {
            if let Some(x) = self.cols.iter_mut().flat_map(|c| c.leaves.iter_mut()).find(|x| x.path == l.path) {
                x.uuid = l.uuid;
                if x.st == St::Rebuilding && l.health == Health::Online { x.st = St::Ok; x.fresh = true; *self.c.n.entry("disks rebuilt").or_default() += 1; }
            }
        }
        s
    }
    async fn health(&mut self) -> R<()> {
        let s = self.names().await;
        for c in 0..self.cols.len() {
            let Some(m) = s.clusters.iter().flat_map(|x| x.mirrors.iter()).find(|m| m.leaves.iter().any(|l| self.cols[c].leaves.iter().any(|x| x.uuid == l.uuid))) else { if self.present(c) { return Err(("redundancy", "a mirror is not listed".into(), format!("{:?}", s))); } else { continue } };
            for l in &self.cols[c].leaves {
                let Some(g) = m.leaves.iter().find(|x| x.uuid == l.uuid) else { ensure!("redundancy", "a disk is not listed", l.st == St::Missing, "{:?}: {:?}", l.path, m); continue };
                ensure!("redundancy", "the health of a disk is wrong", !self.present(c) || (g.health == Health::Online) == (l.st == St::Ok), "{:?} is {:?}, but {:?}", l.path, l.st, g.health);
            }
            ensure!("redundancy", "the health of a mirror is wrong", m.health.is_faulted() != self.present(c), "{:?}: {:?}", m.health, self.text());
        }
        ensure!("redundancy", "the health of the pool is wrong", !s.health.is_faulted(), "{:?}", s);
        if self.cols.iter().any(|c| c.leaves.iter().all(|l| l.st != St::Ok)) { ensure!("redundancy", "the health of the pool is wrong", s.health != Health::Online, "{:?}", s); }
        Ok(())
    }
    /// Take a disk or a mirror out of service
    async fn fault(&mut self) -> R<()> {
        self.c.area = "redundancy";
        self.names().await;
        let c = self.c.r.usize(self.cols.len());
        let whole = self.c.r.chance(1, 4);
        let l = self.c.r.usize(self.cols[c].leaves.len());
        if !whole && !matches!(self.cols[c].leaves[l].st, St::Ok | St::Rebuilding) { return Ok(()); }
        let old: Vec<St> = self.cols[c].leaves.iter().map(|l| l.st).collect();
        for (i, x) in self.cols[c].leaves.iter_mut().enumerate() { if (whole || i == l) && x.st != St::Missing { x.st = St::Faulted; } }
        if !self.enough() || !old.contains(&St::Ok) { for (x, o) in self.cols[c].leaves.iter_mut().zip(old) { x.st = o; } return Ok(()); }
        let s = w!(self.c, self.c.db().status());
        let me = self.cols[c].leaves[l].uuid;
        let u = if whole { s.clusters.iter().flat_map(|x| x.mirrors.iter()).find(|m| m.leaves.iter().any(|l| self.cols[c].leaves.iter().any(|x| x.uuid == l.uuid))).unwrap().uuid } else { me };
        self.note("fault", format!("{} of column {c}: {}", if whole { "all".into() } else { format!("disk {l}") }, self.text()));
        let r = w!(self.c, self.c.db().fault(u));
        ensure!("redundancy", "a disk cannot be faulted", r.is_ok(), "{r:?}");
        // nothing is left to rebuild it from, unless it just finished
        self.names().await;
        if !self.present(c) { self.cols[c].lost = true; for x in self.cols[c].leaves.iter_mut() { if x.st == St::Rebuilding { x.st = St::Faulted; } } }
        self.health().await
    }
    async fn attach(&mut self) -> R<()> {
        self.c.area = "redundancy";
        self.names().await;
        let c = self.c.r.usize(self.cols.len());
        if !self.present(c) || self.cols[c].leaves.iter().any(|l| l.st == St::Rebuilding) || self.ndisk > 40 { return Ok(()); }
        let path = self.c.disks.dir.0.join(format!("disk{}", self.ndisk)); self.ndisk += 1;
        std::fs::File::create(&path).unwrap().set_len(self.c.o.shape.fsize).unwrap();
        let dev = monitor::register(&path).unwrap(); let sick = Arc::new(Mutex::new(None));
        self.policy(&path, &dev, &sick);
        let to = self.cols[c].leaves.iter().find(|l| l.st == St::Ok).unwrap().uuid;
        self.cols[c].leaves.push(Leaf { path: path.clone(), dev, uuid: Uuid::default(), st: St::Rebuilding, fresh: true, sick });
        self.note("attach", format!("a disk to column {c}: {}", self.text()));
        let r = w!(self.c, self.c.db().attach(to, &path));
        ensure!("redundancy", "a disk cannot be attached", r.is_ok(), "{r:?}");
        self.health().await
    }
    /// Let rebuilding finish; then rely on the new disks alone
    async fn rebuilt(&mut self) -> R<()> {
        self.c.area = "redundancy";
        self.names().await;
        if !self.rebuilding() { return Ok(()); }
        let fresh: Vec<(usize, PathBuf)> = self.cols.iter().enumerate().flat_map(|(i, c)| c.leaves.iter().filter(|l| l.st == St::Rebuilding).map(move |l| (i, l.path.clone()))).collect();
        for i in 0.. {
            tokio::time::sleep(Duration::from_millis(500)).await;
            self.names().await;
            if !self.rebuilding() { break; }
            ensure!("redundancy", "rebuilding does not finish", i < 2000, "{}", self.text());
        }
        self.note("rebuilt", self.text());
        self.health().await?;
        if self.c.r.chance(2, 3) {
            for (c, p) in &fresh { for l in 0..self.cols[*c].leaves.len() {
                let x = &self.cols[*c].leaves[l]; if x.st != St::Ok || x.path == *p || !self.cols[*c].leaves.iter().any(|l| l.path == *p && l.st == St::Ok) { continue; }
                let r = w!(self.c, self.c.db().fault(x.uuid)); ensure!("redundancy", "a disk cannot be faulted", r.is_ok(), "{r:?}");
                self.cols[*c].leaves[l].st = St::Faulted;
            } }
            self.note("fault", format!("all but the rebuilt: {}", self.text()));
            self.health().await?;
            self.c.db().drop_cache();
            if self.c.r.chance(1, 2) { self.c.settle().await?; self.check().await?; }
            self.look("with only the rebuilt disks left").await?;
            // perhaps without having synced anything since
            if self.c.r.chance(1, 2) { self.reopen().await?; }
        }
        Ok(())
    }
    /// For debugging: the transactions on the disks' labels
    fn txgs(&self) -> String {
        let mut o = String::new();
        for l in self.cols.iter().flat_map(|c| c.leaves.iter()) {
            let f = std::fs::File::open(&l.path).unwrap();
            for at in [0, 16384] { let mut b = [0; 76]; f.read_exact_at(&mut b, at).unwrap(); o += &format!(" {}({})", u32::from_le_bytes(b[72..76].try_into().unwrap()), b[31]); }
        }
        o
    }
    async fn check(&mut self) -> R<()> {
        self.note("check", String::new());
        let x = w!(self.c, self.c.db().check());
        ensure!("redundancy", "the database's own check fails", matches!(x, Ok(true)), "{x:?}"); Ok(())
    }
    async fn look(&mut self, when: &str) -> R<()> { self.c.everything().await.map_err(|b| (b.0, b.1, format!("{when}: {}", b.2))) }
    /// Disks that garble what they stored, or fail to read it
    async fn garble(&mut self) -> R<()> {
        self.c.area = "redundancy";
        self.names().await;
        if self.rebuilding() { return Ok(()); }
        let cl = self.cols[self.c.r.usize(self.cols.len())].cl;
        let spare = self.f - self.absent(cl);
        let mut bad: Vec<(usize, usize)> = vec![];
        let mut cs: Vec<usize> = (0..self.cols.len()).filter(|c| self.cols[*c].cl == cl && self.present(*c)).collect(); self.c.r.shuffle(&mut cs);
        if self.f > 0 { for c in cs.into_iter().take(spare) { if self.c.r.chance(2, 3) { for l in 0..self.cols[c].leaves.len() { if self.cols[c].leaves[l].st == St::Ok { bad.push((c, l)); } } } } }
        else { for c in cs { let ok: Vec<usize> = (0..self.cols[c].leaves.len()).filter(|l| self.cols[c].leaves[*l].st == St::Ok).collect(); for l in ok.iter().skip(1) { bad.push((c, *l)); } } }
        if bad.is_empty() { return Ok(()); }
        let from = self.c.o.shape.zone * 4096; let size = self.c.o.shape.fsize;
        if self.c.r.chance(1, 3) {
            for (c, l) in &bad { let a = if self.c.r.chance(1, 2) { from } else { from + self.c.r.below(size - from) }; *self.cols[*c].leaves[*l].sick.lock().unwrap() = Some((a, size)); }
            self.note("reads fail", format!("{bad:?} of {}", self.text()));
            self.c.db().drop_cache();
            for _ in 0..self.c.r.usize(6) { self.c.step().await?; }
            self.look("while some disks' reads fail").await?;
            if self.c.r.chance(1, 3) { self.c.settle().await?; self.check().await?; }
            for c in &self.cols { for l in &c.leaves { *l.sick.lock().unwrap() = None; } }
            return Ok(());
        }
        let mut undo: Vec<(PathBuf, u64, Vec<u8>, Vec<u8>)> = vec![];
        for (c, l) in &bad {
            let p = self.cols[*c].leaves[*l].path.clone();
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
            let how = self.c.r.below(4); let mut b = vec![0; 4096]; let mut o = from;
            while o + 4096 <= size {
                f.read_exact_at(&mut b, o).unwrap();
                if b.iter().any(|x| *x != 0) && (how < 2 || self.c.r.chance(1, 2)) {
                    let mut n = b.clone();
                    match how { /* (not a page that bfffs may write itself) */ 0 => { n.fill(0); self.c.r.fill(&mut n[4080..]); } 1 => self.c.r.fill(&mut n), _ => { let i = self.c.r.usize(4096); n[i] ^= 1 << self.c.r.below(8); } }
                    f.write_all_at(&n, o).unwrap();
                    undo.push((p.clone(), o, b.clone(), n));
                }
                o += 4096;
            }
        }
        self.note("garble", format!("{bad:?} of {}: {} pages", self.text(), undo.len()));
        self.c.db().drop_cache();
        if self.c.r.chance(1, 2) { for _ in 0..self.c.r.usize(6) { self.c.step().await?; } }
        self.look("while some disks return garbage").await?;
        if self.c.r.chance(1, 3) { self.c.settle().await?; self.check().await?; }
        self.c.db().drop_cache();
        // What bfffs has not written again returns to what it was
        self.c.settle().await?;
        for (p, o, old, new) in undo {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap(); let mut b = vec![0; 4096];
            f.read_exact_at(&mut b, o).unwrap(); if b == new { f.write_all_at(&old, o).unwrap(); }
        }
        Ok(())
    }
    /// Import with fewer disks, or with some that are back
    async fn reopen(&mut self) -> R<()> {
        self.c.area = "persist";
        self.names().await;
        let unsynced = self.cols.iter().any(|c| c.leaves.iter().any(|l| l.st == St::Ok && l.fresh));
        if unsynced && self.c.r.chance(7, 8) { self.c.settle().await?; self.c.op_setattr().await?; self.note("sync", String::new()); w!(self.c, self.c.fs().sync()); tokio::time::sleep(Duration::from_secs(1)).await; for l in self.cols.iter_mut().flat_map(|c| c.leaves.iter_mut()) { if l.st == St::Ok { l.fresh = false; } } }
        // What still is being rebuilt may or may not be known by its label: it is not relied on
        for c in 0..self.cols.len() { for l in 0..self.cols[c].leaves.len() {
            let x = &mut self.cols[c].leaves[l];
            match x.st { St::Rebuilding | St::Faulted => x.st = St::Missing, _ => {} }
        } }
        let mut order: Vec<(usize, usize)> = self.cols.iter().enumerate().flat_map(|(c, x)| (0..x.leaves.len()).map(move |l| (c, l))).collect(); self.c.r.shuffle(&mut order);
        let mut there = vec![]; let mut hide = self.c.r.usize(3); let mut back = vec![];
        for (c, l) in order {
            match self.cols[c].leaves[l].st {
                St::Ok => if hide > 0 {
                    self.cols[c].leaves[l].st = St::Missing;
                    if self.enough() { hide -= 1; if !self.present(c) { self.cols[c].lost = true; } } else { self.cols[c].leaves[l].st = St::Ok; there.push((c, l)); }
                } else { there.push((c, l)) },
                _ => if self.c.r.chance(1, 4) { back.push((c, l)); }
            }
        }
        // a disk that comes back, into a mirror that has what it missed
        for (c, l) in back { if self.present(c) && !self.cols[c].lost && self.cols[c].leaves.iter().all(|x| x.st != St::Rebuilding) { self.cols[c].leaves[l].st = St::Rebuilding; there.push((c, l)); } }
        *self.idle.lock().unwrap() |= self.cols.iter().any(|c| c.leaves.iter().any(|l| l.st == St::Ok && l.fresh));
        self.c.r.shuffle(&mut there);
        self.c.there = Some(there.iter().map(|x| self.cols[x.0].leaves[x.1].path.clone()).collect());
        self.note("import", self.text());
        self.c.op_reopen().await.map_err(|b| (b.0, b.1, format!("imported with {}: {}", self.text(), b.2)))?;
        for l in self.cols.iter_mut().flat_map(|c| c.leaves.iter_mut()) { l.fresh = l.st != St::Ok; }
        // A disk that missed nothing, or was never known, need not be rebuilt
        let s = w!(self.c, self.c.db().status());
        for c in self.cols.iter_mut() { for l in c.leaves.iter_mut() { if l.st == St::Rebuilding && !s.clusters.iter().flat_map(|x| x.mirrors.iter()).any(|m| m.leaves.iter().any(|x| x.path == l.path)) { l.st = St::Missing; } } }
        self.health().await
    }
    async fn step(&mut self) -> R<()> {
        match self.c.r.below(60) {
            0 | 1 => self.fault().await, 2 | 3 => self.attach().await, 4 | 5 => self.garble().await, 6 => self.reopen().await, 7 | 8 => self.rebuilt().await,
            _ => self.c.step().await
        }
    }
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "fault_enumeration", "one evaluation = one random history of a client and of disks lost, garbled, attached, rebuilt and returning; distinct = distinct (fault, state of all disks, layout)");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0xde64ade, case);
        let o = Opts { shape: shape(&r), ..opts(&r, "degrade") };
        let log = Arc::new(Mutex::new((VecDeque::new(), "setup")));
        let idle = Arc::new(Mutex::new(false)); let i2 = idle.clone();
        let l2 = log.clone(); let o2 = o.clone(); let seed = r.next(); let steps = 80 + r.usize(160);
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(async move {
            let mut p = match Pool::new(seed, o2, i2).await { Ok(c) => c, Err(b) => return (Err(b), BTreeMap::new(), Default::default()) };
            let mut out = Ok(());
            let mut left = 12;
            for _ in 0..steps {
                // What follows such an import may be that import's fault: stop soon
                if *p.idle.lock().unwrap() { left -= 1; if left == 0 { break; } }
                let r = p.step().await;
                if std::env::var("MON_TXG").is_ok() { println!("{} {} {}", p.c.log.back().map(|x| x.chars().take(100).collect::<String>()).unwrap_or_default(), p.text(), p.txgs()); }
                { let mut l = l2.lock().unwrap(); l.0 = p.c.log.clone(); l.1 = p.c.area; }
                if let Err(b) = r { out = Err(b); break; }
            }
            if out.is_ok() { out = p.rebuilt().await; }
            if out.is_ok() { out = p.look("at the end").await; }
            if out.is_ok() && left == 12 { out = p.reopen().await; }
            if out.is_ok() { out = p.check().await; }
            { let mut l = l2.lock().unwrap(); l.0 = p.c.log.clone(); }
            p.c.fds.clear();
            if out.is_ok() { out = p.c.close().await; }
            (out, p.c.n.clone(), p.seen)
        }));
        let (lg, area) = log.lock().unwrap().clone();
        let setup = format!("{o:?}");
        ck.eval();
        if *idle.lock().unwrap() && !matches!(res, Ok((Ok(()), _, _))) {
            let what = match &res { Ok((Err(b), _, _)) => format!("{}: {}", b.1, b.2), Err(p) => p.clone(), _ => String::new() };
            ck.violation("a rebuilt disk has no label of its own until something is written", &json!({"case": case, "what": what, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})); continue;
        }
        match res {
            Ok((out, n, d)) => {
                for (k, v) in n { ck.count(k, v); } for x in d { ck.distinct(x); }
                match out { Ok(()) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "last operations": lg.iter().rev().take(8).collect::<Vec<_>>()})); },
                    Err(b) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}"); } let first = mon::ALL_PANICS.lock().unwrap().get(before..).and_then(|x| x.iter().find(|p| crate::in_repo(p)).cloned()); match first { Some(p) => crate::panicked(&mut ck, area, &p, case, &lg, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})) } } }
            }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, area, &p, case, &lg, &setup); }
        }
        let ps: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.to_vec()).unwrap_or_default();
        for p in ps { if crate::in_repo(&p) { crate::panicked(&mut ck, area, &p, case, &lg, &setup); } }
    }
    ck.assume("a RAID column of which every disk missed a sync does not return");
    ck.assume("the client keeps to what bfffs asks of its callers, as for C16 to C20");
    cleanup();
    ck.finish()
}
