//! Arrays of disks: what was written to them can be read, also with disks missing, faulted, failing or lying.
use crate::env::*;
use bfffs_core::{label::LabelWriter, mirror::Mirror, raid::{self, RaidImpl, VdevRaidApi}, types::*, vdev::{BoxVdevFut, Health, Vdev}, Error};
use divbuf::DivBufShared;
use mon::{Check, Rng};
use serde_json::json;
use std::{cell::Cell, collections::{BTreeMap, BTreeSet, VecDeque}, num::NonZeroU64, os::unix::fs::FileExt, path::PathBuf, sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}}};
use tokio_file::monitor::{self, Action, Device, Kind as K, Phase};

type Bad = (String, String);
type R<T> = std::result::Result<T, Bad>;
const L: usize = 4096;
macro_rules! fail { ($k:expr, $($t:tt)*) => { return Err(($k.to_string(), format!($($t)*))) } }
macro_rules! ensure { ($c:expr, $k:expr, $($t:tt)*) => { if !$c { fail!($k, $($t)*); } } }

/// What a disk does beyond working
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sick { No, /** reads of these bytes fail */ Reads(u64, u64), /** reads and writes fail from now on */ Dead }
#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Ok, /** not there since the array was opened */ Missing, /** taken out of service by the administrator */ Faulted, /** attached or back, but without all the data */ Rebuilding }
struct Leaf { path: PathBuf, dev: Arc<Device>, uuid: Uuid, st: St, sick: Arc<Mutex<Sick>>, /** has a label */ named: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Zst { Empty, Open, Closed }
/// Content of one LBA: a pattern, and how many bytes of it count
#[derive(Clone, Copy)]
struct Page { seed: u64, len: usize }
struct Zone { st: Zst, start: u64, end: u64, pages: Vec<Page>, /** how many LBAs of it are acknowledged */ acked: Vec<bool>, /** LBAs that must be on disk */ flushed: u64, broken: bool, repaired: bool }
struct Pending { h: tokio::task::JoinHandle<(bfffs_core::Result<()>, Option<DivBufShared>)>, what: What }
enum What { Write { z: u32, a: u64, n: u64, must: bool, txt: String }, Read { z: u32, a: u64, want: Vec<Page>, must: bool, txt: String }, Other { must: bool, txt: String } }
#[derive(Clone, Debug)]
pub struct Setup { n: usize, k: i16, f: i16, m: usize, cs: u64, zone: u64, nz: u64, jitter: u64 }
impl Setup {
    fn random(r: &Rng) -> Setup {
        let (n, k, f, m) = *r.pick(&[(1, 1, 0, 1), (1, 1, 0, 2), (1, 1, 0, 3), (2, 2, 1, 1), (2, 2, 1, 2), (3, 3, 1, 1), (3, 2, 1, 2), (3, 3, 2, 1), (5, 3, 1, 1), (5, 4, 1, 1), (5, 4, 1, 2), (5, 5, 2, 1), (5, 4, 2, 1), (7, 3, 1, 1), (7, 4, 1, 1), (7, 5, 2, 1), (7, 7, 3, 1), (7, 4, 2, 2), (11, 4, 2, 1), (11, 9, 4, 1)]);
        let cs = *r.pick(&[1u64, 2, 3, 4, 5, 7, 16]);
        let zone = (cs * r.range(16, 60)).max(64);
        Setup { n, k, f, m, cs: if n == 1 { 1 } else { cs }, zone, nz: r.range(3, 6), jitter: *r.pick(&[0u64, 1, 3, 12]) }
    }
    fn text(&self) -> String { format!("{} of {}+{}, mirrors of {}, chunks of {}", self.n, self.k - self.f, self.f, self.m, self.cs) }
}
struct Arr { s: Setup, r: Rng, dir: Dir, raid: Option<RaidImpl>, uuid: Uuid, cols: Vec<(Uuid, Vec<Leaf>)>, zones: BTreeMap<u32, Zone>, pend: Vec<Pending>, log: VecDeque<String>, n: BTreeMap<&'static str, u64>, next: u64, txg: u32, sm: [Option<u64>; 2], ndisk: usize, labelled: bool, distinct: BTreeSet<u64>,
    /// which disk LBAs were written since they were last erased; not for disks ever rebuilt
    wrote: BTreeMap<PathBuf, BTreeSet<u64>>, over: Cell<bool>, stage: Arc<Mutex<(VecDeque<String>, &'static str)>> }
fn page(seed: u64) -> Vec<u8> { let r = Rng::new(seed); r.bytes(L) }
fn buf(b: Vec<u8>) -> IoVec { DivBufShared::from(b).try_const().unwrap() }

impl Arr {
    fn note(&mut self, k: &'static str, t: String) { *self.n.entry(k).or_default() += 1; if self.log.len() > 60 { self.log.pop_front(); } self.log.push_back(format!("{k} {t}")); self.distinct.insert(mon::hash(&(k, self.deg(), self.s.n, self.s.k, self.s.f, self.s.m, self.s.cs))); let mut s = self.stage.lock().unwrap(); s.0 = self.log.clone(); s.1 = k; }
    fn deg(&self) -> Vec<u8> { self.cols.iter().map(|c| c.1.iter().map(|l| l.st as u8).sum()).collect() }
    fn device(&self, i: usize, dev: &Arc<Device>, sick: &Arc<Mutex<Sick>>) {
        let s = mon::mix(self.next ^ (i as u64) << 32); let n = AtomicU64::new(0); let max = self.s.jitter; let sick = sick.clone();
        dev.set_policy(move |op| {
            let d = (mon::mix(s.wrapping_add(n.fetch_add(1, Ordering::Relaxed))) % (max + 1)) as u32;
            match (*sick.lock().unwrap(), op.kind) {
                (Sick::Dead, _) => Action::Fail(5, d),
                (Sick::Reads(a, b), K::Read) if op.off < b && op.off + op.len > a => Action::Fail(5, d),
                _ => Action::Go(d),
            }
        });
        dev.keep_events.store(true, Ordering::Relaxed);
    }
    fn file(&mut self) -> (PathBuf, Arc<Device>, Arc<Mutex<Sick>>) {
        let p = self.dir.0.join(format!("disk{}", self.ndisk)); self.ndisk += 1;
        std::fs::File::create(&p).unwrap().set_len(self.s.zone * self.s.nz * L as u64).unwrap();
        let d = monitor::register(&p).unwrap(); let s = Arc::new(Mutex::new(Sick::No));
        self.device(self.ndisk, &d, &s);
        (p, d, s)
    }
    fn new(s: Setup, seed: u64, stage: Arc<Mutex<(VecDeque<String>, &'static str)>>) -> Arr {
        let mut a = Arr { r: Rng::new(seed), dir: Dir::new(), raid: None, uuid: Uuid::default(), cols: vec![], zones: BTreeMap::new(), pend: vec![], log: VecDeque::new(), n: BTreeMap::new(), next: mon::mix(seed), txg: 1, sm: [None; 2], ndisk: 0, labelled: false, distinct: BTreeSet::new(), wrote: BTreeMap::new(), over: Cell::new(false), stage, s };
        let mut ms = vec![];
        for _ in 0..a.s.n {
            let fs: Vec<_> = (0..a.s.m).map(|_| a.file()).collect();
            let paths: Vec<_> = fs.iter().map(|x| x.0.clone()).collect();
            let m = Mirror::create(&paths, NonZeroU64::new(a.s.zone)).unwrap();
            let st = m.status();
            for p in &paths { a.wrote.insert(p.clone(), BTreeSet::new()); }
            a.cols.push((m.uuid(), fs.into_iter().zip(st.leaves).map(|((path, dev, sick), l)| Leaf { path, dev, uuid: l.uuid, st: St::Ok, sick, named: false }).collect()));
            ms.push(m);
        }
        let raid = raid::create(NonZeroU64::new(a.s.cs), a.s.k, a.s.f, ms);
        a.uuid = raid.uuid();
        a.raid = Some(raid);
        a
    }
    fn v(&self) -> &RaidImpl { self.raid.as_ref().unwrap() }
    fn stripe(&self) -> u64 { if self.s.n == 1 { 1 } else { self.s.cs * (self.s.k - self.s.f) as u64 } }
    /// Can the column be written to and read?
    fn good(&self, c: usize) -> bool { self.cols[c].1.iter().any(|l| l.st == St::Ok && *l.sick.lock().unwrap() == Sick::No) }
    fn present(&self, c: usize) -> bool { self.cols[c].1.iter().any(|l| l.st == St::Ok) }
    /// Columns whose data cannot be read, because nothing is there or what is there fails
    fn lost(&self) -> usize { (0..self.s.n).filter(|c| !self.good(*c)).count() }
    fn absent(&self) -> usize { (0..self.s.n).filter(|c| !self.present(*c)).count() }
    fn wfail(&self) -> usize { (0..self.s.n).filter(|c| !self.present(*c) || self.cols[*c].1.iter().any(|l| l.st == St::Ok && *l.sick.lock().unwrap() == Sick::Dead)).count() }
    fn dead(&self) -> bool { self.cols.iter().any(|c| c.1.iter().any(|l| l.st == St::Ok && *l.sick.lock().unwrap() == Sick::Dead)) }
    fn sick(&self) -> bool { self.cols.iter().any(|c| c.1.iter().any(|l| l.st == St::Ok && *l.sick.lock().unwrap() != Sick::No)) }
    fn f(&self) -> usize { self.s.f as usize }
    fn spawn(&mut self, f: BoxVdevFut, what: What, dbs: Option<DivBufShared>) { self.pend.push(Pending { h: tokio::spawn(async move { (f.await, dbs) }), what }); }
    async fn settle(&mut self, p: Pending) -> R<()> {
        let (res, dbs) = match finishes(p.h).await { Some(Ok(x)) => x, Some(Err(e)) => std::panic::resume_unwind(e.into_panic()), None => fail!("an operation never finishes", "{}", match &p.what { What::Write { txt, .. } | What::Read { txt, .. } | What::Other { txt, .. } => txt }) };
        match p.what {
            What::Write { z, a, n, must, txt } => match res {
                Ok(()) => { let zn = self.zones.get_mut(&z).unwrap(); for i in a..a + n { zn.acked[i as usize] = true; } }
                Err(e) => { ensure!(!must, "a write fails though enough disks work", "{txt}: {e:?}"); self.zones.get_mut(&z).unwrap().broken = true; *self.n.entry("writes refused").or_default() += 1; }
            },
            What::Read { z, a, want, must, txt } => match res {
                Ok(()) => self.compare(z, a, &want, &dbs.unwrap().try_const().unwrap(), &txt)?,
                Err(e) => { ensure!(!must, "a read fails though enough disks work", "{txt}: {e:?}"); *self.n.entry("reads refused").or_default() += 1; }
            },
            What::Other { must, txt } => if let Err(e) = res { ensure!(!must, "a zone operation fails though enough disks work", "{txt}: {e:?}"); },
        }
        Ok(())
    }
    fn compare(&self, z: u32, a: u64, want: &[Page], got: &[u8], txt: &str) -> R<()> {
        for (i, p) in want.iter().enumerate() {
            if p.len == 0 { continue; }
            let w = page(p.seed); let g = &got[i * L..i * L + p.len];
            if g != &w[..p.len] {
                let at = w.iter().zip(g).position(|x| x.0 != x.1).unwrap();
                let other = self.zones.iter().flat_map(|(z, zn)| zn.pages.iter().enumerate().map(move |(i, p)| (*z, i, p))).find(|x| x.2.len > 0 && page(x.2.seed)[..16] == got[i * L..i * L + 16]).map(|x| (x.0, x.1));
                fail!("a read returns something else than what was written", "{txt}: LBA {} of zone {z} differs at byte {at}: {:02x?} instead of {:02x?}{}{}", a + i as u64, &g[at..(at + 8).min(p.len)], &w[at..(at + 8).min(p.len)], if g.iter().all(|x| *x == monitor::POISON) { " (erased)" } else { "" }, other.map(|o| format!(" (it is LBA {} of zone {})", o.1, o.0)).unwrap_or_default());
            }
        }
        Ok(())
    }
    async fn some(&mut self) -> R<()> {
        let n = self.r.usize(4); for _ in 0..n { tokio::task::yield_now().await; }
        let mut i = 0;
        while i < self.pend.len() { if self.pend[i].h.is_finished() { let p = self.pend.swap_remove(i); self.settle(p).await?; } else { i += 1; } }
        while self.pend.len() > 12 { let p = self.pend.swap_remove(self.r.usize(self.pend.len())); self.settle(p).await?; }
        Ok(())
    }
    async fn quiet(&mut self) -> R<()> {
        while let Some(p) = self.pend.pop() { self.settle(p).await?; }
        self.observe()
    }
    /// What reached the disks
    fn observe(&mut self) -> R<()> {
        let zl = self.s.zone;
        for (_, ls) in &self.cols { for l in ls {
            let Some(w) = self.wrote.get_mut(&l.path) else { l.dev.take_log(); continue };
            for e in l.dev.take_log() {
                if e.phase != Phase::Complete || e.errno != 0 { continue; }
                let (a, b) = (e.op.off / L as u64, (e.op.off + e.op.len) / L as u64);
                match e.op.kind {
                    K::Write => {
                        if b <= 10 { continue; }
                        ensure!(a >= 10, "data is written over the label", "LBAs {a}..{b} of {:?}", l.path);
                        ensure!(a / zl == (b - 1) / zl, "a write crosses from one zone of a disk into the next", "LBAs {a}..{b} of {:?}, whose zones have {zl}", l.path);
                        for x in a..b { ensure!(w.insert(x), "a block of a disk is overwritten without being erased first", "LBA {x} of {:?}, by the write of {a}..{b}", l.path); }
                    }
                    K::Erase => { let keep: Vec<u64> = w.range(a..b).copied().collect(); for x in keep { w.remove(&x); } }
                    _ => {}
                }
            }
        } }
        Ok(())
    }
    // ------------------------------------------------------------ operations
    async fn open_zone(&mut self) -> R<()> {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Empty && !z.1.broken).map(|z| *z.0).collect();
        if c.is_empty() || self.zones.values().filter(|z| z.st == Zst::Open).count() > 3 { return Ok(()); }
        let z = *self.r.pick(&c);
        self.note("open zone", format!("{z}"));
        let f = self.v().open_zone(z);
        let must = !self.dead();
        match finishes(f).await { Some(Ok(())) => {} Some(Err(e)) => { ensure!(!must, "a zone operation fails though enough disks work", "open zone {z}: {e:?}"); self.zones.get_mut(&z).unwrap().broken = true; } None => fail!("an operation never finishes", "open zone {z}") }
        let zn = self.zones.get_mut(&z).unwrap(); zn.st = Zst::Open; zn.pages.clear(); zn.acked.clear(); zn.flushed = 0; zn.repaired = false;
        Ok(())
    }
    fn write(&mut self) {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Open && !z.1.broken && (z.1.pages.len() as u64) < z.1.end - z.1.start).map(|z| *z.0).collect();
        if c.is_empty() { return; }
        let z = *self.r.pick(&c);
        let (start, end, a) = { let zn = &self.zones[&z]; (zn.start, zn.end, zn.pages.len() as u64) };
        let st = self.stripe(); let room = end - start - a; let into = a % st;
        let n = match self.r.below(8) { 0 => 1, 1 => st - into, 2 => st, 3 => (st - into) + self.r.below(st + 1), 4 => st * self.r.range(1, 4), 5 => (st - into).saturating_sub(1), 6 => self.r.range(1, st), _ => self.r.range(1, 4 * st) }.clamp(1, room);
        let short = if self.r.chance(1, 4) { self.r.below(L as u64) as usize } else { 0 };
        let mut b = vec![]; let mut pages = vec![];
        for i in 0..n { self.next = mon::mix(self.next); let len = if i == n - 1 { L - short } else { L }; pages.push(Page { seed: self.next, len }); b.extend_from_slice(&page(self.next)[..len]); }
        let txt = format!("{n} LBAs (the last of {} bytes) at LBA {a} of zone {z}", L - short);
        self.note("write", txt.clone());
        let must = self.wfail() <= self.f();
        let f = self.v().write_at(buf(b), z, start + a);
        let zn = self.zones.get_mut(&z).unwrap(); zn.pages.extend(pages); zn.acked.resize(zn.pages.len(), false);
        let full = (zn.pages.len() as u64) / st * st; zn.flushed = zn.flushed.max(full);
        self.spawn(f, What::Write { z, a, n, must, txt }, None);
    }
    /// A range of acknowledged LBAs
    fn range(&self, max: u64) -> Option<(u32, u64, u64)> {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st != Zst::Empty && z.1.acked.iter().any(|a| *a)).map(|z| *z.0).collect();
        if c.is_empty() { return None; }
        let z = *self.r.pick(&c); let zn = &self.zones[&z];
        let len = zn.pages.len() as u64;
        let recent = self.r.chance(1, 3);
        for _ in 0..20 {
            let a = if recent { len.saturating_sub(1 + self.r.below(3 * self.stripe().min(len))) } else { self.r.below(len) };
            if !zn.acked[a as usize] { continue; }
            let st = self.stripe();
            let n = match self.r.below(6) { 0 => 1, 1 => self.r.range(1, st), 2 => st - a % st, 3 => st, _ => self.r.range(1, max.max(1)) };
            let mut e = a; while e < len && e - a < n && zn.acked[e as usize] { e += 1; }
            return Some((z, a, e - a));
        }
        None
    }
    fn read(&mut self) {
        let Some((z, a, n)) = self.range(5 * self.stripe()) else { return };
        self.read_this(z, a, n);
    }
    fn read_this(&mut self, z: u32, a: u64, n: u64) {
        let st = self.stripe(); let (start, want) = { let zn = &self.zones[&z]; (zn.start, zn.pages[a as usize..(a + n) as usize].to_vec()) };
        let multi = self.s.n > 1 && (start + a) / st != (start + a + n - 1) / st;
        let must = !self.over.get() && self.lost() <= self.f();
        let txt = format!("{n} LBAs at LBA {a} of zone {z} ({} columns missing or faulted, {} failing)", self.absent(), self.lost() - self.absent());
        self.note(if multi { "read of several stripes" } else { "read within a stripe" }, txt.clone());
        if self.absent() > 0 { *self.n.entry("degraded reads").or_default() += 1; } else if self.sick() { *self.n.entry("reads with failing disks").or_default() += 1; }
        let dbs = DivBufShared::from(vec![0xa7u8; n as usize * L]);
        let f = self.v().read_at(dbs.try_mut().unwrap(), start + a);
        self.spawn(f, What::Read { z, a, want, must, txt }, Some(dbs));
    }
    fn flush(&mut self) {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Open && !z.1.broken).map(|z| *z.0).collect();
        if c.is_empty() { return; }
        let z = *self.r.pick(&c); self.flush_this(z);
    }
    fn flush_this(&mut self, z: u32) {
        self.note("flush zone", format!("{z}"));
        let must = self.wfail() <= self.f();
        let (pad, f) = self.v().flush_zone(z);
        let zn = self.zones.get_mut(&z).unwrap();
        for _ in 0..pad { zn.pages.push(Page { seed: 0, len: 0 }); zn.acked.push(true); }
        zn.flushed = zn.pages.len() as u64;
        self.spawn(f, What::Other { must, txt: format!("flush zone {z}") }, None);
    }
    fn finish_zone(&mut self) {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Open && !z.1.broken && (z.1.pages.len() as u64 * 3 > z.1.end - z.1.start)).map(|z| *z.0).collect();
        if c.is_empty() { return; }
        let z = *self.r.pick(&c);
        self.note("finish zone", format!("{z}"));
        let must = self.wfail() <= self.f() && !self.dead();
        let f = self.v().finish_zone(z);
        let zn = self.zones.get_mut(&z).unwrap(); zn.st = Zst::Closed; zn.flushed = zn.pages.len() as u64;
        self.spawn(f, What::Other { must, txt: format!("finish zone {z}") }, None);
    }
    async fn erase(&mut self) -> R<()> {
        let c: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Closed && !z.1.broken).map(|z| *z.0).collect();
        if c.is_empty() || self.rebuilding() { return Ok(()); }
        let z = *self.r.pick(&c);
        self.quiet().await?;
        self.note("erase zone", format!("{z}"));
        let must = !self.dead();
        let f = self.v().erase_zone(z);
        match finishes(f).await { Some(Ok(())) => {} Some(Err(e)) => { ensure!(!must, "a zone operation fails though enough disks work", "erase zone {z}: {e:?}"); self.zones.get_mut(&z).unwrap().broken = true; } None => fail!("an operation never finishes", "erase zone {z}") }
        let zn = self.zones.get_mut(&z).unwrap(); zn.st = Zst::Empty; zn.pages.clear(); zn.acked.clear(); zn.flushed = 0;
        self.observe()
    }
    fn rebuilding(&self) -> bool { self.cols.iter().any(|c| c.1.iter().any(|l| l.st == St::Rebuilding)) }
    /// One more disk fails or is taken away, so long as the array promises to survive it
    async fn fault(&mut self) -> R<()> {
        let c = self.r.usize(self.s.n); 
        let oks: Vec<usize> = (0..self.cols[c].1.len()).filter(|l| matches!(self.cols[c].1[*l].st, St::Ok)).collect();
        if oks.is_empty() { return Ok(()); }
        let whole = self.s.n > 1 && self.r.chance(1, 3);
        let l = *self.r.pick(&oks);
        // What would be lost
        let goods = oks.iter().filter(|x| **x != l && *self.cols[c].1[**x].sick.lock().unwrap() == Sick::No).count();
        let loses = whole || goods == 0;
        if loses && (self.lost() + usize::from(self.good(c)) > self.f()) { return Ok(()); }
        if whole && oks.len() < self.cols[c].1.len() && self.cols[c].1.iter().any(|l| l.st == St::Rebuilding) { return Ok(()); }
        let u = if whole { self.cols[c].0 } else { self.cols[c].1[l].uuid };
        self.note("fault", format!("{} of column {c}", if whole { "all".into() } else { format!("disk {l}") }));
        if self.r.chance(1, 2) { self.quiet().await?; }
        let mut r = self.raid.as_mut().unwrap().fault(u);
        if r == Err(Error::EAGAIN) {
            let busy = !self.pend.is_empty();
            self.quiet().await?; ensure!(busy, "an idle array is too busy to fault a disk", "EAGAIN with no operation outstanding");
            *self.n.entry("faults while busy").or_default() += 1;
            r = self.raid.as_mut().unwrap().fault(u);
        }
        ensure!(r == Ok(()), "a disk cannot be faulted", "{r:?}");
        if whole { for l in self.cols[c].1.iter_mut() { if l.st == St::Ok || l.st == St::Rebuilding { l.st = St::Faulted; } } }
        else {
            self.cols[c].1[l].st = St::Faulted;
            // a mirror without a working disk is faulted as a whole
        }
        self.labelled = false;
        self.health()
    }
    fn fail(&mut self) {
        let c = self.r.usize(self.s.n);
        let oks: Vec<usize> = (0..self.cols[c].1.len()).filter(|l| self.cols[c].1[*l].st == St::Ok).collect();
        if oks.is_empty() { return; }
        let l = *self.r.pick(&oks);
        let was = *self.cols[c].1[l].sick.lock().unwrap();
        if was == Sick::Dead { return; }
        if was != Sick::No { *self.cols[c].1[l].sick.lock().unwrap() = Sick::No; self.note("recovers", format!("disk {l} of column {c}")); return; }
        let size = self.s.zone * self.s.nz * L as u64;
        let how = match self.r.below(5) { 0 => Sick::Dead, 1 => Sick::Reads(0, size), _ => { let a = self.r.below(size); Sick::Reads(a, a + (1 + self.r.below(4 * self.s.cs)) * L as u64) } };
        if how == Sick::Dead && (self.rebuilding() || self.r.chance(1, 2)) { return; }
        *self.cols[c].1[l].sick.lock().unwrap() = how;
        if self.lost() > self.f() || how == Sick::Dead && self.wfail() > self.f() { *self.cols[c].1[l].sick.lock().unwrap() = was; return; }
        // what is under way may have met the error or not
        if how == Sick::Dead { for p in self.pend.iter_mut() { if let What::Other { must, .. } = &mut p.what { *must = false; } } }
        self.note("fails", format!("disk {l} of column {c}: {how:?}"));
    }
    fn health(&mut self) -> R<()> {
        let s = self.v().status();
        ensure!(s.mirrors.len() == self.s.n, "the status of the array is wrong", "{} mirrors", s.mirrors.len());
        for (c, m) in s.mirrors.iter().enumerate() {
            ensure!(m.uuid == self.cols[c].0, "the status of the array is wrong", "mirror {c} is not itself");
            let ok = m.health == Health::Online;
            let want = self.cols[c].1.iter().all(|l| l.st == St::Ok);
            ensure!(ok == want, "the status of the array is wrong", "mirror {c} is {:?}, its disks are {:?}", m.health, self.cols[c].1.iter().map(|l| l.st).collect::<Vec<_>>());
            let gone = m.health.is_faulted();
            ensure!(gone != self.present(c), "the status of the array is wrong", "mirror {c} is {:?}, its disks are {:?}", m.health, self.cols[c].1.iter().map(|l| l.st).collect::<Vec<_>>());
        }
        let all = self.cols.iter().all(|c| c.1.iter().all(|l| l.st == St::Ok));
        ensure!((s.health == Health::Online) == all, "the status of the array is wrong", "{:?}", s.health);
        Ok(())
    }
    /// Flush, label and perhaps store a space map, as syncing a pool does
    async fn label(&mut self) -> R<()> {
        self.quiet().await?;
        self.labelled = false;
        if self.dead() { return Ok(()); }
        let open: Vec<u32> = self.zones.iter().filter(|z| z.1.st == Zst::Open && !z.1.broken).map(|z| *z.0).collect();
        if self.zones.values().any(|z| z.st == Zst::Open && z.broken) { return Ok(()); }
        for z in open { self.flush_this(z); }
        self.quiet().await?;
        self.txg += 1;
        self.note("sync", format!("as transaction {}", self.txg));
        for idx in 0..2u32 {
            self.next = mon::mix(self.next);
            let f = self.v().write_spacemap(vec![buf(page(self.next))], idx, 0);
            match finishes(f).await { Some(Ok(())) => {} x => fail!("a degraded array cannot be synced", "writing the space map: {x:?}") }
            self.sm[idx as usize] = Some(self.next);
            let f = self.v().sync_all(None);
            match finishes(f).await { Some(Ok(())) => {} x => fail!("a degraded array cannot be synced", "syncing: {x:?}") }
            let f = self.v().write_label(LabelWriter::new(idx), TxgT::from(self.txg));
            match finishes(f).await { Some(Ok(())) => {} x => fail!("a degraded array cannot be synced", "writing the label: {x:?}") }
            let f = self.v().sync_all(None);
            match finishes(f).await { Some(Ok(())) => {} x => fail!("a degraded array cannot be synced", "syncing: {x:?}") }
        }
        self.labelled = true;
        for c in self.cols.iter_mut() { for l in c.1.iter_mut() { if l.st == St::Ok { l.named = true; } } }
        Ok(())
    }
    async fn spacemap(&mut self) -> R<()> {
        let idx = self.r.usize(2);
        let Some(s) = self.sm[idx] else { return Ok(()) };
        if self.lost() > self.f() { return Ok(()); }
        self.note("read space map", format!("{idx}"));
        let dbs = DivBufShared::from(vec![0u8; L]);
        let f = self.v().read_spacemap(dbs.try_mut().unwrap(), idx as u32);
        match finishes(f).await {
            Some(Ok(())) => ensure!(dbs.try_const().unwrap()[..] == page(s)[..], "a space map is not what was written", "{idx}"),
            x => fail!("a space map cannot be read though a disk with it works", "{x:?}"),
        }
        Ok(())
    }
    /// Close, lose some disks (if the array promises to survive it), open
    async fn reopen(&mut self) -> R<()> {
        self.label().await?;
        if !self.labelled || self.rebuilding() { return Ok(()); }
        self.quiet().await?;
        self.raid = None;
        for c in &self.cols { for l in &c.1 { *l.sick.lock().unwrap() = Sick::No; } }
        // What was out of service stays away, or comes back without what it missed
        let mut back = vec![];
        for (c, (_, ls)) in self.cols.iter_mut().enumerate() {
            let ok = ls.iter().any(|l| l.st == St::Ok);
            for (i, l) in ls.iter_mut().enumerate() { if l.st == St::Faulted { l.st = St::Missing; } if l.st == St::Missing && l.named && ok && self.s.m > 1 && self.r.chance(1, 3) && back.iter().all(|b: &(usize, usize)| b.0 != c) { back.push((c, i)); } }
        }
        let gone: Vec<(usize, usize)> = (0..self.s.n).flat_map(|c| (0..self.cols[c].1.len()).map(move |l| (c, l))).filter(|x| self.cols[x.0].1[x.1].st == St::Ok).collect();
        let mut more = self.r.usize(3); let mut g = gone.clone(); self.r.shuffle(&mut g);
        for (c, l) in g { if more == 0 { break; } self.cols[c].1[l].st = St::Missing; if self.absent() > self.f() || back.iter().any(|b| b.0 == c) && !self.present(c) { self.cols[c].1[l].st = St::Ok; } else { more -= 1; } }
        for (c, l) in &back { self.cols[*c].1[*l].st = St::Rebuilding; let p = self.cols[*c].1[*l].path.clone(); self.wrote.remove(&p); }
        let mut there: Vec<PathBuf> = self.cols.iter().flat_map(|c| c.1.iter().filter(|l| matches!(l.st, St::Ok | St::Rebuilding)).map(|l| l.path.clone())).collect();
        self.r.shuffle(&mut there);
        self.note("reopen", format!("with {:?}", self.cols.iter().map(|c| c.1.iter().map(|l| l.st).collect::<Vec<_>>()).collect::<Vec<_>>()));
        let mut m = raid::Manager::default();
        for p in &there { match finishes(m.taste(p)).await { Some(Ok(_)) => {} x => fail!("a disk of the array is not recognised", "{p:?}: {:?}", x.map(|y| y.err())) } }
        let uuid = self.uuid;
        let (raid, rd) = match finishes(m.import(uuid)).await { Some(Ok(x)) => x, x => fail!("the array cannot be opened though enough disks are there", "{:?}", x.map(|y| y.err())) };
        drop(rd);
        ensure!(raid.uuid() == self.uuid, "the array changes its name", "");
        self.raid = Some(raid);
        self.limits(true)?;
        let open: Vec<(u32, u64)> = self.zones.iter().filter(|z| z.1.st == Zst::Open && !z.1.broken).map(|z| (*z.0, z.1.pages.len() as u64)).collect();
        for (z, n) in open {
            // Cluster forgets such a zone when it's opened again
            if n == 0 { self.zones.get_mut(&z).unwrap().broken = true; continue; }
            let f = self.v().reopen_zone(z, n);
            match finishes(f).await { Some(Ok(())) => {} x => fail!("a zone cannot be reopened", "{z}: {x:?}") }
        }
        self.health()?;
        if !back.is_empty() { for (c, _) in back { self.rebuild(c).await?; } }
        Ok(())
    }
    fn limits(&mut self, again: bool) -> R<()> {
        let nz = self.v().zones(); let size = self.v().size();
        ensure!(nz as u64 == self.s.nz, "the array has the wrong number of zones", "{nz}");
        let mut last = 0;
        for z in 0..nz {
            let (a, b) = self.v().zone_limits(z);
            ensure!(a < b && a >= last, "zones overlap or are empty", "zone {z} is {a}..{b}, the one before ends at {last}");
            ensure!(b <= size, "a zone lies beyond the end of the array", "zone {z} is {a}..{b}, size {size}");
            for x in [a, b - 1, a + self.r.below(b - a)] { let g = self.v().lba2zone(x); ensure!(g == Some(z), "an address belongs to the wrong zone", "{x}, in {a}..{b} of zone {z}: {g:?}"); }
            if a > last { let x = last + self.r.below(a - last); let g = self.v().lba2zone(x); ensure!(g.is_none(), "an address between zones belongs to one", "{x} before zone {z}: {g:?}"); }
            last = b;
            if again { let zn = &self.zones[&z]; ensure!((zn.start, zn.end) == (a, b), "a zone moves when the array is opened again", "zone {z}: {}..{} before, {a}..{b} now", zn.start, zn.end); }
            else { self.zones.insert(z, Zone { st: Zst::Empty, start: a, end: b, pages: vec![], acked: vec![], flushed: 0, broken: false, repaired: false }); }
        }
        Ok(())
    }
    /// Put a new disk into a mirror
    async fn attach(&mut self) -> R<()> {
        let c = self.r.usize(self.s.n);
        if self.rebuilding() || self.dead() || !self.good(c) || self.cols[c].1.len() > 3 || self.cols[c].1.iter().any(|l| l.st == St::Ok && *l.sick.lock().unwrap() != Sick::No) { return Ok(()); }
        self.quiet().await?;
        let (p, dev, sick) = self.file();
        let u = if self.r.chance(1, 2) { self.cols[c].0 } else { self.cols[c].1[0].uuid };
        self.note("attach", format!("a disk to column {c}"));
        let r = self.raid.as_mut().unwrap().attach(u, &p);
        ensure!(r.is_ok(), "a disk cannot be attached", "{r:?}");
        let uuid = { let s = self.v().status(); s.mirrors[c].leaves.last().unwrap().uuid };
        self.cols[c].1.push(Leaf { path: p, dev, uuid, st: St::Rebuilding, sick, named: false });
        self.labelled = false;
        self.health()?;
        self.rebuild(c).await
    }
    /// Rebuild what needs it in column c, while other things go on
    async fn rebuild(&mut self, c: usize) -> R<()> {
        for z in self.zones.values_mut() { z.repaired = false; }
        let bad = |z: u32, x| Err(("a disk cannot be rebuilt".to_string(), format!("zone {z}: {x:?}")));
        for _ in 0..40 {
            let Some(z) = self.zones.iter().find(|z| z.1.st == Zst::Closed && !z.1.repaired).map(|z| *z.0) else { break };
            // a zone's last stripe has left its buffer before the zone is repaired
            self.quiet().await?;
            self.note("repair zone", format!("{z} of column {c}"));
            let f = self.v().repair_mirror_zone(c, z, None);
            let h = tokio::spawn(f);
            for _ in 0..self.r.usize(6) { match self.r.below(4) { 0 | 1 => self.write(), 2 => self.read(), _ => self.flush() } self.some().await?; }
            match finishes(h).await { Some(Ok(Ok(()))) => {} Some(Err(e)) => std::panic::resume_unwind(e.into_panic()), x => return bad(z, format!("{x:?}")) }
            self.zones.get_mut(&z).unwrap().repaired = true;
            if self.r.chance(1, 3) { self.finish_zone(); }
        }
        self.quiet().await?;
        let open: Vec<(u32, u64, bool)> = self.zones.iter().filter(|z| z.1.st == Zst::Open || z.1.st == Zst::Closed && !z.1.repaired).map(|z| (*z.0, z.1.pages.len() as u64, z.1.st == Zst::Open)).collect();
        for (z, n, op) in open {
            if op && n == 0 { continue; }
            self.note("repair zone", format!("{z} of column {c}{}", if op { format!(", open, {n} LBAs written") } else { String::new() }));
            let f = self.v().repair_mirror_zone(c, z, if op { NonZeroU64::new(n) } else { None });
            match finishes(f).await { Some(Ok(())) => {} x => return bad(z, format!("{x:?}")) }
        }
        if self.r.chance(1, 2) {
            let f = self.v().sync_all(Some(c)); match finishes(f).await { Some(Ok(())) => {} x => fail!("a rebuilt disk cannot be synced", "{x:?}") }
            let f = self.v().repair_label(LabelWriter::new(0), c, TxgT::from(self.txg)); match finishes(f).await { Some(Ok(())) => {} x => fail!("the label of a rebuilt disk cannot be written", "{x:?}") }
            for l in self.cols[c].1.iter_mut() { if l.st == St::Rebuilding { l.named = true; } }
            let f = self.v().repair_label(LabelWriter::new(1), c, TxgT::from(self.txg)); match finishes(f).await { Some(Ok(())) => {} x => fail!("the label of a rebuilt disk cannot be written", "{x:?}") }
        }
        let r = self.raid.as_mut().unwrap().restore(c);
        ensure!(r == Ok(()), "a rebuilt disk cannot go into service", "{r:?}");
        let mut fresh = vec![];
        for (i, l) in self.cols[c].1.iter_mut().enumerate() { if l.st == St::Rebuilding { l.st = St::Ok; fresh.push(i); } }
        self.note("restore", format!("column {c}"));
        *self.n.entry("disks rebuilt").or_default() += 1;
        // the space map isn't rebuilt, but written anew
        self.sm = [None; 2];
        self.labelled = false;
        self.health()?;
        // Rely on it alone
        if self.r.chance(2, 3) {
            for i in 0..self.cols[c].1.len() { if self.cols[c].1[i].st == St::Ok && !fresh.contains(&i) {
                let u = self.cols[c].1[i].uuid; let r = self.raid.as_mut().unwrap().fault(u);
                ensure!(r == Ok(()), "a disk cannot be faulted", "{r:?}"); self.cols[c].1[i].st = St::Faulted;
            } }
            self.note("fault", format!("all disks of column {c} but the rebuilt"));
            self.everything().await?;
        }
        Ok(())
    }
    /// Disks return wrong data without saying so; the right data must be among the reconstructions
    async fn lies(&mut self) -> R<()> {
        self.quiet().await?;
        if self.sick() || self.rebuilding() { return Ok(()); }
        let null = self.s.n == 1;
        let spare = if null { (0..self.cols[0].1.len()).filter(|l| self.cols[0].1[*l].st == St::Ok).count() - 1 } else { self.f() - self.absent() };
        if spare == 0 { return Ok(()); }
        let k = self.r.range(1, spare as u64) as usize;
        let mut c: Vec<(usize, usize)> = if null { (0..self.cols[0].1.len()).filter(|l| self.cols[0].1[*l].st == St::Ok).map(|l| (0, l)).collect() } else { (0..self.s.n).filter(|c| self.present(*c)).map(|c| (c, usize::MAX)).collect() };
        self.r.shuffle(&mut c); c.truncate(k);
        let mut undo = vec![];
        for (c, l) in &c { for (i, lf) in self.cols[*c].1.iter().enumerate() {
            if lf.st != St::Ok || *l != usize::MAX && *l != i { continue; }
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&lf.path).unwrap();
            let size = (self.s.zone * self.s.nz - 10) as usize * L; let mut b = vec![0; size]; f.read_exact_at(&mut b, 10 * L as u64).unwrap();
            undo.push((lf.path.clone(), b.clone()));
            match self.r.below(3) { 0 => b.fill(0), 1 => self.r.fill(&mut b), _ => for x in b.chunks_mut(L) { if self.r.chance(1, 3) { let i = self.r.usize(L); x[i] ^= 1 << self.r.below(8); } } }
            f.write_all_at(&b, 10 * L as u64).unwrap();
        } }
        self.note("lies", format!("columns {:?}", c));
        let mut out = Ok(());
        for _ in 0..6 {
            let Some((z, a, n)) = self.range(3 * self.stripe()) else { break };
            let fl = self.zones[&z].flushed; if a >= fl { continue; }
            let n = n.min(fl - a).max(1);
            let (start, want) = { let zn = &self.zones[&z]; (zn.start, zn.pages[a as usize..(a + n) as usize].to_vec()) };
            self.note("read long", format!("{n} LBAs at LBA {a} of zone {z} with lies in columns {c:?}"));
            let f = self.v().read_long(n, start + a);
            let mut tried = 0;
            out = match finishes(f).await {
                None => Err(("an operation never finishes".to_string(), "read_long".to_string())),
                Some(Err(e)) => Err(("no reconstruction of what a disk garbled".into(), format!("read_long of {n} LBAs at {a} of zone {z}: {e:?}"))),
                Some(Ok(it)) => {
                    let mut found = false;
                    for d in it { tried += 1; let d = d.try_const().unwrap(); if d.len() == n as usize * L && self.compare(z, a, &want, &d, "").is_ok() { found = true; break; } if tried > 2000 { break; } }
                    if found { *self.n.entry("reconstructions").or_default() += tried; Ok(()) } else { Err(("no reconstruction of what a disk garbled".into(), format!("read_long of {n} LBAs at {a} of zone {z} offers {tried} others; garbled: {c:?}, missing: {}", self.absent()))) }
                }
            };
            if out.is_err() { break; }
        }
        for (p, b) in undo { std::fs::OpenOptions::new().write(true).open(p).unwrap().write_all_at(&b, 10 * L as u64).unwrap(); }
        out
    }
    async fn everything(&mut self) -> R<()> {
        let zs: Vec<(u32, u64)> = self.zones.iter().filter(|z| z.1.st != Zst::Empty).map(|z| (*z.0, z.1.pages.len() as u64)).collect();
        for (z, n) in zs {
            let mut a = 0;
            while a < n {
                if !self.zones[&z].acked[a as usize] { a += 1; continue; }
                let want = 1 + self.r.below(4 * self.stripe()); let mut e = a;
                while e < n && e - a < want && self.zones[&z].acked[e as usize] { e += 1; }
                self.read_this(z, a, e - a); a = e;
                if self.pend.len() > 8 { self.some().await?; }
            }
        }
        self.quiet().await
    }
    /// More disks are gone than the array can do without: errors, but never wrong data
    async fn beyond(&mut self) -> R<()> {
        self.quiet().await?;
        if self.rebuilding() || self.zones.values().any(|z| z.st == Zst::Open && z.pages.len() as u64 % self.stripe() != 0) { return Ok(()); }
        let mut gone = self.absent(); let mut cs: Vec<usize> = (0..self.s.n).filter(|c| self.present(*c)).collect(); self.r.shuffle(&mut cs);
        self.over.set(true);
        for c in cs {
            if gone > self.f() + self.r.usize(2) || gone + 1 == self.s.n { break; }
            let u = self.cols[c].0;
            if self.raid.as_mut().unwrap().fault(u).is_err() { break; }
            gone += 1;
            for l in self.cols[c].1.iter_mut() { if l.st == St::Ok { l.st = St::Faulted; } }
        }
        self.note("beyond", format!("{gone} columns gone"));
        for _ in 0..12 { self.read(); self.some().await?; }
        self.quiet().await
    }
}
async fn one(s: Setup, seed: u64, steps: usize, stage: Arc<Mutex<(VecDeque<String>, &'static str)>>, out: Arc<Mutex<(BTreeMap<&'static str, u64>, BTreeSet<u64>)>>) -> R<()> {
    let mut a = Arr::new(s, seed, stage);
    let r = go(&mut a, steps).await;
    *out.lock().unwrap() = (std::mem::take(&mut a.n), std::mem::take(&mut a.distinct));
    a.pend.clear();
    r
}
async fn go(a: &mut Arr, steps: usize) -> R<()> {
    a.limits(false)?; a.health()?;
    a.label().await?;
    let deg = a.r.below(4);
    for _ in 0..steps {
        match a.r.below(100) {
            0..=7 => a.open_zone().await?,
            8..=44 => a.write(),
            45..=71 => a.read(),
            72..=76 => a.flush(),
            77..=81 => a.finish_zone(),
            82..=83 => a.erase().await?,
            84..=85 if deg > 0 => a.fault().await?,
            86..=88 if deg > 1 => a.fail(),
            89..=90 => a.label().await?,
            91..=92 => a.reopen().await?,
            93..=94 => a.lies().await?,
            95 if deg != 2 => a.attach().await?,
            96 => a.spacemap().await?,
            97 => a.quiet().await?,
            _ => {}
        }
        a.some().await?;
    }
    a.everything().await?;
    a.reopen().await?;
    a.everything().await?;
    a.beyond().await
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "fault_enumeration", "one evaluation = one array with a random sequence of writes, reads, zone operations, disk failures, reopening and rebuilding; distinct = distinct (operation, state of all disks, geometry)");
    let cases = ck.n(6000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x4a1d, case);
        let s = Setup::random(&r); let seed = r.next(); let steps = 60 + r.usize(200);
        let stage = Arc::new(Mutex::new((VecDeque::new(), "setup"))); let s2 = stage.clone(); let s3 = s.clone();
        let out = Arc::new(Mutex::new(Default::default())); let o2 = out.clone();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(one(s3, seed, steps, s2, o2)));
        let (n, d): (BTreeMap<&'static str, u64>, BTreeSet<u64>) = std::mem::take(&mut out.lock().unwrap());
        ck.eval(); for (k, v) in n { ck.count(k, v); } for x in d { ck.distinct(x); }
        let (log, area) = stage.lock().unwrap().clone();
        let setup = format!("{s:?}");
        match res {
            Ok(Ok(())) => {
                let p = mon::ALL_PANICS.lock().unwrap().get(before..).and_then(|x| x.iter().find(|p| crate::in_repo(p)).cloned());
                if let Some(p) = p { crate::panicked(&mut ck, area, &p, case, &log, &setup); }
                if ck.wants_sample() { ck.sample(json!({"case": case, "array": s.text(), "last operations": log.iter().rev().take(5).collect::<Vec<_>>()})); }
            }
            Ok(Err(b)) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}"); } ck.violation(&b.0, &json!({"case": case, "what": b.1, "history": log.iter().collect::<Vec<_>>(), "setup": setup})); }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, area, &p, case, &log, &setup); }
        }
    }
    ck.assume("a disk that once failed a write does not return with data until it is rebuilt");
    ck.assume("one writer per zone, writing sequentially, as Cluster does; nothing is read before the write is acknowledged");
    cleanup();
    ck.finish()
}
