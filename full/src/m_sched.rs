//! One disk under its scheduler: requests in any order and number, also given up, against what the device was told.
use crate::env::*;
use bfffs_core::{label::LabelWriter, types::*, vdev::Vdev, vdev_block::{VdevBlock, VdevBlockFut}, Error};
use divbuf::{DivBuf, DivBufShared};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, future::Future, num::NonZeroU64, os::unix::fs::FileExt, path::PathBuf, sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}}};
use tokio_file::monitor::{self, Action, Device, Kind as K, Phase};

type Bad = (String, String);
type R<T> = std::result::Result<T, Bad>;
type Stage = Arc<Mutex<(VecDeque<String>, &'static str)>>;
const L: u64 = 4096;
const EAGAIN: i32 = 11;
macro_rules! fail { ($k:expr, $($t:tt)*) => { return Err(($k.to_string(), format!($($t)*))) } }
macro_rules! ensure { ($c:expr, $k:expr, $($t:tt)*) => { if !$c { fail!($k, $($t)*); } } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Write, Read, Sync, Label(u32), Zone }
struct Req { kind: Kind, off: u64, len: u64, data: Vec<u8>, polled: u64, /** given up */ gone: bool, op: Option<u64>, /** finished, and how */ done: Option<(u64, std::result::Result<(), Error>)>, settled: bool, txt: String }
impl Req { fn dev(&self) -> Option<K> { match self.kind { Kind::Write | Kind::Label(_) => Some(K::Write), Kind::Read => Some(K::Read), Kind::Sync => Some(K::Sync), Kind::Zone => None } } }
struct DevOp { kind: K, off: u64, len: u64, submit: u64, complete: u64, errno: i32, reqs: Vec<usize> }
type Task = tokio::task::JoinHandle<()>;
type Done = Arc<Mutex<Vec<(usize, u64, std::result::Result<(), Error>, Option<DivBufShared>)>>>;
#[derive(Clone, Debug)]
pub struct Setup { zone: u64, nz: u64, tail: u64, jitter: u64, eagain: u64, fails: u64, steps: usize, burst: bool }
impl Setup {
    fn random(r: &Rng) -> Setup {
        let zone = *r.pick(&[16u64, 24, 64, 100, 256]);
        let burst = r.chance(1, 12);
        Setup { zone: if burst { 2048 } else { zone }, nz: r.range(2, 6), tail: if r.chance(1, 3) { r.below(zone) } else { 0 }, jitter: if burst { 40 } else { *r.pick(&[0u64, 1, 3, 12, 40]) }, eagain: *r.pick(&[0u64, 0, 4, 20, 60]), fails: *r.pick(&[0u64, 0, 0, 2, 10]), steps: 20 + r.usize(180), burst }
    }
}
struct M { s: Setup, r: Rng, _dir: Dir, path: PathBuf, dev: Arc<Device>, vb: Option<VdevBlock>, depth: u64, reqs: Vec<Req>, ops: BTreeMap<u64, DevOp>, tasks: Vec<(usize, Task)>, done: Done,
    /// where the next write of each zone goes, and the end of what the disk was told to write in it
    wp: Vec<u64>, issued: Vec<u64>,
    /// what each LBA holds, None if a failed write leaves that open
    disk: BTreeMap<u64, Option<u64>>, inflight: u64, erases: Vec<(u64, u64)>, log: VecDeque<String>, n: BTreeMap<&'static str, u64>, distinct: BTreeSet<u64>, next: u64, txg: u32, sm: [u64; 2], syncs: Vec<u64>, stage: Stage,
    /// requests not yet seen on the disk, by (kind, offset)
    open: BTreeMap<(K, u64), usize> }
fn seq() -> u64 { monitor::SEQ.fetch_add(1, Ordering::SeqCst) }
fn page(seed: u64) -> Vec<u8> { Rng::new(seed).bytes(L as usize) }
fn errno(e: &Error) -> i32 { i32::from(*e) }

impl M {
    fn note(&mut self, k: &'static str, t: String) { *self.n.entry(k).or_default() += 1; if self.log.len() > 60 { self.log.pop_front(); } self.log.push_back(format!("{k} {t}")); let mut s = self.stage.lock().unwrap(); s.0 = self.log.clone(); s.1 = k; }
    fn new(s: Setup, seed: u64, stage: Stage) -> M {
        let dir = Dir::new(); let path = dir.0.join("disk");
        let size = s.zone * s.nz + s.tail;
        let f = std::fs::File::create(&path).unwrap(); f.set_len(size * L).unwrap();
        let dev = monitor::register(&path).unwrap();
        dev.keep_events.store(true, Ordering::Relaxed); dev.keep_data.store(true, Ordering::Relaxed);
        let (j, e, b) = (s.jitter, s.eagain, s.fails); let n = AtomicU64::new(0); let refuse = AtomicU64::new(0);
        dev.set_policy(move |op| {
            if op.kind == K::Erase { return Action::Go(0); }
            let x = mon::mix(seed.wrapping_add(n.fetch_add(1, Ordering::Relaxed)) ^ 0x5c4ed);
            if refuse.load(Ordering::Relaxed) > 0 { refuse.fetch_sub(1, Ordering::Relaxed); return Action::Fail(EAGAIN, 0); }
            if x % 100 < e { refuse.store((x >> 20) % 4 * ((x >> 30) % 4), Ordering::Relaxed); return Action::Fail(EAGAIN, 0); }
            let d = ((x >> 8) % (j + 1)) as u32;
            if (x >> 40) % 100 < b { return Action::Fail(if x >> 63 == 1 { 5 } else { 28 }, d); }
            Action::Go(d)
        });
        let vb = VdevBlock::create(&path, NonZeroU64::new(s.zone)).unwrap();
        let depth = vb.optimum_queue_depth() as u64;
        let nz = s.nz as usize + (s.tail > 0) as usize;
        let wp = (0..nz as u64).map(|z| if z == 0 { 10 } else { z * s.zone }).collect::<Vec<_>>();
        M { r: Rng::new(seed), _dir: dir, path, dev, vb: Some(vb), depth, reqs: vec![], ops: BTreeMap::new(), tasks: vec![], done: Done::default(), issued: wp.clone(), wp, disk: BTreeMap::new(), inflight: 0, erases: vec![], log: VecDeque::new(), n: BTreeMap::new(), distinct: BTreeSet::new(), next: mon::mix(seed), txg: 0, sm: [0; 2], syncs: vec![], stage, open: BTreeMap::new(), s }
    }
    fn v(&self) -> &VdevBlock { self.vb.as_ref().unwrap() }
    fn end(&self, z: u64) -> u64 { ((z + 1) * self.s.zone).min(self.s.zone * self.s.nz + self.s.tail) }
    fn seed(&mut self) -> u64 { self.next = mon::mix(self.next); self.next }
    // ------------------------------------------------------------ what the disk was told
    fn watch(&mut self) -> R<()> {
        for e in self.dev.take_log() {
            let (a, b) = (e.op.off, e.op.off + e.op.len);
            let name = |k: K| match k { K::Read => "read", K::Write => "write", K::Sync => "sync", K::Erase => "erasure" };
            let txt = format!("{} of LBAs {}..{}", name(e.op.kind), a / L, b / L);
            match (e.phase, e.op.kind) {
                (Phase::Submit, K::Erase) => {
                    let i = self.erases.iter().position(|x| *x == (a, b));
                    ensure!(i.is_some(), "the disk is told what nobody asked for", "{txt}");
                    self.erases.swap_remove(i.unwrap());
                    for x in a / L..b / L { self.disk.remove(&x); }
                }
                (_, K::Erase) => {}
                (Phase::Submit, k) => {
                    self.inflight += 1;
                    ensure!(self.inflight <= self.depth, "more operations are under way than the queue is deep", "{} at the {txt}", self.inflight);
                    *self.n.entry("operations of the disk").or_default() += 1;
                    let mut mine = vec![];
                    if k == K::Sync {
                        self.syncs.push(e.op.id);
                        let asked = self.reqs.iter().filter(|r| r.kind == Kind::Sync && r.polled > 0 && r.polled < e.seq).count();
                        ensure!(asked >= self.syncs.len(), "the disk is told what nobody asked for", "{} syncs, {asked} requested", self.syncs.len());
                    } else {
                        ensure!(e.op.iovs <= 1024, "an operation has more buffers than the system takes", "{txt}: {}", e.op.iovs);
                        if e.op.iovs > 1000 { *self.n.entry("operations with over 1000 buffers").or_default() += 1; }
                        let mut at = a;
                        while at < b {
                            let Some(i) = self.open.get(&(k, at)).copied().filter(|i| self.reqs[*i].polled > 0 && self.reqs[*i].polled < e.seq) else { fail!("the disk is told what nobody asked for", "{txt}, of which nobody asked for LBA {} on", at / L) };
                            let q = &self.reqs[i];
                            if let Kind::Label(_) = q.kind { ensure!(e.op.len <= 4 * L, "the disk is told what nobody asked for", "{txt}: a label"); at = b; } else { at += q.len; }
                            mine.push(i); self.open.remove(&(k, q.off)); 
                        }
                        ensure!(at == b, "the disk is told to do only part of a request", "{txt}, the request ends at LBA {}", at / L);
                        for i in &mine { self.reqs[*i].op = Some(e.op.id); }
                        if mine.len() > 1 { *self.n.entry("requests merged").or_default() += mine.len() as u64; }
                        if k == K::Write && a >= 10 * L {
                            let z = (a / L / self.s.zone) as usize;
                            ensure!(a / L >= self.issued[z], "writes of a zone reach the disk out of order", "{txt} after LBA {}", self.issued[z]);
                            self.issued[z] = b / L;
                        }
                    }
                    self.distinct.insert(mon::hash(&(e.op.kind as u8, mine.len().min(20), self.inflight, mine.iter().any(|i| self.reqs[*i].gone), self.s.eagain, self.s.fails > 0)));
                    self.ops.insert(e.op.id, DevOp { kind: k, off: a, len: e.op.len, submit: e.seq, complete: 0, errno: 0, reqs: mine });
                }
                (Phase::Complete, k) => {
                    self.inflight -= 1;
                    ensure!(e.errno != 125, "an operation is given up while it is under way", "{txt}");
                    if e.errno == EAGAIN {
                        *self.n.entry("operations put off").or_default() += 1;
                        let o = self.ops.remove(&e.op.id).unwrap();
                        for i in o.reqs { self.reqs[i].op = None; self.open.insert((k, self.reqs[i].off), i); }
                        if k == K::Sync { self.syncs.pop(); }
                        if k == K::Write && a >= 10 * L { let z = (a / L / self.s.zone) as usize; self.issued[z] = a / L; }
                        continue;
                    }
                    let o = self.ops.get_mut(&e.op.id).unwrap();
                    o.complete = e.seq; o.errno = e.errno;
                    if k == K::Write {
                        for i in &o.reqs {
                            let q = &self.reqs[*i];
                            let n = if let Kind::Label(_) = q.kind { o.len } else { q.len };
                            for x in 0..n / L { self.disk.insert(q.off / L + x, None); }
                            if e.errno != 0 { continue; }
                            let d = e.data.as_ref().unwrap(); let at = (q.off - a) as usize;
                            if let Kind::Label(_) = q.kind {
                                ensure!(&d[at..at + 10] == b"BFFFS Vdev", "something else is written than was asked for", "a label: {:02x?}", &d[at..at + 16]);
                            } else {
                                ensure!(d[at..at + q.len as usize] == q.data[..], "something else is written than was asked for", "{}", q.txt);
                            }
                            for x in 0..n / L { self.disk.insert(q.off / L + x, Some(mon::hash(&d[at + (x * L) as usize..at + ((x + 1) * L) as usize]))); }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------ requests
    /// Hand a request to the vdev: leave it, give it up, or see it through
    fn go(&mut self, kind: Kind, off: u64, data: Vec<u8>, len: u64, f: VdevBlockFut, dbs: Option<DivBufShared>, txt: String, may_drop: bool) -> R<()> {
        self.watch()?;
        self.note(match kind { Kind::Write => "write", Kind::Read => "read", Kind::Sync => "sync", Kind::Label(_) => "label", Kind::Zone => "zone" }, txt.clone());
        let gone = may_drop && self.r.chance(1, 16);
        let i = self.reqs.len();
        let q = Req { kind, off, len, data, polled: seq(), gone, op: None, done: None, settled: false, txt };
        if let Some(k) = q.dev() { if k != K::Sync { let old = self.open.insert((k, off), i); assert!(old.is_none_or(|o| self.reqs[o].gone)); } }
        self.reqs.push(q);
        let done = self.done.clone();
        let mut f = Box::pin(f);
        // the first poll, at which the order of requests is determined
        let mut first = None;
        let cx = &mut std::task::Context::from_waker(futures::task::noop_waker_ref());
        if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) { first = Some(r); }
        if let Some(r) = first { done.lock().unwrap().push((i, seq(), r, dbs)); return Ok(()); }
        let k = self.r.usize(12);
        let h = tokio::spawn(async move {
            if gone { for _ in 0..k { tokio::task::yield_now().await; } drop(f); drop(dbs); return; }
            let r = f.await;
            done.lock().unwrap().push((i, seq(), r, dbs));
        });
        self.tasks.push((i, h));
        Ok(())
    }
    /// Made but never polled: nothing may happen
    fn unasked(&mut self, t: &str) -> bool { if self.r.chance(1, 12) { self.note("not asked for", t.into()); true } else { false } }
    /// Results that came in
    fn results(&mut self) -> R<()> {
        self.watch()?;
        let v = std::mem::take(&mut *self.done.lock().unwrap());
        for (i, at, res, dbs) in v {
            let q = &mut self.reqs[i];
            ensure!(q.done.is_none(), "a request finishes twice", "{}", q.txt);
            q.done = Some((at, res)); 
            let q = &self.reqs[i];
            let removed = res == Err(Error::ENXIO) && self.vb.is_none();
            *self.n.entry(if res.is_ok() { "succeeded" } else if removed { "cancelled by removal" } else { "failed with the disk" }).or_default() += 1;
            let result = |o: &DevOp| if o.errno == 0 { res.is_ok() } else { res.is_err_and(|e| errno(&e) == o.errno) };
            match q.kind {
                Kind::Zone => ensure!(res.is_ok() || removed, "a request that cannot fail fails", "{}: {res:?}", q.txt),
                _ if removed => ensure!(q.op.is_none(), "a request is cancelled that the disk was told", "{}", q.txt),
                Kind::Sync => {
                    // (is it a sync of that time, with that result, after all writes before it and before all after it?)
                    let mut why = "no sync of the disk meanwhile".to_string(); let mut ok = false;
                    for o in self.syncs.iter().filter_map(|o| self.ops.get(o)).filter(|o| o.submit > q.polled && o.complete > 0 && o.complete < at) {
                        if !result(o) { why = format!("the disk says {}", o.errno); continue; }
                        let w = self.reqs.iter().find(|w| w.dev() == Some(K::Write) && w.polled < q.polled && !w.gone && w.op.map(|x| self.ops[&x].submit > o.submit).unwrap_or(true));
                        if let Some(w) = w { why = format!("the disk was not told of the {} first", w.txt); continue; }
                        let w = self.reqs.iter().find(|w| w.dev() == Some(K::Write) && w.polled > q.polled && w.op.is_some_and(|x| self.ops[&x].submit < o.submit));
                        if let Some(w) = w { why = format!("the {}, asked for later, overtook it", w.txt); continue; }
                        ok = true; break;
                    }
                    ensure!(ok, "a sync is answered without what it stands for", "{res:?}: {why}");
                }
                _ => {
                    let Some(o) = q.op.map(|o| &self.ops[&o]) else { fail!("a request is answered that the disk was not told", "{}: {res:?}", q.txt) };
                    ensure!(o.complete > 0 && o.complete < at, "a request is answered before the disk is done", "{}: {res:?}", q.txt);
                    ensure!(result(o), "a request has another result than its operation", "{}: {res:?}, the disk says {} for the {:?} of LBAs {}..{}", q.txt, o.errno, o.kind, o.off / L, (o.off + o.len) / L);
                    if q.kind == Kind::Read && res.is_ok() {
                        let d = dbs.as_ref().unwrap().try_const();
                        ensure!(d.is_ok(), "a buffer is still in use after the request", "{}", q.txt);
                        let d = d.unwrap(); let first = d.iter().zip(&q.data).position(|x| x.0 != x.1);
                        ensure!(d.len() == q.data.len() && first.is_none(), "a read returns something else than what was written", "{}: {} bytes, different from byte {first:?}", q.txt, d.len());
                    }
                    if let Kind::Label(t) = q.kind {
                        if res.is_ok() { self.txg = t; }
                        let x = self.vb.as_ref().map(|v| v.txg()).unwrap_or(TxgT::from(self.txg));
                        ensure!(x == TxgT::from(self.txg), "the disk's transaction is not that of its last label", "{x:?} instead of {}, after {}: {res:?}", self.txg, q.txt);
                    }
                }
            }
            self.reqs[i].settled = true;
        }
        Ok(())
    }
    async fn some(&mut self) -> R<()> {
        for _ in 0..self.r.usize(5) { tokio::task::yield_now().await; }
        self.results()?;
        let max = if self.s.burst { 3000 } else { *self.r.pick(&[1usize, 15, 30, 60, 200]) };
        if self.tasks.len() > max { self.wait(max / 2).await?; }
        self.tasks.retain(|t| !t.1.is_finished());
        Ok(())
    }
    async fn wait(&mut self, left: usize) -> R<()> {
        while self.tasks.len() > left {
            let i = if self.r.chance(1, 2) { 0 } else { self.r.usize(self.tasks.len()) };
            let (q, h) = self.tasks.swap_remove(i);
            match finishes(h).await { Some(Ok(())) => {} Some(Err(e)) => std::panic::resume_unwind(e.into_panic()), None => { self.watch()?; fail!("a request never finishes", "{} (the disk was {}told)", self.reqs[q].txt, if self.reqs[q].op.is_some() { "" } else { "not " }) } }
        }
        self.results()
    }
    fn bufs(&mut self, n: u64, seeds: &mut Vec<u64>) -> (Vec<DivBuf>, Vec<u8>) {
        let mut all = vec![]; let mut v = vec![]; let mut left = n;
        while left > 0 { let k = self.r.range(1, left); let mut b = vec![]; for _ in 0..k { let s = self.seed(); seeds.push(s); b.extend(page(s)); } all.extend_from_slice(&b); v.push(DivBufShared::from(b).try_const().unwrap()); left -= k; }
        (v, all)
    }
    fn write(&mut self) -> R<()> { let z = self.r.below(self.wp.len() as u64); self.write_to(z) }
    fn write_to(&mut self, z: u64) -> R<()> {
        let (wp, end) = (self.wp[z as usize], self.end(z));
        if wp >= end { return Ok(()); }
        let n = (if self.s.burst { 1 } else { *self.r.pick(&[1u64, 1, 1, 2, 3, 8]) }).min(end - wp);
        let (bufs, mut data) = self.bufs(n, &mut vec![]);
        let f = if self.r.chance(1, 2) { self.v().write_at(DivBufShared::from(data.clone()).try_const().unwrap(), wp) } else {
            // cut anywhere; what is left of the last LBA is zeros
            let mut bufs = bufs;
            if self.r.chance(1, 3) {
                let short = 1 + self.r.usize(data.len()); 
                let short = short.max(data.len() - L as usize + 1);
                data[short..].fill(0);
                let mut v = vec![]; let mut a = 0;
                while a < short { let k = 1 + self.r.usize((short - a).min(6000)); v.push(DivBufShared::from(data[a..a + k].to_vec()).try_const().unwrap()); a += k; }
                bufs = v;
            }
            self.v().writev_at(bufs, wp)
        };
        let txt = format!("write of {n} LBAs at LBA {wp}");
        if self.unasked(&txt) { return Ok(()); }
        self.wp[z as usize] += n;
        self.go(Kind::Write, wp * L, data, n * L, f, None, txt, true)
    }
    fn read(&mut self, max: u64) -> R<()> {
        self.watch()?;
        let known: Vec<u64> = self.disk.iter().filter(|x| x.1.is_some() && *x.0 >= 10).map(|x| *x.0).collect();
        if known.is_empty() { return Ok(()); }
        let a = *self.r.pick(&known);
        if self.open.contains_key(&(K::Read, a * L)) { return Ok(()); }
        let want = self.r.range(1, max); let mut n = 0;
        while n < want && self.disk.get(&(a + n)).is_some_and(|x| x.is_some()) && (n == 0 || (a + n) % self.s.zone != 0) { n += 1; }
        self.read_this(a, n)
    }
    fn read_this(&mut self, a: u64, n: u64) -> R<()> {
        let mut data = vec![0; (n * L) as usize];
        std::fs::File::open(&self.path).unwrap().read_exact_at(&mut data, a * L).unwrap();
        for x in 0..n { assert_eq!(Some(Some(mon::hash(&data[(x * L) as usize..((x + 1) * L) as usize]))), self.disk.get(&(a + x)).copied(), "the file is not what the log says"); }
        let mut b = vec![0u8; data.len()]; self.r.fill(&mut b);
        let dbs = DivBufShared::from(b);
        let mut m = dbs.try_mut().unwrap();
        let f = if self.r.chance(1, 2) { self.v().read_at(m, a) } else {
            let mut v = vec![]; let mut left = n;
            while left > 1 && self.r.chance(3, 4) { let k = self.r.range(1, left - 1); let t = m.split_off((k * L) as usize); v.push(m); m = t; left -= k; }
            v.push(m); self.v().readv_at(v, a)
        };
        let txt = format!("read of {n} LBAs at LBA {a}");
        if self.unasked(&txt) { return Ok(()); }
        self.go(Kind::Read, a * L, data, n * L, f, Some(dbs), txt, true)
    }
    fn sync(&mut self) -> R<()> {
        let f = self.v().sync_all();
        if self.unasked("sync") { return Ok(()); }
        self.go(Kind::Sync, 0, vec![], 0, f, None, "sync".into(), false)
    }
    fn outstanding(&self, f: impl Fn(&Req) -> bool) -> bool { self.reqs.iter().any(|q| !q.settled && !(q.gone && q.op.is_some_and(|o| self.ops[&o].complete > 0)) && f(q)) }
    async fn zone(&mut self) -> R<()> {
        let z = self.r.below(self.wp.len() as u64);
        // (a last zone cut short: the vdev below thinks it longer)
        let (a, b) = (if z == 0 { 10 } else { z * self.s.zone }, (z + 1) * self.s.zone);
        match self.r.below(4) {
            0 => { let f = self.v().open_zone(a); self.go(Kind::Zone, a * L, vec![], 0, f, None, format!("opening of the zone at LBA {a}"), true) }
            1 => { let f = self.v().finish_zone(a, b - 1); self.go(Kind::Zone, a * L, vec![], 0, f, None, format!("finishing of the zone at LBA {a}"), true) }
            _ => {
                // erased only when nobody uses it
                self.wait(0).await?;
                if self.outstanding(|_| true) { return Ok(()); }
                let f = self.v().erase_zone(a, b - 1);
                self.erases.push((a * L, b * L));
                for x in a..b { self.disk.remove(&x); }
                self.wp[z as usize] = a; self.issued[z as usize] = a;
                self.go(Kind::Zone, a * L, vec![], 0, f, None, format!("erasure of the zone at LBA {a}"), false)?;
                self.wait(0).await?;
                ensure!(self.erases.is_empty(), "a request is answered that the disk was not told", "erasure of the zone at LBA {a}");
                Ok(())
            }
        }
    }
    fn label(&mut self) -> R<()> {
        if self.outstanding(|q| matches!(q.kind, Kind::Label(_))) { return Ok(()); }
        let i = self.r.below(2) as u32; let t = self.txg + 1 + self.r.below(5) as u32;
        let f = self.v().write_label(LabelWriter::new(i), TxgT::from(t));
        self.go(Kind::Label(t), i as u64 * 4 * L, vec![], 0, f, None, format!("writing of label {i} for transaction {t}"), false)
    }
    fn spacemap(&mut self) -> R<()> {
        self.watch()?;
        let i = self.r.below(2); let a = 8 + i;
        if self.outstanding(|q| q.off == a * L && q.len > 0) || self.open.contains_key(&(K::Write, a * L)) || self.open.contains_key(&(K::Read, a * L)) { return Ok(()); }
        if self.disk.get(&a).is_some_and(|x| x.is_some()) && self.r.chance(1, 2) {
            let mut data = vec![0; L as usize]; std::fs::File::open(&self.path).unwrap().read_exact_at(&mut data, a * L).unwrap();
            let dbs = DivBufShared::from(vec![0xa5u8; L as usize]);
            let f = self.v().read_spacemap(dbs.try_mut().unwrap(), i as u32);
            return self.go(Kind::Read, a * L, data, L, f, Some(dbs), format!("read of spacemap {i}"), true);
        }
        let mut data = { let s = self.seed(); page(s) };
        let n = 1 + self.r.usize(L as usize); data[n..].fill(0);
        let k = self.r.usize(n);
        let v = if k > 0 { vec![DivBufShared::from(data[..k].to_vec()).try_const().unwrap(), DivBufShared::from(data[k..n].to_vec()).try_const().unwrap()] } else { vec![DivBufShared::from(data[..n].to_vec()).try_const().unwrap()] };
        let f = self.v().write_spacemap(v, i as u32, 0);
        self.sm[i as usize] += 1;
        self.go(Kind::Write, a * L, data, L, f, None, format!("writing of spacemap {i}"), false)
    }
    fn limits(&self) -> R<()> {
        let v = self.v(); let size = self.s.zone * self.s.nz + self.s.tail;
        ensure!(v.size() == size && v.lbas_per_zone() == self.s.zone && v.zones() as usize == self.wp.len(), "the disk's size is not what it is", "{} LBAs in zones of {}, {} zones", v.size(), v.lbas_per_zone(), v.zones());
        for z in 0..self.wp.len() as u64 {
            let l = v.zone_limits(z as u32); let a = if z == 0 { 10 } else { z * self.s.zone };
            ensure!(l == (a, (z + 1) * self.s.zone), "a zone's limits are wrong", "zone {z}: {l:?}");
            for x in [a, self.end(z) - 1] { ensure!(v.lba2zone(x) == Some(z as u32), "an LBA is in the wrong zone", "{x}: {:?} instead of {z}", v.lba2zone(x)); }
        }
        for x in 0..10 { ensure!(v.lba2zone(x).is_none(), "an LBA is in the wrong zone", "{x} is reserved"); }
        Ok(())
    }
    /// What is on the disk, whoever wrote it
    fn contents(&mut self) -> R<()> {
        self.watch()?;
        let f = std::fs::File::open(&self.path).unwrap(); let mut b = vec![0; L as usize];
        for (x, h) in &self.disk { if let Some(h) = h { f.read_exact_at(&mut b, x * L).unwrap(); ensure!(mon::hash(&b[..]) == *h, "the disk holds something else than what was written", "LBA {x}"); } }
        for q in &self.reqs { ensure!(q.gone || q.settled, "a request never finishes", "{}", q.txt); }
        Ok(())
    }
    async fn remove(&mut self) -> R<()> {
        // so that there is something to cancel
        for _ in 0..self.r.usize(60) { match self.r.below(5) { 0 | 1 => self.write()?, 2 | 3 => self.read(4)?, _ => self.sync()? } }
        for _ in 0..self.r.usize(4) { tokio::task::yield_now().await; }
        self.results()?;
        self.note("removal", format!("{} requests under way", self.tasks.len()));
        let f = self.vb.take().unwrap().remove();
        if finishes(f).await.is_none() { fail!("a request never finishes", "removal"); }
        let at = seq();
        self.watch()?;
        ensure!(self.inflight == 0, "a disk is removed while it still works", "{} operations under way", self.inflight);
        self.wait(0).await?;
        for _ in 0..50 { tokio::task::yield_now().await; }
        self.watch()?;
        if let Some(o) = self.ops.values().find(|o| o.submit > at) { fail!("a removed disk is told something", "{:?} of LBAs {}..{}", o.kind, o.off / L, (o.off + o.len) / L); }
        Ok(())
    }
}
async fn one(s: Setup, seed: u64, stage: Stage, out: Arc<Mutex<(BTreeMap<&'static str, u64>, BTreeSet<u64>)>>) -> R<()> {
    let mut m = M::new(s, seed, stage);
    let r = run1(&mut m).await;
    *out.lock().unwrap() = (std::mem::take(&mut m.n), std::mem::take(&mut m.distinct));
    r
}
async fn run1(m: &mut M) -> R<()> {
    m.limits()?;
    let mix = m.r.below(3);
    for i in 0..m.s.steps {
        if m.s.burst && i % 60 == 30 {
            let z = m.r.below(m.wp.len() as u64); for _ in 0..2000 { m.write_to(z)?; }
            if m.r.chance(1, 2) { m.wait(0).await?; let mut a = 10; while m.disk.get(&a).is_some_and(|x| x.is_some()) { if !m.open.contains_key(&(K::Read, a * L)) { m.read_this(a, 1)?; } a += 1; } }
        }
        let k = if mix == 0 { 1 } else { 1 + m.r.usize(6) };
        for _ in 0..k {
            match m.r.below(100) {
                0..=39 => m.write()?,
                40..=74 => m.read(6)?,
                75..=83 => m.sync()?,
                84..=88 => m.zone().await?,
                89..=91 => m.label()?,
                92..=96 => m.spacemap()?,
                97 => m.wait(0).await?,
                _ => m.read(40)?,
            }
        }
        m.some().await?;
    }
    if m.r.chance(1, 2) { m.remove().await?; }
    m.wait(0).await?;
    for _ in 0..200 { tokio::task::yield_now().await; }
    m.contents()
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "exploration", "one evaluation = one disk with a random history of concurrent requests; distinct = distinct (kind of operation, requests merged into it, operations under way, given-up requests in it, refusals, failures)");
    let cases = ck.n(100_000, 2_000_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x5c4e, case);
        let s = Setup::random(&r); let seed = r.next();
        let stage = Arc::new(Mutex::new((VecDeque::new(), "setup"))); let s2 = stage.clone(); let s3 = s.clone();
        let out = Arc::new(Mutex::new(Default::default())); let o2 = out.clone();
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(one(s3, seed, s2, o2)));
        let (n, d): (BTreeMap<&'static str, u64>, BTreeSet<u64>) = std::mem::take(&mut out.lock().unwrap());
        ck.eval(); for (k, v) in n { ck.count(k, v); } for x in d { ck.distinct(x); }
        let (log, area) = stage.lock().unwrap().clone();
        let setup = format!("{s:?}");
        let p = mon::ALL_PANICS.lock().unwrap().get(before..).and_then(|x| x.iter().find(|p| crate::in_repo(p)).cloned());
        match res {
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, area, &p, case, &log, &setup); }
            _ if p.is_some() => { let p = p.unwrap(); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, area, &p, case, &log, &setup); }
            Ok(Ok(())) => if ck.wants_sample() { ck.sample(json!({"case": case, "disk": setup, "last operations": log.iter().rev().take(5).collect::<Vec<_>>()})); },
            Ok(Err(b)) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}"); } ck.violation(&b.0, &json!({"case": case, "what": b.1, "history": log.iter().collect::<Vec<_>>(), "setup": setup})); }
        }
    }
    ck.assume("a zone is written in order and only read where a write has completed; one zone's erasure does not overlap with its use; a label or spacemap is not written twice at once, as Cluster and Pool do");
    cleanup();
    ck.finish()
}
