//! The B+Tree by itself, over a recording store: one client against a map, many clients against a per-key linearizability checker.
use crate::env::{cleanup, rt, STUCK};
use bfffs_core::{cache::{Cache, CacheRef, Cacheable, Key as CKey}, dml::{Compression, DML}, tree::{Key, MinValue, Tree, Value}, types::{RID, TxgT, TypicalSize}, writeback::{Credit, WriteBack}};
use divbuf::{DivBuf, DivBufShared};
use futures::{Future, FutureExt, StreamExt, TryStreamExt};
use mon::{mix, Check, Rng};
use serde::{Deserialize, Serialize};
use serde_json::json;
use speedy::{Readable, Writable};
use std::{any::Any, collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque}, ops::Bound::{self, *}, pin::Pin, sync::{Arc, Mutex, atomic::{AtomicBool, AtomicU64, Ordering::SeqCst}}, time::Duration};
use tokio::sync::RwLock;

type Bad = (String, String);
type R<T> = std::result::Result<T, Bad>;
type P<T> = Pin<Box<dyn Future<Output = bfffs_core::Result<T>> + Send>>;
macro_rules! fail { ($k:expr, $($t:tt)*) => { return Err(($k.to_string(), format!($($t)*))) } }
macro_rules! ensure { ($c:expr, $k:expr, $($t:tt)*) => { if !$c { fail!($k, $($t)*); } } }

// ---------------------------------------------------------------- addresses, keys, values
#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd, Hash, Serialize, Deserialize, Readable, Writable)]
pub struct TA(u64);
impl TypicalSize for TA { const TYPICAL_SIZE: usize = 8; }
macro_rules! key { ($n:ident, $c:expr) => {
    #[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd, Serialize, Deserialize, Readable, Writable)]
    pub struct $n(u32);
    impl TypicalSize for $n { const TYPICAL_SIZE: usize = 100; }
    impl MinValue for $n { fn min_value() -> Self { $n(0) } }
    impl Key for $n { const USES_CREDIT: bool = $c; }
    impl MK for $n { fn mk(x: u32) -> Self { $n(x) } fn n(&self) -> u32 { self.0 } }
} }
pub trait MK: Key { fn mk(x: u32) -> Self; fn n(&self) -> u32; }
key!(KC, true);
key!(KF, false);
pub trait MV: Value { fn mk(id: u64, len: u32) -> Self; fn id(&self) -> u64; fn blob(&self) -> Option<(u64, u32)> { None } fn whole(&self) -> bool { true } }
/// A small value, that is stored in its node
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Readable, Writable)]
pub struct VS(u64);
impl TypicalSize for VS { const TYPICAL_SIZE: usize = 100; }
impl Value for VS {}
impl MV for VS { fn mk(id: u64, _: u32) -> Self { VS(id) } fn id(&self) -> u64 { self.0 } }
/// A value that may be large, and is then stored by itself
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Readable, Writable)]
pub struct VB { id: u64, len: u32, addr: u64, data: Vec<u8> }
impl TypicalSize for VB { const TYPICAL_SIZE: usize = 100; }
impl MV for VB {
    fn mk(id: u64, len: u32) -> Self { VB { id, len, addr: 0, data: content(id, len) } }
    fn id(&self) -> u64 { self.id }
    fn blob(&self) -> Option<(u64, u32)> { (self.addr != 0).then_some((self.addr, self.len)) }
    fn whole(&self) -> bool { self.addr != 0 && self.data.is_empty() || self.addr == 0 && self.data == content(self.id, self.len) }
}
fn content(id: u64, len: u32) -> Vec<u8> { Rng::new(id).bytes(len as usize) }
const MAXLEN: u32 = 300;
fn cast<A: Copy + 'static, B: Copy + 'static>(a: A) -> B { *(&a as &dyn Any).downcast_ref().unwrap() }
impl Value for VB {
    const NEEDS_FLUSH: bool = true;
    const MAX_ALLOCATED_SPACE: usize = MAXLEN as usize + 64;
    fn allocated_space(&self) -> usize { if self.data.is_empty() { 0 } else { self.data.len() + 64 } }
    fn ddrop<D>(&self, dml: &D, txg: TxgT) -> P<()> where D: DML + 'static, D::Addr: 'static {
        if self.addr == 0 { return futures::future::ok(()).boxed() }
        dml.delete(&cast(TA(self.addr)), txg)
    }
    fn dpop<D>(self, dml: &D, txg: TxgT) -> P<Self> where D: DML + 'static, D::Addr: 'static {
        if self.addr == 0 { return futures::future::ok(self).boxed() }
        let f = dml.pop::<DivBufShared, DivBuf>(&cast(TA(self.addr)), txg);
        async move { let d = f.await?; Ok(VB { id: self.id, len: self.len, addr: 0, data: d.try_const().unwrap()[..].to_vec() }) }.boxed()
    }
    fn flush_bt<D, K: Key>(bt: BTreeMap<K, Self>, dml: &D, txg: TxgT) -> P<BTreeMap<K, Self>> where D: DML + 'static, D::Addr: 'static {
        let fs = futures::stream::FuturesUnordered::new(); let mut out = BTreeMap::new();
        for (k, v) in bt {
            if !v.needs_flush() { out.insert(k, v); continue; }
            let f = dml.put(DivBufShared::from(v.data.clone()), Compression::None, txg);
            fs.push(async move { let a: TA = cast(f.await?); Ok((k, VB { addr: a.0, data: vec![], ..v })) });
        }
        fs.try_fold(out, |mut out, (k, v)| { out.insert(k, v); futures::future::ok(out) }).boxed()
    }
    fn needs_flush(&self) -> bool { self.data.len() > 100 }
}

// ---------------------------------------------------------------- the store
struct Rec { z: Vec<u8>, lsize: u32, c: Compression, txg: TxgT, blob: bool }
struct St { live: HashMap<u64, Rec>, cache: Cache, dead: HashSet<u64>, bad: Vec<Bad>, puts: u64, gets: u64, pops: u64, deletes: u64, hits: u64 }
struct In { st: Mutex<St>, wb: WriteBack, next: AtomicU64, rnd: AtomicU64, delay: u64, now: AtomicU64 }
#[derive(Clone)]
pub struct Mem(Arc<In>);
impl In {
    fn r(&self) -> u64 { mix(self.rnd.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst)) }
    async fn pause(&self) { let x = self.r(); if x % 4 < 2 { for _ in 0..(x >> 8) % (self.delay + 1) { tokio::task::yield_now().await; } } }
    fn bad(&self, k: &str, t: String) { self.st.lock().unwrap().bad.push((k.into(), t)); }
    fn txg(&self, what: &str, txg: TxgT) { if self.now.load(SeqCst) != txg.0 as u64 { self.bad("the tree works in another transaction than the one it was told", format!("{what} in {txg:?}, not {}", self.now.load(SeqCst))); } }
    fn bytes(s: &St, a: u64) -> Option<DivBufShared> {
        let r = s.live.get(&a)?;
        Some(if r.c == Compression::None { DivBufShared::from(r.z.clone()) } else { Compression::decompress(&r.z, r.lsize).unwrap() })
    }
}
fn key(a: u64) -> CKey { CKey::Rid(RID(a)) }
fn gone<T>() -> bfffs_core::Result<T> { Err(bfffs_core::Error::EINTEGRITY) }
impl DML for Mem {
    type Addr = TA;
    fn delete(&self, a: &TA, txg: TxgT) -> P<()> {
        let (i, a) = (self.0.clone(), a.0);
        async move {
            i.txg("delete", txg); i.pause().await;
            let ok = { let mut s = i.st.lock().unwrap(); s.deletes += 1; s.cache.remove(&key(a)); s.dead.insert(a); s.live.remove(&a).is_some() };
            if !ok { i.bad("the tree frees what isn't its own", format!("deletes {a}, which is free")); return gone(); }
            i.pause().await; Ok(())
        }.boxed()
    }
    fn evict(&self, a: &TA) { self.0.st.lock().unwrap().cache.remove(&key(a.0)); }
    fn get<T: Cacheable, C: CacheRef>(&self, a: &TA) -> P<Box<C>> {
        let (i, a) = (self.0.clone(), a.0);
        async move {
            i.pause().await;
            let r = {
                let mut s = i.st.lock().unwrap(); s.gets += 1;
                if let Some(c) = s.cache.get::<C>(&key(a)) { s.hits += 1; Some(c) } else {
                    // as many reads of it as there are, it is only once in memory
                    In::bytes(&s, a).map(|d| { let c = C::deserialize(d); let r = c.make_ref(); s.cache.insert(key(a), c); r.downcast::<C>().unwrap() })
                }
            };
            let Some(r) = r else { i.bad("the tree reads what it freed", format!("{a}")); return gone() };
            i.pause().await;
            Ok(r)
        }.boxed()
    }
    fn pop<T: Cacheable, C: CacheRef>(&self, a: &TA, txg: TxgT) -> P<Box<T>> {
        let (i, a) = (self.0.clone(), a.0);
        async move {
            i.txg("pop", txg); i.pause().await;
            let r = {
                let mut s = i.st.lock().unwrap(); s.pops += 1;
                let c = s.cache.remove(&key(a)); let d = In::bytes(&s, a); s.live.remove(&a); s.dead.insert(a);
                d.map(|d| c.map(|c| c.downcast::<T>().unwrap()).unwrap_or_else(|| Box::new(T::deserialize(d))))
            };
            let Some(r) = r else { i.bad("the tree frees what isn't its own", format!("pops {a}, which is free")); return gone() };
            i.pause().await;
            Ok(r)
        }.boxed()
    }
    fn put<T: Cacheable>(&self, c: T, comp: Compression, txg: TxgT) -> P<TA> {
        let i = self.0.clone();
        async move {
            i.txg("put", txg);
            let d = c.make_ref().serialize(); let (lsize, blob) = (d.len() as u32, (&c as &dyn Any).is::<DivBufShared>());
            let (z, comp) = comp.compress(d);
            i.pause().await;
            let a = i.next.fetch_add(1, SeqCst);
            { let mut s = i.st.lock().unwrap(); s.puts += 1; s.live.insert(a, Rec { z: z[..].to_vec(), lsize, c: comp, txg, blob }); s.cache.insert(key(a), Box::new(c)); }
            i.pause().await;
            Ok(TA(a))
        }.boxed()
    }
    fn repay(&self, credit: Credit) { self.0.wb.repay(credit) }
    fn sync_all(&self, _: TxgT) -> P<()> { futures::future::ok(()).boxed() }
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Debug)]
enum Op { Insert(u32, u64, u32), Remove(u32), Get(u32), Range(Bound<u32>, Bound<u32>), Delete(Bound<u32>, Bound<u32>), Last, Flush, Sync, Evict }
#[derive(Clone, Debug)]
enum Res { One(Option<u64>), Many(Vec<(u32, u64)>), Done }
struct Done { task: usize, call: u64, ret: u64, op: Op, res: Res }
fn within(k: u32, b: &(Bound<u32>, Bound<u32>)) -> bool { std::ops::RangeBounds::contains(b, &k) }
#[derive(Clone, Copy)]
enum KOp { W(Option<u64>, Option<Option<u64>>), R(Option<u64>) }
/// Is there an order of these operations on one key, in which each takes effect between its call and its return, that explains their results?
fn explain(ops: &[(usize, u64, u64, KOp)], end: Option<u64>) -> std::result::Result<usize, u64> {
    let mut ev: Vec<(u64, usize, bool)> = ops.iter().enumerate().flat_map(|(i, o)| [(o.1, i, true), (o.2, i, false)]).collect();
    ev.sort();
    let mut pending: [Option<KOp>; 16] = [None; 16];
    let mut confs: HashSet<(Option<u64>, u16)> = [(None, 0)].into(); let mut most = 1;
    for (seq, i, call) in ev {
        let (slot, _, _, op) = ops[i];
        if call { pending[slot] = Some(op); continue; }
        let mut todo: Vec<(Option<u64>, u16)> = confs.drain().collect(); let mut seen: HashSet<_> = todo.iter().copied().collect();
        while let Some((v, m)) = todo.pop() {
            if m >> slot & 1 == 1 { confs.insert((v, m & !(1 << slot))); continue; }
            for (s, p) in pending.iter().enumerate() {
                let Some(p) = p else { continue };
                if m >> s & 1 == 1 { continue; }
                let n = match *p { KOp::R(x) => if x == v { v } else { continue }, KOp::W(n, old) => if old.is_none_or(|o| o == v) { n } else { continue } };
                if seen.insert((n, m | 1 << s)) { todo.push((n, m | 1 << s)); }
            }
        }
        pending[slot] = None; most = most.max(confs.len());
        if confs.is_empty() { return Err(seq); }
    }
    if confs.iter().any(|c| c.0 == end) { Ok(most) } else { Err(u64::MAX) }
}

#[derive(Clone, Debug)]
pub struct Setup { keys: u32, tasks: usize, ops: usize, seq: bool, leaf: usize, int: usize, delay: u64, cache: usize, credit: u64, large: bool, free: bool, threads: bool, mix: [u64; 9] }
impl Setup {
    fn random(r: &Rng, case: u64) -> Setup {
        let tasks = *r.pick(&[1usize, 1, 1, 2, 3, 4, 6, 10]); let threads = tasks > 1 && case % 16 == 15 && std::env::var_os("MON_THREADS").is_some();
        let many = r.chance(1, 4);
        Setup { keys: if tasks == 1 { *r.pick(&[12u32, 60, 300, 1500]) } else { *r.pick(&[6u32, 20, 60, 200]) }, tasks, ops: if tasks == 1 { 60 + r.usize(if many { 2000 } else { 400 }) } else { 10 + r.usize(if many { 120 } else { 40 }) }, seq: r.chance(1, 3), leaf: *r.pick(&[8usize, 8, 10, 12, 16, 30]), int: *r.pick(&[8usize, 8, 8, 10, 12, 20]), delay: *r.pick(&[0u64, 1, 3, 10]), cache: *r.pick(&[24usize << 10, 30 << 10, 60 << 10, 200 << 10, 10 << 20]), credit: r.below(4), large: r.chance(1, 2), free: r.chance(1, 4), threads,
            mix: match r.below(5) { 0 => [60, 10, 10, 8, 2, 1, 6, 1, 3], 1 => [20, 50, 8, 8, 2, 1, 6, 1, 3], 2 => [30, 10, 10, 10, 20, 2, 10, 2, 3], 3 => [10, 10, 40, 30, 2, 3, 6, 2, 5], _ => [35, 30, 10, 10, 5, 2, 4, 1, 3] } }
    }
    fn ratio(&self, fan: usize, elem: usize) -> f32 { let raw = if self.seq { (fan * elem * 3).div_ceil(4) } else { fan / 2 * elem }; (raw + 12) as f32 / 4096.0 + 0.0005 }
}
type Log = Arc<Mutex<(VecDeque<String>, BTreeMap<String, u64>, BTreeSet<u64>)>>;
struct W<K: MK, V: MV> { s: Setup, dml: Arc<Mem>, tree: Arc<Tree<TA, Mem, K, V>>, txg: RwLock<u32>, seq: AtomicU64, done: Mutex<Vec<Done>>, log: Log, stop: AtomicBool, begun: AtomicU64, busy: AtomicU64, flushing: AtomicBool }
fn bounds(r: &Rng, n: u32) -> (Bound<u32>, Bound<u32>) {
    let (a, b) = (r.below(n as u64 + 2) as u32, r.below(n as u64 + 2) as u32);
    let (a, b) = if r.chance(1, 3) { (a, a.saturating_add(r.below(4) as u32)) } else { (a.min(b), a.max(b)) };
    let l = match r.below(5) { 0 => Unbounded, 1 if a < b => Excluded(a), _ => Included(a) };
    let h = match r.below(5) { 0 => Unbounded, 1 => Included(b), _ => Excluded(b) };
    (l, h)
}
fn mapb<K: MK>(b: Bound<u32>) -> Bound<K> { b.map(K::mk) }
impl<K: MK, V: MV> W<K, V> {
    fn note(&self, t: String) { let mut l = self.log.lock().unwrap(); if l.0.len() > 80 { l.0.pop_front(); } l.0.push_back(t); }
    fn count(&self, k: &str) { *self.log.lock().unwrap().1.entry(k.into()).or_default() += 1; }
    fn gen(&self, r: &Rng, task: usize, n: u64) -> Op {
        let k = r.below(self.s.keys as u64) as u32;
        let mut x = r.below(self.s.mix.iter().sum());
        let i = self.s.mix.iter().position(|m| if x < *m { true } else { x -= m; false }).unwrap();
        match i {
            0 => Op::Insert(k, (task as u64 + 1) << 32 | n, if r.chance(1, 2) { r.below(100) as u32 } else { r.range(100, MAXLEN as u64) as u32 }),
            1 => Op::Remove(k), 2 => Op::Get(k),
            3 => { let (a, b) = bounds(r, self.s.keys); Op::Range(a, b) }
            4 => { let (a, b) = bounds(r, self.s.keys); if r.chance(1, 20) { Op::Delete(Included(k + 1), Excluded(k)) } else { Op::Delete(a, b) } }
            5 => Op::Last, 6 => Op::Flush, 7 => Op::Sync, _ => Op::Evict,
        }
    }
    async fn credit(&self, n: usize) -> Credit { if K::USES_CREDIT { self.dml.0.wb.borrow(n).await } else { Credit::null() } }
    async fn all(&self, tree: &Arc<Tree<TA, Mem, K, V>>, b: (Bound<u32>, Bound<u32>)) -> R<Vec<(u32, V)>> {
        let v: Vec<(K, V)> = tree.range::<_, K>((mapb::<K>(b.0), mapb::<K>(b.1))).try_collect().await.map_err(|e| ("an operation fails".to_string(), format!("range {b:?} of {}: {e:?} {:?}", if Arc::ptr_eq(tree, &self.tree) { "the tree" } else { "the stored tree" }, self.dml.0.st.lock().unwrap().bad)))?;
        ensure!(v.windows(2).all(|w| w[0].0 < w[1].0), "a range is not returned in order, each key once", "{b:?}: {:?}", v.iter().map(|x| x.0.n()).collect::<Vec<_>>());
        for (k, v) in &v { ensure!(within(k.n(), &b), "a range is returned with keys outside of it", "{b:?}: {}", k.n()); ensure!(v.whole(), "a value changes", "{k:?} {v:?}"); }
        Ok(v.into_iter().map(|(k, v)| (k.n(), v)).collect())
    }
    async fn run(&self, op: &Op) -> R<Res> {
        let cr = self.tree.credit_requirements();
        let er = |e: bfffs_core::Error| ("an operation fails".to_string(), format!("{op:?}: {e:?}"));
        let one = |v: Option<V>| -> R<Res> { if let Some(v) = &v { ensure!(v.whole(), "a value changes", "{op:?}: {v:?}"); } Ok(Res::One(v.map(|v| v.id()))) };
        let t = || self.tree.clone();
        match *op {
            Op::Insert(k, id, len) => { let c = self.credit(cr.insert + len as usize).await; let g = self.txg.read().await; one(t().insert(K::mk(k), V::mk(id, len), TxgT(*g), c).await.map_err(er)?) }
            Op::Remove(k) => { let c = self.credit(cr.remove).await; let g = self.txg.read().await; one(t().remove(K::mk(k), TxgT(*g), c).await.map_err(er)?) }
            Op::Get(k) => one(self.tree.get(K::mk(k)).await.map_err(er)?),
            Op::Range(a, b) => Ok(Res::Many(self.all(&self.tree, (a, b)).await?.into_iter().map(|(k, v)| (k, v.id())).collect())),
            Op::Delete(a, b) => { let c = self.credit(cr.range_delete).await; let g = self.txg.read().await; t().range_delete((mapb::<K>(a), mapb::<K>(b)), TxgT(*g), c).await.map_err(er)?; Ok(Res::Done) }
            Op::Last => Ok(Res::One(self.tree.last_key().await.map_err(er)?.map(|k| k.n() as u64))),
            Op::Flush => { let g = self.txg.read().await; self.flushing.store(true, SeqCst); let r = t().flush(TxgT(*g)).await.map_err(er); self.flushing.store(false, SeqCst); r?; Ok(Res::Done) }
            Op::Sync => { self.sync(false).await?; Ok(Res::Done) }
            Op::Evict => { self.dml.0.st.lock().unwrap().cache.drop_cache(); Ok(Res::Done) }
        }
    }
    /// Flush all, while nobody writes, and see that what is stored is the whole of it
    async fn sync(&self, last: bool) -> R<Vec<(u32, u64)>> {
        let er = |e: bfffs_core::Error| ("an operation fails".to_string(), format!("sync: {e:?}"));
        let mut g = self.txg.write().await;
        self.tree.clone().flush(TxgT(*g)).await.map_err(er)?;
        let dirty = self.tree.is_dirty();
        // readers may hold the root for a moment
        if dirty { for _ in 0..200 { tokio::task::yield_now().await; } }
        ensure!(!last || !self.tree.is_dirty(), "the tree is still dirty after it was flushed", "{}", *g);
        ensure!(self.tree.clone().check().await.map_err(er)?, "the tree isn't sound", "its own check says so");
        let mine: Vec<(u32, V)> = self.all(&self.tree, (Unbounded, Unbounded)).await?;
        let ids: Vec<(u32, u64)> = mine.iter().map(|(k, v)| (*k, v.id())).collect();
        let od = loop { match self.tree.serialize() { Ok(x) => break x, Err(_) => tokio::task::yield_now().await } };
        let again = Arc::new(Tree::<TA, Mem, K, V>::open(self.dml.clone(), self.s.seq, od));
        let copy: Vec<(u32, u64)> = self.all(&again, (Unbounded, Unbounded)).await?.into_iter().map(|(k, v)| (k, v.id())).collect();
        ensure!(copy == ids, "the stored tree holds something else than the tree does", "{}", diff(&ids, &copy));
        // what is stored is what the tree uses
        let used: BTreeSet<u64> = again.addresses::<_, TxgT>(..).map(|a| a.0).collect().await;
        let blobs: BTreeMap<u64, (u64, u32)> = mine.iter().filter_map(|(_, v)| v.blob().map(|(a, l)| (a, (v.id(), l)))).collect();
        let (lo, hi) = (self.dml.0.r() % (*g as u64 + 2), self.dml.0.r() % (*g as u64 + 2)); let (lo, hi) = (TxgT(lo.min(hi) as u32), TxgT(lo.max(hi) as u32 + 1));
        let some: BTreeSet<u64> = again.addresses::<_, TxgT>(lo..hi).map(|a| a.0).collect().await;
        {
            let s = self.dml.0.st.lock().unwrap();
            if let Some(b) = s.bad.first() { return Err(b.clone()); }
            for (a, r) in &s.live {
                if r.blob { ensure!(blobs.contains_key(a), "the tree leaks space", "the record {a} of {:?} belongs to no value", r.txg); ensure!(r.z == content(blobs[a].0, blobs[a].1), "a value changes", "{:?}", blobs[a]); }
                else {
                    ensure!(used.contains(a), "the tree leaks space", "the node {a} of {:?} is no part of the tree", r.txg);
                    ensure!(!(lo..hi).contains(&r.txg) || some.contains(a), "the addresses of some transactions lack one", "{a} of {:?} in {lo:?}..{hi:?}", r.txg);
                }
            }
            for a in &used { ensure!(s.live.contains_key(a), "the tree holds on to what it freed", "the node {a}"); }
            for a in blobs.keys() { ensure!(s.live.contains_key(a), "the tree holds on to what it freed", "the record {a} of {:?}", blobs[a]); }
        }
        ensure!(some.is_subset(&used), "the addresses of some transactions aren't all of the tree", "{lo:?}..{hi:?}");
        if self.dml.0.r() % 3 > 0 || last { *g += 1; self.dml.0.now.store(*g as u64, SeqCst); }
        self.count("syncs, with all of the tree and its storage compared");
        Ok(ids)
    }
    async fn worker(self: Arc<Self>, task: usize, seed: u64) -> R<()> {
        let r = Rng::new(seed);
        let mut model: BTreeMap<u32, u64> = BTreeMap::new();
        // a bulk load, in some order, first
        let bulk = if self.s.tasks == 1 && r.chance(1, 2) { r.below(self.s.keys as u64 + 1) as u32 } else { 0 }; let order = r.below(3);
        for n in 0..self.s.ops as u64 + bulk as u64 {
            let op = if n < bulk as u64 { let k = match order { 0 => n as u32, 1 => bulk - 1 - n as u32, _ => r.below(self.s.keys as u64) as u32 }; Op::Insert(k, (task as u64 + 1) << 32 | n, r.below(MAXLEN as u64) as u32) } else { self.gen(&r, task, n) };
            let call = self.seq.fetch_add(1, SeqCst); self.begun.fetch_add(1, SeqCst);
            self.note(format!("{task}: {op:?}")); self.busy.fetch_add(1, SeqCst);
            let res = self.run(&op).await?;
            if self.s.tasks == 1 && matches!(op, Op::Delete(..)) && (n % 4 == 0 || std::env::var("MON_P").is_ok()) { ensure!(self.tree.clone().check().await.is_ok_and(|x| x), "the tree isn't sound", "its own check says so after {op:?}"); self.count("checks after range deletions"); }
            let ret = self.seq.fetch_add(1, SeqCst); let busy = self.busy.fetch_sub(1, SeqCst);
            let (what, txt) = match &op { Op::Insert(..) => (0, "insertions"), Op::Remove(_) => (1, "removals"), Op::Get(_) => (2, "lookups"), Op::Range(..) => (3, "range reads"), Op::Delete(..) => (4, "range deletions"), Op::Last => (5, "last keys"), Op::Flush => (6, "flushes"), Op::Sync => (7, "syncs"), Op::Evict => (8, "evictions") };
            let (nodes, bad) = { let s = self.dml.0.st.lock().unwrap(); (s.live.values().filter(|r| !r.blob).count(), s.bad.first().cloned()) };
            if let Some(b) = bad { return Err(b); }
            { let mut l = self.log.lock().unwrap(); *l.1.entry(txt.into()).or_default() += 1; if busy > 1 { *l.1.entry("operations that overlapped with others".into()).or_default() += 1; } l.2.insert(mon::hash(&(what, nodes.ilog2_or(), busy, self.flushing.load(SeqCst), self.s.seq, self.s.leaf, self.s.int, self.s.free, self.s.large, match &res { Res::One(x) => x.is_some() as usize, Res::Many(v) => 2 + v.len().ilog2_or(), _ => 0 }))); }
            if self.s.tasks > 1 { self.done.lock().unwrap().push(Done { task, call, ret, op, res }); continue; }
            // one client: exactly a map
            match (&op, &res) {
                (Op::Insert(k, id, _), Res::One(x)) => { let o = model.insert(*k, *id); ensure!(o == *x, "an insertion returns another value than the one it replaced", "{op:?}: {x:?}, not {o:?}"); }
                (Op::Remove(k), Res::One(x)) => { let o = model.remove(k); ensure!(o == *x, "a removal returns another value than the one it removed", "{op:?}: {x:?}, not {o:?}"); }
                (Op::Get(k), Res::One(x)) => ensure!(model.get(k) == x.as_ref(), "a lookup finds another value than the last one", "{op:?}: {x:?}, not {:?}", model.get(k)),
                (Op::Last, Res::One(x)) => ensure!(model.keys().next_back().map(|k| *k as u64) == *x, "the last key is another", "{x:?}, not {:?}", model.keys().next_back()),
                (Op::Range(a, b), Res::Many(v)) => { let w: Vec<(u32, u64)> = model.iter().filter(|(k, _)| within(**k, &(*a, *b))).map(|(k, v)| (*k, *v)).collect(); ensure!(*v == w, "a range isn't what is in it", "{op:?}: {}", diff(&w, v)); }
                (Op::Delete(a, b), _) => { let empty = matches!((a, b), (Included(x), Excluded(y)) if x >= y); if !empty { model.retain(|k, _| !within(*k, &(*a, *b))); } }
                _ => {}
            }
        }
        if self.s.tasks == 1 { let v = self.sync(true).await?; let w: Vec<(u32, u64)> = model.into_iter().collect(); ensure!(v == w, "the tree isn't what was put into it", "{}", diff(&w, &v)); }
        Ok(())
    }
    async fn flusher(self: Arc<Self>, seed: u64) -> R<()> {
        let r = Rng::new(seed); let mut seen = 0;
        while !self.stop.load(SeqCst) {
            for _ in 0..r.below(200) { tokio::task::yield_now().await; }
            self.run(&Op::Flush).await?;
            let b = self.begun.load(SeqCst);
            if b == seen { tokio::time::sleep(Duration::from_millis(if self.s.threads { 1 } else { 100 })).await; } seen = b;
        }
        Ok(())
    }
    fn judge(&self, end: &[(u32, u64)]) -> R<()> {
        let end: BTreeMap<u32, u64> = end.iter().copied().collect();
        let d = self.done.lock().unwrap();
        for k in 0..self.s.keys + 2 {
            let mut ops = vec![];
            for x in d.iter() {
                let o = match (&x.op, &x.res) {
                    (Op::Insert(q, id, _), Res::One(old)) if *q == k => KOp::W(Some(*id), Some(*old)),
                    (Op::Remove(q), Res::One(old)) if *q == k => KOp::W(None, Some(*old)),
                    (Op::Get(q), Res::One(v)) if *q == k => KOp::R(*v),
                    (Op::Range(a, b), Res::Many(v)) if within(k, &(*a, *b)) => KOp::R(v.binary_search_by_key(&k, |x| x.0).ok().map(|i| v[i].1)),
                    (Op::Delete(a, b), _) if within(k, &(*a, *b)) => KOp::W(None, None),
                    _ => continue,
                };
                ops.push((x.task, x.call, x.ret, o));
            }
            let e = end.get(&k).copied();
            match explain(&ops, e) {
                Ok(n) => { let mut l = self.log.lock().unwrap(); *l.1.entry("histories of one key explained".into()).or_default() += 1; if n > 1 { *l.1.entry("of them with more than one possible order".into()).or_default() += 1; } }
                Err(at) => {
                    let near: Vec<String> = d.iter().filter(|x| ops.iter().any(|o| o.1 == x.call) && x.ret + 60 > at.min(x.ret + 1)).map(|x| { let r = match (&x.op, &x.res) { (Op::Range(..), Res::Many(v)) => format!("{:?} there", v.iter().find(|y| y.0 == k).map(|y| y.1)), (_, r) => format!("{r:?}") }; format!("[{}..{}] {}: {:?} = {r}", x.call, x.ret, x.task, x.op) }).rev().take(30).collect();
                    fail!("concurrent operations don't add up to any order of them", "key {k}: no order explains what returned at {at}; in the end it holds {e:?}: {near:?}");
                }
            }
        }
        Ok(())
    }
}
trait Log2 { fn ilog2_or(self) -> usize; }
impl Log2 for usize { fn ilog2_or(self) -> usize { self.checked_ilog2().map(|x| x as usize + 1).unwrap_or(0) } }
fn diff(want: &[(u32, u64)], got: &[(u32, u64)]) -> String {
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (want.iter().collect(), got.iter().collect());
    format!("{} entries, not {}; missing {:?}, too many {:?}", got.len(), want.len(), a.difference(&b).take(8).collect::<Vec<_>>(), b.difference(&a).take(8).collect::<Vec<_>>())
}
async fn one<K: MK, V: MV>(s: Setup, seed: u64, log: Log) -> R<()> {
    let (lr, ir) = (s.ratio(s.leaf, K::TYPICAL_SIZE + V::TYPICAL_SIZE), s.ratio(s.int, K::TYPICAL_SIZE + 16));
    let st = |n| Mutex::new(St { live: HashMap::new(), cache: Cache::with_capacity(n), dead: HashSet::new(), bad: vec![], puts: 0, gets: 0, pops: 0, deletes: 0, hits: 0 });
    let probe = Mem(Arc::new(In { st: st(1 << 20), wb: WriteBack::limitless(), next: AtomicU64::new(1), rnd: AtomicU64::new(seed), delay: 0, now: AtomicU64::new(0) }));
    let cr = Tree::<TA, Mem, K, V>::create(Arc::new(probe), s.seq, lr, ir).credit_requirements();
    let cap = cr.range_delete.max(cr.insert + MAXLEN as usize).max(cr.remove) * [1, 2, 4, 40][s.credit as usize];
    let dml = Arc::new(Mem(Arc::new(In { st: st(s.cache), wb: WriteBack::with_capacity(cap), next: AtomicU64::new(1), rnd: AtomicU64::new(seed), delay: s.delay, now: AtomicU64::new(1) })));
    let tree = Arc::new(Tree::create(dml.clone(), s.seq, lr, ir));
    let n = s.tasks;
    let w = Arc::new(W::<K, V> { s, dml, tree, txg: RwLock::new(1), seq: AtomicU64::new(0), done: Mutex::default(), log, stop: AtomicBool::new(false), begun: AtomicU64::new(0), busy: AtomicU64::new(0), flushing: AtomicBool::new(false) });
    let mut ts: futures::stream::FuturesUnordered<_> = (0..n).map(|i| tokio::spawn(w.clone().worker(i, mix(seed ^ i as u64)))).collect();
    let fl = tokio::spawn(w.clone().flusher(seed ^ 0xf1));
    let limit = if w.s.threads { Duration::from_secs(100) } else { STUCK };
    while let Some(x) = match tokio::time::timeout(limit, ts.next()).await { Ok(x) => x, Err(_) => fail!("operations never finish", "{} of them, with {} records", w.busy.load(SeqCst), w.dml.0.st.lock().unwrap().live.len()) } {
        match x { Ok(r) => r?, Err(e) => fail!("a task ends", "{e:?}") }
    }
    w.stop.store(true, SeqCst);
    match fl.await { Ok(r) => r?, Err(e) => fail!("a task ends", "{e:?}") }
    if n > 1 { let end = w.sync(true).await?; w.judge(&end)?; }
    // all credit is back
    if K::USES_CREDIT { match w.dml.0.wb.borrow(cap).now_or_never() { Some(c) => w.dml.0.wb.repay(c), None => fail!("writeback credit is lost", "not all {cap} of it is there, though nothing is dirty") } }
    { let s = w.dml.0.st.lock().unwrap(); let mut l = w.log.lock().unwrap(); for (k, v) in [("nodes and records written", s.puts), ("nodes read", s.gets), ("nodes read from the cache", s.hits), ("nodes and records taken back", s.pops), ("records deleted", s.deletes)] { *l.1.entry(k.into()).or_default() += v; } }
    // dropped dirty, it gives back its credit too
    if K::USES_CREDIT {
        for i in 0..3 { let Some(c) = w.dml.0.wb.borrow(cr.insert).now_or_never() else { break }; let g = w.txg.read().await; w.tree.clone().insert(K::mk(i), V::mk(1 << 60 | i as u64, 20), TxgT(*g), c).await.map_err(|e| ("an operation fails".to_string(), format!("{e:?}")))?; }
        let d = w.dml.clone();
        for _ in 0..10000 { if Arc::strong_count(&w) == 1 { break; } tokio::task::yield_now().await; }
        drop(w);
        match d.0.wb.borrow(cap).now_or_never() { Some(c) => d.0.wb.repay(c), None => fail!("writeback credit is lost", "not all {cap} of it is there, though the tree is gone") }
    }
    Ok(())
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "exploration", "one evaluation = one tree with a random history of one or several clients; distinct = distinct (operation, size of its result, size of the tree, operations under way, flush under way, kind of tree)");
    let cases = ck.n(100_000, 2_000_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x7e3e, case);
        let s = Setup::random(&r, case); let seed = r.next();
        let log: Log = Default::default(); let l2 = log.clone(); let s2 = s.clone();
        if std::env::var("MON_P").is_ok() { println!("{case} {s:?}"); }
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| {
            let rt = if s.threads { tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_time().build().unwrap() } else { rt() };
            rt.block_on(async move { match (s2.free, s2.large) { (false, false) => one::<KC, VS>(s2, seed, l2).await, (false, true) => one::<KC, VB>(s2, seed, l2).await, (true, false) => one::<KF, VS>(s2, seed, l2).await, (true, true) => one::<KF, VB>(s2, seed, l2).await } })
        });
        let (hist, n, d) = std::mem::take(&mut *log.lock().unwrap());
        ck.eval(); for (k, v) in n { ck.count(&k, v); } for x in d { ck.distinct(x); }
        if s.threads { ck.count("histories of several threads", 1); } else if s.tasks > 1 { ck.count("histories of several tasks", 1); }
        let setup = format!("{s:?}");
        let p = mon::ALL_PANICS.lock().unwrap().get(before..).and_then(|x| x.iter().find(|p| crate::in_repo(p)).cloned());
        let v = std::env::var("MON_V").is_ok();
        match res {
            Err(p) => { let p = crate::first_panic(before, p); if v { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, "tree", &p, case, &hist, &setup); }
            _ if p.is_some() => { let p = p.unwrap(); if v { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, "tree", &p, case, &hist, &setup); }
            Ok(Ok(())) => if ck.wants_sample() { ck.sample(json!({"case": case, "tree": setup, "last operations": hist.iter().rev().take(5).collect::<Vec<_>>()})); },
            Ok(Err(b)) => { if v { println!("{case} {b:?} {setup}"); } ck.violation(&b.0, &json!({"case": case, "what": b.1, "history": hist.iter().collect::<Vec<_>>(), "setup": setup})); }
        }
    }
    ck.assume("a range to read doesn't end before it begins; credit is borrowed as Database does; storage doesn't fail");
    cleanup();
    ck.finish()
}
