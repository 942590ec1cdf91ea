//! The block cache: bounded, least-recently-used, never wrong; and readers that share one fetch.
use crate::cache::{self, get_or_insert, Cache, CacheRef, Cacheable, Key};
use crate::types::{Error, Result, PBA, RID};
use divbuf::{DivBuf, DivBufShared};
use futures::{channel::oneshot, future::BoxFuture, FutureExt};
use mon::*;
use serde_json::json;
use std::{collections::HashMap, sync::{Arc, Mutex}};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { cap: usize, v: Vec<(usize, usize)> } // oldest first: (key, length)
impl Model {
    fn size(&self) -> usize { self.v.iter().map(|x| x.1).sum() }
    fn has(&self, k: usize) -> bool { self.v.iter().any(|x| x.0 == k) }
    fn evict(&mut self, need: usize) { while self.size() + need > self.cap { self.v.remove(0); } }
    fn touch(&mut self, k: usize) { if let Some(p) = self.v.iter().position(|x| x.0 == k) { let e = self.v.remove(p); self.v.push(e); } }
}
fn key(i: usize) -> Key { if i % 2 == 0 { Key::Rid(RID(i as u64 / 2)) } else { Key::PBA(PBA::new((i / 2 % 3) as u16, i as u64 / 2)) } }
fn content(k: usize, len: usize) -> Vec<u8> { (0..len).map(|j| (mix((k as u64) << 32 | j as u64) >> 7) as u8).collect() }

pub fn lru() {
    let mut c = Check::new("C08", "random", "distinct states of the reference model (contents in recency order) in which the cache was compared with it");
    c.assume("no single block larger than the cache; a key is always inserted with the same contents");
    let n = c.n(60_000, 1_500_000);
    let mut i = 0;
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, i); i += 1;
        // most caches hold a handful of blocks, so that every order is seen; some hold hundreds
        let big = i % 97 == 0;
        let cap = if big { *rng.pick(&[300usize, 1000, 5000]) } else { *rng.pick(&[20usize, 64, 100, 1000]) };
        let keys = if big { rng.range(60, 400) } else { rng.range(2, 14) } as usize;
        let lens: Vec<usize> = (0..keys).map(|_| if rng.chance(1, 12) { 0 } else { rng.range(1, (cap as u64 / if big { *rng.pick(&[60, 100, 250]) } else { *rng.pick(&[1, 2, 4, 8]) }).max(1)) as usize }).collect();
        let mut log: Vec<String> = vec![];
        let steps = if big { rng.range(200, 2000) } else { rng.range(5, 80) };
        let mut states = vec![];
        let r = guard(|| -> std::result::Result<(), (&'static str, String)> {
            let mut cache = Cache::with_capacity(cap);
            // a duplicate insertion may or may not refresh the block and make room first
            let mut ms = vec![Model { cap, v: vec![] }];
            let mut held: Vec<(usize, Box<DivBuf>)> = vec![];
            for step in 0..steps {
                let k = if big && rng.chance(1, 4) { let m = &ms[0]; let n = m.v.len(); if n == 0 { 0 } else { m.v[match rng.below(3) { 0 => n - 1, 1 => n.saturating_sub(1 + rng.usize(3)).min(n - 1), _ => rng.usize(3).min(n - 1) }].0 } } else { rng.usize(keys) };
                let kk = key(k);
                // in a big cache each duplicate insertion multiplies what is allowed afterwards
                if big && ms[0].has(k) && (ms.len() > 3 || rng.chance(29, 30)) { cache.get::<DivBuf>(&kk); log.push(format!("get {k}")); for m in &mut ms { m.touch(k); } continue; }
                match rng.below(16) {
                    0..=5 => {
                        log.push(format!("insert {k}"));
                        cache.insert(kk, Box::new(DivBufShared::from(content(k, lens[k]))));
                        let mut next = vec![];
                        for m in ms {
                            if m.has(k) {
                                next.push(m.clone());
                                let mut t = m.clone(); t.touch(k); next.push(t);
                                let mut e = m.clone(); e.evict(lens[k]); if !e.has(k) { e.evict(lens[k]); e.v.push((k, lens[k])); } next.push(e.clone());
                                e.touch(k); next.push(e);
                            } else { let mut e = m; e.evict(lens[k]); e.v.push((k, lens[k])); next.push(e); }
                        }
                        ms = next;
                    }
                    6..=10 => {
                        log.push(format!("get {k}"));
                        let g = cache.get::<DivBuf>(&kk);
                        ms.retain(|m| m.has(k) == g.is_some());
                        for m in &mut ms { m.touch(k); }
                        if let Some(g) = g { if g[..] != content(k, lens[k])[..] { return Err(("content", format!("block {k} has other contents"))); } if rng.chance(1, 4) { held.push((k, g)); } }
                    }
                    11 | 12 => {
                        log.push(format!("remove {k}"));
                        let g = cache.remove(&kk);
                        ms.retain(|m| m.has(k) == g.is_some());
                        for m in &mut ms { m.v.retain(|x| x.0 != k); }
                        if let Some(g) = g { let d = g.downcast::<DivBufShared>().map_err(|_| ("content", "another type came out".to_string()))?; if d.try_const().unwrap()[..] != content(k, lens[k])[..] { return Err(("content", format!("removed block {k} has other contents"))); } }
                    }
                    13 if rng.chance(1, 6) => { log.push("drop_cache".into()); cache.drop_cache(); for m in &mut ms { m.v.clear(); } }
                    14 => { held.clear(); }
                    _ => { log.push(format!("get_ref {k}")); let g = cache.get_ref(&kk); ms.retain(|m| m.has(k) == g.is_some()); if let Some(g) = g { let d = g.serialize(); if d[..] != content(k, lens[k])[..] { return Err(("content", format!("block {k} has other contents by get_ref"))); } } }
                }
                // Everything visible must fit some model
                let size = cache.size();
                if size > cap { return Err(("capacity", format!("{size} bytes cached in {cap}"))); }
                if big && step % 16 != 0 { continue; }
                if cache.capacity() != cap { return Err(("capacity", format!("capacity is {}", cache.capacity()))); }
                let present: Vec<bool> = (0..keys).map(|j| cache.get_ref(&key(j)).is_some()).collect();
                let all = ms.clone();
                ms.retain(|m| m.size() == size && (0..keys).all(|j| m.has(j) == present[j]));
                ms.sort_by_key(hash); ms.dedup();
                for (k, h) in &held { if h[..] != content(*k, lens[*k])[..] { return Err(("held", format!("a handle on block {k} changed while held"))); } }
                if ms.is_empty() { return Err(("model", format!("after {:?}: cached {:?} with size {size}; least-recently-used order allows only {:?}", log.last().unwrap(), (0..keys).filter(|j| present[*j]).collect::<Vec<_>>(), all.iter().map(|m| (m.v.iter().map(|x| x.0).collect::<Vec<_>>(), m.size())).collect::<Vec<_>>()))); }
                states.push(hash(&ms));
            }
            Ok(())
        });
        c.evals(log.len() as u64); for s in states { c.distinct(s); }
        for l in &log { c.count(l.split(' ').next().unwrap(), 1); }
        if c.wants_sample() { c.sample(json!({"capacity": cap, "lengths": lens, "history": log})); }
        match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"capacity": cap, "lengths": lens, "history": log, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"capacity": cap, "lengths": lens, "history": log, "case": i, "panic": e})) }
    }
    c.finish()
}

struct Disk { inflight: HashMap<usize, u32>, started: u64, waiting: Vec<(usize, oneshot::Sender<bool>)> }
fn fetch_one(cache: &Arc<Mutex<Cache>>, disk: &Arc<Mutex<Disk>>, k: usize, len: usize) -> BoxFuture<'static, Result<Box<DivBuf>>> {
    let kk = key(k);
    get_or_insert!(DivBufShared, DivBuf, cache, kk, {
        let (tx, rx) = oneshot::channel();
        { let mut d = disk.lock().unwrap(); *d.inflight.entry(k).or_default() += 1; d.started += 1; d.waiting.push((k, tx)); }
        struct Under(Arc<Mutex<Disk>>, usize);
        impl Drop for Under { fn drop(&mut self) { let mut d = self.0.lock().unwrap(); *d.inflight.get_mut(&self.1).unwrap() -= 1; d.waiting.retain(|w| !w.1.is_canceled()); } }
        let under = Under(disk.clone(), k);
        async move {
            let _under = under;
            let ok = rx.await.unwrap();
            if ok { Ok(Box::new(DivBufShared::from(content(k, len)))) } else { Err(Error::EIO) }
        }.boxed()
    })
}

pub fn fetch() {
    let mut c = Check::new("C09", "random schedules", "distinct histories (readers, fetch completions and failures, evictions, polls) by their order of events");
    let n = c.n(250_000, 7_000_000);
    let mut i = 0;
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, i); i += 1;
        let keys = rng.range(1, 4) as usize;
        let cap = *rng.pick(&[16usize, 40, 1000]);
        let lens: Vec<usize> = (0..keys).map(|_| rng.range(1, 12) as usize).collect();
        let fail = *rng.pick(&[0u64, 0, 2, 5]);
        let cancel = rng.chance(1, 3);
        let evict = rng.chance(1, 2);
        let steps = rng.range(4, 40);
        let mut log: Vec<String> = vec![];
        let mut counts: HashMap<&'static str, u64> = HashMap::new();
        let r = guard(|| -> std::result::Result<(), (&'static str, String)> {
            let cache = Arc::new(Mutex::new(Cache::with_capacity(cap)));
            let disk = Arc::new(Mutex::new(Disk { inflight: HashMap::new(), started: 0, waiting: vec![] }));
            let mut t: Tasks<Result<Box<DivBuf>>> = Tasks::default();
            let mut who: Vec<(usize, bool, u64)> = vec![]; // key, performs the fetch, failures of the key seen when it began
            let mut failures = vec![0u64; keys];
            // blocks that were fetched and not evicted since, in a cache that holds them all
            let mut held = vec![false; keys]; let roomy = lens.iter().sum::<usize>() <= cap;
            let mut drained = false;
            let mut step = 0;
            loop {
                step += 1;
                let choice = if step <= steps { rng.below(10) } else { 100 };
                match choice {
                    0..=3 => {
                        let k = rng.usize(keys); let before = disk.lock().unwrap().started;
                        let f = fetch_one(&cache, &disk, k, lens[k]);
                        let performs = disk.lock().unwrap().started > before;
                        if performs && roomy && held[k] { return Err(("refetched", format!("block {k} was fetched and never evicted, and is fetched again"))); }
                        t.spawn(f); who.push((k, performs, failures[k]));
                        log.push(format!("read {k}{}", if performs { " (fetches)" } else { "" }));
                        *counts.entry(if performs { "fetches" } else { "shared_or_cached_reads" }).or_default() += 1;
                    }
                    4 | 5 => {
                        let mut d = disk.lock().unwrap(); d.waiting.retain(|w| !w.1.is_canceled());
                        if !d.waiting.is_empty() {
                            let j = rng.usize(d.waiting.len()); let (k, tx) = d.waiting.swap_remove(j);
                            let ok = !(fail > 0 && rng.chance(fail, 10)); if !ok { failures[k] += 1; }
                            log.push(format!("disk {} {k}", if ok { "delivers" } else { "fails" })); let _ = tx.send(ok);
                            *counts.entry(if ok { "deliveries" } else { "failures" }).or_default() += 1;
                        }
                    }
                    6 | 7 => { let r = t.ready(); if !r.is_empty() { let j = *rng.pick(&r); log.push(format!("poll {j}")); t.poll(j);
                        if who[j].1 && matches!(t.done[j], Some(Ok(_))) && cache.lock().unwrap().get_ref(&key(who[j].0)).is_none() { return Err(("not-cached", format!("block {} has just been fetched and is not cached", who[j].0))); } } }
                    8 if cancel => { let p: Vec<usize> = t.pending(); if !p.is_empty() { let j = *rng.pick(&p); log.push(format!("reader {j} gives up")); t.cancel(j); *counts.entry(if who[j].1 { "fetching readers that gave up" } else { "waiting readers that gave up" }).or_default() += 1; } }
                    9 if evict => { let k = rng.usize(keys); log.push(format!("evict {k}")); cache.lock().unwrap().remove(&key(k)); held[k] = false; *counts.entry("evictions").or_default() += 1; }
                    100 => {
                        // let everything finish
                        t.run(&mut rng, 10_000);
                        let mut d = disk.lock().unwrap(); d.waiting.retain(|w| !w.1.is_canceled());
                        if d.waiting.is_empty() { drained = true; } else { let j = rng.usize(d.waiting.len()); let (k, tx) = d.waiting.swap_remove(j); log.push(format!("disk delivers {k}")); let _ = tx.send(true); }
                    }
                    _ => (),
                }
                for (k, n) in &disk.lock().unwrap().inflight { if *n > 1 { return Err(("twice", format!("two fetches of block {k} are under way"))); } }
                for j in 0..t.done.len() {
                    if let Some(r) = t.done[j].take() {
                        let k = who[j].0;
                        match r {
                            Ok(b) => { if who[j].1 { held[k] = true; } if b[..] != content(k, lens[k])[..] { return Err(("content", format!("reader {j} of block {k} got other contents"))); } *counts.entry("ok").or_default() += 1; }
                            Err(e) => { if failures[k] == 0 { return Err(("error", format!("reader {j} of block {k} got {e:?}, though no fetch of it failed"))); } *counts.entry("errors_delivered").or_default() += 1; }
                        }
                    }
                }
                if drained { break; }
            }
            let p = t.pending();
            if !p.is_empty() { return Err(("hang", format!("no fetch is under way, nothing is runnable, and readers {p:?} of blocks {:?} still wait", p.iter().map(|j| who[*j].0).collect::<Vec<_>>()))); }
            // and each block can still be read
            for k in 0..keys {
                let before = disk.lock().unwrap().started;
                let j = t.spawn(fetch_one(&cache, &disk, k, lens[k])); who.push((k, false, 0));
                t.run(&mut rng, 100);
                let w = disk.lock().unwrap().waiting.pop();
                if let Some((_, tx)) = w { let _ = tx.send(true); t.run(&mut rng, 100); }
                match t.done[j].take() { Some(Ok(b)) if b[..] == content(k, lens[k])[..] => (), Some(Ok(_)) => return Err(("content", format!("block {k} has other contents at the end"))), Some(Err(e)) => return Err(("error", format!("a last read of block {k} got {e:?}"))), None => return Err(("hang", format!("a last read of block {k} never ends (a fetch started: {})", disk.lock().unwrap().started > before))) }
            }
            Ok(())
        });
        c.evals(1); c.distinct(hash(&log)); for (k, n) in counts { c.count(k, n); }
        if c.wants_sample() && log.len() > 10 { c.sample(json!({"capacity": cap, "history": log})); }
        match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"capacity": cap, "lengths": lens, "history": log, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"capacity": cap, "lengths": lens, "history": log, "case": i, "panic": e})) }
    }
    c.finish()
}
