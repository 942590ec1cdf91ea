//! Power failures: every device may lose what was not synced, in any combination.
use crate::{env::*, m_fs::*};
use bfffs_core::fs::*;
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, VecDeque}, os::unix::fs::FileExt, sync::{Arc, Mutex, atomic::Ordering}};
use tokio_file::monitor::{Event, Kind as K, Phase, POISON, SEQ};

pub const AHEAD: &str = "space map newer than the label";
/// What one device has on stable storage
#[derive(Clone, Default)]
struct Image { pages: BTreeMap<u64, Arc<Vec<u8>>> }
const P: u64 = 4096;
impl Image {
    fn of(f: &std::fs::File) -> Image {
        let mut i = Image::default(); let len = f.metadata().unwrap().len(); let mut b = vec![0; P as usize];
        for p in 0..len / P { f.read_exact_at(&mut b, p * P).unwrap(); if b.iter().any(|x| *x != 0) { i.pages.insert(p, Arc::new(b.clone())); } }
        i
    }
    fn put(&mut self, off: u64, d: &[u8]) {
        let mut o = off; let mut d = d;
        while !d.is_empty() {
            let s = (o % P) as usize; let n = d.len().min(P as usize - s);
            let pg = self.pages.entry(o / P).or_insert_with(|| Arc::new(vec![0; P as usize]));
            Arc::make_mut(pg)[s..s + n].copy_from_slice(&d[..n]);
            o += n as u64; d = &d[n..];
        }
    }
    /// Carry out `w`; only those pages that `keep` lets through
    fn apply(&mut self, w: &W, mut keep: impl FnMut() -> bool) {
        let mut o = w.off; let end = w.off + w.len;
        while o < end {
            let e = ((o / P + 1) * P).min(end);
            if keep() { match &w.data { Some(d) => self.put(o, &d[(o - w.off) as usize..(e - w.off) as usize]), None => self.put(o, &vec![POISON; (e - o) as usize]) } }
            o = e;
        }
    }
    fn write(&self, f: &std::fs::File) { for (p, d) in &self.pages { f.write_all_at(d, p * P).unwrap(); } }
}
/// A write or an erase
struct W { dev: usize, off: u64, len: u64, data: Option<Arc<Vec<u8>>>, submit: u64, complete: u64 }
struct S { dev: usize, submit: u64, complete: u64 }
struct Trace { w: Vec<W>, s: Vec<S>, seqs: Vec<u64>, near: Vec<u64> }
fn trace(logs: Vec<Vec<Event>>) -> Trace {
    let mut t = Trace { w: vec![], s: vec![], seqs: vec![], near: vec![] };
    for (dev, l) in logs.into_iter().enumerate() {
        let mut open: BTreeMap<u64, u64> = BTreeMap::new();
        for e in l {
            match e.phase {
                Phase::Submit => { open.insert(e.op.id, e.seq); }
                Phase::Complete => {
                    let Some(submit) = open.remove(&e.op.id) else { continue };
                    if e.errno != 0 { continue; }
                    match e.op.kind {
                        K::Write => { t.w.push(W { dev, off: e.op.off, len: e.op.len, data: e.data, submit, complete: e.seq }); if e.op.off < 16 * P { t.near.push(submit); t.near.push(e.seq); } }
                        K::Erase => t.w.push(W { dev, off: e.op.off, len: e.op.len, data: None, submit, complete: e.seq }),
                        K::Sync => { t.s.push(S { dev, submit, complete: e.seq }); t.near.push(submit); t.near.push(e.seq); }
                        K::Read => continue,
                    }
                    t.seqs.push(submit); t.seqs.push(e.seq);
                }
            }
        }
    }
    t.w.sort_by_key(|w| w.complete); t.seqs.sort(); t.near.sort(); t
}
const MODES: &[&str] = &["nothing unsynced", "everything", "a random half", "a random tenth", "all but a tenth", "torn", "one thing only", "all but one", "the first few", "labels and space maps only", "data only", "one disk only"];
/// Build the disks' contents after power failed at `at`; is a space map newer than a label on them?
fn crash(base: &[Image], t: &Trace, at: u64, mode: usize, r: &Rng, reserved: u64) -> (Vec<Image>, bool, u64, u64) {
    let mut img = base.to_vec();
    let (mut nd, mut np) = (0, 0);
    // which write of label 0 (by count) and of space map 0 (by the labels before it) made it
    let nlab = |w: &W| w.off == 0 && w.len > 0;
    let mut seen = vec![0u64; img.len()]; let mut lab = vec![0u64; img.len()]; let mut sm = vec![0u64; img.len()];
    let pend: Vec<usize> = t.w.iter().enumerate().filter(|(_, w)| w.submit < at && !t.s.iter().any(|s| s.dev == w.dev && s.submit > w.complete && s.complete < at)).map(|x| x.0).collect();
    let pick = if pend.is_empty() { usize::MAX } else { *r.pick(&pend) };
    let lucky = r.usize(img.len());
    for (i, w) in t.w.iter().enumerate() {
        if w.submit >= at { continue; }
        let durable = !pend.contains(&i);
        if nlab(w) { seen[w.dev] += 1; }
        let mut kept = durable;
        if durable { img[w.dev].apply(w, || true); nd += 1; }
        else {
            let meta = w.off < reserved;
            let mut any = false;
            let mut keep: Box<dyn FnMut() -> bool> = match MODES[mode] {
                "nothing unsynced" => Box::new(|| false), "everything" => Box::new(|| true),
                "a random half" => { let k = r.chance(1, 2); Box::new(move || k) } "a random tenth" => { let k = r.chance(1, 10); Box::new(move || k) } "all but a tenth" => { let k = r.chance(9, 10); Box::new(move || k) }
                "torn" => Box::new(|| r.chance(1, 2)), "one thing only" => Box::new(move || i == pick), "all but one" => Box::new(move || i != pick),
                "the first few" => Box::new(move || pick != usize::MAX && i < pick), "labels and space maps only" => Box::new(move || meta), "data only" => Box::new(move || !meta), _ => Box::new(move || w.dev == lucky),
            };
            img[w.dev].apply(w, || { let k = keep(); any |= k; k });
            kept = any; if any { np += 1; }
        }
        if kept {
            if nlab(w) { lab[w.dev] = seen[w.dev]; }
            if w.off >= 8 * P && w.off < reserved { sm[w.dev] = seen[w.dev] + 1; }
        }
    }
    let oldest = *lab.iter().min().unwrap();
    (img, sm.iter().any(|s| *s > oldest), nd, np)
}
async fn marker(c: &mut Client, i: u32) -> R<()> {
    let root = c.fs().root();
    w!(c, c.fs().setattr(&root.handle(), SetAttr { uid: Some(i), ..Default::default() })).map_err(|e| ("attrs", "setattr fails".to_string(), format!("{e}")))?;
    let a = w!(c, c.fs().getattr(&root.handle())).map_err(|e| ("attrs", "getattr fails".to_string(), format!("{e}")))?;
    let n = c.m.nodes.get_mut(&1).unwrap(); n.uid = i; n.ct = a.ctime;
    Ok(())
}
struct History { o: Opts, tree: bfffs_core::database::TreeID, base: Vec<Image>, t: Trace, states: BTreeMap<u32, Model>, returned: Vec<(u64, u32)>, begun: Vec<(u64, u32)>, reserved: u64, log: VecDeque<String>, n: BTreeMap<&'static str, u64> }
async fn live(seed: u64, o: Opts, steps: usize, log: Arc<Mutex<(VecDeque<String>, &'static str)>>) -> Result<History, Bad> {
    let mut c = Client::new(seed, o.clone()).await?;
    let mut i = 1u32; let mut states = BTreeMap::new(); let (mut returned, mut begun) = (vec![], vec![]);
    marker(&mut c, 0).await?; w!(c, c.fs().sync());
    states.insert(0, c.m.clone()); returned.push((0, 0)); begun.push((0, 0));
    let base: Vec<Image> = c.disks.paths.iter().map(|p| Image::of(&std::fs::File::open(p).unwrap())).collect();
    for d in &c.disks.devs { d.keep_data.store(true, Ordering::Relaxed); d.keep_events.store(true, Ordering::Relaxed); }
    for s in 0..steps {
        if c.r.chance(1, 9) || s == steps - 1 {
            marker(&mut c, i).await?;
            begun.push((SEQ.load(Ordering::SeqCst), i)); states.insert(i, c.m.clone());
            if c.r.chance(1, 4) { c.note("pause", "6000 ms".into()); tokio::time::sleep(std::time::Duration::from_secs(6)).await; }
            else { c.op_sync().await?; returned.push((SEQ.load(Ordering::SeqCst), i)); }
            i += 1;
        } else { c.step().await?; }
        let mut l = log.lock().unwrap(); l.0 = c.log.clone(); l.1 = c.area;
    }
    // The next one is cut short
    let logs = c.disks.devs.iter().map(|d| { d.keep_events.store(false, Ordering::Relaxed); d.take_log() }).collect();
    let nz = c.o.shape.fsize / 4096 / c.o.shape.zone;
    let reserved = 2 * (4 + nz.div_ceil(255).max(1)) * P;
    c.fds.clear(); let l = c.log.clone(); let n = c.n.clone();
    c.close().await?;
    Ok(History { o, tree: c.tree, base, t: trace(logs), states, returned, begun, reserved, log: l, n })
}
fn revive(seed: u64, h: &History, m: Model, disks: Arc<Disks>, db: Arc<bfffs_core::database::Database>) -> Client {
    let r = Rng::new(seed);
    let fam = crate::collide::names(&r); let xfam = [crate::collide::xnames(1, &r), crate::collide::xnames(2, &r)];
    Client { r, o: h.o.clone(), disks, db: Some(db), fs: None, tree: h.tree, m, fds: BTreeMap::new(), log: VecDeque::new(), fam, xfam, n: BTreeMap::new(), counter: 1_000_000, pre: None, area: "crash", bg: vec![], there: None, top: None, above: 1 }
}
/// Import what is left and compare; then go on working with it, unless there is a reason not to
async fn recover(seed: u64, h: &History, img: &[Image], lo: u32, hi: u32, ahead: bool, stage: Arc<Mutex<&'static str>>) -> R<u32> {
    let disks = Arc::new(Disks::new(&h.o.shape));
    for (i, p) in disks.paths.iter().enumerate() { img[i].write(&std::fs::OpenOptions::new().write(true).open(p).unwrap()); }
    disks.jitter(seed, h.o.jitter);
    let cache = h.o.cache;
    let db = match finishes(disks.import(cache, h.o.wb)).await { Some(Ok(d)) => Arc::new(d), x => return Err(("crash", "the pool cannot be imported after a power failure".into(), format!("{:?}", x.map(|y| y.err())))) };
    let mut c = revive(seed, h, Model::default(), disks.clone(), db.clone());
    let t = w!(c, db.lookup_fs(""));
    ensure!("crash", "the root file system is gone after a power failure", t == Ok((None, Some(h.tree))), "{t:?}");
    let fs = w!(c, Fs::new(db, h.tree));
    let a = w!(c, fs.getattr(&fs.root().handle())).map_err(|e| ("crash", "the root directory is gone after a power failure".to_string(), format!("errno {e}")))?;
    ensure!("crash", "a completed sync is lost", a.uid >= lo, "the newest completed sync is {lo}, but the pool has {}", a.uid);
    ensure!("crash", "a state that never was", a.uid <= hi && h.states.contains_key(&a.uid), "no sync begun so far had number {}", a.uid);
    let idx = a.uid;
    c.m = h.states[&idx].clone();
    c.m.nodes.retain(|_, n| !n.dead);
    c.fs = Some(Arc::new(fs));
    c.everything().await.map_err(|b| ("crash", format!("after a power failure: {}", b.1), b.2))?;
    *stage.lock().unwrap() = "on";
    let bad = |b: Bad| ("crash", format!("going on after a power failure: {}", b.1), format!("{} [last operations since: {}]", b.2, "see history"));
    if ahead && !mon::mix(seed).is_multiple_of(4) { c.fds.clear(); c.close().await?; return Ok(idx); }
    c.op_check().await.map_err(bad)?;
    for s in 0..30 { c.step().await.map_err(bad)?; if s % 15 == 14 { c.op_sync().await.map_err(bad)?; } }
    c.op_clean().await.map_err(bad)?;
    c.everything().await.map_err(bad)?;
    c.op_sync().await.map_err(bad)?;
    c.op_check().await.map_err(bad)?;
    c.op_reopen().await.map_err(bad)?;
    c.fds.clear(); c.close().await.map_err(bad)?;
    Ok(idx)
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "crash_consistency", "one evaluation = one power failure at one moment of a recorded history with one choice of which unsynced writes survived; distinct = distinct sets of surviving writes");
    let cases = ck.n(400, 4000);
    'all: for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0xc4a5, case);
        let mut o = opts(&r, "crash");
        o.big = false; let mut sh = Shape::random(&r); sh.zone = *r.pick(&[64u64, 64, 128]); o.shape = sh.sized(*r.pick(&[16u64, 24]) << 20); o.jitter = *r.pick(&[1u64, 3, 9]);
        let seed = r.next();
        let log = Arc::new(Mutex::new((VecDeque::new(), "setup"))); let l2 = log.clone(); let o2 = o.clone();
        let steps = 30 + r.usize(60);
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let h = match mon::guard(|| rt().block_on(live(seed, o2, steps, l2))) {
            Ok(Ok(h)) => h,
            Ok(Err(b)) => { let l = log.lock().unwrap().0.clone(); report(&mut ck, &["crash"], b, case, &l, &format!("{o:?}")); continue; }
            Err(p) => { let (l, a) = { let l = log.lock().unwrap(); (l.0.clone(), l.1) }; let p = crate::first_panic(before, p); crate::panicked(&mut ck, a, &p, case, &l, &format!("{o:?}")); continue; }
        };
        for (k, v) in &h.n { ck.count(k, *v); }
        ck.max("disk writes in one history", h.t.w.len() as u64);
        if h.t.seqs.is_empty() { continue; }
        for _ in 0..16 {
            let at = if !h.t.near.is_empty() && r.chance(2, 3) { *r.pick(&h.t.near) + r.below(6) } else { *r.pick(&h.t.seqs) + r.below(2) };
            let mode = r.usize(MODES.len());
            let (img, ahead, nd, np) = crash(&h.base, &h.t, at, mode, &r, h.reserved);
            let lo = h.returned.iter().filter(|x| x.0 <= at).map(|x| x.1).max().unwrap();
            let hi = h.begun.iter().filter(|x| x.0 <= at).map(|x| x.1).max().unwrap();
            let stage = Arc::new(Mutex::new("import")); let s2 = stage.clone();
            let before = mon::ALL_PANICS.lock().unwrap().len();
            let seed2 = r.next();
            let res = mon::guard(|| rt().block_on(recover(seed2, &h, &img, lo, hi, ahead, s2)));
            let what = format!("power failed at {at} ({} of {} disk operations later than the start), of the unsynced writes survived: {}", h.t.seqs.partition_point(|s| *s < at), h.t.seqs.len(), MODES[mode]);
            ck.eval(); ck.distinct(mon::hash(&(case, at, nd, np)));
            ck.count(MODES[mode], 1); if ahead { ck.count("power failures between space map and label", 1); }
            let mut bad: Option<(String, String)> = match res {
                Ok(Ok(idx)) => { ck.count(if idx == lo { "the last completed sync found" } else { "a newer sync found" }, 1); None }
                Ok(Err(b)) => Some((b.1, b.2)),
                Err(p) => { if !crate::in_repo(&p) { eprintln!("the monitor itself: {p}"); cleanup(); std::process::exit(4); } Some((format!("panic after a power failure: {}", mon::panic_key(&p)), p)) }
            };
            let ps: Vec<String> = mon::ALL_PANICS.lock().unwrap()[before.min(100)..].to_vec();
            if bad.is_none() { for p in ps { if crate::in_repo(&p) { bad = Some((format!("panic after a power failure: {}", mon::panic_key(&p)), p)); } } }
            if let Some((key, text)) = bad {
                let stage = *stage.lock().unwrap();
                if std::env::var("MON_V").is_ok() { println!("{case} {ahead} {stage} {key} {text}"); }
                let key = if ahead && (stage == "on" || key.starts_with("panic")) { AHEAD.to_string() } else { key };
                ck.violation(&key, &json!({"case": case, "what": text, "when": what, "stage": stage, "synced": lo, "begun": hi, "history": h.log.iter().collect::<Vec<_>>(), "setup": format!("{o:?}")}));
            } else if ck.wants_sample() { ck.sample(json!({"case": case, "what": what, "setup": o.shape.text(), "survived": nd + np})); }
            if !ck.time_left() { break 'all; }
        }
    }
    ck.assume("a device writes blocks of 4096 bytes atomically, in any order, and keeps everything that was complete when a later sync of it began");
    ck.assume("one client; which state was synced is told by a marker it sets before each sync");
    cleanup();
    ck.finish()
}
