#![allow(dead_code, unused_imports, unused_variables, unexpected_cfgs, unstable_name_collisions, clippy::all)]
extern crate perturb as std;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;

use crate::writeback::{Credit, WriteBack};
use mon::*;
use serde_json::json;
use mon::realstd::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering::SeqCst}};

fn val(c: &mut Credit) -> isize { &mut *c + 0usize }

#[derive(Clone, Debug)]
struct Plan { cap: usize, threads: Vec<Vec<(usize, u8)>> }
fn plan(rng: &Rng) -> Plan {
    let cap = *rng.pick(&[1usize, 2, 3, 5, 10]);
    let n = rng.range(2, 4);
    Plan { cap, threads: (0..n).map(|_| (0..rng.range(1, 3)).map(|_| {
        let w = if rng.chance(1, 3) { cap } else { rng.range(1, cap as u64) as usize };
        (w, rng.below(6) as u8)
    }).collect()).collect() }
}
#[derive(Default)]
struct World { log: Mutex<Vec<(u8, u8, u32)>>, debt: Mutex<isize>, waited: AtomicU64, bad: Mutex<Option<(String, String)>>, progress: AtomicU64, stamps: Mutex<Vec<u64>> }
const BUSY: u64 = u64::MAX; const GONE: u64 = u64::MAX - 1;
fn poll<F: mon::realstd::future::Future + Unpin>(f: &mut F) -> Option<F::Output> {
    use mon::realstd::task::{Context, Poll};
    match ::std::pin::Pin::new(f).poll(&mut Context::from_waker(futures::task::noop_waker_ref())) { Poll::Ready(c) => Some(c), Poll::Pending => None }
}

fn one(p: &Plan, w: &Arc<World>) {
    let bank = Arc::new(WriteBack::with_capacity(p.cap));
    *w.stamps.lock().unwrap() = vec![BUSY; p.threads.len()];
    let hs: Vec<_> = p.threads.iter().cloned().enumerate().map(|(ti, ops)| {
        let (bank, w, cap) = (bank.clone(), w.clone(), p.cap);
        shuttle::thread::spawn(move || {
            for (want, how) in ops {
                let mut f = Box::pin(bank.borrow(want));
                let now = poll(&mut f);
                w.log.lock().unwrap().push((ti as u8, if now.is_some() { 0 } else { 1 }, want as u32));
                let mut c = match now {
                    Some(c) => c,
                    None => {
                        w.waited.fetch_add(1, SeqCst);
                        w.progress.fetch_add(1, SeqCst);
                        loop {
                            if let Some(c) = poll(&mut f) { w.stamps.lock().unwrap()[ti] = BUSY; break c; }
                            let stuck = {
                                let mut s = w.stamps.lock().unwrap(); let now = w.progress.load(SeqCst);
                                s[ti] = now;
                                s.iter().all(|x| *x == now || *x == GONE)
                            };
                            if stuck {
                                let debt = *w.debt.lock().unwrap();
                                w.bad.lock().unwrap().get_or_insert(("forgotten".into(), format!("{debt} of {cap} is on loan; everybody else waits or is gone, and an application for {want} is not granted")));
                            }
                            if w.bad.lock().unwrap().is_some() { w.stamps.lock().unwrap()[ti] = GONE; return; }
                            shuttle::thread::yield_now();
                        }
                    }
                };
                let v = val(&mut c);
                if v != want as isize { *w.bad.lock().unwrap() = Some(("amount".into(), format!("asked for {want}, got {v}"))); }
                let debt = { let mut d = w.debt.lock().unwrap(); *d += v; *d };
                w.log.lock().unwrap().push((ti as u8, 2, want as u32));
                if debt > cap as isize { *w.bad.lock().unwrap() = Some(("overdraft".into(), format!("{debt} on loan from {cap}"))); }
                if how == 0 { shuttle::thread::yield_now(); }
                let part = if how == 1 && want > 1 { let p = c.split(want / 2); Some(p) } else { None };
                if let Some(mut x) = part { *w.debt.lock().unwrap() -= val(&mut x); bank.repay(x); w.progress.fetch_add(1, SeqCst); }
                *w.debt.lock().unwrap() -= val(&mut c);
                w.log.lock().unwrap().push((ti as u8, 3, want as u32));
                bank.repay(c);
                w.progress.fetch_add(1, SeqCst);
            }
            w.stamps.lock().unwrap()[ti] = GONE;
            w.progress.fetch_add(1, SeqCst);
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    if w.bad.lock().unwrap().is_some() { return; }
    // all is repaid
    use futures::FutureExt;
    match bank.borrow(p.cap).now_or_never() {
        Some(c) => bank.repay(c),
        None => *w.bad.lock().unwrap() = Some(("lost".into(), format!("all is repaid, yet {0} of {0} cannot be borrowed", p.cap))),
    }
}

/// Threads that split one credit between them
fn split() {
    let mut c = Check::new("C10", "random schedules", "distinct (amounts, order of splits) of one credit split by two or three threads, with every atomic operation a scheduling point");
    c.assume("atomic operations are sequentially consistent under the scheduler");
    let plans = c.n(3_000, 100_000); let per = c.n(40, 200) as usize;
    let mut i = 0;
    while i < plans && c.frac_left(0.5) {
        let rng = Rng::case(c.seed, 70_000_000 + i); i += 1;
        let amount = rng.range(1, 40) as usize;
        let asks: Vec<Vec<usize>> = (0..rng.range(2, 3)).map(|_| (0..rng.range(1, 3)).map(|_| rng.range(0, 20) as usize).collect()).collect();
        let seen: Arc<Mutex<Vec<u64>>> = Default::default(); let bad: Arc<Mutex<Option<String>>> = Default::default();
        let (a2, s2, b2) = (asks.clone(), seen.clone(), bad.clone());
        let body = move || {
            use futures::FutureExt;
            let bank = WriteBack::with_capacity(amount);
            let cr = Arc::new(bank.borrow(amount).now_or_never().unwrap());
            let log: Arc<Mutex<Vec<(usize, usize, isize)>>> = Default::default();
            let hs: Vec<_> = a2.iter().cloned().enumerate().map(|(t, asks)| { let (cr, log) = (cr.clone(), log.clone()); shuttle::thread::spawn(move || {
                let mut got = Credit::null();
                for a in asks { let mut p = cr.atomic_split(a); log.lock().unwrap().push((t, a, val(&mut p))); got.extend(p); }
                got
            }) }).collect();
            let mut all = Credit::null();
            for h in hs { all.extend(h.join().unwrap()); }
            let mut rest = Arc::try_unwrap(cr).unwrap();
            let (x, y) = (val(&mut all), val(&mut rest));
            let l = log.lock().unwrap().clone();
            s2.lock().unwrap().push(hash(&l));
            let short = l.iter().filter(|z| z.2 != z.1 as isize).count();
            if x + y != amount as isize || y < 0 || l.iter().any(|z| z.2 < 0 || z.2 > z.1 as isize) || (short > 0 && y != 0) {
                b2.lock().unwrap().get_or_insert(format!("{amount} was split into {x} and {y}: (thread, asked, got) {l:?}"));
                mon::realstd::mem::forget((all, rest));
            } else { all.extend(rest); bank.repay(all); }
        };
        let mut cfg = shuttle::Config::new(); cfg.failure_persistence = shuttle::FailurePersistence::None; cfg.silence_warnings = true;
        let seed = rng.next();
        let r = guard(|| { shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed, per), cfg).run(body); });
        for h in seen.lock().unwrap().iter() { c.eval(); c.distinct(mix(hash(&(amount, &asks)) ^ h)); }
        if c.wants_sample() { c.sample(json!({"amount": amount, "asks by thread": asks, "schedules": seen.lock().unwrap().len()})); }
        let b = bad.lock().unwrap().clone();
        if let Some(e) = b { c.violation("concurrent", &json!({"schedule_seed": seed, "what": e})); }
        if let Err(e) = r { c.violation("panic", &json!({"amount": amount, "asks": asks, "schedule_seed": seed, "panic": e})); }
    }
    c.finish()
}

fn main() {
    if mon::realstd::env::args().nth(1).as_deref() == Some("split") { split() }
    let mut c = Check::new("C15", "random schedules", "distinct orders of loans, waits, grants and repayments by two to four threads, with every atomic operation a scheduling point");
    c.assume("atomic operations are sequentially consistent under the scheduler; weaker orderings are not explored");
    let plans = c.n(2_000, 100_000); let per = c.n(120, 600) as usize;
    let mut i = 0;
    while i < plans && c.time_left() {
        let rng = Rng::case(c.seed, i); i += 1;
        let p = plan(&rng);
        let logs: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
        let last: Arc<Mutex<Arc<World>>> = Default::default();
        let first: Arc<Mutex<Option<(String, String, String)>>> = Default::default(); let first2 = first.clone();
        let (p2, logs2, last2) = (p.clone(), logs.clone(), last.clone());
        let body = move || {
            let w: Arc<World> = Default::default();
            *last2.lock().unwrap() = w.clone();
            one(&p2, &w);
            let h = hash(&*w.log.lock().unwrap());
            logs2.lock().unwrap().push((h, w.waited.load(SeqCst)));
            let bad = w.bad.lock().unwrap().clone();
            if let Some((k, e)) = bad {
                first2.lock().unwrap().get_or_insert((k, e, format!("{:?}", w.log.lock().unwrap())));
            }
        };
        let seed = rng.next();
        let pct = rng.chance(1, 2);
        let mut cfg = shuttle::Config::new();
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.silence_warnings = true;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(100_000);
        let r = guard(|| {
            if pct { shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed, 1 + (seed % 3) as usize, per), cfg).run(body); }
            else { shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed, per), cfg).run(body); }
        });
        let ph = hash(&format!("{p:?}"));
        for (h, waited) in logs.lock().unwrap().iter() { c.eval(); c.distinct(mix(ph ^ h)); c.count("loans_that_waited", *waited); }
        c.count("plans", 1);
        if c.wants_sample() { c.sample(json!({"plan": format!("{p:?}"), "schedules": logs.lock().unwrap().len()})); }
        if let Some((k, e, log)) = first.lock().unwrap().clone() {
            c.violation(&k, &json!({"plan": format!("{p:?}"), "schedule_seed": seed, "events (thread, what, amount)": log, "what": e}));
        }
        if let Err(e) = r {
            let e = mon::ALL_PANICS.lock().unwrap().first().cloned().unwrap_or(e);
            let w = last.lock().unwrap().clone();
            let key = if e.contains("deadlock") { "forgotten".to_string() } else { e.split(':').next().unwrap_or("panic").chars().take(30).collect() };
            let log = format!("{:?}", w.log.lock().unwrap());
            c.violation(&key, &json!({"plan": format!("{p:?}"), "schedule_seed": seed, "events (thread, what, amount)": log, "what": e}));
        }
    }
    c.finish()
}
