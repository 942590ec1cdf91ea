//! Write-back credit: never more than the capacity, never destroyed or forged, granted in order, nobody forgotten.
use crate::writeback::{Credit, WriteBack};
use futures::FutureExt;
use mon::*;
use serde_json::json;
use std::sync::{atomic::{AtomicI64, AtomicU64, Ordering::SeqCst}, Arc, Mutex};

fn val(c: &mut Credit) -> isize { &mut *c + 0usize }

/// The arithmetic of credit
pub fn credit() {
    let mut c = Check::new("C10", "random", "distinct (operation, amount held, amount asked) triples of credit arithmetic");
    let n = c.n(2_000_000, 40_000_000);
    let mut i = 0;
    let bank = WriteBack::limitless();
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, i); i += 1;
        let scale = *rng.pick(&[1u64, 5, 100, 1 << 20, 1 << 40]);
        let amount = rng.range(0, scale) as usize;
        let ask = match rng.below(4) { 0 => amount, 1 => amount + 1, 2 => rng.range(0, 2 * scale) as usize, _ => rng.range(0, scale) as usize };
        let op = rng.below(8);
        let neg = rng.chance(1, 5);
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let mut a = if amount == 0 { Credit::null() } else { bank.borrow(amount).now_or_never().ok_or(("refused", format!("a nearly unlimited bank refused {amount}")))? };
            let mut debt = Credit::null();
            let mut have = amount as isize;
            if neg { debt.extend(a.isplit(ask as isize)); have -= ask as isize; }
            let bad = |what: &str, x: isize, y: isize| { Err(("arithmetic", format!("{what} of {ask} from {have}: {x} and {y}"))) };
            let (mut b, want): (Credit, isize) = match op {
                0 => (a.split(ask), if neg { isize::MIN } else { (ask as isize).min(have) }),
                1 => (a.isplit(ask as isize), ask as isize),
                2 => (a.halve(), isize::MIN),
                3 => (a.take(), have),
                4 if have >= 0 => (a.atomic_split(ask), (ask as isize).min(have)),
                5 => { let mut x = Credit::null(); x.extend(a.isplit(have / 3)); (x, have / 3) }
                6 => { let mut x = a.isplit(ask as isize); a.extend(x.take()); (x, 0) }
                _ => (Credit::null(), 0),
            };
            let (x, y) = (val(&mut a), val(&mut b));
            if x + y != have { let e = bad("not conserved: split", x, y); std::mem::forget((a, b, debt)); return e; }
            if want != isize::MIN && y != want { let e = bad("wrong amount: split", x, y); std::mem::forget((a, b, debt)); return e; }
            if op == 2 && (x - y).abs() > 1 { let e = bad("unequal halves: halve", x, y); std::mem::forget((a, b, debt)); return e; }
            if op == 4 && have >= 0 && x < 0 { let e = bad("went negative: atomic_split", x, y); std::mem::forget((a, b, debt)); return e; }
            if op == 3 && !a.is_null() { let e = bad("take left something", x, y); std::mem::forget((a, b, debt)); return e; }
            if x >= 0 && !(a == x as usize && !(a == x as usize + 1) && a < x as usize + 1 && !(a < x as usize) && a <= x as usize && (x == 0 || a > x as usize - 1)) { std::mem::forget((a, b, debt)); return Err(("compare", format!("a credit of {x} compares wrongly"))); }
            if (&mut a - 7usize) != x - 7 || (&mut a + 9usize) != x + 9 || a.is_null() != (x == 0) { std::mem::forget((a, b, debt)); return Err(("compare", format!("a credit of {x} adds, subtracts or is null wrongly"))); }
            a.extend(b); a.extend(debt);
            let z = val(&mut a);
            if z != amount as isize { std::mem::forget(a); return Err(("extend", format!("the pieces of {amount} add up to {z}"))); }
            bank.repay(a);
            Ok(())
        });
        c.eval(); c.distinct(hash(&(op, amount, ask, neg)));
        c.count(["split", "isplit", "halve", "take", "atomic_split", "isplit_third", "split_and_return", "null"][op as usize], 1);
        if c.wants_sample() { c.sample(json!({"op": op, "held": amount, "asked": ask})); }
        match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"op": op, "held": amount, "asked": ask, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"op": op, "held": amount, "asked": ask, "case": i, "panic": e})) }
    }
    // dropping credit is noticed
    for amt in [1usize, 2, 1000] {
        let b = WriteBack::with_capacity(5000);
        let k = b.borrow(amt).now_or_never().unwrap();
        c.eval(); c.count("dropped", 1);
        if guard(move || drop(k)).is_ok() { c.violation("silent-drop", &json!({"amount": amt, "what": "dropping credit went unnoticed"})); }
        if guard(|| drop(Credit::null())).is_err() { c.violation("null-drop", &json!({"what": "dropping no credit panicked"})); }
    }
    // atomic splitting by many threads hands out exactly what there was
    let rounds = c.n(300, 6000);
    for r in 0..rounds {
        let mut rng = Rng::case(c.seed, 5_000_000 + r);
        let amount = rng.range(1, 20_000) as usize;
        let bank = WriteBack::with_capacity(amount);
        let cr = Arc::new(bank.borrow(amount).now_or_never().unwrap());
        let each: usize = rng.range(1, (amount as u64 / 10).max(1)) as usize;
        let hs: Vec<_> = (0..4).map(|_| { let cr = cr.clone(); std::thread::spawn(move || { let mut got = Credit::null(); for _ in 0..50 { let mut p = cr.atomic_split(each); let v = val(&mut p); got.extend(p); if v < 0 || v > each as isize { return Err((got, v)); } } Ok(got) }) }).collect();
        let mut all = Credit::null(); let mut bad = None;
        for h in hs { match h.join().unwrap() { Ok(g) => all.extend(g), Err((g, v)) => { all.extend(g); bad = Some(v); } } }
        let mut rest = Arc::try_unwrap(cr).unwrap();
        let (x, y) = (val(&mut all), val(&mut rest));
        c.eval(); c.count("concurrent_splits", 200); c.distinct(hash(&("concurrent", amount, each)));
        if bad.is_some() || x + y != amount as isize || y < 0 { std::mem::forget((all, rest)); c.violation("concurrent", &json!({"amount": amount, "each": each, "handed_out": x, "left": y, "odd_piece": bad})); }
        else { all.extend(rest); bank.repay(all); }
    }
    c.finish()
}

/// Histories of borrowers against a model of the bank, then borrowers on many threads
pub fn bank() {
    let mut c = Check::new("C11", "random schedules", "distinct histories of loans, repayments and abandoned applications, by their order of events");
    c.assume("no single loan larger than the capacity; an application is abandoned only while it waits");
    let n = c.n(300_000, 5_000_000);
    let mut i = 0;
    while i < n && c.frac_left(0.7) {
        let mut rng = Rng::case(c.seed, i); i += 1;
        let cap = if rng.chance(1, 30) { (isize::MAX >> 1) as usize } else { *rng.pick(&[1usize, 2, 5, 10, 100, 1 << 20]) };
        let abandon = rng.chance(1, 3);
        let mut log: Vec<String> = vec![]; let mut waited = 0;
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let bank = Box::leak(Box::new(WriteBack::with_capacity(cap)));
            let bank: &'static WriteBack = bank;
            if bank.capacity() != cap { return Err(("capacity", format!("capacity {} of {cap}", bank.capacity()))); }
            let mut t: Tasks<Credit> = Tasks::default();
            let mut wants: Vec<usize> = vec![];
            let mut order: std::collections::VecDeque<usize> = Default::default(); // not yet granted, oldest first
            let mut held: Vec<(Credit, usize)> = vec![];
            let mut debt = 0usize; // granted and not yet repaid
            let mut ghosts: Vec<(usize, usize)> = vec![]; // abandoned (number, wants): they may hold up the line until there is enough for them
            let mut settled = true; // money came in since the last abandonment
            let steps = rng.range(3, 60);
            let mut res = Ok(());
            for s in 0.. {
                let ending = s >= steps;
                if ending && held.is_empty() && order.is_empty() { break; }
                if ending && held.is_empty() { res = Err(("hang", format!("nothing is on loan, and applications for {:?} of {cap} still wait", order.iter().map(|j| wants[*j]).collect::<Vec<_>>()))); break; }
                match if ending { 5 } else { rng.below(8) } {
                    0..=3 => {
                        let w = match rng.below(4) { 0 => cap, 1 => rng.range(1, (cap as u64).min(7)) as usize, _ => rng.range(1, (cap as u64 / 2).max(1)) as usize };
                        log.push(format!("borrow {w}"));
                        let j = t.spawn(bank.borrow(w)); wants.push(w); order.push_back(j); t.poll(j);
                        if t.is_pending(j) { waited += 1; }
                    }
                    4..=5 => {
                        if held.is_empty() { continue; }
                        let p = rng.usize(held.len());
                        let partial = rng.chance(1, 3);
                        let (mut cr, w) = held.swap_remove(p);
                        if partial && w > 1 { let part = cr.split(rng.range(1, w as u64 - 1) as usize); let mut part = part; let v = val(&mut part) as usize; log.push(format!("repay {v} of {w}")); debt -= v; bank.repay(part); held.push((cr, w - v)); }
                        else { log.push(format!("repay {w}")); debt -= w; bank.repay(cr); }
                        settled = true;
                    }
                    6 if abandon => {
                        // only one that really waits
                        let cand: Vec<usize> = order.iter().copied().filter(|j| t.is_pending(*j)).collect();
                        if !cand.is_empty() { let j = *rng.pick(&cand); log.push(format!("abandon {}", wants[j])); ghosts.push((j, wants[j])); settled = false; order.retain(|x| *x != j); t.cancel(j); }
                    }
                    _ => { bank.repay(Credit::null()); }
                }
                for j in t.ready() { t.poll(j); }
                // collect what was granted: exactly a prefix of the queue
                let granted: Vec<usize> = order.iter().copied().filter(|j| t.done[*j].is_some()).collect();
                for (a, b) in granted.iter().zip(order.iter()) { if a != b { res = Err(("order", format!("application {a} for {} was granted before {b} for {}, which came first", wants[*a], wants[*b]))); } }
                for j in granted {
                    let mut cr = t.done[j].take().unwrap(); let v = val(&mut cr);
                    if v != wants[j] as isize { res = Err(("amount", format!("asked for {}, got {v}", wants[j]))); }
                    debt += wants[j]; order.retain(|x| *x != j); ghosts.retain(|g| g.0 > j); held.push((cr, wants[j]));
                }
                if debt > cap { res = Err(("overdraft", format!("{debt} on loan from {cap}"))); }
                if let (Some(f), true) = (order.front(), settled) { if debt + wants[*f] <= cap && ghosts.iter().all(|g| g.0 > *f || debt + g.1 <= cap) { res = Err(("forgotten", format!("the first in line wants {}, {debt} of {cap} is on loan, and he still waits", wants[*f]))); } }
                if res.is_err() { break; }
            }
            if res.is_ok() {
                // all repaid: the whole capacity can be borrowed again
                match bank.borrow(cap).now_or_never() { Some(cr) => bank.repay(cr), None => res = Err(("lost", format!("all is repaid, yet {cap} of {cap} cannot be borrowed"))) }
            }
            for h in held { std::mem::forget(h.0); }
            for d in t.done.iter_mut() { if let Some(x) = d.take() { std::mem::forget(x); } }
            res
        });
        c.evals(log.len() as u64); c.distinct(hash(&log)); c.count("histories", 1); c.count("applications_that_waited", waited);
        if c.wants_sample() && waited > 2 { c.sample(json!({"capacity": cap, "history": log})); }
        match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"capacity": cap, "history": log, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"capacity": cap, "history": log, "case": i, "panic": e})) }
    }
    c.finish()
}
