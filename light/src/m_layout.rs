//! The declustered layout: what every stripe, disk and address must satisfy, whatever the shape.
use crate::raid::{declust::*, prime_s::PrimeS};
use mon::*;
use serde_json::json;

const PRIMES: [i16; 46] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 211];
fn all_small(c: &Check) -> Vec<(i16, i16, i16)> {
    let mut v = vec![];
    for n in [2i16, 3, 5, 7, 11].into_iter().chain(if c.thorough() { vec![13, 17, 19, 23] } else { vec![13] }) { for k in 2..=n { for f in 1..k { v.push((n, k, f)); } } }
    v
}
fn random_large(rng: &mut Rng) -> (i16, i16, i16) {
    let n = if rng.chance(1, 2) { *rng.pick(&PRIMES[4..20]) } else { *rng.pick(&PRIMES[16..]) };
    let k = match rng.below(4) { 0 => n, 1 => rng.range(2, n as u64) as i16, 2 => n - rng.below((n as u64 - 2).min(4)) as i16, _ => rng.range(2, (n as u64).min(24)) as i16 };
    let f = match rng.below(4) { 0 => 1, 1 => k - 1, _ => rng.range(1, (k as u64 - 1).min(8)) as i16 };
    (n, k, f)
}
fn stripe_ids(m: i16, f: i16, s: u64) -> Vec<ChunkId> {
    let a = s * m as u64;
    (0..m as u64).map(|i| ChunkId::Data(a + i)).chain((0..f).map(|i| ChunkId::Parity(a, i))).collect()
}

/// One repetition of a layout: distinct disks in every stripe, a bijection onto a dense rectangle, balance, order
fn whole(l: &PrimeS, n: i16, k: i16, f: i16, rep: u64) -> Result<u64, (&'static str, String)> {
    let m = k - f;
    let (depth, stripes) = (k as u64 * (n as u64 - 1), n as u64 * (n as u64 - 1));
    if l.depth() as u64 != depth || l.datachunks() != stripes * m as u64 || l.disks() != n as u32 || l.protection() != f || l.stripesize() != k {
        return Err(("shape", format!("depth {} datachunks {} disks {} protection {} stripesize {}", l.depth(), l.datachunks(), l.disks(), l.protection(), l.stripesize())));
    }
    let mut used = vec![0u8; (n as u64 * depth) as usize];
    let mut par = vec![0u64; n as usize];
    let mut last: Vec<Option<u64>> = vec![None; n as usize];
    for s in 0..stripes {
        let mut disks = vec![false; n as usize];
        let mut here: Vec<(i16, u64)> = vec![];
        for id in stripe_ids(m, f, rep * stripes + s) {
            let loc = l.id2loc(id);
            if loc.disk < 0 || loc.disk >= n { return Err(("disk", format!("{id:?} is on disk {}", loc.disk))); }
            if std::mem::replace(&mut disks[loc.disk as usize], true) { return Err(("same-disk", format!("two chunks of the stripe of {id:?} are on disk {}", loc.disk))); }
            let o = loc.offset.wrapping_sub(rep * depth);
            if o >= depth { return Err(("range", format!("{id:?} at offset {} is outside repetition {rep}", loc.offset))); }
            let u = &mut used[(loc.disk as u64 * depth + o) as usize];
            if *u != 0 { return Err(("overlap", format!("{id:?} shares disk {} offset {} with another chunk", loc.disk, loc.offset))); }
            *u = 1;
            if !id.is_data() { par[loc.disk as usize] += 1; }
            here.push((loc.disk, loc.offset));
        }
        // later stripes lie behind earlier ones on every disk
        for (d, o) in here { if let Some(p) = last[d as usize] { if o <= p { return Err(("order", format!("stripe {s} of repetition {rep} goes backwards on disk {d}: {o} after {p}"))); } } last[d as usize] = Some(o); }
    }
    if used.iter().any(|u| *u == 0) { return Err(("hole", "an offset of the repetition holds no chunk".into())); }
    if par.iter().any(|p| *p != par[0]) { return Err(("balance", format!("parity chunks per disk {par:?}"))); }
    Ok(stripes * k as u64)
}

/// A window of stripes of a large layout
fn window(l: &PrimeS, n: i16, k: i16, f: i16, s0: u64, ns: u64) -> Result<u64, (&'static str, String)> {
    let m = k - f;
    let depth = k as u64 * (n as u64 - 1); let stripes = n as u64 * (n as u64 - 1);
    let mut last: Vec<Option<u64>> = vec![None; n as usize];
    for s in s0..s0 + ns {
        let mut disks = vec![false; n as usize];
        for id in stripe_ids(m, f, s) {
            let loc = l.id2loc(id);
            if loc.disk < 0 || loc.disk >= n { return Err(("disk", format!("{id:?} is on disk {}", loc.disk))); }
            if std::mem::replace(&mut disks[loc.disk as usize], true) { return Err(("same-disk", format!("two chunks of the stripe of {id:?} are on disk {}", loc.disk))); }
            if loc.offset / depth != s / stripes { return Err(("range", format!("{id:?} at offset {} is outside repetition {}", loc.offset, s / stripes))); }
            // offsets on a disk are dense and ascending: the next chunk there is at the next offset
            if let Some(p) = last[loc.disk as usize] { if loc.offset != p + 1 { return Err(("order", format!("{id:?} is at offset {} of disk {}, after {p}", loc.offset, loc.disk))); } }
            last[loc.disk as usize] = Some(loc.offset);
        }
    }
    Ok(ns * k as u64)
}

pub fn layout() {
    let mut c = Check::new("C04", "exhaustive-small+random", "distinct layouts (disks, stripe width, redundancy, repetition or stripe window) whose every chunk was located and accounted for");
    c.assume("disk counts: the primes up to 211 that the layout accepts");
    let run = |c: &mut Check, n: i16, k: i16, f: i16, what: &str, g: &mut dyn FnMut(&PrimeS) -> Result<u64, (&'static str, String)>| {
        match guard(|| { let l = PrimeS::new(n, k, f); g(&l) }) {
            Ok(Ok(x)) => { c.evals(x); c.distinct(hash(&(n, k, f, what))); c.count(what.split(' ').next().unwrap(), 1); }
            Ok(Err((key, e))) => c.violation(key, &json!({"disks": n, "stripe": k, "redundancy": f, "where": what, "what": e})),
            Err(e) => c.violation("panic", &json!({"disks": n, "stripe": k, "redundancy": f, "where": what, "panic": e})),
        }
    };
    for (n, k, f) in all_small(&c) { for rep in [0u64, 1, 5] { run(&mut c, n, k, f, &format!("repetition {rep}"), &mut |l| whole(l, n, k, f, rep)); } }
    c.sample(json!({"disks": 7, "stripe": 5, "redundancy": 2, "repetition": 0}));
    // whole repetitions of big ones
    for (n, k, f) in [(41, 24, 4), (31, 20, 3), (101, 10, 2), (23, 23, 5), (191, 6, 2), (211, 12, 2), (199, 30, 3)] { if c.frac_left(0.5) { run(&mut c, n, k, f, "repetition 0", &mut |l| whole(l, n, k, f, 0)); } }
    // every number of disks: a prime must be accepted, and whatever else is accepted must be laid out correctly too
    for n in 2..=215i16 {
        let prime = PRIMES.contains(&n);
        let k = if n % 2 == 0 { n.min(4) } else { n.min(6) }.max(2);
        for f in [1, k - 1] {
            match guard(|| PrimeS::new(n, k, f)) {
                Ok(l) => run(&mut c, n, k, f, "constructor", &mut |_| if n <= 60 { whole(&l, n, k, f, 0) } else if prime { window(&l, n, k, f, n as u64 - 1, 2 * n as u64) } else { whole(&l, n, k, f, 0) }),
                Err(e) => if prime { c.violation("refused", &json!({"disks": n, "stripe": k, "redundancy": f, "panic": e})); } else { c.count("refused", 1); },
            }
        }
    }
    let mut i = 0;
    while c.time_left() && i < c.n(1500, 40000) {
        let mut rng = Rng::case(c.seed, 40_000 + i); i += 1;
        let (n, k, f) = random_large(&mut rng);
        let per = n as u64 * (n as u64 - 1);
        let s0 = match rng.below(5) { 0 => per - rng.below(per.min(20)), 1 => { let bits = rng.range(1, 34); per * rng.below(1 << bits) + per - 1 - rng.below(per.min(9)) } 2 => (n as u64) * rng.range(1, n as u64) - rng.below(n as u64), 3 => rng.below(per), _ => { let bits = rng.range(10, 48); rng.below(1 << bits) } };
        run(&mut c, n, k, f, &format!("window {s0}"), &mut |l| window(l, n, k, f, s0, 3 * n as u64));
    }
    c.finish()
}

pub fn translate() {
    let mut c = Check::new("C05", "exhaustive-small+random", "distinct (layout, address range) pairs in which iteration, forward and inverse translation were compared");
    let same = |l: &PrimeS, start: ChunkId, len: usize, m: i16, f: i16, per_disk_inverse: bool| -> Result<u64, (&'static str, String)> {
        // what must come, by the definition of a stripe
        let mut want = start;
        let mut n = 0u64;
        let next = |id: ChunkId| match id {
            ChunkId::Data(i) => if (i + 1) % m as u64 == 0 { ChunkId::Parity(i + 1 - m as u64, 0) } else { ChunkId::Data(i + 1) },
            ChunkId::Parity(a, i) => if i + 1 < f { ChunkId::Parity(a, i + 1) } else { ChunkId::Data(a + m as u64) },
        };
        let mut end = start;
        for _ in 0..len { end = next(end); }
        let mut it = l.iter(start, end);
        while want != end {
            let Some((id, loc)) = it.next() else { return Err(("iter", format!("iteration from {start:?} to {end:?} ends before {want:?}"))) };
            if id != want { return Err(("iter", format!("iteration from {start:?} to {end:?} gives {id:?} for {want:?}"))); }
            let direct = l.id2loc(id);
            if loc != direct { return Err(("iter", format!("iteration from {start:?} puts {id:?} at {loc:?}, translation at {direct:?}"))); }
            if per_disk_inverse { let back = l.loc2id(loc.clone()); if back != id { return Err(("inverse", format!("{id:?} is at {loc:?}, where the inverse finds {back:?}"))); } }
            n += 1;
            want = next(want);
        }
        if let Some(x) = it.next() { return Err(("iter", format!("iteration from {start:?} to {end:?} goes on with {x:?}"))); }
        if it.next().is_some() { return Err(("iter", "iteration resumes after its end".into())); }
        Ok(n)
    };
    let mut small = all_small(&c);
    let mut i = 0u64;
    while c.time_left() && i < small.len() as u64 + c.n(15000, 300000) {
        let mut rng = Rng::case(c.seed, 50_000 + i);
        let (n, k, f) = if (i as usize) < small.len() { small[i as usize] } else { random_large(&mut rng) };
        let first = (i as usize) < small.len();
        i += 1;
        let m = k - f; let per = n as u64 * (n as u64 - 1) * m as u64; let depth = k as u64 * (n as u64 - 1);
        let r = guard(|| {
            let l = PrimeS::new(n, k, f);
            let mut tot = 0;
            if first {
                tot += same(&l, ChunkId::Data(0), (2 * n as u64 * (n as u64 - 1) * k as u64) as usize + 3, m, f, true)?;
                // every location of two repetitions
                for disk in 0..n { for o in 0..2 * depth { let id = l.loc2id(Chunkloc::new(disk, o)); let loc = l.id2loc(id); if loc != Chunkloc::new(disk, o) { return Err(("inverse", format!("disk {disk} offset {o} holds {id:?}, which is translated to {loc:?}"))); } tot += 1; } }
            }
            for _ in 0..(if first { 12 } else { 3 }) {
                let a = match rng.below(5) { 0 => per - rng.below(per.min(30)), 1 => { let bits = rng.range(1, 28); per * rng.below(1 << bits) + per - 1 - rng.below(per.min(40)) } 2 => { let it = (m as u64) * (n as u64); it * rng.range(1, n as u64) - rng.below(it.min(20)) } 3 => rng.below(per), _ => { let bits = rng.range(10, 50); rng.below(1 << bits) } };
                let start = if rng.chance(1, 3) { ChunkId::Parity(a - a % m as u64, rng.below(f as u64) as i16) } else { ChunkId::Data(a) };
                let len = if first { rng.usize(90) } else { rng.usize(3 * k as usize + 4) };
                tot += same(&l, start, len, m, f, true)?;
                let (disk, o) = (rng.below(n as u64) as i16, match rng.below(3) { 0 => rng.below(depth), 1 => { let bits = rng.range(10, 49); rng.below(1 << bits) } _ => depth * rng.range(1, 1 << 16) - rng.below(2) });
                let id = l.loc2id(Chunkloc::new(disk, o)); let loc = l.id2loc(id);
                if loc != Chunkloc::new(disk, o) { return Err(("inverse", format!("disk {disk} offset {o} holds {id:?}, which is translated to {loc:?}"))); }
            }
            // a long iteration across several iterations and the end of a repetition
            if !first && (n <= 53 || i % 8 == 0) {
                let it = m as u64 * n as u64;
                let a = per * rng.range(1, 1 << 16) - rng.below(2 * it);
                tot += same(&l, ChunkId::Data(a), (4 * it).min(6000) as usize, m, f, false)?;
            }
            Ok(tot)
        });
        match r {
            Ok(Ok(t)) => { c.evals(t); c.distinct(hash(&(n, k, f, i))); c.count(if first { "whole_layouts" } else { "sampled_layouts" }, 1); if c.wants_sample() && i > 20 { c.sample(json!({"disks": n, "stripe": k, "redundancy": f, "chunks": t})); } }
            Ok(Err((key, e))) => c.violation(key, &json!({"disks": n, "stripe": k, "redundancy": f, "case": i, "what": e})),
            Err(e) => c.violation("panic", &json!({"disks": n, "stripe": k, "redundancy": f, "case": i, "panic": e})),
        }
    }
    small.clear();
    c.finish()
}
