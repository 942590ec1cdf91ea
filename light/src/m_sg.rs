//! Scatter-gather lists: whatever way a buffer is cut up, no byte is lost, changed, repeated or reordered.
use crate::raid::sgcursor::SGCursor;
use crate::types::{IoVec, SGList};
use crate::util::*;
use divbuf::DivBufShared;
use mon::*;
use serde_json::json;
use std::hash::Hasher;
use std::ops::Bound;

fn split(rng: &mut Rng, lens: &[usize]) -> (Vec<u8>, SGList, Vec<DivBufShared>) {
    let mut all = vec![]; let mut sg = vec![]; let mut keep = vec![];
    for n in lens {
        let lead = rng.usize(7);
        let dbs = DivBufShared::from({ let mut v = rng.bytes(lead + n + 5); if rng.chance(1, 9) { v.fill(0); } v });
        let d = dbs.try_const().unwrap().slice(lead, lead + n);
        all.extend_from_slice(&d[..]); sg.push(d); keep.push(dbs);
    }
    (all, sg, keep)
}
fn flat(sg: &[IoVec]) -> Vec<u8> { let mut v = vec![]; for b in sg { v.extend_from_slice(&b[..]); } v }
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { hash(&self.0) } }

pub fn cursor() {
    let mut c = Check::new("C06", "random", "distinct (segment lengths, request sizes) histories of a cursor over a scatter-gather list");
    let n = c.n(150_000, 3_000_000);
    let mut i = 0;
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, i); i += 1;
        let ns = match rng.below(5) { 0 => 1, 1 => rng.range(1, 3), _ if rng.chance(1, 100) => rng.range(13, 300), _ => rng.range(1, 12) } as usize;
        let scale = *rng.pick(&[3u64, 20, 300, 5000]);
        let lens: Vec<usize> = (0..ns).map(|_| if rng.chance(1, 10) { 0 } else { rng.range(1, scale) as usize }).collect();
        let (all, sg, _keep) = split(&mut rng, &lens);
        let mode = rng.below(5);
        let mut asked = vec![];
        // where the segments end
        let mut ends = vec![0usize]; for l in &lens { let e = ends.last().unwrap() + l; ends.push(e); }
        let r = guard(|| -> Result<u64, (&'static str, String)> {
            let mut cur = SGCursor::from(&sg);
            let mut at = 0usize; let mut steps = 0;
            loop {
                let max = match mode { 0 => usize::MAX, 1 => 1, 2 => rng.range(1, scale) as usize, 3 => cur.peek_len().max(1), _ => rng.range(1, 7) as usize };
                asked.push(max);
                let peek = cur.peek_len();
                let got = cur.next(max);
                if at == all.len() {
                    if got.is_some() || peek != 0 { return Err(("past-end", format!("at the end, peek_len {peek} and next gives {:?} bytes", got.map(|g| g.len())))); }
                    if cur.next(max).is_some() || cur.peek_len() != 0 { return Err(("past-end", "resumes after the end".into())); }
                    return Ok(steps);
                }
                let Some(got) = got else { return Err(("lost", format!("ends after {at} of {} bytes", all.len()))) };
                // what contiguous piece is left here?
                let left = ends.iter().find(|e| **e > at).unwrap() - at;
                if peek != left { return Err(("peek", format!("at {at}, peek_len is {peek}; the contiguous piece is {left} bytes"))); }
                if got.len() != left.min(max) { return Err(("length", format!("at {at}, asked for {max} of a piece of {left}, got {}", got.len()))); }
                if got[..] != all[at..at + got.len()] { return Err(("content", format!("bytes at {at} are {} and not {}", hex(&got), hex(&all[at..at + got.len()])))); }
                at += got.len(); steps += 1;
                if steps > all.len() as u64 + 1 { return Err(("endless", "never ends".into())); }
            }
        });
        c.eval(); c.distinct(hash(&(&lens, mode, i % 4096)));
        if lens.contains(&0) { c.count("lists_with_empty_segments", 1); }
        if c.wants_sample() { c.sample(json!({"segments": lens, "mode": mode})); }
        match r { Ok(Ok(s)) => c.count("pieces", s), Ok(Err((k, e))) => c.violation(k, &json!({"segments": lens, "asked": asked, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"segments": lens, "asked": asked, "case": i, "panic": e})) }
    }
    c.finish()
}

pub fn pad() {
    let mut c = Check::new("C07", "random", "distinct scatter-gather shapes that were padded, measured and checksummed, plus distinct range bound pairs");
    let n = c.n(150_000, 3_000_000);
    let mut i = 0;
    while i < n && c.frac_left(0.9) {
        let mut rng = Rng::case(c.seed, 90_000_000 + i); i += 1;
        let ns = if rng.chance(1, 200) { rng.range(8, 120) } else { rng.range(0, 7) } as usize;
        let style = rng.below(5);
        let lens: Vec<usize> = (0..ns).map(|_| match style {
            0 => 4096 * rng.range(0, 3) as usize,
            1 => rng.range(0, 4096) as usize,
            2 => rng.range(0, 13000) as usize,
            3 => *rng.pick(&[0usize, 1, 4095, 4096, 4097, 8191, 8192, 2048, 1024, 12288]),
            _ => if rng.chance(1, 2) { 4096 * rng.range(1, 2) as usize } else { rng.range(1, 4095) as usize },
        }).collect();
        let (all, sg, keep) = split(&mut rng, &lens);
        let before: Vec<Vec<u8>> = sg.iter().map(|s| s[..].to_vec()).collect();
        let r = guard(|| -> Result<(), (&'static str, String)> {
            if sglist_len(&sg) != all.len() { return Err(("length", format!("sglist_len is {} of {} bytes", sglist_len(&sg), all.len()))); }
            let mut h = Rec(vec![]); checksum_sglist(&sg, &mut h);
            if h.0 != all { return Err(("checksum", "the checksum of a list is not over its bytes in order".into())); }
            let mut h1 = metrohash::MetroHash64::new(); checksum_sglist(&sg, &mut h1);
            let mut h2 = metrohash::MetroHash64::new(); checksum_iovec(&all, &mut h2);
            if h1.finish() != h2.finish() { return Err(("checksum", "a list and the same bytes in one piece have different checksums".into())); }
            let copies = sg.clone();
            let out = copy_and_pad_sglist(sg.clone());
            if let Some(b) = out.iter().find(|b| b.len() % BYTES_PER_LBA != 0) { return Err(("block", format!("a padded buffer is {} bytes", b.len()))); }
            let f = flat(&out);
            let want = all.len().div_ceil(BYTES_PER_LBA) * BYTES_PER_LBA;
            if f.len() != want { return Err(("padded-length", format!("{} bytes were padded to {} and not {want}", all.len(), f.len()))); }
            if f[..all.len()] != all[..] { let p = f.iter().zip(&all).position(|(a, b)| a != b).unwrap(); return Err(("content", format!("byte {p} of the padded list is changed"))); }
            if f[all.len()..].iter().any(|x| *x != 0) { return Err(("padding", "the padding is not zero".into())); }
            for (a, b) in copies.iter().zip(&before) { if a[..] != b[..] { return Err(("source", "padding changed the source buffers".into())); } }
            Ok(())
        });
        c.eval(); c.distinct(hash(&lens)); if lens.iter().any(|l| l % 4096 != 0) { c.count("lists_that_needed_padding", 1); }
        if c.wants_sample() && ns > 2 { c.sample(json!({"segments": lens})); }
        match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"segments": lens, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"segments": lens, "case": i, "panic": e})) }
        drop(keep);
    }
    // zero lists
    for j in 0..c.n(3000, 20000) {
        let mut rng = Rng::case(c.seed, 95_000_000 + j);
        let len = match rng.below(4) { _ if j % 300 == 7 => ((64 * ZERO_REGION_LEN) * rng.range(1, 8) as usize + rng.usize(3)).saturating_sub(rng.usize(2)), 0 => ZERO_REGION_LEN * rng.usize(6), 1 => rng.usize(2 * ZERO_REGION_LEN), 2 => (ZERO_REGION_LEN * rng.range(1, 9) as usize + 1).saturating_sub(rng.usize(3)), _ => rng.usize(300_000) };
        match guard(|| { let z = zero_sglist(len); (sglist_len(&z), z.iter().all(|b| b.iter().all(|x| *x == 0))) }) {
            Ok((l, zero)) => { c.eval(); c.distinct(hash(&("zero", len))); c.count("zero_lists", 1); if l != len || !zero { c.violation("zero", &json!({"asked": len, "got": l, "all_zero": zero})); } }
            Err(e) => c.violation("zero-panic", &json!({"len": len, "panic": e})),
        }
    }
    // emptiness of a range, against the definition: no value lies in it
    let bounds = |v: i64| [Bound::Included(v), Bound::Excluded(v), Bound::Unbounded];
    for s in -3i64..4 { for e in -3i64..4 { for a in bounds(s) { for b in bounds(e) {
        let r = (a, b);
        let lib = RangeBoundsExt::is_empty(&r);
        // over a dense order (reals, keys with offsets between integers): decided on halves
        let holds = |x: f64| (match a { Bound::Included(s) => x >= s as f64, Bound::Excluded(s) => x > s as f64, _ => true }) && (match b { Bound::Included(e) => x <= e as f64, Bound::Excluded(e) => x < e as f64, _ => true });
        let dense_empty = !(-20..=20).any(|q| holds(q as f64 / 2.0));
        c.eval(); c.distinct(hash(&("range", format!("{r:?}")))); c.count("ranges", 1);
        if lib && !dense_empty { c.violation("range-not-empty", &json!({"range": format!("{r:?}"), "what": "called empty, though values lie in it"})); }
        if !lib && dense_empty { c.violation("range-empty", &json!({"range": format!("{r:?}"), "what": "called non-empty, though no value can lie in it"})); }
    } } } }
    c.finish()
}
