//! The erasure code: every pattern of at most f lost columns is recoverable, however the parity was made.
use crate::raid::codec::Codec;
use crate::types::SGList;
use divbuf::DivBufShared;
use fixedbitset::FixedBitSet;
use mon::*;
use serde_json::json;

const CANARY: u8 = 0xc5;
/// A column with canaries around it, at a chosen misalignment
pub struct Col { v: Vec<u8>, pre: usize, len: usize }
impl Col {
    pub fn new(len: usize, pre: usize, fill: u8) -> Col { let mut v = vec![CANARY; pre + len + 64]; v[pre..pre + len].fill(fill); Col { v, pre, len } }
    pub fn data(&self) -> &[u8] { &self.v[self.pre..self.pre + self.len] }
    pub fn data_mut(&mut self) -> &mut [u8] { let (p, l) = (self.pre, self.len); &mut self.v[p..p + l] }
    pub fn ptr(&self) -> *const u8 { self.data().as_ptr() }
    pub fn mptr(&mut self) -> *mut u8 { self.data_mut().as_mut_ptr() }
    pub fn intact(&self) -> bool { self.v[..self.pre].iter().all(|x| *x == CANARY) && self.v[self.pre + self.len..].iter().all(|x| *x == CANARY) }
}
fn cols(rng: &mut Rng, n: usize, len: usize, random: bool, misalign: bool) -> Vec<Col> {
    (0..n).map(|_| {
        let mut c = Col::new(len, 64 + if misalign { rng.usize(33) } else { 0 }, 0x5a);
        if random { match rng.below(8) { 0 => c.data_mut().fill(0), 1 => c.data_mut().fill(0xff), _ => rng.fill(c.data_mut()) } }
        c
    }).collect()
}
fn ptrs(c: &[Col]) -> Vec<*const u8> { c.iter().map(|c| c.ptr()).collect() }
fn mptrs(c: &mut [Col]) -> Vec<*mut u8> { c.iter_mut().map(|c| c.mptr()).collect() }

/// Multiplication in GF(2^8) by shifting, independent of any table
fn gf_mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a; } let c = a & 0x80 != 0; a <<= 1; if c { a ^= 0x1d; } b >>= 1; } r }

struct Stripe { k: usize, f: usize, len: usize, data: Vec<Col>, parity: Vec<Col> }
impl Stripe {
    fn new(codec: &Codec, k: usize, f: usize, len: usize, rng: &mut Rng, misalign: bool) -> Stripe {
        let data = cols(rng, k, len, true, misalign);
        let mut parity = cols(rng, f, len, false, misalign);
        unsafe { codec.encode(len, &ptrs(&data), &mut mptrs(&mut parity)); }
        Stripe { k, f, len, data, parity }
    }
    fn col(&self, i: usize) -> &Col { if i < self.k { &self.data[i] } else { &self.parity[i - self.k] } }
    /// Lose these columns (sorted); get the data columns back and compare
    fn lose(&self, codec: &Codec, lost: &[usize], rng: &mut Rng) -> Result<(), String> {
        let (k, f, len) = (self.k, self.f, self.len);
        let lost_data: Vec<usize> = lost.iter().copied().filter(|i| *i < k).collect();
        let mut bits = FixedBitSet::with_capacity(k + f);
        for i in lost { bits.insert(*i); }
        let surviving: Vec<*const u8> = (0..k + f).filter(|i| !lost.contains(i)).take(k).map(|i| self.col(i).ptr()).collect();
        let mut missing: Vec<Col> = lost_data.iter().map(|_| Col::new(len, 64 + rng.usize(17), 0xdb)).collect();
        unsafe { codec.decode(len, &surviving, &mut mptrs(&mut missing), &bits); }
        for (m, i) in missing.iter().zip(&lost_data) {
            if m.data() != self.data[*i].data() { return Err(format!("column {i} was not reconstructed: {} instead of {}", hex(m.data()), hex(self.data[*i].data()))); }
            if !m.intact() { return Err(format!("reconstruction of column {i} wrote outside its buffer")); }
        }
        Ok(())
    }
}
/// Every subset of 0..m of size j, or `limit` random ones when there are more
fn subsets(m: usize, j: usize, limit: usize, rng: &mut Rng, f: &mut dyn FnMut(&[usize], &mut Rng) -> bool) {
    let mut c: f64 = 1.0;
    for i in 0..j { c = c * (m - i) as f64 / (i + 1) as f64; }
    if c <= limit as f64 {
        let mut s: Vec<usize> = (0..j).collect();
        loop {
            if !f(&s, rng) { return; }
            let Some(i) = (0..j).rev().find(|i| s[*i] != i + m - j) else { return };
            s[i] += 1;
            for q in i + 1..j { s[q] = s[q - 1] + 1; }
        }
    }
    for t in 0..limit {
        let mut all: Vec<usize> = (0..m).collect();
        // some biased towards data columns and towards bursts
        let mut s: Vec<usize> = match t % 4 {
            0 if j <= m => { let b = rng.usize(m - j + 1); (b..b + j).collect() }
            1 => { rng.shuffle(&mut all); let mut s: Vec<usize> = all.iter().copied().filter(|i| *i < m - (j.min(m / 2))).take(j).collect(); if s.len() < j { s = all[..j].to_vec(); } s }
            _ => { rng.shuffle(&mut all); all[..j].to_vec() }
        };
        s.sort();
        if !f(&s, rng) { return; }
    }
}

pub fn recover() {
    let mut c = Check::new("C01", "exhaustive-small+random", "distinct (columns, redundancy, erasure pattern) triples whose lost data columns were reconstructed and compared byte for byte");
    c.assume("column counts up to 255 as documented; erasures beyond the redundancy are out of scope");
    let seed = c.seed;
    let mut rng = Rng::case(seed, 1);
    // (k, f) in order of size, every other one drawn from the whole range instead
    let mut shapes: Vec<(usize, usize)> = vec![];
    for m in 2..=(if c.thorough() { 40 } else { 26 }) { for f in 1..m.min(9) { shapes.push((m - f, f)); } }
    let small = shapes.len();
    for f in 1..=4 { for k in [29, 31, 37, 64, 100, 127, 128, 200, 250, 255 - f] { if k + f <= 255 { shapes.push((k, f)); } } }
    let fixed = shapes.len();
    let mut i = 0; let mut turn = 0;
    while c.time_left() && (c.thorough() || i < fixed) {
        turn += 1;
        let wide = turn % 3 == 0;
        let (k, f) = if i < fixed && !wide { i += 1; shapes[i - 1] } else {
            let m = rng.range(2, if rng.chance(1, 3) { 60 } else { 255 }) as usize;
            let f = rng.range(1, (m as u64 - 1).min(if rng.chance(1, 2) { 40 } else { 5 })) as usize; (m - f, f)
        };
        let r = guard(|| Codec::new((k + f) as u32, f as u32));
        let codec = match r { Ok(x) => x, Err(e) => { c.violation("panic", &json!({"what": "Codec::new", "k": k, "f": f, "panic": e})); continue } };
        if codec.protection() != f as i16 || codec.stripesize() != (k + f) as i16 { c.violation("shape", &json!({"k": k, "f": f})); }
        let nlens = if k + f <= 12 && !wide { 3 } else { 1 };
        for li in 0..nlens {
            let len = match (turn + li) % 7 { 0 => 1, 1 => 64, 2 => rng.range(2, 63) as usize, 3 => 512, 4 => rng.range(65, 400) as usize, 5 => 4096, _ => 128 };
            let len = if k > 40 { len.min(130) } else { len };
            let st = match guard(|| Stripe::new(&codec, k, f, len, &mut rng.clone(), rng.chance(1, 2))) { Ok(s) => s, Err(e) => { c.violation("panic", &json!({"what": "encode", "k": k, "f": f, "panic": e})); continue } };
            rng.next();
            if st.parity.iter().any(|p| !p.intact()) { c.violation("overrun", &json!({"what": "encode wrote outside the parity columns", "k": k, "f": f, "len": len})); }
            let limit = if i <= small && !wide { if c.thorough() { 20000 } else { 700 } } else { (1500 / k).clamp(2, 60) };
            for j in 1..=f {
                if wide && j != f && !rng.chance(2, f as u64) { continue; }
                let mut bad = None;
                let mut n = 0u64;
                let mut pats = vec![];
                subsets(k + f, j, limit, &mut rng, &mut |s, rng| {
                    if s[0] >= k { return true; } // nothing but parity lost: nothing to decode
                    n += 1;
                    pats.push(hash(&(k, f, s)));
                    match guard(|| st.lose(&codec, s, rng)) {
                        Ok(Ok(())) => true,
                        Ok(Err(e)) => { bad = Some(("recover", s.to_vec(), e)); false }
                        Err(e) => { bad = Some(("panic", s.to_vec(), e)); false }
                    }
                });
                c.evals(n); c.count(&format!("patterns_losing_{}", if j > 8 { "9_or_more".into() } else if j > 4 { "5_to_8".into() } else { j.to_string() }), n);
                for p in pats { c.distinct(p); }
                if let Some((key, s, e)) = bad { c.violation(key, &json!({"k": k, "f": f, "len": len, "lost": s, "what": e})); }
            }
            if c.wants_sample() && f > 1 { c.sample(json!({"k": k, "f": f, "len": len, "lost": "all patterns"})); }
        }
        c.count("array_shapes", 1);
        if !c.time_left() { break; }
    }
    // One codec, many threads
    let codec = std::sync::Arc::new(Codec::new(9, 3));
    let hs: Vec<_> = (0..8).map(|t| { let codec = codec.clone(); std::thread::spawn(move || {
        let mut rng = Rng::case(seed, 1000 + t);
        for _ in 0..300 {
            let st = Stripe::new(&codec, 6, 3, 256, &mut rng, true);
            let mut all: Vec<usize> = (0..9).collect(); rng.shuffle(&mut all);
            let mut s = all[..3].to_vec(); s.sort();
            if s[0] < 6 { st.lose(&codec, &s, &mut rng)?; }
        }
        Ok::<(), String>(())
    }) }).collect();
    for h in hs {
        c.count("shared_codec_stripes", 300); c.evals(300);
        match h.join() { Ok(Ok(())) => (), Ok(Err(e)) => c.violation("shared", &json!({"what": e})), Err(_) => c.violation("panic", &json!({"what": "panic in a thread sharing a codec"})) }
    }
    c.finish()
}

/// Cut a column into an SG list at random places
fn scatter(rng: &mut Rng, b: &[u8], style: u64) -> (SGList, Vec<DivBufShared>) {
    let mut out = vec![]; let mut keep = vec![]; let mut o = 0;
    while o < b.len() {
        let left = b.len() - o;
        let n = match style { 0 => left, 1 => 1, 2 => rng.range(1, left as u64) as usize, 5 => (rng.range(1, 20_000) as usize).min(left), _ => (rng.range(1, 40) as usize).min(left) };
        let lead = rng.usize(5);
        let mut v = vec![CANARY; lead]; v.extend(&b[o..o + n]); v.extend([CANARY; 3]);
        let dbs = DivBufShared::from(v);
        out.push(dbs.try_const().unwrap().slice(lead, lead + n));
        keep.push(dbs);
        if rng.chance(1, 12) { let z = DivBufShared::from(vec![]); out.push(z.try_const().unwrap()); keep.push(z); }
        o += n;
    }
    (out, keep)
}

/// The field of 256 elements modulo x^8+x^4+x^3+x^2+1
fn gf_inv(a: u8) -> u8 { let mut r = 1; for _ in 0..254 { r = gf_mul(r, a); } r }

pub fn parity() {
    let mut c = Check::new("C02", "random", "distinct (shape, length, segmentation/update order) cases in which the parity computed another way was compared with the parity of the contiguous columns");
    let n = c.n(6000, 200000);
    let mut i = 0;
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, i); i += 1;
        let f = rng.range(1, 6) as usize;
        let k = match rng.below(6) { 0 => 1, 1 => rng.range(1, 250 - f as u64) as usize, _ => rng.range(1, 20) as usize };
        let len = match rng.below(6) { 0 => rng.range(1, 40) as usize, 1 => 64 * rng.range(1, 8) as usize, 2 => 4096, _ => rng.range(1, 700) as usize };
        // now and then what the chunks of a real array hold, and more
        let large = rng.chance(1, 60);
        let (k, len) = if large { (k.min(6), if rng.chance(1, 8) { 1 << 20 } else { 0 } + rng.range(1, 300_000) as usize) } else { (k, len) };
        let len = if k > 30 { len.min(300) } else { len };
        let style = if large { *rng.pick(&[0, 2, 2, 5]) } else { rng.below(5) };
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let codec = Codec::new((k + f) as u32, f as u32);
            let st = Stripe::new(&codec, k, f, len, &mut rng, true);
            // 1: scattered input
            let (sgs, _keep): (Vec<_>, Vec<_>) = st.data.iter().map(|d| { let s = if style == 4 { rng.below(4) } else { style }; scatter(&mut rng, d.data(), s) }).unzip();
            let mut pv = cols(&mut rng, f, len, true, true);
            unsafe { codec.encodev(len, &sgs, &mut mptrs(&mut pv)); }
            for (a, b) in pv.iter().zip(&st.parity) {
                if a.data() != b.data() { return Err(("scattered", format!("parity of scattered columns {} is not that of contiguous ones {}", hex(a.data()), hex(b.data())))); }
                if !a.intact() { return Err(("overrun", "encodev wrote outside the parity columns".into())); }
            }
            // 2: one column at a time, in any order
            let mut pu = cols(&mut rng, f, len, false, true);
            for p in &mut pu { p.data_mut().fill(0); }
            let mut order: Vec<usize> = (0..k).collect(); rng.shuffle(&mut order);
            for d in &order { unsafe { codec.encode_update(len, st.data[*d].data(), &mut mptrs(&mut pu), *d as u32); } }
            for (a, b) in pu.iter().zip(&st.parity) {
                if a.data() != b.data() { return Err(("update", format!("parity built column by column in order {order:?} is {} and not {}", hex(a.data()), hex(b.data())))); }
                if !a.intact() { return Err(("overrun", "encode_update wrote outside the parity columns".into())); }
            }
            // 3: replacing one column by feeding in the difference
            let d = rng.usize(k);
            let newcol = rng.bytes(len);
            let diff: Vec<u8> = newcol.iter().zip(st.data[d].data()).map(|(a, b)| a ^ b).collect();
            unsafe { codec.encode_update(len, &diff, &mut mptrs(&mut pu), d as u32); }
            let mut st2 = st;
            st2.data[d].data_mut().copy_from_slice(&newcol);
            let dp = ptrs(&st2.data);
            unsafe { codec.encode(len, &dp, &mut mptrs(&mut st2.parity)); }
            for (a, b) in pu.iter().zip(&st2.parity) { if a.data() != b.data() { return Err(("difference", format!("after replacing column {d} the updated parity is {} and not {}", hex(a.data()), hex(b.data())))); } }
            // 4: the code itself, worked out without tables or ISA-L, so that what one version wrote another can rebuild
            for (r, p) in st2.parity.iter().enumerate() {
                let coef: Vec<u8> = (0..k).map(|j| if f == 1 { 1 } else { gf_inv((k + r) as u8 ^ j as u8) }).collect();
                for at in [0, len - 1, rng.usize(len), len.saturating_sub(rng.usize(40) + 1), rng.usize(len)] {
                    let want = (0..k).fold(0u8, |x, j| x ^ gf_mul(coef[j], st2.data[j].data()[at]));
                    if p.data()[at] != want { return Err(("code", format!("byte {at} of parity column {r} is {} and not {want}", p.data()[at]))); }
                }
            }
            // 5: the documented special case
            if f == 1 {
                let mut x = vec![0u8; len];
                for d in &st2.data { for (a, b) in x.iter_mut().zip(d.data()) { *a ^= b; } }
                if x != st2.parity[0].data() { return Err(("xor", "single parity is not the exclusive or of the data columns".into())); }
            }
            if st2.data.iter().any(|d| !d.intact()) { return Err(("overrun", "wrote around the data columns".into())); }
            Ok(())
        });
        c.eval(); c.distinct(hash(&(k, f, len, style)));
        c.count(["whole", "bytewise", "halving", "small", "mixed", "large"][style as usize], 1);
        if c.wants_sample() { c.sample(json!({"k": k, "f": f, "len": len, "segments": style})); }
        match r { Ok(Ok(())) => (), Ok(Err((key, e))) => c.violation(key, &json!({"k": k, "f": f, "len": len, "case": i, "what": e})), Err(e) => c.violation("panic", &json!({"k": k, "f": f, "len": len, "segments": style, "case": i, "panic": e})) }
    }
    c.finish()
}

extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; fn munmap(a: *mut u8, l: usize) -> i32; }
/// A buffer that ends (or begins) at an inaccessible page
struct Fenced { base: *mut u8, total: usize, p: *mut u8, len: usize }
/// ISA-L's gf_5vect_dot_prod_avx512_gfni reads (and ignores) 8 bytes at offset 40 of an output column, so outputs get
/// this much readable room, in which writes are seen.
const ROOM: usize = 64;
impl Fenced {
    fn new(len: usize, at_end: bool) -> Fenced { unsafe {
        let body = len.div_ceil(4096).max(1) * 4096; let total = body + 8192;
        let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
        assert!(base as isize != -1);
        assert_eq!(mprotect(base, 4096, 0), 0); assert_eq!(mprotect(base.add(4096 + body), 4096, 0), 0);
        Fenced { base, total, p: if at_end { base.add(4096 + body - len) } else { base.add(4096) }, len }
    } }
    fn output(len: usize, at_end: bool) -> Fenced { let mut f = Fenced::new(len + ROOM, at_end); f.len = len; unsafe { std::slice::from_raw_parts_mut(f.p, len + ROOM).fill(CANARY); } f }
    fn intact(&self) -> bool { unsafe { std::slice::from_raw_parts(self.p.add(self.len), ROOM).iter().all(|x| *x == CANARY) } }
    fn ro(&self) { unsafe { assert_eq!(mprotect(self.base.add(4096), self.total - 8192, 1), 0); } }
}
impl Drop for Fenced { fn drop(&mut self) { unsafe { munmap(self.base, self.total); } } }
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

/// What valgrind watches: tables and columns on the heap, at exact size
pub fn heap(seed: u64, n: u64) {
    let mut sum = 0u64;
    for i in 0..n {
        let mut rng = Rng::case(seed, 8_000_000 + i);
        let f = rng.range(1, 6) as usize; let k = rng.range(1, if i % 10 == 0 { 60 } else { 12 }) as usize; let len = if rng.chance(1, 2) { rng.range(1, 200) } else { 32 * rng.range(1, 20) } as usize;
        let codec = Codec::new((k + f) as u32, f as u32);
        let data: Vec<Box<[u8]>> = (0..k).map(|_| rng.bytes(len).into_boxed_slice()).collect();
        let mut par: Vec<Box<[u8]>> = (0..f).map(|_| vec![0u8; len].into_boxed_slice()).collect();
        let dp: Vec<*const u8> = data.iter().map(|d| d.as_ptr()).collect();
        let mut pp: Vec<*mut u8> = par.iter_mut().map(|d| d.as_mut_ptr()).collect();
        unsafe {
            for d in 0..k { codec.encode_update(len, &data[d], &mut pp, d as u32); }
            codec.encode(len, &dp, &mut pp);
            let (sgs, _keep): (Vec<_>, Vec<_>) = data.iter().map(|d| scatter(&mut rng, d, 2)).unzip();
            codec.encodev(len, &sgs, &mut pp);
            let j = rng.range(1, f as u64) as usize;
            let mut all: Vec<usize> = (0..k + f).collect(); rng.shuffle(&mut all); all.truncate(j);
            if all.iter().all(|x| *x >= k) { all[0] = rng.usize(k); }
            let mut bits = FixedBitSet::with_capacity(k + f); for x in &all { bits.insert(*x); }
            let s: Vec<*const u8> = (0..k + f).filter(|x| !bits.contains(*x)).take(k).map(|x| if x < k { dp[x] } else { pp[x - k] as *const u8 }).collect();
            let nd = (0..k).filter(|x| bits.contains(*x)).count();
            let mut out: Vec<Box<[u8]>> = (0..nd).map(|_| vec![0u8; len].into_boxed_slice()).collect();
            let mut op: Vec<*mut u8> = out.iter_mut().map(|d| d.as_mut_ptr()).collect();
            codec.decode(len, &s, &mut op, &bits);
            // a branch on every byte of every result, so that uninitialized ones are noticed
            for o in out.iter().chain(par.iter()) { for b in o.iter() { if *b & 1 == 1 { sum += 1; } } }
        }
    }
    println!("heap cases {n} odd bytes {sum}");
}

/// Run each codec operation on buffers fenced by inaccessible pages, inputs read-only, in a child process
pub fn fence() {
    let mut c = Check::new("C03", "random", "distinct (operation, shape, length, side of the fence) cases run on page-fenced buffers");
    c.assume("an access is seen if it leaves its page-fenced side; valgrind watches a sample at byte granularity");
    let n = c.n(2500, 60000);
    let mut i = 0;
    while i < n && c.time_left() {
        let mut rng = Rng::case(c.seed, 7_000_000 + i); i += 1;
        let f = rng.range(1, 5) as usize; let k = if rng.chance(1, 8) { rng.range(1, 200) } else { rng.range(1, 14) } as usize;
        let len = match rng.below(5) { 0 => rng.range(1, 70), 1 => rng.range(1, 40) * 32, 2 => 4096, 3 => 64 * rng.range(1, 20), _ => rng.range(1, 5000) } as usize;
        let at_end = rng.chance(2, 3); let op = rng.below(4);
        c.eval(); c.distinct(hash(&(op, k, f, len, at_end))); c.count(["encode", "decode", "encodev", "encode_update"][op as usize], 1);
        if c.wants_sample() { c.sample(json!({"op": op, "k": k, "f": f, "len": len, "at_end": at_end})); }
        unsafe {
            let only: Option<u64> = std::env::var("FENCE_CASE").ok().and_then(|s| s.parse().ok());
            if only.is_some_and(|o| o != i) { continue; }
            let pid = if only.is_some() { 0 } else { fork() };
            if pid == 0 {
                let r = guard(|| {
                    let codec = Codec::new((k + f) as u32, f as u32);
                    let data: Vec<Fenced> = (0..k).map(|_| Fenced::new(len, at_end)).collect();
                    for d in &data { rng.fill(std::slice::from_raw_parts_mut(d.p, len)); d.ro(); }
                    let par: Vec<Fenced> = (0..f).map(|_| Fenced::output(len, at_end)).collect();
                    let dp: Vec<*const u8> = data.iter().map(|d| d.p as *const u8).collect();
                    let mut pp: Vec<*mut u8> = par.iter().map(|d| d.p).collect();
                    match op {
                        0 => codec.encode(len, &dp, &mut pp),
                        1 => {
                            codec.encode(len, &dp, &mut pp);
                            for p in &par { p.ro(); }
                            let j = rng.range(1, f as u64) as usize;
                            let mut all: Vec<usize> = (0..k + f).collect(); rng.shuffle(&mut all); all.truncate(j);
                            if all.iter().all(|x| *x >= k) { all[0] = rng.usize(k); }
                            let mut bits = FixedBitSet::with_capacity(k + f); for x in &all { bits.insert(*x); }
                            let s: Vec<*const u8> = (0..k + f).filter(|x| !bits.contains(*x)).take(k).map(|x| if x < k { dp[x] } else { pp[x - k] as *const u8 }).collect();
                            let nd = (0..k).filter(|x| bits.contains(*x)).count();
                            let out: Vec<Fenced> = (0..nd).map(|_| Fenced::output(len, at_end)).collect();
                            let mut op: Vec<*mut u8> = out.iter().map(|d| d.p).collect();
                            codec.decode(len, &s, &mut op, &bits);
                            assert!(out.iter().all(|o| o.intact()), "wrote beyond a reconstructed column");
                        }
                        2 => {
                            let (sgs, _keep): (Vec<_>, Vec<_>) = data.iter().map(|d| scatter(&mut rng, std::slice::from_raw_parts(d.p, len), 2)).unzip();
                            codec.encodev(len, &sgs, &mut pp)
                        }
                        _ => { for d in 0..k { codec.encode_update(len, std::slice::from_raw_parts(data[d].p, len), &mut pp, d as u32); } }
                    }
                    assert!(par.iter().all(|o| o.intact()), "wrote beyond a parity column");
                });
                _exit(if r.is_ok() { 0 } else { 9 });
            }
            let mut st = 0; waitpid(pid, &mut st, 0);
            if st != 0 {
                let what = if st & 0x7f != 0 { format!("killed by signal {}", st & 0x7f) } else { format!("panicked ({})", st >> 8) };
                c.violation("out-of-bounds", &json!({"op": op, "k": k, "f": f, "len": len, "at_end": at_end, "case": i, "what": what}));
            }
        }
    }
    // The same under valgrind, which sees into ISA-L's assembly and at the exact ends of heap blocks
    if std::env::var_os("FENCE_CASE").is_none() {
        let n = c.n(150, 3000);
        let o = std::process::Command::new("valgrind").args(["--quiet", "--error-exitcode=99", "--leak-check=no"]).arg(std::env::current_exe().unwrap()).args(["heap", &c.seed.to_string(), &n.to_string()]).output();
        match o {
            Ok(o) => {
                let err = String::from_utf8_lossy(&o.stderr).to_string(); let out = String::from_utf8_lossy(&o.stdout).to_string();
                if o.status.code() == Some(0) && out.contains("heap cases") { c.evals(n); c.count("cases_under_valgrind", n); c.distinct(hash(&("valgrind", n))); }
                else if o.status.code() == Some(99) || err.contains("Invalid ") || err.contains("panic") { c.violation("valgrind", &json!({"exit": o.status.code(), "what": err.chars().take(3000).collect::<String>()})); }
                else { eprintln!("valgrind: {:?} {err}", o.status); c.assume("valgrind could not run here"); }
            }
            Err(e) => { eprintln!("valgrind: {e}"); c.assume("valgrind could not run here"); }
        }
    }
    c.finish()
}
