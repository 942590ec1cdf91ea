//! A pool that has lost more than its redundancy covers: what it still says must be true.
use crate::{env::*, m_fs::*};
use bfffs_core::{fs::*, fs_tree::ExtAttrNamespace};
use futures::{StreamExt, future::join_all};
use mon::{Check, Rng};
use serde_json::json;
use std::{collections::{BTreeMap, BTreeSet, VecDeque}, os::unix::{ffi::OsStrExt, fs::FileExt}, sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}}};
use tokio_file::monitor::{Action, Kind as K};

fn shape(r: &Rng) -> Shape {
    let (m, n, k, f, clusters) = *r.pick(&[(1, 1, 1, 0, 1), (1, 1, 1, 0, 1), (2, 1, 1, 0, 1), (3, 1, 1, 0, 1), (1, 1, 1, 0, 2), (1, 3, 3, 1, 1), (1, 5, 3, 1, 1), (1, 5, 4, 2, 1), (2, 3, 3, 1, 1), (1, 3, 2, 1, 2), (1, 7, 5, 3, 1)]);
    let cs = if n > 1 { Some(*r.pick(&[1u64, 2, 4, 7, 16])) } else { None };
    Shape { m, n, k, f, clusters, cs, zone: *r.pick(&[64u64, 128, 256]), fsize: 0 }.sized(*r.pick(&[16u64, 32]) << 20)
}
/// Errors by which a file system may say that it cannot read its disks
fn ioerr(e: i32) -> bool { [libc::EIO, libc::ENXIO, 97 /* EINTEGRITY on FreeBSD */, bfffs_core::Error::EINTEGRITY as i32].contains(&e) }
type Undo = Vec<(usize, u64, Vec<u8>, Vec<u8>)>;
struct Rot { c: Client, sick: Vec<Arc<Mutex<Vec<(u64, u64)>>>>, seen: BTreeSet<u64>, ok: u64, err: u64, kind: &'static str, at: Arc<Mutex<&'static str>> }
impl Rot {
    async fn new(seed: u64, o: Opts, at: Arc<Mutex<&'static str>>) -> R<Rot> {
        let c = Client::new(seed, o).await?;
        let max = c.o.jitter;
        let sick = c.disks.devs.iter().enumerate().map(|(i, d)| {
            let s = mon::mix(seed ^ (i as u64) << 32); let n = AtomicU64::new(0);
            let bad: Arc<Mutex<Vec<(u64, u64)>>> = Default::default(); let b = bad.clone();
            d.set_policy(move |op| {
                let d = (mon::mix(s.wrapping_add(n.fetch_add(1, Ordering::Relaxed))) % (max + 1)) as u32;
                if op.kind == K::Read && b.lock().unwrap().iter().any(|x| op.off < x.1 && op.off + op.len > x.0) { Action::Fail(5, d) } else { Action::Go(d) }
            });
            bad
        }).collect();
        Ok(Rot { c, sick, seen: Default::default(), ok: 0, err: 0, kind: "", at })
    }
    fn said(&mut self, what: &'static str, e: Option<i32>) {
        if std::env::var("MON_LOG").is_ok() { println!("  {what}: {e:?}"); }
        if e.is_some() { self.err += 1 } else { self.ok += 1 }
        *self.c.n.entry(if e.is_some() { "operations that reported damage" } else { "right answers on a damaged pool" }).or_default() += 1;
        let k = mon::hash(&(what, e, self.kind, self.c.o.shape.n, self.c.o.shape.m, self.c.o.shape.f)); self.seen.insert(k);
    }
    /// Damage what is stored from `from` on; what was there
    fn hurt(&mut self, from: u64) -> Undo {
        let n = self.c.disks.paths.len(); let size = self.c.o.shape.fsize;
        let mut ds: Vec<usize> = (0..n).collect(); self.c.r.shuffle(&mut ds);
        let all = self.c.r.chance(1, 2); ds.truncate(if all { n } else { 1 + self.c.r.usize(n) });
        let how = self.c.r.below(7); let dense = *self.c.r.pick(&[1u64, 1, 2, 4, 20, 100]);
        let mut undo: Undo = vec![];
        self.kind = ["zeroed", "random", "flipped", "misplaced", "stuck", "unreadable pages", "unreadable range"][how as usize];
        if how == 6 {
            for d in &ds { let a = if self.c.r.chance(1, 3) { from } else { from + self.c.r.below(size - from) }; let b = if self.c.r.chance(1, 2) { size } else { a + self.c.r.below(size - a) + 1 }; self.sick[*d].lock().unwrap().push((a, b)); }
        } else { for d in &ds {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&self.c.disks.paths[*d]).unwrap();
            let mut b = vec![0; 4096]; let mut o = from; let mut last = vec![0xdb; 4096];
            while o + 4096 <= size {
                f.read_exact_at(&mut b, o).unwrap();
                if b.iter().any(|x| *x != 0 && *x != 0xdb) {
                    if self.c.r.chance(1, dense) {
                        if how == 5 { self.sick[*d].lock().unwrap().push((o, o + 4096)); undo.push((*d, o, vec![], vec![])); }
                        else {
                            let mut n = b.clone();
                            // (never a page that bfffs may write there itself)
                            match how { 0 => { n.fill(0); self.c.r.fill(&mut n[4080..]); } 1 => self.c.r.fill(&mut n), 2 => { for _ in 0..1 + self.c.r.below(3) { let i = self.c.r.usize(4096); n[i] ^= 1 << self.c.r.below(8); } } 3 => n.copy_from_slice(&last), _ => { let i = 512 * self.c.r.usize(8); let (x, y) = (i, i + 512); let (a, z) = (n[x], n[y - 1]); n[x..y].fill(!a); n[y - 1] = !z; } }
                            if n != b { f.write_all_at(&n, o).unwrap(); undo.push((*d, o, b.clone(), n)); }
                        }
                    }
                    last = b.clone();
                }
                o += 4096;
            }
        } }
        self.c.note("damage", format!("{}: {} pages of disks {ds:?} of {}, from {from}", self.kind, undo.len(), self.c.o.shape.text()));
        undo
    }
    fn heal(&mut self, undo: Undo) {
        for s in &self.sick { s.lock().unwrap().clear(); }
        for (d, o, old, new) in undo {
            if new.is_empty() { continue; }
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&self.c.disks.paths[d]).unwrap(); let mut b = vec![0; 4096];
            f.read_exact_at(&mut b, o).unwrap(); if b == new { f.write_all_at(&old, o).unwrap(); }
        }
        self.c.note("heal", String::new());
    }
    /// One question; the answer must be right or an admission
    async fn peek(&mut self, i: u64) -> R<()> {
        self.c.area = "rot";
        let fs = self.c.fs(); let h = self.c.h(i); let node = self.c.m.nodes[&i].clone();
        macro_rules! io { ($what:expr, $e:expr) => {{ let e: i32 = $e; ensure!("rot", concat!($what, " on a damaged pool fails with an error that means something else"), ioerr(e), "errno {e} for inode {i}"); self.said($what, Some(e)); return Ok(()); }} }
        macro_rules! right { ($what:expr, $c:expr, $($f:tt)*) => { ensure!("rot", concat!($what, " on a damaged pool returns what is not so"), $c, $($f)*) } }
        match (self.c.r.below(9), &node.kind) {
            (0, _) => { match w!(self.c, fs.getattr(&h)) { Err(e) => io!("getattr", e), Ok(a) => {
                right!("getattr", a.ino == i && a.nlink == node.nlink && a.mode.file_type() == node.kind.mode() && a.mode.perm() == node.perm && (a.uid, a.gid) == (node.uid, node.gid) && a.flags == node.flags && (node.kind != Kind::Reg || a.size == node.data.size) && a.mtime == node.mt && a.ctime == node.ct && a.birthtime == node.bt, "inode {i}: {a:?}");
                self.said("getattr", None); } } }
            (1, _) => {
                let d = self.c.m.dirs().contains(&i).then_some(self.c.m.nodes[&i].parent);
                if node.dead { return Ok(()); }
                match w!(self.c, fs.ilookup(i)) { Err(e) => io!("ilookup", e), Ok(f) => { right!("ilookup", (f.ino(), f.parent()) == (i, d), "{f:?} for {i}"); self.said("ilookup", None); } }
            }
            (2, _) => {
                let k = node.x.keys().nth(self.c.r.usize(node.x.len().max(1))).cloned();
                let k = match k { Some(k) if self.c.r.chance(3, 4) => k, _ => (self.c.r.below(2) as u8, b"absent".to_vec()) };
                let n0 = if k.0 == 0 { ExtAttrNamespace::User } else { ExtAttrNamespace::System };
                match (w!(self.c, fs.getextattr(&h, n0, os(&k.1))), node.x.get(&k)) { (Err(libc::ENOATTR), None) => self.said("getextattr", None), (Err(e), _) => io!("getextattr", e), (Ok(g), w) => { right!("getextattr", w.map(|x| &x[..]) == Some(&g[..]), "{:?} of {i}", os(&k.1)); self.said("getextattr", None); } }
            }
            (3, _) => {
                match w!(self.c, fs.listextattr(&h, 64, move |b, x| { let n = x.name().as_bytes(); b.push(x.namespace() as u8); b.extend_from_slice(&(n.len() as u16).to_le_bytes()); b.extend_from_slice(n); })) { Err(e) => io!("listextattr", e), Ok(v) => {
                    let mut got: Vec<Name> = vec![]; let mut p = &v[..];
                    while !p.is_empty() { let n = u16::from_le_bytes([p[1], p[2]]) as usize; got.push(p[3..3 + n].to_vec()); p = &p[3 + n..]; }
                    let mut want: Vec<Name> = node.x.keys().map(|k| k.1.clone()).collect(); got.sort(); want.sort();
                    right!("listextattr", got == want, "inode {i}: {} instead of {} names", got.len(), want.len()); self.said("listextattr", None);
                } }
            }
            (_, Kind::Link(t)) => match w!(self.c, fs.readlink(&h)) { Err(e) => io!("readlink", e), Ok(l) => { right!("readlink", l.as_bytes() == &t[..], "inode {i}: {l:?}"); self.said("readlink", None); } },
            (4 | 5, Kind::Dir(e)) => {
                let some = e.iter().nth(self.c.r.usize(e.len().max(1))).map(|x| (x.0.clone(), *x.1));
                let (name, want) = match some { Some((n, x)) if self.c.r.chance(3, 4) => (n, Some(x)), _ => match self.c.fresh_name(i) { Some(n) => (n, None), None => return Ok(()) } };
                match (w!(self.c, fs.lookup(None, &h, os(&name))), want) { (Err(libc::ENOENT), None) => self.said("lookup", None), (Err(e), _) => io!("lookup", e), (Ok(f), w) => { right!("lookup", Some(f.ino()) == w, "{:?} in {i} is {f:?} instead of {w:?}", os(&name)); self.said("lookup", None); } }
            }
            (_, Kind::Dir(e)) => {
                let mut want: BTreeMap<Name, u64> = e.clone(); want.insert(b".".to_vec(), i); want.insert(b"..".to_vec(), node.parent);
                let mut got = BTreeMap::new();
                let v = w!(self.c, fs.readdir(&h, 0).take(10_000).collect::<Vec<_>>());
                let mut failed = None;
                for x in &v { match x {
                    Ok(e) => { let n: Name = e.d_name[..e.d_namlen as usize].iter().map(|c| *c as u8).collect(); right!("readdir", want.get(&n) == Some(&(e.d_fileno as u64)) && got.insert(n.clone(), ()).is_none(), "{:?} in {i}", os(&n)); }
                    Err(e) => failed = Some(*e) } }
                if let Some(e) = failed { io!("readdir", e); }
                right!("readdir", got.len() == want.len(), "{} instead of {} entries in {i}, without an error", got.len(), want.len()); self.said("readdir", None);
            }
            (4, Kind::Reg) => {
                let o = self.c.r.below(node.data.size + 2);
                match w!(self.c, fs.lseek(&h, o, SeekWhence::Data)) {
                    Err(e) if e == libc::ENXIO && !node.data.nonzero(o, node.data.size.max(o)) => self.said("lseek", None),
                    Err(e) => { ensure!("rot", "lseek on a damaged pool fails with an error that means something else", e != libc::ENXIO && ioerr(e), "errno {e} from {o} of {i}"); self.said("lseek", Some(e)); }
                    Ok(p) => { right!("lseek", p >= o && !node.data.nonzero(o, p), "{p} for data from {o} of {i}"); self.said("lseek", None); }
                }
            }
            (_, Kind::Reg) => {
                let rs = node.rs;
                // several at once, perhaps of the same records
                let mut q = vec![];
                for _ in 0..1 + self.c.r.usize(4) { q.push(if self.c.r.chance(1, 4) && node.data.size < 4 << 20 { (0, node.data.size + 7) } else { (self.c.r.below(node.data.size + rs), 1 + self.c.r.below(4 * rs)) }); }
                *self.at.lock().unwrap() = if self.c.o.atime { "atime" } else { "" };
                let rd = join_all(q.iter().map(|(o, n)| fs.read(&h, *o, *n as usize)));
                let res = w!(self.c, rd);
                *self.at.lock().unwrap() = "";
                for ((o, n), r) in q.iter().zip(res) { match r {
                    Err(e) => { ensure!("rot", "read on a damaged pool fails with an error that means something else", ioerr(e), "errno {e} for {n} at {o} of {i}"); self.said("read", Some(e)); }
                    Ok(sg) => { let mut got = vec![]; for b in sg.iter() { got.extend_from_slice(&b[..]); } let want = node.data.read(*o, *n); right!("read", got == want, "{n} at {o} of {i}: first difference at {:?}", got.iter().zip(&want).position(|x| x.0 != x.1)); self.said("read", None); }
                } }
            }
            _ => {}
        }
        Ok(())
    }
    async fn peeks(&mut self, n: usize) -> R<()> {
        let all: Vec<u64> = self.c.m.nodes.keys().copied().filter(|i| *i == 1 || self.c.fds.contains_key(i)).collect();
        for k in 0..n { let i = *self.c.r.pick(&all); self.peek(i).await?; if k % 16 == 15 { self.c.db().drop_cache(); } }
        Ok(())
    }
    /// The times a read changed, and it did if it failed or not
    async fn times(&mut self) -> R<()> {
        if !self.c.o.atime { return Ok(()); }
        let all: Vec<u64> = self.c.m.of(|n| n.kind == Kind::Reg);
        for i in all { if self.c.fds.contains_key(&i) { let a = w!(self.c, self.c.fs().getattr(&self.c.h(i))); if let Ok(a) = a { self.c.m.nodes.get_mut(&i).unwrap().at = a.atime; } } }
        Ok(())
    }
    async fn hold_all(&mut self) -> R<()> {
        let all: Vec<u64> = self.c.m.nodes.iter().filter(|n| !n.1.dead).map(|n| *n.0).collect();
        for i in all { if self.c.r.chance(7, 8) { self.c.hold(i).await?; } }
        Ok(())
    }
    /// While the pool is in use
    async fn live(&mut self) -> R<()> {
        self.hold_all().await?;
        self.c.settle().await?; w!(self.c, self.c.fs().sync()); w!(self.c, self.c.fs().sync());
        let from = self.c.o.shape.zone * 4096;
        let undo = self.hurt(from);
        self.c.db().drop_cache();
        let n = 10 + self.c.r.usize(50); self.peeks(n).await?;
        self.c.area = "rot";
        if self.c.r.chance(1, 4) { let x = w!(self.c, self.c.db().check()); self.said("check", if matches!(x, Ok(true)) { None } else { Some(1) }); }
        self.c.settle().await?;
        self.heal(undo);
        self.c.db().drop_cache();
        self.times().await?;
        self.c.everything().await.map_err(|b| (b.0, b.1, format!("after the damage is undone: {}", b.2)))
    }
    /// Between unmounting and importing
    async fn import(&mut self) -> R<()> {
        self.c.settle().await?;
        let k: Vec<u64> = self.c.fds.keys().copied().collect();
        for i in k { if !self.c.m.is_dir(i) { self.c.inactive(i).await?; } else { let fd = self.c.fds.remove(&i).unwrap(); w!(self.c, self.c.fs().inactive(fd)); } }
        w!(self.c, self.c.fs().sync());
        self.c.close().await?;
        let images: Vec<Vec<u8>> = self.c.disks.paths.iter().map(|p| std::fs::read(p).unwrap()).collect();
        let from = if self.c.r.chance(1, 2) { 0 } else { self.c.o.shape.zone * 4096 };
        self.hurt(from);
        self.c.area = "rot";
        let paths = self.c.disks.paths.clone(); let wb = self.c.o.wb;
        match w!(self.c, import_from(&paths, 1_000_000, wb)) {
            Err(e) => self.said("import", Some(e as i32)),
            Ok(db) => {
                self.said("import", None);
                let db = Arc::new(db); self.c.db = Some(db);
                let t = w!(self.c, self.c.db().lookup_fs(""));
                match t { Err(e) => { ensure!("rot", "lookup_fs on a damaged pool fails with an error that means something else", ioerr(e as i32), "{e:?}"); self.said("lookup_fs", Some(e as i32)); }
                    Ok(t) => {
                        ensure!("rot", "lookup_fs on a damaged pool returns what is not so", t == (None, Some(self.c.tree)), "{t:?}"); self.said("lookup_fs", None);
                        if self.c.r.chance(1, 2) { let x = w!(self.c, self.c.db().check()); self.said("check", if matches!(x, Ok(true)) { None } else { Some(1) }); }
                        if self.c.r.chance(1, 3) {
                            *self.at.lock().unwrap() = "mount";
                            let fs = w!(self.c, Fs::new(self.c.db().clone(), self.c.tree));
                            *self.at.lock().unwrap() = "";
                            self.c.fs = Some(Arc::new(fs));
                            for _ in 0..7 { self.peek(1).await?; }
                            self.c.fs = None;
                        }
                    } }
                self.c.close().await?;
            }
        }
        for s in &self.sick { s.lock().unwrap().clear(); }
        for (p, d) in self.c.disks.paths.iter().zip(images) { std::fs::OpenOptions::new().write(true).open(p).unwrap().write_all_at(&d, 0).unwrap(); }
        self.c.note("heal", String::new());
        let db = match w!(self.c, import_from(&paths, 1_000_000, wb)) { Ok(d) => Arc::new(d), Err(e) => return Err(("persist", "the pool cannot be imported".into(), format!("{e:?}"))) };
        self.c.db = Some(db);
        let fs = w!(self.c, Fs::new(self.c.db().clone(), self.c.tree)); self.c.fs = Some(Arc::new(fs));
        self.c.everything().await.map_err(|b| (b.0, b.1, format!("imported after the damage is undone: {}", b.2)))
    }
}
pub fn run() {
    let prop = crate::prop();
    let mut ck = Check::new(&prop, "fault_enumeration", "one evaluation = one file system built by a random history, damaged several times beyond its redundancy and questioned each time; distinct = distinct (question, answer or error, sort of damage, layout)");
    let cases = ck.n(4000, 100_000);
    for case in 0..cases {
        if !ck.time_left() { break; }
        if std::env::var("MON_CASE").is_ok_and(|c| c != case.to_string()) { continue; }
        let r = Rng::case(ck.seed ^ 0x407, case);
        let o = Opts { shape: shape(&r), atime: r.chance(1, 8), ..opts(&r, "degrade") };
        let log = Arc::new(Mutex::new((VecDeque::new(), "setup")));
        let at = Arc::new(Mutex::new("")); let at2 = at.clone();
        let l2 = log.clone(); let o2 = o.clone(); let seed = r.next(); let steps = 30 + r.usize(120);
        let before = mon::ALL_PANICS.lock().unwrap().len();
        let res = mon::guard(|| rt().block_on(async move {
            let mut p = match Rot::new(seed, o2, at2).await { Ok(c) => c, Err(b) => return (Err(b), BTreeMap::new(), Default::default()) };
            let mut out = Ok(());
            for round in 0..4 {
                for _ in 0..if round == 0 { steps } else { steps / 4 } { if let Err(b) = p.c.step().await { out = Err(b); break; } { let mut l = l2.lock().unwrap(); l.0 = p.c.log.clone(); l.1 = p.c.area; } }
                if out.is_ok() { out = if p.c.r.chance(2, 3) { p.live().await } else { p.import().await }; }
                { let mut l = l2.lock().unwrap(); l.0 = p.c.log.clone(); l.1 = p.c.area; }
                if out.is_err() { break; }
            }
            p.c.fds.clear();
            if out.is_ok() { out = p.c.close().await; }
            (out, p.c.n.clone(), p.seen)
        }));
        let (lg, area) = log.lock().unwrap().clone();
        let setup = format!("{o:?}");
        ck.eval();
        // Two defects of their own; nothing that follows them is this run's business
        let ps: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.to_vec()).unwrap_or_default();
        if let Some(p) = ps.first() {
            let known = match *at.lock().unwrap() { "mount" if p.starts_with("Unhandled error") => "a file system whose root cannot be read panics when it is mounted", "atime" if p.starts_with("Can't drop credit!") => "a read error panics if access times are kept", _ => "" };
            if !known.is_empty() { ck.violation(known, &json!({"case": case, "what": p, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})); continue; }
        }
        match res {
            Ok((out, n, d)) => {
                for (k, v) in n { ck.count(k, v); } for x in d { ck.distinct(x); }
                match out { Ok(()) => if ck.wants_sample() { ck.sample(json!({"case": case, "setup": o.shape.text(), "last operations": lg.iter().rev().take(8).collect::<Vec<_>>()})); },
                    Err(b) => { if std::env::var("MON_V").is_ok() { println!("{case} {b:?} {setup}"); } let first = mon::ALL_PANICS.lock().unwrap().get(before..).and_then(|x| x.iter().find(|p| crate::in_repo(p)).cloned()); match first { Some(p) => crate::panicked(&mut ck, area, &p, case, &lg, &setup), None => ck.violation(&b.1, &json!({"case": case, "area": b.0, "what": b.2, "history": lg.iter().collect::<Vec<_>>(), "setup": setup})) } } }
            }
            Err(p) => { let p = crate::first_panic(before, p); if std::env::var("MON_V").is_ok() { println!("{case} {p} {setup}"); } crate::panicked(&mut ck, area, &p, case, &lg, &setup); }
        }
        let ps: Vec<String> = mon::ALL_PANICS.lock().unwrap().get(before..).map(|x| x.to_vec()).unwrap_or_default();
        for p in ps { if crate::in_repo(&p) { crate::panicked(&mut ck, area, &p, case, &lg, &setup); } }
    }
    ck.assume("the client keeps to what bfffs asks of its callers, as for C16 to C20");
    cleanup();
    ck.finish()
}
