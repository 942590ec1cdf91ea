//! bfffs(8) itself, run with command lines: what it asks a scripted server, what it prints, how it ends; and the pools it makes.
use bfffs_core::{database::{Manager, TreeID}, property::{Property, PropertyName as N, PropertySource as S}, rpc::{self, fs::DsInfo, pool::*, Request, Response}, vdev::{FaultedReason, Health}, Error, Uuid};
use futures::StreamExt;
use mon::{Check, Rng};
use serde_json::json;
use speedy::{Readable, Writable};
use std::{collections::{BTreeMap, BTreeSet}, io::{Read, Write}, num::NonZeroU8, os::unix::net::UnixListener, path::{Path, PathBuf}, process::Command, sync::{atomic::{AtomicU64, Ordering::SeqCst}, Arc, Mutex}};

#[derive(Clone, Debug)]
enum Fail { Errno(Error), Silent, Garbage, Large }
#[derive(Default)]
struct World { sets: BTreeMap<String, Vec<(Property, S)>>, pools: Vec<(PoolInfo, PoolStatus)>, chunk: usize, fail: Option<(usize, Fail)>, log: Vec<Vec<u8>>, text: Vec<String>, failed: bool }
const PROPS: [N; 5] = [N::Atime, N::BaseMountpoint, N::Mountpoint, N::Name, N::RecordSize];
fn parent(n: &str) -> Option<&str> { n.rsplit_once('/').map(|x| x.0) }
impl World {
    fn answer(&self, q: Request) -> Response {
        let info = |n: &String, props: &[N], offset| DsInfo { name: n.clone(), props: props.iter().map(|p| self.sets[n].iter().find(|x| x.0.name() == *p).unwrap().clone()).collect(), offset };
        match q {
            Request::DebugDropCache => Response::DebugDropCache(Ok(())),
            Request::FsCreate(_) => Response::FsCreate(Ok(TreeID(7))), Request::FsDestroy(_) => Response::FsDestroy(Ok(())),
            Request::FsMount(_) => Response::FsMount(Ok(())), Request::FsUnmount(_) => Response::FsUnmount(Ok(())), Request::FsSet(_) => Response::FsSet(Ok(())),
            Request::FsStat(s) => Response::FsStat(if self.sets.contains_key(&s.name) { Ok(info(&s.name, &s.props, 0)) } else { Err(Error::ENOENT) }),
            Request::FsList(l) => Response::FsList(Ok(self.sets.keys().filter(|k| parent(k) == Some(&l.name)).enumerate().map(|(i, k)| (i as u64 * 5 + 3, k)).filter(|(o, _)| l.offset.is_none_or(|x| *o > x)).take(self.chunk).map(|(o, k)| info(k, &l.props, o)).collect())),
            Request::PoolClean(_) => Response::PoolClean(Ok(())), Request::PoolFault(_) => Response::PoolFault(Ok(())), Request::PoolAttach(_) => Response::PoolAttach(Ok(())),
            Request::PoolList(l) => { let v: Vec<PoolInfo> = self.pools.iter().map(|p| p.0.clone()).filter(|p| l.pool.as_ref().is_none_or(|x| *x == p.name)).collect(); Response::PoolList(if v.is_empty() && l.pool.is_some() { Err(Error::ENOENT) } else { Ok(v) }) }
            Request::PoolStatus(s) => Response::PoolStatus(self.pools.iter().find(|p| p.0.name == s.pool).map(|p| p.1.clone()).ok_or(Error::ENOENT)),
        }
    }
    fn refuse(q: &Request, e: Error) -> Response {
        match q {
            Request::DebugDropCache => Response::DebugDropCache(Err(e)), Request::FsCreate(_) => Response::FsCreate(Err(e)), Request::FsDestroy(_) => Response::FsDestroy(Err(e)), Request::FsList(_) => Response::FsList(Err(e)),
            Request::FsMount(_) => Response::FsMount(Err(e)), Request::FsSet(_) => Response::FsSet(Err(e)), Request::FsStat(_) => Response::FsStat(Err(e)), Request::FsUnmount(_) => Response::FsUnmount(Err(e)), Request::PoolClean(_) => Response::PoolClean(Err(e)),
            Request::PoolFault(_) => Response::PoolFault(Err(e)), Request::PoolAttach(_) => Response::PoolAttach(Err(e)), Request::PoolList(_) => Response::PoolList(Err(e)), Request::PoolStatus(_) => Response::PoolStatus(Err(e)),
        }
    }
    /// None: hang up
    fn serve(&mut self, packet: &[u8]) -> Option<Vec<u8>> {
        let q = Request::read_from_buffer(packet);
        self.log.push(packet.to_vec()); self.text.push(format!("{q:?}"));
        let q = q.ok()?;
        let r = match &self.fail {
            Some((n, f)) if *n + 1 == self.log.len() => { self.failed = true; match f { Fail::Errno(e) => Self::refuse(&q, *e), Fail::Silent => return None, Fail::Garbage => return Some(vec![0xff; 9]), Fail::Large => return Some(vec![0; 5000]) } }
            _ => self.answer(q),
        };
        let v = r.write_to_vec().unwrap();
        if format!("{r:?}").contains("(Err(") || v.len() >= 4096 { self.failed = true; }
        Some(v)
    }
}

/// What the words of a command line ask for
enum Want {
    /// it must be refused before anything is asked for
    Refused,
    /// these requests, in this order
    Ask(Vec<Vec<u8>>),
    /// anything that changes nothing, and this output; None: it must fail
    Show(Option<Vec<Vec<String>>>),
    /// a disk given by its path: a look at the pool, then this
    Find(Vec<(Option<PathBuf>, Box<dyn Fn(Uuid) -> Request + Send>, Uuid, String)>),
}
struct Line { argv: Vec<String>, want: Want, raw: bool, kind: &'static str }
fn enc(q: Request) -> Vec<u8> { q.write_to_vec().unwrap() }
fn health(r: &Rng) -> Health { match r.below(6) { 0 => Health::Degraded(NonZeroU8::new(r.range(1, 9) as u8).unwrap()), 1 => Health::Faulted(FaultedReason::Removed), 2 => Health::Faulted(FaultedReason::User), 3 => Health::Faulted(FaultedReason::InsufficientRedundancy), _ => Health::Online } }
fn word(r: &Rng) -> String { r.pick(&["a", "b", "home", "usr", "data set", "résumé", "A", "x.y", "0", "tank2", "none", "on", "name"]).to_string() }
fn mount(r: &Rng) -> String { r.pick(&["/", "/a", "/a/b c", "/usr/home", "/é", "legacy", "/x=y", "none", ""]).to_string() }
fn uuid(r: &Rng) -> Uuid { let mut b = [0; 16]; r.fill(&mut b); if r.chance(1, 20) { b = [0; 16]; } Uuid::from_bytes_safe(b) }
trait FromBytesSafe { fn from_bytes_safe(b: [u8; 16]) -> Uuid; }
impl FromBytesSafe for Uuid { fn from_bytes_safe(b: [u8; 16]) -> Uuid { Uuid::read_from_buffer(&b).unwrap() } }
fn world(r: &Rng) -> World {
    let mut w = World { chunk: r.range(1, 4) as usize, ..World::default() };
    let src = |r: &Rng| match r.below(6) { 0 => S::None, 1 | 2 => S::Default, 3 => S::LOCAL, _ => S::Set(*r.pick(&[1, 1, 2, 3, 255])) };
    let pools: BTreeSet<String> = (0..r.usize(4)).map(|_| word(r)).collect();
    let mut names: Vec<String> = pools.iter().cloned().collect();
    for _ in 0..r.usize(10) { if names.is_empty() { break; } let p = r.pick(&names).clone(); if p.matches('/').count() < 4 { names.push(format!("{p}/{}", word(r))); } }
    for n in names {
        w.sets.insert(n.clone(), vec![(Property::Atime(r.chance(1, 2)), src(r)), (Property::BaseMountpoint(mount(r)), src(r)), (Property::Mountpoint(mount(r)), src(r)), (Property::Name(n), S::None), (Property::RecordSize(r.range(12, 20) as u8), src(r))]);
    }
    let mut pools: Vec<String> = pools.into_iter().collect(); r.shuffle(&mut pools);
    for (i, name) in pools.into_iter().enumerate() {
        let path = |r: &Rng| PathBuf::from(format!("/dev/{}{}", r.pick(&["da", "nda", "gpt/é ", "md"]), r.below(30)));
        let mut left = 25usize;
        let clusters = (0..r.usize(4)).map(|_| ClusterStatus { health: health(r), codec: r.pick(&["NonRedundant", "PrimeS-5,3,1"]).to_string(), uuid: uuid(r), mirrors: (0..*r.pick(&[1usize, 1, 2, 3, 5])).map(|_| MirrorStatus { health: health(r), uuid: uuid(r), leaves: (0..*r.pick(&[1usize, 1, 2, 3, 0])).filter_map(|_| { if left == 0 { return None; } left -= 1; Some(LeafStatus { health: health(r), path: path(r), uuid: uuid(r) }) }).collect() }).collect() }).collect();
        w.pools.push((PoolInfo { name: name.clone(), offs: i as u64 }, PoolStatus { health: health(r), name, clusters, uuid: uuid(r) }));
    }
    if r.chance(1, 5) { w.fail = Some((r.usize(4), match r.below(8) { 0 => Fail::Silent, 1 => Fail::Garbage, 2 => Fail::Large, _ => Fail::Errno(*r.pick(&[Error::ENOENT, Error::EPERM, Error::EIO, Error::EBUSY, Error::EINVAL, Error::EEXIST, Error::ENOSPC])) })); }
    w
}
/// One property, as it may be written, and what that means; None: it means nothing
fn property(r: &Rng, bad: bool) -> (String, Option<Property>) {
    if bad { return (r.pick(&["atime=maybe", "recordsize=5000", "recordsize", "mountpoint", "name=x", "basemountpoint=/x", "nosuch=1", "", "recsize=0", "=on", "Atime=on", "recordsize=128k", "recordsize=-4096"]).to_string(), None); }
    match r.below(4) {
        0 => { let (s, b) = *r.pick(&[("atime=on", true), ("atime=off", false), ("atime=true", true), ("atime=false", false), ("atime", true)]); (s.into(), Some(Property::Atime(b))) }
        1 => { let m = mount(r); (format!("mountpoint={m}"), Some(Property::Mountpoint(m))) }
        _ => { let n = r.range(12, 20); (format!("{}={}", r.pick(&["recordsize", "recsize"]), 1u64 << n), Some(Property::RecordSize(n as u8))) }
    }
}
fn properties(r: &Rng, least: usize, bad: bool) -> (Vec<String>, Vec<Property>) {
    let n = least + r.usize(4); let mut v: Vec<(String, Option<Property>)> = (0..n.max(bad as usize)).map(|_| property(r, false)).collect();
    if bad { let i = r.usize(v.len()); v[i] = property(r, true); }
    (v.iter().map(|x| x.0.clone()).collect(), v.into_iter().filter_map(|x| x.1).collect())
}
/// The ways to give an option's values
fn option(r: &Rng, short: &str, long: &str, values: &[String], split: bool) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![]; let mut rest = values;
    while !rest.is_empty() {
        let n = if split { 1 + r.usize(rest.len()) } else { 1 }; let v = rest[..n].join(","); rest = &rest[n..];
        // an empty value cannot be glued to its option
        out.push(match r.below(4) { 0 => vec![format!("-{short}"), v], 1 if !v.is_empty() && !v.starts_with('=') => vec![format!("-{short}{v}")], 2 => vec![format!("--{long}={v}")], _ => vec![format!("--{long}"), v] });
    }
    out
}
/// Options may stand anywhere between the arguments
fn arrange(r: &Rng, opts: Vec<Vec<String>>, args: Vec<String>) -> Vec<String> {
    let mut at: Vec<usize> = opts.iter().map(|_| r.usize(args.len() + 1)).collect(); at.sort();
    let mut out = vec![]; let mut o = opts.into_iter().zip(at).peekable();
    for (i, a) in args.iter().enumerate() { while o.peek().is_some_and(|x| x.1 <= i) { out.extend(o.next().unwrap().0); } out.push(a.clone()); }
    for x in o { out.extend(x.0); }
    out
}
fn strings(v: &[&str]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }
fn human(p: &Property) -> String { match p { Property::RecordSize(n) => if *n < 20 { format!("{} kiB", 1u32 << (n - 10)) } else { format!("{} MiB", 1u32 << (n - 20)) }, Property::Atime(b) => if *b { "on".into() } else { "off".into() }, p => p.as_str().to_string() } }
fn plain(p: &Property) -> String { match p { Property::RecordSize(n) => (1u64 << n).to_string(), p => human(p) } }
fn level(w: &World, n: &str, depth: usize) -> Option<Vec<String>> {
    w.sets.get(n)?; let base = n.matches('/').count();
    Some(w.sets.keys().filter(|k| *k == n || k.starts_with(&format!("{n}/")) && k.matches('/').count() - base <= depth).cloned().collect())
}
fn line(r: &Rng, w: &World) -> Line {
    let known: Vec<String> = w.sets.keys().cloned().collect();
    let set = |r: &Rng| if known.is_empty() || r.chance(1, 12) { format!("{}/{}", word(r), word(r)) } else { r.pick(&known).clone() };
    let pool = |r: &Rng| if w.pools.is_empty() || r.chance(1, 8) { word(r) } else { r.pick(&w.pools).0.name.clone() };
    let depth = |r: &Rng, opts: &mut Vec<Vec<String>>| -> usize { match r.below(5) { 0 => { opts.push(vec![r.pick(&["-r", "--recursive"]).to_string()]); usize::MAX } 1 => { let d = r.below(5); opts.extend(option(r, "d", "depth", &[d.to_string()], false)); d as usize } 2 if r.chance(1, 2) => { opts.push(vec!["-r".into()]); let d = r.below(3); opts.extend(option(r, "d", "depth", &[d.to_string()], false)); d as usize } _ => 0 } };
    let mut raw = false; let bad = r.chance(1, 10);
    let (kind, mut words, opts, args, want): (&'static str, Vec<&str>, Vec<Vec<String>>, Vec<String>, Want) = match r.below(16) {
        0 => { let n = set(r); let (s, p) = properties(r, 0, bad); let o = option(r, "o", "properties", &s, true); ("fs create", vec!["fs", "create"], o, vec![n.clone()], if bad { Want::Refused } else { Want::Ask(vec![enc(rpc::fs::create(n, p))]) }) }
        1 => { let n = set(r); ("fs destroy", vec!["fs", "destroy"], vec![], vec![n.clone()], Want::Ask(vec![enc(rpc::fs::destroy(n))])) }
        2..=4 => {
            let mut opts = vec![]; let d = depth(r, &mut opts);
            let all = ["name", "property", "value", "source"]; let fields: Vec<String> = if r.chance(1, 3) { let v: Vec<String> = (0..1 + r.usize(5)).map(|_| r.pick(&all).to_string()).collect(); opts.extend(option(r, "o", "fields", &v, true)); v } else { strings(&all) };
            let ss = ["local", "default", "inherited", "none"]; let sources: Vec<String> = if r.chance(1, 2) { let v: Vec<String> = (0..1 + r.usize(3)).map(|_| r.pick(&ss).to_string()).collect(); opts.extend(option(r, "s", "sources", &v, true)); v } else { strings(&ss) };
            raw = r.chance(1, 2); if raw { opts.push(vec![r.pick(&["-p", "--parseable"]).to_string()]); }
            let props: Vec<N> = (0..1 + r.usize(4)).map(|_| *r.pick(&PROPS)).collect(); let sets: Vec<String> = (0..1 + r.usize(3)).map(|_| set(r)).collect();
            let mut args = vec![props.iter().map(|p| if *p == N::RecordSize && r.chance(1, 2) { "recsize".to_string() } else { p.to_string() }).collect::<Vec<_>>().join(",")]; args.extend(sets.clone());
            let mut rows = vec![]; let mut gone = false;
            for s in &sets { match level(w, s, d) { Some(v) => rows.extend(v), None => gone = true } }
            rows.sort();
            let mut out = vec![]; if !raw { out.push(fields.iter().map(|f| f.to_uppercase()).collect()); }
            for n in rows { for p in &props { let (v, s) = w.sets[&n].iter().find(|x| x.0.name() == *p).unwrap(); let src = match s { S::None => "none", S::Default => "default", S::Set(0) => "local", S::Set(_) => "inherited" }; if sources.iter().any(|x| x == src) { out.push(fields.iter().map(|f| match f.as_str() { "name" => n.clone(), "property" => p.to_string(), "value" => if raw { plain(v) } else { human(v) }, _ => src.into() }).collect()); } } }
            let mut want = Want::Show(if gone { None } else { Some(out) });
            if bad { want = Want::Refused; match r.below(5) { 0 => args[0].push_str(",nosuch"), 1 => opts.push(vec!["-o".into(), "size".into()]), 2 => opts.push(vec!["-s".into(), "received".into()]), 3 => args.truncate(1), _ => opts.push(vec!["-d".into(), "many".into()]) } }
            ("fs get", vec!["fs", "get"], opts, args, want)
        }
        5..=7 => {
            let mut opts = vec![]; let d = depth(r, &mut opts);
            let props: Vec<N> = if r.chance(1, 4) { vec![N::Name] } else { let v: Vec<N> = { let mut v: Vec<N> = (0..r.usize(4)).map(|_| *r.pick(&PROPS)).collect(); v.push(N::Name); r.shuffle(&mut v); v }; opts.extend(option(r, "o", "properties", &v.iter().map(|p| p.to_string()).collect::<Vec<_>>(), true)); v };
            let mut sort = vec![N::Name];
            if r.chance(1, 2) { sort = (0..1 + r.usize(3)).map(|_| *r.pick(&props)).collect(); if r.chance(1, 12) { sort.push(*r.pick(&PROPS)); } opts.extend(option(r, "s", "sort", &sort.iter().map(|p| p.to_string()).collect::<Vec<_>>(), false)); }
            raw = r.chance(1, 2); if raw { opts.push(vec![r.pick(&["-p", "--parseable"]).to_string()]); }
            let sets: Vec<String> = (0..1 + r.usize(3)).map(|_| set(r)).collect();
            let mut rows = vec![]; let mut gone = false;
            for s in &sets { match level(w, s, d) { Some(v) => rows.extend(v), None => gone = true } }
            let get = |n: &String, p: N| w.sets[n].iter().find(|x| x.0.name() == p).unwrap().0.clone();
            rows.sort_by(|a, b| { for s in &sort { let o = match (get(a, *s), get(b, *s)) { (Property::Atime(x), Property::Atime(y)) => x.cmp(&y), (Property::RecordSize(x), Property::RecordSize(y)) => x.cmp(&y), (x, y) => x.as_str().as_bytes().cmp(y.as_str().as_bytes()) }; if o.is_ne() { return o; } } a.cmp(b) });
            // the order of equals is open: mark what was compared
            let mut out: Vec<Vec<String>> = vec![]; if !raw { out.push(props.iter().map(|p| if *p == N::RecordSize { "RECSIZE".into() } else { p.to_string().to_uppercase() }).collect()); }
            for n in rows { out.push(props.iter().map(|p| if raw { plain(&get(&n, *p)) } else { human(&get(&n, *p)) }).collect()); }
            let mut want = if sort.iter().any(|s| !props.contains(s)) { Want::Refused } else { Want::Show(if gone { None } else { Some(out) }) };
            if bad { want = Want::Refused; match r.below(4) { 0 => opts.push(vec!["-o".into(), "size".into()]), 1 => opts.push(vec!["-s".into(), "nosuch".into()]), 2 => opts.push(vec!["--depth".into(), "-1".into()]), _ => opts.push(vec!["--nosuch".into()]) } }
            ("fs list", vec!["fs", "list"], opts, sets, want)
        }
        8 => { let n = set(r); let o = if r.chance(1, 3) { option(r, "o", "options", &strings(&["ro", "noatime"]), true) } else { vec![] }; ("fs mount", vec!["fs", "mount"], o, vec![n.clone()], Want::Ask(vec![enc(rpc::fs::mount(n))])) }
        9 => { let n = set(r); let f = r.chance(1, 2); ("fs unmount", vec!["fs", "unmount"], if f { vec![vec![r.pick(&["-f", "--force"]).to_string()]] } else { vec![] }, vec![n.clone()], Want::Ask(vec![enc(rpc::fs::unmount(n, f))])) }
        10 | 11 => { let sets: Vec<String> = (0..1 + r.usize(3)).map(|_| set(r)).collect(); let (s, p) = properties(r, 1, bad); let mut args = vec![s.join(",")]; args.extend(sets.clone()); if bad && r.chance(1, 3) { args.truncate(1); } ("fs set", vec!["fs", "set"], vec![], args, if bad { Want::Refused } else { Want::Ask(sets.into_iter().map(|n| enc(rpc::fs::set(n, p.clone()))).collect()) }) }
        12 => match r.below(2) {
            0 => { let p = pool(r); ("pool clean", vec!["pool", "clean"], vec![], vec![p.clone()], Want::Ask(vec![enc(rpc::pool::clean(p))])) }
            _ => ("drop cache", vec!["debug", "drop-cache"], vec![], vec![], Want::Ask(vec![enc(Request::DebugDropCache)])),
        },
        13 => {
            let pools: Vec<String> = (0..r.usize(3)).map(|_| pool(r)).collect(); let has = |n: &String| w.pools.iter().any(|p| p.0.name == *n);
            let mut out = vec![strings(&["NAME"])];
            if pools.is_empty() { out.extend(w.pools.iter().map(|p| vec![p.0.name.clone()])); } else { out.extend(pools.iter().map(|p| vec![p.clone()])); }
            ("pool list", vec!["pool", "list"], vec![], pools.clone(), Want::Show(if pools.iter().all(has) { Some(out) } else { None }))
        }
        14 => {
            let one = if r.chance(2, 3) { Some(pool(r)) } else { None }; let uu = r.chance(1, 2);
            let mut out: Vec<Vec<String>> = vec![]; let mut any = false;
            for (_, s) in w.pools.iter().filter(|p| one.as_ref().is_none_or(|n| *n == p.0.name)) {
                any = true;
                let mut row = |indent: usize, name: &str, id: String, h: String| { let mut v = vec![format!("{}{name}", " ".repeat(indent))]; if uu { v.push(id); } v.push(h); out.push(v); };
                row(0, "NAME", "UUID".into(), "HEALTH".into()); row(0, &s.name, s.uuid.to_string(), s.health.to_string());
                for c in &s.clusters {
                    let mut i = 2; if c.mirrors.len() > 1 { row(2, &c.codec, c.uuid.to_string(), c.health.to_string()); i = 4; }
                    for m in &c.mirrors {
                        let group = m.leaves.len() > 1 || matches!(m.health, Health::Faulted(_)); if group { row(i, "mirror", m.uuid.to_string(), m.health.to_string()); }
                        for l in &m.leaves { row(i + if group { 2 } else { 0 }, l.path.to_str().unwrap(), l.uuid.to_string(), l.health.to_string()); }
                    }
                }
            }
            let want = Want::Show(if one.is_some() && !any { None } else { Some(out) });
            ("pool status", vec!["pool", "status"], if uu { vec![vec![r.pick(&["-u", "--uuid"]).to_string()]] } else { vec![] }, one.into_iter().collect(), want)
        }
        _ => {
            let p = pool(r); let st = w.pools.iter().find(|x| x.0.name == p).map(|x| &x.1);
            let leaves: Vec<&LeafStatus> = st.iter().flat_map(|s| &s.clusters).flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves).collect();
            let device = |r: &Rng| -> (String, Option<PathBuf>, Uuid) {
                if r.chance(1, 2) { let u = if leaves.is_empty() { uuid(r) } else { r.pick(&leaves).uuid }; let s = u.to_string(); (match r.below(4) { 0 => s.to_uppercase(), 1 => s.replace('-', ""), _ => s }, None, u) }
                else { let q = if leaves.is_empty() || r.chance(1, 8) { PathBuf::from("/dev/nosuch") } else { r.pick(&leaves).path.clone() }; let u = leaves.iter().find(|l| l.path == q).map(|l| l.uuid); (q.to_str().unwrap().into(), Some(q), u.unwrap_or_default()) }
            };
            if r.chance(1, 2) {
                let devs: Vec<_> = (0..1 + r.usize(3)).map(|_| device(r)).collect(); let mut args = vec![p.clone()]; args.extend(devs.iter().map(|d| d.0.clone())); if bad { args.truncate(1); }
                ("pool fault", vec!["pool", "fault"], vec![], args, if bad { Want::Refused } else { Want::Find(devs.into_iter().map(|(_, path, u)| { let q = p.clone(); (path, Box::new(move |u| rpc::pool::fault(q.clone(), u)) as Box<dyn Fn(Uuid) -> Request + Send>, u, p.clone()) }).collect()) })
            } else {
                let (s, path, u) = device(r); let leaf = format!("/dev/new {}", r.below(9)); let mut args = vec![p.clone(), s, leaf.clone()]; if bad { args.truncate(2); }
                let q = p.clone(); ("pool attach", vec!["pool", "attach"], vec![], args, if bad { Want::Refused } else { Want::Find(vec![(path, Box::new(move |u| rpc::pool::attach(q.clone(), u, PathBuf::from(&leaf))), u, p)]) })
            }
        }
    };
    let mut want = want; let mut args = args;
    // whatever the command, too few or too many words
    if r.chance(1, 40) { want = Want::Refused; match r.below(3) { 0 => words[1] = "frobnicate", 1 => { words.truncate(1); return Line { argv: strings(&words), want, raw, kind: "half a command" } } _ => args.insert(0, "--nosuch".into()) } }
    else if bad && matches!(kind, "fs destroy" | "fs unmount" | "fs mount" | "pool clean") { want = Want::Refused; if r.chance(1, 2) { args.clear(); } else { args.push("extra".into()); } }
    else if bad && kind == "drop cache" { want = Want::Refused; args.push("extra".into()); }
    let mut argv = strings(&words); argv.extend(arrange(r, opts, args));
    Line { argv, want, raw, kind }
}

struct Server { world: Arc<Mutex<World>>, sock: PathBuf }
fn server(dir: &Path, i: usize) -> Server {
    let sock = dir.join(format!("s{i}")); let l = UnixListener::bind(&sock).unwrap(); let world: Arc<Mutex<World>> = Default::default(); let w = world.clone();
    std::thread::spawn(move || for c in l.incoming() {
        let mut c = match c { Ok(c) => c, Err(_) => return }; let w = w.clone();
        std::thread::spawn(move || loop {
            let mut n = [0; 4]; if c.read_exact(&mut n).is_err() { return; }
            let mut p = vec![0; u32::from_le_bytes(n) as usize]; if c.read_exact(&mut p).is_err() { return; }
            let a = w.lock().unwrap().serve(&p);
            match a { Some(a) => { if c.write_all(&(a.len() as u32).to_le_bytes()).and_then(|_| c.write_all(&a)).is_err() { return; } } None => return }
        });
    });
    Server { world, sock }
}
fn tool() -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join("bfffs") }
// None: killed by a signal
extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
fn run_tool(args: &[String]) -> (Option<i32>, String, String) {
    use std::process::Stdio;
    let mut c = Command::new(tool()).args(args).env_clear().env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let (mut out, mut err) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let all = |r: &mut dyn Read| { let mut b = vec![]; r.read_to_end(&mut b).unwrap(); String::from_utf8_lossy(&b).into_owned() };
    let pid = c.id() as i32; let done = std::sync::Arc::new((Mutex::new(false), std::sync::Condvar::new())); let d2 = done.clone();
    let h = std::thread::spawn(move || { let g = d2.0.lock().unwrap(); let (g, _) = d2.1.wait_timeout_while(g, std::time::Duration::from_secs(150), |x| !*x).unwrap(); if !*g { unsafe { kill(pid, 9); } } });
    let (o, e) = std::thread::scope(|s| { let e = s.spawn(|| all(&mut err)); let o = all(&mut out); (o, e.join().unwrap()) });
    let st = { let st = c.wait().unwrap(); *done.0.lock().unwrap() = true; done.1.notify_all(); st };
    h.join().unwrap();
    (st.code(), o, e)
}
fn rows(out: &str, raw: bool) -> Vec<Vec<String>> { out.lines().map(|l| l.split(if raw { '\t' } else { '\u{1f}' }).map(|x| x.to_string()).collect()).collect() }
type R = Result<u64, (&'static str, String)>;
fn command(r: &Rng, s: &Server, kinds: &Mutex<BTreeMap<String, u64>>) -> (Vec<String>, R) {
    let w = world(r); let l = line(r, &w); *s.world.lock().unwrap() = w;
    let mut argv = vec!["--sock".to_string(), s.sock.to_str().unwrap().to_string()]; argv.extend(l.argv.clone());
    let (code, out, err) = run_tool(&argv);
    let w = std::mem::take(&mut *s.world.lock().unwrap());
    let count = |k: String| *kinds.lock().unwrap().entry(k).or_default() += 1;
    count(l.kind.into()); for _ in &w.log { count("requests".into()); }
    let what = || format!("exit {code:?}; asked {:?}; printed {out:?}; complained {err:?}; failures {:?}", w.text, w.fail);
    let res = (|| -> R {
        macro_rules! say { ($k:expr, $c:expr) => { if !$c { return Err(($k, what())); } } }
        say!("the tool does not end or is killed", code.is_some());
        let good = code == Some(0);
        if good { say!("it complains and reports success", err.is_empty()); } else { say!("it fails and says nothing", !err.is_empty()); }
        if w.failed { count("of them refused by the server".into()); say!("a request fails and success is reported", !good); }
        match &l.want {
            Want::Refused => { count("command lines that mean nothing".into()); say!("a command line that means nothing is carried out", w.log.is_empty() && !good); say!("a command line that means nothing makes it panic", code != Some(101)); }
            Want::Ask(q) => {
                let n = match &w.fail { Some((n, _)) if *n < q.len() => n + 1, _ => q.len() };
                say!("it asks for something else than it was told", w.log == q[..n]);
                say!("it fails although everything was done", good || w.failed); say!("it prints something", out.is_empty());
            }
            Want::Find(v) => {
                let mut want: Vec<Vec<u8>> = vec![]; let mut lost = false; let stop = |n: usize| w.fail.as_ref().is_some_and(|f| f.0 < n);
                for (path, q, u, pool) in v {
                    if stop(want.len()) || lost { break; }
                    if path.is_some() { want.push(enc(rpc::pool::status(pool.clone()))); if stop(want.len()) { break; } if *u == Uuid::default() && !w.pools.iter().find(|p| p.0.name == *pool).is_some_and(|p| p.1.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves).any(|x| Some(&x.path) == path.as_ref())) { lost = true; break; } }
                    want.push(enc(q(*u)));
                }
                say!("it asks for something else than it was told", w.log == want);
                say!("a disk that does not exist is not reported", !lost || !good); say!("it fails although everything was done", good || w.failed || lost);
            }
            Want::Show(want) => {
                say!("a question changes something", w.text.iter().all(|t| ["Ok(FsStat(", "Ok(FsList(", "Ok(PoolList(", "Ok(PoolStatus("].iter().any(|p| t.starts_with(p))));
                if w.failed { return Ok(mon::hash(&(l.kind, "failed", code))); }
                match want {
                    None => say!("what does not exist is not reported", !good),
                    Some(want) => {
                        say!("it fails although everything was answered", good);
                        let got = rows(&out, l.raw); let (mut a, mut b) = (got.clone(), want.clone());
                        if l.kind == "fs list" {
                            // the order of rows that are equal in what they are sorted by is open
                            let h = if l.raw { 0 } else { 1 }; say!("it prints something else than it was answered", a.len() == b.len() && a.get(..h) == b.get(..h));
                            a[h..].sort(); b[h..].sort(); say!("it prints something else than it was answered", a == b);
                            let keys = |v: &[Vec<String>]| -> Vec<String> { v[h..].iter().map(|row| sort_key(&l.argv, row)).collect() };
                            say!("it sorts wrongly", keys(&got) == keys(want));
                        } else if a != b { if std::env::var("MON_V").is_ok() { eprintln!("want {want:?}\ngot  {got:?}"); } return Err(("it prints something else than it was answered", format!("expected {want:?}; {}", what()))); }
                    }
                }
            }
        }
        Ok(mon::hash(&(l.kind, l.argv.iter().filter(|a| a.starts_with('-')).collect::<Vec<_>>(), w.log.len(), code, w.failed, out.lines().count())))
    })();
    (l.argv, res)
}
/// What a row of "fs list" is sorted by, as printed
fn sort_key(argv: &[String], row: &[String]) -> String {
    let take = |short: &str, long: &str| -> Vec<String> {
        let mut v = vec![]; let mut i = 0;
        while i < argv.len() {
            let a = &argv[i];
            if a == &format!("-{short}") || a == &format!("--{long}") { v.push(argv[i + 1].clone()); i += 2; continue; }
            if let Some(x) = a.strip_prefix(&format!("--{long}=")) { v.push(x.into()); } else if !a.starts_with("--") { if let Some(x) = a.strip_prefix(&format!("-{short}")) { v.push(x.into()); } }
            i += 1;
        }
        v
    };
    let props: Vec<String> = take("o", "properties").iter().flat_map(|x| x.split(',').map(|x| x.to_string()).collect::<Vec<_>>()).collect();
    let sort = take("s", "sort"); let sort = if sort.is_empty() { vec!["name".into()] } else { sort };
    if props.is_empty() { return row[0].clone(); }
    sort.iter().map(|s| row[props.iter().position(|p| p == s).unwrap()].clone()).collect::<Vec<_>>().join("\u{1}")
}

/// "check" of pools that are sound, and of pools whose space does not add up
fn unsound(r: &Rng, dir: &Path, kinds: &Mutex<BTreeMap<String, u64>>) -> (Vec<String>, R) {
    use bfffs_core::{cache::Cache, cluster::Cluster, controller::Controller, database::Database, ddml::DDML, dml::{Compression, DML}, idml::IDML, mirror::Mirror, pool::Pool, types::TxgT};
    let d = dir.join("disks"); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap();
    let disk = d.join("d0"); std::fs::File::create(&disk).unwrap().set_len(20 << 20).unwrap();
    let leaks: Vec<usize> = (0..if r.chance(1, 3) { 0 } else { 1 + r.usize(3) }).map(|_| 1 + r.usize(20_000)).collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let m = Mirror::create(&[&disk], std::num::NonZeroU64::new(256)).unwrap();
        let pool = Pool::create("testpool".into(), vec![Cluster::create(bfffs_core::raid::create(None, 1, 0, vec![m]))]);
        let cache = Arc::new(Mutex::new(Cache::with_capacity(4 << 20))); let ddml = Arc::new(DDML::create(pool, cache.clone()));
        // records nobody knows of
        for l in &leaks { DML::put(&*ddml, divbuf::DivBufShared::from(vec![7u8; *l]), Compression::None, TxgT::from(0)).await.unwrap(); }
        let c = Controller::new(Database::create(Arc::new(IDML::create(ddml, cache))));
        c.create_fs("testpool").await.unwrap(); c.sync_transaction().await.unwrap();
    });
    drop(rt);
    let argv = strings(&["check", "testpool", disk.to_str().unwrap()]); let (c, o, e) = run_tool(&argv);
    *kinds.lock().unwrap().entry(if leaks.is_empty() { "sound pools checked" } else { "unsound pools checked" }.into()).or_default() += 1;
    let ok = if leaks.is_empty() { c == Some(0) } else { c.is_some_and(|c| c != 0) };
    (argv, if ok { Ok(mon::hash(&("leaks", leaks.iter().map(|l| l.div_ceil(4096)).collect::<Vec<_>>()))) } else if leaks.is_empty() { Err(("a sound pool does not pass its check", format!("{c:?} {o:?} {e:?}"))) } else { Err(("an unsound pool passes its check", format!("records of {leaks:?} bytes are allocated and belong to nothing: exit {c:?}, printed {o:?}, complained {e:?}"))) })
}
/// "pool create", and what is on the disks then
fn create(r: &Rng, dir: &Path, kinds: &Mutex<BTreeMap<String, u64>>) -> (Vec<String>, R) {
    let d = dir.join("disks"); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap();
    let zone = if r.chance(4, 5) { Some(r.range(1, 4)) } else { None }; let size = zone.map_or(600 << 20, |z| (z << 20) * r.range(8, 20) + (r.below(3) << 20));
    let mut n = 0; let mut disk = || { let p = d.join(format!("d{n}")); n += 1; std::fs::File::create(&p).unwrap().set_len(size).unwrap(); p.to_str().unwrap().to_string() };
    // clusters of mirrors of disks
    let mut spec: Vec<(i16, i16, Vec<Vec<String>>)> = vec![]; let mut words: Vec<String> = vec![];
    let kind = r.below(3);
    for _ in 0..1 + r.usize(if kind == 2 { 2 } else { 3 }) {
        match kind {
            0 => { let x = disk(); words.push(x.clone()); spec.push((1, 0, vec![vec![x]])); }
            1 => { let m: Vec<String> = (0..1 + r.usize(3)).map(|_| disk()).collect(); words.push("mirror".into()); words.extend(m.clone()); spec.push((1, 0, vec![m])); }
            _ => {
                let (n, k, f) = *r.pick(&[(3, 3, 1), (5, 3, 1), (5, 4, 2), (5, 5, 1), (3, 2, 1), (7, 4, 3)]); let mirrors = r.chance(1, 3);
                words.extend(["raid".to_string(), format!("{k}"), f.to_string()]);
                let v: Vec<Vec<String>> = (0..n).map(|_| { let m: Vec<String> = (0..if mirrors { 1 + r.usize(2) } else { 1 }).map(|_| disk()).collect(); if mirrors { words.push("mirror".into()); } words.extend(m.clone()); m }).collect();
                spec.push((k, f, v));
            }
        }
    }
    let bad = r.chance(1, 8); let unfit = bad && r.chance(1, 2);
    // a mount point that is not absolute is refused later
    let (ps, props) = loop { let x = properties(r, 0, unfit); if x.1.iter().all(|p| !matches!(p, Property::Mountpoint(m) if !m.starts_with('/'))) { break x; } };
    let broken = bad && props.len() == ps.len(); if broken { match r.below(3) { 0 => words.insert(0, "mirror".into()), 1 => words.insert(0, "7".into()), _ => words.push("raid".into()) } }
    // "mirror d0" is a mirror of all disks that follow
    let broken = broken && !(words[0] == "mirror" && kind == 0);
    let mut opts = option(r, "p", "properties", &ps, true); if let Some(z) = zone { opts.push(vec!["--zone-size".into(), z.to_string()]); }
    let mut args = vec!["testpool".to_string()]; if r.chance(1, 3) { args.push(words.join(" ")); } else { args.extend(words.clone()); }
    let mut argv = strings(&["pool", "create"]); argv.extend(arrange(r, opts, args));
    let (code, out, err) = run_tool(&argv);
    let count = |k: &str| *kinds.lock().unwrap().entry(k.into()).or_default() += 1;
    let res = (|| -> R {
        macro_rules! say { ($k:expr, $c:expr, $($a:tt)*) => { if !$c { return Err(($k, format!("exit {code:?}, printed {out:?}, complained {err:?}: {}", format!($($a)*)))); } } }
        let mut all: Vec<String> = spec.iter().flat_map(|s| s.2.iter().flatten().cloned()).collect();
        if bad && words[0] == "mirror" && kind == 0 { return Ok(0); }
        if broken || props.len() != ps.len() {
            count("pools refused"); say!("a pool that means nothing is created", code != Some(0), "{words:?}");
            for p in &all { let mut b = vec![]; std::fs::File::open(p).unwrap().take(1 << 20).read_to_end(&mut b).unwrap(); say!("a command that is refused writes to a disk", b.iter().all(|x| *x == 0), "{p}"); }
            return Ok(mon::hash(&("refused", kind, broken)));
        }
        count("pools created"); say!("a pool is not created", code == Some(0) && err.is_empty(), "{words:?}");
        r.shuffle(&mut all);
        let mut check = strings(&["check", "testpool"]); check.extend(all.clone());
        let (c, o, e) = run_tool(&check); say!("a new pool does not pass its check", c == Some(0) && e.is_empty(), "{c:?} {o:?} {e:?}");
        let mut dump = strings(&["debug", "dump", "-f", "testpool"]); dump.extend(all.clone());
        let (c, o, e) = run_tool(&dump); say!("a dump fails", c == Some(0) && e.is_empty(), "{c:?} {o:?} {e:?}");
        if kind == 0 && spec.len() == 1 {
            // a bit of any record (they follow the labels and the two spacemaps) turns: nothing on a pool without redundancy may pass then
            let mut b = vec![]; std::fs::File::open(&all[0]).unwrap().take(16 << 20).read_to_end(&mut b).unwrap();
            let used: Vec<usize> = (0..b.len() / 4096).filter(|l| *l >= 10 && b[l * 4096..(l + 1) * 4096].iter().any(|x| *x != 0)).collect(); say!("nothing is on the disk", !used.is_empty(), "");
            let l = *r.pick(&used); let nz: Vec<usize> = (l * 4096..(l + 1) * 4096).filter(|i| b[*i] != 0).collect(); let i = *r.pick(&nz); let v = b[i] ^ (1 << r.below(8));
            std::os::unix::fs::FileExt::write_all_at(&std::fs::OpenOptions::new().write(true).open(&all[0]).unwrap(), &[v], i as u64).unwrap();
            count("damaged pools checked");
            let (c, o, e) = run_tool(&check); say!("a damaged pool passes its check", c != Some(0), "byte {i} of {} used blocks {used:?}: {c:?} {o:?} {e:?}", used.len());
            return Ok(mon::hash(&("damage", l, i % 4096)));
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let mut m = Manager::default(); for p in &all { let _ = m.taste(p).await; }
            let db = match m.import_by_name("testpool").await { Ok(d) => d, Err(e) => { say!("a new pool cannot be imported", false, "{e:?}"); unreachable!() } };
            let fsm = db.dump_fsm().await; say!("a dump is not that of the pool", fsm.join("\n") == o.trim_end_matches('\n') || fsm.iter().map(|x| format!("{x}\n")).collect::<String>() == o, "{fsm:?} {o:?}");
            say!("not a map per cluster", fsm.len() == spec.len(), "{fsm:?}");
            let c = bfffs_core::controller::Controller::new(db); let st = c.get_pool_status("testpool").await;
            let st = match st { Ok(s) => s, Err(e) => { say!("no status", false, "{e:?}"); unreachable!() } };
            let health_ok = st.health == Health::Online && st.clusters.iter().all(|c| c.health == Health::Online && c.mirrors.iter().all(|m| m.health == Health::Online && m.leaves.iter().all(|l| l.health == Health::Online)));
            say!("a new pool is not healthy", health_ok, "{st:?}");
            let canon = |p: &str| std::fs::canonicalize(p).unwrap().to_str().unwrap().to_string();
            let got: Vec<(String, Vec<Vec<String>>)> = st.clusters.iter().map(|c| (c.codec.clone(), c.mirrors.iter().map(|m| { let mut v: Vec<String> = m.leaves.iter().map(|l| canon(l.path.to_str().unwrap())).collect(); v.sort(); v }).collect())).collect();
            let want: Vec<(String, Vec<Vec<String>>)> = spec.iter().map(|(k, f, v)| (if v.len() == 1 { "NonRedundant".to_string() } else { format!("PrimeS-{},{k},{f}", v.len()) }, v.iter().map(|m| { let mut v: Vec<String> = m.iter().map(|p| canon(p)).collect(); v.sort(); v }).collect())).collect();
            say!("the pool is not laid out as specified", got == want, "{got:?} {want:?}");
            for (p, src) in [(N::Atime, props.iter().rev().find(|p| p.name() == N::Atime)), (N::RecordSize, props.iter().rev().find(|p| p.name() == N::RecordSize)), (N::Mountpoint, props.iter().rev().find(|p| p.name() == N::Mountpoint))] {
                let g = c.get_prop("testpool".into(), p).await; let g = match g { Ok(g) => g, Err(e) => { say!("a property cannot be read", false, "{p:?} {e:?}"); unreachable!() } };
                match src { Some(v) => say!("a property was not set", g == (v.clone(), S::LOCAL), "{p:?} {g:?} not {v:?}"), None => say!("a property is set that was not asked for", g.1 != S::LOCAL, "{p:?} {g:?}") }
            }
            let kids: Vec<_> = c.list_fs("testpool", None).collect().await; say!("a new pool has file systems", kids.is_empty(), "{}", kids.len());
            let names: Vec<_> = c.list_pool(None, None).collect().await; say!("the pool has another name", names.len() == 1 && names[0].as_ref().is_ok_and(|n| n.name == "testpool"), "{names:?}");
            // how large its zones are
            if let Some(z) = zone { let zones: u64 = fsm[0].split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0); let k = spec[0].0 as u64; let _ = k; say!("there are no zones", zones > 0, "{fsm:?}"); if spec[0].2.len() == 1 { let max = (size >> 20) / z; say!("zones of another size", zones <= max + 1 && zones + 1 >= max, "{zones} zones, {max} of {z} MB fit"); } }
            Ok(mon::hash(&(spec.iter().map(|s| (s.0, s.1, s.2.len())).collect::<Vec<_>>(), ps.len(), zone)))
        })
    })();
    (argv, res)
}

fn main() {
    let ck = Check::new("C31", "random", "distinct command lines (command, options given, requests made, outcome, lines printed) whose requests, output and end were judged, and pools created and looked at");
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    for e in std::fs::read_dir(&base).into_iter().flatten().flatten() { let n = e.file_name().to_string_lossy().into_owned(); if let Some(p) = n.strip_prefix("bfffs-cli.").and_then(|s| s.parse::<u32>().ok()) { if !Path::new(&format!("/proc/{p}")).exists() { let _ = std::fs::remove_dir_all(e.path()); } } }
    let dir = base.join(format!("bfffs-cli.{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap(); *mon::SCRATCH.lock().unwrap() = Some(dir.clone());
    let n = ck.n(60_000, 1_000_000); let seed = ck.seed; let only = std::env::var("MON_CASE").ok().and_then(|x| x.parse::<u64>().ok());
    let ck = Mutex::new(Some(ck)); let next = AtomicU64::new(0); let kinds: Mutex<BTreeMap<String, u64>> = Default::default(); let bad: Mutex<Option<(&'static str, serde_json::Value)>> = Mutex::new(None);
    std::thread::scope(|sc| for t in 0..6 {
        let (ck, next, kinds, dir, bad) = (&ck, &next, &kinds, &dir, &bad);
        sc.spawn(move || {
            let d = dir.join(format!("t{t}")); std::fs::create_dir_all(&d).unwrap(); let s = server(&d, t);
            loop {
                let i = match only { Some(i) => if t == 0 && bad.lock().unwrap().is_none() && next.fetch_add(1, SeqCst) == 0 { i } else { return }, None => next.fetch_add(1, SeqCst) };
                if only.is_none() && (i >= n || bad.lock().unwrap().is_some() || !ck.lock().unwrap().as_ref().unwrap().time_left()) { return; }
                let r = Rng::case(seed, i);
                let got = mon::guard(|| if r.chance(1, 30) { create(&r, &d, kinds) } else if r.chance(1, 100) { unsound(&r, &d, kinds) } else { command(&r, &s, kinds) });
                let mut g = ck.lock().unwrap(); let ck = g.as_mut().unwrap(); ck.eval();
                let (argv, res) = match got { Ok(x) => x, Err(e) => (vec![], Err(("the monitor panicked (library)", e))) };
                if ck.wants_sample() { ck.sample(json!({"argv": argv})); }
                match res { Ok(h) => ck.distinct(h), Err((k, w)) => { let mut b = bad.lock().unwrap(); if b.is_none() { *b = Some((k, json!({"argv": argv, "case": i, "what": w}))); } } }
            }
        });
    });
    let mut ck = ck.into_inner().unwrap().unwrap();
    for (k, v) in kinds.into_inner().unwrap() { ck.count(&k, v); }
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((k, d)) = bad.into_inner().unwrap() { ck.violation(k, &d); }
    ck.finish()
}
