//! Pools made of recorded, faultable files; runtimes; scratch space.
use bfffs_core::{cache::Cache, cluster::Cluster, database::{Database, Manager, TreeID}, ddml::DDML, fs::Fs, idml::IDML, mirror::Mirror, pool::Pool};
use mon::Rng;
use std::{future::Future, num::NonZeroU64, path::{Path, PathBuf}, sync::{Arc, Mutex, OnceLock, atomic::{AtomicU64, Ordering}}, time::Duration};
use tokio_file::monitor::{self, Action, Device};

// ---------------------------------------------------------------- scratch space
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
static NDIR: AtomicU64 = AtomicU64::new(0);
/// A directory of this process, removed by `cleanup`
pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::metadata("/dev/shm").map(|m| !m.permissions().readonly()).unwrap_or(false) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        // What a killed run of ours left behind
        for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("bfffs-mon.").and_then(|s| s.parse::<u32>().ok()) {
                if !Path::new(&format!("/proc/{pid}")).exists() { let _ = std::fs::remove_dir_all(e.path()); }
            }
        }
        for b in [base, std::env::temp_dir()] {
            let d = b.join(format!("bfffs-mon.{}", std::process::id()));
            if std::fs::create_dir_all(&d).is_ok() { *mon::SCRATCH.lock().unwrap() = Some(d.clone()); return d; }
        }
        panic!("no scratch space");
    })
}
pub fn cleanup() { if let Some(d) = SCRATCH.get() { let _ = std::fs::remove_dir_all(d); } }
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir { let d = scratch().join(format!("d{}", NDIR.fetch_add(1, Ordering::Relaxed))); std::fs::create_dir_all(&d).unwrap(); Dir(d) }
}
impl Drop for Dir {
    fn drop(&mut self) {
        for e in std::fs::read_dir(&self.0).into_iter().flatten().flatten() { monitor::unregister(&e.path()); }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- runtimes
/// One thread, a clock that moves only when nothing can run: the same seed gives the same execution
pub fn rt() -> tokio::runtime::Runtime {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).max_blocking_threads(4).build().unwrap();
    rt
}
/// How long (in virtual time, which passes only when nothing can run) an operation may take
pub const STUCK: Duration = Duration::from_secs(3600);
/// Run `f`; None if it cannot finish: only timers were left to run for an hour of virtual time
pub async fn finishes<T>(f: impl Future<Output = T>) -> Option<T> { tokio::time::timeout(STUCK, f).await.ok() }

// ---------------------------------------------------------------- pools
#[derive(Clone, Debug)]
pub struct Shape {
    /// disks per mirror, mirrors per cluster, stripe width, redundancy, clusters
    pub m: usize, pub n: usize, pub k: i16, pub f: i16, pub clusters: usize,
    pub cs: Option<u64>, pub zone: u64, pub fsize: u64,
}
impl Shape {
    pub fn disks(&self) -> usize { self.m * self.n * self.clusters }
    pub fn random(r: &Rng) -> Shape {
        let (m, n, k, f, clusters) = *r.pick(&[(1, 1, 1, 0, 1), (1, 1, 1, 0, 1), (2, 1, 1, 0, 1), (1, 1, 1, 0, 2), (1, 3, 3, 1, 1), (1, 5, 3, 1, 1), (1, 5, 4, 2, 1), (2, 3, 3, 1, 1), (1, 3, 2, 1, 2), (1, 7, 5, 3, 1)]);
        let cs = if n > 1 { Some(*r.pick(&[1u64, 2, 4, 7, 16])) } else { None };
        let zone = *r.pick(&[64u64, 128, 512, 1024]);
        Shape { m, n, k, f, clusters, cs, zone, fsize: 0 }.sized(*r.pick(&[24u64, 48, 96]) << 20)
    }
    pub fn sized(mut self, total: u64) -> Shape {
        // enough room on each disk for its share, its labels and spacemaps
        let per = total / (self.n as u64 * self.clusters as u64 * (self.k - self.f) as u64 / self.k as u64).max(1);
        self.fsize = per.max(self.zone * 4096 * 8) + (2 << 20);
        self
    }
    pub fn text(&self) -> String { format!("{}x(raid {} of {}+{} mirrors of {}) cs={:?} zone={} disk={}MiB", self.clusters, self.n, self.k - self.f, self.f, self.m, self.cs, self.zone, self.fsize >> 20) }
}
pub const NAME: &str = "testpool";
pub struct Disks { pub dir: Dir, pub paths: Vec<PathBuf>, pub devs: Vec<Arc<Device>>, pub shape: Shape }
impl Disks {
    pub fn new(shape: &Shape) -> Disks {
        let dir = Dir::new();
        let mut paths = vec![]; let mut devs = vec![];
        for i in 0..shape.disks() {
            let p = dir.0.join(format!("disk{i}"));
            std::fs::File::create(&p).unwrap().set_len(shape.fsize).unwrap();
            devs.push(monitor::register(&p).unwrap());
            paths.push(p);
        }
        Disks { dir, paths, devs, shape: shape.clone() }
    }
    /// Operations take between 0 and `max` extra polls
    pub fn jitter(&self, seed: u64, max: u64) {
        for (i, d) in self.devs.iter().enumerate() {
            let s = mon::mix(seed ^ (i as u64) << 32); let n = AtomicU64::new(0);
            d.set_policy(move |_| Action::Go((mon::mix(s.wrapping_add(n.fetch_add(1, Ordering::Relaxed))) % (max + 1)) as u32));
        }
    }
    pub fn ops(&self) -> u64 { self.devs.iter().map(|d| d.ops()).sum() }
    pub fn mirrors(&self) -> Vec<Mirror> {
        self.paths.chunks(self.shape.m).map(|c| Mirror::create(c, NonZeroU64::new(self.shape.zone)).unwrap()).collect()
    }
    pub fn pool(&self) -> Pool {
        let mut ms = self.mirrors().into_iter();
        let mut cl = vec![];
        for _ in 0..self.shape.clusters {
            let v: Vec<Mirror> = ms.by_ref().take(self.shape.n).collect();
            cl.push(Cluster::create(bfffs_core::raid::create(self.shape.cs.and_then(NonZeroU64::new), self.shape.k, self.shape.f, v)));
        }
        Pool::create(NAME.into(), cl)
    }
    pub fn idml(&self, cache: usize) -> Arc<IDML> {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(cache)));
        let ddml = Arc::new(DDML::create(self.pool(), cache.clone()));
        Arc::new(IDML::create(ddml, cache))
    }
    pub fn database(&self, cache: usize) -> Database { Database::create(self.idml(cache)) }
    pub async fn manager(&self, order: &[usize], cache: usize, wb: Option<usize>) -> Manager {
        let mut m = Manager::default();
        m.cache_size(cache);
        if let Some(w) = wb { m.writeback_size(w); }
        for i in order { let _ = m.taste(&self.paths[*i]).await; }
        m
    }
    pub async fn import(&self, cache: usize, wb: Option<usize>) -> bfffs_core::Result<Database> {
        let order: Vec<usize> = (0..self.paths.len()).collect();
        self.manager(&order, cache, wb).await.import_by_name(NAME).await
    }
}
/// Import the pool from these disks
pub async fn import_from(paths: &[PathBuf], cache: usize, wb: Option<usize>) -> bfffs_core::Result<Database> {
    let mut m = Manager::default();
    m.cache_size(cache);
    if let Some(w) = wb { m.writeback_size(w); }
    for p in paths { let _ = m.taste(p).await; }
    m.import_by_name(NAME).await
}
/// Stop the background tasks of a database nobody else uses
pub async fn close(db: Arc<Database>) -> Result<(), String> {
    for _ in 0..1000 { if Arc::strong_count(&db) == 1 { break; } tokio::task::yield_now().await; }
    match Arc::try_unwrap(db) { Ok(db) => { db.shutdown().await; Ok(()) } Err(d) => Err(format!("the database is still in use by {} others", Arc::strong_count(&d) - 1)) }
}
pub async fn root_fs(db: &Arc<Database>) -> (Fs, TreeID) {
    let (_, id) = db.lookup_fs("").await.unwrap();
    let id = id.unwrap();
    (Fs::new(db.clone(), id).await, id)
}
