//! Stand-in for the crate `tokio-seqpacket`: sockets of one process, whose peers are who the monitor says they are; or, where the
//! path leads to a stream socket, packets with their lengths in front on it.
use std::{collections::{HashMap, VecDeque}, fmt, io::{self, Read, Write}, os::unix::net::UnixStream, path::{Path, PathBuf}, sync::{Arc, Mutex}};
use tokio::sync::{mpsc, Notify};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UCred { uid: u32, gid: u32, pid: Option<i32> }
impl UCred { pub fn uid(&self) -> u32 { self.uid } pub fn gid(&self) -> u32 { self.gid } pub fn pid(&self) -> Option<i32> { self.pid } }
pub mod monitor {
    use super::*;
    pub(crate) static LISTENERS: Mutex<Option<HashMap<PathBuf, mpsc::UnboundedSender<UnixSeqpacket>>>> = Mutex::new(None);
    pub(crate) static CRED: Mutex<UCred> = Mutex::new(UCred { uid: 0, gid: 0, pid: Some(1) });
    /// Who whoever connects next is
    pub fn next_is(uid: u32, gid: u32) { *CRED.lock().unwrap() = UCred { uid, gid, pid: Some(1000) }; }
}
/// Packets on their way in one direction
#[derive(Default)]
struct Line { q: Mutex<(VecDeque<Vec<u8>>, bool)>, n: Notify }
impl Line {
    fn close(&self) { self.q.lock().unwrap().1 = true; self.n.notify_waiters(); self.n.notify_one(); }
}
pub struct UnixSeqpacket { rx: Arc<Line>, tx: Arc<Line>, peer: UCred, stream: Option<Mutex<UnixStream>> }
impl fmt::Debug for UnixSeqpacket { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a socket to {:?}", self.peer) } }
impl Drop for UnixSeqpacket { fn drop(&mut self) { self.rx.close(); self.tx.close(); } }
fn err(e: i32) -> io::Error { io::Error::from_raw_os_error(e) }
impl UnixSeqpacket {
    pub async fn connect<P: AsRef<Path>>(path: P) -> io::Result<Self> {
        let nobody = UCred { uid: u32::MAX, gid: u32::MAX, pid: None };
        if std::fs::metadata(path.as_ref()).is_ok_and(|m| std::os::unix::fs::FileTypeExt::is_socket(&m.file_type())) {
            return Ok(UnixSeqpacket { rx: Default::default(), tx: Default::default(), peer: nobody, stream: Some(Mutex::new(UnixStream::connect(path)?)) });
        }
        let (a, b): (Arc<Line>, Arc<Line>) = Default::default();
        let cred = *monitor::CRED.lock().unwrap();
        let far = UnixSeqpacket { rx: a.clone(), tx: b.clone(), peer: cred, stream: None };
        let tx = monitor::LISTENERS.lock().unwrap().get_or_insert_with(HashMap::new).get(path.as_ref()).cloned().ok_or_else(|| err(2))?;
        tx.send(far).map_err(|_| err(61))?;
        Ok(UnixSeqpacket { rx: b, tx: a, peer: nobody, stream: None })
    }
    pub fn peer_cred(&self) -> io::Result<UCred> { Ok(self.peer) }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        if let Some(s) = &self.stream { let mut s = s.lock().unwrap(); s.write_all(&(buf.len() as u32).to_le_bytes())?; s.write_all(buf)?; return Ok(buf.len()); }
        let mut q = self.tx.q.lock().unwrap();
        if q.1 { return Err(err(32)); }
        q.0.push_back(buf.to_vec()); drop(q);
        self.tx.n.notify_one();
        Ok(buf.len())
    }
    /// What does not fit is lost, as with any such socket
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(s) = &self.stream {
            let mut s = s.lock().unwrap(); let mut l = [0; 4];
            if s.read_exact(&mut l).is_err() { return Ok(0); }
            let mut p = vec![0; u32::from_le_bytes(l) as usize]; s.read_exact(&mut p)?;
            let l = p.len().min(buf.len()); buf[..l].copy_from_slice(&p[..l]); return Ok(l);
        }
        loop {
            let n = self.rx.n.notified();
            { let mut q = self.rx.q.lock().unwrap();
              if let Some(p) = q.0.pop_front() { let l = p.len().min(buf.len()); buf[..l].copy_from_slice(&p[..l]); return Ok(l); }
              if q.1 { return Ok(0); } }
            n.await;
        }
    }
}
pub struct UnixSeqpacketListener { rx: mpsc::UnboundedReceiver<UnixSeqpacket>, path: PathBuf }
impl UnixSeqpacketListener {
    pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<Self> {
        // as bind(2) does
        std::fs::OpenOptions::new().write(true).create_new(true).open(path.as_ref()).map_err(|_| err(48))?;
        let (tx, rx) = mpsc::unbounded_channel();
        monitor::LISTENERS.lock().unwrap().get_or_insert_with(HashMap::new).insert(path.as_ref().to_owned(), tx);
        Ok(UnixSeqpacketListener { rx, path: path.as_ref().to_owned() })
    }
    pub async fn accept(&mut self) -> io::Result<UnixSeqpacket> { match self.rx.recv().await { Some(s) => Ok(s), None => std::future::pending().await } }
}
impl Drop for UnixSeqpacketListener { fn drop(&mut self) { if let Some(l) = monitor::LISTENERS.lock().unwrap().as_mut() { l.remove(&self.path); } } }
