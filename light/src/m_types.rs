//! The types that go to disk and over the wire.
use crate::cache::Key;
use crate::types::*;
use crate::writeback::{Credit, WriteBack};
use mon::*;
use num_traits::{FromPrimitive, ToPrimitive};
use serde_json::json;
use speedy::{Readable, Writable};
use std::result::Result;

pub fn types() {
    let mut c = Check::new("C13", "exhaustive-small+random", "distinct values of on-disk and wire types put through their encodings");
    let r = guard(|| -> Result<(), (&'static str, String)> {
        macro_rules! wire { ($t:ty, $v:expr, $len:expr) => {{
            let v: $t = $v; let b = v.write_to_vec().map_err(|e| ("wire", format!("{v:?}: {e}")))?;
            match <$t>::read_from_buffer(&b) { Ok(w) if w == v => (), x => return Err(("wire", format!("{v:?} is encoded and read back as {x:?}"))) }
            if let Some(l) = $len { let l: usize = l; if b.len() != l { return Err(("size", format!("{v:?} takes {} bytes and not {l}", b.len()))); } }
            for cut in 0..b.len() { if <$t>::read_from_buffer(&b[..cut]).is_ok() { return Err(("truncated", format!("{v:?} is read from {cut} of {} bytes", b.len()))); } }
            c.eval(); c.distinct(hash(&format!("{} {v:?}", stringify!($t)))); c.count(stringify!($t), 1);
        }}; }
        macro_rules! serde { ($t:ty, $v:expr) => {{ let v: $t = $v; let j = serde_json::to_string(&v).map_err(|e| ("serde", format!("{v:?}: {e}")))?; match serde_json::from_str::<$t>(&j) { Ok(w) if w == v => (), x => return Err(("serde", format!("{v:?} is serialized as {j} and read back as {x:?}"))) } }}; }
        // errors: every number is either an error of its own or no error at all
        let mut known = 0;
        for i in -5i32..1000 {
            if let Some(e) = Error::from_i32(i) {
                known += 1;
                wire!(Error, e, Some(2));
                if e.to_i32() != Some(i) { return Err(("errno", format!("{i} is {e:?}, which is {:?}", e.to_i32()))); }
                if e != Error::EUNKNOWN {
                    if i32::from(e) != i { return Err(("errno", format!("{e:?} becomes {} and not {i}", i32::from(e)))); }
                    if Error::from(std::io::Error::from_raw_os_error(i)) != e { return Err(("errno", format!("os error {i} becomes {:?}", Error::from(std::io::Error::from_raw_os_error(i))))); }
                }
                if e.to_string().is_empty() { return Err(("errno", format!("{e:?} has no text"))); }
            } else {
                if Error::from(std::io::Error::from_raw_os_error(i)) != Error::EUNKNOWN { return Err(("errno", format!("os error {i}, which is not known, becomes {:?}", Error::from(std::io::Error::from_raw_os_error(i))))); }
                let b = (i as i16).write_to_vec().unwrap();
                if Error::read_from_buffer(&b).ok() != Some(Error::EUNKNOWN) { return Err(("errno", format!("an unknown code {i} on the wire becomes {:?}", Error::read_from_buffer(&b)))); }
            }
        }
        if known < 80 { return Err(("errno", format!("only {known} error codes"))); }
        if Error::from(std::io::Error::new(std::io::ErrorKind::Other, "x")) != Error::EUNKNOWN { return Err(("errno", "an error without a code".into())); }
        for (n, e) in [(nix::Error::EIO, Error::EIO), (nix::Error::ENOSPC, Error::ENOSPC), (nix::Error::ENOENT, Error::ENOENT), (nix::Error::EACCES, Error::EACCES), (nix::Error::EINVAL, Error::EINVAL), (nix::Error::ENXIO, Error::ENXIO)] { if Error::from(n) != e { return Err(("errno", format!("{n:?} becomes {:?}", Error::from(n)))); } }
        for (e, n) in [(Error::EPERM, libc::EPERM), (Error::ENOENT, libc::ENOENT), (Error::EIO, libc::EIO), (Error::EACCES, libc::EACCES), (Error::EEXIST, libc::EEXIST), (Error::ENOTDIR, libc::ENOTDIR), (Error::EISDIR, libc::EISDIR), (Error::EINVAL, libc::EINVAL), (Error::ENOSPC, libc::ENOSPC), (Error::ENOTEMPTY, libc::ENOTEMPTY), (Error::ENOATTR, libc::ENOATTR), (Error::EINTEGRITY, libc::EINTEGRITY), (Error::ENAMETOOLONG, libc::ENAMETOOLONG), (Error::ENXIO, libc::ENXIO), (Error::EAGAIN, libc::EAGAIN), (Error::EBADF, libc::EBADF), (Error::EFBIG, libc::EFBIG), (Error::EOPNOTSUPP, libc::EOPNOTSUPP), (Error::ERANGE, libc::ERANGE)] { if i32::from(e) != n { return Err(("errno", format!("{e:?} is {}", i32::from(e)))); } }
        let seed = c.seed;
        for i in 0..(if c.tier == "thorough" { 400_000u64 } else { 20_000 }) {
            let mut rng = Rng::case(seed, i);
            let x = rng.next() >> rng.below(64); let y = rng.next() as u16 >> rng.below(16);
            let p = PBA::new(y, x); wire!(PBA, p, Some(PBA::TYPICAL_SIZE)); serde!(PBA, p);
            if p.cluster != y || p.lba != x { return Err(("pba", format!("{p:?} from {y} {x}"))); }
            wire!(RID, RID(x), Some(RID::TYPICAL_SIZE)); serde!(RID, RID(x));
            if RID(x).to_string() != x.to_string() { return Err(("rid", format!("{} is printed {}", x, RID(x)))); }
            let t = TxgT(x as u32); wire!(TxgT, t, Some(4)); serde!(TxgT, t);
            if u32::from(t) != x as u32 || TxgT::from(x as u32) != t { return Err(("txg", format!("{t:?}"))); }
            if t.0 < u32::MAX - 100 { let d = rng.below(100) as u32; let mut u = t; u += d; if t + d != u || u - d != t || u.0 != t.0 + d || t.checked_add(TxgT(d)) != Some(u) || (t < u) != (d > 0) { return Err(("txg", format!("{t:?} + {d} is {u:?}"))); } }
            let q = PBA::new(rng.next() as u16 >> rng.below(16), rng.next() >> rng.below(64));
            if p.cmp(&q) != (p.cluster, p.lba).cmp(&(q.cluster, q.lba)) { return Err(("order", format!("{p:?} and {q:?} compare {:?}", p.cmp(&q)))); }
            let z = rng.next() >> rng.below(64); if RID(x).cmp(&RID(z)) != x.cmp(&z) { return Err(("order", format!("record {x} and {z}"))); }
            if (Key::Rid(RID(x)) == Key::Rid(RID(z))) != (x == z) || (Key::PBA(p) == Key::PBA(q)) != (p == q) || Key::Rid(RID(x)) == Key::PBA(PBA::new(0, x)) { return Err(("key", format!("{x} {z}"))); }
            let mut b = [0u8; 16]; rng.fill(&mut b);
            let u = Uuid::from_uuid(uuid::Uuid::from_bytes(b)); wire!(Uuid, u, Some(16)); serde!(Uuid, u);
            if u.write_to_vec().unwrap() != b { return Err(("uuid", format!("{u} is encoded otherwise than as its 16 bytes"))); }
            match (Uuid::parse_str(&u.to_string()), u.to_string().parse::<Uuid>()) { (Ok(v), Ok(w)) if v == u && w == u => (), x => return Err(("uuid", format!("{u} is read back as {x:?}"))) }
            // what is taken for a UUID is what the uuid crate takes for one
            let mut t: Vec<char> = match rng.below(4) { 0 => u.to_string().replace('-', ""), 1 => format!("{{{u}}}"), 2 => format!("urn:uuid:{u}"), _ => u.to_string() }.chars().collect();
            for _ in 0..rng.below(3) { let at = rng.usize(t.len() + 1); match rng.below(4) { 0 => t.insert(at, *rng.pick(&['-', ' ', '0', 'g', 'F', '\n', '{', '}'])), 1 if at < t.len() => { t.remove(at); } 2 if at < t.len() => t[at] = *rng.pick(&['-', 'A', 'f', 'x', '9', ' ']), _ => { let e = rng.chance(1, 2); let c = *rng.pick(&[' ', '\n', '\t', '-']); if e { t.push(c) } else { t.insert(0, c) } } } }
            let t: String = t.into_iter().collect();
            let want = uuid::Uuid::parse_str(&t).ok().map(Uuid::from_uuid);
            if t.parse::<Uuid>().ok() != want || Uuid::parse_str(&t).ok() != want { return Err(("uuid", format!("{t:?} is read as {:?} and {:?} and not {want:?}", t.parse::<Uuid>().ok(), Uuid::parse_str(&t).ok()))); }
            match serde_json::to_value(u) { Ok(serde_json::Value::Array(a)) if a.len() == 16 && a.iter().zip(b).all(|(x, y)| x.as_u64() == Some(y as u64)) => (), x => return Err(("uuid", format!("{u} is serialized as {x:?}"))) }
            let short: Vec<u8> = b[..rng.usize(16)].to_vec(); if serde_json::from_value::<Uuid>(json!(short)).is_ok() { return Err(("uuid", "fewer than 16 bytes are taken for a UUID".into())); }
        }
        if TXG_MAX.checked_add(TxgT(2)).is_some() || TXG_MAX.checked_add(TxgT(1)) != Some(TxgT(u32::MAX)) { return Err(("txg", "overflow goes unnoticed".into())); }
        let many: std::collections::HashSet<_> = (0..2000).map(|_| Uuid::new_v4()).collect();
        if many.len() != 2000 { return Err(("uuid", "new UUIDs repeat".into())); }
        if u32::TYPICAL_SIZE != 4 || f32::TYPICAL_SIZE != 4 { return Err(("size", "primitive".into())); }
        Ok(())
    });
    c.sample(json!("PBA, RID, TxgT, Uuid, Error"));
    match r { Ok(Ok(())) => (), Ok(Err((k, e))) => c.violation(k, &json!({"what": e})), Err(e) => c.violation("panic", &json!({"panic": e})) }
    c.finish()
}
