From f73bf95a0291c53bc15bed8e4b0b87deb4e11369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/65] fix: widen PRIME-S stripe and offset arithmetic

The number of a stripe within its repetition and the offset of a chunk within
it can exceed 16 bits for large layouts (e.g. 41 disks with 20 data chunks per
stripe), so translation panicked or, without overflow checks, mapped different
chunks to the same place.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..633a96f 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: i32
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = i32::from(disks_per_stripe) * i32::from(num_disks - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: i32,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From 1d101ceadf8125cf42f3c97d36bbae4b4e90b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/65] fix: pad scatter-gather lists of any shape

A whole-block or empty buffer after a partial one failed an assertion, a longer
one was unimplemented, and a block boundary inside an appended buffer went
unnoticed.
---
 bfffs-core/src/util.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..d3c1d97 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -85,29 +85,24 @@ pub fn copy_and_pad_sglist(bufs: SGList) -> SGList {
         let mut outlist = SGList::with_capacity(bufs.len());
         let mut accumulator: Option<Vec<u8>> = None;
         for mut db in bufs.into_iter() {
-            if db.len() % BYTES_PER_LBA == 0 {
-                assert!(accumulator.is_none());
-                outlist.push(db);
-                continue
-            }
             if let Some(ref mut accum) = accumulator {
-                if db.len() > BYTES_PER_LBA {
-                    unimplemented!();
-                }
+                // Top up the partial block
+                let want = BYTES_PER_LBA - accum.len();
                 // Data copy
-                accum.extend(&db[..]);
-                if accum.len() % BYTES_PER_LBA == 0 {
+                accum.extend(&db.split_to(want.min(db.len()))[..]);
+                if accum.len() == BYTES_PER_LBA {
                     let dbs = DivBufShared::from(
                         accumulator.take().unwrap()
                     );
                     let db = dbs.try_const().unwrap();
                     outlist.push(db);
                 }
-            } else {
-                if db.len() > BYTES_PER_LBA {
-                    let wlen = db.len() & !(BYTES_PER_LBA - 1);
-                    outlist.push(db.split_to(wlen));
-                }
+            }
+            if db.len() >= BYTES_PER_LBA {
+                let wlen = db.len() & !(BYTES_PER_LBA - 1);
+                outlist.push(db.split_to(wlen));
+            }
+            if !db.is_empty() {
                 // Data copy
                 accumulator = Some(Vec::from(&db[..]));
             }
-- 
2.43.0


From bb20ee62157fa28433c51a32c17af4bb70f811bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/65] fix: make a list of zero zeros

---
 bfffs-core/src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index d3c1d97..9c82d59 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -136,6 +136,9 @@ pub fn zero_sglist(len: usize) -> SGList {
     let zero_region_len = ZERO_REGION.len();
     let zero_bufs = len.div_ceil(zero_region_len);
     let mut sglist = SGList::new();
+    if zero_bufs == 0 {
+        return sglist;
+    }
     for _ in 0..(zero_bufs - 1) {
         sglist.push(ZERO_REGION.try_const().unwrap())
     }
-- 
2.43.0


From 40af5d619734b6c42cf0a2790b50811e17b432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/65] fix: a range between two equal excluded bounds is empty

---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 9c82d59..09b9834 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -156,7 +156,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From 2d6b676711b974e3aa374de3e09f04d4f32c7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/65] fix: accept recordsize=1048576

---
 bfffs-core/src/property.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..7f209e1 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,6 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
+                        1_048_576 => Ok(Property::RecordSize(20)),
+                        // Accepted for compatibility with an old typo
                         1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
-- 
2.43.0


From f4a16c84c2ef25fd48aa9662cc25495a0aeffc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 06/65] fix: print the source of a pseudoproperty as "none"

It was printed as "inherited", though "bfffs fs get -s" selects it as "none".
---
 bfffs-core/src/property.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 7f209e1..6cdb516 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -286,6 +286,7 @@ impl PropertySource {
 impl fmt::Display for PropertySource {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
+            Self::None => "none".fmt(f),
             Self::Default => "default".fmt(f),
             Self::LOCAL => "local".fmt(f),
             _ => "inherited".fmt(f)
-- 
2.43.0


From bc4a5d9ead934ec5cbb1a384c7d944c16e935d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 07/65] fix: step over empty segments of a scatter-gather list

The cursor took an empty segment in the middle of a list for the end of it, and
vectored parity generation panicked.
---
 bfffs-core/src/raid/sgcursor.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/raid/sgcursor.rs b/bfffs-core/src/raid/sgcursor.rs
index 12455ff..9631c83 100644
--- a/bfffs-core/src/raid/sgcursor.rs
+++ b/bfffs-core/src/raid/sgcursor.rs
@@ -26,6 +26,12 @@ impl SGCursor<'_> {
     /// It will be at most `max` bytes long, but it may be less.  If the
     /// `SGCursor` is empty, `None` will be returned
     pub fn next(&mut self, max: usize) -> Option<IoVec> {
+        // Empty segments hold nothing to return
+        while self.sglist_idx < self.sglist.len() &&
+            self.sglist[self.sglist_idx].is_empty()
+        {
+            self.sglist_idx += 1;
+        }
         let ncl = self.peek_len();
         if ncl == 0 {
             None
@@ -53,11 +59,10 @@ impl SGCursor<'_> {
     /// This will be the length of the next segment returned by
     /// `next(usize::MAX)`
     pub fn peek_len(&self) -> usize {
-        if self.sglist_idx < self.sglist.len() {
-            self.sglist[self.sglist_idx].len() - self.iovec_idx
-        } else {
-            0
-        }
+        self.sglist[self.sglist_idx..].iter()
+            .find(|iovec| !iovec.is_empty())
+            .map(|iovec| iovec.len() - self.iovec_idx)
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 7bc8c4c6d9304ab29147cf56834bcf8be3292599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 08/65] fix: finish pending cache insertions whatever becomes
 of them

A failed read left its pending insertion behind, so every later reader of the
block waited forever.  And the reader that fetched a block panicked if another
reader had stopped waiting, and the others panicked if the block was evicted
before they ran.
---
 bfffs-core/src/cache/mod.rs | 47 ++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..89cc208 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -115,6 +115,12 @@ impl Borrow<dyn CacheRef> for DivBuf {
     }
 }
 
+/// Outcome of a pending insertion: a reference to the new entry, or the error
+/// that prevented it from being inserted.
+#[doc(hidden)]
+pub type Insertion =
+    Result<Box<dyn CacheRef>, Box<dyn std::any::Any + Send>>;
+
 /// Basic read-only block cache.
 ///
 /// Caches on-disk blocks by either their address (cluster and LBA pair), or
@@ -124,7 +130,7 @@ impl Borrow<dyn CacheRef> for DivBuf {
 pub struct Cache{
     cache:self::lru::LruCache,
     #[doc(hidden)]
-    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<()>>>,
+    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<Insertion>>>,
 }
 
 impl Cache {
@@ -209,7 +215,6 @@ macro_rules! get_or_insert {
     ( $C: ty, $R: ty, $amself: expr, $key: expr, $f: expr) => {
         {
             use ::futures::FutureExt;
-            use ::futures::TryFutureExt;
 
             let mut guard = $amself.lock().unwrap();
             if let Some(t) = guard.get::<$R>(&$key) {
@@ -219,12 +224,13 @@ macro_rules! get_or_insert {
                 let (tx, rx) = ::futures::channel::oneshot::channel();
                 v.push(tx);
                 drop(guard);
-                let cache2 = $amself.clone();
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    match rx.await.unwrap() {
+                        Ok(t) => Ok(t.downcast::<$R>().unwrap()),
+                        Err(e) => {
+                            Err(*e.downcast::<$crate::types::Error>().unwrap())
+                        }
+                    }
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
@@ -232,16 +238,29 @@ macro_rules! get_or_insert {
             }
 
             let cache2 = $amself.clone();
-            $f.map_ok(move |cacheable: Box<$C>| {
-                let r = cacheable.make_ref();
+            $f.map(move |result: $crate::types::Result<Box<$C>>| {
                 let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
+                let waiters = guard.pending_insertions.remove(&$key)
+                    .unwrap_or_default();
+                match result {
+                    Ok(cacheable) => {
+                        // Give each waiter its own reference, because the
+                        // block might get evicted before the waiter runs.
+                        // Ignore any waiters that have disappeared.
+                        for s in waiters.into_iter() {
+                            let _ = s.send(Ok(cacheable.make_ref()));
+                        }
+                        let r = cacheable.make_ref();
+                        guard.insert($key, cacheable);
+                        Ok(r.downcast::<$R>().unwrap())
+                    },
+                    Err(e) => {
+                        for s in waiters.into_iter() {
+                            let _ = s.send(Err(Box::new(e)));
+                        }
+                        Err(e)
                     }
                 }
-                r.downcast::<$R>().unwrap()
             }).boxed()
         }
     }
-- 
2.43.0


From 7fc3ee4299a88754da84a08f988efdecbed9ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 09/65] fix: reject out-of-range numbers in a RAID
 specification

They made "bfffs pool create"'s parser panic.
---
 bfffs/src/pool_create_parser.lalrpop | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/pool_create_parser.lalrpop b/bfffs/src/pool_create_parser.lalrpop
index 27e1701..6d54943 100644
--- a/bfffs/src/pool_create_parser.lalrpop
+++ b/bfffs/src/pool_create_parser.lalrpop
@@ -1,11 +1,14 @@
 // vim: filetype=rust
 
 use std::str::FromStr;
+use lalrpop_util::ParseError;
 use crate::pool_create_ast::{Disk, Mirror, Raid, RaidChild, Tlv, Pool};
 
 grammar;
 
-Num: i16 = r"[0-9]+" => i16::from_str(<>).unwrap();
+Num: i16 = r"[0-9]+" =>? i16::from_str(<>).map_err(|_| ParseError::User {
+    error: "number out of range"
+});
 
 Disk: Disk<'input> = {
     r"[/a-zA-Z][^ \t\n]*" => Disk(<>)
-- 
2.43.0


From 516011b2e5dd3565b3cc820b0efdbb721bceeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 10/65] fix: don't lose a wakeup between two users of the
 write-back bank

---
 bfffs-core/src/writeback/writeback.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..4ab9699 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -253,6 +253,12 @@ impl WriteBack {
                     let sleeper = Sleeper { tx, wants: iwants };
                     guard.push_back(sleeper);
                     self.supply.fetch_or(1, Release);
+                    drop(guard);
+                    // Credit may have been repayed before we set the flag, or
+                    // while our own fetch_sub made it look like there wasn't
+                    // enough of it for a sleeper.  In either case, nobody else
+                    // will awaken the sleepers.
+                    self.awaken();
                     break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
                 }
             } else {
-- 
2.43.0


From 0d7eb952b1098ac0de53ba55d881230380163b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 11/65] fix: readdir: resume in the middle of a bucket at the
 right cookie

After skipping the entries that had already been returned from a bucket of
colliding names, the cookies of the following entries were computed as if
nothing had been skipped.  With three or more colliding names, a reader that
resumes from each entry's cookie never got past the bucket.
---
 bfffs-core/src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..b4c8351 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1934,6 +1934,7 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
+                            let returned = self.bucket_idx;
                             for _ in 0..self.bucket_idx {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
@@ -1944,7 +1945,7 @@ impl Fs {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
                                     kofs: k.offset(),
-                                    returned: 0
+                                    returned
                                 });
                                 Poll::Ready(Some(Ok(self.pop_bucket())))
                             } else {
-- 
2.43.0


From 457ae990ffe68a2a4bfbe06ec2bf85eea4140815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 12/65] fix: link: keep other entries whose names collide with
 the new one

Like every other function that adds a directory entry, link must go through
htable::insert, or else it overwrites the entry or bucket of entries whose names
have the same hash.
---
 bfffs-core/src/fs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index b4c8351..9ba33a0 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1433,10 +1433,13 @@ impl Fs {
             let ifut = ds.insert(inode_key, FSValue::inode(iv));
 
             let dirent_objkey = ObjKey::dir_entry(&name);
-            let dirent = Dirent { ino, dtype, name };
+            let dirent = Dirent { ino, dtype, name: name.clone() };
             let dirent_key = FSKey::new(parent_ino, dirent_objkey);
-            let dirent_value = FSValue::DirEntry(dirent);
-            let dfut = ds.insert(dirent_key, dirent_value);
+            let dfut = htable::insert(ds.clone(), dirent_key, dirent, name)
+                .map_ok(|r: Option<Dirent>| {
+                    assert!(r.is_none(),
+                    "Link over an existing file.  The VFS should prevent this")
+                });
 
             let now = Timespec::now();
             let parent_attr = SetAttr {
-- 
2.43.0


From 8d7abcef12c031c0fb05a689301339b1dd019938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 13/65] fix: link: do not lose the new link count

Both the update of the link count and the update of the ctime are
read-modify-writes of the same inode, and they ran concurrently.  When the
former's insert had to wait for a reader of the node, the latter could read the
old inode and write it back on top.
---
 bfffs-core/src/fs.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 9ba33a0..fdc6f5b 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1423,7 +1423,9 @@ impl Fs {
             let inode_key = FSKey::new(ino, ObjKey::Inode);
             let r = ds.get(inode_key).await?;
             let mut iv = r.unwrap().as_mut_inode().unwrap().clone();
+            let now = Timespec::now();
             iv.nlink += 1;
+            iv.ctime = now;
             let dtype = iv.file_type.dtype();
             // FUSE is single-threaded, so we don't have to worry that
             // the target gets deleted before we increase its link
@@ -1441,22 +1443,15 @@ impl Fs {
                     "Link over an existing file.  The VFS should prevent this")
                 });
 
-            let now = Timespec::now();
             let parent_attr = SetAttr {
                 ctime: Some(now),
                 mtime: Some(now),
                 .. Default::default()
             };
-            let parent_fut = Fs::do_setattr(ds.clone(), parent_ino,
+            let parent_fut = Fs::do_setattr(ds, parent_ino,
                 parent_attr);
 
-            let ctime_attr = SetAttr {
-                ctime: Some(now),
-                .. Default::default()
-            };
-            let ctime_fut = Fs::do_setattr(ds, ino, ctime_attr);
-
-            future::try_join4(ifut, dfut, parent_fut, ctime_fut).await?;
+            future::try_join3(ifut, dfut, parent_fut).await?;
             Ok(())
         }).map_err(Error::into)
         .await
-- 
2.43.0


From 8e6ecca1308f2466e162686baaf12b6cd3b3743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 14/65] fix: vdev_file: check the length of the buffer being
 written

DivBuf's Borrow returns the whole of the underlying vector, not the slice that
the DivBuf refers to, so this assertion failed for correct writes of a part of
a bigger buffer.
---
 bfffs-core/src/vdev_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..6752156 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -475,10 +474,7 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From 3a4c8abd8b4ad8dd924eff7520b35194b77221e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 15/65] fix: copy an extent's buffer before modifying it if it
 is still in use

A record that was recently flushed may still be referenced, for example by the
stripe buffer of a RAID device that has not been filled yet.  Partially
overwriting, truncating or deallocating such a record panicked.
---
 bfffs-core/src/fs.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index fdc6f5b..be84c1a 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -886,7 +886,8 @@ impl Fs {
                     future::ok(0)
                 }.boxed(),
                 Some(FSValue::InlineExtent(ile)) => async move {
-                    let mut b = ile.buf.try_mut().unwrap();
+                    let buf = Fs::exclusive_buf(ile.buf);
+                    let mut b = buf.try_mut().unwrap();
                     let r = if recofs > b.len() as u64 {
                         // Nothing to do.  The truncation happens in a part of
                         // the record that is already sparse.
@@ -903,7 +904,7 @@ impl Fs {
                         }
                         0
                     };
-                    let extent = InlineExtent::new(ile.buf);
+                    let extent = InlineExtent::new(buf);
                     let v = FSValue::InlineExtent(extent);
                     dataset.insert(k, v).await?;
                     Ok(r)
@@ -953,12 +954,13 @@ impl Fs {
                         future::ok(0).boxed()
                     },
                     Some(FSValue::InlineExtent(ile)) => async move {
-                        let mut b = ile.buf.try_mut().unwrap();
+                        let buf = Fs::exclusive_buf(ile.buf);
+                        let mut b = buf.try_mut().unwrap();
                         if len < b.len() as u64 {
                             for i in 0..len {
                                 b[i as usize] = 0;
                             }
-                            let extent = InlineExtent::new(ile.buf);
+                            let extent = InlineExtent::new(buf);
                             let v = FSValue::InlineExtent(extent);
                             dataset4.insert(k, v).await?;
                             Ok(0)
@@ -979,6 +981,19 @@ impl Fs {
             .map_ok(|(left, whole, right)| left + whole + right).await
     }
 
+    /// Return a buffer with the same contents that nobody else is using.
+    ///
+    /// A recently flushed or recently read extent's buffer may still be in use,
+    /// for example by a RAID device's stripe buffer or by a slow reader.
+    fn exclusive_buf(dbs: Arc<DivBufShared>) -> Arc<DivBufShared> {
+        if dbs.try_mut().is_ok() {
+            dbs
+        } else {
+            let db = dbs.try_const().unwrap();
+            Arc::new(DivBufShared::from(Vec::from(&db[..])))
+        }
+    }
+
     /// Unlink a file whose inode number is known and whose directory entry is
     /// already deleted.
     fn do_unlink(dataset: Arc<ReadWriteFilesystem>,
@@ -2519,7 +2534,7 @@ impl Fs {
                 },
                 Some(FSValue::InlineExtent(ile)) => {
                     let old_len = ile.len() as i64;
-                    (ile.buf, old_len)
+                    (Fs::exclusive_buf(ile.buf), old_len)
                 },
                 // Some(FSValue::BlobExtent(be)) should never happen, because
                 // FSValue::dpop will change it to an inline extent.
-- 
2.43.0


From 53ab3ce96e7fa2165c693bf76102ddc60d326074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 16/65] fix: setextattr: don't lose an attribute that is
 flushed during a collision

htable::insert looked up the value it had just inserted in order to add it to a
bucket.  If the value had been flushed in between, then storing the bucket
deleted the blob that the bucket refers to.
---
 bfffs-core/src/fs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index be84c1a..db23531 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -147,8 +147,11 @@ mod htable {
                         future::ok::<Option<T>, Error>(Some(old)).boxed()
                     } else {
                         // We had a hash collision setting an unrelated
-                        // item. Get the old value back, and pack them together.
-                        dataset.as_ref().get(key)
+                        // item. Get the new value back, and pack them together.
+                        // Use remove rather than get, because the new value may
+                        // already have been flushed, and then reinserting a
+                        // copy would delete the blob that the copy refers to.
+                        dataset.as_ref().remove(key)
                         .and_then(move |r| {
                             let v = r.unwrap();
                             let new = T::try_from(v).unwrap();
@@ -162,8 +165,9 @@ mod htable {
                 },
                 HTValue::Bucket(mut old) => {
                     // There was previously a hash collision.  Get the new value
-                    // back, then pack them together.
-                    dataset.as_ref().get(key)
+                    // back, then pack them together.  Use remove rather than
+                    // get; see above.
+                    dataset.as_ref().remove(key)
                     .and_then(move |r| {
                         let v = r.unwrap();
                         let new = T::try_from(v).unwrap();
@@ -2283,7 +2287,7 @@ impl Fs {
             extent
         });
         let bb = extattr.allocated_space();
-        self.db.fswrite(self.tree, 2, 0, 0, bb, move |dataset| {
+        self.db.fswrite(self.tree, 2, 0, 1, bb, move |dataset| {
             let ads = Arc::new(dataset);
             htable::insert(ads, key, extattr, owned_name)
                 .map_ok(drop)
-- 
2.43.0


From 0ca24d30f34fd9ea939642f22e08802451736aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 17/65] fix: don't panic when an extent is flushed while a
 reader has a copy of it

A RangeQuery copies all of a leaf node's matching items, so extents' buffers may
be shared while the query is waiting for the next node.  For the same reason,
don't modify shared buffers in place, and don't keep a buffer locked once other
tasks can see it.
---
 bfffs-core/src/fs.rs      |  5 ++++-
 bfffs-core/src/fs_tree.rs | 13 +++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index db23531..1a747b5 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -908,6 +908,7 @@ impl Fs {
                         }
                         0
                     };
+                    drop(b);
                     let extent = InlineExtent::new(buf);
                     let v = FSValue::InlineExtent(extent);
                     dataset.insert(k, v).await?;
@@ -964,6 +965,7 @@ impl Fs {
                             for i in 0..len {
                                 b[i as usize] = 0;
                             }
+                            drop(b);
                             let extent = InlineExtent::new(buf);
                             let v = FSValue::InlineExtent(extent);
                             dataset4.insert(k, v).await?;
@@ -990,7 +992,7 @@ impl Fs {
     /// A recently flushed or recently read extent's buffer may still be in use,
     /// for example by a RAID device's stripe buffer or by a slow reader.
     fn exclusive_buf(dbs: Arc<DivBufShared>) -> Arc<DivBufShared> {
-        if dbs.try_mut().is_ok() {
+        if Arc::strong_count(&dbs) == 1 && dbs.try_mut().is_ok() {
             dbs
         } else {
             let db = dbs.try_const().unwrap();
@@ -2555,6 +2557,7 @@ impl Fs {
 
             // Overwrite with new data
             base[r].copy_from_slice(&overlay[..]);
+            drop(base);
             let extent = InlineExtent::new(dbs);
             let new_len = extent.len() as i64;
             let new_v = FSValue::InlineExtent(extent);
diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..3733821 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -574,7 +574,7 @@ impl InlineExtAttr {
         debug_assert!(lsize > BLOB_THRESHOLD);
         let namespace = self.namespace;
         let name = self.name;
-        let dbs = Arc::try_unwrap(self.extent.buf).unwrap();
+        let dbs = self.extent.into_dbs();
         dml.put(dbs, Compression::None, txg)
         .map_ok(move |rid: D::Addr| {
             let rid_a = checked_transmute(rid);
@@ -1062,7 +1062,7 @@ impl InlineExtent {
     {
         let lsize = self.len();
         assert!(lsize > BLOB_THRESHOLD);
-        let dbs = Arc::try_unwrap(self.buf).unwrap();
+        let dbs = self.into_dbs();
         let gfut = dml.put(dbs, Compression::None, txg);
         let g_type_id = gfut.type_id();
         let cfut: Pin<Box<dyn Future<Output=Result<RID>> + Send>> = unsafe {
@@ -1073,6 +1073,15 @@ impl InlineExtent {
         InlineExtentFlush{k, inner: cfut, lsize: lsize as u32}
     }
 
+    /// Take the buffer.  Copy it if a reader is still using it, for example a
+    /// RangeQuery that hasn't yet reached it.
+    fn into_dbs(self) -> DivBufShared {
+        Arc::try_unwrap(self.buf).unwrap_or_else(|buf| {
+            let db = buf.try_const().unwrap();
+            DivBufShared::from(Vec::from(&db[..]))
+        })
+    }
+
     pub fn len(&self) -> usize {
         self.buf.len()
     }
-- 
2.43.0


From bec5697bad88068135f621c453df695d514ce4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 18/65] fix: kill a zone that was completely freed before it
 closed

---
 bfffs-core/src/cluster.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..c130834 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -898,6 +898,12 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            // If everything in the zone was already freed while it was open,
+            // then there won't be any future frees to kill it.
+            if wg.in_use(zone_id) == 0 {
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From fa39850214d57d8813065acc090c59a7da2a390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 19/65] fix: hold the transaction open while cleaning a zone

The guard was dropped before clean_zone's future was polled, so a sync could
run at the same time as the cleaner.
---
 bfffs-core/src/cleaner.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 9526ce9..3f5a72a 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -46,10 +46,11 @@ impl SyncCleaner {
             .map(Ok)
             .try_for_each(move |zone| {
                 let idml3 = idml2.clone();
-                idml2.txg()
-                .then(move |txg_guard| 
-                    idml3.clean_zone(zone, *txg_guard)
-                )
+                async move {
+                    // Hold the transaction open until the zone is clean
+                    let txg_guard = idml3.txg().await;
+                    idml3.clean_zone(zone, *txg_guard).await
+                }
             })
         })
     }
-- 
2.43.0


From f887e26871a6173a748ebaf4098cf9947ca08d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 20/65] fix: don't clean a zone that was written in this
 transaction

A record that's being written isn't in the AllocT yet, so the cleaner would
miss it, and then remove its AllocT entry.
---
 bfffs-core/src/cleaner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 3f5a72a..1645325 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -49,6 +49,12 @@ impl SyncCleaner {
                 async move {
                     // Hold the transaction open until the zone is clean
                     let txg_guard = idml3.txg().await;
+                    if zone.txgs.end > *txg_guard {
+                        // The zone was written during this transaction, so
+                        // some of its records may not be in the AllocT yet.
+                        // Leave it until the next time.
+                        return Ok(());
+                    }
                     idml3.clean_zone(zone, *txg_guard).await
                 }
             })
-- 
2.43.0


From 9bdaddd4931256c07139278482a08b2b4e8b29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 21/65] fix: don't move a record while somebody deletes it

The cleaner and IDML::delete/pop both looked up the record's address, then
freed it.
---
 bfffs-core/src/idml/idml.rs | 50 ++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..f50f6ba 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -35,6 +35,12 @@ pub struct IDML {
 
     ddml: Arc<DDML>,
 
+    /// Keeps the cleaner from moving a record while somebody deletes it.
+    ///
+    /// Anybody who deletes records locks it for reading, and the cleaner locks
+    /// it for writing, for one record at a time.
+    move_lock: RwLock<()>,
+
     /// Holds the next RID to allocate.  They are never reused.
     next_rid: AtomicU64,
 
@@ -207,20 +213,36 @@ impl<'a> IDML {
         let ddml3 = self.ddml.clone();
         #[cfg(debug_assertions)]
         let zid = zone.zid;
+        let move_lock2 = self.move_lock.clone();
+        let move_lock3 = self.move_lock.clone();
         let pba = zone.pba;
         let total_blocks = zone.total_blocks;
         // Cleaning normally happens in the background, so limit concurrency to
         // 1, so as not to interfere too much with foreground tasks
         self.list_indirect_records(&zone)
         .try_for_each(move |record| {
-            IDML::move_record(&cache2, ridt2.clone(), alloct2.clone(), &ddml2,
-                record, txg)
-            .map_ok(move |drp| {
+            let cache3 = cache2.clone();
+            let ddml4 = ddml2.clone();
+            let ridt4 = ridt2.clone();
+            let alloct4 = alloct2.clone();
+            let move_lock4 = move_lock2.clone();
+            async move {
+                let _guard = move_lock4.write().await;
+                if ridt4.get(record).await?.is_none() {
+                    // Somebody deleted the record after we listed it.
+                    return Ok(());
+                }
+                let drp = IDML::move_record(&cache3, ridt4, alloct4, &ddml4,
+                    record, txg).await?;
                 // We shouldn't have moved the record into the same zone
                 debug_assert!(drp.pba().cluster != pba.cluster ||
                               drp.pba().lba < pba.lba ||
                               drp.pba().lba >= pba.lba + total_blocks);
-            })
+                Ok(())
+            }
+        }).and_then(move |_| {
+            // Wait for any deletions of this zone's records to finish
+            move_lock3.write().map(|_guard| Ok(()))
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
@@ -256,7 +278,8 @@ impl<'a> IDML {
         let transaction = RwLock::new(TxgT::from(0));
         // TODO: apply configurable writeback size
         let writeback = WriteBack::limitless();
-        IDML{cache, ddml, next_rid, transaction, alloct, ridt, writeback}
+        let move_lock = RwLock::new(());
+        IDML{cache, ddml, move_lock, next_rid, transaction, alloct, ridt, writeback}
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -354,6 +377,7 @@ impl<'a> IDML {
         let idml = IDML{
             cache,
             ddml,
+            move_lock: RwLock::new(()),
             next_rid,
             transaction,
             alloct,
@@ -525,7 +549,10 @@ impl DML for IDML {
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
         let rid = *ridp;
-        let fut = self.ridt.get(rid)
+        let ridt3 = self.ridt.clone();
+        let fut = self.move_lock.read()
+        .then(move |guard| {
+            ridt3.get(rid)
             .and_then(move |oentry| {
                 let mut entry = match oentry {
                     Some(e) => e,
@@ -549,7 +576,11 @@ impl DML for IDML {
                         .map_ok(|old| assert!(old.is_some()));
                     ridt_fut.boxed()
                 }
-            });
+            }).map(move |r| {
+                drop(guard);
+                r
+            })
+        });
         Box::pin(fut)
     }
 
@@ -587,9 +618,10 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
-        let efut = self.ridt.get(rid);
+        let lock_fut = self.move_lock.read();
         async move {
-            let mut entry = efut.await?
+            let _guard = lock_fut.await;
+            let mut entry = ridt2.get(rid).await?
                 .ok_or(Error::ENOENT)?;
             entry.refcount -= 1;
             if entry.refcount == 0 {
-- 
2.43.0


From 53a3c3193d9fff3751bfd75321ed01790e3a7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 22/65] fix: don't read a stripe from disk while it's being
 flushed

A record is considered written once it's in the StripeBuffer, but between
leaving the StripeBuffer and reaching the disk it couldn't be read.
---
 bfffs-core/src/raid/vdev_raid.rs | 81 +++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..826ba6f 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -32,7 +32,7 @@ use std::{
     path::Path,
     pin::Pin,
     ptr,
-    sync::{Arc, RwLock}
+    sync::{Arc, Mutex, RwLock}
 };
 use super::{
     LocatorImpl,
@@ -435,6 +435,20 @@ pub struct Label {
     pub children:       Vec<Uuid>
 }
 
+/// Stripes that have left their [`StripeBuffer`]s, but aren't on disk yet.
+///
+/// They're indexed by the LBA of the beginning of the stripe.  Some of their
+/// data may have already been reported to the writer as written.
+type Flushing = Arc<Mutex<BTreeMap<LbaT, SGList>>>;
+
+/// Removes a stripe from [`Flushing`] when its write is finished or dropped.
+struct FlushingGuard(Flushing, LbaT);
+impl Drop for FlushingGuard {
+    fn drop(&mut self) {
+        self.0.lock().unwrap().remove(&self.1);
+    }
+}
+
 /// Future type of [`VdevRaid::read_spacemap`]
 #[pin_project]
 pub struct ReadSpacemap {
@@ -524,6 +538,11 @@ pub struct VdevRaid {
     /// stripes uses fewer resources than only cacheing the parity information.
     stripe_buffers: RwLock<BTreeMap<ZoneT, StripeBuffer>>,
 
+    /// Stripes that are currently being flushed from `stripe_buffers`.
+    ///
+    /// Reads must not get this data from the disks.
+    flushing: Flushing,
+
     uuid: Uuid,
 
     inner: Arc<Inner>,
@@ -698,6 +717,7 @@ impl VdevRaid {
             optimum_queue_depth,
             size,
             stripe_buffers: RwLock::new(BTreeMap::new()),
+            flushing: Flushing::default(),
             uuid,
             inner
         }
@@ -796,6 +816,41 @@ impl VdevRaid {
     // needed, we will also read Parity chunks if they're bookended by Data
     // chunks.  And we just might need them for reconstruction, if there's an
     // EIO.
+    /// Write out a stripe that was just removed from a `StripeBuffer`
+    ///
+    /// The caller must still hold the lock on `stripe_buffers`.
+    fn flush_stripe(&self, sglist: SGList, lba: LbaT) -> BoxVdevFut {
+        let fut = self.writev_at_one(&sglist, lba);
+        self.flushing.lock().unwrap().insert(lba, sglist);
+        let guard = FlushingGuard(self.flushing.clone(), lba);
+        Box::pin(fut.map(move |r| {
+            drop(guard);
+            r
+        }))
+    }
+
+    /// Get any data in the given inclusive LBA range that's currently being
+    /// flushed, along with its offset in bytes from `lba`.
+    fn flushing_extents(&self, lba: LbaT, end_lba: LbaT) -> Vec<(usize, IoVec)>
+    {
+        let want_start = lba as usize * BYTES_PER_LBA;
+        let want_end = (end_lba + 1) as usize * BYTES_PER_LBA;
+        let mut extents = Vec::new();
+        for (slba, sglist) in self.flushing.lock().unwrap().range(..=end_lba) {
+            let mut ofs = *slba as usize * BYTES_PER_LBA;
+            for iovec in sglist {
+                let start = cmp::max(ofs, want_start);
+                let end = cmp::min(ofs + iovec.len(), want_end);
+                if start < end {
+                    extents.push((start - want_start,
+                                  iovec.slice(start - ofs, end - ofs)));
+                }
+                ofs += iovec.len();
+            }
+        }
+        extents
+    }
+
     fn read_at_multi(
         &self,
         mut buf: IoVecMut,
@@ -2115,7 +2170,7 @@ impl VdevRaidApi for VdevRaid {
             sb.pad();
             let lba = sb.lba();
             let sgl = sb.pop();
-            futs.push(self.writev_at_one(&sgl, lba))
+            futs.push(self.flush_stripe(sgl, lba))
         }
         futs.extend(
             self.inner.children.iter()
@@ -2150,8 +2205,9 @@ impl VdevRaidApi for VdevRaid {
                     let pad_lbas = sb.pad();
                     let lba = sb.lba();
                     let sgl = sb.pop();
+                    let fut = self.flush_stripe(sgl, lba);
                     drop(sb_ref);
-                    (pad_lbas, Box::pin(self.writev_at_one(&sgl, lba)))
+                    (pad_lbas, fut)
                 }
             }
         }
@@ -2167,10 +2223,12 @@ impl VdevRaidApi for VdevRaid {
         assert_eq!(buf.len() % BYTES_PER_LBA, 0, "reads must be LBA-aligned");
 
         let mut justreturn = false;
+        let flushing;
         // end_lba is inclusive.  The highest LBA from which data will be read
         let mut end_lba = lba + ((buf.len() - 1) / BYTES_PER_LBA) as LbaT;
         let buf2 = {
             let sb_ref = self.stripe_buffers.read().unwrap();
+            flushing = self.flushing_extents(lba, end_lba);
 
             // Look for a StripeBuffer that contains part of the requested
             // range.  There should only be a few zones open at any one time, so
@@ -2222,12 +2280,23 @@ impl VdevRaidApi for VdevRaid {
         if justreturn {
             return Box::pin(future::ok(()))
         }
+        let dbi = buf2.clone_inaccessible();
         let start_stripe = lba / (self.chunksize * m as LbaT);
         let end_stripe = end_lba / (self.chunksize * m);
-        if start_stripe == end_stripe {
+        let fut: BoxVdevFut = if start_stripe == end_stripe {
             Box::pin(self.read_at_one(buf2, lba))
         } else {
             Box::pin(self.read_at_multi(buf2, lba))
+        };
+        if flushing.is_empty() {
+            fut
+        } else {
+            Box::pin(fut.map_ok(move |_| {
+                let mut dbm = dbi.try_mut().unwrap();
+                for (ofs, iovec) in flushing {
+                    dbm[ofs..ofs + iovec.len()].copy_from_slice(&iovec[..]);
+                }
+            }))
         }
     }
 
@@ -2429,7 +2498,7 @@ impl VdevRaidApi for VdevRaid {
                     let stripe_lba = stripe_buffer.lba();
                     let sglist = stripe_buffer.pop();
                     lba += ((buflen - buf2.len()) / BYTES_PER_LBA) as LbaT;
-                    futs.push(self.writev_at_one(&sglist, stripe_lba));
+                    futs.push(self.flush_stripe(sglist, stripe_lba));
                 }
                 buf2
             } else {
@@ -2447,7 +2516,7 @@ impl VdevRaidApi for VdevRaid {
                         // completing a stripe
                         let slba = stripe_buffer.lba();
                         let sglist = stripe_buffer.pop();
-                        futs.push(self.writev_at_one(&sglist, slba));
+                        futs.push(self.flush_stripe(sglist, slba));
                     }
                     debug_assert!(!stripe_buffer.is_full());
                     debug_assert!(buf4.is_empty());
-- 
2.43.0


From f6b44eac25d62b3094a4908d32b7e6946810136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 23/65] fix: read_long: don't reconstruct from parity that
 wasn't read

---
 bfffs-core/src/raid/vdev_raid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 826ba6f..1609ffa 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1394,11 +1394,13 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
-                            let mut dbm = sdbmi.next().unwrap();
-                            missing.push(dbm.as_mut_ptr());
-                            vdbm.push(dbm);
+                            if cid.is_data() {
+                                let mut dbm = sdbmi.next().unwrap();
+                                missing.push(dbm.as_mut_ptr());
+                                vdbm.push(dbm);
+                            }
                         } else {
                             let dbs = buffers[disk].as_mut().unwrap();
                             let mut db = dbs.try_const().unwrap();
-- 
2.43.0


From 258bb92ba625e8956c94637ca12e3946e9740937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 24/65] fix: sync a RAID array that has missing or faulted
 mirrors

---
 bfffs-core/src/raid/vdev_raid.rs | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 1609ffa..41bd7e4 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -312,8 +312,10 @@ impl Child {
         }
     }
 
-    fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> ChildReadSpacemap {
-        self.as_present().unwrap().read_spacemap(buf, smidx)
+    fn read_spacemap(&self, buf: IoVecMut, smidx: u32)
+        -> Option<ChildReadSpacemap>
+    {
+        self.as_present().map(|m| m.read_spacemap(buf, smidx))
     }
 
     fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> ChildReadFut {
@@ -381,14 +383,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        -> Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -479,6 +483,12 @@ impl Future for ReadSpacemap {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
+                    // Skip any missing or faulted children
+                    while *pinned.next < pinned.inner.children.len() &&
+                        !pinned.inner.children[*pinned.next].is_present()
+                    {
+                        *pinned.next += 1;
+                    }
                     if *pinned.next >= pinned.inner.children.len() {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
@@ -489,7 +499,7 @@ impl Future for ReadSpacemap {
             let buf = pinned.dbi.try_mut().unwrap();
             let child = &pinned.inner.children[*pinned.next];
             *pinned.next += 1;
-            let new_fut = child.read_spacemap(buf, *pinned.smidx);
+            let new_fut = child.read_spacemap(buf, *pinned.smidx).unwrap();
             pinned.fut.replace(new_fut);
         }
     }
@@ -2331,11 +2341,14 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.children.iter()
+            .position(Child::is_present)
+            .unwrap_or(0);
+        let fut = inner.children[first].read_spacemap(buf, smidx);
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next: first + 1,
             dbi,
             smidx,
             fut
@@ -2536,7 +2549,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2547,7 +2560,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From 06d0b2f9ab7839a873dce08342a0c64078d2e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 25/65] fix: allow syncing one mirror while other zones are
 being written

---
 bfffs-core/src/raid/vdev_raid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 41bd7e4..5a39332 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2462,7 +2462,10 @@ impl VdevRaidApi for VdevRaid {
     fn sync_all(&self, mirror_idx: Option<usize>) -> BoxVdevFut {
         // Don't flush zones ourselves; the Cluster layer must be in charge of
         // that, so it can update the spacemap.
+        // But syncing just one mirror is done while rebuilding it.  That doesn't
+        // concern any data that hasn't been written to the mirrors yet.
         debug_assert!(
+            mirror_idx.is_some() ||
             self.stripe_buffers.read().unwrap()
             .values()
             .all(StripeBuffer::is_empty),
-- 
2.43.0


From 9fb9ae81fdab2ef9973286453d6745ac8051c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 26/65] fix: repair all of an open zone's data

---
 bfffs-core/src/raid/vdev_raid.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 5a39332..d6b0981 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2381,13 +2381,30 @@ impl VdevRaidApi for VdevRaid {
             let m = self.inner.codec.stripesize() as u64 - f;
             let n = self.inner.locator.disks();
             let lbas_per_stripe = self.chunksize * m;
-            let flushed_lbas = u64::from(lbas) - u64::from(lbas) % lbas_per_stripe;
-            let flushed_chunks: u64 = flushed_lbas / self.chunksize;
+            // The disks' zones don't necessarily begin at a repetition boundary,
+            // so consider the absolute address of the end of the flushed data.
+            let (end_lba, disk_start) = match self.stripe_buffers.read()
+                .unwrap()
+                .get(&zone)
+            {
+                Some(sb) => (sb.lba(),
+                             self.first_healthy_child().zone_limits(zone).0),
+                None => {
+                    let lbas = u64::from(lbas);
+                    (lbas - lbas % lbas_per_stripe, 0)
+                }
+            };
+            let flushed_chunks = end_lba / self.chunksize;
             let end = ChunkId::Data(flushed_chunks);
-            let start = ChunkId::Data(flushed_chunks.saturating_sub(n.into()));
+            // Two iterations' worth of stripes certainly includes every disk,
+            // and on any one disk stripes are laid out in order.
+            let start = flushed_chunks.saturating_sub(2 * u64::from(n) * m);
+            let start = ChunkId::Data(start);
             for (_id, loc) in self.inner.locator.iter(start, end) {
                 if loc.disk == mirror_idx as i16 {
-                    maxlba = NonZeroU64::new((loc.offset + 1) * self.chunksize);
+                    let disk_end = (loc.offset + 1) * self.chunksize;
+                    maxlba = NonZeroU64::new(
+                        disk_end.saturating_sub(disk_start));
                 }
             }
             if maxlba.is_none() {
-- 
2.43.0


From 45f02c65fe336f753a071afb0825db3583fe555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 27/65] fix: import every leaf of a mirror even if a stale
 label was tasted last

---
 bfffs-core/src/mirror.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..6909ca7 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -110,7 +110,17 @@ impl Manager {
     /// for building Pools.
     pub async fn taste<P: AsRef<Path>>(&mut self, p: P) -> Result<LabelReader> {
         let mut reader = self.vbm.taste(p).await?;
-        let ml: Label = reader.deserialize().unwrap();
+        let mut ml: Label = reader.deserialize().unwrap();
+        if let Some(old) = self.mirrors.get(&ml.uuid) {
+            // If one of the mirror's leaves is stale, then its label may not
+            // list all of the others.  We must import every leaf that any label
+            // lists, so as to find out which is the most recent.
+            for child in old.children.iter() {
+                if !ml.children.contains(child) {
+                    ml.children.push(*child);
+                }
+            }
+        }
         self.mirrors.insert(ml.uuid, ml);
         Ok(reader)
     }
-- 
2.43.0


From 0bed2c97c3c08ba2888a257ef4d70cee3eb35f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 28/65] fix: vdev_block: don't panic if nobody awaits an
 operation

---
 bfffs-core/src/vdev_block.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..1984886 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -522,7 +522,8 @@ impl Inner {
                 tokio::spawn( async move {
                     let r = fut.await;
                     for sender in senders{
-                        sender.send(r).unwrap();
+                        // An error means that nobody cares about the result
+                        let _ = sender.send(r);
                     }
                     inner.write().unwrap().queue_depth -= 1;
                     schfut.await
@@ -532,7 +533,7 @@ impl Inner {
                 // This normally doesn't happen, but it can happen on a
                 // heavily laden system or one with very fast storage.
                 for sender in senders {
-                    sender.send(r).unwrap();
+                    let _ = sender.send(r);
                 }
                 self.queue_depth -= 1;
             }
-- 
2.43.0


From d1e05d5d7d0f4e7c6a6496a3da100c2b659866fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 29/65] fix: read_long: remember which disk failed

---
 bfffs-core/src/raid/vdev_raid.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index d6b0981..62c7e1e 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1360,13 +1360,14 @@ impl VdevRaid {
             let dbm = dbs.try_mut().unwrap();
             buffers[disk_idx] = Some(dbs);
             self.inner.children[disk_idx].read_at(dbm, disk_lba)
+                .map(move |r| (disk_idx, r))
         }).collect::<FuturesOrdered<_>>()
-        .collect::<Vec<Result<()>>>()
+        .collect::<Vec<(usize, Result<()>)>>()
         .map(move |dv| {
             let mut failures = FixedBitSet::with_capacity(n);
-            for (i, v) in dv.iter().enumerate() {
-                if v.is_err() {
-                    failures.set(i, true);
+            for (disk_idx, r) in dv.iter() {
+                if r.is_err() {
+                    failures.set(*disk_idx, true);
                 }
             }
             // Now iterate over all combinations of disk failures
-- 
2.43.0


From 0b4781d028a8a542488d673e0231afd4a6d4a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 30/65] fix: mirror: write to every child even if one fails

---
 bfffs-core/src/mirror.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 6909ca7..eff9857 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -827,8 +827,9 @@ impl Mirror {
         let fut = self.children.iter().filter_map(|blockdev| {
             blockdev.write_at(buf.clone(), lba)
         }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
+        // Even if one child fails, the others still need the data
+        .collect::<Vec<Result<()>>>()
+        .map(|v| v.into_iter().collect::<Result<()>>());
         Box::pin(fut)
     }
 
@@ -871,8 +872,9 @@ impl Mirror {
         let fut = self.children.iter().filter_map(|blockdev| {
             blockdev.writev_at(bufs.clone(), lba)
         }).collect::<FuturesUnordered<_>>()
-        .try_collect::<Vec<_>>()
-        .map_ok(drop);
+        // Even if one child fails, the others still need the data
+        .collect::<Vec<Result<()>>>()
+        .map(|v| v.into_iter().collect::<Result<()>>());
         Box::pin(fut)
     }
 }
-- 
2.43.0


From 7141c2fec87e2dddb9ff12e83596b0f285099b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 31/65] fix: recover from any read error that the array's
 redundancy allows

---
 bfffs-core/src/mirror.rs         |  15 ++-
 bfffs-core/src/raid/vdev_raid.rs | 178 ++++++++++++++++++-------------
 2 files changed, 117 insertions(+), 76 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index eff9857..fe5ff71 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -932,7 +932,10 @@ impl Future for ReadAt {
                 }
             }
             // Try a different child.
-            let buf = pinned.dbi.try_mut().unwrap();
+            let Ok(buf) = pinned.dbi.try_mut() else {
+                // Our caller must be using other parts of the same buffer.
+                return Poll::Ready(Err(Error::EAGAIN));
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.read_at(buf, *pinned.lba);
             pinned.fut.replace(new_fut);
@@ -1010,9 +1013,13 @@ impl Future for ReadvAt {
                 }
             }
             // Try a different child.
-            let bufs = pinned.dbis.iter()
-                .map(|dbi| dbi.try_mut().unwrap())
-                .collect::<Vec<_>>();
+            let Ok(bufs) = pinned.dbis.iter()
+                .map(|dbi| dbi.try_mut())
+                .collect::<std::result::Result<Vec<_>, _>>()
+            else {
+                // Our caller must be using other parts of the same buffer.
+                return Poll::Ready(Err(Error::EAGAIN));
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.readv_at(bufs, *pinned.lba);
             pinned.fut.replace(new_fut);
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 62c7e1e..5b8eb70 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1060,10 +1060,25 @@ impl VdevRaid {
         async move {
             let dv = rfut.collect::<Vec<_>>().await;
 
-            // TODO: on error, issue extra parity reads.
+            let unexpected_error = |(child, r): (&Child, &Result<()>)|
+                child.is_present() && r.is_err();
 
             if dv.iter().all(Result::is_ok) {
                 Ok(())
+            } else if inner.children.iter().zip(dv.iter()).any(unexpected_error)
+            {
+                // We haven't read enough parity to recover from this error.
+                drop(buf);
+                let mut rbuf = dbi.try_mut().unwrap();
+                for s in start_stripe..=last_stripe {
+                    let usslba = ulba.max(s * lbas_per_stripe);
+                    let uselba = uelba.min((s + 1) * lbas_per_stripe);
+                    let sbytes = (uselba - usslba) as usize * BYTES_PER_LBA;
+                    let data = rbuf.split_to(sbytes);
+                    Self::recover_stripe(&inner, chunksize, data, usslba)
+                        .await?;
+                }
+                Ok(())
             } else {
                 // Split the range into single stripes and perform error
                 // recovery on each.  It isn't the most efficient, but this
@@ -1134,8 +1149,7 @@ impl VdevRaid {
             None
         };
 
-        let mut start_chunk_addr = start_lba / chunksize;
-        let start_cid = ChunkId::Data(start_chunk_addr);
+        let start_cid = ChunkId::Data(start_lba / chunksize);
         let end_lba_remainder = end_lba % lbas_per_stripe;
         let end_cid = if faulted_children > 0 && faulted_children < f {
             ChunkId::Parity(stripe_lba / chunksize, faulted_children)
@@ -1225,79 +1239,24 @@ impl VdevRaid {
         }).collect::<FuturesOrdered<_>>();
 
         async move {
-            let mut nerrs;
-            let mut dv = rfut.collect::<Vec<Result<()>>>().await;
-
-            let mut old_nerrs = faulted_children;
-            loop {
-                nerrs = dv.iter().filter(|x| x.is_err()).count() as i16;
-                if nerrs <= old_nerrs {
-                    break;
-                }
-                debug_assert!(dv.len() - (nerrs as usize) < m);
-                // Some disk must've had an unexpected error.  Read enough
-                // parity for reconstruction.
-                if nerrs > f {
-                    // Too many errors.  No point in attempting recovery. :(
-                    break
-                }
-                if exbufs.is_none() {
-                    exbufs = Some(Vec::with_capacity(nerrs as usize));
-                }
-                let start_cid = ChunkId::Data(stripe_lba / chunksize);
-                let end_cid = if nerrs > 0 && nerrs < f {
-                    ChunkId::Parity(stripe_lba / chunksize, nerrs)
-                } else {
-                    ChunkId::Data(end_of_stripe_lba / chunksize)
-                };
-                let rfut = inner.locator.iter(start_cid, end_cid)
-                .map(|(cid, loc)| {
-                    if let ChunkId::Parity(_, pid) = cid {
-                        debug_assert!(pid < nerrs);
-                        if pid < old_nerrs {
-                            // Already read it
-                            let dvidx = m + pid as usize;
-                            Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                        } else {
-                            let dbs = DivBufShared::uninitialized(col_len);
-                            let dbm = dbs.try_mut().unwrap();
-                            exbufs.as_mut().unwrap().push(dbs);
-                            let disk_lba = loc.offset * chunksize;
-                            Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                        }
-                    } else if cid.address() < start_chunk_addr {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    } else if cid.address() - start_chunk_addr < dv.len() as u64
-                    {
-                        // should've already read it
-                        let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
-                    } else {
-                        // Need to read this data chunk for parity
-                        // reconstruction
-                        let dbs = DivBufShared::uninitialized(col_len);
-                        let dbm = dbs.try_mut().unwrap();
-                        exbufs.as_mut().unwrap().push(dbs);
-                        let disk_lba = loc.offset * chunksize;
-                        Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
-                    }
-                }).collect::<FuturesOrdered<_>>();
-                start_chunk_addr = stripe_lba / chunksize;
-                old_nerrs = nerrs;
-                dv = rfut.collect::<Vec<Result<()>>>().await;
-            }
-
-            if nerrs > f {
+            let dv = rfut.collect::<Vec<Result<()>>>().await;
+            let nerrs = dv.iter().filter(|r| r.is_err()).count() as i16;
+            // Errors that don't mean that the data can't be read
+            let nretry = dv.iter()
+                .filter(|r| **r == Err(Error::EAGAIN))
+                .count() as i16;
+
+            if nerrs - nretry > f {
                 // Reconstruction is impossible :(
                 dv.into_iter()
                     .find(Result::is_err)
                     .unwrap()
+            } else if nerrs > faulted_children {
+                // Some disk must've had an unexpected error.  We haven't read
+                // enough to recover from that.
+                drop(buf);
+                let data = dbi.try_mut().unwrap();
+                Self::recover_stripe(&inner, chunksize, data, ulba).await
             } else if nerrs > 0 {
                 // We must reconstruct the data
                 drop(buf);
@@ -1572,6 +1531,81 @@ impl VdevRaid {
         })
     }
 
+    /// Read part of a single stripe after an unexpected error.
+    ///
+    /// This reads every chunk of the stripe, including parity, into temporary
+    /// buffers.  It isn't the most efficient, but this should be a rare case.
+    async fn recover_stripe(
+        inner: &Arc<Inner>,
+        chunksize: LbaT,
+        // Copy the data to here
+        mut data: DivBufMut,
+        // LBA where the data begins
+        lba: LbaT,
+    ) -> Result<()>
+    {
+        let k = inner.codec.stripesize() as usize;
+        let m = k - inner.codec.protection() as usize;
+        let col_len = chunksize as usize * BYTES_PER_LBA;
+        let stripe = lba / (chunksize * m as LbaT);
+
+        let start = ChunkId::Data(stripe * m as u64);
+        let end = ChunkId::Data((stripe + 1) * m as u64);
+        let (bufs, futs): (Vec<_>, FuturesOrdered<_>) = inner.locator
+            .iter(start, end)
+            .map(|(_cid, loc)| {
+                let dbs = DivBufShared::uninitialized(col_len);
+                let dbm = dbs.try_mut().unwrap();
+                let disk_lba = loc.offset * chunksize;
+                let child = &inner.children[loc.disk as usize];
+                (dbs, child.read_at(dbm, disk_lba))
+            }).unzip();
+        let v = futs.collect::<Vec<Result<()>>>().await;
+
+        if v.iter().filter(|r| r.is_ok()).count() < m {
+            return v.into_iter()
+                .find(Result::is_err)
+                .unwrap();
+        }
+
+        let mut cols = bufs.iter()
+            .map(|dbs| dbs.try_mut().unwrap())
+            .collect::<Vec<_>>();
+        let mut surviving = Vec::with_capacity(m);
+        let mut missing = Vec::with_capacity(k - m);
+        let mut erasures = FixedBitSet::with_capacity(k);
+        for (i, (col, r)) in cols.iter_mut().zip(v.iter()).enumerate() {
+            if r.is_ok() {
+                if surviving.len() < m {
+                    surviving.push(col.as_ptr());
+                }
+            } else {
+                if i < m {
+                    missing.push(col.as_mut_ptr());
+                }
+                erasures.set(i, true);
+            }
+        }
+        if !missing.is_empty() {
+            // Safe because all columns are still owned by cols, and they all
+            // have the same length.
+            unsafe {
+                inner.codec.decode(col_len, &surviving, &mut missing,
+                                   &erasures);
+            }
+        }
+
+        let mut ofs = (lba % (chunksize * m as LbaT)) as usize * BYTES_PER_LBA;
+        while !data.is_empty() {
+            let col_ofs = ofs % col_len;
+            let len = data.len().min(col_len - col_ofs);
+            data.split_to(len)[..].copy_from_slice(
+                &cols[ofs / col_len][col_ofs..col_ofs + len]);
+            ofs += len;
+        }
+        Ok(())
+    }
+
     /// Reconstruct a stripe of data, given surviving columns and parity
     fn read_at_reconstruction(
         codec: &Codec,
-- 
2.43.0


From 0b7d7ca3f4e82937d64004f02835d8e1307a389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 32/65] fix: don't reuse the transaction number of an imported
 pool's label

---
 bfffs-core/src/idml/idml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index f50f6ba..ecb9592 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -371,7 +371,9 @@ impl<'a> IDML {
         let l: Label = label_reader.deserialize().unwrap();
         let alloct = Arc::new(DTree::open(ddml.clone(), true, l.alloct));
         let ridt = Arc::new(DTree::open(ddml.clone(), true, l.ridt));
-        let transaction = RwLock::new(l.txg);
+        // Never reuse the transaction number of the label.  If we did, then a
+        // disk that isn't here now could later be mistaken for an up-to-date one.
+        let transaction = RwLock::new(l.txg + 1);
         let next_rid = AtomicU64::new(l.next_rid);
         let writeback = WriteBack::with_capacity(writeback_size);
         let idml = IDML{
-- 
2.43.0


From 39c900d03eca58340da6bd56c26d63a0c26c5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 33/65] fix: reconstruct records whose size isn't a multiple of
 the LBA size

---
 bfffs-core/src/ddml/ddml.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 20d525f..c2215cb 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -337,7 +337,10 @@ impl DDML {
                     match r {
                         Ok(reconstructions) => {
                             for rdbs in reconstructions {
+                                // Truncate, as above
                                 let rdb = rdbs.try_const().unwrap();
+                                let csize = rdb.len().min(drp.csize as usize);
+                                let rdb = rdb.slice_to(csize);
                                 let mut hasher = MetroHash64::new();
                                 checksum_iovec(&rdb, &mut hasher);
                                 let checksum = hasher.finish();
-- 
2.43.0


From f6d057bf38317f98bdb916edbfa492072316143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 34/65] fix: rebuild zones that were closed after the list of
 zones was made

---
 bfffs-core/src/cluster.rs | 40 +++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index c130834..a59f65f 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -830,6 +830,10 @@ pub struct RepairMirrorTask {
     /// been fully processed.
     next_txg: TxgT,
 
+    /// Every Zone that has ever been put on `zones`, and the transaction in
+    /// which it was then opened.
+    seen: BTreeMap<ZoneT, TxgT>,
+
     /// Ordered list of zones that we need to repair.  If a Zone isn't on this
     /// list, then it either:
     /// * Doesn't need repair because it's Empty or Dead
@@ -839,7 +843,21 @@ pub struct RepairMirrorTask {
     ///   needs repair, but only after everything in this list has been
     ///   repaired.
     zones: VecDeque<ZoneT>,
-} 
+}
+
+impl RepairMirrorTask {
+    /// The first transaction to consider when gathering more Zones.
+    ///
+    /// A Zone that got closed since `zones` was determined may have an end
+    /// transaction as low as the highest one that was among `zones`.
+    fn gather_txg(&self) -> TxgT {
+        if self.next_txg > TxgT::from(1) {
+            self.next_txg - 2
+        } else {
+            TxgT::from(0)
+        }
+    }
+}
 
 /// The specification for what zones need to be repaired and in what order
 #[derive(Debug)]
@@ -1078,7 +1096,8 @@ impl Cluster {
         // next_txg needs to be low enough to encompass any zones that didn't
         // make it into zones, including those that might not yet be open.
         let initial_txg = txgs.start;
-        let zs = self.order_zones_for_repair(txgs, false);
+        let mut seen = BTreeMap::new();
+        let zs = self.order_zones_for_repair(txgs, false, &mut seen);
         let next_txg = if let Some(maxtxg) = zs.max_end_txg {
             maxtxg + 1
         } else {
@@ -1089,6 +1108,7 @@ impl Cluster {
             mirror_idx,
             zones: zs.zones,
             next_txg,
+            seen,
             min_open_txg: zs.min_open_txg
         }
     }
@@ -1101,15 +1121,21 @@ impl Cluster {
     /// - `txgs`              - Transaction range that needs to be repaired
     /// - `repair_open_zones` - Whether to include open zones in the list, or
     ///                         defer them for later.
+    /// - `seen`              - Zones that have already been listed, and their
+    ///                         start transactions.  They won't be listed again.
     fn order_zones_for_repair(
         &self,
         txgs: RangeFrom<TxgT>,
-        repair_open_zones: bool) -> RepairMirrorZoneSpec
+        repair_open_zones: bool,
+        seen: &mut BTreeMap<ZoneT, TxgT>) -> RepairMirrorZoneSpec
     {
         let fsm = self.fsm.read().unwrap();
         let mut zones: Vec<ZoneT> = fsm.contains(txgs)
             .filter(|zid| repair_open_zones || !fsm.is_open(*zid))
-            .collect();
+            .filter(|zid| {
+                let start = fsm.zones[*zid as usize].txgs.start;
+                seen.insert(*zid, start) != Some(start)
+            }).collect();
         // The list is likely to be partially sorted already, so sort() will
         // probably be faster than sort_unstable()
         zones.sort_by_key(|zid|
@@ -1202,8 +1228,10 @@ impl Cluster {
             // Generate a new list of zones, excluding all Zones that we've
             // already repaired.
             // Let the caller know whether there are more zones to repair
-            let zs = self.order_zones_for_repair(task.next_txg..,
-                                                 repair_open_zones);
+            let gather_txg = task.gather_txg();
+            let zs = self.order_zones_for_repair(gather_txg..,
+                                                 repair_open_zones,
+                                                 &mut task.seen);
             task.zones = zs.zones;
             if let Some(maxtxg) = zs.max_end_txg {
                 task.next_txg = maxtxg.checked_add(TxgT::from(1))
-- 
2.43.0


From 6370e5758b9898e0d593e66e49cfddf2c3482ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 35/65] fix: don't let an exclusive lock on the pool overtake
 writes in flight

---
 bfffs-core/src/ddml/ddml.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index c2215cb..b7cde3c 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -102,6 +102,8 @@ impl MirrorRepairTask {
     async fn repair_closed_zones(&mut self) -> Result<()> {
         loop {
             if let Some(pool) = self.wpool.upgrade() {
+                // Wait for the last writes to any zones that are closed by now.
+                drop(pool.write().await);
                 let more = pool.read().await
                     .repair_mirror_step(&mut self.pool_task, false).await?;
                 if !more {
@@ -196,7 +198,7 @@ impl DDML {
         -> impl Future<Output=Result<()>> + Send + Sync
     {
         self.pool.read()
-        .then(move |pool| pool.advance_transaction(txg))
+        .then(move |pool| async move { pool.advance_transaction(txg).await })
     }
 
     /// Assert that the given zone was clean as of the given transaction
@@ -255,7 +257,7 @@ impl DDML {
         -> impl Future<Output=Result<()>> + Send + Sync
     {
         self.pool.read()
-            .then(move |pool| pool.flush(idx))
+            .then(move |pool| async move { pool.flush(idx).await })
     }
 
     fn new(pool: Pool, cache: Arc<Mutex<Cache>>) -> Self {
@@ -435,9 +437,12 @@ impl DDML {
         checksum_iovec(&compressed_db, &mut hasher);
         let checksum = hasher.finish();
 
-        // Write
+        // Write, and hold the lock until done.  Nobody who locks the pool
+        // exclusively may see an allocation that's still being written.
         self.pool.read()
-        .then(move |pool| pool.write(compressed_db, txg))
+        .then(move |pool| async move {
+            pool.write(compressed_db, txg).await
+        })
         .map_ok(move |pba| {
             DRP { pba, compressed, lsize: lsize as u32, csize, checksum }
         })
@@ -489,7 +494,9 @@ impl DDML {
         -> impl Future<Output=Result<()>> + Send
     {
         self.pool.read()
-            .then(move |pool| pool.write_label(labeller, txg))
+            .then(move |pool| async move {
+                pool.write_label(labeller, txg).await
+            })
     }
 }
 
@@ -570,7 +577,7 @@ impl DML for DDML {
         -> Pin<Box<dyn Future<Output=Result<()>> + Send>>
     {
         let fut = self.pool.read()
-            .then(|p| p.sync_all());
+            .then(|p| async move { p.sync_all().await });
         Box::pin(fut)
     }
 }
-- 
2.43.0


From adb0406fdc41c52e00c2f1e506951d5cb0f6174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 36/65] fix: don't report a transaction synced while it's still
 being synced, or not at all

---
 bfffs-core/src/database/database.rs | 93 ++++++++++++++++-------------
 bfffs-core/src/raid/vdev_raid.rs    |  3 +-
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..918ea62 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -40,6 +40,7 @@ use std::{
 };
 use super::{Forest, TreeID};
 use tokio::{
+    sync::Mutex,
     task::JoinHandle,
     time::{Duration, Instant, sleep_until},
 };
@@ -156,6 +157,9 @@ struct Inner {
     // TreeID>) or by (<parent name>, <name>) or by <parent TreeID, hash(name)>?
     forest: Forest,
     idml: Arc<IDML>,
+    /// Held while syncing a transaction, so no caller can find `dirty` clear
+    /// until whatever had dirtied it is stable.
+    syncing: Mutex<()>,
 }
 
 impl Inner {
@@ -170,12 +174,12 @@ impl Inner {
         // from disk.  Ensure that it does not remain in the cache, too.  Do
         // this all in a single transaction.
         let tname = name.split('/').next_back().unwrap();
-        inner.dirty.store(true, Ordering::Relaxed);
 
         // First check that the tree exists ane ensure it is cached.
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -198,7 +202,8 @@ impl Inner {
     {
         let dirty = AtomicBool::new(true);
         let fs_trees = RwLock::new(BTreeMap::new());
-        Inner{dirty, fs_trees, idml, forest}
+        let syncing = Mutex::new(());
+        Inner{dirty, fs_trees, idml, forest, syncing}
     }
 
     fn new_filesystem(
@@ -251,7 +256,6 @@ impl Inner {
         where F: FnOnce(ReadWriteFilesystem) -> B,
               B: Future<Output=Result<R>>,
     {
-        inner.dirty.store(true, Ordering::Relaxed);
         Inner::open_filesystem(&inner, tree_id)
         .and_then(move |itree| async move {
             let cr = itree.credit_requirements();
@@ -263,6 +267,8 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            // Only now is it certain which transaction this will be part of
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -492,7 +498,6 @@ impl Database {
         -> Result<TreeID>
         where S: Into<String> + Debug + 'static
     {
-        self.inner.dirty.store(true, Ordering::Relaxed);
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
@@ -504,6 +509,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        inner3.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
@@ -717,10 +723,13 @@ impl Database {
             .map_ok(drop)
     }
 
-    #[auto_enum(Future)]
     fn sync_transaction_priv(inner: &Arc<Inner>)
         -> impl Future<Output=Result<()>>
     {
+        Database::sync_if_dirty(inner.clone())
+    }
+
+    async fn sync_if_dirty(inner: Arc<Inner>) -> Result<()> {
         // Outline:
         // 1) Flush the trees
         // 2) Sync the pool, so the label will be accurate.
@@ -729,43 +738,47 @@ impl Database {
         // 5) Write the second label
         // 6) Sync the pool again, in case we're about to physically pull the
         //    disk or power off.
+        let _guard = inner.syncing.lock().await;
         if !inner.dirty.swap(false, Ordering::Relaxed) {
-            future::ok(())
-        } else {
-            let inner2 = inner.clone();
-            inner.idml.advance_transaction(move |txg| async move {
-                let guard = inner2.fs_trees.read().await;
-                guard.values()
-                    .map(move |itree| {
-                        itree.clone().flush(txg)
-                    }).collect::<FuturesUnordered<_>>()
-                    .try_collect::<Vec<_>>().await?;
-                // TODO: only write out the dirty trees
-                let forest_futs = guard.iter()
-                    .map(|(tree_id, itree)| {
-                        inner2.forest
-                            .update_tree(*tree_id, itree.serialize().unwrap(), txg)
-                    }).collect::<FuturesUnordered<_>>();
-                drop(guard);
-                forest_futs.try_collect::<Vec<_>>().await?;
-                inner2.forest.flush(txg).await?;
-                inner2.idml.clone().flush(Some(0), txg).await?;
-                inner2.idml.sync_all(txg).await?;
-                let forest = inner2.forest.serialize();
-                let label = Label {forest};
-                inner2.write_label(&label, 0, txg).await?;
-                inner2.idml.clone().flush(Some(1), txg).await?;
-                // The only time we need to read the second label is if we lose
-                // power while writing the first.  The fact that we reached this
-                // point means that that won't happen, at least not until the
-                // _next_ transaction sync.  So we don't need an additional
-                // sync_all between inner2.idml.clone().flush(1, ...) and
-                // inner2.idml.sync_all(...).
-                inner2.idml.sync_all(txg).await?;
-                inner2.write_label(&label, 1, txg).await?;
-                inner2.idml.sync_all(txg).await
-            })
+            return Ok(());
+        }
+        let inner2 = inner.clone();
+        let r = inner.idml.advance_transaction(move |txg| async move {
+            let guard = inner2.fs_trees.read().await;
+            guard.values()
+                .map(move |itree| {
+                    itree.clone().flush(txg)
+                }).collect::<FuturesUnordered<_>>()
+                .try_collect::<Vec<_>>().await?;
+            // TODO: only write out the dirty trees
+            let forest_futs = guard.iter()
+                .map(|(tree_id, itree)| {
+                    inner2.forest
+                        .update_tree(*tree_id, itree.serialize().unwrap(), txg)
+                }).collect::<FuturesUnordered<_>>();
+            drop(guard);
+            forest_futs.try_collect::<Vec<_>>().await?;
+            inner2.forest.flush(txg).await?;
+            inner2.idml.clone().flush(Some(0), txg).await?;
+            inner2.idml.sync_all(txg).await?;
+            let forest = inner2.forest.serialize();
+            let label = Label {forest};
+            inner2.write_label(&label, 0, txg).await?;
+            inner2.idml.clone().flush(Some(1), txg).await?;
+            // The only time we need to read the second label is if we lose
+            // power while writing the first.  The fact that we reached this
+            // point means that that won't happen, at least not until the
+            // _next_ transaction sync.  So we don't need an additional
+            // sync_all between inner2.idml.clone().flush(1, ...) and
+            // inner2.idml.sync_all(...).
+            inner2.idml.sync_all(txg).await?;
+            inner2.write_label(&label, 1, txg).await?;
+            inner2.idml.sync_all(txg).await
+        }).await;
+        if r.is_err() {
+            inner.dirty.store(true, Ordering::Relaxed);
         }
+        r
     }
 
     /// Perform a read-write operation on a Filesystem
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 5b8eb70..d54de4c 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -357,7 +357,8 @@ impl Child {
         }
         *self = match old {
             Child::Present(m) => Child::Present(m),
-            Child::Faulted(m) => Child::Present(m),
+            // It got faulted while its disks were rebuilding
+            Child::Faulted(m) => Child::Faulted(m),
             Child::Missing(uuid) => Child::Missing(uuid),
         };
     }
-- 
2.43.0


From cb989ba8e28b092b1cd3d00e4bf2d5f1010455c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 37/65] fix: reconstruct records that have not entirely left
 the stripe buffer

---
 bfffs-core/src/raid/vdev_raid.rs | 70 +++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index d54de4c..bf7ee74 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -844,24 +844,33 @@ impl VdevRaid {
     /// flushed, along with its offset in bytes from `lba`.
     fn flushing_extents(&self, lba: LbaT, end_lba: LbaT) -> Vec<(usize, IoVec)>
     {
-        let want_start = lba as usize * BYTES_PER_LBA;
-        let want_end = (end_lba + 1) as usize * BYTES_PER_LBA;
         let mut extents = Vec::new();
         for (slba, sglist) in self.flushing.lock().unwrap().range(..=end_lba) {
-            let mut ofs = *slba as usize * BYTES_PER_LBA;
-            for iovec in sglist {
-                let start = cmp::max(ofs, want_start);
-                let end = cmp::min(ofs + iovec.len(), want_end);
-                if start < end {
-                    extents.push((start - want_start,
-                                  iovec.slice(start - ofs, end - ofs)));
-                }
-                ofs += iovec.len();
-            }
+            Self::overlap(*slba, sglist, lba, end_lba, &mut extents);
         }
         extents
     }
 
+    /// Append to `extents` the part of `sglist`, which begins at `sglba`, that
+    /// lies in the given inclusive LBA range, along with its offset in bytes
+    /// from `lba`.
+    fn overlap(sglba: LbaT, sglist: &SGList, lba: LbaT, end_lba: LbaT,
+               extents: &mut Vec<(usize, IoVec)>)
+    {
+        let want_start = lba as usize * BYTES_PER_LBA;
+        let want_end = (end_lba + 1) as usize * BYTES_PER_LBA;
+        let mut ofs = sglba as usize * BYTES_PER_LBA;
+        for iovec in sglist {
+            let start = cmp::max(ofs, want_start);
+            let end = cmp::min(ofs + iovec.len(), want_end);
+            if start < end {
+                extents.push((start - want_start,
+                              iovec.slice(start - ofs, end - ofs)));
+            }
+            ofs += iovec.len();
+        }
+    }
+
     fn read_at_multi(
         &self,
         mut buf: IoVecMut,
@@ -2358,18 +2367,41 @@ impl VdevRaidApi for VdevRaid {
             return future::err(Error::EINTEGRITY).boxed();
         }
 
-        // Ignore the stripe buffer.  The fact that read_long got called meant
-        // that, even if the data is available in the stripe buffer , it must be
-        // wrong.
-
         let start_stripe = ulba / (self.chunksize * m as LbaT);
         // end_lba is inclusive.  The highest LBA from which data will be read
         let end_lba = ulba + len - 1;
+
+        // Part of the data may be on disk, and must be reconstructed, while the
+        // rest has not left the stripe buffer yet.
+        let unwritten = {
+            let sb_ref = self.stripe_buffers.read().unwrap();
+            let mut extents = self.flushing_extents(ulba, end_lba);
+            for sb in sb_ref.values().filter(|sb| !sb.is_empty()) {
+                Self::overlap(sb.lba(), sb.peek(), ulba, end_lba, &mut extents);
+            }
+            extents
+        };
         let end_stripe = end_lba / (self.chunksize as LbaT * m as LbaT);
-        if start_stripe == end_stripe {
-            Box::pin(self.read_long_one(len, ulba))
+        let fut = if start_stripe == end_stripe {
+            self.read_long_one(len, ulba).boxed()
         } else {
-            Box::pin(self.read_long_multi(len, ulba))
+            self.read_long_multi(len, ulba).boxed()
+        };
+        if unwritten.is_empty() {
+            fut
+        } else {
+            fut.map_ok(move |reconstructions| {
+                let it = reconstructions.map(move |dbs| {
+                    let mut dbm = dbs.try_mut().unwrap();
+                    for (ofs, iovec) in unwritten.iter() {
+                        dbm[*ofs..*ofs + iovec.len()]
+                            .copy_from_slice(&iovec[..]);
+                    }
+                    drop(dbm);
+                    dbs
+                });
+                Box::new(it) as Box<dyn Iterator<Item=DivBufShared> + Send>
+            }).boxed()
         }
     }
 
-- 
2.43.0


From 81d4b69c5778ae841ec02a55bb378cd0737b0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 38/65] fix: don't let an older repair task restore a disk that
 was attached later

---
 bfffs-core/src/ddml/ddml.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index b7cde3c..c0cb4eb 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -179,8 +179,8 @@ pub struct DDML {
     // this lock.
     cache: Arc<Mutex<Cache>>,
 
-    /// A handle to every active MirrorRepairTask
-    mirror_repair_tasks: Mutex<Vec<JoinHandle<()>>>,
+    /// A handle to every active MirrorRepairTask, and the mirror's uuid
+    mirror_repair_tasks: Mutex<Vec<(Uuid, JoinHandle<()>)>>,
 
     // We'll never use Arc::clone, and very rarely use Arc::downgrade, so the
     // performance impact of the Arc should be minimal.
@@ -229,12 +229,30 @@ impl DDML {
         self.pool.read().await.dump_fsm()
     }
 
+    /// Abort any repair tasks for the given mirror
+    fn abort_repair(&self, uuid: Uuid) {
+        self.mirror_repair_tasks.lock().unwrap().iter()
+            .filter(|(mirror_uuid, _)| *mirror_uuid == uuid)
+            .for_each(|(_, jh)| jh.abort());
+    }
+
     /// Add a new device to the Mirror identified by `uuid`
     pub async fn attach(&self, uuid: Uuid, path: &Path) -> Result<()> {
         let pool_status = {
             let mut pool = self.pool.write().await;
             pool.attach(uuid, path)?;
-            pool.status()
+            let status = pool.status();
+            // If a previously attached disk was faulted while it was being
+            // rebuilt, then its task may still be active.  It must not restore
+            // the new disk, which needs to be rebuilt from the beginning.  The
+            // task can't have any I/O in progress, because we've locked the
+            // pool.
+            for m in status.clusters.iter().flat_map(|cl| cl.mirrors.iter()) {
+                if m.uuid == uuid || m.leaves.iter().any(|l| l.uuid == uuid) {
+                    self.abort_repair(m.uuid);
+                }
+            }
+            status
         };
         let mirror_repair = pool_status.clusters.iter()
             .flat_map(|cl| cl.mirrors.iter())
@@ -284,7 +302,7 @@ impl DDML {
     /// Are there any active (not paused) repair tasks?
     pub fn is_repairing(&self) -> bool {
         let mut tasks = self.mirror_repair_tasks.lock().unwrap();
-        tasks.retain(|jh| !jh.is_finished());
+        tasks.retain(|(_, jh)| !jh.is_finished());
         !tasks.is_empty()
     }
 
@@ -471,7 +489,7 @@ impl DDML {
     /// Begin a repair task for one mirror
     fn repair_mirror(&self, rtxg: TxgT, uuid: Uuid) {
         let jh = MirrorRepairTask::spawn(&self.pool, rtxg, uuid);
-        self.mirror_repair_tasks.lock().unwrap().push(jh);
+        self.mirror_repair_tasks.lock().unwrap().push((uuid, jh));
     }
 
     /// Return approximately the usable storage space in LBAs.
-- 
2.43.0


From 386fdf6a3d249f4a7012b9c01dd0efa5bd6b4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 39/65] fix: don't label a rebuilt disk as complete while zones
 are dead

Dead zones aren't rebuilt, but until the transaction that killed them is
synced, the pool might be imported as it was when they were alive.  A
rebuilt disk whose label claimed to be up to date would then lack them.
---
 bfffs-core/src/cluster.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index a59f65f..1ddad1f 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -321,6 +321,11 @@ impl<'a> FreeSpaceMap {
             })
     }
 
+    /// Are there any zones that have been killed but not yet erased?
+    fn has_dead_zones(&self) -> bool {
+        self.empty_zones.iter().any(|zid| self.is_dead(*zid))
+    }
+
     /// Mark the Zone as closed.  `txg` is the current transaction group.
     /// Return the number of wasted blocks, those that can no longer be
     /// used because the zone is closed.
@@ -1196,6 +1201,12 @@ impl Cluster {
                     (Some(x), None) => Some(x),
                     (None, _) => None
                 };
+                // Dead zones don't get repaired, but until the transaction that
+                // killed them is synced the pool might still be imported as it
+                // was when they were alive.  Don't let the label promise them.
+                if fsm.has_dead_zones() {
+                    sync_txg = None;
+                }
                 // Don't update the label if it wouldn't be higher than the txg
                 // already present on the label.
                 if let Some(stxg) = sync_txg {
-- 
2.43.0


From 8ca7a1a1ef9dab2a0ae06183e868cf8becdd81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 40/65] fix: lseek reports a read error rather than panicking

---
 bfffs-core/src/fs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 1a747b5..c9f0f47 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1607,8 +1607,7 @@ impl Fs {
         let ino = fd.ino;
         let inode_key = FSKey::new(ino, ObjKey::Inode);
         self.db.fsread(self.tree, move |ds| async move {
-            let r = ds.get(inode_key).await
-                .unwrap()
+            let r = ds.get(inode_key).await?
                 .expect("Inode not found");
             let inode = r.as_inode()
                 .expect("Wrong value type");
-- 
2.43.0


From ab74871a9c154680857dd6e1d9daec6727bd0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 41/65] fix: a space map that cannot be parsed is an integrity
 error, not a panic

---
 bfffs-core/src/cluster.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 1ddad1f..fd64813 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -242,7 +242,10 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
+            // What cannot even be parsed is just as corrupt as what has the wrong
+            // checksum
+            let sod = SpacemapOnDisk::deserialize(i as u64, &db)
+                .unwrap_or(Err(Error::EINTEGRITY));
             if let Err(e) = sod {
                 let fut = future::err(e);
                 return Box::pin(fut);
-- 
2.43.0


From 65eb1a1950c54def5e095603cc109f9eafbca464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 42/65] fix: hand an abandoned fetch to the next reader that
 waits for it

A reader that got dropped while it fetched a block, for example because a
sibling in a try_join failed, left the pending insertion behind.  All later
readers of that block waited for ever.
---
 bfffs-core/src/cache/mod.rs | 142 +++++++++++++++++++++++++++---------
 1 file changed, 109 insertions(+), 33 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 89cc208..e775a1b 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -3,11 +3,15 @@
 use crate::types::{PBA, RID};
 use divbuf::{DivBuf, DivBufShared};
 use downcast::*;
-use futures::channel::oneshot;
+use futures::{channel::oneshot, future::BoxFuture, ready};
 use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    future::Future,
+    pin::Pin,
+    sync::{Arc, Mutex},
+    task::{Context, Poll},
 };
 
 mod lru;
@@ -115,11 +119,96 @@ impl Borrow<dyn CacheRef> for DivBuf {
     }
 }
 
-/// Outcome of a pending insertion: a reference to the new entry, or the error
-/// that prevented it from being inserted.
+/// Outcome of a pending insertion.
 #[doc(hidden)]
-pub type Insertion =
-    Result<Box<dyn CacheRef>, Box<dyn std::any::Any + Send>>;
+pub enum Insertion {
+    /// A reference to the new entry
+    Done(Box<dyn CacheRef>),
+    /// The error that prevented it from being inserted
+    Failed(Box<dyn std::any::Any + Send>),
+    /// Whoever was fetching the block got dropped before it was done.  The
+    /// recipient must finish this [`Fetch`] in its stead.
+    Abandoned(Box<dyn std::any::Any + Send>),
+}
+
+/// A read of a block that others may be waiting for.
+///
+/// If it gets dropped before it's complete, then one of those others will
+/// continue it.
+#[doc(hidden)]
+pub struct Fetch<E: Clone + Send + 'static> {
+    cache: Arc<Mutex<Cache>>,
+    key: Key,
+    fut: Option<BoxFuture<'static, Result<Box<dyn Cacheable>, E>>>,
+}
+
+impl<E: Clone + Send + 'static> Fetch<E> {
+    pub fn new(
+        cache: Arc<Mutex<Cache>>,
+        key: Key,
+        fut: BoxFuture<'static, Result<Box<dyn Cacheable>, E>>) -> Self
+    {
+        Fetch { cache, key, fut: Some(fut) }
+    }
+}
+
+impl<E: Clone + Send + 'static> Future for Fetch<E> {
+    type Output = Result<Box<dyn CacheRef>, E>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>)
+        -> Poll<Self::Output>
+    {
+        let fut = self.fut.as_mut().expect("polled after completion");
+        let result = ready!(fut.as_mut().poll(cx));
+        self.fut = None;
+
+        let mut guard = self.cache.lock().unwrap();
+        let waiters = guard.pending_insertions.remove(&self.key)
+            .unwrap_or_default();
+        Poll::Ready(match result {
+            Ok(cacheable) => {
+                // Give each waiter its own reference, because the block might
+                // get evicted before the waiter runs.  Ignore any waiters that
+                // have disappeared.
+                for s in waiters.into_iter() {
+                    let _ = s.send(Insertion::Done(cacheable.make_ref()));
+                }
+                let r = cacheable.make_ref();
+                guard.insert(self.key, cacheable);
+                Ok(r)
+            },
+            Err(e) => {
+                for s in waiters.into_iter() {
+                    let _ = s.send(Insertion::Failed(Box::new(e.clone())));
+                }
+                Err(e)
+            }
+        })
+    }
+}
+
+impl<E: Clone + Send + 'static> Drop for Fetch<E> {
+    fn drop(&mut self) {
+        let mut fut = self.fut.take();
+        while fut.is_some() {
+            let Ok(mut guard) = self.cache.lock() else { return };
+            let heir = guard.pending_insertions.get_mut(&self.key)
+                .and_then(|v| if v.is_empty() { None } else { Some(v.remove(0)) });
+            if heir.is_none() {
+                guard.pending_insertions.remove(&self.key);
+            }
+            drop(guard);
+            let Some(heir) = heir else { return };
+            let fetch = Fetch { cache: self.cache.clone(), key: self.key, fut };
+            fut = match heir.send(Insertion::Abandoned(Box::new(fetch))) {
+                // The heir is gone too
+                Err(Insertion::Abandoned(f)) =>
+                    f.downcast::<Self>().unwrap().fut.take(),
+                _ => None
+            };
+        }
+    }
+}
 
 /// Basic read-only block cache.
 ///
@@ -226,9 +315,15 @@ macro_rules! get_or_insert {
                 drop(guard);
                 return async move {
                     match rx.await.unwrap() {
-                        Ok(t) => Ok(t.downcast::<$R>().unwrap()),
-                        Err(e) => {
-                            Err(*e.downcast::<$crate::types::Error>().unwrap())
+                        $crate::cache::Insertion::Done(t) =>
+                            Ok(t.downcast::<$R>().unwrap()),
+                        $crate::cache::Insertion::Failed(e) =>
+                            Err(*e.downcast::<$crate::types::Error>().unwrap()),
+                        $crate::cache::Insertion::Abandoned(f) => {
+                            f.downcast::<$crate::cache::Fetch<
+                                $crate::types::Error>>().unwrap()
+                            .await
+                            .map(|t| t.downcast::<$R>().unwrap())
                         }
                     }
                 }.boxed();
@@ -237,31 +332,12 @@ macro_rules! get_or_insert {
                 drop(guard);
             }
 
-            let cache2 = $amself.clone();
-            $f.map(move |result: $crate::types::Result<Box<$C>>| {
-                let mut guard = cache2.lock().unwrap();
-                let waiters = guard.pending_insertions.remove(&$key)
-                    .unwrap_or_default();
-                match result {
-                    Ok(cacheable) => {
-                        // Give each waiter its own reference, because the
-                        // block might get evicted before the waiter runs.
-                        // Ignore any waiters that have disappeared.
-                        for s in waiters.into_iter() {
-                            let _ = s.send(Ok(cacheable.make_ref()));
-                        }
-                        let r = cacheable.make_ref();
-                        guard.insert($key, cacheable);
-                        Ok(r.downcast::<$R>().unwrap())
-                    },
-                    Err(e) => {
-                        for s in waiters.into_iter() {
-                            let _ = s.send(Err(Box::new(e)));
-                        }
-                        Err(e)
-                    }
-                }
-            }).boxed()
+            let fut = $f.map(|r: $crate::types::Result<Box<$C>>| {
+                r.map(|c| c as Box<dyn $crate::cache::Cacheable>)
+            }).boxed();
+            $crate::cache::Fetch::new($amself.clone(), $key, fut)
+                .map(|r| r.map(|t| t.downcast::<$R>().unwrap()))
+                .boxed()
         }
     }
 }
-- 
2.43.0


From 6cf13aa8d45157b6b7c1b496c41da0c1145174c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 43/65] fix: a name that merely begins with the pool's name is
 not in the pool

Controller stripped the pool's name off "testpoolb" as it would off
"testpool/b", so commands acted on another dataset than was named.
---
 bfffs-core/src/controller.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index a10bbd1..5070a1f 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -420,8 +420,10 @@ impl Controller {
     // Strip the pool name.  For now, only one pool is supported.
     fn strip_pool_name<'a>(&self, name: &'a str) -> Result<&'a str> {
         match name.strip_prefix(self.db.pool_name()) {
-            Some(s) => Ok(s.strip_prefix('/').unwrap_or(s)),
-            None => {
+            Some("") => Ok(""),
+            // Beware of names that merely begin with the pool's name
+            Some(s) if s.starts_with('/') => Ok(&s[1..]),
+            _ => {
                 tracing::debug!("pool name not provided");
                 Err(Error::ENOENT)
             },
-- 
2.43.0


From f7ac3ad6025170844881211ec4d4b1f3e003fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 44/65] fix: creating a file system that exists leaves no trace

Creating the pool's root file system a second time made an orphan with the
same name.  Creating any other file system a second time failed, but only
after it had written a tree that nobody would ever delete and, for a moment,
put that tree in the place of the one that bore the name.
---
 bfffs-core/src/database/database.rs |  5 ++++-
 bfffs-core/src/database/mod.rs      | 35 ++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 918ea62..89fc52a 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -501,6 +501,7 @@ impl Database {
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
+        let name = name.into();
         // The FS tree's compressibility varies greatly, especially based on
         // whether the write pattern is sequential or random.  5.98x is the
         // lower value for random access.  We'll use that rather than the
@@ -509,12 +510,14 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        // Don't write anything that we'd only have to delete
+        inner3.forest.check_vacant(parent, &name).await?;
         inner3.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
         let tod = fs.serialize().unwrap();
-        let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
+        let tree_id = inner3.forest.insert_tree(parent, name, tod,
             *txg_guard).await?;
 
         // Create the filesystem's root directory
diff --git a/bfffs-core/src/database/mod.rs b/bfffs-core/src/database/mod.rs
index a897626..f563b32 100644
--- a/bfffs-core/src/database/mod.rs
+++ b/bfffs-core/src/database/mod.rs
@@ -193,6 +193,26 @@ impl Forest {
         }
     }
 
+    /// Could a new Tree be created with this parent and name?
+    pub async fn check_vacant(&self, parent: Option<TreeID>, name: &str)
+        -> Result<()>
+    {
+        let key = match parent {
+            Some(p) => {
+                if self.0.get(ForestKey::tree(p)).await?.is_none() {
+                    return Err(Error::ENOENT);
+                }
+                ForestKey::tree_ent(p, name)
+            },
+            // There can be only one root
+            None => ForestKey::tree(TreeID(0))
+        };
+        match self.0.get(key).await? {
+            Some(_) => Err(Error::EEXIST),
+            None => Ok(())
+        }
+    }
+
     /// Insert a new Tree.  There must not already be a Tree by this name
     #[tracing::instrument(skip(self, txg))]
     pub async fn insert_tree(&self,
@@ -216,21 +236,10 @@ impl Forest {
         if let Some(p) = parent {
             let new_te_key = ForestKey::tree_ent(p, &name);
             let te = ForestValue::TreeEnt(TreeEnt { tree_id, name });
-            let oold_te = self.0.clone()
+            let old_te = self.0.clone()
                 .insert(new_te_key, te, txg, Credit::null())
                 .await?;
-            if let Some(old_te) = oold_te {
-                // Tree already exists.
-                let new_v = self.0.clone()
-                    .remove(new_tree_key, txg, Credit::null())
-                    .await?;
-                assert!(new_v.is_some(),
-                    "Race resolving EEXIST in tree creation");
-                self.0.clone()
-                    .insert(new_te_key, old_te, txg, Credit::null())
-                    .await?;
-                return Err(Error::EEXIST);
-            }
+            assert!(old_te.is_none(), "Races creating trees are TODO");
         }
         Ok(tree_id)
     }
-- 
2.43.0


From bad4b5949c511617ed02e24809e1a720108335fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 45/65] fix: create file systems one at a time

Two file systems being created at once could choose the same TreeID, which was
a panic.
---
 bfffs-core/src/database/database.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 89fc52a..a81703c 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -510,15 +510,19 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
-        // Don't write anything that we'd only have to delete
-        inner3.forest.check_vacant(parent, &name).await?;
-        inner3.dirty.store(true, Ordering::Relaxed);
-        fs.clone().flush(*txg_guard).await?;
-
-        // Write the new Tree to the Forest, the source-of-truth for trees
-        let tod = fs.serialize().unwrap();
-        let tree_id = inner3.forest.insert_tree(parent, name, tod,
-            *txg_guard).await?;
+        let tree_id = {
+            // Like destroy_fs, lock fs_trees while changing the forest, lest
+            // somebody else choose the same TreeID or name.
+            let _wg = inner3.fs_trees.write().await;
+            // Don't write anything that we'd only have to delete
+            inner3.forest.check_vacant(parent, &name).await?;
+            inner3.dirty.store(true, Ordering::Relaxed);
+            fs.clone().flush(*txg_guard).await?;
+
+            // Write the new Tree to the Forest, the source-of-truth for trees
+            let tod = fs.serialize().unwrap();
+            inner3.forest.insert_tree(parent, name, tod, *txg_guard).await?
+        };
 
         // Create the filesystem's root directory
         Inner::fswrite(inner3, tree_id, 3, 0, 0, 0, move |dataset|
-- 
2.43.0


From 14a750c94445fd08b1488487451d86e9a024ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 46/65] fix: a file system that isn't mounted any more can be
 destroyed

If a file system had been mounted, but not unmounted by the controller (because
mount(2) failed, for example), then destroy_fs would think it busy forever.
---
 bfffs-core/src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 5070a1f..c3ac0c0 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -120,7 +120,9 @@ impl Controller {
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
-                if let Some(_fs) = guard.get(&id) {
+                // As in new_fs, a dead reference means that it isn't mounted,
+                // perhaps because mount(2) failed.
+                if guard.get(&id).is_some_and(|fs| fs.strong_count() > 0) {
                     Err(Error::EBUSY)
                 } else {
                     self.db.destroy_fs(parent, id, dsname).await
-- 
2.43.0


From 6aa34855d60d91a68e30af2b26db4ea41ce4c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 47/65] fix: never open the same file system tree twice

When two tasks opened a file system's tree at the same time, the one that
came second got a tree of its own.  Whatever it wrote there was never
flushed.
---
 bfffs-core/src/database/database.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index a81703c..9938e01 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -215,13 +215,12 @@ impl Inner {
         let idml2 = inner.idml.clone();
         let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
         let atree = Arc::new(tree);
-        let atree2 = atree.clone();
+        // If somebody else opened it in the meantime, then use theirs.  There
+        // must never be two of them, for only the one in fs_trees gets flushed.
         inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
-        })
+            let itree = wguard.entry(tree_id).or_insert(atree).clone();
+            future::ready(itree)
+        }).map(Ok)
     }
 
     // Must be called from within a Tokio executor context
-- 
2.43.0


From ebb7f1d647fcabda71c2d495f4e59a38a44fd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 48/65] fix: looking up a name that collides with a file
 system's doesn't panic

---
 bfffs-core/src/database/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/database/mod.rs b/bfffs-core/src/database/mod.rs
index f563b32..e6845c6 100644
--- a/bfffs-core/src/database/mod.rs
+++ b/bfffs-core/src/database/mod.rs
@@ -305,10 +305,11 @@ impl Forest {
                 parent = Some(tree_id);
                 let te_key = ForestKey::tree_ent(parent.unwrap(), component);
                 match inner.get(te_key).await? {
-                    Some(ForestValue::TreeEnt(te)) => {
-                        assert_eq!(te.name, component);
+                    Some(ForestValue::TreeEnt(te)) if te.name == component => {
                         tree_id = te.tree_id;
                     }
+                    // A different name with the same hash
+                    Some(ForestValue::TreeEnt(_)) => return Ok((None, None)),
                     Some(ForestValue::Tree(tv)) => {
                         panic!("Unexpected ForestValue::Tree for key {te_key:?}: {tv:?}");
                     }
-- 
2.43.0


From 3c2a4e3e9c01bda62d7189f68d685f26396606fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 49/65] fix: a file system's name cannot have empty components

Creating "pool/a/" made a nameless child of a, and destroying that one
panicked.  Creating "pool//a" made "pool/a".
---
 bfffs-core/src/controller.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index c3ac0c0..8651c52 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,6 +91,10 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
+        if !fsname.is_empty() && fsname.split('/').any(str::is_empty) {
+            // Every component must have a name
+            return Err(Error::EINVAL);
+        }
         let r = fsname.rsplit_once('/');
         if let Some((parent_name, dsname)) = r {
             let (_, parent) = self.db.lookup_fs(parent_name).await?;
-- 
2.43.0


From 459d45faf09c8ab5d882287742b2eae69da491bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 50/65] fix: writing many records at once doesn't ask for more
 credit than there is

The worst-case estimate of the credit that Fs::write needs is more than
a megabyte per record.  So a single large write to a file with small
records could ask for more than the WriteBack's capacity, which would
never be granted.  The write, and every other one after it, would hang.
---
 bfffs-core/src/idml/idml.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index ecb9592..e7a3c8e 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -70,10 +70,16 @@ pub struct IDML {
 // instead by integration tests.
 #[cfg_attr(test, allow(unused))]
 impl<'a> IDML {
+    /// Borrow enough credit to dirty `size` bytes.
+    ///
+    /// Worst-case estimates can exceed the entire capacity of the WriteBack
+    /// cache, for example when writing many small records at once.  There will
+    /// never be that much credit to lend.  So lend at most half of the
+    /// capacity; it's ok to slightly overdraw that.
     pub fn borrow_credit(&self, size: usize)
         -> impl Future<Output=Credit> + Send
     {
-        self.writeback.borrow(size)
+        self.writeback.borrow(size.min(self.writeback.capacity() / 2))
     }
 
     /// Get the maximum size of bytes in the cache
-- 
2.43.0


From 1caa537aaa529edf1a39a0d198613983c064a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 51/65] fix: st_blocks is in units of 512 bytes

FuseFs multiplied the number of allocated bytes by 512 instead of
dividing it.
---
 bfffs/src/bin/bfffsd/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 9ef0d88..71b0467 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -153,7 +153,7 @@ impl FuseFs {
                 let reply_attr = FileAttr {
                     ino: attr.ino,
                     size: attr.size,
-                    blocks: attr.bytes << 9,
+                    blocks: attr.bytes.div_ceil(512),
                     atime: Timestamp::new(attr.atime.sec, attr.atime.nsec),
                     mtime: Timestamp::new(attr.mtime.sec, attr.mtime.nsec),
                     ctime: Timestamp::new(attr.ctime.sec, attr.ctime.nsec),
-- 
2.43.0


From e9371204311ea65969a21f0fc24358f17b333523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 52/65] fix: FuseFs tolerates repeated lookups of a forgotten
 inode

Looking up "." twice, with a FORGET in between, would panic.  So would
simultaneously looking up two hard links of an inode, if their names
were still cached but the inode wasn't.
---
 bfffs/src/bin/bfffsd/fs.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 71b0467..62abf86 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -100,8 +100,11 @@ impl FuseFs {
         let name_key = (parent_ino, name.to_owned());
         let old_ino = self.names.lock().unwrap().insert(name_key, fd.ino());
         if let Some(oino) = old_ino {
-            // XXX Can reach this panic after a FORGET when NFS looks up "."
-            panic!(
+            // The name may already be cached, if the inode was forgotten and
+            // now NFS looks up "." again.
+            assert_eq!(
+                oino,
+                fd.ino(),
                 "Create of an existing file: {}/{:?} was {} now {}",
                 parent_ino,
                 name,
@@ -109,6 +112,10 @@ impl FuseFs {
                 fd.ino()
             );
         }
+        self.cache_inode(fd);
+    }
+
+    fn cache_inode(&self, fd: FileDataMut) {
         let mut files_guard = self.files.lock().unwrap();
         // Normally the inode should not be in the files cache at this point.
         // But it may be if:
@@ -528,13 +535,7 @@ impl Filesystem for FuseFs {
                                 async move {
                                     match self.do_getattr(&fd.handle()).await {
                                         Ok(file_attr) => {
-                                            let ino = fd.ino();
-                                            let mut g =
-                                                self.files.lock().unwrap();
-                                            assert!(
-                                                g.insert(ino, fd).is_none(),
-                                                "Inode number reuse detected"
-                                            );
+                                            self.cache_inode(fd);
                                             Ok(file_attr)
                                         }
                                         Err(e) => {
-- 
2.43.0


From 05cae50c3570cf16e563b4b58275314410f89eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 53/65] fix: FuseFs tolerates a FORGET during a lookup of the
 same inode

When a file has two links, the kernel may look up one of them while it
is forgetting what it learned by the other.  FuseFs::lookup would panic
if the inode was no longer cached when it had got its attributes, and
FuseFs::forget would panic if the lookup was counted first.
---
 bfffs/src/bin/bfffsd/fs.rs | 67 ++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index 62abf86..a1d74a2 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -78,8 +78,9 @@ pub struct FuseFs {
     /// from here if its `lookup_count` is non-zero.
     // Note: it is OK to copy an entry from the files cache and drop the guard,
     // because the only methods that ever mutate an entry are:
-    // * forget: the kernel will ensure that it isn't called concurrently
-    //    with any others.
+    // * forget: decrements lookup_count, and removes the entry at zero.  The
+    //    kernel won't call it concurrently with any others that use the same
+    //    file, except for lookup.
     // * lookup: only increments lookup_count
     // and the only thing that ever cares about lookup_count is unlink, which
     // only cares about zero vs nonzero.
@@ -234,6 +235,29 @@ impl FuseFs {
         (ns, name)
     }
 
+    /// Drop `nlookup` references to a cached inode.
+    ///
+    /// There may be others.  For example, FUSE_FORGET may be sent with nlookup
+    /// less than the actual lookup count if the kernel doesn't yet know the
+    /// result of a simultaneous lookup of the same inode.
+    async fn uncache_inode(&self, ino: u64, nlookup: u64) {
+        let ofd = {
+            let mut files_guard = self.files.lock().unwrap();
+            let fd = files_guard
+                .get_mut(&ino)
+                .expect("Forget before lookup or double-forget");
+            fd.lookup_count -= nlookup;
+            if fd.lookup_count == 0 {
+                files_guard.remove(&ino)
+            } else {
+                None
+            }
+        };
+        if let Some(fd) = ofd {
+            self.fs.inactive(fd).await;
+        }
+    }
+
     fn uncache_name(&self, parent_ino: u64, name: &OsStr) {
         let name_key = (parent_ino, name.to_owned());
         // TODO: handle multiply linked files
@@ -342,23 +366,13 @@ impl Filesystem for FuseFs {
     }
 
     async fn forget(&self, _req: Request, ino: u64, nlookup: u64) {
-        // XXX will FUSE_FORGET ever be sent with nlookup less than the actual
-        // lookup count?  Not as far as I know.
         // TODO: figure out how to expire entries from the name cache, too
         if ino == 1 {
             // Special case: since fusefs never does a lookup for the root
             // inode, its FORGETs may be "unmatched"
             return;
         }
-        let mut fd = self
-            .files
-            .lock()
-            .unwrap()
-            .remove(&ino)
-            .expect("Forget before lookup or double-forget");
-        fd.lookup_count -= nlookup;
-        assert_eq!(fd.lookup_count, 0, "Partial forgets are not yet handled");
-        self.fs.inactive(fd).await;
+        self.uncache_inode(ino, nlookup).await;
     }
 
     async fn fsync(
@@ -504,26 +518,23 @@ impl Filesystem for FuseFs {
         };
         match (oparent_fd, oino) {
             (Some(parent_fd), Some(ino)) => {
-                let ofd = self
-                    .files
-                    .lock()
-                    .unwrap()
-                    .get(&ino)
-                    .map(FileDataMut::handle);
+                // Increment the lookup count right away, lest the kernel
+                // FORGET an earlier lookup of the same inode while we're
+                // working.
+                let ofd =
+                    self.files.lock().unwrap().get_mut(&ino).map(|fd| {
+                        fd.lookup_count += 1;
+                        fd.handle()
+                    });
                 match ofd {
                     Some(fd) => {
                         // Name and inode are cached
                         match self.do_getattr(&fd).await {
-                            Ok(file_attr) => {
-                                self.files
-                                    .lock()
-                                    .unwrap()
-                                    .get_mut(&ino)
-                                    .unwrap()
-                                    .lookup_count += 1;
-                                Ok(self.reply_entry(file_attr))
+                            Ok(file_attr) => Ok(self.reply_entry(file_attr)),
+                            Err(e) => {
+                                self.uncache_inode(ino, 1).await;
+                                Err(e.into())
                             }
-                            Err(e) => Err(e.into()),
                         }
                     }
                     None => {
-- 
2.43.0


From 714da6b383ad6aefcdab63af3aa337f7409d9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 54/65] fix: FuseFs::rename doesn't need every parent directory
 to be cached

An NFS server may look up a directory by its inode number alone.
Renaming something into such a directory would panic.
---
 bfffs/src/bin/bfffsd/fs.rs | 41 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/fs.rs b/bfffs/src/bin/bfffsd/fs.rs
index a1d74a2..a0311e0 100644
--- a/bfffs/src/bin/bfffsd/fs.rs
+++ b/bfffs/src/bin/bfffsd/fs.rs
@@ -894,35 +894,32 @@ impl Filesystem for FuseFs {
                 .handle();
             let newname_key = (newparent, newname.to_owned());
 
-            // Dirloop check
             let src_fd = files_guard
                 .get(&src_ino)
                 .expect("rename before lookup or after forget of source")
                 .handle();
-            let mut fd = files_guard
-                .get(&newparent)
-                .expect("Uncached destination directory");
-            loop {
-                match fd.parent() {
-                    None => {
-                        // Root directory, or not a directory
-                        break;
-                    }
-                    Some(ino) if src_ino == ino => {
-                        // Dirloop detected!
-                        return Err(libc::EINVAL.into());
-                    }
-                    // Keep recursing
-                    _ => {
-                        fd = files_guard
-                            .get(&fd.parent().unwrap())
-                            .expect("Uncached parent directory");
-                    }
-                }
-            }
             (parent_fd, newparent_fd, newname_key, src_fd)
         };
 
+        // Dirloop check
+        let mut fd = newparent_fd;
+        // Stop at the root directory
+        while let Some(ino) = fd.parent() {
+            if src_ino == ino {
+                // Dirloop detected!
+                return Err(libc::EINVAL.into());
+            }
+            // Keep recursing
+            let cached_fd =
+                self.files.lock().unwrap().get(&ino).map(FileDataMut::handle);
+            fd = match cached_fd {
+                Some(fd) => fd,
+                // An NFS server can look up a directory by inode number,
+                // without ever looking up its parents.
+                None => self.fs.ilookup(ino).await?.handle(),
+            };
+        }
+
         match self
             .fs
             .rename(&parent_fd, &src_fd, name, &newparent_fd, new_ino, newname)
-- 
2.43.0


From 891dd14705a63a35f33f30807b970a2228995883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:11 +0000
Subject: [PATCH 55/65] fix: resubmit a sync that the kernel had no resources
 for

Like reads and writes, aio_fsync may fail synchronously with EAGAIN.
VdevBlock then polls the future again, which panicked, because
map_ok and map_err must not be polled after completion.
---
 bfffs-core/src/vdev_file.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index 6752156..f176941 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -450,10 +450,8 @@ impl<'fd> VdevFile<'fd> {
     /// storage.
     pub fn sync_all(&self) -> VdevFileFut<'_>
     {
-        let fut = AioFileExt::sync_all(&self.fd).unwrap()
-            .map_ok(drop)
-            .map_err(Error::from);
-        Box::pin(fut)
+        let fut = AioFileExt::sync_all(&self.fd).unwrap();
+        Box::pin(SyncAll { fut })
     }
 
     /// Asynchronously write a contiguous portion of the vdev.
@@ -632,6 +630,25 @@ impl Future for ReadvAt<'_> {
     }
 }
 
+#[pin_project]
+struct SyncAll<'a> {
+    #[pin]
+    fut: tokio_file::SyncAll<'a>,
+}
+
+impl Future for SyncAll<'_> {
+    type Output = Result<()>;
+
+    // aio_fsync may return an error synchronously, too.  See ReadAt::poll.
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        match self.project().fut.poll(cx) {
+            Poll::Ready(Ok(_aio_result)) => Poll::Ready(Ok(())),
+            Poll::Ready(Err(e)) => Poll::Ready(Err(Error::from(e))),
+            Poll::Pending => Poll::Pending
+        }
+    }
+}
+
 #[pin_project]
 struct WritevAt<'a> {
     #[pin]
-- 
2.43.0


From aef997cb5b205cd6f63ed009883d928f257d1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:11 +0000
Subject: [PATCH 56/65] fix: count a cancelled operation once when removing a
 VdevBlock

Accumulated operations have several senders, but make_fut counts them
as one.  Decrementing queue_depth once per sender made remove() return
while I/O was still under way, or underflow.  And a caller may have
dropped the receiving end already.
---
 bfffs-core/src/vdev_block.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 1984886..0b70487 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -497,9 +497,11 @@ impl Inner {
         if self.remover.is_some() {
             // Abort the future immediately
             for sender in senders {
-                sender.send(Err(Error::ENXIO)).unwrap();
-                self.queue_depth -= 1;
+                // An error means that nobody cares about the result
+                let _ = sender.send(Err(Error::ENXIO));
             }
+            // The senders may be many, but it was one operation
+            self.queue_depth -= 1;
             return None;
         }
 
-- 
2.43.0


From 667ef81e5dfd8166e27434ac3c3e973cac09923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:25 +0000
Subject: [PATCH 57/65] fix: refuse unprivileged requests with the response the
 client expects

DebugDropCache, FsCreate, FsDestroy and PoolFault requests from other users
were refused with another request's type of response, so the client library
panicked instead of returning EPERM.
---
 bfffs/src/bin/bfffsd/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index 4521ae1..cc60a9b 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -255,7 +255,7 @@ impl Bfffsd {
         match req {
             rpc::Request::DebugDropCache => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::DebugDropCache(Err(Error::EPERM))
                 } else {
                     self.controller.drop_cache();
                     rpc::Response::DebugDropCache(Ok(()))
@@ -263,7 +263,7 @@ impl Bfffsd {
             }
             rpc::Request::FsCreate(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::FsCreate(Err(Error::EPERM))
                 } else {
                     let r = self
                         .controller
@@ -284,7 +284,7 @@ impl Bfffsd {
             }
             rpc::Request::FsDestroy(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::FsMount(Err(Error::EPERM))
+                    rpc::Response::FsDestroy(Err(Error::EPERM))
                 } else {
                     let r = self.controller.destroy_fs(&req.name).await;
                     rpc::Response::FsDestroy(r)
@@ -412,7 +412,7 @@ impl Bfffsd {
             }
             rpc::Request::PoolFault(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-                    rpc::Response::PoolClean(Err(Error::EPERM))
+                    rpc::Response::PoolFault(Err(Error::EPERM))
                 } else {
                     let r = self
                         .controller
-- 
2.43.0


From cb2177dccb75df810d2a2af2972ae1c027e42188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:52 +0000
Subject: [PATCH 58/65] fix: list more file systems than fit into a single
 response

The server put up to 64 file systems into each FsList response, regardless of
its size.  The client rejects responses of 4 kB or more, so it could not list
a dataset with a few dozen children unless their names were very short.
---
 bfffs/src/bin/bfffsd/main.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index cc60a9b..6ea9826 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -32,7 +32,7 @@ use nix::{
     sys::stat::Mode,
     unistd,
 };
-use speedy::{Readable, Writable};
+use speedy::{LittleEndian, Readable, Writable};
 use tokio_seqpacket::{UCred, UnixSeqpacket, UnixSeqpacketListener};
 use tracing::{error, warn};
 use tracing_subscriber::{filter::LevelFilter, prelude::*, EnvFilter};
@@ -41,6 +41,9 @@ mod fs;
 
 use crate::fs::FuseFs;
 
+/// Neither requests nor responses may be this large.
+const BUFSIZ: usize = 4096;
+
 #[derive(Parser, Clone, Debug)]
 #[clap(version = crate_version!())]
 struct Cli {
@@ -116,8 +119,26 @@ struct Bfffsd {
 }
 
 impl Bfffsd {
+    /// Return as many of the leading entries as will fit into a single
+    /// response.  The client will resume the listing after the last of them.
+    fn fit(mut v: Vec<rpc::fs::DsInfo>) -> Vec<rpc::fs::DsInfo> {
+        // Leave some space for the encoding of the Response itself
+        let mut space = BUFSIZ - 64;
+        let n = v
+            .iter()
+            .take_while(|dsinfo| {
+                let needed =
+                    Writable::<LittleEndian>::bytes_needed(*dsinfo).unwrap();
+                let fits = needed <= space;
+                space = space.saturating_sub(needed);
+                fits
+            })
+            .count();
+        v.truncate(n.max(1));
+        v
+    }
+
     async fn handle_client(self: Arc<Self>, peer: UnixSeqpacket) {
-        const BUFSIZ: usize = 4096;
         let mut buf = vec![0u8; BUFSIZ];
 
         loop {
@@ -332,7 +353,7 @@ impl Bfffsd {
                     Ok(None) => Ok(vec![]),
                     Err(tce) => Err(tce.1),
                 };
-                rpc::Response::FsList(r)
+                rpc::Response::FsList(r.map(Self::fit))
             }
             rpc::Request::FsMount(req) => {
                 if creds.uid() != unistd::geteuid().as_raw() {
-- 
2.43.0


From d382dda68ffc734e1adce542060d9155227abccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:52 +0000
Subject: [PATCH 59/65] fix: a malformed request doesn't panic the server's
 task

---
 bfffs/src/bin/bfffsd/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index 6ea9826..1c4c181 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -151,7 +151,13 @@ impl Bfffsd {
                 break;
             } else {
                 buf.truncate(nread);
-                let req = rpc::Request::read_from_buffer(&buf[..]).unwrap();
+                let req = match rpc::Request::read_from_buffer(&buf[..]) {
+                    Ok(req) => req,
+                    Err(e) => {
+                        warn!("Client sent malformed request: {}", e);
+                        break;
+                    }
+                };
                 let creds = peer.peer_cred().unwrap();
                 let resp = self.process_rpc(req, creds).await;
                 let encoded: Vec<u8> = resp.write_to_vec().unwrap();
-- 
2.43.0


From a06e11c518bfad4f4fde84e4c2fe6ad910f91382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:58 +0000
Subject: [PATCH 60/65] fix: report the status of a nonexistent file system as
 ENOENT

An FsStat request with no properties always succeeded.
---
 bfffs/src/bin/bfffsd/main.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/bfffs/src/bin/bfffsd/main.rs b/bfffs/src/bin/bfffsd/main.rs
index 1c4c181..057116b 100644
--- a/bfffs/src/bin/bfffsd/main.rs
+++ b/bfffs/src/bin/bfffsd/main.rs
@@ -397,23 +397,28 @@ impl Bfffsd {
                 }
             }
             rpc::Request::FsStat(req) => {
-                let r = req
-                    .props
-                    .iter()
-                    .map(|propname| {
-                        let name = req.name.clone();
-                        self.controller.get_prop(name, *propname)
+                // Even if no properties are wanted, the dataset must exist
+                let r = self
+                    .controller
+                    .get_prop(req.name.clone(), PropertyName::Name)
+                    .and_then(|_| {
+                        req.props
+                            .iter()
+                            .map(|propname| {
+                                let name = req.name.clone();
+                                self.controller.get_prop(name, *propname)
+                            })
+                            .collect::<FuturesOrdered<_>>()
+                            .try_collect::<Vec<_>>()
                     })
-                    .collect::<FuturesOrdered<_>>()
-                    .try_collect::<Vec<_>>()
-                    .map_ok(move |props| {
+                    .await
+                    .map(move |props| {
                         rpc::fs::DsInfo {
                             name: req.name,
                             props,
                             offset: 0,
                         }
-                    })
-                    .await;
+                    });
                 rpc::Response::FsStat(r)
             }
             rpc::Request::FsUnmount(req) => {
-- 
2.43.0


From 84cefcd865cf06511984f3173ebe4961d540f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:58 +0000
Subject: [PATCH 61/65] fix: don't unmount whatever else is mounted at a file
 system's mountpoint

---
 bfffs-core/src/controller.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 8651c52..8e00183 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -456,6 +456,10 @@ impl Controller {
             (_, Some(id)) => id,
             (_, None) => return Err(Error::ENOENT)
         };
+        if guard.get(&tree_id).is_none_or(|fs| fs.strong_count() == 0) {
+            // It isn't mounted, but something else might be mounted there
+            return Err(Error::EINVAL);
+        }
         let (prop, _) = self.get_prop_locked(&guard, name, tree_id,
                                              PropertyName::Mountpoint)
             .await?;
-- 
2.43.0


From 38df0f38ebeebc22c9d8eb66c5058a82c3f1b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:51 +0000
Subject: [PATCH 62/65] fix: bfffs check must fail when it finds an
 inconsistency

db.check() reports inconsistencies by returning false.  The command ignored
that, so it exited successfully even on pools that failed the check.
---
 bfffs/src/bin/bfffs/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/bin/bfffs/main.rs b/bfffs/src/bin/bfffs/main.rs
index 039b82f..e022a45 100644
--- a/bfffs/src/bin/bfffs/main.rs
+++ b/bfffs/src/bin/bfffs/main.rs
@@ -55,7 +55,10 @@ impl Check {
                     exit(1);
                 }),
         );
-        db.check().await.unwrap();
+        if !db.check().await.unwrap() {
+            eprintln!("Error: pool is inconsistent");
+            exit(1);
+        }
         // TODO: the other checks
         Ok(())
     }
-- 
2.43.0


From 19debf870580bff41a664027ba0758f649a3df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:53 +0000
Subject: [PATCH 63/65] fix: a node in use must not be evicted from the cache

---
 bfffs-core/src/cache/lru.rs | 36 +++++++++++++++++++++++++++---------
 bfffs-core/src/cache/mod.rs | 11 ++++++++++-
 bfffs-core/src/tree/node.rs |  5 +++++
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/bfffs-core/src/cache/lru.rs b/bfffs-core/src/cache/lru.rs
index 132dbf6..a284fbc 100644
--- a/bfffs-core/src/cache/lru.rs
+++ b/bfffs-core/src/cache/lru.rs
@@ -44,19 +44,34 @@ impl LruCache {
     }
 
     pub fn drop_cache(&mut self) {
-        self.store = HashMap::with_hasher(MetroBuildHasher::default());
-        self.lru = None;
-        self.mru = None;
-        self.size = 0;
+        let unpinned = self.store.iter()
+            .filter(|(_, entry)| !entry.buf.is_pinned())
+            .map(|(key, _)| *key)
+            .collect::<Vec<_>>();
+        for key in unpinned {
+            self.remove(&key);
+        }
+        self.store.shrink_to_fit();
     }
 
-    fn expire(&mut self) {
-        let key = self.lru;
-        assert!(key.is_some(),
+    /// Expire the least recently used entry that isn't pinned.
+    ///
+    /// Returns `false` if they all are.
+    fn expire(&mut self) -> bool {
+        assert!(self.lru.is_some(),
             "Can't find an entry to expire. \
             capacity={:?} size={:?} entries={:?}",
             self.capacity, self.size, self.store.len());
-        self.remove(&key.unwrap());
+        let mut candidate = self.lru;
+        while let Some(key) = candidate {
+            let entry = &self.store[&key];
+            if !entry.buf.is_pinned() {
+                self.remove(&key);
+                return true;
+            }
+            candidate = entry.mru;
+        }
+        false
     }
 
     pub fn get<T: CacheRef>(&mut self, key: &Key) -> Option<Box<T>> {
@@ -98,7 +113,10 @@ impl LruCache {
         let cache_space = buf.cache_space();
         assert!(cache_space <= self.capacity);
         while self.size + cache_space > self.capacity {
-            self.expire();
+            if !self.expire() {
+                // Exceed the capacity until the pinned entries get released
+                break;
+            }
         }
         let entry = LruEntry { buf, mru: None, lru: self.mru};
         if let Some(old_entry) = self.store.insert(key, entry) {
diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index e775a1b..53b467e 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -38,10 +38,19 @@ pub trait Cacheable: Any + Debug + Send + Sync {
     /// How much space does this object use in the Cache?
     fn cache_space(&self) -> usize;
 
+    /// Does anybody hold a handle to this object that must prevent it from
+    /// being evicted?
+    ///
+    /// That's only necessary for objects that must never be duplicated in
+    /// memory, for example because they contain a lock.
+    fn is_pinned(&self) -> bool {
+        false
+    }
+
     /// Return a read-only handle to this object.
     ///
     /// As long as this handle is alive, the object will not be evicted from
-    /// cache.
+    /// cache, if [`is_pinned`](Self::is_pinned) says so.
     fn make_ref(&self) -> Box<dyn CacheRef>;
 
     /// How many bytes of writeback credit should this object use?
diff --git a/bfffs-core/src/tree/node.rs b/bfffs-core/src/tree/node.rs
index 6a647c1..5d3a1d6 100644
--- a/bfffs-core/src/tree/node.rs
+++ b/bfffs-core/src/tree/node.rs
@@ -1476,6 +1476,11 @@ impl<A, K, V> Cacheable for Arc<Node<A, K, V>>
         }
     }
 
+    // The Node's lock is only effective if all of its users share a single copy
+    fn is_pinned(&self) -> bool {
+        Arc::strong_count(self) > 1
+    }
+
     fn make_ref(&self) -> Box<dyn CacheRef> {
         Box::new(self.clone())
     }
-- 
2.43.0


From c0bb84a79e31805619f50a96cb8592fad58ad18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:51 +0000
Subject: [PATCH 64/65] fix: range_delete must wait for the users of the leaves
 it removes

---
 bfffs-core/src/tree/tree/mod.rs | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..638de24 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2037,9 +2037,13 @@ impl<A, D, K, V> Tree<A, D, K, V>
                     TreePtr::Addr(addr) => {
                         // Delete on-disk leaves
                         if V::NEEDS_FLUSH {
-                            dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>
-                                (&addr, txg)
-                            .and_then(move |anode| {
+                            let afut = dml.pop::<Arc<Node<A, K, V>>,
+                                                 Arc<Node<A, K, V>>>
+                                (&addr, txg);
+                            async move {
+                                let anode = afut.await?;
+                                // Wait for anybody who's still using it
+                                drop(anode.xlock().await);
                                 Arc::try_unwrap(*anode)
                                     .unwrap()
                                     .0.try_unwrap()
@@ -2050,25 +2054,29 @@ impl<A, D, K, V> Tree<A, D, K, V>
                                     // There shouldn't be any Credit, so we
                                     // can just drop it.
                                     .map_ok(drop)
-                            }).boxed()
+                                    .await
+                            }.boxed()
                         } else {
                             dml.delete(&addr, txg).boxed()
                         }
                     },
-                    TreePtr::Mem(node) => {
+                    TreePtr::Mem(node) => async move {
+                        // Wait for anybody who locked it before we locked its
+                        // parent.
+                        drop(node.xlock().await);
                         let child_guard = node.0.try_unwrap().unwrap();
                         let mut leaf = child_guard.into_leaf();
-                        if V::NEEDS_FLUSH {
+                        let mut credit = if V::NEEDS_FLUSH {
                             // Must recurse into the leaves.
-                            leaf.range_delete(dml.as_ref(), txg, ..).boxed()
+                            leaf.range_delete(dml2.as_ref(), txg, ..).await?
                         } else {
                             // Simply repay credit and drop in-memory leaves
-                            future::ok(Credit::null()).boxed()
-                        }.map_ok(move |mut credit| {
-                            credit.extend(leaf.forget());
-                            dml2.repay(credit);
-                        }).boxed()
-                    },
+                            Credit::null()
+                        };
+                        credit.extend(leaf.forget());
+                        dml2.repay(credit);
+                        Ok(())
+                    }.boxed(),
                     TreePtr::None => unreachable!()// LCOV_EXCL_LINE unreachable
                 }
             }).collect::<FuturesUnordered<_>>()
-- 
2.43.0


From f13c3505382f6079ee6197fc1196bd22e566107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:41 +0000
Subject: [PATCH 65/65] fix: range_delete must not leave a node with a single
 child

Below the lowest common ancestor of a range_delete's cut, a node is only
guaranteed to be able to lose one child.  But range_delete_pass2_r treated
such a node's only affected child as a common ancestor, and fixed it until it
could lose two children of its own.  That could take two merges, leaving the
node underflowing.
---
 bfffs-core/src/tree/tree/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 638de24..d2afdc8 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -1841,7 +1841,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
             }
         }.and_then(move |(tree_guard, root_guard, credit)| {
             Tree::range_delete_pass2_r(self2, root_guard.unwrap(), map, range,
-                                       txg, credit)
+                                       false, txg, credit)
             .map_ok(|(_, credit)| (tree_guard, credit))
         }).and_then(move |(mut tree_guard, credit)| async move {
             // Keep merging down the root as long as it has 1 child
@@ -1864,6 +1864,10 @@ impl<A, D, K, V> Tree<A, D, K, V>
         })
     }
 
+    // below_lca must be true if guard is below the lowest common ancestor of all
+    // affected nodes.  In that case, at most one of its children will get
+    // merged, and its caller only ensured that it can spare one.
+    //
     // Clippy wrongly suggests combining a Option::is_some() && <BOOL>
     // expression into a let expression, but that's not allowed in stable Rust.
     #[allow(clippy::unnecessary_unwrap)]
@@ -1872,6 +1876,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
         guard: TreeWriteGuard<A, K, V>,
         mut map: HashSet<usize>,
         range: R,
+        below_lca: bool,
         txg: TxgT,
         credit: Credit
     ) -> Pin<Box<dyn Future<Output=Result<
@@ -1933,12 +1938,14 @@ impl<A, D, K, V> Tree<A, D, K, V>
                     let (guard, child_guard, mb, mm, credit, stole) = state;
                     // The left node may have become a common ancestor if we
                     // merged it with the right node, or if we stole some nodes
-                    // from the right node.
-                    let common = right_idx.is_none() || mm > 0 || stole;
+                    // from the right node.  But nothing below the lowest common
+                    // ancestor can be a common ancestor.
+                    let common = !below_lca &&
+                        (right_idx.is_none() || mm > 0 || stole);
                     // Don't fix if it has no siblings; that can happen if we
                     // need to merge the root down.
                     if !underflow(&child_guard, common) || guard.len() <= 1 {
-                        break Ok((guard, child_guard, mb, mm, credit));
+                        break Ok((guard, child_guard, mb, mm, !common, credit));
                     }
                     let i = left_idx - mb;
                     let self8 = self7.clone();
@@ -1968,10 +1975,10 @@ impl<A, D, K, V> Tree<A, D, K, V>
                         }
                     }
                 }
-            }).and_then(move |(guard, child_guard, mb, mm, credit)| {
+            }).and_then(move |(guard, child_guard, mb, mm, below, credit)| {
                 // Recurse into the left child
                 Tree::range_delete_pass2_r(self3, child_guard, map,
-                                           range3, txg, credit)
+                                           range3, below, txg, credit)
                 .map_ok(move |(map, credit)| (guard, map, mb, mm, credit))
             }).and_then(move |(guard, map, mb, mm, credit)| {
                 // Fix into the right node, if it exists and was not merged
@@ -1998,7 +2005,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
                     }).and_then(move |(guard, child_guard, mb, mm, credit)| {
                         // Now recurse into the right child
                         Tree::range_delete_pass2_r(self8, child_guard, map,
-                                                   range, txg, credit)
+                                                   range, true, txg, credit)
                         .map_ok(move |(map, credit)| (guard, map, mb, mm, credit))
                     });
                     fut.boxed()
-- 
2.43.0

