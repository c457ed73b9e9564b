From 424dedd514f5f96498b6b38704bc77048185aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 01/35] fix: PrimeS: don't overflow 16-bit math in wide layouts

PrimeS::new accepts up to 215 disks, but the stripe number within a
repetition, the number of rows in a repetition and the per-disk offsets
were computed in i16.  Layouts such as 41-31-1 panicked in debug builds,
and layouts with 191 or more disks silently mapped chunks to garbage
locations in release builds.  Use i32 for them.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..633a96f 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: i32
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = i32::from(disks_per_stripe) * i32::from(num_disks - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: i32,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From 2b9963e99c86d5ce53380478ab74a12a4187464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 02/35] fix: RangeBoundsExt: (x, x) is an empty range

A range whose bounds are equal and both excluded contains nothing, but
is_empty reported it as non-empty.
---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From 78d5fa5388ab8023c5b07b03433059976d6dcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 03/35] fix: WriteBack: don't lose wakeups

A borrower that found too little credit could go to sleep although enough
credit was available: a repayment that came after it returned its tentative
withdrawal but before it set the sleepers flag didn't see anybody to wake, and
the tentative withdrawal of one borrower could make another one sleep.  After
going to sleep, check whether there is anybody to awaken.
---
 bfffs-core/src/writeback/writeback.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..ff85668 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -253,6 +253,11 @@ impl WriteBack {
                     let sleeper = Sleeper { tx, wants: iwants };
                     guard.push_back(sleeper);
                     self.supply.fetch_or(1, Release);
+                    drop(guard);
+                    // Credit may have been repayed before we set the flag, or
+                    // been withheld from us only by another borrower who has
+                    // since given it back.  Nobody else would awaken us then.
+                    self.awaken();
                     break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
                 }
             } else {
-- 
2.43.0


From f4feaa0f629d1eabfefdf5826f925dde968cff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 04/35] fix: property: recordsize=1048576 parses;
 PropertySource::None prints as "none"

The 1 MiB record size is displayed as 1048576, but only 1048776 was accepted.
PropertySource::None, which is parsed from "none", was displayed as
"inherited".
---
 bfffs-core/src/property.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..aafe62c 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        // 1_048_776 is a historical misspelling
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
@@ -284,6 +285,7 @@ impl PropertySource {
 impl fmt::Display for PropertySource {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
+            Self::None => "none".fmt(f),
             Self::Default => "default".fmt(f),
             Self::LOCAL => "local".fmt(f),
             _ => "inherited".fmt(f)
-- 
2.43.0


From 636c73bb04e3b3922b38f97106f51a24548ae740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 05/35] fix: LruCache: don't expire blocks for a duplicate
 insertion

Inserting a block that is already cached needs no extra space, but expired as
many blocks as if it did.
---
 bfffs-core/src/cache/lru.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/bfffs-core/src/cache/lru.rs b/bfffs-core/src/cache/lru.rs
index 132dbf6..3bc2261 100644
--- a/bfffs-core/src/cache/lru.rs
+++ b/bfffs-core/src/cache/lru.rs
@@ -97,26 +97,23 @@ impl LruCache {
     pub fn insert(&mut self, key: Key, buf: Box<dyn Cacheable>) {
         let cache_space = buf.cache_space();
         assert!(cache_space <= self.capacity);
-        while self.size + cache_space > self.capacity {
-            self.expire();
-        }
-        let entry = LruEntry { buf, mru: None, lru: self.mru};
-        if let Some(old_entry) = self.store.insert(key, entry) {
+        if let Some(old_entry) = self.store.get(&key) {
             // Inserting two different values with the same key is a bug, but
             // inserting two identical values is merely bad timing.  We must
             // compare the buffers to verify.
-            {
-                let new_entry = &self.store[&key];
-                assert!(old_entry.buf.eq(&*new_entry.buf),
-                    "Conflicting value cached with key={key:?}");
-            }
+            assert!(old_entry.buf.eq(&*buf),
+                "Conflicting value cached with key={key:?}");
             event!(Level::WARN, "duplicate_cache_insertion");
-            // Just put the old entry back so we don't have to fix the linkages
-            self.store.insert(key, old_entry);
+            // Just keep the old entry so we don't have to fix the linkages.
+            // And don't expire anything; no extra space is needed.
             return;
-        } else {
-            self.size += cache_space;
         }
+        while self.size + cache_space > self.capacity {
+            self.expire();
+        }
+        let entry = LruEntry { buf, mru: None, lru: self.mru};
+        self.store.insert(key, entry);
+        self.size += cache_space;
         if let Some(mru) = &self.mru {
             if let Some(v) = self.store.get_mut(mru) {
                 debug_assert!(v.mru.is_none());
-- 
2.43.0


From bb69a6105776b00a6e59ad52483c5eab7d88a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 06/35] fix: reject a space map block that cannot be parsed

A stored space map block whose corruption reaches its length field fails to
parse, and importing the pool then panicked.  Report EINTEGRITY, as for any
other corrupt block.
---
 bfffs-core/src/cluster.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..7c5586f 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -242,7 +242,9 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
+            // A corrupt block may not even be parseable.
+            let sod = SpacemapOnDisk::deserialize(i as u64, &db)
+                .unwrap_or(Err(Error::EINTEGRITY));
             if let Err(e) = sod {
                 let fut = future::err(e);
                 return Box::pin(fut);
-- 
2.43.0


From a6a5ea6f0ccf00a97d5aae67d0da85968ad35ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 07/35] fix: VdevBlock: removing a device aborts a merged
 operation only once

---
 bfffs-core/src/vdev_block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..62e24e7 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -498,8 +498,9 @@ impl Inner {
             // Abort the future immediately
             for sender in senders {
                 sender.send(Err(Error::ENXIO)).unwrap();
-                self.queue_depth -= 1;
             }
+            // make_fut counted a merged operation only once
+            self.queue_depth -= 1;
             return None;
         }
 
-- 
2.43.0


From c30293e4025b9f19ddc45804aad4ce4178a220d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 08/35] fix: VdevBlock: a request whose waiter was dropped must
 still complete

---
 bfffs-core/src/vdev_block.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 62e24e7..7dfe918 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -497,7 +497,8 @@ impl Inner {
         if self.remover.is_some() {
             // Abort the future immediately
             for sender in senders {
-                sender.send(Err(Error::ENXIO)).unwrap();
+                // A dropped VdevBlockFut no longer cares
+                let _ = sender.send(Err(Error::ENXIO));
             }
             // make_fut counted a merged operation only once
             self.queue_depth -= 1;
@@ -523,7 +524,8 @@ impl Inner {
                 tokio::spawn( async move {
                     let r = fut.await;
                     for sender in senders{
-                        sender.send(r).unwrap();
+                        // A dropped VdevBlockFut no longer cares
+                        let _ = sender.send(r);
                     }
                     inner.write().unwrap().queue_depth -= 1;
                     schfut.await
@@ -533,7 +535,8 @@ impl Inner {
                 // This normally doesn't happen, but it can happen on a
                 // heavily laden system or one with very fast storage.
                 for sender in senders {
-                    sender.send(r).unwrap();
+                    // A dropped VdevBlockFut no longer cares
+                    let _ = sender.send(r);
                 }
                 self.queue_depth -= 1;
             }
-- 
2.43.0


From 637fe04a15cf491d1122e48f1c7f803b9e599340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 09/35] fix: VdevFile: sync_all must tolerate being retried
 after EAGAIN

---
 bfffs-core/src/vdev_file.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..c37d9d2 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -451,10 +451,12 @@ impl<'fd> VdevFile<'fd> {
     /// storage.
     pub fn sync_all(&self) -> VdevFileFut<'_>
     {
-        let fut = AioFileExt::sync_all(&self.fd).unwrap()
-            .map_ok(drop)
-            .map_err(Error::from);
-        Box::pin(fut)
+        // Like WriteAt and friends, this must tolerate being polled again after
+        // it synchronously returned EAGAIN, which MapOk and MapErr don't.
+        let mut fut = Box::pin(AioFileExt::sync_all(&self.fd).unwrap());
+        Box::pin(future::poll_fn(move |cx| {
+            fut.as_mut().poll(cx).map_ok(drop).map_err(Error::from)
+        }))
     }
 
     /// Asynchronously write a contiguous portion of the vdev.
-- 
2.43.0


From 21a9398fc9e6cdf7ff444528c1a367e5d02116d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 10/35] fix: VdevBlock: a retry timer may outlive the device

---
 bfffs-core/src/vdev_block.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 7dfe918..aa36f51 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -658,9 +658,11 @@ impl Future for ReschedFut {
     type Output = ();
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
-        let inner = self.0.upgrade()
-            .expect("VdevBlock dropped with outstanding I/O");
-        inner.write().unwrap().issue_all(cx);
+        // A ReschedFut that waits for disk resources may outlive the VdevBlock,
+        // if something else has already issued the delayed operation.
+        if let Some(inner) = self.0.upgrade() {
+            inner.write().unwrap().issue_all(cx);
+        }
         Poll::Ready(())
     }
 }
-- 
2.43.0


From eb766970861def3a2554a20ea6d2c3542d85978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 11/35] fix: Health: count more than 255 missing levels of
 redundancy without wrapping

A Mirror with a multiple of 256 sick children reported itself Online, and so
did a VdevRaid whose mirrors were missing a multiple of 256 disks between them
(in a debug build, the sum panicked).
---
 bfffs-core/src/mirror.rs         | 2 +-
 bfffs-core/src/raid/vdev_raid.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..b027732 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -781,7 +781,7 @@ impl Mirror {
         let health = if sick_children == nchildren {
             Health::Faulted(FaultedReason::InsufficientRedundancy)
         } else {
-            NonZeroU8::new(sick_children as u8)
+            NonZeroU8::new(u8::try_from(sick_children).unwrap_or(u8::MAX))
                 .map(Health::Degraded)
                 .unwrap_or(Health::Online)
         };
diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..964a407 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2353,11 +2353,11 @@ impl VdevRaidApi for VdevRaid {
                         // store the target size of a mirror in its label.
                         1
                     } else {
-                        m.leaves.len() as u8
+                        u8::try_from(m.leaves.len()).unwrap_or(u8::MAX)
                     }
                 }
             }
-        }).sum();
+        }).fold(0, u8::saturating_add);
         let health = if self.faulted_children() > self.inner.codec.protection()
         {
             Health::Faulted(FaultedReason::InsufficientRedundancy)
-- 
2.43.0


From 884486dd3e24e9cd9086709ece838cf0fb377d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 12/35] fix: VdevRaid: restoring a faulted child must update
 faulted_children

Otherwise the cached count is too high forever after: the array reports itself
Faulted or refuses to reconstruct data sooner than it must, and a debug build
panics the next time that it looks.
---
 bfffs-core/src/raid/vdev_raid.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 964a407..04175ce 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -348,16 +348,24 @@ impl Child {
     ///
     /// It is the caller's responsibility to ensure that all data has been fully
     /// rebuilt.
-    fn restore(&mut self) {
+    ///
+    /// If its status changed from Faulted to Present, return 1.
+    fn restore(&mut self) -> i16 {
         let mut old = mem::replace(self, Child::Missing(Uuid::default()));
         if let Child::Present(ref mut m) = &mut old {
             m.restore();
         }
+        let r = if matches!(old, Child::Faulted(_)) {
+            1
+        } else {
+            0
+        };
         *self = match old {
             Child::Present(m) => Child::Present(m),
             Child::Faulted(m) => Child::Present(m),
             Child::Missing(uuid) => Child::Missing(uuid),
         };
+        r
     }
 
     fn status(&self) -> Option<mirror::Status> {
@@ -2320,7 +2328,7 @@ impl VdevRaidApi for VdevRaid {
 
     fn restore(&mut self, mirror_idx: usize) -> Result<()> {
         if let Some(inner) = Arc::get_mut(&mut self.inner) {
-            inner.children[mirror_idx].restore();
+            self.faulted_children -= inner.children[mirror_idx].restore();
             Ok(())
         } else {
             Err(Error::EAGAIN)
-- 
2.43.0


From 907f83fbeb116bd7d70a2b14d93f991dd699608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 13/35] fix: VdevRaid: labels and space maps must not require
 every child to be present

---
 bfffs-core/src/raid/vdev_raid.rs | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 04175ce..fb1bbc7 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -312,8 +312,10 @@ impl Child {
         }
     }
 
-    fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> ChildReadSpacemap {
-        self.as_present().unwrap().read_spacemap(buf, smidx)
+    fn read_spacemap(&self, buf: IoVecMut, smidx: u32)
+        -> Option<ChildReadSpacemap>
+    {
+        self.as_present().map(|m| m.read_spacemap(buf, smidx))
     }
 
     fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> ChildReadFut {
@@ -389,14 +391,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        ->  Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -473,18 +477,23 @@ impl Future for ReadSpacemap {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
+                    // Try a different child, skipping any that are absent.
+                    while pinned.inner.children.get(*pinned.next)
+                        .is_some_and(|child| !child.is_present())
+                    {
+                        *pinned.next += 1;
+                    }
                     if *pinned.next >= pinned.inner.children.len() {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
                 }
             }
-            // Try a different child.
             let buf = pinned.dbi.try_mut().unwrap();
             let child = &pinned.inner.children[*pinned.next];
             *pinned.next += 1;
             let new_fut = child.read_spacemap(buf, *pinned.smidx);
-            pinned.fut.replace(new_fut);
+            pinned.fut.set(new_fut);
         }
     }
 }
@@ -2268,11 +2277,12 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.children.iter().position(Child::is_present);
+        let fut = first.and_then(|i| inner.children[i].read_spacemap(buf, smidx));
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next: first.map_or(0, |i| i + 1),
             dbi,
             smidx,
             fut
@@ -2473,7 +2483,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2484,7 +2494,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From 76bbd4d90dd5a6de8c022c36c4dcc7336bacb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 14/35] fix: VdevRaid::read_long_multi must not use a presumed
 bad disk's parity chunk

---
 bfffs-core/src/raid/vdev_raid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index fb1bbc7..f95137e 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1356,11 +1356,13 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
-                            let mut dbm = sdbmi.next().unwrap();
-                            missing.push(dbm.as_mut_ptr());
-                            vdbm.push(dbm);
+                            if cid.is_data() {
+                                let mut dbm = sdbmi.next().unwrap();
+                                missing.push(dbm.as_mut_ptr());
+                                vdbm.push(dbm);
+                            }
                         } else {
                             let dbs = buffers[disk].as_mut().unwrap();
                             let mut db = dbs.try_const().unwrap();
-- 
2.43.0


From f07647f0749473579f6c16dcbabbff0d100f119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 15/35] fix: VdevRaid: recover from an unexpected error when
 part of a chunk was read

---
 bfffs-core/src/raid/vdev_raid.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index f95137e..537bb52 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1229,7 +1229,37 @@ impl VdevRaid {
                     {
                         // should've already read it
                         let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
+                        let r = dv[dvidx];
+                        if old_nerrs > 0 {
+                            Box::pin(future::ready(r)) as BoxVdevFut
+                        } else {
+                            // But the first read was not degraded, so we only
+                            // read as much of it as the caller wanted.  Read
+                            // the rest of it for parity reconstruction.
+                            let cid_lba = cid.address() * chunksize;
+                            let cid_end_lba = cid_lba + chunksize;
+                            let pre_lbas = ulba.saturating_sub(cid_lba);
+                            let post_lbas = cid_end_lba.saturating_sub(uelba);
+                            let disk_lba = loc.offset * chunksize;
+                            let mut futs = Vec::with_capacity(2);
+                            for (lbas, lba) in [
+                                (pre_lbas, disk_lba),
+                                (post_lbas, disk_lba + chunksize - post_lbas)
+                            ] {
+                                if lbas > 0 {
+                                    let dbs = DivBufShared::uninitialized(
+                                        lbas as usize * BYTES_PER_LBA);
+                                    let dbm = dbs.try_mut().unwrap();
+                                    exbufs.as_mut().unwrap().push(dbs);
+                                    if r.is_ok() {
+                                        futs.push(inner.children[loc.disk as usize].read_at(dbm, lba));
+                                    }
+                                }
+                            }
+                            Box::pin(future::join_all(futs)
+                                .map(move |v| v.into_iter().fold(r, Result::and))
+                            ) as BoxVdevFut
+                        }
                     } else {
                         // Need to read this data chunk for parity
                         // reconstruction
-- 
2.43.0


From 21609c1429c183010f4a53e0fb1fef893810a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 16/35] fix: Mirror: a read that cannot be retried fails
 instead of panicking

---
 bfffs-core/src/mirror.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index b027732..babb03a 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -909,7 +909,7 @@ impl Future for ReadAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
@@ -917,10 +917,15 @@ impl Future for ReadAt {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
+                    e
                 }
-            }
-            // Try a different child.
-            let buf = pinned.dbi.try_mut().unwrap();
+            };
+            // Try a different child, unless the caller is still using other
+            // parts of the same buffer.
+            let buf = match pinned.dbi.try_mut() {
+                Ok(buf) => buf,
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.read_at(buf, *pinned.lba);
             pinned.fut.replace(new_fut);
@@ -987,7 +992,7 @@ impl Future for ReadvAt {
             return Poll::Ready(Err(Error::ENXIO));
         }
         loop {
-            match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
+            let e = match pinned.fut.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
@@ -995,12 +1000,18 @@ impl Future for ReadvAt {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
+                    e
                 }
-            }
-            // Try a different child.
-            let bufs = pinned.dbis.iter()
-                .map(|dbi| dbi.try_mut().unwrap())
-                .collect::<Vec<_>>();
+            };
+            // Try a different child, unless the caller is still using other
+            // parts of the same buffers.
+            let bufs = match pinned.dbis.iter()
+                .map(DivBufInaccessible::try_mut)
+                .collect::<std::result::Result<Vec<_>, _>>()
+            {
+                Ok(bufs) => bufs,
+                Err(_) => return Poll::Ready(Err(e))
+            };
             let child = pinned.children.pop().unwrap();
             let new_fut = child.readv_at(bufs, *pinned.lba);
             pinned.fut.replace(new_fut);
-- 
2.43.0


From d4b0b2129685ae98fd36dc76aaab698fc992e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 17/35] fix: VdevFile::write_at: check the length of the
 buffer, not of its allocation

---
 bfffs-core/src/vdev_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index c37d9d2..b3e3453 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -477,10 +476,7 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From 91885b73bd6a2979a41c26f9be0e4f90a3643712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 18/35] fix: LabelReader::new: refuse a label whose length
 overflows instead of panicking

---
 bfffs-core/src/label.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..0a7adbb 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -83,8 +83,8 @@ impl LabelReader {
             &buffer[length_start .. contents_start]);
         let mut hasher = MetroHash64::new();
         {
-            let csl = contents_start ..  contents_start + contents_len as usize;
-            let contents = if let Some(sl) = buffer.get(csl) {
+            let rest = &buffer[contents_start..];
+            let contents = if let Some(sl) = rest.get(..contents_len as usize) {
                 sl
             } else {
                 tracing::warn!("Label too large");
-- 
2.43.0


From 16b23a979af97ace3d2ac60866818c98ec8cbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 19/35] fix: copy_and_pad_sglist: accept buffers of any length
 after a partial block

---
 bfffs-core/src/util.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 4637630..68ace36 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -85,15 +85,7 @@ pub fn copy_and_pad_sglist(bufs: SGList) -> SGList {
         let mut outlist = SGList::with_capacity(bufs.len());
         let mut accumulator: Option<Vec<u8>> = None;
         for mut db in bufs.into_iter() {
-            if db.len() % BYTES_PER_LBA == 0 {
-                assert!(accumulator.is_none());
-                outlist.push(db);
-                continue
-            }
             if let Some(ref mut accum) = accumulator {
-                if db.len() > BYTES_PER_LBA {
-                    unimplemented!();
-                }
                 // Data copy
                 accum.extend(&db[..]);
                 if accum.len() % BYTES_PER_LBA == 0 {
@@ -103,6 +95,8 @@ pub fn copy_and_pad_sglist(bufs: SGList) -> SGList {
                     let db = dbs.try_const().unwrap();
                     outlist.push(db);
                 }
+            } else if db.len() % BYTES_PER_LBA == 0 {
+                outlist.push(db);
             } else {
                 if db.len() > BYTES_PER_LBA {
                     let wlen = db.len() & !(BYTES_PER_LBA - 1);
-- 
2.43.0


From 5edee754cdd885716c2d83fda053dab8d3852e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 20/35] fix: raid::Manager::import: take the label of the most
 up-to-date mirror

---
 bfffs-core/src/mirror.rs   | 15 ++++++++++++++-
 bfffs-core/src/raid/mod.rs |  8 ++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index babb03a..8347035 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -339,6 +339,10 @@ pub struct Mirror {
     /// Size of the vdev in bytes.  It's the minimum of the childrens' sizes.
     size: LbaT,
 
+    /// The most recent transaction group recorded in the labels of the
+    /// up-to-date children.
+    txg: Arc<AtomicU32>,
+
     uuid: Uuid,
 }
 
@@ -483,6 +487,7 @@ impl Mirror {
             next_read_idx,
             optimum_queue_depth,
             size,
+            txg: Arc::new(AtomicU32::new(0)),
             children
         })
     }
@@ -529,7 +534,9 @@ impl Mirror {
                 children.push(Child::missing(*lchild));
             }
         }
-        Ok((Mirror::new(label.uuid, children)?, reader))
+        let mirror = Mirror::new(label.uuid, children)?;
+        mirror.txg.store(highest_txg.into(), Ordering::Relaxed);
+        Ok((mirror, reader))
     }
 
     pub fn open_zone(&self, start: LbaT) -> BoxVdevFut {
@@ -807,6 +814,12 @@ impl Mirror {
         Box::pin(fut)
     }
 
+    /// The most recent transaction group recorded in the labels of the
+    /// up-to-date children.
+    pub fn txg(&self) -> TxgT {
+        self.txg.load(Ordering::Relaxed).into()
+    }
+
     pub fn uuid(&self) -> Uuid {
         self.uuid
     }
diff --git a/bfffs-core/src/raid/mod.rs b/bfffs-core/src/raid/mod.rs
index 4a3ba54..14918ff 100644
--- a/bfffs-core/src/raid/mod.rs
+++ b/bfffs-core/src/raid/mod.rs
@@ -23,6 +23,7 @@ use futures::Future;
 #[cfg(test)] use mockall::*;
 use mockall_double::double;
 use speedy::{Readable, Writable};
+#[cfg(not(test))] use std::cmp::Reverse;
 use std::{
     collections::BTreeMap,
     iter::once,
@@ -122,6 +123,11 @@ impl Manager {
                         if pairs.is_empty() {
                             Err(error)
                         } else {
+                            // A mirror that missed some transactions has an
+                            // out-of-date label, and open uses the first one.
+                            pairs.sort_by_key(|(mirror, _)| {
+                                Reverse(mirror.txg())
+                            });
                             Ok(open(Some(uuid), pairs))
                         }
                     })
@@ -198,6 +204,8 @@ pub fn create(chunksize: Option<NonZeroU64>, disks_per_stripe: i16,
 /// * `combined`:   An array of pairs of `Mirror`s and their
 ///                 associated `LabelReader`.  The labels of each will be
 ///                 verified.
+///                 The first one's label describes the `Vdev`, so it must be
+///                 one of the most up-to-date.
 fn open(uuid: Option<Uuid>, combined: Vec<(Mirror, LabelReader)>)
     -> (RaidImpl, LabelReader)
 {
-- 
2.43.0


From 02ce2e3025d3863371493e9a257cbf79ce4a7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 21/35] fix: Mirror::write_label: a rebuilding child's label is
 older than its siblings'

---
 bfffs-core/src/mirror.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 8347035..475cb7f 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -846,6 +846,14 @@ impl Mirror {
             children: children_uuids
         };
         labeller.serialize(&label).unwrap();
+        // Until it's restored, a rebuilding child must look older than the
+        // up-to-date ones: it has neither a complete label nor a spacemap.
+        let txg = if repairing {
+            txg.min(TxgT::from(u32::from(self.txg()).saturating_sub(1)))
+        } else {
+            txg
+        };
+        let mirror_txg = self.txg.clone();
         let fut = self.children.iter().filter_map(|bd| {
             if repairing {
                 bd.repair_label(labeller.clone(), txg)
@@ -854,7 +862,11 @@ impl Mirror {
             }
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-        .map_ok(drop);
+        .map_ok(move |_| {
+            if !repairing {
+                mirror_txg.store(txg.into(), Ordering::Relaxed);
+            }
+        });
         Box::pin(fut)
     }
 
-- 
2.43.0


From fbb7fb3e86c9d1a12dfaa16fc49e20a414d905d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 22/35] fix: mirror::Manager::taste: import children known to
 any of the leaves

---
 bfffs-core/src/mirror.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 475cb7f..23b3359 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -6,7 +6,7 @@
 //! as temporary mirrors, used for spares and replacements.
 
 use std::{
-    collections::BTreeMap,
+    collections::{BTreeMap, btree_map::Entry},
     mem,
     num::{NonZeroU8, NonZeroU64},
     path::Path,
@@ -111,7 +111,21 @@ impl Manager {
     pub async fn taste<P: AsRef<Path>>(&mut self, p: P) -> Result<LabelReader> {
         let mut reader = self.vbm.taste(p).await?;
         let ml: Label = reader.deserialize().unwrap();
-        self.mirrors.insert(ml.uuid, ml);
+        // An out-of-date leaf may not know about all of the mirror's children.
+        // So import every child that any leaf knows about.
+        match self.mirrors.entry(ml.uuid) {
+            Entry::Vacant(ve) => {
+                ve.insert(ml);
+            },
+            Entry::Occupied(mut oe) => {
+                let children = &mut oe.get_mut().children;
+                for uuid in ml.children {
+                    if !children.contains(&uuid) {
+                        children.push(uuid);
+                    }
+                }
+            }
+        }
         Ok(reader)
     }
 }
-- 
2.43.0


From 525354af30ecccbe9b313e027f11b0e093296e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 23/35] fix: Mirror::sync_all: sync rebuilding children, too

---
 bfffs-core/src/mirror.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index 23b3359..e978226 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -312,7 +312,10 @@ impl Child {
     }
 
     fn sync_all(&self) -> Option<VdevBlockFut> {
-        self.as_present().map(|vb| vb.sync_all())
+        // Repaired data must be stable before the repaired label is written
+        self.as_present()
+            .or_else(|| self.as_rebuilding())
+            .map(|vb| vb.sync_all())
     }
 
     fn uuid(&self) -> Uuid {
-- 
2.43.0


From ae855f38b06ba1e3f190347496f1a38fe9a70db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 24/35] fix: VdevRaid::sync_all: allow syncing a rebuilding
 mirror beside partial stripes

---
 bfffs-core/src/raid/vdev_raid.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 537bb52..800084b 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -2427,8 +2427,10 @@ impl VdevRaidApi for VdevRaid {
 
     fn sync_all(&self, mirror_idx: Option<usize>) -> BoxVdevFut {
         // Don't flush zones ourselves; the Cluster layer must be in charge of
-        // that, so it can update the spacemap.
+        // that, so it can update the spacemap.  A rebuilding mirror can't
+        // contain anything from the stripe buffers, so don't worry about them.
         debug_assert!(
+            mirror_idx.is_some() ||
             self.stripe_buffers.read().unwrap()
             .values()
             .all(StripeBuffer::is_empty),
-- 
2.43.0


From 7f8c19beb51b201a296458f94b6c7169903ba920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 25/35] fix: Cluster::repair_mirror_step: repair zones that
 were closed during the rebuild

---
 bfffs-core/src/cluster.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 7c5586f..0d43bfc 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -828,10 +828,13 @@ pub struct RepairMirrorTask {
     /// Index of the mirror child that we're repairing.
     mirror_idx: usize,
 
-    /// The next transaction that will need to be repaired after `zones` has
-    /// been fully processed.
+    /// Zones that start in this transaction or later weren't known yet when
+    /// `zones` was determined.
     next_txg: TxgT,
 
+    /// Zones that have already been repaired, with their start transactions.
+    repaired: BTreeSet<(ZoneT, TxgT)>,
+
     /// Ordered list of zones that we need to repair.  If a Zone isn't on this
     /// list, then it either:
     /// * Doesn't need repair because it's Empty or Dead
@@ -1085,7 +1088,8 @@ impl Cluster {
             mirror_idx,
             zones: zs.zones,
             next_txg,
-            min_open_txg: zs.min_open_txg
+            min_open_txg: zs.min_open_txg,
+            repaired: BTreeSet::new()
         }
     }
 
@@ -1139,7 +1143,7 @@ impl Cluster {
         repair_open_zones: bool) -> Result<bool>
     {
         if let Some(zid) = task.zones.pop_front() {
-            let (wp, sync_txg) = {
+            let (start_txg, wp, sync_txg) = {
                 let fsm = self.fsm.read().unwrap();
                 if fsm.is_dead(zid) || fsm.is_empty(zid) {
                     // This zone was alive when self was created.  It must've
@@ -1173,7 +1177,7 @@ impl Cluster {
                         sync_txg = None;
                     }
                 }
-                (fsm.write_pointer(zid), sync_txg)
+                (start_txg, fsm.write_pointer(zid), sync_txg)
             };
             if wp == Some(0) {
                 // It's unusual but not illegal for an open zone to have zero
@@ -1182,6 +1186,9 @@ impl Cluster {
                 let lbas = wp.and_then(NonZeroU64::new);
                 self.vdev.repair_mirror_zone(task.mirror_idx, zid, lbas).await?;
             }
+            if wp.is_none() || repair_open_zones {
+                task.repaired.insert((zid, start_txg));
+            }
             if let Some(sync_txg) = sync_txg {
                 self.vdev.sync_all(Some(task.mirror_idx)).await?;
                 let lw = LabelWriter::new(0);
@@ -1198,9 +1205,19 @@ impl Cluster {
             // Generate a new list of zones, excluding all Zones that we've
             // already repaired.
             // Let the caller know whether there are more zones to repair
-            let zs = self.order_zones_for_repair(task.next_txg..,
+            // NB: zones that were open when we last looked may have been closed
+            // in the very transaction in which the already repaired ones were.
+            let zs = self.order_zones_for_repair(task.initial_txg..,
                                                  repair_open_zones);
-            task.zones = zs.zones;
+            {
+                let fsm = self.fsm.read().unwrap();
+                task.zones = zs.zones.into_iter()
+                    .filter(|zid| {
+                        let start_txg = fsm.zones[*zid as usize].txgs.start;
+                        start_txg >= task.next_txg ||
+                            !task.repaired.contains(&(*zid, start_txg))
+                    }).collect();
+            }
             if let Some(maxtxg) = zs.max_end_txg {
                 task.next_txg = maxtxg.checked_add(TxgT::from(1))
                     .expect("An open zone had an illegal end TXG");
-- 
2.43.0


From 22abd2a8acaab76b19fa4c034b737a1a93dd8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 26/35] fix: Cluster::repair_mirror_step: don't claim
 transactions of zones not yet repaired

---
 bfffs-core/src/cluster.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 0d43bfc..8def948 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1151,16 +1151,21 @@ impl Cluster {
                     return Ok(true) ;
                 }
                 // Update the vdev's label if this is the last zone that starts
-                // with this txg.
+                // with this txg.  Consider every zone that still needs repair,
+                // even if it isn't in our list because it was opened later.
                 let start_txg = fsm.zones[zid as usize].txgs.start;
-                let want_txg = if let Some(next_zid) = task.zones.front() {
-                    if start_txg < fsm.zones[*next_zid as usize].txgs.start {
-                        Some(fsm.zones[*next_zid as usize].txgs.start - 1)
-                    } else {
-                        None
-                    }
-                } else {
-                    Some(fsm.zones[zid as usize].txgs.end - 1)
+                let next_start_txg = fsm.contains(task.initial_txg..)
+                    .filter(|next_zid| *next_zid != zid)
+                    .map(|next_zid| (next_zid,
+                                     fsm.zones[next_zid as usize].txgs.start))
+                    .filter(|key| !task.repaired.contains(key))
+                    .map(|(_, next_start_txg)| next_start_txg)
+                    .min();
+                let want_txg = match next_start_txg {
+                    Some(next_txg) if start_txg < next_txg =>
+                        Some(next_txg - 1),
+                    Some(_) => None,
+                    None => Some(fsm.zones[zid as usize].txgs.end - 1)
                 };
                 // Limit the label update if there are any open zones that we
                 // haven't rebuilt yet.
-- 
2.43.0


From 48aa5ac75e660576b149c2c1e16675c06c37dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 27/35] fix: Cluster::restore: rewrite the whole space map on
 the restored device

---
 bfffs-core/src/cluster.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 8def948..294403b 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -281,6 +281,11 @@ impl<'a> FreeSpaceMap {
         Box::pin(fut)
     }
 
+    /// Mark all zones as dirty
+    fn dirty_all_zones(&mut self) {
+        self.dirty.insert_range(..);
+    }
+
     fn dirty_zone_priv(dirty: &mut FixedBitSet, zone_id: ZoneT) {
         let block = zone_id as usize / SPACEMAP_ZONES_PER_LBA;
         dirty.insert(block);
@@ -1234,7 +1239,11 @@ impl Cluster {
 
     /// Restore a child device to the Online state
     pub fn restore(&mut self, mirror_idx: usize) -> Result<()> {
-        self.vdev.restore(mirror_idx)
+        self.vdev.restore(mirror_idx)?;
+        // The restored device's spacemap is out-of-date.  Rewrite all of it
+        // during the next flush.
+        self.fsm.write().unwrap().dirty_all_zones();
+        Ok(())
     }
 
     /// Return approximately the usable space of the Cluster in LBAs.
-- 
2.43.0


From f7cbdd81081d6e7d8af4d02d566a890a467ee0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 28/35] fix: Cluster::write: don't drop zones' finish futures
 when out of space

---
 bfffs-core/src/cluster.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 294403b..d4f9e76 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1290,7 +1290,6 @@ impl Cluster {
 
         let mut wg = self.fsm.write().unwrap();
         let (alloc_result, nearly_full_zones) = wg.try_allocate(space);
-        let futs = self.close_zones(&mut wg, &nearly_full_zones, txg);
         let (zone_id, lba, oz_fut) = if let Some(ac) = alloc_result {
             let zone_id = ac.0;
             let lba = ac.1;
@@ -1315,6 +1314,9 @@ impl Cluster {
                 None => return Err(Error::ENOSPC)
             }
         };
+        // Don't finish any zones if we're out of space: there would be no Future
+        // to return for them.
+        let futs = self.close_zones(&mut wg, &nearly_full_zones, txg);
         self.allocated_space.fetch_add(space, Ordering::Relaxed);
         let wfut = self.vdev.write_at(buf, zone_id, lba);
         drop(wg);
-- 
2.43.0


From dddf2fb589a98bb42ca25e022eae22dad3f7f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:12 +0000
Subject: [PATCH 29/35] fix: Fs::readdir: don't repeat entries when resuming
 within a hash bucket

A listing resumed in the middle of a bucket counted the entries that it
skipped as not yet returned.  So the cookies of the bucket's remaining
entries pointed backwards, and if there were three or more of them, then a
listing that was read piecemeal would never end.
---
 bfffs-core/src/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..188e345 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1934,7 +1934,8 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            for _ in 0..self.bucket_idx {
+                            let returned = self.bucket_idx;
+                            for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
                                 let _ = bucket.pop();
@@ -1944,7 +1945,7 @@ impl Fs {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
                                     kofs: k.offset(),
-                                    returned: 0
+                                    returned
                                 });
                                 Poll::Ready(Some(Ok(self.pop_bucket())))
                             } else {
-- 
2.43.0


From a1ab2aa37f4355ca253dca86b6c9cdb0782e195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:12 +0000
Subject: [PATCH 30/35] fix: Fs::readdir: a cookie's bucket index applies to
 its own bucket only

If that bucket got removed between two calls, then readdir would skip entries
of the next one.
---
 bfffs-core/src/fs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 188e345..96a5578 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1889,6 +1889,8 @@ impl Fs {
         struct ReaddirStream {
             /// Number of entries to skip from the first bucket
             bucket_idx: u8,
+            /// Offset of the FSKey of the bucket to which `bucket_idx` applies
+            offset: u64,
             rq: RangeQuery<FSKey, FSKey, FSValue>,
             /// If the stream is currently positioned in the middle of a bucket,
             /// store that bucket
@@ -1934,7 +1936,13 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            let returned = self.bucket_idx;
+                            // The cursor's index only applies to its own bucket,
+                            // which may have been removed since.
+                            let returned = if k.offset() == self.offset {
+                                self.bucket_idx
+                            } else {
+                                0
+                            };
                             for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
@@ -1968,7 +1976,7 @@ impl Fs {
             let rq = dataset.range(FSKey::dirent_range(ino, offs));
             let bucketing = None;
             let bucket_idx = cursor.bucket_idx();
-            ReaddirStream{bucket_idx, bucketing, rq}
+            ReaddirStream{bucket_idx, bucketing, offset: offs, rq}
         }).map_err(Error::into)
     }
 
-- 
2.43.0


From 0adf079f8ab49ae3dee3e3e49bcdae670b25ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:12 +0000
Subject: [PATCH 31/35] fix: ObjKey::dir_entry: never use the greatest hash

readdir reports the offset just beyond an entry's hash as its cookie.  For the
greatest hash that overflows to 0, and the listing would start over.
---
 bfffs-core/src/fs_tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..1e27635 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -135,7 +135,9 @@ impl ObjKey {
         hasher.write(name.as_bytes());
         // TODO: use some salt to defend against DOS attacks
         let namehash = hasher.finish() & ( (1<<56) - 1);
-        ObjKey::DirEntry(namehash)
+        // Avoid the greatest hash.  Its successor, which readdir needs for a
+        // cookie, would not fit into 56 bits.
+        ObjKey::DirEntry(namehash.min((1<<56) - 2))
     }
 
     pub fn dying_inode(ino: u64) -> Self {
-- 
2.43.0


From e9467602988ab9789b740756278359eaca00c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:27 +0000
Subject: [PATCH 32/35] fix: range_delete waits for a leaf that a removal is
 still using

range_delete_purge unwrapped the lock of an in-memory leaf at once.  A
concurrent remove may still hold that leaf, having released its parent,
while it fetches the removed value.  The unwrap then panicked, with the
tree's root locked.
---
 bfffs-core/src/tree/tree/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..bb217fa 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2055,20 +2055,23 @@ impl<A, D, K, V> Tree<A, D, K, V>
                             dml.delete(&addr, txg).boxed()
                         }
                     },
-                    TreePtr::Mem(node) => {
+                    TreePtr::Mem(node) => async move {
+                        // Another task may still be using the leaf, though not
+                        // its parent.  Wait for it to finish.
+                        drop(node.xlock().await);
                         let child_guard = node.0.try_unwrap().unwrap();
                         let mut leaf = child_guard.into_leaf();
-                        if V::NEEDS_FLUSH {
+                        let mut credit = if V::NEEDS_FLUSH {
                             // Must recurse into the leaves.
-                            leaf.range_delete(dml.as_ref(), txg, ..).boxed()
+                            leaf.range_delete(dml2.as_ref(), txg, ..).await?
                         } else {
                             // Simply repay credit and drop in-memory leaves
-                            future::ok(Credit::null()).boxed()
-                        }.map_ok(move |mut credit| {
-                            credit.extend(leaf.forget());
-                            dml2.repay(credit);
-                        }).boxed()
-                    },
+                            Credit::null()
+                        };
+                        credit.extend(leaf.forget());
+                        dml2.repay(credit);
+                        Ok(())
+                    }.boxed(),
                     TreePtr::None => unreachable!()// LCOV_EXCL_LINE unreachable
                 }
             }).collect::<FuturesUnordered<_>>()
-- 
2.43.0


From ff87c3ba5c228e53ae3c74974ab514ce151c81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:38 +0000
Subject: [PATCH 33/35] fix: record the transaction in which zone cleaning
 rewrites a tree's root

Tree::addresses(txgs) and clean_zone look only at nodes whose recorded
transactions overlap those asked for.  When clean_zone rewrote the root
node itself it recorded the new address but not the new transaction.
---
 bfffs-core/src/tree/tree/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index bb217fa..d7e3b68 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2494,6 +2494,12 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                     }).map_ok(move |addr| {
                         let new = TreePtr::Addr(addr);
                         guard.elem.ptr = new;
+                        if h == 1 {
+                            // A leaf has no children, so the TXG range is just
+                            // the current TXG
+                            guard.elem.txgs.start = txg;
+                        }
+                        guard.elem.txgs.end = txg + 1;
                     });
                 fut.boxed()
             } else {
-- 
2.43.0


From 8fe85e2001970a99b7ff6fd8efabc5993f139320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:31 +0000
Subject: [PATCH 34/35] fix: clean_zone tolerates a tree that gets shorter
 while it runs

clean_zone's comment says that it's ok for the tree height to decrease
while it's running.  But both of its passes then descended past the
leaves, looking for a level which no longer exists, and panicked with
"Not a NodeData::Int".
---
 bfffs-core/src/tree/tree/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index d7e3b68..06fa602 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2413,6 +2413,9 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                 VecDeque::new()
             };
             Ok((dirty, None))
+        } else if h <= params.echelon {
+            // The Tree has gotten shorter, and no longer has this level
+            Ok((VecDeque::new(), None))
         } else {
             let dml2 = self.dml.clone();
             let guard = tree_guard.elem.rlock(&dml2).await?;
@@ -2502,6 +2505,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                         guard.elem.txgs.end = txg + 1;
                     });
                 fut.boxed()
+            } else if h <= node.height {
+                // The Tree has gotten shorter since this node was found, so the
+                // node is no longer part of it.  Nothing to do!
+                future::ok(()).boxed()
             } else {
                 // Null credit is ok, since only leaf nodes need credit, and if
                 // the root were a leaf, then we wouldn't be recursing
-- 
2.43.0


From a73274ce401367ee83aecff2cba29ffa61c08507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:24 +0000
Subject: [PATCH 35/35] fix: range_delete merges at most one child of a node
 beside the cut

range_delete_pass2_r took a node's only affected child for a common ancestor
of everything affected, also below a node that is not one itself.  Such a child
could be merged twice, though its parent had only been made ready for one
merge, so the parent was left with fewer children than the minimum.
---
 bfffs-core/src/tree/tree/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 06fa602..c562fc5 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -1841,7 +1841,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
             }
         }.and_then(move |(tree_guard, root_guard, credit)| {
             Tree::range_delete_pass2_r(self2, root_guard.unwrap(), map, range,
-                                       txg, credit)
+                                       true, txg, credit)
             .map_ok(|(_, credit)| (tree_guard, credit))
         }).and_then(move |(mut tree_guard, credit)| async move {
             // Keep merging down the root as long as it has 1 child
@@ -1872,6 +1872,8 @@ impl<A, D, K, V> Tree<A, D, K, V>
         guard: TreeWriteGuard<A, K, V>,
         mut map: HashSet<usize>,
         range: R,
+        // Is `guard` a common ancestor of all affected nodes?
+        common: bool,
         txg: TxgT,
         credit: Credit
     ) -> Pin<Box<dyn Future<Output=Result<
@@ -1933,12 +1935,16 @@ impl<A, D, K, V> Tree<A, D, K, V>
                     let (guard, child_guard, mb, mm, credit, stole) = state;
                     // The left node may have become a common ancestor if we
                     // merged it with the right node, or if we stole some nodes
-                    // from the right node.
-                    let common = right_idx.is_none() || mm > 0 || stole;
+                    // from the right node.  But if there is no right node, then
+                    // the left one is only a common ancestor if its parent is.
+                    let common = match right_idx {
+                        None => common,
+                        Some(_) => mm > 0 || stole
+                    };
                     // Don't fix if it has no siblings; that can happen if we
                     // need to merge the root down.
                     if !underflow(&child_guard, common) || guard.len() <= 1 {
-                        break Ok((guard, child_guard, mb, mm, credit));
+                        break Ok((guard, child_guard, mb, mm, common, credit));
                     }
                     let i = left_idx - mb;
                     let self8 = self7.clone();
@@ -1968,10 +1974,10 @@ impl<A, D, K, V> Tree<A, D, K, V>
                         }
                     }
                 }
-            }).and_then(move |(guard, child_guard, mb, mm, credit)| {
+            }).and_then(move |(guard, child_guard, mb, mm, common, credit)| {
                 // Recurse into the left child
                 Tree::range_delete_pass2_r(self3, child_guard, map,
-                                           range3, txg, credit)
+                                           range3, common, txg, credit)
                 .map_ok(move |(map, credit)| (guard, map, mb, mm, credit))
             }).and_then(move |(guard, map, mb, mm, credit)| {
                 // Fix into the right node, if it exists and was not merged
@@ -1998,7 +2004,7 @@ impl<A, D, K, V> Tree<A, D, K, V>
                     }).and_then(move |(guard, child_guard, mb, mm, credit)| {
                         // Now recurse into the right child
                         Tree::range_delete_pass2_r(self8, child_guard, map,
-                                                   range, txg, credit)
+                                                   range, false, txg, credit)
                         .map_ok(move |(map, credit)| (guard, map, mb, mm, credit))
                     });
                     fut.boxed()
-- 
2.43.0

