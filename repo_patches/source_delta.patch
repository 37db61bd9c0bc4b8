From b9ef0363abb334eff3cf3fc7d3efb953b21a9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 1/5] fix: count children in 64 bits so that spans of 12 or
 more resolutions do not overflow

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From fa7c8e0dc2e530da0054b88b16490a5dd321a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 2/5] fix: let the child iterator's digit increment wrap
 instead of overflowing on malformed indexes

---
 src/iterators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..f984533 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,8 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        // an index with every digit set to 7 carries out of the word
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0


From 45d1245e44e66e6547a34392aa7d27c98ec41971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 3/5] fix: bound maxGridDiskSize by the number of cells there
 are, as its formula overflows for huge k

---
 src/algos.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..b70c992 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -327,6 +327,11 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/** smallest k whose disk formula exceeds the number of resolution 15 cells */
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+/** number of cells at resolution 15: 2 + 120 * 7^15 */
+const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
@@ -335,6 +340,10 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    // a disk this large covers the whole globe at the finest resolution
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        return NUM_CELLS_AT_RES_15;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0


From 1f509fbc84a82c76cdbae5c16c80c1d5c32283cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 4/5] fix: report pentagon distortion for rings wide enough to
 enclose several pentagons

---
 src/algos.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index b70c992..81f1cac 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -754,6 +754,17 @@ pub fn gridDiskDistancesUnsafe(
     return Ok(out);
 }
 
+/**
+ * Grid distance between neighboring pentagons at a resolution.
+ */
+fn _pentagonSpacing(res: i32) -> u32 {
+    if isResolutionClassIII(res) {
+        10 * 7u32.pow(((res - 1) / 2) as u32)
+    } else {
+        4 * 7u32.pow((res / 2) as u32)
+    }
+}
+
 /**
  * Returns the "hollow" ring of hexagons at exactly grid distance k from
  * the origin hexagon. In particular, k=0 returns just the origin hexagon.
@@ -768,6 +779,12 @@ pub fn gridDiskDistancesUnsafe(
  * @return 0 if successful; nonzero otherwise.
  */
 pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error> {
+    // A ring as wide as the pentagons are apart always has one inside it, and
+    // can then wrap around the globe and close by accident.
+    if k >= _pentagonSpacing(H3_GET_RESOLUTION(origin)) {
+        return Err(Error::Pentagon);
+    }
+
     let mut out = Vec::<H3Index>::new();
     out.reserve_exact(6 * k as usize);
 
-- 
2.43.0


From 1812fae4e6b359f7c98744ece049c208290518e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 5/5] fix: orient base cell 57 as seen from face 5 like its
 mirror images on faces 6 to 9

---
 src/base_cells.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_cells.rs b/src/base_cells.rs
index 79f6aad..fd22063 100644
--- a/src/base_cells.rs
+++ b/src/base_cells.rs
@@ -861,7 +861,7 @@ pub const faceIjkBaseCells: [[[[BaseCellOrient; 3]; 3]; 3]; NUM_ICOSA_FACES as u
             [
                 BaseCellOrient {
                     baseCell: 57,
-                    ccwRot60: 1,
+                    ccwRot60: 3,
                 },
                 BaseCellOrient {
                     baseCell: 52,
-- 
2.43.0

