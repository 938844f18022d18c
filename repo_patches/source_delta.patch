From 30d429d6c472b01e8eb0dd8867b938f246683e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 01/47] fix: do not touch the spline when searching with binary
 search

Opening an iterator and reclaiming data pages dereferenced state->spl, which
is never allocated when EMBEDDB_USE_BINARY_SEARCH is set.
---
 lib/Distribution/embedDB.c | 6 +++---
 src/embedDB/embedDB.c      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..f456844 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1582,7 +1582,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2030,7 +2030,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2442,7 +2442,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..ab2e146 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1158,7 +1158,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1606,7 +1606,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && it->minKey != NULL && state->spl->count != 0) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2018,7 +2018,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
-- 
2.43.0


From f3aa73681aff1ae65462c14407b507a97d1a959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 02/47] fix: compute spline corridors and estimates without
 overflow

Cross products and interpolation were done in 64 bits, so widely spaced 8 byte
keys wrapped around and lookups searched pages that do not hold the key.
Negative lower corridor limits were also compared as huge unsigned values.
---
 lib/Distribution/embedDB.c | 75 ++++++++++++++++++++++++++++++++------
 src/spline/spline.c        | 75 ++++++++++++++++++++++++++++++++------
 2 files changed, 126 insertions(+), 24 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f456844..8487199 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,71 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the slopes y1 / x1 and y2 / x2 by cross multiplication. The products may need up to 96 bits.
+ * @return   Negative, zero or positive value if the first slope is smaller than, equal to or larger than the second
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = absY1 * (x2 & UINT32_MAX), low2 = absY2 * (x1 & UINT32_MAX);
+    uint64_t high1 = absY1 * (x2 >> 32) + (low1 >> 32), high2 = absY2 * (x1 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    int8_t result = 0;
+    if (high1 != high2) {
+        result = high1 < high2 ? -1 : 1;
+    } else if (low1 != low2) {
+        result = low1 < low2 ? -1 : 1;
+    }
+    return y1 < 0 ? -result : result;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
+}
+
+/**
+ * @brief    Computes the rounded down value of keyDiff * pageDiff / keyRange without overflowing, where keyDiff <= keyRange.
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint32_t pageDiff, uint64_t keyRange) {
+    if (pageDiff == 0 || keyDiff <= UINT64_MAX / pageDiff)
+        return keyDiff * pageDiff / keyRange;
+
+    /* The product does not fit in 64 bits, multiply and divide one bit at a time */
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t bit = 31; bit >= 0; bit--) {
+        quotient <<= 1;
+        if (remainder >= keyRange - remainder) {
+            remainder -= keyRange - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((pageDiff >> bit) & 1) {
+            if (remainder >= keyRange - keyDiff) {
+                remainder -= keyRange - keyDiff;
+                quotient++;
+            } else {
+                remainder += keyDiff;
+            }
+        }
+    }
+    return quotient;
 }
 
 /**
@@ -133,14 +186,16 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         return;
     }
 
+    /* Pages at the ends of the error corridor for this key */
+    uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+    uint32_t upperPage = page > UINT32_MAX - spl->maxError ? UINT32_MAX : page + spl->maxError;
+
     /* Check if there is only one spline point (need to initialize upper and lower limits using 2nd point) */
     if (spl->numAddCalls == 2) {
         /* Initialize upper and lower limits using second (unique) data point */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
         memcpy(((int8_t *)spl->lower + spl->keySize), &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
         memcpy(((int8_t *)spl->upper + spl->keySize), &upperPage, sizeof(uint32_t));
         memcpy(spl->lastKey, key, spl->keySize);
         spl->lastLoc = page;
@@ -196,10 +251,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
         /* Update upper and lower limits. */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
         memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
         memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
 
         /* If we add a point, we might need to erase again */
@@ -211,16 +264,14 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)upperPage - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
-            uint32_t upperPage = page + spl->maxError;
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)lowerPage - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
-            uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         }
     }
@@ -399,7 +450,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upPage - downPage, upKeyVal - downKeyVal) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
@@ -408,7 +459,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
     void *lastSplinePoint = splinePointLocation(spl, spl->count - 1);
     uint32_t lastSplinePointPage = 0;
     memcpy(&lastSplinePointPage, (int8_t *)lastSplinePoint + spl->keySize, sizeof(uint32_t));
-    id_t highEstimate = (locationEstimate + spl->maxError > lastSplinePointPage) ? lastSplinePointPage : locationEstimate + spl->maxError;
+    id_t highEstimate = (lastSplinePointPage - locationEstimate < spl->maxError) ? lastSplinePointPage : locationEstimate + spl->maxError;
     memcpy(high, &highEstimate, sizeof(id_t));
 }
 
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..be44200 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,71 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the slopes y1 / x1 and y2 / x2 by cross multiplication. The products may need up to 96 bits.
+ * @return   Negative, zero or positive value if the first slope is smaller than, equal to or larger than the second
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = absY1 * (x2 & UINT32_MAX), low2 = absY2 * (x1 & UINT32_MAX);
+    uint64_t high1 = absY1 * (x2 >> 32) + (low1 >> 32), high2 = absY2 * (x1 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    int8_t result = 0;
+    if (high1 != high2) {
+        result = high1 < high2 ? -1 : 1;
+    } else if (low1 != low2) {
+        result = low1 < low2 ? -1 : 1;
+    }
+    return y1 < 0 ? -result : result;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
+}
+
+/**
+ * @brief    Computes the rounded down value of keyDiff * pageDiff / keyRange without overflowing, where keyDiff <= keyRange.
+ */
+static uint32_t splineInterpolate(uint64_t keyDiff, uint32_t pageDiff, uint64_t keyRange) {
+    if (pageDiff == 0 || keyDiff <= UINT64_MAX / pageDiff)
+        return keyDiff * pageDiff / keyRange;
+
+    /* The product does not fit in 64 bits, multiply and divide one bit at a time */
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t bit = 31; bit >= 0; bit--) {
+        quotient <<= 1;
+        if (remainder >= keyRange - remainder) {
+            remainder -= keyRange - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((pageDiff >> bit) & 1) {
+            if (remainder >= keyRange - keyDiff) {
+                remainder -= keyRange - keyDiff;
+                quotient++;
+            } else {
+                remainder += keyDiff;
+            }
+        }
+    }
+    return quotient;
 }
 
 /**
@@ -104,14 +157,16 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         return;
     }
 
+    /* Pages at the ends of the error corridor for this key */
+    uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
+    uint32_t upperPage = page > UINT32_MAX - spl->maxError ? UINT32_MAX : page + spl->maxError;
+
     /* Check if there is only one spline point (need to initialize upper and lower limits using 2nd point) */
     if (spl->numAddCalls == 2) {
         /* Initialize upper and lower limits using second (unique) data point */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
         memcpy(((int8_t *)spl->lower + spl->keySize), &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
         memcpy(((int8_t *)spl->upper + spl->keySize), &upperPage, sizeof(uint32_t));
         memcpy(spl->lastKey, key, spl->keySize);
         spl->lastLoc = page;
@@ -167,10 +222,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
         /* Update upper and lower limits. */
         memcpy(spl->lower, key, spl->keySize);
-        uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
         memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         memcpy(spl->upper, key, spl->keySize);
-        uint32_t upperPage = page + spl->maxError;
         memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
 
         /* If we add a point, we might need to erase again */
@@ -182,16 +235,14 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)upperPage - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
-            uint32_t upperPage = page + spl->maxError;
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)lowerPage - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
-            uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
         }
     }
@@ -370,7 +421,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineInterpolate(keyVal - downKeyVal, upPage - downPage, upKeyVal - downKeyVal) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
@@ -379,7 +430,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
     void *lastSplinePoint = splinePointLocation(spl, spl->count - 1);
     uint32_t lastSplinePointPage = 0;
     memcpy(&lastSplinePointPage, (int8_t *)lastSplinePoint + spl->keySize, sizeof(uint32_t));
-    id_t highEstimate = (locationEstimate + spl->maxError > lastSplinePointPage) ? lastSplinePointPage : locationEstimate + spl->maxError;
+    id_t highEstimate = (lastSplinePointPage - locationEstimate < spl->maxError) ? lastSplinePointPage : locationEstimate + spl->maxError;
     memcpy(high, &highEstimate, sizeof(id_t));
 }
 
-- 
2.43.0


From 3c757b3a634915800af69cb523f4c223c394f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 03/47] fix: keep spline cleaning inside the spline points

cleanSpline looked at the point after the last one and underflowed its counter
when fewer than two points were left.
---
 lib/Distribution/embedDB.c | 8 ++++----
 src/embedDB/embedDB.c      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8487199..23ba761 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2576,7 +2576,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2585,9 +2585,9 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (state->spl->count < numPointsErased + 2)
+        numPointsErased = state->spl->count < 2 ? 0 : state->spl->count - 2;
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index ab2e146..4f96505 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2101,7 +2101,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2110,9 +2110,9 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (state->spl->count < numPointsErased + 2)
+        numPointsErased = state->spl->count < 2 ? 0 : state->spl->count - 2;
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
-- 
2.43.0


From d6a21c11856c0312843c5f4fee25ed65236974b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 04/47] fix: invalidate read buffers when the pages they hold
 change

The read buffers were never invalidated, so after an erase or overwrite of the
buffered physical page (or a failed read, or copying the write buffer over the
read buffer) later reads returned stale or foreign data.
---
 lib/Distribution/embedDB.c | 34 +++++++++++++++++++++++++++++++++-
 src/embedDB/embedDB.c      | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 23ba761..3e05880 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -539,6 +539,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -950,6 +951,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
+        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1013,6 +1015,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1616,6 +1619,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2480,6 +2484,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2499,6 +2504,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2545,6 +2551,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2555,6 +2562,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    forgetBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2612,6 +2620,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2624,6 +2633,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2654,6 +2664,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2679,6 +2690,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2705,6 +2717,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer does not hold a page from storage anymore
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2718,6 +2732,19 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer does not hold a page from storage anymore
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Invalidates a read buffer if it holds one of the given physical pages, because they have been erased or overwritten.
+ * @param	bufferedPage	Physical page number held by the read buffer
+ * @param	startPage		First physical page which changed
+ * @param	endPage			Physical page after the last one which changed
+ */
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage)
+        *bufferedPage = -1;
 }
 
 /**
@@ -2737,6 +2764,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* The buffer contents are unknown if the read fails */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2762,6 +2791,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* The buffer contents are unknown if the read fails */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2786,7 +2817,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. The buffer contents are unknown if the read fails
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4f96505..c4ec944 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -64,6 +64,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -475,6 +476,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
+        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -538,6 +540,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1141,6 +1144,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2005,6 +2009,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2024,6 +2029,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2070,6 +2076,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2080,6 +2087,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    forgetBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2137,6 +2145,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2149,6 +2158,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2179,6 +2189,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2204,6 +2215,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2230,6 +2242,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer does not hold a page from storage anymore
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2243,6 +2257,19 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer does not hold a page from storage anymore
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Invalidates a read buffer if it holds one of the given physical pages, because they have been erased or overwritten.
+ * @param	bufferedPage	Physical page number held by the read buffer
+ * @param	startPage		First physical page which changed
+ * @param	endPage			Physical page after the last one which changed
+ */
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage)
+        *bufferedPage = -1;
 }
 
 /**
@@ -2262,6 +2289,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* The buffer contents are unknown if the read fails */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2287,6 +2316,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* The buffer contents are unknown if the read fails */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2311,7 +2342,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. The buffer contents are unknown if the read fails
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From 00046bf95c71c458c420f361c7c0bc74b2de9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 05/47] fix: compare logical page ids in the spline search
 buffer shortcut

The physical number of the buffered page was compared to logical spline bounds,
so after wraparound the shortcut was skipped or could accept a page outside the
bounds. A lookup answered from the buffer is now also counted as a buffer hit.
---
 lib/Distribution/embedDB.c | 12 +++++++++---
 src/embedDB/embedDB.c      | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3e05880..d455715 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1897,14 +1897,20 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one
-    if (!(lowbound <= state->bufferedPageId &&
-          highbound >= state->bufferedPageId &&
+    // Check if the currently buffered page is the correct one. The spline bounds are logical page ids, so compare them to the id in the page header
+    id_t bufferedLogicalPageId = 0;
+    memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
+    if (!(state->bufferedPageId == bufferedLogicalPageId % state->numDataPages &&
+          bufferedLogicalPageId < state->nextDataPageId &&
+          lowbound <= bufferedLogicalPageId &&
+          highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
           state->compareKey(embedDBGetMaxKey(state, buffer), key) >= 0)) {
         if (linearSearch(state, buffer, key, location, lowbound, highbound) == -1) {
             return -1;
         }
+    } else {
+        state->bufferHits++;
     }
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c4ec944..408a889 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1422,14 +1422,20 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
         location = (lowbound + highbound) / 2;
     }
 
-    // Check if the currently buffered page is the correct one
-    if (!(lowbound <= state->bufferedPageId &&
-          highbound >= state->bufferedPageId &&
+    // Check if the currently buffered page is the correct one. The spline bounds are logical page ids, so compare them to the id in the page header
+    id_t bufferedLogicalPageId = 0;
+    memcpy(&bufferedLogicalPageId, buffer, sizeof(id_t));
+    if (!(state->bufferedPageId == bufferedLogicalPageId % state->numDataPages &&
+          bufferedLogicalPageId < state->nextDataPageId &&
+          lowbound <= bufferedLogicalPageId &&
+          highbound >= bufferedLogicalPageId &&
           state->compareKey(embedDBGetMinKey(state, buffer), key) <= 0 &&
           state->compareKey(embedDBGetMaxKey(state, buffer), key) >= 0)) {
         if (linearSearch(state, buffer, key, location, lowbound, highbound) == -1) {
             return -1;
         }
+    } else {
+        state->bufferHits++;
     }
     return 0;
 }
-- 
2.43.0


From 2f9c2e28968340987cd17bc36595f9de5d2f85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 06/47] fix: return variable data of records in the write
 buffer from iterators

embedDBNextVar only took the write buffer into account while no page had been
written, otherwise it looked for the record in an unrelated page. Failures to
flush the variable data needed for a stream are now reported.
---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d455715..003a475 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2037,7 +2037,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2314,9 +2316,11 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 408a889..47810c9 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1562,7 +1562,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1839,9 +1841,11 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
-- 
2.43.0


From ec7ea5583eb57209e3bee36d7a43b1ce12632234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 07/47] fix: support pages with 128 or more records

Record numbers and record counts were kept in 8 bit integers, so variable data
of later records was not found and recovery ignored such pages.
---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 003a475..9ca69eb 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -806,7 +806,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -906,7 +906,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1925,7 +1925,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1954,7 +1954,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -2032,7 +2032,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 47810c9..bb148db 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -331,7 +331,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -431,7 +431,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1450,7 +1450,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1479,7 +1479,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1557,7 +1557,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From b4b672e96b42dc4bb3e27528cce8b31576861484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 08/47] fix: report an error from embedDBGetVar without
 variable data

It returned success without filling in data or varData.
---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9ca69eb..091f1e7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2027,7 +2027,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bb148db..97e84fa 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1552,7 +1552,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
-- 
2.43.0


From 9cef238e754e4241f02f5c9bb10236c2a21c5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 09/47] fix: place page minimum and maximum behind the bitmap
 without overlaps

The fixed offset assumed an 8 byte bitmap: without one, or with a smaller or
larger one, the summaries overlapped records or the bitmap, and a per-page
bitmap without the index file had no space of its own in the header. Summaries
were also initialised in pages which do not have any.
---
 lib/Distribution/embedDB.c | 10 ++++++----
 lib/Distribution/embedDB.h | 12 ++++++------
 src/embedDB/embedDB.c      | 10 ++++++----
 src/embedDB/embedDB.h      | 12 ++++++------
 4 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 091f1e7..5160f8a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -569,10 +569,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -659,9 +659,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -1573,7 +1575,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..1476a39 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -256,8 +256,8 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
+/* The minimum and maximum follow the bitmap, if there is one */
+#define EMBEDDB_MIN_OFFSET(y) (EMBEDDB_BITMAP_OFFSET + ((EMBEDDB_USING_INDEX(y->parameters) || EMBEDDB_USING_BMAP(y->parameters)) ? y->bitmapSize : 0))
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -272,11 +272,11 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y)))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize))
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2 + y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 97e84fa..8fd557c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -94,10 +94,10 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
-        void *min = EMBEDDB_GET_MIN_KEY(buf);
+        void *min = EMBEDDB_GET_MIN_KEY(buf, state);
         /* Initialize min to all 1s */
         for (i = 0; i < state->keySize; i++) {
             ((int8_t *)min)[i] = 1;
@@ -184,9 +184,11 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
@@ -1098,7 +1100,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
                 memcpy(ptr, data, state->dataSize);
         } else {
             /* First record inserted */
-            ptr = EMBEDDB_GET_MIN_KEY(state->buffer);
+            ptr = EMBEDDB_GET_MIN_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
             ptr = EMBEDDB_GET_MAX_KEY(state->buffer, state);
             memcpy(ptr, key, state->keySize);
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..2650d40 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -76,8 +76,8 @@ typedef uint16_t count_t;
 /* Offsets with header */
 #define EMBEDDB_COUNT_OFFSET 4
 #define EMBEDDB_BITMAP_OFFSET 6
-// #define EMBEDDB_MIN_OFFSET		8
-#define EMBEDDB_MIN_OFFSET 14
+/* The minimum and maximum follow the bitmap, if there is one */
+#define EMBEDDB_MIN_OFFSET(y) (EMBEDDB_BITMAP_OFFSET + ((EMBEDDB_USING_INDEX(y->parameters) || EMBEDDB_USING_BMAP(y->parameters)) ? y->bitmapSize : 0))
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
@@ -92,11 +92,11 @@ typedef uint16_t count_t;
 
 #define EMBEDDB_GET_BITMAP(x) ((void *)((int8_t *)x + EMBEDDB_BITMAP_OFFSET))
 
-#define EMBEDDB_GET_MIN_KEY(x) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET))
-#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize))
+#define EMBEDDB_GET_MIN_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y)))
+#define EMBEDDB_GET_MAX_KEY(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize))
 
-#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2))
-#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET + y->keySize * 2 + y->dataSize))
+#define EMBEDDB_GET_MIN_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2))
+#define EMBEDDB_GET_MAX_DATA(x, y) ((void *)((int8_t *)x + EMBEDDB_MIN_OFFSET(y) + y->keySize * 2 + y->dataSize))
 
 #define EMBEDDB_DATA_WRITE_BUFFER 0
 #define EMBEDDB_DATA_READ_BUFFER 1
-- 
2.43.0


From 9e30d79ef28204f20c9d58dc837db67177ff127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 10/47] fix: keep record and header sizes in 16 bits

With keys and data of 124 or more bytes in total, or with minimum and maximum
values of larger records, the 8 bit sizes overflowed.
---
 lib/Distribution/embedDB.h | 4 ++--
 src/embedDB/embedDB.h      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 1476a39..a862330 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -405,8 +405,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 2650d40..330bf10 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -225,8 +225,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From aaddf2e665f305761b4f6ac86fc7ed7f2849c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 11/47] fix: compare new keys to the last record of a partially
 filled page

After a flush or restart the order check looked at the last slot of the page
instead of its last record, so keys which are not ascending were accepted. The
check is no longer made against stale data if that page cannot be read.
---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5160f8a..428cc5a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1488,9 +1488,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last page to check the order of keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 8fd557c..73d7f71 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1013,9 +1013,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last page to check the order of keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From de3d98c018b18b18ae37d7a3c942f9d6e1abb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 12/47] fix: do not count pages whose write failed as stored

writePage and writeIndexPage advanced the next page id before erasing and
writing, so after a failure lookups searched a page which does not exist. A
failed erase of a record-level consistency block was only noticed when error
messages were compiled in.
---
 lib/Distribution/embedDB.c | 8 +++++---
 src/embedDB/embedDB.c      | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 428cc5a..2a687aa 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2492,7 +2492,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2529,6 +2529,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2572,8 +2573,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2628,7 +2629,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2658,6 +2659,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 73d7f71..64fc568 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2017,7 +2017,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2054,6 +2054,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2097,8 +2098,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2153,7 +2154,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2183,6 +2184,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
-- 
2.43.0


From a28364151c09c5a17d334086e033c39b33171072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 13/47] fix: read which variable data is reclaimed before
 erasing it

writeVariablePage read the last key of a reclaimed block from storage after
erasing the block, which only works if erasing does not change the contents.
---
 lib/Distribution/embedDB.c | 21 +++++++++++----------
 src/embedDB/embedDB.c      | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2a687aa..fecff5c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2682,6 +2682,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t lastDeletedRecordId = 0;
+        memcpy(&lastDeletedRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
@@ -2691,16 +2701,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = lastDeletedRecordId + 1;  // Add one because that record is erased
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 64fc568..d71bc4f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2207,6 +2207,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t lastDeletedRecordId = 0;
+        memcpy(&lastDeletedRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
@@ -2216,16 +2226,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = lastDeletedRecordId + 1;  // Add one because that record is erased
     }
 
     // Add logical page number to data page
-- 
2.43.0


From 4c41324193d169005a3dd91afe341e3cbb6e7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 14/47] fix: make puts and flushes atomic when storage fails or
 power is lost

Failures to write data, index or variable pages during a put were ignored, so
records were lost, duplicated or referred to variable data which was never
stored. Records were also stored before their variable data, embedDBPut wrote a
variable data pointer left behind by an earlier embedDBPutVar, an empty variable
page was written when there was none to write, embedDBFlush could write behind
a full index page, and the record-level consistency blocks were not moved after
a flush at a block boundary.
---
 lib/Distribution/embedDB.c | 251 ++++++++++++++++++++++++++-----------
 lib/Distribution/embedDB.h |   1 -
 src/embedDB/embedDB.c      | 251 ++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.h      |   1 -
 4 files changed, 358 insertions(+), 146 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index fecff5c..07970ed 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -537,6 +537,11 @@ int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
+int8_t preparePut(embedDBState *state, void *key);
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
+void updatePageSummary(embedDBState *state, void *key, void *data, count_t count);
+int8_t prepareIndexPage(embedDBState *state);
+void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId, void *startPageKey);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
@@ -1475,15 +1480,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key may be inserted and makes room for its record in the data write buffer.
  * @param	state	embedDB algorithm state structure
  * @param	key		Key for record
- * @param	data	Data for record
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t preparePut(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1507,10 +1509,18 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* The variable data of the records on the page has to be stored before the page is */
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0)
+            return -1;
+
+        if (state->indexFile != NULL && prepareIndexPage(state) != 0)
+            return -1;
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1)
+            return -1;
 
         indexPage(state, pageNum);
 
@@ -1518,18 +1528,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
             EMBEDDB_INC_COUNT(buf);
 
             /* Copy record onto index page */
@@ -1539,29 +1537,93 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         updateMaxiumError(state, state->buffer);
 
-        count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
+    /* Move the record-level consistency blocks if the next data page would be written into them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        return shiftRecordLevelConsistencyBlocks(state);
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Checks if there is room in the index write buffer for the bitmap of the next data page and writes the index page if not.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t prepareIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page */
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    if (EMBEDDB_GET_COUNT(buf) == 0) {
+        /* Add page id to minimum value spot in page */
+        id_t *ptr = (id_t *)((int8_t *)buf + 8);
+        *ptr = state->nextDataPageId;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Adds a record to the data write buffer, which must have room for it.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	dataLocation	Location of the variable data of the record or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation) {
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Copy record onto page */
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
         memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
     EMBEDDB_INC_COUNT(state->buffer);
 
+    updatePageSummary(state, key, data, count);
+
+    /* If using record level consistency, we need to immediately write the updated page to storage */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* Remove the record again, and everything its summary added to the header */
+            memset((int8_t *)state->buffer + EMBEDDB_BITMAP_OFFSET, 0, state->headerSize - EMBEDDB_BITMAP_OFFSET);
+            memset((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, 0, state->recordSize);
+            EMBEDDB_GET_COUNT(state->buffer) = count;
+            for (count_t i = 0; i < count; i++) {
+                int8_t *record = (int8_t *)state->buffer + (state->recordSize * i) + state->headerSize;
+                updatePageSummary(state, record, record + state->keySize, i);
+            }
+        }
+        return writeResult;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Updates the minimum and maximum values and the bitmap in the header of the data write buffer for a new record.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @param	count	Number of records on the page before the new record
+ */
+void updatePageSummary(embedDBState *state, void *key, void *data, count_t count) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Update MIN/MAX */
         void *ptr;
@@ -1596,18 +1658,22 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         char *bm = (char *)EMBEDDB_GET_BITMAP(state->buffer);
         state->updateBitmap(data, bm);
     }
+}
 
-    /* If using record level consistency, we need to immediately write the updated page to storage */
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
-        return writeTemporaryPage(state, state->buffer);
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r;
+    if ((r = preparePut(state, key)) != 0) {
+        return r;
     }
 
-    return 0;
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
 }
 
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
@@ -1680,37 +1746,28 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
-
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
-    }
-
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
         return embedDBPut(state, key, data);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
+    // Check the key and make room for the record before its variable data is stored
     int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    if ((r = preparePut(state, key)) != 0) {
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 && embedDBFlushVar(state) != 0) {
+        return -1;
     }
 
+    // Remember where the variable data starts, for the record and in case it can't be stored
+    id_t startVarLoc = state->currentVarLoc, startVarPageId = state->nextVarPageId;
+    uint64_t startPageKey = 0;
+    memcpy(&startPageKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1720,7 +1777,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1739,7 +1799,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1748,13 +1811,45 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    // The variable data has to be in storage before a record with record-level consistency is
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && embedDBFlushVar(state) != 0) {
+        abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+        return -1;
+    }
+
+    // Perform the regular insert
+    if ((r = putRecord(state, key, data, startVarLoc % (state->numVarPages * state->pageSize))) != 0) {
+        return r;
+    }
+
+    if (state->minVarRecordId == UINT64_MAX) {
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Removes variable data from the write buffer again after it could not be stored completely.
+ * @param	state			embedDB algorithm state structure
+ * @param	startVarLoc		Location where the variable data starts
+ * @param	startVarPageId	Next variable page to be written when the variable data was started
+ * @param	startPageKey	Key in the header of the write buffer when the variable data was started
+ */
+void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId, void *startPageKey) {
+    if (state->nextVarPageId == startVarPageId) {
+        /* The buffer still holds the data of earlier records */
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        memcpy((int8_t *)buf + sizeof(id_t), startPageKey, state->keySize);
+        state->currentVarLoc = startVarLoc;
+    } else {
+        /* The buffer only holds data of this record, start the next record at its beginning */
+        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        id_t pageStart = (state->currentVarLoc - 1) / state->pageSize * state->pageSize;
+        state->currentVarLoc = pageStart + state->variableDataHeaderSize;
+    }
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -2163,6 +2258,24 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page first so that its data is stored before the records are
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters) && prepareIndexPage(state) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2184,6 +2297,13 @@ int8_t embedDBFlush(embedDBState *state) {
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
 
+    }
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -2198,19 +2318,6 @@ int8_t embedDBFlush(embedDBState *state) {
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index a862330..ce48bd4 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -427,7 +427,6 @@ typedef struct {
     id_t bufferedPageId;                                                  /* Page id currently in read buffer */
     id_t bufferedIndexPageId;                                             /* Index page id currently in index read buffer */
     id_t bufferedVarPage;                                                 /* Variable page id currently in variable read buffer */
-    uint8_t recordHasVarData;                                             /* Internal flag to signal that the record currently being written has var data */
 } embedDBState;
 
 typedef struct {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d71bc4f..3c619a8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -62,6 +62,11 @@ int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
+int8_t preparePut(embedDBState *state, void *key);
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
+void updatePageSummary(embedDBState *state, void *key, void *data, count_t count);
+int8_t prepareIndexPage(embedDBState *state);
+void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId, void *startPageKey);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
@@ -1000,15 +1005,12 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key may be inserted and makes room for its record in the data write buffer.
  * @param	state	embedDB algorithm state structure
  * @param	key		Key for record
- * @param	data	Data for record
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+int8_t preparePut(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1032,10 +1034,18 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* The variable data of the records on the page has to be stored before the page is */
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0)
+            return -1;
+
+        if (state->indexFile != NULL && prepareIndexPage(state) != 0)
+            return -1;
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1)
+            return -1;
 
         indexPage(state, pageNum);
 
@@ -1043,18 +1053,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
             EMBEDDB_INC_COUNT(buf);
 
             /* Copy record onto index page */
@@ -1064,29 +1062,93 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         updateMaxiumError(state, state->buffer);
 
-        count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
+    /* Move the record-level consistency blocks if the next data page would be written into them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        return shiftRecordLevelConsistencyBlocks(state);
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Checks if there is room in the index write buffer for the bitmap of the next data page and writes the index page if not.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t prepareIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page */
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    if (EMBEDDB_GET_COUNT(buf) == 0) {
+        /* Add page id to minimum value spot in page */
+        id_t *ptr = (id_t *)((int8_t *)buf + 8);
+        *ptr = state->nextDataPageId;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Adds a record to the data write buffer, which must have room for it.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	dataLocation	Location of the variable data of the record or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation) {
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Copy record onto page */
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, key, state->keySize);
     memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize, data, state->dataSize);
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
         memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
     }
 
     /* Update count */
     EMBEDDB_INC_COUNT(state->buffer);
 
+    updatePageSummary(state, key, data, count);
+
+    /* If using record level consistency, we need to immediately write the updated page to storage */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* Remove the record again, and everything its summary added to the header */
+            memset((int8_t *)state->buffer + EMBEDDB_BITMAP_OFFSET, 0, state->headerSize - EMBEDDB_BITMAP_OFFSET);
+            memset((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize, 0, state->recordSize);
+            EMBEDDB_GET_COUNT(state->buffer) = count;
+            for (count_t i = 0; i < count; i++) {
+                int8_t *record = (int8_t *)state->buffer + (state->recordSize * i) + state->headerSize;
+                updatePageSummary(state, record, record + state->keySize, i);
+            }
+        }
+        return writeResult;
+    }
+
+    return 0;
+}
+
+/**
+ * @brief	Updates the minimum and maximum values and the bitmap in the header of the data write buffer for a new record.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @param	count	Number of records on the page before the new record
+ */
+void updatePageSummary(embedDBState *state, void *key, void *data, count_t count) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Update MIN/MAX */
         void *ptr;
@@ -1121,18 +1183,22 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         char *bm = (char *)EMBEDDB_GET_BITMAP(state->buffer);
         state->updateBitmap(data, bm);
     }
+}
 
-    /* If using record level consistency, we need to immediately write the updated page to storage */
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
-        return writeTemporaryPage(state, state->buffer);
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r;
+    if ((r = preparePut(state, key)) != 0) {
+        return r;
     }
 
-    return 0;
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
 }
 
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
@@ -1205,37 +1271,28 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
-    // Insert their data
-
-    /*
-     * Check that there is enough space remaining in this page to start the insert of the variable
-     * data here and if the data page will be written in embedDBGet
-     */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
-    }
-
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
         return embedDBPut(state, key, data);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
+    // Check the key and make room for the record before its variable data is stored
     int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    if ((r = preparePut(state, key)) != 0) {
         return r;
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Check that there is enough space remaining in this page to start the insert of the variable data here
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 && embedDBFlushVar(state) != 0) {
+        return -1;
     }
 
+    // Remember where the variable data starts, for the record and in case it can't be stored
+    id_t startVarLoc = state->currentVarLoc, startVarPageId = state->nextVarPageId;
+    uint64_t startPageKey = 0;
+    memcpy(&startPageKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1245,7 +1302,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1264,7 +1324,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1273,13 +1336,45 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    // The variable data has to be in storage before a record with record-level consistency is
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && embedDBFlushVar(state) != 0) {
+        abandonVarData(state, startVarLoc, startVarPageId, &startPageKey);
+        return -1;
+    }
+
+    // Perform the regular insert
+    if ((r = putRecord(state, key, data, startVarLoc % (state->numVarPages * state->pageSize))) != 0) {
+        return r;
+    }
+
+    if (state->minVarRecordId == UINT64_MAX) {
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
 }
 
+/**
+ * @brief	Removes variable data from the write buffer again after it could not be stored completely.
+ * @param	state			embedDB algorithm state structure
+ * @param	startVarLoc		Location where the variable data starts
+ * @param	startVarPageId	Next variable page to be written when the variable data was started
+ * @param	startPageKey	Key in the header of the write buffer when the variable data was started
+ */
+void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId, void *startPageKey) {
+    if (state->nextVarPageId == startVarPageId) {
+        /* The buffer still holds the data of earlier records */
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        memcpy((int8_t *)buf + sizeof(id_t), startPageKey, state->keySize);
+        state->currentVarLoc = startVarLoc;
+    } else {
+        /* The buffer only holds data of this record, start the next record at its beginning */
+        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+        id_t pageStart = (state->currentVarLoc - 1) / state->pageSize * state->pageSize;
+        state->currentVarLoc = pageStart + state->variableDataHeaderSize;
+    }
+}
+
 /**
  * @brief	Given a key, estimates the location of the key within the node.
  * @param	state	embedDB algorithm state structure
@@ -1688,6 +1783,24 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page first so that its data is stored before the records are
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters) && prepareIndexPage(state) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1709,6 +1822,13 @@ int8_t embedDBFlush(embedDBState *state) {
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
 
+    }
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -1723,19 +1843,6 @@ int8_t embedDBFlush(embedDBState *state) {
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 330bf10..d0dc3ea 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -247,7 +247,6 @@ typedef struct {
     id_t bufferedPageId;                                                  /* Page id currently in read buffer */
     id_t bufferedIndexPageId;                                             /* Index page id currently in index read buffer */
     id_t bufferedVarPage;                                                 /* Variable page id currently in variable read buffer */
-    uint8_t recordHasVarData;                                             /* Internal flag to signal that the record currently being written has var data */
 } embedDBState;
 
 typedef struct {
-- 
2.43.0


From 201ee61c835dd697d7b4981fc323ce3060e10d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 15/47] fix: erase the right record-level consistency blocks

The block the record-level consistency pages move into was erased as long as
storage had not wrapped, when there is nothing to erase, but not after it had,
when it holds the oldest records. With an erase size of one page the pages were
never erased before they were written again.
---
 lib/Distribution/embedDB.c | 11 ++++++-----
 src/embedDB/embedDB.c      | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 07970ed..c6a65dd 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1686,7 +1686,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
@@ -2296,7 +2296,6 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Copy record onto index page */
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-
     }
 
     /* Reinitialize buffer */
@@ -2666,11 +2665,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block with only one page is erased right before it is written. */
+    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1 || state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 3c619a8..c75aac2 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1211,7 +1211,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
@@ -1821,7 +1821,6 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Copy record onto index page */
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
-
     }
 
     /* Reinitialize buffer */
@@ -2191,11 +2190,13 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block with only one page is erased right before it is written. */
+    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1 || state->eraseSizeInPages == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
         count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
-- 
2.43.0


From e2cd8c8b5dd10453456df8f07533241cc4e6beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 16/47] fix: limit estimated record locations to the page
 before converting them

Estimates for keys far away from those of the page do not fit in the integers
they were converted to, and the error of partially filled pages was calculated
from slots without records.
---
 lib/Distribution/embedDB.c | 21 +++++++++++++++++----
 src/embedDB/embedDB.c      | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c6a65dd..3b55755 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1412,13 +1412,18 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
+            // Guard against integer overflow
+            if ((currentKey / slope) - i > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
+            }
+
             // Guard against integer underflow
             if ((currentKey / slope) >= i) {
                 currentError = (currentKey / slope) - i;
@@ -1441,15 +1446,20 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
+            // Guard against integer overflow
+            if ((currentKey / slope) - i > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
+            }
+
             // Guard against integer underflow
             if ((currentKey / slope) >= i) {
                 currentError = (currentKey / slope) - i;
@@ -1865,7 +1875,10 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // a location outside of the node is only reported as such because it may not fit in the result
+    float location = (thisKey - minKey) / slope;
+    count_t count = EMBEDDB_GET_COUNT(buffer);
+    return location < count ? location : count;
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c75aac2..4c3e3a8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -937,13 +937,18 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
+            // Guard against integer overflow
+            if ((currentKey / slope) - i > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
+            }
+
             // Guard against integer underflow
             if ((currentKey / slope) >= i) {
                 currentError = (currentKey / slope) - i;
@@ -966,15 +971,20 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
             // make currentKey value relative to current page
             currentKey = currentKey - minKey;
 
+            // Guard against integer overflow
+            if ((currentKey / slope) - i > state->maxRecordsPerPage) {
+                return state->maxRecordsPerPage;
+            }
+
             // Guard against integer underflow
             if ((currentKey / slope) >= i) {
                 currentError = (currentKey / slope) - i;
@@ -1390,7 +1400,10 @@ int16_t embedDBEstimateKeyLocation(embedDBState *state, void *buffer, void *key)
     memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
     memcpy(&thisKey, key, state->keySize);
 
-    return (thisKey - minKey) / slope;
+    // a location outside of the node is only reported as such because it may not fit in the result
+    float location = (thisKey - minKey) / slope;
+    count_t count = EMBEDDB_GET_COUNT(buffer);
+    return location < count ? location : count;
 }
 
 /**
-- 
2.43.0


From 2b9c1c40958a413c6644074c7436ca62767a159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 17/47] fix: make comparators and bitmap helpers correct for
 all values and alignments

---
 lib/Distribution/embedDB.c           | 87 ++++++++++++++--------------
 lib/EmbedDB-Utility/embedDBUtility.c | 87 ++++++++++++++--------------
 2 files changed, 90 insertions(+), 84 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3b55755..e0ba919 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4357,7 +4357,8 @@ void embedDBFreeOperatorRecursive(embedDBOperator **op) {
 /* A bitmap with 8 buckets (bits). Range 0 to 100. */
 void updateBitmapInt8(void *data, void *bm) {
     // Note: Assuming int key is right at the start of the data record
-    int32_t val = *((int16_t *)data);
+    int16_t val;
+    memcpy(&val, data, sizeof(int16_t));
     uint8_t *bmval = (uint8_t *)bm;
 
     if (val < 10)
@@ -4418,8 +4419,10 @@ int8_t inBitmapInt8(void *data, void *bm) {
 
 /* A 16-bit bitmap on a 32-bit int value */
 void updateBitmapInt16(void *data, void *bm) {
-    int32_t val = *((int32_t *)data);
-    uint16_t *bmval = (uint16_t *)bm;
+    int32_t val;
+    memcpy(&val, data, sizeof(int32_t));
+    uint16_t bmval;
+    memcpy(&bmval, bm, sizeof(uint16_t));
 
     /* Using a demo range of 0 to 100 */
     // int16_t stepSize = 100 / 15;
@@ -4427,23 +4430,25 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 0) {
         current += stepSize;
         num = num / 2;
     }
     if (num == 0)
         num = 1; /* Always set last bit if value bigger than largest cutoff */
-    *bmval = *bmval | num;
+    bmval = bmval | num;
+    memcpy(bm, &bmval, sizeof(uint16_t));
 }
 
 int8_t inBitmapInt16(void *data, void *bm) {
-    uint16_t *bmval = (uint16_t *)bm;
+    uint16_t bmval;
+    memcpy(&bmval, bm, sizeof(uint16_t));
 
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself may not fit the return type)
+    return (tmpbm & bmval) != 0;
 }
 
 /**
@@ -4483,7 +4488,8 @@ void buildBitmapInt16FromRange(void *min, void *max, void *bm) {
 
 /* A 64-bit bitmap on a 32-bit int value */
 void updateBitmapInt64(void *data, void *bm) {
-    int32_t val = *((int32_t *)data);
+    int32_t val;
+    memcpy(&val, data, sizeof(int32_t));
 
     int16_t stepSize = 10;  // Temperature data in F. Scaled by 10. */
     int32_t current = 320;
@@ -4502,13 +4508,14 @@ void updateBitmapInt64(void *data, void *bm) {
 }
 
 int8_t inBitmapInt64(void *data, void *bm) {
-    uint64_t *bmval = (uint64_t *)bm;
+    uint64_t bmval;
+    memcpy(&bmval, bm, sizeof(uint64_t));
 
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself may not fit the return type)
+    return (tmpbm & bmval) != 0;
 }
 
 /**
@@ -4519,30 +4526,25 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
-        }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
-            }
-        }
-        *(uint64_t *)bm = minMap & maxMap;
+    /* Buckets are numbered from the most significant bit of the first byte, so the masks are built per byte */
+    uint8_t minMap[8], maxMap[8];
+    memset(minMap, 0, sizeof(minMap));
+    memset(maxMap, 0, sizeof(maxMap));
+    if (min != NULL)
+        updateBitmapInt64(min, minMap);
+    if (max != NULL)
+        updateBitmapInt64(max, maxMap);
+
+    memset(bm, 0, sizeof(minMap));
+    int8_t aboveMin = (min == NULL), belowMax = 1;
+    for (int8_t count = 0; count < 64; count++) {
+        uint8_t b = 128 >> (count & 7);
+        if (minMap[count / 8] & b)
+            aboveMin = 1;
+        if (aboveMin && belowMax)
+            *((uint8_t *)bm + count / 8) |= b;
+        if (maxMap[count / 8] & b)
+            belowMax = 0;
     }
 }
 
@@ -4550,19 +4552,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..12f2101 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -43,7 +43,8 @@
 /* A bitmap with 8 buckets (bits). Range 0 to 100. */
 void updateBitmapInt8(void *data, void *bm) {
     // Note: Assuming int key is right at the start of the data record
-    int32_t val = *((int16_t *)data);
+    int16_t val;
+    memcpy(&val, data, sizeof(int16_t));
     uint8_t *bmval = (uint8_t *)bm;
 
     if (val < 10)
@@ -104,8 +105,10 @@ int8_t inBitmapInt8(void *data, void *bm) {
 
 /* A 16-bit bitmap on a 32-bit int value */
 void updateBitmapInt16(void *data, void *bm) {
-    int32_t val = *((int32_t *)data);
-    uint16_t *bmval = (uint16_t *)bm;
+    int32_t val;
+    memcpy(&val, data, sizeof(int32_t));
+    uint16_t bmval;
+    memcpy(&bmval, bm, sizeof(uint16_t));
 
     /* Using a demo range of 0 to 100 */
     // int16_t stepSize = 100 / 15;
@@ -113,23 +116,25 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    while (val > current && num > 0) {
         current += stepSize;
         num = num / 2;
     }
     if (num == 0)
         num = 1; /* Always set last bit if value bigger than largest cutoff */
-    *bmval = *bmval | num;
+    bmval = bmval | num;
+    memcpy(bm, &bmval, sizeof(uint16_t));
 }
 
 int8_t inBitmapInt16(void *data, void *bm) {
-    uint16_t *bmval = (uint16_t *)bm;
+    uint16_t bmval;
+    memcpy(&bmval, bm, sizeof(uint16_t));
 
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself may not fit the return type)
+    return (tmpbm & bmval) != 0;
 }
 
 /**
@@ -169,7 +174,8 @@ void buildBitmapInt16FromRange(void *min, void *max, void *bm) {
 
 /* A 64-bit bitmap on a 32-bit int value */
 void updateBitmapInt64(void *data, void *bm) {
-    int32_t val = *((int32_t *)data);
+    int32_t val;
+    memcpy(&val, data, sizeof(int32_t));
 
     int16_t stepSize = 10;  // Temperature data in F. Scaled by 10. */
     int32_t current = 320;
@@ -188,13 +194,14 @@ void updateBitmapInt64(void *data, void *bm) {
 }
 
 int8_t inBitmapInt64(void *data, void *bm) {
-    uint64_t *bmval = (uint64_t *)bm;
+    uint64_t bmval;
+    memcpy(&bmval, bm, sizeof(uint64_t));
 
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself may not fit the return type)
+    return (tmpbm & bmval) != 0;
 }
 
 /**
@@ -205,30 +212,25 @@ int8_t inBitmapInt64(void *data, void *bm) {
  * @param	bm		bitmap created
  */
 void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
-    if (min == NULL && max == NULL) {
-        *(uint64_t *)bm = UINT64_MAX; /* Everything */
-        return;
-    } else {
-        uint64_t minMap = 0, maxMap = 0;
-        if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
-            }
-        }
-        if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
-            }
-        }
-        *(uint64_t *)bm = minMap & maxMap;
+    /* Buckets are numbered from the most significant bit of the first byte, so the masks are built per byte */
+    uint8_t minMap[8], maxMap[8];
+    memset(minMap, 0, sizeof(minMap));
+    memset(maxMap, 0, sizeof(maxMap));
+    if (min != NULL)
+        updateBitmapInt64(min, minMap);
+    if (max != NULL)
+        updateBitmapInt64(max, maxMap);
+
+    memset(bm, 0, sizeof(minMap));
+    int8_t aboveMin = (min == NULL), belowMax = 1;
+    for (int8_t count = 0; count < 64; count++) {
+        uint8_t b = 128 >> (count & 7);
+        if (minMap[count / 8] & b)
+            aboveMin = 1;
+        if (aboveMin && belowMax)
+            *((uint8_t *)bm + count / 8) |= b;
+        if (maxMap[count / 8] & b)
+            belowMax = 0;
     }
 }
 
@@ -236,19 +238,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From f158f77f12ec7b79da1402826f739b3b12d180ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 18/47] fix: find index entries by the data pages they describe

---
 lib/Distribution/embedDB.c | 65 +++++++++++++++++++++++++++++++-------
 src/embedDB/embedDB.c      | 65 +++++++++++++++++++++++++++++++-------
 2 files changed, 108 insertions(+), 22 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e0ba919..0d44179 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -533,6 +533,11 @@ int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 void embedDBInitSplineFromFile(embedDBState *state);
+bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool firstVarPageHasKeyZero(embedDBState *state);
+int32_t findIndexEntry(embedDBState *state, id_t dataPage);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -2353,20 +2358,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
 
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
+            // Find the index entry which determines if we should read the data page
+            int32_t indexRec = state->indexFile != NULL ? findIndexEntry(state, it->nextDataPage) : -1;
 
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (indexRec >= 0) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
 
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
                 // Get bitmap for data page in question
                 void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
@@ -2464,6 +2461,52 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
 }
 
 /**
+/**
+ * @brief	Reads the index page describing a data page into the index read buffer.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical number of the data page
+ * @return	Return number of the entry for the data page, -1 if there is none.
+ */
+int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
+    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1)
+        memcpy(&indexPage, buf, sizeof(id_t));
+
+    while (low < high) {
+        if (indexPage < low || indexPage >= high)
+            indexPage = low + (high - low) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return -1;
+        }
+
+        id_t logicalPage, firstDataPage;
+        memcpy(&logicalPage, buf, sizeof(id_t));
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buf);
+        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
+            return -1;
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage < count) {
+            return dataPage - firstDataPage;
+        } else {
+            low = indexPage + 1;
+            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
+        }
+    }
+    return -1;
+}
+
  * @brief Setup varDataStream object to return the variable data for a record
  * @param	state	embedDB algorithm state structure
  * @param   key     Key for the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4c3e3a8..2ea77d3 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -58,6 +58,11 @@ int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 void embedDBInitSplineFromFile(embedDBState *state);
+bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
+bool firstVarPageHasKeyZero(embedDBState *state);
+int32_t findIndexEntry(embedDBState *state, id_t dataPage);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -1878,20 +1883,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
 
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
+            // Find the index entry which determines if we should read the data page
+            int32_t indexRec = state->indexFile != NULL ? findIndexEntry(state, it->nextDataPage) : -1;
 
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (indexRec >= 0) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
 
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
                 // Get bitmap for data page in question
                 void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
@@ -1989,6 +1986,52 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
 }
 
 /**
+/**
+ * @brief	Reads the index page describing a data page into the index read buffer.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical number of the data page
+ * @return	Return number of the entry for the data page, -1 if there is none.
+ */
+int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
+    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1)
+        memcpy(&indexPage, buf, sizeof(id_t));
+
+    while (low < high) {
+        if (indexPage < low || indexPage >= high)
+            indexPage = low + (high - low) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return -1;
+        }
+
+        id_t logicalPage, firstDataPage;
+        memcpy(&logicalPage, buf, sizeof(id_t));
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buf);
+        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
+            return -1;
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage < count) {
+            return dataPage - firstDataPage;
+        } else {
+            low = indexPage + 1;
+            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
+        }
+    }
+    return -1;
+}
+
  * @brief Setup varDataStream object to return the variable data for a record
  * @param	state	embedDB algorithm state structure
  * @param   key     Key for the record
-- 
2.43.0


From 570929733c035bb7e96b1d59c5749fee16e556de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 19/47] fix: skip reclaimed pages in iterators

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0d44179..20f1797 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2529,6 +2529,11 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
         *varData = NULL;
         return 1;
     }
+        // Skip the pages which were reclaimed since the last record was returned
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
 
     uint32_t pageNum = (varDataAddr / state->pageSize) % state->numVarPages;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2ea77d3..127ec27 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2054,6 +2054,11 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
         *varData = NULL;
         return 1;
     }
+        // Skip the pages which were reclaimed since the last record was returned
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
 
     uint32_t pageNum = (varDataAddr / state->pageSize) % state->numVarPages;
 
-- 
2.43.0


From e0133cbcd62e8fbe4a1acc9c529c70619e0d8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 20/47] fix: recover wrapped, erased and stale index files

---
 lib/Distribution/embedDB.c | 88 +++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.c      | 88 +++++++++++++++++++++++++++-----------
 2 files changed, 124 insertions(+), 52 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 20f1797..4c4d28d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1157,7 +1157,8 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (!hasData || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+            hasData = true;
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
@@ -1169,6 +1170,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     }
 
     if (count == 0)
+/**
+ * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds bitmaps.
+ */
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+}
+
         return 0;
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
@@ -1182,6 +1197,14 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     return 0;
 }
+    /* the first block may have been erased, in which case the index starts with the second block */
+    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+        physicalIndexPageId = state->eraseSizeInPages;
+        count = state->eraseSizeInPages;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
+    }
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+
 
 int8_t embedDBInitVarData(embedDBState *state) {
     // Initialize variable data outpt buffer
@@ -1201,6 +1224,15 @@ int8_t embedDBInitVarData(embedDBState *state) {
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
+    } else if (count < state->numIndexPages) {
+        /* the rest of the block was erased, so the oldest page may be in the next block */
+        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     if (!openResult) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open variable data file!\n");
@@ -2437,30 +2469,6 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == state->nextDataPageId) {
-        readToWriteBuf(state);
-        if (embedDBFlushVar(state) != 0) {
-            return 0;
-        }
-    }
-
-    // Get the vardata address from the record
-    count_t recordNum = it->nextDataRec - 1;
-    int8_t setupResult = embedDBSetupVarDataStream(state, key, varData, recordNum);
-    switch (setupResult) {
-        case 0:
-        case 1:
-            return 1;
-        case 2:
-        case 3:
-            return 0;
-    }
-
-    return 0;
-}
-
-/**
 /**
  * @brief	Reads the index page describing a data page into the index read buffer.
  * @param	state		embedDB algorithm state structure
@@ -2507,6 +2515,30 @@ int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
     return -1;
 }
 
+    void *outputBuffer = (int8_t *)state->buffer;
+    if (it->nextDataPage == state->nextDataPageId) {
+        readToWriteBuf(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
+    }
+
+    // Get the vardata address from the record
+    count_t recordNum = it->nextDataRec - 1;
+    int8_t setupResult = embedDBSetupVarDataStream(state, key, varData, recordNum);
+    switch (setupResult) {
+        case 0:
+        case 1:
+            return 1;
+        case 2:
+        case 3:
+            return 0;
+    }
+
+    return 0;
+}
+
+/**
  * @brief Setup varDataStream object to return the variable data for a record
  * @param	state	embedDB algorithm state structure
  * @param   key     Key for the record
@@ -2804,7 +2836,11 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
-    if (state->numAvailIndexPages <= 0) {
+    if (state->numAvailIndexPages <= 0 && physicalPageNumber % state->eraseSizeInPages != 0) {
+        // Recovered in the middle of a block, which was erased before its first page was written
+        state->numAvailIndexPages += state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        state->minIndexPageId += state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+    } else if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 127ec27..a9d9864 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -682,7 +682,8 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (!hasData || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+            hasData = true;
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
@@ -694,6 +695,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     }
 
     if (count == 0)
+/**
+ * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds bitmaps.
+ */
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+}
+
         return 0;
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
@@ -707,6 +722,14 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     return 0;
 }
+    /* the first block may have been erased, in which case the index starts with the second block */
+    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+        physicalIndexPageId = state->eraseSizeInPages;
+        count = state->eraseSizeInPages;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
+    }
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+
 
 int8_t embedDBInitVarData(embedDBState *state) {
     // Initialize variable data outpt buffer
@@ -726,6 +749,15 @@ int8_t embedDBInitVarData(embedDBState *state) {
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
+    } else if (count < state->numIndexPages) {
+        /* the rest of the block was erased, so the oldest page may be in the next block */
+        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     if (!openResult) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open variable data file!\n");
@@ -1962,30 +1994,6 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == state->nextDataPageId) {
-        readToWriteBuf(state);
-        if (embedDBFlushVar(state) != 0) {
-            return 0;
-        }
-    }
-
-    // Get the vardata address from the record
-    count_t recordNum = it->nextDataRec - 1;
-    int8_t setupResult = embedDBSetupVarDataStream(state, key, varData, recordNum);
-    switch (setupResult) {
-        case 0:
-        case 1:
-            return 1;
-        case 2:
-        case 3:
-            return 0;
-    }
-
-    return 0;
-}
-
-/**
 /**
  * @brief	Reads the index page describing a data page into the index read buffer.
  * @param	state		embedDB algorithm state structure
@@ -2032,6 +2040,30 @@ int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
     return -1;
 }
 
+    void *outputBuffer = (int8_t *)state->buffer;
+    if (it->nextDataPage == state->nextDataPageId) {
+        readToWriteBuf(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
+    }
+
+    // Get the vardata address from the record
+    count_t recordNum = it->nextDataRec - 1;
+    int8_t setupResult = embedDBSetupVarDataStream(state, key, varData, recordNum);
+    switch (setupResult) {
+        case 0:
+        case 1:
+            return 1;
+        case 2:
+        case 3:
+            return 0;
+    }
+
+    return 0;
+}
+
+/**
  * @brief Setup varDataStream object to return the variable data for a record
  * @param	state	embedDB algorithm state structure
  * @param   key     Key for the record
@@ -2329,7 +2361,11 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
-    if (state->numAvailIndexPages <= 0) {
+    if (state->numAvailIndexPages <= 0 && physicalPageNumber % state->eraseSizeInPages != 0) {
+        // Recovered in the middle of a block, which was erased before its first page was written
+        state->numAvailIndexPages += state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        state->minIndexPageId += state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+    } else if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-- 
2.43.0


From 21547b5be17ff3660cd433aec86ca828b1bb8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 21/47] fix: recover variable data with erased blocks or key
 zero

---
 lib/Distribution/embedDB.c | 89 +++++++++++++++++++++++++++++++++++---
 src/embedDB/embedDB.c      | 89 +++++++++++++++++++++++++++++++++++---
 2 files changed, 166 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4c4d28d..d87df52 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1269,13 +1269,67 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
+/**
+ * @brief	Checks that a page read during recovery is not blank and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page may hold variable data.
+ */
+bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId;
+}
+
+/**
+ * @brief	Decides if variable page 0 in the read buffer was written for a record with key 0 or is filled with zeros.
+ * 			The page is back in the read buffer when the function returns.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return true if the page holds variable data.
+ */
+bool firstVarPageHasKeyZero(embedDBState *state) {
+    uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    id_t logicalPageId = 0;
+
+    /* The page was written if it is followed by page 1 */
+    if (readVariablePage(state, 1) == 0) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        if (logicalPageId == 1)
+            return readVariablePage(state, 0) == 0;
+    }
+
+    /* If other blocks have pages, but there is no page 1, the first block has been erased */
+    bool erased = false;
+    if (readVariablePage(state, state->eraseSizeInPages) == 0)
+        erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
+    if (readVariablePage(state, 0) != 0 || erased)
+        return false;
+
+    /* Otherwise it was written if it has any content */
+    for (uint16_t i = 0; i < state->pageSize; i++)
+        if (buffer[i] != 0)
+            return true;
+
+    /* or if the record with key 0 refers to it */
+    uint8_t *dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+    if (state->nextDataPageId > 0) {
+        dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+        if (readPage(state, state->minDataPageId % state->numDataPages) != 0)
+            return false;
+    }
+    uint64_t key = 0;
+    uint32_t varDataAddr = EMBEDDB_NO_VAR_DATA;
+    memcpy(&key, embedDBGetMinKey(state, dataBuffer), state->keySize);
+    memcpy(&varDataAddr, (uint8_t *)embedDBGetMinKey(state, dataBuffer) + state->keySize + state->dataSize, sizeof(uint32_t));
+    return key == 0 && varDataAddr != EMBEDDB_NO_VAR_DATA;
+}
+
+            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
             }
-            physicalVariablePageId++;
-            count++;
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
@@ -1291,7 +1345,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isRecoverableVarPage(state, buffer, count);
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
@@ -1300,6 +1354,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         } else {
             break;
         }
+                firstPhysicalPageId = physicalVariablePageId;
+                physicalVariablePageId++;
+                count++;
+            } else {
+                physicalVariablePageId += blockSize;
+                count += blockSize;
+                i++;
     }
 
     /*
@@ -1323,8 +1384,12 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         }
 
         /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        if (moreToRead) {
+            memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+            validData = isRecoverableVarPage(state, buffer, physicalVariablePageId) && maxLogicalVariablePageId - logicalVariablePageId < state->numVarPages;
+        } else {
+            validData = false;
+        }
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -1351,6 +1416,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a9d9864..38ca36d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -794,13 +794,67 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
+/**
+ * @brief	Checks that a page read during recovery is not blank and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page may hold variable data.
+ */
+bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId;
+}
+
+/**
+ * @brief	Decides if variable page 0 in the read buffer was written for a record with key 0 or is filled with zeros.
+ * 			The page is back in the read buffer when the function returns.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return true if the page holds variable data.
+ */
+bool firstVarPageHasKeyZero(embedDBState *state) {
+    uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+    id_t logicalPageId = 0;
+
+    /* The page was written if it is followed by page 1 */
+    if (readVariablePage(state, 1) == 0) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        if (logicalPageId == 1)
+            return readVariablePage(state, 0) == 0;
+    }
+
+    /* If other blocks have pages, but there is no page 1, the first block has been erased */
+    bool erased = false;
+    if (readVariablePage(state, state->eraseSizeInPages) == 0)
+        erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
+    if (readVariablePage(state, 0) != 0 || erased)
+        return false;
+
+    /* Otherwise it was written if it has any content */
+    for (uint16_t i = 0; i < state->pageSize; i++)
+        if (buffer[i] != 0)
+            return true;
+
+    /* or if the record with key 0 refers to it */
+    uint8_t *dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+    if (state->nextDataPageId > 0) {
+        dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
+        if (readPage(state, state->minDataPageId % state->numDataPages) != 0)
+            return false;
+    }
+    uint64_t key = 0;
+    uint32_t varDataAddr = EMBEDDB_NO_VAR_DATA;
+    memcpy(&key, embedDBGetMinKey(state, dataBuffer), state->keySize);
+    memcpy(&varDataAddr, (uint8_t *)embedDBGetMinKey(state, dataBuffer) + state->keySize + state->dataSize, sizeof(uint32_t));
+    return key == 0 && varDataAddr != EMBEDDB_NO_VAR_DATA;
+}
+
+            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
             }
-            physicalVariablePageId++;
-            count++;
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
@@ -816,7 +870,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = isRecoverableVarPage(state, buffer, count);
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
@@ -825,6 +879,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         } else {
             break;
         }
+                firstPhysicalPageId = physicalVariablePageId;
+                physicalVariablePageId++;
+                count++;
+            } else {
+                physicalVariablePageId += blockSize;
+                count += blockSize;
+                i++;
     }
 
     /*
@@ -848,8 +909,12 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         }
 
         /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        if (moreToRead) {
+            memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+            validData = isRecoverableVarPage(state, buffer, physicalVariablePageId) && maxLogicalVariablePageId - logicalVariablePageId < state->numVarPages;
+        } else {
+            validData = false;
+        }
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -876,6 +941,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
-- 
2.43.0


From 8f955525f5d57f4a6f2ab2a70dede4a1428215a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 22/47] fix: recover wrapped data files with erased blocks

---
 lib/Distribution/embedDB.c | 350 ++++++++++++++++++++-----------------
 src/embedDB/embedDB.c      | 350 ++++++++++++++++++++-----------------
 2 files changed, 372 insertions(+), 328 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d87df52..0fd34b3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -803,6 +803,20 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page read during recovery holds records and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds data.
+ */
+bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
@@ -818,14 +832,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    count_t numRecords = 0;
+    id_t firstPhysicalPageId = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
+        validData = isRecoverableDataPage(state, buffer, count);
+        if (validData) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -858,9 +872,9 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is the first one with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -871,18 +885,29 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
         /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        if (moreToRead) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            validData = isRecoverableDataPage(state, buffer, physicalPageId) && maxLogicalPageId - logicalPageId < state->numDataPages;
+        } else {
+            validData = false;
+        }
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
@@ -918,15 +943,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    count_t numRecords = 0;
+    id_t firstPhysicalPageId = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
+        validData = isRecoverableDataPage(state, buffer, count);
+        if (validData) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -963,8 +988,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t blockToErase = count % state->numDataPages;
+        forgetBufferedPages(&state->bufferedPageId, blockToErase, blockToErase + blockSize);
+        int8_t eraseSuccess = state->fileInterface->erase(blockToErase, blockToErase + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -990,8 +1016,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
          * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
          */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
-            uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId == (hasPermanentData ? maxLogicalPageId + 1 : 0) && numRecords > 0 && numRecords <= (uint32_t)state->maxRecordsPerPage) {
             if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
@@ -1044,15 +1070,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = isRecoverableDataPage(state, buffer, physicalPageId) && maxLogicalPageId - logicalPageId < state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -1125,7 +1151,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
@@ -1143,6 +1169,20 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds bitmaps.
+ */
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
@@ -1152,9 +1192,18 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
     bool haveWrappedInMemory = false;
-    int count = 0;
+    id_t count = 0;
+    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* the first block may have been erased, in which case the index starts with the second block */
+    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+        physicalIndexPageId = state->eraseSizeInPages;
+        count = state->eraseSizeInPages;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
+    }
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
         if (!hasData || logicalIndexPageId == maxLogicaIndexPageId + 1) {
@@ -1169,27 +1218,21 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
         }
     }
 
-    if (count == 0)
-/**
- * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
- * @param	state			embedDB algorithm state structure
- * @param	buffer			Pointer to in-memory buffer holding the page
- * @param	physicalPageId	Physical page it was read from
- * @return	Return true if the page holds bitmaps.
- */
-bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
-    id_t logicalPageId = 0;
-    memcpy(&logicalPageId, buffer, sizeof(id_t));
-    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
-}
-
+    if (!hasData)
         return 0;
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (count < state->numIndexPages) {
+        /* the rest of the block was erased, so the oldest page may be in the next block */
+        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     }
     readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
@@ -1197,14 +1240,6 @@ bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPage
 
     return 0;
 }
-    /* the first block may have been erased, in which case the index starts with the second block */
-    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
-        physicalIndexPageId = state->eraseSizeInPages;
-        count = state->eraseSizeInPages;
-        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
-    }
-    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
-
 
 int8_t embedDBInitVarData(embedDBState *state) {
     // Initialize variable data outpt buffer
@@ -1216,7 +1251,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
@@ -1224,15 +1259,6 @@ int8_t embedDBInitVarData(embedDBState *state) {
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
-    } else if (count < state->numIndexPages) {
-        /* the rest of the block was erased, so the oldest page may be in the next block */
-        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
-        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
-            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
-                physicalPageIDOfSmallestData = physicalIndexPageId;
-            }
-        }
     if (!openResult) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open variable data file!\n");
@@ -1243,32 +1269,6 @@ int8_t embedDBInitVarData(embedDBState *state) {
     return 0;
 }
 
-int8_t embedDBInitVarDataFromFile(embedDBState *state) {
-    id_t logicalVariablePageId = 0;
-    id_t maxLogicalVariablePageId = 0;
-    id_t physicalVariablePageId = 0;
-    id_t count = 0;
-    count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
-
-    /* This will equal 0 if there are no pages to read */
-    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData) {
-            uint64_t largestVarRecordId = 0;
-            /* Fetch the largest key value for which we have data on this page */
-            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
-            /*
-             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
-             */
 /**
  * @brief	Checks that a page read during recovery is not blank and belongs to the physical page it was read from.
  * @param	state			embedDB algorithm state structure
@@ -1325,10 +1325,44 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     return key == 0 && varDataAddr != EMBEDDB_NO_VAR_DATA;
 }
 
+int8_t embedDBInitVarDataFromFile(embedDBState *state) {
+    id_t logicalVariablePageId = 0;
+    id_t maxLogicalVariablePageId = 0;
+    id_t physicalVariablePageId = 0;
+    id_t count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    bool validData = false;
+    bool hasData = false;
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+
+    /* This will equal 0 if there are no pages to read */
+    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
+
+    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
+    uint32_t i = 0;
+    id_t firstPhysicalPageId = 0;
+    while (moreToRead && i < 2) {
+        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+        validData = isRecoverableVarPage(state, buffer, count);
+        if (validData) {
+            uint64_t largestVarRecordId = 0;
+            /* Fetch the largest key value for which we have data on this page */
+            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
+            /*
+             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
+             * So we check if there is anything else which shows that the page was written.
+             */
             if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                firstPhysicalPageId = physicalVariablePageId;
+                physicalVariablePageId++;
+                count++;
+            } else {
+                physicalVariablePageId += blockSize;
+                count += blockSize;
+                i++;
             }
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
@@ -1345,7 +1379,7 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = isRecoverableVarPage(state, buffer, count);
+        validData = logicalVariablePageId % state->numVarPages == count;
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
@@ -1354,20 +1388,13 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         } else {
             break;
         }
-                firstPhysicalPageId = physicalVariablePageId;
-                physicalVariablePageId++;
-                count++;
-            } else {
-                physicalVariablePageId += blockSize;
-                count += blockSize;
-                i++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is the first one with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -1378,11 +1405,6 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
         /* check if data is valid or if it is junk */
         if (moreToRead) {
             memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
@@ -1394,6 +1416,18 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
@@ -1416,18 +1450,6 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
-
-            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
-            if (pagesToBlockBoundary == blockSize) {
-                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
-                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
-                if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-                    printf("Error: Unable to erase variable data page during recovery!\n");
-#endif
-                    return -1;
-                }
-            }
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
@@ -2447,6 +2469,52 @@ int8_t embedDBFlush(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Reads the index page describing a data page into the index read buffer.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical number of the data page
+ * @return	Return number of the entry for the data page, -1 if there is none.
+ */
+int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
+    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1)
+        memcpy(&indexPage, buf, sizeof(id_t));
+
+    while (low < high) {
+        if (indexPage < low || indexPage >= high)
+            indexPage = low + (high - low) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return -1;
+        }
+
+        id_t logicalPage, firstDataPage;
+        memcpy(&logicalPage, buf, sizeof(id_t));
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buf);
+        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
+            return -1;
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage < count) {
+            return dataPage - firstDataPage;
+        } else {
+            low = indexPage + 1;
+            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
+        }
+    }
+    return -1;
+}
+
 /**
  * @brief	Return next key, data pair for iterator.
  * @param	state	embedDB algorithm state structure
@@ -2461,6 +2529,11 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
+        // Skip the pages which were reclaimed since the last record was returned
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage == state->nextDataPageId) {
             searchWriteBuf = 1;
         }
@@ -2546,52 +2619,6 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-/**
- * @brief	Reads the index page describing a data page into the index read buffer.
- * @param	state		embedDB algorithm state structure
- * @param	dataPage	Logical number of the data page
- * @return	Return number of the entry for the data page, -1 if there is none.
- */
-int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
-    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
-    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
-
-    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
-    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
-    if (state->bufferedIndexPageId != (id_t)-1)
-        memcpy(&indexPage, buf, sizeof(id_t));
-
-    while (low < high) {
-        if (indexPage < low || indexPage >= high)
-            indexPage = low + (high - low) / 2;
-
-        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-            return -1;
-        }
-
-        id_t logicalPage, firstDataPage;
-        memcpy(&logicalPage, buf, sizeof(id_t));
-        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
-        count_t count = EMBEDDB_GET_COUNT(buf);
-        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
-            return -1;
-
-        if (dataPage < firstDataPage) {
-            high = indexPage;
-            indexPage = low + (high - low) / 2;
-        } else if (dataPage - firstDataPage < count) {
-            return dataPage - firstDataPage;
-        } else {
-            low = indexPage + 1;
-            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
-        }
-    }
-    return -1;
-}
-
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
@@ -2638,11 +2665,6 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
         *varData = NULL;
         return 1;
     }
-        // Skip the pages which were reclaimed since the last record was returned
-        if (it->nextDataPage < state->minDataPageId) {
-            it->nextDataPage = state->minDataPageId;
-            it->nextDataRec = 0;
-        }
 
     uint32_t pageNum = (varDataAddr / state->pageSize) % state->numVarPages;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 38ca36d..50ede13 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -328,6 +328,20 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page read during recovery holds records and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds data.
+ */
+bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1;
+}
+
 int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
@@ -343,14 +357,14 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    count_t numRecords = 0;
+    id_t firstPhysicalPageId = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
+        validData = isRecoverableDataPage(state, buffer, count);
+        if (validData) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -383,9 +397,9 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is the first one with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -396,18 +410,29 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
         /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        if (moreToRead) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            validData = isRecoverableDataPage(state, buffer, physicalPageId) && maxLogicalPageId - logicalPageId < state->numDataPages;
+        } else {
+            validData = false;
+        }
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
@@ -443,15 +468,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    count_t numRecords = 0;
+    id_t firstPhysicalPageId = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == count;
-        numRecords = EMBEDDB_GET_COUNT(buffer);
-        if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
+        validData = isRecoverableDataPage(state, buffer, count);
+        if (validData) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -488,8 +513,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        id_t blockToErase = count % state->numDataPages;
+        forgetBufferedPages(&state->bufferedPageId, blockToErase, blockToErase + blockSize);
+        int8_t eraseSuccess = state->fileInterface->erase(blockToErase, blockToErase + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -515,8 +541,8 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
          * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
          */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
-            uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalPageId == (hasPermanentData ? maxLogicalPageId + 1 : 0) && numRecords > 0 && numRecords <= (uint32_t)state->maxRecordsPerPage) {
             if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
@@ -569,15 +595,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = isRecoverableDataPage(state, buffer, physicalPageId) && maxLogicalPageId - logicalPageId < state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -650,7 +676,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
         return -1;
     }
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters)) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && state->nextDataPageId > 0) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             return embedDBInitIndexFromFile(state);
@@ -668,6 +694,20 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
+ * @param	state			embedDB algorithm state structure
+ * @param	buffer			Pointer to in-memory buffer holding the page
+ * @param	physicalPageId	Physical page it was read from
+ * @return	Return true if the page holds bitmaps.
+ */
+bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
+    id_t logicalPageId = 0;
+    memcpy(&logicalPageId, buffer, sizeof(id_t));
+    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
@@ -677,9 +717,18 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
     bool haveWrappedInMemory = false;
-    int count = 0;
+    id_t count = 0;
+    bool hasData = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* the first block may have been erased, in which case the index starts with the second block */
+    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+        physicalIndexPageId = state->eraseSizeInPages;
+        count = state->eraseSizeInPages;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
+    }
+    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
         if (!hasData || logicalIndexPageId == maxLogicaIndexPageId + 1) {
@@ -694,27 +743,21 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
         }
     }
 
-    if (count == 0)
-/**
- * @brief	Checks that a page read during recovery holds bitmaps and belongs to the physical page it was read from.
- * @param	state			embedDB algorithm state structure
- * @param	buffer			Pointer to in-memory buffer holding the page
- * @param	physicalPageId	Physical page it was read from
- * @return	Return true if the page holds bitmaps.
- */
-bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId) {
-    id_t logicalPageId = 0;
-    memcpy(&logicalPageId, buffer, sizeof(id_t));
-    count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
-}
-
+    if (!hasData)
         return 0;
 
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (count < state->numIndexPages) {
+        /* the rest of the block was erased, so the oldest page may be in the next block */
+        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     }
     readIndexPage(state, physicalPageIDOfSmallestData);
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
@@ -722,14 +765,6 @@ bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPage
 
     return 0;
 }
-    /* the first block may have been erased, in which case the index starts with the second block */
-    if (!moreToRead || !isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
-        physicalIndexPageId = state->eraseSizeInPages;
-        count = state->eraseSizeInPages;
-        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isRecoverableIndexPage(state, buffer, physicalIndexPageId);
-    }
-    id_t physicalPageIDOfSmallestData = physicalIndexPageId;
-
 
 int8_t embedDBInitVarData(embedDBState *state) {
     // Initialize variable data outpt buffer
@@ -741,7 +776,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
-    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
+    if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
@@ -749,15 +784,6 @@ int8_t embedDBInitVarData(embedDBState *state) {
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
-    } else if (count < state->numIndexPages) {
-        /* the rest of the block was erased, so the oldest page may be in the next block */
-        physicalIndexPageId = (count / state->eraseSizeInPages + 1) * state->eraseSizeInPages % state->numIndexPages;
-        if (readIndexPage(state, physicalIndexPageId) == 0 && isRecoverableIndexPage(state, buffer, physicalIndexPageId)) {
-            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-            if (maxLogicaIndexPageId - logicalIndexPageId < state->numIndexPages) {
-                physicalPageIDOfSmallestData = physicalIndexPageId;
-            }
-        }
     if (!openResult) {
 #ifdef PRINT_ERRORS
         printf("Error: Can't open variable data file!\n");
@@ -768,32 +794,6 @@ int8_t embedDBInitVarData(embedDBState *state) {
     return 0;
 }
 
-int8_t embedDBInitVarDataFromFile(embedDBState *state) {
-    id_t logicalVariablePageId = 0;
-    id_t maxLogicalVariablePageId = 0;
-    id_t physicalVariablePageId = 0;
-    id_t count = 0;
-    count_t blockSize = state->eraseSizeInPages;
-    bool validData = false;
-    bool hasData = false;
-    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
-
-    /* This will equal 0 if there are no pages to read */
-    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
-
-    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
-    uint32_t i = 0;
-    while (moreToRead && i < 2) {
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
-        if (validData) {
-            uint64_t largestVarRecordId = 0;
-            /* Fetch the largest key value for which we have data on this page */
-            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
-            /*
-             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
-             * So we go to the next page to check if it is valid as well.
-             */
 /**
  * @brief	Checks that a page read during recovery is not blank and belongs to the physical page it was read from.
  * @param	state			embedDB algorithm state structure
@@ -850,10 +850,44 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     return key == 0 && varDataAddr != EMBEDDB_NO_VAR_DATA;
 }
 
+int8_t embedDBInitVarDataFromFile(embedDBState *state) {
+    id_t logicalVariablePageId = 0;
+    id_t maxLogicalVariablePageId = 0;
+    id_t physicalVariablePageId = 0;
+    id_t count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    bool validData = false;
+    bool hasData = false;
+    void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
+
+    /* This will equal 0 if there are no pages to read */
+    int8_t moreToRead = !(readVariablePage(state, physicalVariablePageId));
+
+    /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
+    uint32_t i = 0;
+    id_t firstPhysicalPageId = 0;
+    while (moreToRead && i < 2) {
+        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+        validData = isRecoverableVarPage(state, buffer, count);
+        if (validData) {
+            uint64_t largestVarRecordId = 0;
+            /* Fetch the largest key value for which we have data on this page */
+            memcpy(&largestVarRecordId, (int8_t *)buffer + sizeof(id_t), state->keySize);
+            /*
+             * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
+             * So we check if there is anything else which shows that the page was written.
+             */
             if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                firstPhysicalPageId = physicalVariablePageId;
+                physicalVariablePageId++;
+                count++;
+            } else {
+                physicalVariablePageId += blockSize;
+                count += blockSize;
+                i++;
             }
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
@@ -870,7 +904,7 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
 
     while (moreToRead && count < state->numVarPages) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = isRecoverableVarPage(state, buffer, count);
+        validData = logicalVariablePageId % state->numVarPages == count;
         if (validData && logicalVariablePageId == maxLogicalVariablePageId + 1) {
             maxLogicalVariablePageId = logicalVariablePageId;
             physicalVariablePageId++;
@@ -879,20 +913,13 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         } else {
             break;
         }
-                firstPhysicalPageId = physicalVariablePageId;
-                physicalVariablePageId++;
-                count++;
-            } else {
-                physicalVariablePageId += blockSize;
-                count += blockSize;
-                i++;
     }
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the page number for the physical page with the smallest key is the first one with data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -903,11 +930,6 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
         /* check if data is valid or if it is junk */
         if (moreToRead) {
             memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
@@ -919,6 +941,18 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
+            if (pagesToBlockBoundary == blockSize) {
+                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+                if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                    printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                    return -1;
+                }
+            }
         }
     }
 
@@ -941,18 +975,6 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
-
-            /* if we are on a block-boundary, we do not know if the block we continue with was erased already */
-            if (pagesToBlockBoundary == blockSize) {
-                forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
-                int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
-                if (!eraseSuccess) {
-#ifdef PRINT_ERRORS
-                    printf("Error: Unable to erase variable data page during recovery!\n");
-#endif
-                    return -1;
-                }
-            }
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
@@ -1972,6 +1994,52 @@ int8_t embedDBFlush(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Reads the index page describing a data page into the index read buffer.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical number of the data page
+ * @return	Return number of the entry for the data page, -1 if there is none.
+ */
+int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
+    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
+    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+    if (state->bufferedIndexPageId != (id_t)-1)
+        memcpy(&indexPage, buf, sizeof(id_t));
+
+    while (low < high) {
+        if (indexPage < low || indexPage >= high)
+            indexPage = low + (high - low) / 2;
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return -1;
+        }
+
+        id_t logicalPage, firstDataPage;
+        memcpy(&logicalPage, buf, sizeof(id_t));
+        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
+        count_t count = EMBEDDB_GET_COUNT(buf);
+        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
+            return -1;
+
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+            indexPage = low + (high - low) / 2;
+        } else if (dataPage - firstDataPage < count) {
+            return dataPage - firstDataPage;
+        } else {
+            low = indexPage + 1;
+            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
+        }
+    }
+    return -1;
+}
+
 /**
  * @brief	Return next key, data pair for iterator.
  * @param	state	embedDB algorithm state structure
@@ -1986,6 +2054,11 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
+        // Skip the pages which were reclaimed since the last record was returned
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage == state->nextDataPageId) {
             searchWriteBuf = 1;
         }
@@ -2071,52 +2144,6 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-/**
- * @brief	Reads the index page describing a data page into the index read buffer.
- * @param	state		embedDB algorithm state structure
- * @param	dataPage	Logical number of the data page
- * @return	Return number of the entry for the data page, -1 if there is none.
- */
-int32_t findIndexEntry(embedDBState *state, id_t dataPage) {
-    uint8_t *buf = (uint8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
-    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
-
-    /* Start with the page in the buffer as pages are mostly visited in order. Pages may be partially filled or missing after a restart. */
-    id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
-    if (state->bufferedIndexPageId != (id_t)-1)
-        memcpy(&indexPage, buf, sizeof(id_t));
-
-    while (low < high) {
-        if (indexPage < low || indexPage >= high)
-            indexPage = low + (high - low) / 2;
-
-        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-            return -1;
-        }
-
-        id_t logicalPage, firstDataPage;
-        memcpy(&logicalPage, buf, sizeof(id_t));
-        memcpy(&firstDataPage, buf + 8, sizeof(id_t));
-        count_t count = EMBEDDB_GET_COUNT(buf);
-        if (logicalPage != indexPage || count > state->maxIdxRecordsPerPage)
-            return -1;
-
-        if (dataPage < firstDataPage) {
-            high = indexPage;
-            indexPage = low + (high - low) / 2;
-        } else if (dataPage - firstDataPage < count) {
-            return dataPage - firstDataPage;
-        } else {
-            low = indexPage + 1;
-            indexPage = dataPage - firstDataPage == count ? low : low + (high - low) / 2;
-        }
-    }
-    return -1;
-}
-
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
@@ -2163,11 +2190,6 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
         *varData = NULL;
         return 1;
     }
-        // Skip the pages which were reclaimed since the last record was returned
-        if (it->nextDataPage < state->minDataPageId) {
-            it->nextDataPage = state->minDataPageId;
-            it->nextDataRec = 0;
-        }
 
     uint32_t pageNum = (varDataAddr / state->pageSize) % state->numVarPages;
 
-- 
2.43.0


From 3b9692beede1f6588be11a3af167fbd11114cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 23/47] fix: keep binary search on stored pages and return when
 the key is on none

---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0fd34b3..7696d09 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2113,15 +2113,16 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId <= first)
+                break;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
+            if (pageId >= last)
+                break;
             first = pageId + 1;
             pageId = (first + last) / 2;
         } else {
@@ -2129,6 +2130,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* No page can hold the key */
+    return -1;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 50ede13..12216ca 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1638,15 +1638,16 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId <= first)
+                break;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
+            if (pageId >= last)
+                break;
             first = pageId + 1;
             pageId = (first + last) / 2;
         } else {
@@ -1654,6 +1655,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* No page can hold the key */
+    return -1;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
-- 
2.43.0


From 45999367b153107a3c111b2bc8c335bc64100b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 24/47] fix: skip page headers between reads of a variable data
 stream

---
 lib/Distribution/embedDB.c | 11 ++++++++++-
 src/embedDB/embedDB.c      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7696d09..f75eb54 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2729,6 +2729,15 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    if (stream->bytesRead >= stream->totalBytes) {
+        return 0;
+    }
+
+    // If the last read ended at the end of a page, skip past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -2756,7 +2765,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 12216ca..9ee8354 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2254,6 +2254,15 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    if (stream->bytesRead >= stream->totalBytes) {
+        return 0;
+    }
+
+    // If the last read ended at the end of a page, skip past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -2281,7 +2290,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
-- 
2.43.0


From 9561cbf94d6280783cd45e0530a551d34e1afbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 25/47] fix: reset statistics when initialising with variable
 data

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f75eb54..a55c399 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -749,12 +749,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9ee8354..7b969e4 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -274,12 +274,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
-- 
2.43.0


From 85aebdf46cc71ca1426640e9e18dc77a4a8ecdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 26/47] fix: recognise an erased first block of variable data
 with one page

---
 lib/Distribution/embedDB.c | 24 +++++++++++++++++-------
 src/embedDB/embedDB.c      | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a55c399..6e53b75 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1295,24 +1295,34 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     id_t logicalPageId = 0;
 
-    /* The page was written if it is followed by page 1 */
+    /* The page was written if it is followed by page 1, unless it is a block of its own which was erased to continue after the last page */
+    bool written = false, erased = false;
     if (readVariablePage(state, 1) == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        if (logicalPageId == 1)
-            return readVariablePage(state, 0) == 0;
+        written = logicalPageId == 1;
+    }
+    if (written && state->eraseSizeInPages == 1 && readVariablePage(state, state->numVarPages - 1) == 0) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        erased = logicalPageId == state->numVarPages - 1;
     }
 
     /* If other blocks have pages, but there is no page 1, the first block has been erased */
-    bool erased = false;
-    if (readVariablePage(state, state->eraseSizeInPages) == 0)
+    if (!written && readVariablePage(state, state->eraseSizeInPages) == 0)
         erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
-    if (readVariablePage(state, 0) != 0 || erased)
+    if (readVariablePage(state, 0) != 0)
         return false;
+    if (written && !erased)
+        return true;
 
-    /* Otherwise it was written if it has any content */
+    /* It was written if it has any content */
     for (uint16_t i = 0; i < state->pageSize; i++)
         if (buffer[i] != 0)
             return true;
+    if (erased) {
+        forgetBufferedPages(&state->bufferedVarPage, 0, state->eraseSizeInPages);
+        state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile);
+        return false;
+    }
 
     /* or if the record with key 0 refers to it */
     uint8_t *dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7b969e4..2dcf440 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -820,24 +820,34 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     id_t logicalPageId = 0;
 
-    /* The page was written if it is followed by page 1 */
+    /* The page was written if it is followed by page 1, unless it is a block of its own which was erased to continue after the last page */
+    bool written = false, erased = false;
     if (readVariablePage(state, 1) == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        if (logicalPageId == 1)
-            return readVariablePage(state, 0) == 0;
+        written = logicalPageId == 1;
+    }
+    if (written && state->eraseSizeInPages == 1 && readVariablePage(state, state->numVarPages - 1) == 0) {
+        memcpy(&logicalPageId, buffer, sizeof(id_t));
+        erased = logicalPageId == state->numVarPages - 1;
     }
 
     /* If other blocks have pages, but there is no page 1, the first block has been erased */
-    bool erased = false;
-    if (readVariablePage(state, state->eraseSizeInPages) == 0)
+    if (!written && readVariablePage(state, state->eraseSizeInPages) == 0)
         erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
-    if (readVariablePage(state, 0) != 0 || erased)
+    if (readVariablePage(state, 0) != 0)
         return false;
+    if (written && !erased)
+        return true;
 
-    /* Otherwise it was written if it has any content */
+    /* It was written if it has any content */
     for (uint16_t i = 0; i < state->pageSize; i++)
         if (buffer[i] != 0)
             return true;
+    if (erased) {
+        forgetBufferedPages(&state->bufferedVarPage, 0, state->eraseSizeInPages);
+        state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile);
+        return false;
+    }
 
     /* or if the record with key 0 refers to it */
     uint8_t *dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
-- 
2.43.0


From 8af6426ed59b7d6c769124a5c00f0968ebd9011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 27/47] fix: report failed accesses in the desktop file
 interface and address files beyond 4 GB

---
 .../desktopFileInterface.c                     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..d8179ea 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,17 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (uint64_t)pageSize * pageNum, SEEK_SET) != 0) {
+        return 0;
+    }
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (uint64_t)pageNum * pageSize, SEEK_SET) != 0) {
+        return 0;
+    }
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,17 +45,17 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (uint64_t)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
     memset(buffer, 1, memorySize);
 
@@ -63,9 +67,9 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
 
 int8_t FILE_CLOSE(void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fclose(fileInfo->file);
+    int closeResult = fclose(fileInfo->file);
     fileInfo->file = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
-- 
2.43.0


From 13ea27d3f66c7e57afb8fcc2faafa0b8840e586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 28/47] fix: report failed reads and writes in the SD file
 interface

---
 lib/SD-File-Interface/SDFileInterface.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..e582607 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -59,7 +59,9 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0) {
+        return 0;
+    }
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
@@ -70,7 +72,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -78,18 +80,16 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
+        return 0;
     }
     int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
-        return 0;
-    return 1;
+    return writeSuccess;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
-- 
2.43.0


From 0cf21304a43a27b5a3b09bd5e8449cfeacdd6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 29/47] fix: page estimates between two pages do not overflow

---
 lib/Distribution/embedDB.c | 4 ++--
 src/embedDB/embedDB.c      | 2 +-
 src/spline/spline.c        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6e53b75..c7c7047 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -421,7 +421,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
@@ -2161,7 +2161,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one. The spline bounds are logical page ids, so compare them to the id in the page header
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2dcf440..44a71df 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1686,7 +1686,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one. The spline bounds are logical page ids, so compare them to the id in the page header
diff --git a/src/spline/spline.c b/src/spline/spline.c
index be44200..d5bf4bf 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -392,7 +392,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
-- 
2.43.0


From 1edff3b846417ad3fd46baf64d59ace043b178b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 30/47] fix: a schema that cannot be created is released

---
 lib/Distribution/embedDB.c   | 2 ++
 src/query-interface/schema.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c7c7047..8c743e5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3269,6 +3269,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3279,6 +3280,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..f3b008d 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -63,6 +63,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +74,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
-- 
2.43.0


From 25f9060ab3b58f8f40d7bcda7adf1c663e31fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 31/47] fix: sum and average of signed columns of five to eight
 bytes

---
 lib/Distribution/embedDB.c            | 8 ++++----
 src/query-interface/advancedQueries.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8c743e5..882732b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4224,11 +4224,11 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        (*(int64_t *)aggFunc->state) += val;
+        (*(uint64_t *)aggFunc->state) += (uint64_t)val;
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
@@ -4427,11 +4427,11 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        state->sum += val;
+        state->sum = (int64_t)((uint64_t)state->sum + (uint64_t)val);
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..73a7ba0 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,11 +861,11 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        (*(int64_t*)aggFunc->state) += val;
+        (*(uint64_t*)aggFunc->state) += (uint64_t)val;
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
@@ -1064,11 +1064,11 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-        state->sum += val;
+        state->sum = (int64_t)((uint64_t)state->sum + (uint64_t)val);
     } else {
         uint64_t val = 0;
         memcpy(&val, colPos, colSize);
-- 
2.43.0


From 97406a592207bb2132f2c27dd11ce4042954446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 32/47] fix: closing an aggregate keeps its input so that the
 chain can be freed

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 882732b..e9b8bce 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3965,7 +3965,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 73a7ba0..54beac4 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From 18a047c2a91fba9cf1162c94f0246147d7a14813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 33/47] fix: freeing the state of a min or max aggregate
 releases all of its memory

---
 lib/Distribution/embedDB.c            | 22 ++++++----------------
 src/query-interface/advancedQueries.c | 22 ++++++----------------
 2 files changed, 12 insertions(+), 32 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e9b8bce..e649c64 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4306,7 +4306,8 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is stored right behind the state so that freeing the state releases both
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
@@ -4314,13 +4315,7 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -4371,7 +4366,8 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is stored right behind the state so that freeing the state releases both
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
@@ -4379,13 +4375,7 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 54beac4..303071a 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -943,7 +943,8 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is stored right behind the state so that freeing the state releases both
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
@@ -951,13 +952,7 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -1008,7 +1003,8 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is stored right behind the state so that freeing the state releases both
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
@@ -1016,13 +1012,7 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
-- 
2.43.0


From 41129838a195ab18ad53c5e551898d12cc9a01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 34/47] fix: a key join stays finished once an input has run
 out

---
 lib/Distribution/embedDB.c            | 10 ++++++++++
 src/query-interface/advancedQueries.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e649c64..57cc871 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4016,6 +4016,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator *input2;
     int8_t firstCall;
+    int8_t finished;  // One of the inputs has run out of records
 };
 
 void initKeyJoin(embedDBOperator *op) {
@@ -4069,6 +4070,7 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator *op) {
@@ -4084,11 +4086,16 @@ int8_t nextKeyJoin(embedDBOperator *op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->finished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -4100,18 +4107,21 @@ int8_t nextKeyJoin(embedDBOperator *op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 303071a..d7a2a3d 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -653,6 +653,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator* input2;
     int8_t firstCall;
+    int8_t finished;  // One of the inputs has run out of records
 };
 
 void initKeyJoin(embedDBOperator* op) {
@@ -706,6 +707,7 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator* op) {
@@ -721,11 +723,16 @@ int8_t nextKeyJoin(embedDBOperator* op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->finished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -737,18 +744,21 @@ int8_t nextKeyJoin(embedDBOperator* op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
-- 
2.43.0


From b7ca019a795c666d27adc83b77fa07361f0dee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 35/47] fix: refuse configurations whose buffers, pages or
 files cannot hold a database

---
 lib/Distribution/embedDB.c | 43 ++++++++++++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 43 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 57cc871..86e6e85 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -630,6 +630,21 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    /* sizes are stored as signed bytes, so data which is too large shows as a negative size */
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size and the erase size must be at least one and the data size must be between 0 and 127.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -677,6 +692,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
+    /* At least one record must fit on a page after the header */
+    if (state->headerSize + state->recordSize > state->pageSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for the page header and one record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
@@ -1117,6 +1140,12 @@ void embedDBInitSplineFromFile(embedDBState *state) {
 
 int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
+    if (state->bitmapSize < 1 || 16 + state->bitmapSize > state->pageSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap size must be at least one and a bitmap must fit on an index page.\n");
+#endif
+        return -1;
+    }
 
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
@@ -1245,6 +1274,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
+    if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+        return -1;
+    }
+
+    if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     // Initialize variable data outpt buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 44a71df..1115438 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -155,6 +155,21 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    /* sizes are stored as signed bytes, so data which is too large shows as a negative size */
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size and the erase size must be at least one and the data size must be between 0 and 127.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -202,6 +217,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize += state->keySize * 2 + state->dataSize * 2;
 
+    /* At least one record must fit on a page after the header */
+    if (state->headerSize + state->recordSize > state->pageSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for the page header and one record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
@@ -642,6 +665,12 @@ void embedDBInitSplineFromFile(embedDBState *state) {
 
 int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
+    if (state->bitmapSize < 1 || 16 + state->bitmapSize > state->pageSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap size must be at least one and a bitmap must fit on an index page.\n");
+#endif
+        return -1;
+    }
 
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
@@ -770,6 +799,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
+    if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+        return -1;
+    }
+
+    if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     // Initialize variable data outpt buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
-- 
2.43.0


From 50f1e065765ae764ee08ddaccb4d0aa43771fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 36/47] fix: close files and free memory when initialisation
 fails

---
 lib/Distribution/embedDB.c | 32 ++++++++++++++++++++++++++++++--
 src/embedDB/embedDB.c      | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 86e6e85..c742f11 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -550,6 +550,7 @@ void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId,
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
+void abandonInit(embedDBState *state, bool dataOpen, bool indexOpen);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -738,6 +739,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        abandonInit(state, false, false);
         return dataInitResult;
     }
 
@@ -748,6 +750,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
+            abandonInit(state, true, false);
             return -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
@@ -758,6 +761,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        abandonInit(state, true, false);
         return indexInitResult;
     }
 
@@ -768,6 +772,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
+            abandonInit(state, true, EMBEDDB_USING_INDEX(state->parameters));
             return -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
@@ -778,6 +783,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
+        abandonInit(state, true, EMBEDDB_USING_INDEX(state->parameters));
         return varDataInitResult;
     }
 
@@ -785,6 +791,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     return 0;
 }
 
+/**
+ * @brief	Closes what has been opened and frees what has been allocated by an initialisation that failed.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataOpen	True if the data file is open
+ * @param	indexOpen	True if the index file is open
+ */
+void abandonInit(embedDBState *state, bool dataOpen, bool indexOpen) {
+    if (dataOpen)
+        state->fileInterface->close(state->dataFile);
+    if (indexOpen)
+        state->fileInterface->close(state->indexFile);
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
 int8_t embedDBInitData(embedDBState *state) {
     state->nextDataPageId = 0;
     state->nextDataPageId = 0;
@@ -809,11 +833,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1115438..2a1a55d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -75,6 +75,7 @@ void abandonVarData(embedDBState *state, id_t startVarLoc, id_t startVarPageId,
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
+void abandonInit(embedDBState *state, bool dataOpen, bool indexOpen);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -263,6 +264,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        abandonInit(state, false, false);
         return dataInitResult;
     }
 
@@ -273,6 +275,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
+            abandonInit(state, true, false);
             return -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
@@ -283,6 +286,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        abandonInit(state, true, false);
         return indexInitResult;
     }
 
@@ -293,6 +297,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
+            abandonInit(state, true, EMBEDDB_USING_INDEX(state->parameters));
             return -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
@@ -303,6 +308,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
+        abandonInit(state, true, EMBEDDB_USING_INDEX(state->parameters));
         return varDataInitResult;
     }
 
@@ -310,6 +316,24 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     return 0;
 }
 
+/**
+ * @brief	Closes what has been opened and frees what has been allocated by an initialisation that failed.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataOpen	True if the data file is open
+ * @param	indexOpen	True if the index file is open
+ */
+void abandonInit(embedDBState *state, bool dataOpen, bool indexOpen) {
+    if (dataOpen)
+        state->fileInterface->close(state->dataFile);
+    if (indexOpen)
+        state->fileInterface->close(state->indexFile);
+    if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
+        splineClose(state->spl);
+        free(state->spl);
+        state->spl = NULL;
+    }
+}
+
 int8_t embedDBInitData(embedDBState *state) {
     state->nextDataPageId = 0;
     state->nextDataPageId = 0;
@@ -334,11 +358,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
-- 
2.43.0


From fff02bc70cdd1ed8122f2633707ab1e889cdc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 37/47] fix: do not skip the place of a temporary page whose
 write failed

---
 lib/Distribution/embedDB.c | 5 +++--
 src/embedDB/embedDB.c      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c742f11..5f319f3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2977,14 +2977,15 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
 
     /* Write temporary page to storage */
     forgetBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    state->nextRLCPhysicalPageLocation++;
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2a1a55d..4340edf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2502,14 +2502,15 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
 
     /* Write temporary page to storage */
     forgetBufferedPages(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    state->nextRLCPhysicalPageLocation++;
     return 0;
 }
 
-- 
2.43.0


From a523c12a06a203a4893b31f9b68b458a6ceebe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 38/47] fix: report a failed truncation when creating an SD
 file

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 2f72f1e..a303abf 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -85,7 +85,10 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
         }
         if (f.isOpen() == false)
             return NULL;
-        f.truncate(0);
+        if (!f.truncate(0)) {
+            f.close();
+            return NULL;
+        }
     } else if (mode[0] == 'r') {
         if (mode[1] == '+') {
             f = sdcard->open(filename, O_RDWR);
-- 
2.43.0


From bda8f88aef61dd73f102d7d392e7cc0b4aded0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 39/47] fix: an erased index page is not the oldest page of a
 wrapped index

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5f319f3..9be90d7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1273,7 +1273,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = isRecoverableIndexPage(state, buffer, physicalIndexPageId) && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4340edf..e2309ca 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -798,7 +798,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = isRecoverableIndexPage(state, buffer, physicalIndexPageId) && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
-- 
2.43.0


From 62bf26783101f2d48aa6f43fdcdb38feb7588b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 40/47] fix: erased pages filled with one value are not taken
 for data during recovery

---
 lib/Distribution/embedDB.c | 22 +++++++++++++++++++---
 src/embedDB/embedDB.c      | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9be90d7..360b065 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -533,6 +533,7 @@ int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 void embedDBInitSplineFromFile(embedDBState *state);
+bool isFilledPage(embedDBState *state, void *buffer);
 bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
@@ -857,6 +858,21 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks if a page is filled with one non-zero value, as a page is after an erase.
+ * @param	state	embedDB algorithm state structure
+ * @param	buffer	Pointer to in-memory buffer holding the page
+ * @return	Return true if all bytes of the page are the same and not zero.
+ */
+bool isFilledPage(embedDBState *state, void *buffer) {
+    uint8_t *bytes = (uint8_t *)buffer;
+    for (uint32_t i = 1; i < state->pageSize; i++) {
+        if (bytes[i] != bytes[0])
+            return false;
+    }
+    return bytes[0] != 0;
+}
+
 /**
  * @brief	Checks that a page read during recovery holds records and belongs to the physical page it was read from.
  * @param	state			embedDB algorithm state structure
@@ -868,7 +884,7 @@ bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageI
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
     count_t numRecords = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1;
+    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1 && !isFilledPage(state, buffer);
 }
 
 int8_t embedDBInitDataFromFile(embedDBState *state) {
@@ -1240,7 +1256,7 @@ bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPage
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
     count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1 && !isFilledPage(state, buffer);
 }
 
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
@@ -1353,7 +1369,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId) {
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
-    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId;
+    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId && !isFilledPage(state, buffer);
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e2309ca..d036918 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -58,6 +58,7 @@ int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
 void embedDBInitSplineFromFile(embedDBState *state);
+bool isFilledPage(embedDBState *state, void *buffer);
 bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
@@ -382,6 +383,21 @@ int8_t embedDBInitData(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks if a page is filled with one non-zero value, as a page is after an erase.
+ * @param	state	embedDB algorithm state structure
+ * @param	buffer	Pointer to in-memory buffer holding the page
+ * @return	Return true if all bytes of the page are the same and not zero.
+ */
+bool isFilledPage(embedDBState *state, void *buffer) {
+    uint8_t *bytes = (uint8_t *)buffer;
+    for (uint32_t i = 1; i < state->pageSize; i++) {
+        if (bytes[i] != bytes[0])
+            return false;
+    }
+    return bytes[0] != 0;
+}
+
 /**
  * @brief	Checks that a page read during recovery holds records and belongs to the physical page it was read from.
  * @param	state			embedDB algorithm state structure
@@ -393,7 +409,7 @@ bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageI
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
     count_t numRecords = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1;
+    return logicalPageId % state->numDataPages == physicalPageId && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1 && !isFilledPage(state, buffer);
 }
 
 int8_t embedDBInitDataFromFile(embedDBState *state) {
@@ -765,7 +781,7 @@ bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPage
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
     count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
-    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1;
+    return logicalPageId % state->numIndexPages == physicalPageId && numBitmaps > 0 && numBitmaps < state->maxIdxRecordsPerPage + 1 && !isFilledPage(state, buffer);
 }
 
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
@@ -878,7 +894,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId) {
     id_t logicalPageId = 0;
     memcpy(&logicalPageId, buffer, sizeof(id_t));
-    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId;
+    return logicalPageId != (id_t)-1 && logicalPageId % state->numVarPages == physicalPageId && !isFilledPage(state, buffer);
 }
 
 /**
-- 
2.43.0


From 26eff2cc22d641b265059c6381e8480d9eac41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 41/47] fix: report a failed flush of the data, index or
 variable data file

---
 lib/Distribution/embedDB.c | 23 ++++++++++++++++++++---
 src/embedDB/embedDB.c      | 23 ++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 360b065..19d4fd3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2490,13 +2490,21 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (flushResult != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
+
     return 0;
 }
 
@@ -2537,7 +2545,7 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t flushResult = state->fileInterface->flush(state->dataFile);
 
     indexPage(state, pageNum);
 
@@ -2564,12 +2572,21 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
+        if (state->fileInterface->flush(state->indexFile) != 1)
+            flushResult = 0;
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
 
+    /* The page is complete in any case, but it may not have reached the storage */
+    if (flushResult != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data or index file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d036918..479ab30 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2015,13 +2015,21 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
+    int8_t flushResult = state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (flushResult != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
+
     return 0;
 }
 
@@ -2062,7 +2070,7 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t flushResult = state->fileInterface->flush(state->dataFile);
 
     indexPage(state, pageNum);
 
@@ -2089,12 +2097,21 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
+        if (state->fileInterface->flush(state->indexFile) != 1)
+            flushResult = 0;
 
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
 
+    /* The page is complete in any case, but it may not have reached the storage */
+    if (flushResult != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data or index file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From a2a87c72128088618473153680f723dd83ac1451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 42/47] fix: flushing also covers pages which were written
 before the buffers became empty

---
 lib/Distribution/embedDB.c | 18 ++++++++++++++----
 src/embedDB/embedDB.c      | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 19d4fd3..395b207 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2476,9 +2476,12 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+    if (!EMBEDDB_USING_VDATA(state->parameters))
         return 0;
+
+    /* Check if we actually have any variable data in the buffer. Pages written earlier may still have to reach the storage. */
+    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        return state->fileInterface->flush(state->varFile) == 1 ? 0 : -1;
     }
 
     // only flush variable buffer
@@ -2516,8 +2519,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
 
     // Flush var data page first so that its data is stored before the records are
     if (EMBEDDB_USING_VDATA(state->parameters)) {
@@ -2530,6 +2531,15 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
+    /* Without records in the buffer there is no page to write, but pages written earlier may still have to reach the storage */
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        if (state->fileInterface->flush(state->dataFile) != 1)
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && state->fileInterface->flush(state->indexFile) != 1)
+            return -1;
+        return 0;
+    }
+
     if (EMBEDDB_USING_INDEX(state->parameters) && prepareIndexPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page during embedDBFlush.");
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 479ab30..6afaf8a 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2001,9 +2001,12 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+    if (!EMBEDDB_USING_VDATA(state->parameters))
         return 0;
+
+    /* Check if we actually have any variable data in the buffer. Pages written earlier may still have to reach the storage. */
+    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        return state->fileInterface->flush(state->varFile) == 1 ? 0 : -1;
     }
 
     // only flush variable buffer
@@ -2041,8 +2044,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
 
     // Flush var data page first so that its data is stored before the records are
     if (EMBEDDB_USING_VDATA(state->parameters)) {
@@ -2055,6 +2056,15 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
+    /* Without records in the buffer there is no page to write, but pages written earlier may still have to reach the storage */
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        if (state->fileInterface->flush(state->dataFile) != 1)
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && state->fileInterface->flush(state->indexFile) != 1)
+            return -1;
+        return 0;
+    }
+
     if (EMBEDDB_USING_INDEX(state->parameters) && prepareIndexPage(state) != 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page during embedDBFlush.");
-- 
2.43.0


From 9fdf588c33a868abbc917eaf98967c6c217b130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 43/47] fix: record-level consistency flushes the data file
 before a put is acknowledged and before blocks are erased

---
 lib/Distribution/embedDB.c | 16 ++++++++++++++++
 src/embedDB/embedDB.c      | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 395b207..45d29a4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1930,6 +1930,14 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
     uint32_t eraseEndingPage = 0;
 
+    /* the copies of the records in these blocks are only replaceable once the data page holding them has reached the storage */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to flush the data file when shifting record level consistency blocks!\n");
+#endif
+        return -1;
+    }
+
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
     uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
@@ -3028,6 +3036,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The record is only consistent once the page has reached the storage. Otherwise, the next temporary page replaces this one. */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file for record-level-consistency.\n");
+#endif
+        return -1;
+    }
+
     state->nextRLCPhysicalPageLocation++;
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6afaf8a..b817d01 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1455,6 +1455,14 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
     uint32_t eraseEndingPage = 0;
 
+    /* the copies of the records in these blocks are only replaceable once the data page holding them has reached the storage */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to flush the data file when shifting record level consistency blocks!\n");
+#endif
+        return -1;
+    }
+
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
     uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
@@ -2553,6 +2561,14 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The record is only consistent once the page has reached the storage. Otherwise, the next temporary page replaces this one. */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file for record-level-consistency.\n");
+#endif
+        return -1;
+    }
+
     state->nextRLCPhysicalPageLocation++;
     return 0;
 }
-- 
2.43.0


From 49b2c65e3832494a7d3688450f1d18c9a176a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 44/47] fix: flush the data pages before the bitmaps describing
 them are written to the index

---
 lib/Distribution/embedDB.c | 7 ++++++-
 src/embedDB/embedDB.c      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 45d29a4..d6dff99 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1802,6 +1802,10 @@ int8_t preparePut(embedDBState *state, void *key) {
 int8_t prepareIndexPage(embedDBState *state) {
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* The data pages have to reach the storage before their bitmaps do. Otherwise, the bitmaps may outlive the pages they describe. */
+        if (state->fileInterface->flush(state->dataFile) != 1)
+            return -1;
+
         /* Save index page */
         if (writeIndexPage(state, buf) == -1)
             return -1;
@@ -2580,7 +2584,8 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
+    /* The bitmaps stay in the index buffer if the data pages they describe may not have reached the storage */
+    if (EMBEDDB_USING_INDEX(state->parameters) && flushResult == 1) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b817d01..22abe78 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1327,6 +1327,10 @@ int8_t preparePut(embedDBState *state, void *key) {
 int8_t prepareIndexPage(embedDBState *state) {
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
     if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* The data pages have to reach the storage before their bitmaps do. Otherwise, the bitmaps may outlive the pages they describe. */
+        if (state->fileInterface->flush(state->dataFile) != 1)
+            return -1;
+
         /* Save index page */
         if (writeIndexPage(state, buf) == -1)
             return -1;
@@ -2105,7 +2109,8 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
+    /* The bitmaps stay in the index buffer if the data pages they describe may not have reached the storage */
+    if (EMBEDDB_USING_INDEX(state->parameters) && flushResult == 1) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
-- 
2.43.0


From 4b141899403b13af3b74a5e9c7fde73be8d42517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 45/47] fix: example read an 8-byte record into a 3-byte buffer

---
 src/embedDBExample.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/embedDBExample.h b/src/embedDBExample.h
index ecb42a7..fc87002 100644
--- a/src/embedDBExample.h
+++ b/src/embedDBExample.h
@@ -204,7 +204,7 @@ uint32_t embedDBExample() {
     embedDBVarDataStream* varStream = NULL;
 
     // allocate memory to read fixed data into.
-    char fixedRec[] = {0, 0, 0};
+    uint32_t fixedRec[] = {0, 0, 0};
 
     // allocate buffer to read variable record into.
     uint32_t varRecSize = 12;  // This must be at least the same size of the variable record.
-- 
2.43.0


From 831509d831f4c49660972137754eebdeefc5f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 46/47] fix: close the variable data file when its recovery
 fails

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d6dff99..b4cd1e5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1344,7 +1344,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 22abe78..abde93b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -869,7 +869,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0)) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
     }
 
-- 
2.43.0


From de28a30ac395259c0eee1eacd69f1a6d616a352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 47/47] fix: report a failed erase of the first variable data
 block during recovery

---
 lib/Distribution/embedDB.c | 26 ++++++++++++++++----------
 src/embedDB/embedDB.c      | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b4cd1e5..1760ce5 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -537,7 +537,7 @@ bool isFilledPage(embedDBState *state, void *buffer);
 bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
-bool firstVarPageHasKeyZero(embedDBState *state);
+int8_t firstVarPageHasKeyZero(embedDBState *state);
 int32_t findIndexEntry(embedDBState *state, id_t dataPage);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -1379,9 +1379,9 @@ bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId
  * @brief	Decides if variable page 0 in the read buffer was written for a record with key 0 or is filled with zeros.
  * 			The page is back in the read buffer when the function returns.
  * @param	state	embedDB algorithm state structure
- * @return	Return true if the page holds variable data.
+ * @return	Return 1 if the page holds variable data, 0 if it does not and -1 if there was an error.
  */
-bool firstVarPageHasKeyZero(embedDBState *state) {
+int8_t firstVarPageHasKeyZero(embedDBState *state) {
     uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     id_t logicalPageId = 0;
 
@@ -1400,18 +1400,17 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     if (!written && readVariablePage(state, state->eraseSizeInPages) == 0)
         erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
     if (readVariablePage(state, 0) != 0)
-        return false;
+        return 0;
     if (written && !erased)
-        return true;
+        return 1;
 
     /* It was written if it has any content */
     for (uint16_t i = 0; i < state->pageSize; i++)
         if (buffer[i] != 0)
-            return true;
+            return 1;
     if (erased) {
         forgetBufferedPages(&state->bufferedVarPage, 0, state->eraseSizeInPages);
-        state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile);
-        return false;
+        return state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile) ? 0 : -1;
     }
 
     /* or if the record with key 0 refers to it */
@@ -1419,7 +1418,7 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     if (state->nextDataPageId > 0) {
         dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
         if (readPage(state, state->minDataPageId % state->numDataPages) != 0)
-            return false;
+            return 0;
     }
     uint64_t key = 0;
     uint32_t varDataAddr = EMBEDDB_NO_VAR_DATA;
@@ -1455,7 +1454,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we check if there is anything else which shows that the page was written.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
+            int8_t hasVarData = logicalVariablePageId != 0 || largestVarRecordId != 0 ? 1 : firstVarPageHasKeyZero(state);
+            if (hasVarData < 0) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                return -1;
+            }
+            if (hasVarData) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index abde93b..13df402 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -62,7 +62,7 @@ bool isFilledPage(embedDBState *state, void *buffer);
 bool isRecoverableDataPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableIndexPage(embedDBState *state, void *buffer, id_t physicalPageId);
 bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId);
-bool firstVarPageHasKeyZero(embedDBState *state);
+int8_t firstVarPageHasKeyZero(embedDBState *state);
 int32_t findIndexEntry(embedDBState *state, id_t dataPage);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
@@ -904,9 +904,9 @@ bool isRecoverableVarPage(embedDBState *state, void *buffer, id_t physicalPageId
  * @brief	Decides if variable page 0 in the read buffer was written for a record with key 0 or is filled with zeros.
  * 			The page is back in the read buffer when the function returns.
  * @param	state	embedDB algorithm state structure
- * @return	Return true if the page holds variable data.
+ * @return	Return 1 if the page holds variable data, 0 if it does not and -1 if there was an error.
  */
-bool firstVarPageHasKeyZero(embedDBState *state) {
+int8_t firstVarPageHasKeyZero(embedDBState *state) {
     uint8_t *buffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
     id_t logicalPageId = 0;
 
@@ -925,18 +925,17 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     if (!written && readVariablePage(state, state->eraseSizeInPages) == 0)
         erased = isRecoverableVarPage(state, buffer, state->eraseSizeInPages);
     if (readVariablePage(state, 0) != 0)
-        return false;
+        return 0;
     if (written && !erased)
-        return true;
+        return 1;
 
     /* It was written if it has any content */
     for (uint16_t i = 0; i < state->pageSize; i++)
         if (buffer[i] != 0)
-            return true;
+            return 1;
     if (erased) {
         forgetBufferedPages(&state->bufferedVarPage, 0, state->eraseSizeInPages);
-        state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile);
-        return false;
+        return state->fileInterface->erase(0, state->eraseSizeInPages, state->pageSize, state->varFile) ? 0 : -1;
     }
 
     /* or if the record with key 0 refers to it */
@@ -944,7 +943,7 @@ bool firstVarPageHasKeyZero(embedDBState *state) {
     if (state->nextDataPageId > 0) {
         dataBuffer = (uint8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
         if (readPage(state, state->minDataPageId % state->numDataPages) != 0)
-            return false;
+            return 0;
     }
     uint64_t key = 0;
     uint32_t varDataAddr = EMBEDDB_NO_VAR_DATA;
@@ -980,7 +979,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we check if there is anything else which shows that the page was written.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0 || firstVarPageHasKeyZero(state)) {
+            int8_t hasVarData = logicalVariablePageId != 0 || largestVarRecordId != 0 ? 1 : firstVarPageHasKeyZero(state);
+            if (hasVarData < 0) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                return -1;
+            }
+            if (hasVarData) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
-- 
2.43.0

