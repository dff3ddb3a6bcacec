From b3ceb98a50ad28e749b0cc853afee66ccb45f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:50 +0000
Subject: [PATCH 1/7] fix: make the self test verdict a full word

As the comment above it demands: as a bitfield, a concurrent update of a
neighboring bit by the thread reading from the instance may undo the verdict
set by a self test on another thread.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 165b9f803a6c906514ecbb234fc58962d729df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:50 +0000
Subject: [PATCH 2/7] fix: carry a failed self test over to the reallocated
 collector

A self test bound to an instance that failed while the instance was being
reallocated (or between the read that observed the intermittent health failure
and its recovery) was lost, reviving an instance that was to be out of service.
---
 src/jitterentropy-base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..b7ee7eb 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -443,6 +443,9 @@ static int jent_health_failure_reset(
 	memcpy(new_ec->uuid, (*ec)->uuid, sizeof(new_ec->uuid));
 	new_ec->reinit_count = (*ec)->reinit_count + 1;
 
+	/* A failed self test bound to the instance is final. */
+	new_ec->selftest_failed = (*ec)->selftest_failed;
+
 	/* Preserve the lifetime output accounting across the reallocation. */
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
-- 
2.43.0


From 840c1455d33eeb595971ad25ddcde1788aee04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:50 +0000
Subject: [PATCH 3/7] fix: unmark the self tests when they fail

An initialization whose SHA-3 self test failed left the mark of an earlier
successful one in place, and one whose GCD self test failed even set it. The
next allocation then skipped the self tests and succeeded.
---
 src/jitterentropy-base.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index b7ee7eb..f6f76c1 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1167,10 +1167,12 @@ static inline int jent_entropy_init_common_pre(unsigned int flags)
 		return ret;
 
 	ret = jent_gcd_selftest(flags);
+	if (ret)
+		return ret;
 
 	jent_atomic_store_int(&jent_selftest_run, 1);
 
-	return ret;
+	return 0;
 }
 
 static inline int jent_entropy_init_common_post(int ret)
@@ -1205,7 +1207,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1233,7 +1235,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From 9d36c2b8dbc76dc30b4e877d0e7f35c687ca284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:15 +0000
Subject: [PATCH 4/7] fix: refuse NTG.1 with a forced internal timer also after
 an initialization

---
 src/jitterentropy-base.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index f6f76c1..2683bbd 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -641,6 +641,12 @@ static struct rand_data
 	JENT_BUILD_BUG_ON(JENT_MIN_OSR < 1);
 	JENT_BUILD_BUG_ON(JENT_MIN_OSR > JENT_MAX_OSR);
 
+	/*
+	 * NTG.1 requires to disable the internal timer.
+	 */
+	if (flags & JENT_NTG1)
+		flags |= JENT_DISABLE_INTERNAL_TIMER;
+
 	/*
 	 * Requesting disabling and forcing of internal timer
 	 * makes no sense.
@@ -665,12 +671,6 @@ static struct rand_data
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
-	/*
-	 * NTG.1 requires to disable the internal timer.
-	 */
-	if (flags & JENT_NTG1)
-		flags |= JENT_DISABLE_INTERNAL_TIMER;
-
 	/*
 	 * If the initial test code concludes to force the internal timer
 	 * and the user requests it not to be used, do not allocate
-- 
2.43.0


From 6769a1f4c62c2f3f3d35dc450926f1b5c3d10c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:49 +0000
Subject: [PATCH 5/7] fix: do not let the variation sum of the timer deltas
 wrap

---
 src/jitterentropy-gcd.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/jitterentropy-gcd.c b/src/jitterentropy-gcd.c
index e5e2169..1df4ee8 100644
--- a/src/jitterentropy-gcd.c
+++ b/src/jitterentropy-gcd.c
@@ -89,6 +89,8 @@ static int jent_gcd_analyze_internal(uint64_t *delta_history, size_t nelem,
 
 	/* Now perform the analysis on the accumulated delta data. */
 	for (i = 1; i < nelem; i++) {
+		uint64_t variation;
+
 		/*
 		 * ensure that we have a varying delta timer which is necessary
 		 * for the calculation of entropy -- perform this check
@@ -96,9 +98,14 @@ static int jent_gcd_analyze_internal(uint64_t *delta_history, size_t nelem,
 		 * the old_data value
 		 */
 		if (delta_history[i] >= delta_history[i - 1])
-			delta_sum +=  delta_history[i] - delta_history[i - 1];
+			variation = delta_history[i] - delta_history[i - 1];
 		else
-			delta_sum +=  delta_history[i - 1] - delta_history[i];
+			variation = delta_history[i - 1] - delta_history[i];
+
+		/* Saturate: a step backwards in time is a delta near 2^64. */
+		delta_sum += variation;
+		if (delta_sum < variation)
+			delta_sum = ~(uint64_t)0;
 
 		/*
 		 * This calculates the gcd of all the delta values. that is
@@ -130,9 +137,10 @@ int jent_gcd_analyze(uint64_t *delta_history, size_t nelem, size_t osr)
 	 * We assume 1/osr bits of entropy per sample. On average, variations
 	 * of deltas must be larger than 1 over osr cases; we do not capture
 	 * fractions. Hence delta_sum < (nelem / osr) means we cannot satisfy the
-	 * 1/osr bits of entropy per sample assumption.
+	 * 1/osr bits of entropy per sample assumption. A sum of nelem or more
+	 * is sufficient for any osr, and its product with osr could wrap.
 	 */
-	if ((delta_sum * osr) < nelem) {
+	if (delta_sum < nelem && (delta_sum * osr) < nelem) {
 		ret = EMINVARVAR;
 		goto out;
 	}
-- 
2.43.0


From 65f479a74c3e6de4a461e9e64e2e1cc4cbfa9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 6/7] fix: do not let the cache size sum wrap

A sum of the cache sizes of 2 GB or more wrapped the 32-bit arithmetic and
made the working-set size zero or too small.  Saturate at 2^31, the caller
caps at 512 MB anyway.
---
 arch/jitterentropy-arch-cache.c | 35 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/arch/jitterentropy-arch-cache.c b/arch/jitterentropy-arch-cache.c
index e0bace9..ba47cb4 100644
--- a/arch/jitterentropy-arch-cache.c
+++ b/arch/jitterentropy-arch-cache.c
@@ -149,28 +149,41 @@
 
 #endif /* LINUX_KERNEL */
 
+/* The largest power of two the working-set size can be rounded up to. */
+#define JENT_CACHE_ROUNDUP_MAX	(UINT32_C(1) << 31)
+
+/* Add a cache size to a sum; any size beyond the maximum counts as that. */
+static uint64_t jent_cache_size_add(uint64_t sum, long size)
+{
+	uint64_t val = (size > 0) ? (uint64_t)size : 0;
+
+	return sum + (val < JENT_CACHE_ROUNDUP_MAX ? val :
+						     JENT_CACHE_ROUNDUP_MAX);
+}
+
 /*
  * Combine the discovered L1/L2/L3 data-cache sizes into the memory working-set
- * size: the smallest power of two strictly greater than the summed cache size,
- * or 0 when nothing was discovered.
+ * size: the smallest power of two strictly greater than the summed cache size
+ * (limited to JENT_CACHE_ROUNDUP_MAX), or 0 when nothing was discovered.
  */
 static uint32_t jent_cache_roundup_from_sizes(long l1, long l2, long l3,
 					      int all_caches)
 {
-	uint32_t cache_size = 0;
-
 	/* Cache size reported by system */
-	if (l1 > 0)
-		cache_size += (uint32_t)l1;
+	uint64_t sum = jent_cache_size_add(0, l1);
+	uint32_t cache_size;
+
 	if (all_caches) {
-		if (l2 > 0)
-			cache_size += (uint32_t)l2;
-		if (l3 > 0)
-			cache_size += (uint32_t)l3;
+		sum = jent_cache_size_add(sum, l2);
+		sum = jent_cache_size_add(sum, l3);
 	}
 
-	if (cache_size == 0)
+	if (sum == 0)
 		return 0;
+	if (sum >= JENT_CACHE_ROUNDUP_MAX)
+		return JENT_CACHE_ROUNDUP_MAX;
+
+	cache_size = (uint32_t)sum;
 
 	/* Force the output_size to be of the form (bounding_power_of_2 - 1). */
 	cache_size |= (cache_size >> 1);
-- 
2.43.0


From e1daecb939b7217b1de29620030a2702f472c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:34 +0000
Subject: [PATCH 7/7] fix: do not force the internal timer because memory was
 refused

A failed allocation during the platform clock test made the initialization
try the internal timer, which forces it for the life of the process. On a
single CPU system no initialization could succeed any more afterwards, and
elsewhere NTG.1 and JENT_DISABLE_INTERNAL_TIMER allocations were refused for
good because of a transient shortage.
---
 src/jitterentropy-base.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 2683bbd..8986e93 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1212,7 +1212,11 @@ int jent_entropy_init(void)
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
-	if (ret)
+	/*
+	 * A refused allocation says nothing about the clock and must not force
+	 * the internal timer for the life of the process.
+	 */
+	if (ret && ret != EMEM)
 		ret = jent_time_entropy_init(0, JENT_FORCE_INTERNAL_TIMER);
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
 
@@ -1267,9 +1271,11 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	 * rather than with a verdict on the platform clock - so one
 	 * intermittent health test failure, a normal event with the tighter
 	 * NTG.1 cutoffs, would put NTG.1 out of action for the life of the
-	 * process.
+	 * process. For the same reason a refused allocation, which says nothing
+	 * about the clock, is reported instead of trying the internal timer.
 	 */
-	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
+	if (ret && ret != EMEM &&
+	    !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
 		ret = jent_time_entropy_init(osr,
 					     flags | JENT_FORCE_INTERNAL_TIMER);
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
-- 
2.43.0

